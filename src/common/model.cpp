#include "common/membuf.h"
#include "common/model.h"

#include <cmath>
#include <sstream>

#include "mdf/ichannelobserver.h"
#include "mdf/mdflogstream.h"
#include "mdf/samplerecord.h"

using namespace mdf;

namespace model {

void NoLog() {
  static bool done = false;
  if (done) return;
  done = true;
  MdfLogStream::SetLogFunction1([](const MdfLocation&, MdfLogSeverity, const std::string&) {});
}

bool IsText(const ChSpec& c) {
  return c.dt == ChannelDataType::StringAscii || c.dt == ChannelDataType::StringUTF8 ||
         c.dt == ChannelDataType::StringUTF16Le || c.dt == ChannelDataType::StringUTF16Be;
}
bool IsBytes(const ChSpec& c) {
  return c.dt == ChannelDataType::ByteArray || c.dt == ChannelDataType::MimeSample ||
         c.dt == ChannelDataType::MimeStream;
}
bool IsUnsigned(const ChSpec& c) {
  return c.dt == ChannelDataType::UnsignedIntegerLe || c.dt == ChannelDataType::UnsignedIntegerBe;
}
bool IsSigned(const ChSpec& c) {
  return c.dt == ChannelDataType::SignedIntegerLe || c.dt == ChannelDataType::SignedIntegerBe;
}
bool IsFloat(const ChSpec& c) { return c.dt == ChannelDataType::FloatLe || c.dt == ChannelDataType::FloatBe; }
bool IsVlsd(const ChSpec& c) { return (IsText(c) || IsBytes(c)) && c.bytes == 0; }
bool IsVirtual(const ChSpec& c) { return c.type == ChannelType::VirtualMaster || c.type == ChannelType::VirtualData; }
static bool IsCanOpen(const ChSpec& c) {
  return c.dt == ChannelDataType::CanOpenDate || c.dt == ChannelDataType::CanOpenTime;
}

std::string Describe(const ChSpec& c) {
  std::ostringstream s;
  s << c.name << "(t" << int(c.type) << " dt" << int(c.dt) << " b" << c.bytes << (c.inv ? " inv" : "")
    << (c.auto_time ? " auto" : "") << ")";
  return s.str();
}

std::string Meas::Describe() const {
  std::ostringstream s;
  for (size_t d = 0; d < dg.size(); ++d) {
    s << "DG" << d << "{";
    for (const auto& cg : dg[d].cg) {
      s << cg.name << "[";
      for (const auto& c : cg.ch) s << model::Describe(c) << " ";
      s << "] ";
    }
    s << "} ";
  }
  s << rec.size() << " records";
  return s.str();
}

static const std::vector<uint64_t> kIntBytes = {1, 2, 4, 8};

std::vector<DgSpec> GenLayout(vp::Gen& g, const GenOpts& o) {
  std::vector<DgSpec> list;
  const size_t nof_dg = 1 + (g.Chance(1, 3) ? g.Draw(o.max_dg - 1) : 0);
  const bool big = o.big && g.Chance(1, 60);
  for (size_t d = 0; d < nof_dg; ++d) {
    DgSpec dg;
    size_t nof_cg = 1 + g.Draw(o.max_cg - 1);
    // More groups than a one byte record identifier can number.
    const bool many = !o.mdf3 && o.many && d == 0 && g.Chance(1, 400);
    if (many) nof_cg = 250 + g.Draw(20);
    for (size_t n = 0; n < nof_cg; ++n) {
      CgSpec cg;
      // MDF3 channel groups have no name.
      if (!o.mdf3) cg.name = "Group" + std::to_string(d) + "_" + std::to_string(n);
      const uint64_t master = g.Draw(5);
      if (master < 4) {
        ChSpec c;
        c.name = "Time";
        c.unit = "s";
        c.type = ChannelType::Master;
        c.sync = ChannelSyncType::Time;
        c.dt = ChannelDataType::FloatLe;
        c.bytes = 8;
        c.auto_time = true;
        if (master == 1) c.dt = ChannelDataType::FloatBe;
        if (master == 2) c.auto_time = false;
        if (master == 3) {
          if (o.mdf3) {
            c.bytes = 4;
          } else {
            c.type = ChannelType::VirtualMaster;
            c.dt = ChannelDataType::UnsignedIntegerLe;
            c.bytes = 0;
            c.auto_time = false;
          }
        }
        cg.ch.push_back(c);
      }
      size_t nof_ch = 1 + g.Draw(o.max_ch - 1);
      // Many channels, i.e. several bytes of invalidation bits.
      const bool wide = o.wide && !big && !many && g.Chance(1, 25);
      if (wide) nof_ch = 7 + g.Draw(20);
      if (many) nof_ch = 1;
      const bool all_inv = wide && g.Bool();
      for (size_t k = 0; k < nof_ch; ++k) {
        ChSpec c;
        c.name = "Ch" + std::to_string(k) + "_" + g.Ident(6);
        c.unit = g.Chance(1, 2) ? g.Ident(5) : "";
        switch (g.Draw(o.mdf3 ? 5 : (o.vlsd ? 9 : 6))) {
          case 0:
            c.dt = g.Bool() ? ChannelDataType::UnsignedIntegerBe : ChannelDataType::UnsignedIntegerLe;
            c.bytes = g.Pick(kIntBytes);
            break;
          case 1:
            c.dt = g.Bool() ? ChannelDataType::SignedIntegerBe : ChannelDataType::SignedIntegerLe;
            c.bytes = g.Pick(kIntBytes);
            break;
          case 2:
            c.dt = g.Bool() ? ChannelDataType::FloatBe : ChannelDataType::FloatLe;
            c.bytes = g.Bool() ? 4 : 8;
            break;
          case 3:
            c.dt = (g.Bool() && !o.mdf3) ? ChannelDataType::StringUTF8 : ChannelDataType::StringAscii;
            c.bytes = 1 + g.Size(40);
            break;
          case 4:
            c.dt = ChannelDataType::ByteArray;
            if (!o.mdf3 && g.Chance(1, 4)) c.dt = g.Bool() ? ChannelDataType::MimeSample : ChannelDataType::MimeStream;
            c.bytes = 1 + g.Size(40);
            if (big && o.mdf3) c.bytes = 1000 + g.Draw(7191);
            else if (big && k == 0) c.bytes = 20000 + g.Draw(80000);
            break;
          case 5:
            c.dt = g.Bool() ? ChannelDataType::CanOpenTime : ChannelDataType::CanOpenDate;
            c.bytes = c.dt == ChannelDataType::CanOpenDate ? 7 : 6;
            break;
          case 6:
            c.type = g.Chance(1, 3) ? ChannelType::VirtualData : ChannelType::Sync;
            c.sync = ChannelSyncType::Time;
            c.dt = ChannelDataType::UnsignedIntegerLe;
            c.bytes = c.type == ChannelType::VirtualData ? 0 : 4;
            break;
          case 7:
            c.dt = g.Bool() ? ChannelDataType::StringUTF8 : ChannelDataType::StringAscii;
            c.bytes = 0;
            if (g.Bool()) c.type = ChannelType::VariableLength;
            break;
          default:
            c.dt = g.Chance(1, 4) ? ChannelDataType::MimeSample : ChannelDataType::ByteArray;
            c.bytes = 0;
            if (g.Bool()) c.type = ChannelType::VariableLength;
            break;
        }
        if (!o.mdf3 && !IsVirtual(c)) c.inv = all_inv || g.Chance(1, 3);
        cg.ch.push_back(c);
      }
      // A record holds at least one stored channel.
      bool stored = false;
      for (const auto& c : cg.ch) stored |= !IsVirtual(c);
      if (!stored) {
        auto& c = cg.ch.back();
        c.type = ChannelType::FixedLength;
        c.sync = ChannelSyncType::None;
        c.bytes = 2;
      }
      dg.cg.push_back(cg);
    }
    list.push_back(dg);
  }
  return list;
}

Val GenVal(vp::Gen& g, const ChSpec& c) {
  Val v;
  if (c.inv) v.valid = !g.Chance(1, 3);
  if (IsVirtual(c)) return v;
  if (IsUnsigned(c)) {
    v.u = g.InterestingUnsigned(static_cast<unsigned>(c.bytes * 8));
  } else if (IsSigned(c)) {
    v.i = g.InterestingSigned(static_cast<unsigned>(c.bytes * 8));
  } else if (IsFloat(c)) {
    v.d = c.bytes == 4 ? g.InterestingFloat() : g.InterestingDouble();
  } else if (IsText(c)) {
    const size_t max = c.bytes > 0 ? static_cast<size_t>(c.bytes) - 1 : (g.Chance(1, 10) ? 5000 : 60);
    v.s = c.dt == ChannelDataType::StringUTF8 ? g.Text(max) : g.Ascii(max);
    if (max == 5000 && g.Bool()) v.s += std::string(static_cast<size_t>(g.Draw(20000)), 'x');
  } else if (IsBytes(c)) {
    const size_t max = c.bytes > 0 ? static_cast<size_t>(c.bytes) : (g.Chance(1, 10) ? 20000 : 80);
    v.b = g.Bytes(c.bytes > 1000 ? max : g.Size(max));
  } else if (c.dt == ChannelDataType::CanOpenDate) {
    // 1970 .. 2069, millisecond resolution
    v.u = g.Draw(3155759999999ull) * 1000000ull;
  } else if (c.dt == ChannelDataType::CanOpenTime) {
    v.u = (441763200000ull + g.Draw(65535ull * 86400000ull)) * 1000000ull;
  }
  return v;
}

Meas GenMeas(vp::Gen& g, const GenOpts& o) {
  Meas m;
  m.dg = GenLayout(g, o);
  m.start = 1500000000000000000ull + g.Draw(400000000) * 1000000000ull + g.Draw(999999999);
  uint64_t t = m.start;
  bool big = false;
  for (auto& d : m.dg)
    for (auto& cg : d.cg)
      for (auto& c : cg.ch) big |= c.bytes > 1000;
  size_t n = g.Size(o.max_rec);
  if (big) n = o.mdf3 ? 4 + g.Draw(30) : 40 + g.Draw(80) + (g.Chance(1, 4) ? 160 : 0);
  std::vector<std::pair<size_t, size_t>> groups;
  for (size_t d = 0; d < m.dg.size(); ++d)
    for (size_t k = 0; k < m.dg[d].cg.size(); ++k) groups.emplace_back(d, k);
  std::vector<std::vector<Val>> last(groups.size());
  for (size_t i = 0; i < n; ++i) {
    const size_t gi = big ? (g.Chance(1, 5) ? g.Draw(groups.size() - 1) : 0) : g.Draw(groups.size() - 1);
    Rec r;
    r.dg = groups[gi].first;
    r.cg = groups[gi].second;
    r.time = t;
    t += g.Chance(1, 4) ? g.Draw(5000000000ull) : g.Draw(2000000);
    const auto& ch = m.dg[r.dg].cg[r.cg].ch;
    for (size_t k = 0; k < ch.size(); ++k) {
      const bool set = !(o.leave_unset && !last[gi].empty() && g.Chance(1, 8));
      r.set.push_back(set);
      r.v.push_back(set ? GenVal(g, ch[k]) : last[gi][k]);
    }
    last[gi] = r.v;
    m.rec.push_back(std::move(r));
  }
  m.stop = t + 1000000000ull;
  return m;
}

Created CreateConfig(MdfWriter& w, const std::vector<DgSpec>& dg_list) {
  Created out;
  for (const auto& dg : dg_list) {
    auto* d = w.CreateDataGroup();
    vp::Check(d != nullptr, "CreateDataGroup failed");
    out.dg.push_back(d);
    out.cg.emplace_back();
    out.ch.emplace_back();
    for (const auto& cg : dg.cg) {
      auto* k = MdfWriter::CreateChannelGroup(d);
      vp::Check(k != nullptr, "CreateChannelGroup failed");
      k->Name(cg.name);
      out.cg.back().push_back(k);
      out.ch.back().emplace_back();
      for (const auto& c : cg.ch) {
        auto* n = MdfWriter::CreateChannel(k);
        vp::Check(n != nullptr, "CreateChannel failed");
        n->Name(c.name);
        if (!c.unit.empty()) n->Unit(c.unit);
        n->Type(c.type);
        n->Sync(c.sync);
        n->DataType(c.dt);
        if (c.bytes > 0 && c.bytes < 100 && c.bytes % 2 == c.name.size() % 2) n->BitCount(static_cast<uint32_t>(c.bytes * 8));
        else n->DataBytes(c.bytes);
        if (c.inv) n->Flags(CnFlag::InvalidValid);
        if (c.type == ChannelType::Master) n->CalculateMasterTime(c.auto_time);
        out.ch.back().back().push_back(n);
      }
    }
  }
  return out;
}

void SetValue(IChannel& ch, const ChSpec& c, const Val& v, bool as_text) {
  if (IsVirtual(c) || c.auto_time) return;
  if (as_text && IsUnsigned(c)) ch.SetChannelValue(std::to_string(v.u), v.valid);
  else if (as_text && IsSigned(c)) ch.SetChannelValue(std::to_string(v.i), v.valid);
  else if (as_text && IsFloat(c) && (v.d == 0 || std::isnormal(v.d))) {
    std::ostringstream s;
    s.precision(17);
    s << v.d;
    ch.SetChannelValue(s.str(), v.valid);
  } else if (as_text && IsBytes(c)) ch.SetChannelValue(std::string(v.b.begin(), v.b.end()), v.valid);
  else if (IsUnsigned(c)) ch.SetChannelValue(v.u, v.valid);
  else if (IsSigned(c)) ch.SetChannelValue(v.i, v.valid);
  else if (IsFloat(c)) {
    if (c.bytes == 4) ch.SetChannelValue(static_cast<float>(v.d), v.valid);
    else ch.SetChannelValue(v.d, v.valid);
  } else if (IsText(c)) ch.SetChannelValue(v.s, v.valid);
  else if (IsBytes(c)) ch.SetChannelValue(v.b, v.valid);
  else if (IsCanOpen(c)) ch.SetChannelValue(v.u, v.valid);
}

void SaveRec(MdfWriter& w, const Created& c, const std::vector<DgSpec>& dg, const Rec& r, int how, bool as_text) {
  const auto& spec = dg[r.dg].cg[r.cg].ch;
  for (size_t k = 0; k < spec.size(); ++k) {
    if (r.set.empty() || r.set[k]) SetValue(*c.ch[r.dg][r.cg][k], spec[k], r.v[k], as_text);
  }
  const IChannelGroup& cg = *c.cg[r.dg][r.cg];
  const IDataGroup& d = *c.dg[r.dg];
  if (how == 0) w.SaveSample(cg, r.time);
  else if (how == 1) w.SaveSample(d, cg, r.time);
  else {
    SampleRecord rec = cg.GetSampleRecord();
    w.AddSample(d, cg, r.time, std::move(rec));
  }
}

// ISO text (UTC) with milliseconds.
std::string DateText(uint64_t ns) {
  const int64_t ms = static_cast<int64_t>(ns / 1000000);
  int64_t z = ms / 86400000 + 719468;
  const int64_t day_ms = ms % 86400000;
  const int64_t era = z / 146097, doe = z % 146097;
  const int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  const int64_t day = doy - (153 * mp + 2) / 5 + 1, month = mp < 10 ? mp + 3 : mp - 9;
  const int64_t year = yoe + era * 400 + (month <= 2 ? 1 : 0);
  char buf[64];
  std::snprintf(buf, sizeof(buf), "%04d-%02d-%02d %02d:%02d:%02d.%03d", int(year), int(month), int(day),
                int(day_ms / 3600000), int(day_ms / 60000 % 60), int(day_ms / 1000 % 60), int(day_ms % 1000));
  if (day_ms % 1000 == 0) buf[19] = 0;
  return buf;
}

Val ReadVal(const IChannelObserver& obs, const ChSpec& c, uint64_t sample) {
  Val v;
  if (IsUnsigned(c) || IsCanOpen(c)) {
    v.valid = obs.GetChannelValue(sample, v.u);
    if (v.valid && IsCanOpen(c)) {
      std::string text;
      const bool ok = obs.GetChannelValue(sample, text);
      vp::CheckEq(true, ok, "valid flag (text) of " + c.name);
      vp::CheckEq(DateText(v.u), text, "text of the date channel " + c.name);
    }
    if (v.valid && IsUnsigned(c)) {
      std::string text;
      const bool ok = obs.GetChannelValue(sample, text);
      vp::CheckEq(true, ok, "valid flag (text) of " + c.name);
      vp::CheckEq(std::to_string(v.u), text, "text of unsigned channel " + c.name);
    }
  } else if (IsSigned(c)) {
    v.valid = obs.GetChannelValue(sample, v.i);
    if (v.valid) {
      std::string text;
      obs.GetChannelValue(sample, text);
      vp::CheckEq(std::to_string(v.i), text, "text of signed channel " + c.name);
    }
  } else if (IsFloat(c)) {
    v.valid = obs.GetChannelValue(sample, v.d);
  } else if (IsText(c)) {
    v.valid = obs.GetChannelValue(sample, v.s);
  } else if (IsBytes(c)) {
    v.valid = obs.GetChannelValue(sample, v.b);
  }
  return v;
}

ReadFile ReadAll(MdfReader& r, const std::vector<DgSpec>& layout, size_t first_dg) {
  ReadFile out;
  const auto* header = r.GetHeader();
  vp::Check(header != nullptr, "no header read");
  const auto dg_list = header->DataGroups();
  vp::CheckEq(first_dg + layout.size() <= dg_list.size(), true,
              "number of data groups (" + std::to_string(dg_list.size()) + ")");
  for (size_t d = 0; d < layout.size(); ++d) {
    auto* dg = dg_list[first_dg + d];
    out.emplace_back();
    const auto cg_list = dg->ChannelGroups();
    vp::CheckEq(layout[d].cg.size(), cg_list.size(), "number of channel groups in DG " + std::to_string(d));
    ChannelObserverList observers;
    std::vector<std::vector<size_t>> index;
    for (size_t k = 0; k < cg_list.size(); ++k) {
      const auto& spec = layout[d].cg[k];
      ReadCg got;
      got.name = cg_list[k]->Name();
      got.nof_samples = cg_list[k]->NofSamples();
      const auto cn_list = cg_list[k]->Channels();
      vp::CheckEq(spec.ch.size(), cn_list.size(), "number of channels in " + spec.name);
      index.emplace_back();
      for (size_t c = 0; c < spec.ch.size(); ++c) {
        vp::CheckEq(spec.ch[c].name, cn_list[c]->Name(), "channel name");
        auto obs = CreateChannelObserver(*dg, *cg_list[k], *cn_list[c]);
        vp::Check(static_cast<bool>(obs), "no observer for " + spec.ch[c].name);
        index.back().push_back(observers.size());
        observers.push_back(std::move(obs));
      }
      out.back().push_back(std::move(got));
    }
    vp::Check(r.ReadData(*dg), "ReadData() returned false");
    for (size_t k = 0; k < cg_list.size(); ++k) {
      const auto& spec = layout[d].cg[k];
      auto& got = out.back()[k];
      for (size_t c = 0; c < spec.ch.size(); ++c) {
        const auto& obs = *observers[index[k][c]];
        vp::CheckEq(got.nof_samples, obs.NofSamples(), "observer sample count");
        std::vector<Val> values;
        for (uint64_t s = 0; s < got.nof_samples; ++s) values.push_back(ReadVal(obs, spec.ch[c], s));
        got.ch.push_back(std::move(values));
      }
    }
    observers.clear();
    dg->ClearData();
  }
  return out;
}

std::string ValText(const ChSpec& c, const Val& v) {
  std::ostringstream s;
  s.precision(17);
  if (!v.valid) s << "invalid:";
  if (IsUnsigned(c) || IsCanOpen(c)) s << v.u;
  else if (IsSigned(c)) s << v.i;
  else if (IsFloat(c)) s << v.d;
  else if (IsText(c)) s << vp::Quote(v.s);
  else if (IsBytes(c)) s << vp::Hex(v.b);
  return s.str();
}

void CompareVal(const ChSpec& c, const Val& expected, const Val& got, uint64_t rel_sample, int64_t rel_ns,
                const std::string& ctx) {
  auto fail = [&](const std::string& e) {
    vp::Fail(ctx + " channel " + Describe(c) + " sample " + std::to_string(rel_sample) + ": expected " + e + " got " +
             ValText(c, got));
  };
  if (IsVirtual(c)) {
    if (!got.valid || got.u != rel_sample) fail(std::to_string(rel_sample));
    return;
  }
  if (c.auto_time) {
    const double sec = static_cast<double>(rel_ns) / 1e9;
    const double tol = c.bytes == 4 ? std::fabs(sec) * 1e-6 + 1e-9 : std::fabs(sec) * 1e-14 + 1e-12;
    if (!got.valid || !(std::fabs(got.d - sec) <= tol)) {
      std::ostringstream s;
      s.precision(17);
      s << sec;
      fail(s.str());
    }
    return;
  }
  if (expected.valid != got.valid) fail(ValText(c, expected));
  if (!expected.valid) return;
  bool same = true;
  if (IsUnsigned(c) || IsCanOpen(c)) same = expected.u == got.u;
  else if (IsSigned(c)) same = expected.i == got.i;
  else if (IsFloat(c)) same = expected.d == got.d;
  else if (IsText(c)) same = expected.s == got.s;
  else if (IsBytes(c)) {
    auto e = expected.b;
    if (c.bytes > 0) e.resize(static_cast<size_t>(c.bytes), 0);
    same = e == got.b;
  }
  if (!same) fail(ValText(c, expected));
}

void Compare(const std::vector<DgSpec>& dg, const std::vector<Rec>& rec, uint64_t start, const ReadFile& got,
             const std::string& ctx) {
  std::vector<std::vector<uint64_t>> count(dg.size());
  for (size_t d = 0; d < dg.size(); ++d) count[d].resize(dg[d].cg.size(), 0);
  for (const auto& r : rec) ++count[r.dg][r.cg];
  for (size_t d = 0; d < dg.size(); ++d) {
    for (size_t k = 0; k < dg[d].cg.size(); ++k) {
      vp::CheckEq(dg[d].cg[k].name, got[d][k].name, ctx + " group name");
      vp::CheckEq(count[d][k], got[d][k].nof_samples, ctx + " number of samples in " + dg[d].cg[k].name);
      count[d][k] = 0;
    }
  }
  for (const auto& r : rec) {
    const uint64_t s = count[r.dg][r.cg]++;
    const auto& spec = dg[r.dg].cg[r.cg];
    for (size_t c = 0; c < spec.ch.size(); ++c) {
      CompareVal(spec.ch[c], r.v[c], got[r.dg][r.cg].ch[c][s], s,
                 static_cast<int64_t>(r.time) - static_cast<int64_t>(start), ctx + " " + spec.name);
    }
  }
}

void LongRun(vp::Gen& g, bool mdf3) {
  NoLog();
  const bool array = !mdf3 && g.Chance(1, 3), text = !mdf3 && !array && g.Chance(1, 3), compress = !mdf3 && g.Bool();
  const auto type = mdf3 ? MdfWriterType::Mdf3Basic : g.Bool() ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  const size_t n = 65500 + g.Draw(1) * g.Draw(3000) + g.Draw(80);
  const size_t every = 1 + g.Draw(1) * (1 + g.Draw(1000));  // 1: there is only one group
  const uint64_t start = 1600000000000000000ull;
  const uint64_t mul = 1 + 2 * g.Draw(1000000);
  auto value = [&](size_t i) { return static_cast<uint32_t>((i + 1) * mul); };
  auto str = [&](size_t i) { return i % 17 == 0 ? std::string() : "t" + std::to_string(i); };
  size_t other = 0;
  auto buffer = std::make_shared<MemBuf>();
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(w->Init(buffer), "Init");
    w->CompressData(compress);
    auto* dg = w->CreateDataGroup();
    auto* cg = MdfWriter::CreateChannelGroup(dg);
    if (!mdf3) cg->Name("Long");
    auto channel = [&](IChannelGroup* group, const char* name, ChannelDataType dt, uint64_t bytes) {
      auto* cn = MdfWriter::CreateChannel(group);
      cn->Name(name);
      cn->DataType(dt);
      cn->DataBytes(bytes);
      return cn;
    };
    auto* t = channel(cg, "Time", ChannelDataType::FloatLe, 8);
    t->Type(ChannelType::Master);
    t->Sync(ChannelSyncType::Time);
    auto* v = channel(cg, "Value", ChannelDataType::UnsignedIntegerLe, 4);
    if (array) v->CreateChannelArray()->Shape({2});
    auto* s = text ? channel(cg, "Text", ChannelDataType::StringUTF8, 0) : nullptr;
    IChannelGroup* cg2 = nullptr;
    IChannel* v2 = nullptr;
    if (every > 1) {
      cg2 = MdfWriter::CreateChannelGroup(dg);
      if (!mdf3) cg2->Name("Other");
      v2 = channel(cg2, "Value", ChannelDataType::UnsignedIntegerBe, 4);
    }
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(start);
    for (size_t i = 0; i < n; ++i) {
      v->SetChannelValue(value(i));
      if (array) v->SetChannelValue(~value(i), true, 1);
      if (text) s->SetChannelValue(str(i));
      w->SaveSample(*cg, start + i * 1000);
      if (every > 1 && i % every == 0) {
        v2->SetChannelValue(value(other++) ^ 0x55555555u);
        w->SaveSample(*cg2, start + i * 1000);
      }
    }
    w->StopMeasurement(start + n * 1000);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  MdfReader r(buffer);
  vp::Check(r.ReadEverythingButData(), "ReadEverythingButData");
  auto* dg = r.GetHeader()->DataGroups()[0];
  auto* cg = dg->ChannelGroups()[0];
  vp::CheckEq(static_cast<uint64_t>(n), cg->NofSamples(), "number of samples");
  auto ot = CreateChannelObserver(*dg, *cg, *cg->GetChannel("Time"));
  auto ov = CreateChannelObserver(*dg, *cg, *cg->GetChannel("Value"));
  ChannelObserverPtr os, o2;
  if (text) os = CreateChannelObserver(*dg, *cg, *cg->GetChannel("Text"));
  if (every > 1) {
    auto* cg2 = dg->ChannelGroups()[1];
    vp::CheckEq(static_cast<uint64_t>(other), cg2->NofSamples(), "number of samples of the other group");
    o2 = CreateChannelObserver(*dg, *cg2, *cg2->GetChannel("Value"));
  }
  vp::Check(r.ReadData(*dg), "ReadData");
  for (size_t i = 0; i < n; ++i) {
    double sec = 0;
    uint32_t x = 0;
    const bool ok = ot->GetChannelValue(i, sec) && ov->GetChannelValue(i, x);
    if (!ok || x != value(i) || std::fabs(sec - static_cast<double>(i) * 1e-6) > 1e-12)
      vp::Fail("sample " + std::to_string(i) + " of " + std::to_string(n) + ": " + (ok ? "expected " + std::to_string(value(i)) + " got " + std::to_string(x) + " at " + std::to_string(sec) : "invalid"));
    if (array && (!ov->GetChannelValue(i, x, 1) || x != ~value(i))) vp::Fail("sample " + std::to_string(i) + ": second element " + std::to_string(x));
    if (text) {
      std::string y;
      if (!os->GetChannelValue(i, y) || y != str(i)) vp::Fail("sample " + std::to_string(i) + ": text " + y);
    }
  }
  for (size_t i = 0; i < other; ++i) {
    uint32_t x = 0;
    if (!o2->GetChannelValue(i, x) || x != (value(i) ^ 0x55555555u)) vp::Fail("sample " + std::to_string(i) + " of the other group");
  }
  // A part around the limit of sixteen bits.
  const size_t lo = 65400 + g.Draw(100), hi = lo + 1 + g.Draw(200);
  auto part = CreateChannelObserver(*dg, *cg, *cg->GetChannel("Value"));
  vp::Check(r.ReadPartialData(*dg, lo, hi), "ReadPartialData");
  for (size_t i = lo; i < hi && i < n; ++i) {
    uint32_t x = 0;
    if (!part->GetChannelValue(i, x) || x != value(i)) vp::Fail("part " + std::to_string(lo) + ".." + std::to_string(hi) + ", sample " + std::to_string(i) + ": " + std::to_string(x));
  }
  for (const size_t i : {size_t(0), lo - 65400, lo - 2, hi + 1}) {
    uint32_t x = 0;
    if (i < n && part->GetChannelValue(i, x)) vp::Fail("sample " + std::to_string(i) + " is outside the part that was read");
  }
  if (n > 65536) g.Nontrivial();
  if (array) g.Label("array");
  if (text) g.Label("text");
  if (compress) g.Label("compressed");
  if (every > 1) g.Label("two groups");
  g.Note() << n << " samples";
}
}  // namespace model
