// C05: pre-trigger time, start and stop select the samples of a measurement.
#include <cmath>
#include <sstream>

#include "common/io.h"
#include "common/model.h"
#include "common/sched.h"
#include "mdf/mdfhelper.h"
#include "mdf/ifilehistory.h"
#include "mdf/imdftimestamp.h"
#include "mdf/itimestamp.h"
#include "mdf/isampleobserver.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

void Window(vp::Gen& g) {
  NoLog();
  const auto n_type = g.Draw(3);
  const auto type = n_type < 2 ? MdfWriterType::Mdf4Basic : n_type == 2 ? MdfWriterType::Mdf3Basic : MdfWriterType::MdfBusLogger;
  const bool mdf3 = type == MdfWriterType::Mdf3Basic;
  const bool compress = !mdf3 && g.Bool();
  const bool to_file = g.Chance(1, 5);
  Io io(to_file, "window.mf4");
  GenOpts o;
  o.mdf3 = mdf3;
  o.max_cg = 2;
  o.max_ch = 2;
  o.big = false;
  o.many = false;
  o.wide = false;
  auto layout = GenLayout(g, o);
  // Each group has an automatic time and a channel that identifies the sample.
  for (auto& d : layout)
    for (auto& cg : d.cg) {
      ChSpec t;
      t.name = "Time";
      t.type = ChannelType::Master;
      t.sync = ChannelSyncType::Time;
      t.dt = ChannelDataType::FloatLe;
      t.bytes = 8;
      t.auto_time = true;
      if (!cg.ch.empty() && cg.ch[0].name == "Time") cg.ch[0] = t;
      else cg.ch.insert(cg.ch.begin(), t);
      ChSpec id;
      id.name = "Id";
      id.bytes = 4;
      cg.ch.push_back(id);
    }
  std::vector<std::pair<size_t, size_t>> groups;
  for (size_t d = 0; d < layout.size(); ++d)
    for (size_t k = 0; k < layout[d].cg.size(); ++k) groups.emplace_back(d, k);

  // Time steps and pre-trigger time of the same magnitude.
  const uint64_t unit = g.Pick({1000000000ull, 1000000ull, 60000000000ull});
  uint64_t pre_units = g.Chance(1, 4) ? 0 : g.Draw(40);
  const double pre_sec = static_cast<double>(pre_units * unit) / 1e9;
  const uint64_t pre_ns = pre_units * unit;
  uint64_t now = 1500000000000000000ull + g.Draw(1000000) * 1000000000ull;
  // The time stamps may also count from some other moment, so that the window begins before their zero. (A start time
  // of zero means not started.)
  const bool small = g.Chance(1, 6);
  if (small) now = 1 + g.Draw(30) * unit;
  auto step = [&] {
    if (g.Chance(1, 3)) return;
    now += g.Draw(4) * unit + (g.Chance(1, 4) ? g.Draw(unit - 1) : 0);
  };

  std::vector<Rec> rec;          // stored between init and stop
  uint64_t start = 0, stop = 0;
  uint64_t trimmed = 0;          // samples before this time may have been removed by a trim before the start
  const size_t nof_before = g.Chance(1, 5) ? 0 : g.Size(60), nof_meas = g.Size(30), nof_after = g.Draw(3);
  const unsigned density = static_cast<unsigned>(g.Draw(3));
  uint64_t ticks_before = 0;
  uint32_t id = 0;
  // Time of the last sample per data group.
  std::vector<uint64_t> last(layout.size(), 0);
  sched::Enable();
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(compress);
    w->PreTrigTime(pre_sec);
    vp::CheckEq(pre_ns, w->PreTrigTimeNs(), "pre-trigger time (ns)");
    auto c = CreateConfig(*w, layout);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    auto save = [&](bool keep) {
      const auto& gr = groups[g.Draw(groups.size() - 1)];
      Rec r;
      r.dg = gr.first;
      r.cg = gr.second;
      r.time = now;
      for (const auto& ch : layout[r.dg].cg[r.cg].ch) r.v.push_back(GenVal(g, ch));
      r.v.back().u = id++;
      // A value set by the user is replaced by the calculated time.
      if (g.Chance(1, 4)) c.ch[r.dg][r.cg][0]->SetChannelValue(12345.5);
      SaveRec(*w, c, layout, r, static_cast<int>(g.Draw(2)));
      if (keep) {
        last[r.dg] = now;
        rec.push_back(std::move(r));
      }
      step();
    };
    for (size_t i = 0; i < nof_before; ++i) {
      save(true);
      if (g.Chance(density, 5)) {
        sched::Tick();
        ++ticks_before;
        for (auto t : last) trimmed = std::max(trimmed, t > pre_ns ? t - pre_ns : 0);
      }
    }
    start = now;
    // The start may also be in the past.
    if (!g.Chance(1, 6)) trimmed = 0;
    else if (const auto back = g.Draw(10) * unit; back < now) start = now - back;
    if (g.Chance(1, 3)) {
      UtcTimestamp ts(start);
      w->StartMeasurement(ts);
    } else {
      w->StartMeasurement(start);
    }
    if (now < start) now = start;
    for (size_t i = 0; i < nof_meas; ++i) {
      if (g.Chance(density, 5)) sched::Tick();
      save(true);
    }
    stop = now;
    if (const auto back = g.Draw(5) * unit; g.Chance(1, 6) && back < now) stop = now - back;  // samples later than the stop may be kept
    w->StopMeasurement(stop);
    // Samples stored after the stop do not belong to the measurement.
    for (size_t i = 0; i < nof_after; ++i) save(false);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  sched::Disable();

  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  vp::CheckEq(layout.size(), r->GetHeader()->DataGroups().size(), "number of data groups");
  vp::CheckEq(start, r->GetHeader()->StartTime(), "start time of the header");
  const auto got = ReadAll(*r, layout);
  const uint64_t limit = start > pre_ns ? start - pre_ns : 0;
  const uint64_t must = std::max(limit, trimmed);
  size_t pre_found = 0, dropped = 0;
  for (size_t d = 0; d < layout.size(); ++d) {
    // The samples found, by identity.
    std::vector<int> found(id, 0);
    for (size_t k = 0; k < layout[d].cg.size(); ++k) {
      const auto& spec = layout[d].cg[k];
      uint64_t prev = 0;
      for (size_t s = 0; s < got[d][k].nof_samples; ++s) {
        const auto i = got[d][k].ch.back()[s].u;
        const Rec* e = nullptr;
        for (const auto& x : rec)
          if (x.v.back().u == i) e = &x;
        const std::string ctx = "sample " + std::to_string(s) + " of " + spec.name + " (id " + std::to_string(i) + ")";
        vp::Check(e != nullptr && e->dg == d && e->cg == k, ctx + " does not belong to the measurement");
        vp::Check(s == 0 || i > prev, ctx + " is out of order");
        prev = i;
        found[i] = 1;
        for (size_t c = 0; c < spec.ch.size(); ++c)
          CompareVal(spec.ch[c], e->v[c], got[d][k].ch[c][s], s,
                     static_cast<int64_t>(e->time) - static_cast<int64_t>(start), ctx);
      }
    }
    // Missing and superfluous samples.
    const Rec* before = nullptr;  // the last sample before the window
    for (const auto& x : rec)
      if (x.dg == d && x.time < limit) before = &x;
    for (const auto& x : rec) {
      if (x.dg != d) continue;
      const bool is = found[x.v.back().u] != 0;
      const std::string ctx = "sample with id " + std::to_string(x.v.back().u) + ", " +
                              std::to_string((static_cast<double>(x.time) - static_cast<double>(start)) / 1e9) +
                              " s after the start";
      if (x.time >= must && x.time <= stop && !is) vp::Fail(ctx + " is missing");
      if (x.time < limit && is && &x != before) vp::Fail(ctx + " is older than the pre-trigger time");
      if (x.time < start) ++(is ? pre_found : dropped);
    }
  }
  if (nof_before > 0 && (pre_found > 0 || dropped > 0)) g.Nontrivial();
  g.Label(mdf3 ? "mdf3" : "mdf4");
  if (compress) g.Label("compressed");
  if (start < pre_ns) g.Label("window begins before time zero");
  if (pre_found > 0) g.Label("samples before the start kept");
  if (dropped > 0) g.Label("samples before the start dropped");
  if (ticks_before > 0) g.Label("trimmed in the background");
  g.Note() << (mdf3 ? "mdf3" : "mdf4") << " pre=" << pre_sec << " s, " << nof_before << " before the start ("
           << pre_found << " kept, " << dropped << " dropped), " << nof_meas << " after it";
}

// The start may be given as a UTC, local or time zone stamp.
void Stamps(vp::Gen& g) {
  NoLog();
  const bool mdf3 = g.Chance(1, 4);
  const auto type = mdf3 ? MdfWriterType::Mdf3Basic : g.Chance(1, 4) ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic;
  Io io(g.Chance(1, 5), mdf3 ? "stamp.dat" : "stamp.mf4");
  struct Stamp {
    int kind;  // 0 number, 1 UTC, 2 local, 3 time zone
    uint64_t ns;
    int16_t tz, dst;
    std::unique_ptr<ITimestamp> stamp;
  };
  auto make = [&](uint64_t ns, bool number) {
    Stamp s{static_cast<int>(number ? g.Draw(3) : 1 + g.Draw(2)), ns, 0, 0, nullptr};
    if (s.kind == 1) s.stamp = std::make_unique<UtcTimestamp>(ns);
    if (s.kind == 2) s.stamp = std::make_unique<LocalTimestamp>(ns);  // TZ=UTC
    if (s.kind == 3) {
      s.tz = static_cast<int16_t>(g.Chance(1, 3) ? g.Int(-12, 14) * 60 : g.Int(-720, 840));
      s.dst = static_cast<int16_t>(g.Pick({0, 0, 30, 60, 120}));
      s.stamp = std::make_unique<TimezoneTimestamp>(ns, s.tz, s.dst);
    }
    return s;
  };
  const uint64_t start = 1000000000ull * (86400 + g.Draw(4000000000ull)) + g.Draw(999999999);
  const Stamp first = make(start, true), second = make(start + 5000000000ull, false), third = make(g.Draw(1ull << 60) + 86400000000000ull, true);
  const size_t n = 1 + g.Draw(5);
  std::vector<uint64_t> time;
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(io.Init(*w), "Init");
    if (!mdf3) {
      auto* fh = w->Header()->CreateFileHistory();
      fh->Description("history");
      if (third.kind == 0) fh->Time(third.ns);
      else fh->Time(*third.stamp);
    }
    auto* dg = w->CreateDataGroup();
    auto* cg = dg->CreateChannelGroup("Group");
    auto* t = cg->CreateChannel("Time");
    t->Type(ChannelType::Master);
    t->Sync(ChannelSyncType::Time);
    t->DataType(ChannelDataType::FloatLe);
    t->DataBytes(8);
    auto* v = cg->CreateChannel("Value");
    v->DataType(ChannelDataType::UnsignedIntegerLe);
    v->DataBytes(4);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    const size_t early = g.Draw(1);
    uint64_t now = start - early * 1000000;
    w->PreTrigTime(1.0);
    if (type == MdfWriterType::MdfConverter) now = start;
    auto save = [&] {
      v->SetChannelValue(static_cast<uint32_t>(time.size()));
      w->SaveSample(*cg, now);
      time.push_back(now);
      now += 1 + g.Draw(500000000);
    };
    if (early > 0 && type != MdfWriterType::MdfConverter) save();
    if (now < start) now = start;
    if (first.kind == 0) w->StartMeasurement(start);
    else w->StartMeasurement(*first.stamp);
    for (size_t i = 0; i < n; ++i) save();
    if (second.ns >= now) w->StopMeasurement(*second.stamp);
    else w->StopMeasurement(now);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  const auto* hd = r->GetHeader();
  auto check = [&](const Stamp& s, const IMdfTimestamp* got, uint64_t ns, const std::string& ctx) {
    vp::Check(got != nullptr, ctx + ": no time stamp");
    vp::CheckEq(ns, got->GetTimeNs(), ctx + ": GetTimeNs");
    if (mdf3) {
      vp::CheckEq(s.ns + static_cast<uint64_t>(int64_t{s.tz} * 60000000000), ns, ctx + ": local time");
      vp::CheckEq(s.tz / 60 * 60, static_cast<int>(static_cast<int16_t>(got->GetTzOffsetMin())), ctx + ": time zone");
      return;
    }
    vp::CheckEq(s.ns, ns, ctx + ": time");
    const auto kind = s.kind == 3 ? timetype::kTimezoneTime : s.kind == 2 ? timetype::kLocalTime : timetype::kUtcTime;
    vp::CheckEq(static_cast<int>(kind), static_cast<int>(got->GetTimeType()), ctx + ": kind of time");
    vp::CheckEq(static_cast<int>(s.tz), static_cast<int>(static_cast<int16_t>(got->GetTzOffsetMin())), ctx + ": time zone");
    vp::CheckEq(static_cast<int>(s.dst), static_cast<int>(static_cast<int16_t>(got->GetDstOffsetMin())), ctx + ": daylight saving");
  };
  check(first, hd->StartTimestamp(), hd->StartTime(), "start");
  if (!mdf3) {
    bool found = false;
    for (const auto* fh : hd->FileHistories()) {
      if (fh->Description() != "history") continue;
      found = true;
      check(third, fh->StartTimestamp(), fh->Time(), "file history");
    }
    vp::Check(found, "no file history");
  }
  auto* dg = hd->DataGroups()[0];
  auto* cg = dg->ChannelGroups()[0];
  auto ot = CreateChannelObserver(*dg, *cg, *cg->GetChannel("Time"));
  auto ov = CreateChannelObserver(*dg, *cg, *cg->GetChannel("Value"));
  vp::Check(r->ReadData(*dg), "ReadData");
  vp::CheckEq(time.size(), static_cast<size_t>(ov->NofSamples()), "number of samples");
  for (size_t i = 0; i < time.size(); ++i) {
    uint32_t x = 0;
    double sec = 0;
    vp::Check(ov->GetChannelValue(i, x) && ot->GetChannelValue(i, sec), "no value");
    vp::CheckEq(i, static_cast<size_t>(x), "sample");
    const double want = static_cast<double>(static_cast<int64_t>(time[i] - start)) / 1e9;
    if (std::abs(sec - want) > 1e-9) vp::Fail("time of sample " + std::to_string(i) + ": expected " + std::to_string(want) + " got " + std::to_string(sec));
  }
  const char* const kinds[] = {"number", "UTC", "local", "time zone"};
  g.Label(std::string(mdf3 ? "mdf3 " : "mdf4 ") + kinds[first.kind]);
  if (first.kind >= 2) g.Nontrivial();
  g.Note() << (mdf3 ? "mdf3 " : "mdf4 ") << kinds[first.kind] << " " << start << " tz " << first.tz << " dst " << first.dst;
}

// The master channel may be an integer or a float of any size and byte order, with a linear conversion: its value is
// the time since the start, up to the resolution of the channel.
void Masters(vp::Gen& g) {
  NoLog();
  const bool mdf3 = g.Chance(1, 3);
  const auto type = mdf3 ? MdfWriterType::Mdf3Basic
                         : g.Pick({MdfWriterType::Mdf4Basic, MdfWriterType::Mdf4Basic, MdfWriterType::MdfConverter, MdfWriterType::MdfBusLogger});
  Io io(g.Chance(1, 8), mdf3 ? "master.dat" : "master.mf4");
  struct Master {
    ChannelDataType dt;
    uint64_t bytes;
    bool conv, flag, automatic;
    double p0, p1, low, high;  // eng = p0 + p1 * raw
    ChannelSyncType sync;
    bool behind;  // another channel comes first in the record
    std::vector<uint64_t> time;
    std::vector<double> own;
  };
  std::vector<Master> list(1 + g.Draw(2));
  double high = 1e15, low = -1e15;
  for (auto& m : list) {
    m.dt = g.Pick({ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe, ChannelDataType::SignedIntegerLe,
                   ChannelDataType::SignedIntegerBe, ChannelDataType::FloatLe, ChannelDataType::FloatBe});
    const bool flt = m.dt == ChannelDataType::FloatLe || m.dt == ChannelDataType::FloatBe;
    const bool uns = m.dt == ChannelDataType::UnsignedIntegerLe || m.dt == ChannelDataType::UnsignedIntegerBe;
    m.bytes = flt ? 4 + 4 * g.Draw(1) : g.Pick({1ull, 2ull, 4ull, 8ull});
    m.conv = g.Chance(2, 3);
    m.p0 = m.conv ? g.Pick({0.0, 0.0, -1.0, 2.5}) : 0;
    m.p1 = m.conv ? g.Pick({1.0, 0.5, 0.1, 0.001, 1e-6, 1e-9}) : 1;
    m.automatic = !g.Chance(1, 6);
    m.sync = !mdf3 && !m.automatic && g.Bool() ? ChannelSyncType::Distance : ChannelSyncType::Time;
    // Another kind of master is never calculated.
    m.flag = m.automatic || m.sync != ChannelSyncType::Time;
    m.behind = g.Bool();
    double top = flt ? 1e15 : std::pow(2.0, static_cast<double>(8 * m.bytes - (uns ? 0 : 1))) - 1;
    if (top > 4e15) top = 4e15;
    m.low = m.p0 + (uns ? 0 : -top) * m.p1;
    m.high = m.p0 + top * m.p1;
    if (m.automatic) {
      high = std::min(high, m.high);
      low = std::max(low, m.low);
    }
  }
  if (high < 0) high = 0;
  const uint64_t start = 1500000000000000000ull + g.Draw(1000000000ull);
  const double span = std::min(high, 1e6);  // seconds
  const size_t n = 1 + g.Size(12);
  const size_t before = type != MdfWriterType::MdfConverter && low < 0 ? g.Draw(2) : 0;
  const auto back = static_cast<uint64_t>(std::min(-std::min(low, 0.0), 5.0) * 1e9);
  size_t outside = 0;
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(io.Init(*w), "Init");
    auto* dg = w->CreateDataGroup();
    std::vector<IChannelGroup*> cgs;
    std::vector<IChannel*> ts;
    std::vector<std::vector<IChannel*>> others;
    for (size_t k = 0; k < list.size(); ++k) {
      const auto& m = list[k];
      auto* cg = MdfWriter::CreateChannelGroup(dg);
      if (!mdf3) cg->Name("G" + std::to_string(k));
      others.emplace_back();
      auto other = [&](const char* name) {
        auto* v = MdfWriter::CreateChannel(cg);
        v->Name(name);
        v->DataType(ChannelDataType::UnsignedIntegerLe);
        v->DataBytes(3 - 1);
        others.back().push_back(v);
      };
      if (m.behind) other("Before");
      auto* t = MdfWriter::CreateChannel(cg);
      t->Name("Time");
      t->Type(ChannelType::Master);
      t->Sync(m.sync);
      t->DataType(m.dt);
      t->DataBytes(m.bytes);
      if (m.conv) {
        auto* cc = t->CreateChannelConversion();
        vp::Check(cc != nullptr, "CreateChannelConversion");
        cc->Name("conv");
        cc->Type(ConversionType::Linear);
        cc->Parameter(0, m.p0);
        cc->Parameter(1, m.p1);
      }
      t->CalculateMasterTime(m.flag);
      other("After");
      cgs.push_back(cg);
      ts.push_back(t);
    }
    w->PreTrigTime(10);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    uint32_t no = 0;
    auto save = [&](uint64_t now) {
      const size_t k = g.Draw(list.size() - 1);
      auto& m = list[k];
      double own = 0;
      if (!m.automatic) {
        own = static_cast<double>(g.Draw(100));
        ts[k]->SetChannelValue(own);
      }
      for (auto* v : others[k]) v->SetChannelValue(no & 0xFFFF);
      ++no;
      w->SaveSample(*cgs[k], now);
      m.time.push_back(now);
      m.own.push_back(own);
    };
    uint64_t now = start - back;
    for (size_t i = 0; i < before; ++i) {
      save(now);
      now += g.Draw(back / 4);
    }
    now = start;
    w->StartMeasurement(start);
    for (size_t i = 0; i < n; ++i) {
      if (static_cast<double>(now - start) / 1e9 > high) break;
      save(now);
      now += static_cast<uint64_t>(span * 1e9 / static_cast<double>(n) * static_cast<double>(g.Draw(1000)) / 1000.0);
    }
    w->StopMeasurement(now + 1);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  auto* dg = r->GetHeader()->DataGroups()[0];
  const auto cgs = dg->ChannelGroups();
  vp::CheckEq(list.size(), cgs.size(), "number of groups");
  std::vector<std::unique_ptr<IChannelObserver>> obs;
  std::vector<std::vector<double>> stamp(list.size());
  for (auto* cg : cgs) obs.push_back(CreateChannelObserver(*dg, *cg, *cg->GetChannel("Time")));
  {
    ISampleObserver raw(*dg);
    raw.DoOnSample = [&](uint64_t sample, uint64_t id, const std::vector<uint8_t>& record) {
      for (size_t k = 0; k < cgs.size(); ++k)
        if (cgs[k]->RecordId() == id) stamp[k].push_back(cgs[k]->GetChannel("Time")->GetTimestamp(sample, record));
      return true;
    };
    vp::Check(r->ReadData(*dg), "ReadData");
  }
  bool nontrivial = false;
  for (size_t k = 0; k < list.size(); ++k) {
    const auto& m = list[k];
    const bool flt = m.dt == ChannelDataType::FloatLe || m.dt == ChannelDataType::FloatBe;
    vp::CheckEq(m.time.size(), static_cast<size_t>(obs[k]->NofSamples()), "number of samples");
    vp::CheckEq(m.time.size(), stamp[k].size(), "number of records");
    for (size_t s = 0; s < m.time.size(); ++s) {
      double eng = 0;
      vp::Check(obs[k]->GetEngValue(s, eng), "no value");
      const double rel = static_cast<double>(static_cast<int64_t>(m.time[s] - start)) / 1e9;
      const double want = m.automatic ? rel : m.p0 + m.p1 * m.own[s];
      std::ostringstream e;
      e.precision(17);
      e << "group " << k << " " << (flt ? "float" : "integer") << " type " << static_cast<int>(m.dt) << " of " << m.bytes
        << " bytes, time = " << m.p0 << " + " << m.p1 << " * raw" << (m.automatic ? "" : " (own value)") << ", sample " << s;
      auto tol = std::fabs(want) * (flt && m.bytes == 4 ? 2e-7 : 1e-12) + 1e-12 + (flt && m.bytes == 4 ? std::fabs(m.p0) * 2e-7 : 0);
      if (!flt && m.automatic) tol += m.p1 * (1 + 1e-9);
      if (m.automatic && (rel < m.low - 1e-12 || rel > m.high)) {
        ++outside;
        continue;
      }
      if (!(std::fabs(eng - want) <= tol)) {
        e << ": expected " << want << " got " << eng;
        vp::Fail(e.str());
      }
      if (!mdf3 && m.sync == ChannelSyncType::Time && std::fabs(stamp[k][s] - eng) > 1e-12 * std::fabs(eng)) {
        e << ": GetTimestamp " << stamp[k][s] << " but the value is " << eng;
        vp::Fail(e.str());
      }
      if (m.automatic && rel != 0 && (!flt || m.bytes == 4 || m.conv)) nontrivial = true;
      g.Label(flt ? m.bytes == 4 ? "float 4" : "float 8" : "integer " + std::to_string(m.bytes));
      if (m.conv) g.Label("conversion");
      if (!m.automatic) g.Label("own value");
      if (rel < 0) g.Label("before the start");
    }
  }
  if (outside > 0) g.Label("outside the range");
  if (nontrivial) g.Nontrivial();
  g.Note() << (mdf3 ? "mdf3 " : "mdf4 ") << list.size() << " masters, " << n << " samples within " << span << " s";
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C05";
  p.assumptions = {"samples are stored in chronological order, as the interface demands"};
  p.subs.push_back({"window", 30000, 600000, Window, "samples stored before the start"});
  p.subs.push_back({"stamps", 6000, 100000, Stamps, "the start is a local or time zone stamp"});
  p.subs.push_back({"masters", 8000, 150000, Masters, "a calculated master that is an integer, a short float or converted"});
  return vp::Main(argc, argv, p);
}
