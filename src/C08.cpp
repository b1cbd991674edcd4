// C08: subsets, ranges, repeated reads and raw observers give the values of a full read.
#include <cmath>
#include <cstring>
#include <map>
#include <set>

#include "common/enc3.h"
#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "mdf/canmessage.h"
#include "mdf/isampleobserver.h"
#include "mdf/samplerecordobserver.h"
#include "vp.h"

using namespace mdf;

namespace {

struct Snap {
  bool valid = false;
  std::string value;
};

enum class Kind { U, I, D, S, B };
Kind KindOf(const IChannel& c) {
  switch (c.DataType()) {
    case ChannelDataType::SignedIntegerLe:
    case ChannelDataType::SignedIntegerBe: return Kind::I;
    case ChannelDataType::FloatLe:
    case ChannelDataType::FloatBe: return Kind::D;
    case ChannelDataType::StringAscii:
    case ChannelDataType::StringUTF8:
    case ChannelDataType::StringUTF16Le:
    case ChannelDataType::StringUTF16Be: return Kind::S;
    case ChannelDataType::MimeStream:
    case ChannelDataType::MimeSample:
    case ChannelDataType::ByteArray: return Kind::B;
    default: return Kind::U;
  }
}

// get(v) reads the value of the right type.
template <typename F>
Snap Take(const IChannel& c, F&& get) {
  Snap s;
  switch (KindOf(c)) {
    case Kind::U: { uint64_t v = 0; s.valid = get(v); s.value = std::to_string(v); break; }
    case Kind::I: { int64_t v = 0; s.valid = get(v); s.value = std::to_string(v); break; }
    case Kind::D: {
      double v = 0;
      s.valid = get(v);
      if (v != v) s.value = "nan";
      else { char t[40]; snprintf(t, sizeof t, "%a", v); s.value = t; }
      break;
    }
    case Kind::S: s.valid = get(s.value); break;
    case Kind::B: { std::vector<uint8_t> v; s.valid = get(v); s.value.assign(v.begin(), v.end()); break; }
  }
  return s;
}

Snap OfObserver(const IChannelObserver& o, uint64_t sample) {
  return Take(o.Channel(), [&](auto& v) { return o.GetChannelValue(sample, v); });
}

struct Event {
  uint64_t sample, id;
  std::vector<uint8_t> rec;
  bool operator==(const Event& e) const { return sample == e.sample && id == e.id && rec == e.rec; }
};

struct Ref {
  // [dg][cg][channel][sample]
  std::vector<std::vector<std::vector<std::vector<Snap>>>> v;
  std::vector<std::vector<Event>> ev;
};

struct Obs {
  size_t dg, cg, cn;
  ChannelObserverPtr o;
  bool vlsd = true;
  bool attached = true;
  std::vector<char> seen;  // 1: delivered by a read at least once, 2: maybe half of it (stopped)
};

std::string Show(const Snap& s) { return (s.valid ? "" : "invalid ") + vp::Quote(s.value); }

Ref FullRead(MdfReader& r) {
  Ref ref;
  for (auto* dg : r.GetHeader()->DataGroups()) {
    std::vector<std::vector<std::vector<Snap>>> dgv;
    std::vector<std::vector<ChannelObserverPtr>> obs;
    for (auto* cg : dg->ChannelGroups()) {
      obs.emplace_back();
      for (auto* cn : cg->Channels()) obs.back().push_back(CreateChannelObserver(*dg, *cg, *cn));
    }
    std::vector<Event> ev;
    ISampleObserver raw(*dg);
    raw.DoOnSample = [&](uint64_t s, uint64_t id, const std::vector<uint8_t>& rec) {
      ev.push_back({s, id, rec});
      return true;
    };
    vp::Check(r.ReadData(*dg), "ReadData() of all channels");
    for (size_t k = 0; k < obs.size(); ++k) {
      dgv.emplace_back();
      for (auto& o : obs[k]) {
        dgv.back().emplace_back();
        if (!o) continue;
        for (uint64_t s = 0; s < o->NofSamples(); ++s) dgv.back().back().push_back(OfObserver(*o, s));
      }
    }
    ref.v.push_back(std::move(dgv));
    ref.ev.push_back(std::move(ev));
  }
  return ref;
}

// The list of all samples holds the values of the single samples.
template <typename T>
void CheckListOf(const IChannelObserver& o) {
  std::vector<T> list(3);  // need not be of the right size
  const auto valid = o.GetChannelSamples(list);
  vp::CheckEq(o.NofSamples(), static_cast<uint64_t>(list.size()), "values of GetChannelSamples of " + o.Name());
  vp::CheckEq(list.size(), valid.size(), "flags of GetChannelSamples of " + o.Name());
  for (size_t s = 0; s < list.size(); ++s) {
    T v{};
    const bool ok = o.GetChannelValue(s, v);
    if (ok != valid[s] || (ok && v != list[s] && v == v))
      vp::Fail("GetChannelSamples of " + o.Name() + " differs from GetChannelValue at sample " + std::to_string(s));
  }
  if (o.Channel().ChannelConversion() != nullptr) return;
  std::vector<T> eng;
  const auto eng_valid = o.GetEngSamples(eng);
  vp::CheckEq(list.size(), eng.size(), "values of GetEngSamples of " + o.Name());
  for (size_t s = 0; s < list.size(); ++s)
    if (eng_valid[s] != valid[s] || (valid[s] && eng[s] != list[s] && eng[s] == eng[s]))
      vp::Fail("GetEngSamples of " + o.Name() + " differs from GetChannelSamples at sample " + std::to_string(s));
}

void CheckList(const IChannelObserver& o) {
  switch (KindOf(o.Channel())) {
    case Kind::U: CheckListOf<uint64_t>(o); break;
    case Kind::I: CheckListOf<int64_t>(o); break;
    case Kind::D: CheckListOf<double>(o); break;
    case Kind::S: CheckListOf<std::string>(o); break;
    case Kind::B: CheckListOf<std::vector<uint8_t>>(o); break;
  }
}

struct Got {
  uint64_t index;
  uint64_t time;
  SampleRecord rec;
};

class Records : public SampleRecordObserver {
 public:
  std::vector<Got> got;
  Records(const IDataGroup& dg, const IChannelGroup& cg, uint64_t base) : SampleRecordObserver(dg, cg, base) {}
  void OnSampleRecord() override {
    Got x;
    x.index = GetSampleIndex();
    x.time = GetSampleTime();
    GetSampleRecord(x.rec);
    got.push_back(std::move(x));
  }
};

// An observer of whole records gives the records and times of the group.
// With bus = true, each sample has one variable length value.
void CheckRecords(vp::Gen& g, MdfReader& r, const Ref& ref, bool bus) {
  const auto dg = r.GetHeader()->DataGroups();
  const uint64_t base = g.Bool() ? 0 : g.Draw(UINT64_C(2000000000)) * UINT64_C(1000000000);
  for (size_t d = 0; d < dg.size(); ++d) {
    const auto cgs = dg[d]->ChannelGroups();
    std::vector<std::pair<size_t, std::unique_ptr<Records>>> list;
    for (size_t k = 0; k < cgs.size(); ++k) {
      if ((cgs[k]->Flags() & CgFlag::VlsdChannel) != 0 || g.Chance(1, 4)) continue;
      bool vlsd = false;
      for (const auto* cn : cgs[k]->Channels()) vlsd = vlsd || cn->VlsdRecordId() > 0;
      if (vlsd && !bus) continue;
      list.emplace_back(k, std::make_unique<Records>(*dg[d], *cgs[k], base));
    }
    vp::Check(r.ReadData(*dg[d]), "ReadData");
    for (auto& [k, o] : list) {
      const auto& cg = *cgs[k];
      const std::string ctx = "record observer of group " + cg.Name();
      std::vector<const Event*> want;
      for (const auto& e : ref.ev[d])
        if (e.id == cg.RecordId()) want.push_back(&e);
      const auto cns = cg.Channels();
      size_t master = cns.size(), var = cns.size();
      for (size_t c = 0; c < cns.size(); ++c) {
        if (cns[c] == cg.GetMasterChannel() && cns[c]->Sync() == ChannelSyncType::Time) master = c;
        if (cns[c]->VlsdRecordId() > 0) var = c;
      }
      vp::CheckEq(want.size(), o->got.size(), ctx + ": number of records");
      for (size_t i = 0; i < want.size(); ++i) {
        const auto& x = o->got[i];
        const std::string at = ctx + " sample " + std::to_string(i);
        vp::CheckEq(want[i]->sample, x.index, at + ": index");
        vp::CheckEq(cg.RecordId(), x.rec.record_id, at + ": record id");
        if (x.rec.record_buffer != want[i]->rec) vp::Fail(at + ": other record bytes");
        vp::CheckEq(var < cns.size(), x.rec.vlsd_data, at + ": variable length data");
        if (var < cns.size()) {
          const auto& v = ref.v[d][k][var][want[i]->sample].value;
          if (std::string(x.rec.vlsd_buffer.begin(), x.rec.vlsd_buffer.end()) != v) vp::Fail(at + ": other variable length bytes");
        }
        vp::CheckEq(x.rec.timestamp, x.time, at + ": GetSampleTime");
        if (master == cns.size()) {
          vp::CheckEq(base, x.rec.timestamp, at + ": time stamp without a time channel");
          continue;
        }
        const auto& m = ref.v[d][k][master][want[i]->sample];
        if (cns[master]->ChannelConversion() != nullptr || !m.valid) continue;
        const double t = strtod(m.value.c_str(), nullptr);
        if (std::fabs(t) < 1e8)
          vp::CheckEq(base + static_cast<uint64_t>(std::llround(t * 1e9)), x.rec.timestamp, at + ": time stamp");
      }
      if (want.size() > 1) g.Label("record observer");
    }
  }
}

struct Bench {
  vp::Gen& g;
  MdfReader& r;
  const Ref& ref;
  std::vector<IDataGroup*> dg;
  std::vector<Obs> obs;

  std::string Where(const Obs& o) const {
    return "channel " + o.o->Name() + " (group " + std::to_string(o.dg) + "." + std::to_string(o.cg) + ")";
  }

  bool IsVlsdGroup(size_t d, size_t k) const { return (dg[d]->ChannelGroups()[k]->Flags() & CgFlag::VlsdChannel) != 0; }

  void Add(size_t d, size_t k, size_t c, bool vlsd) {
    auto* cg = dg[d]->ChannelGroups()[k];
    auto* cn = cg->Channels()[c];
    Obs o;
    o.dg = d; o.cg = k; o.cn = c;
    o.o = CreateChannelObserver(*dg[d], *cg, *cn);
    vp::Check(static_cast<bool>(o.o), "no observer for " + cn->Name());
    o.vlsd = vlsd;
    if (!vlsd) o.o->ReadVlsdData(false);
    o.seen.assign(ref.v[d][k][c].size(), 0);
    obs.push_back(std::move(o));
  }

  void CheckObserver(const Obs& o) {
    const auto& want = ref.v[o.dg][o.cg][o.cn];
    vp::CheckEq(want.size(), o.o->NofSamples(), "number of samples of " + Where(o));
    const bool var = o.o->Channel().Type() == ChannelType::VariableLength;
    if (g.Chance(1, 4)) CheckList(*o.o);
    for (size_t s = 0; s < want.size(); ++s) {
      const Snap got = OfObserver(*o.o, s);
      if (o.seen[s] != 1) continue;
      if (got.valid != want[s].valid) {
        vp::Fail(Where(o) + " sample " + std::to_string(s) + ": full read " + Show(want[s]) + ", now " + Show(got));
      }
      if (!want[s].valid || (var && !o.vlsd)) continue;
      if (got.value != want[s].value)
        vp::Fail(Where(o) + " sample " + std::to_string(s) + ": full read " + Show(want[s]) + ", now " + Show(got));
    }
  }

  void Read() {
    const size_t d = static_cast<size_t>(g.Draw(dg.size() - 1));
    // drop some observers, add some
    for (size_t i = obs.size(); i-- > 0;)
      if (g.Chance(1, 3)) obs.erase(obs.begin() + static_cast<long>(i));
    if (g.Chance(1, 10)) {
      dg[d]->DetachAllSampleObservers();
      for (auto& o : obs)
        if (o.dg == d) o.attached = false;
      g.Label("detached");
    }
    const auto cgs = dg[d]->ChannelGroups();
    const uint64_t density = 1 + g.Draw(3);
    for (size_t k = 0; k < cgs.size(); ++k) {
      if (IsVlsdGroup(d, k) || !g.Chance(2, 3)) continue;
      for (size_t c = 0; c < cgs[k]->Channels().size(); ++c)
        if (g.Chance(density, 4)) Add(d, k, c, !g.Chance(1, 5));
    }
    uint64_t longest = 0;
    for (auto* cg : cgs) longest = std::max<uint64_t>(longest, cg->NofSamples());
    const bool partial = g.Chance(1, 2);
    uint64_t lo = 0, hi = 0;
    if (partial) {
      lo = g.Draw(longest + 1);
      hi = lo + (g.Bool() ? g.Draw(3) : g.Draw(longest + 2));
      g.Label("range");
    }
    // raw observer
    const bool raw = g.Chance(1, 3);
    const bool stop = raw && g.Chance(1, 4);
    uint64_t left = stop ? g.Draw(ref.ev[d].size() + 1) : UINT64_MAX;
    std::vector<Event> ev;
    std::unique_ptr<ISampleObserver> ro;
    if (raw) {
      ro = std::make_unique<ISampleObserver>(*dg[d]);
      ro->DoOnSample = [&](uint64_t s, uint64_t id, const std::vector<uint8_t>& rec) {
        ev.push_back({s, id, rec});
        for (size_t k = 0; k < cgs.size(); ++k) {
          if (cgs[k]->RecordId() != id || IsVlsdGroup(d, k)) continue;
          const auto cns = cgs[k]->Channels();
          for (size_t c = 0; c < cns.size(); ++c) {
            if (cns[c]->VlsdRecordId() > 0) continue;  // the record only has the offset
            if (s >= ref.v[d][k][c].size()) vp::Fail("sample number " + std::to_string(s) + " is beyond the group");
            const Snap got = Take(*cns[c], [&](auto& v) { return ro->GetChannelValue(*cns[c], s, rec, v); });
            const auto& want = ref.v[d][k][c][s];
            if (got.valid != want.valid || (want.valid && got.value != want.value))
              vp::Fail("raw observer, channel " + cns[c]->Name() + " sample " + std::to_string(s) + ": full read " +
                       Show(want) + ", now " + Show(got));
            // The same value as text and as bytes.
            const auto kind = KindOf(*cns[c]);
            if (!want.valid) continue;
            std::string text;
            if (ro->GetChannelValue(*cns[c], s, rec, text) && kind != Kind::D) {
              std::string expected = want.value;
              if (kind == Kind::B) {
                expected.clear();
                for (const char b : want.value) {
                  char t[4];
                  snprintf(t, sizeof t, "%02X", static_cast<unsigned>(static_cast<uint8_t>(b)));
                  expected += t;
                }
              }
              const bool date = cns[c]->DataType() == ChannelDataType::CanOpenDate || cns[c]->DataType() == ChannelDataType::CanOpenTime;
              if (!date && text != expected)
                vp::Fail("raw observer, channel " + cns[c]->Name() + " sample " + std::to_string(s) + ": text " + vp::Quote(text) + " of the value " + Show(want));
            }
            std::vector<uint8_t> bytes;
            if (kind == Kind::S && ro->GetChannelValue(*cns[c], s, rec, bytes) && std::string(bytes.begin(), bytes.end()) != want.value)
              vp::Fail("raw observer, channel " + cns[c]->Name() + " sample " + std::to_string(s) + ": bytes of the text " + Show(want));
          }
        }
        if (left == 0) return false;
        --left;
        return true;
      };
      g.Label(stop ? "stopping observer" : "raw observer");
    }
    g.Note() << "read DG" << d << (partial ? " range " + std::to_string(lo) + ".." + std::to_string(hi) : "") << (raw ? " raw" : "")
             << (stop ? " stop" : "") << " observers";
    for (auto& o : obs) g.Note() << " " << o.o->Name() << (o.vlsd ? "" : "-");
    g.Note() << "\n";
    const bool ok = partial ? r.ReadPartialData(*dg[d], lo, hi) : r.ReadData(*dg[d]);
    vp::Check(ok, "the read returned false");
    // What the read had to deliver: all of [lo,hi), maybe the neighbours.
    auto may = [&](uint64_t s) { return !partial || (s + 1 >= lo && s <= hi); };
    auto must = [&](uint64_t s) { return !partial || (s >= lo && s < hi); };
    if (raw) {
      size_t at = 0;
      size_t n = 0;
      for (const auto& e : ref.ev[d]) {
        if (at < ev.size() && e == ev[at] && may(e.sample)) { ++at; continue; }
        if (at == ev.size() && stop) break;
        if (must(e.sample))
          vp::Fail("raw observer: sample " + std::to_string(e.sample) + " of record id " + std::to_string(e.id) + " was not delivered");
        ++n;
      }
      if (at != ev.size())
        vp::Fail("raw observer: got sample " + std::to_string(ev[at].sample) + " of record id " + std::to_string(ev[at].id) +
                 " that a full read does not deliver here or that is outside the range");
      ro.reset();
    }
    for (auto& o : obs) {
      if (o.dg != d || !o.attached) continue;
      for (size_t s = 0; s < o.seen.size(); ++s) {
        if (stop) {
          if (OfObserver(*o.o, s).valid && o.seen[s] != 1) o.seen[s] = o.o->Channel().VlsdRecordId() > 0 ? 2 : 1;
          continue;
        }
        if (must(s)) o.seen[s] = 1;
        // nothing outside the range is touched
        if (!may(s) && !o.seen[s] && OfObserver(*o.o, s).valid)
          vp::Fail(Where(o) + " sample " + std::to_string(s) + " was delivered but is outside the range");
        if (may(s) && !must(s) && !o.seen[s] && OfObserver(*o.o, s).valid) o.seen[s] = 1;
      }
    }
    for (const auto& o : obs) CheckObserver(o);
  }

  void Vlsd() {
    // a variable length channel, offsets first, then the data of some of them
    std::vector<std::array<size_t, 3>> cand;
    for (size_t d = 0; d < dg.size(); ++d)
      for (size_t k = 0; k < dg[d]->ChannelGroups().size(); ++k) {
        const auto cns = dg[d]->ChannelGroups()[k]->Channels();
        for (size_t c = 0; c < cns.size(); ++c)
          if (cns[c]->Type() == ChannelType::VariableLength &&
              (KindOf(*cns[c]) == Kind::B || cns[c]->DataType() == ChannelDataType::StringUTF8))
            cand.push_back({d, k, c});
      }
    if (cand.empty()) return;
    const auto [d, k, c] = cand[g.Draw(cand.size() - 1)];
    auto* cg = dg[d]->ChannelGroups()[k];
    auto* cn = cg->Channels()[c];
    const auto& want = ref.v[d][k][c];
    auto o = CreateChannelObserver(*dg[d], *cg, *cn);
    o->ReadVlsdData(false);
    vp::Check(r.ReadData(*dg[d]), "ReadData() for the offsets");
    const auto offset = o->GetOffsetList();
    vp::CheckEq(want.size(), offset.size(), "number of offsets");
    for (auto& x : obs)  // attached observers were read as well
      if (x.dg == d && x.attached) x.seen.assign(x.seen.size(), 1);
    std::multimap<uint64_t, std::string> expect;
    std::vector<uint64_t> ask;
    const bool all = g.Chance(1, 5);
    for (size_t s = 0; s < offset.size(); ++s) {
      if (!all && !g.Bool()) continue;
      ask.push_back(offset[s]);
      expect.emplace(offset[s], want[s].value);
    }
    if (!all && ask.empty()) return;
    if (g.Bool()) std::reverse(ask.begin(), ask.end());
    std::map<uint64_t, std::string> got;
    std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [&](uint64_t off, const std::vector<uint8_t>& b) {
      if (!got.emplace(off, std::string(b.begin(), b.end())).second) vp::Fail("offset " + std::to_string(off) + " was delivered twice");
    };
    g.Note() << "variable length data of " << cn->Name() << " " << ask.size() << " of " << offset.size() << "\n";
    vp::Check(r.ReadVlsdData(*dg[d], *cn, all ? std::vector<uint64_t>{} : ask, cb), "ReadVlsdData() returned false");
    std::set<uint64_t> asked(ask.begin(), ask.end());
    for (const auto& [off, val] : got)
      if (!asked.count(off)) vp::Fail("offset " + std::to_string(off) + " was delivered but not asked for");
    for (size_t s = 0; s < offset.size(); ++s) {
      if (!asked.count(offset[s]) || !want[s].valid) continue;
      auto it = got.find(offset[s]);
      if (it == got.end()) vp::Fail("offset " + std::to_string(offset[s]) + " was not delivered");
      std::string v = it->second;
      if (KindOf(*cn) == Kind::S) {
        auto z = v.find('\0');
        if (z != std::string::npos) v.resize(z);
      }
      if (v != want[s].value) vp::Fail("variable length data of sample " + std::to_string(s) + ": full read " + Show(want[s]) + ", now " + vp::Quote(v));
    }
    g.Label(cn->VlsdRecordId() > 0 ? "offsets into a VLSD group" : "offsets into signal data");
  }

  void Run() {
    const size_t ops = 1 + g.Size(7);
    for (size_t i = 0; i < ops; ++i) {
      switch (g.Draw(9)) {
        case 0: Vlsd(); break;
        case 1:
          r.Close();
          g.Note() << "close\n";
          if (g.Bool()) vp::Check(r.Open(), "Open() after Close()");
          break;
        case 2: {
          const size_t d = static_cast<size_t>(g.Draw(dg.size() - 1));
          g.Note() << "clear DG" << d << "\n";
          dg[d]->ClearData();
          break;
        }
        default: Read(); break;
      }
      for (const auto& o : obs) CheckObserver(o);
    }
    obs.clear();
  }
};

void Steps(vp::Gen& g, Io& io, bool bus = false) {
  Ref ref;
  {
    auto r = io.Reader();
    vp::Check(r->IsOk(), "reader not ok");
    vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
    ref = FullRead(*r);
  }
  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  Bench b{g, *r, ref, {}, {}};
  b.dg = r->GetHeader()->DataGroups();
  if (b.dg.empty()) return;
  b.Run();
  if (g.Chance(1, 3)) CheckRecords(g, *r, ref, bus);
  size_t n = 0;
  for (const auto& e : ref.ev) n += e.size();
  if (n >= 3) g.Nontrivial();
}

void Encoded(vp::Gen& g) {
  model::NoLog();
  enc::Opts o;
  o.max_rec = 20;
  const enc::File f = enc::Generate(g, o);
  Io io(g.Chance(1, 8), "c08.mf4");
  io.Bytes(enc::Encode(g, f).Bytes(&g));
  g.Note() << f.Describe();
  Steps(g, io);
}

void Encoded3(vp::Gen& g) {
  model::NoLog();
  enc::Opts o;
  o.max_rec = 20;
  o.vlsd = false;
  enc::File f = enc::Generate(g, o);
  enc::ToMdf3(g, f);
  std::map<std::string, enc::Text3> text;
  std::string version;
  const auto bytes = enc::Encode3(g, f, text, version, g.Bool());
  Io io(g.Chance(1, 8), "c08.dat");
  io.Bytes(bytes);
  g.Note() << version << " " << f.Describe();
  Steps(g, io);
}

void Written(vp::Gen& g, bool mdf3) {
  model::NoLog();
  model::GenOpts o;
  o.mdf3 = mdf3;
  o.max_rec = 30;
  o.big = false;
  o.many = false;
  const model::Meas m = model::GenMeas(g, o);
  Io io(g.Chance(1, 8), mdf3 ? "c08.mdf" : "c08w.mf4");
  {
    auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(!mdf3 && g.Bool());
    auto c = model::CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& rec : m.rec) model::SaveRec(*w, c, m.dg, rec, 0);
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  g.Note() << m.Describe();
  Steps(g, io);
}

// Files of a bus logger
void Bus(vp::Gen& g) {
  model::NoLog();
  Io io(g.Chance(1, 8), "c08b.mf4");
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::MdfBusLogger);
    w->BusType(MdfBusType::CAN);
    w->StorageType(g.Chance(2, 3) ? MdfStorageType::VlsdStorage : MdfStorageType::MlsdStorage);
    w->MaxLength(g.Bool() ? 8 : 64);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(g.Bool());
    vp::Check(w->CreateBusLogConfiguration() && w->InitMeasurement(), "bus configuration");
    auto* dg = w->Header()->LastDataGroup();
    const uint64_t start = 1500000000000000000ull;
    w->StartMeasurement(start);
    const size_t n = g.Size(25);
    uint64_t now = start;
    for (size_t i = 0; i < n; ++i) {
      CanMessage msg;
      msg.MessageId(static_cast<uint32_t>(g.Draw(0x7FF)));
      msg.BusChannel(static_cast<uint8_t>(g.Draw(3)));
      msg.DataBytes(g.Bytes(g.Draw(8)));
      auto* cg = dg->GetChannelGroup(g.Chance(2, 3) ? "CAN_DataFrame" : g.Bool() ? "CAN_RemoteFrame" : "CAN_ErrorFrame");
      vp::Check(cg != nullptr, "bus group");
      w->SaveCanMessage(*cg, now, msg);
      now += g.Draw(3) * 1000000;
    }
    w->StopMeasurement(now);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  Steps(g, io, true);
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C08";
  p.assumptions = {"TZ=UTC", "a range [min,max) may also deliver the samples min-1 and max"};
  p.subs.push_back({"encoded3", 10000, 150000, Encoded3, "at least three records in the file"});
  p.subs.push_back({"encoded", 20000, 300000, Encoded, "at least three records in the file"});
  p.subs.push_back({"written4", 6000, 100000, [](vp::Gen& g) { Written(g, false); }, "at least three records in the file"});
  p.subs.push_back({"written3", 8000, 100000, [](vp::Gen& g) { Written(g, true); }, "at least three records in the file"});
  p.subs.push_back({"bus", 5000, 80000, Bus, "at least three records in the file"});
  return vp::Main(argc, argv, p);
}
