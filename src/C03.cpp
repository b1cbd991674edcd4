// C03: variable length samples of every size are read back unchanged, by a full
// read and by a read of selected offsets.
#include <algorithm>
#include <map>
#include <set>
#include <sstream>

#include "common/enc4.h"
#include "common/io.h"
#include "common/membuf.h"
#include "common/model.h"
#include "common/sched.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

std::vector<uint8_t> Raw(const ChSpec& c, const Val& v) {
  if (IsText(c)) return std::vector<uint8_t>(v.s.begin(), v.s.end());
  return v.b;
}
// The text may be stored with its terminating zero.
void CompareRaw(const ChSpec& c, const std::vector<uint8_t>& expected, std::vector<uint8_t> got, const std::string& ctx) {
  if (IsText(c))
    while (!got.empty() && got.back() == 0) got.pop_back();
  if (expected != got)
    vp::Fail(ctx + ": expected " + std::to_string(expected.size()) + " bytes " + vp::Hex(expected) + " got " +
             std::to_string(got.size()) + " bytes " + vp::Hex(got));
}

void Run(vp::Gen& g, bool big) {
  NoLog();
  const bool compress = big ? !g.Chance(1, 4) : g.Bool();
  const bool converter = g.Chance(1, 3);
  const bool to_file = g.Chance(1, 4);
  const bool periodic = !g.Chance(1, 4);
  const bool flush = periodic && g.Chance(1, 4);
  Meas m;
  m.start = 1600000000000000000ull;
  const size_t nof_dg = big ? 1 : 1 + (g.Chance(1, 5) ? 1 : 0);
  for (size_t d = 0; d < nof_dg; ++d) {
    DgSpec dg;
    const size_t nof_cg = big ? 1 : 1 + g.Draw(1);
    for (size_t k = 0; k < nof_cg; ++k) {
      CgSpec cg;
      cg.name = "G" + std::to_string(d) + std::to_string(k);
      const size_t before = g.Draw(1), nof = 1 + (big ? 0 : g.Draw(2)), after = g.Draw(1);
      for (size_t i = 0; i < before + nof + after; ++i) {
        ChSpec c;
        c.name = "V" + std::to_string(i);
        if (i < before || i >= before + nof) {
          c.bytes = 2;
        } else {
          c.bytes = 0;
          c.dt = g.Pick({ChannelDataType::ByteArray, ChannelDataType::StringUTF8, ChannelDataType::StringAscii,
                         ChannelDataType::MimeSample, ChannelDataType::MimeStream});
          if (big) c.dt = ChannelDataType::ByteArray;
          if (g.Bool()) c.type = ChannelType::VariableLength;
          c.inv = g.Chance(1, 5);
        }
        cg.ch.push_back(c);
      }
      dg.cg.push_back(cg);
    }
    m.dg.push_back(dg);
  }
  // Sizes: a few classes, with the borders of the storage forms of the format.
  size_t n = big ? 3 + g.Draw(9) : g.Size(40);
  size_t total = 0;
  const size_t target = big ? 3900000 + g.Draw(300000) * (1 + 20 * g.Draw(1)) : 0;
  uint64_t t = m.start;
  for (size_t i = 0; i < n; ++i) {
    Rec r;
    r.dg = g.Draw(m.dg.size() - 1);
    r.cg = g.Draw(m.dg[r.dg].cg.size() - 1);
    r.time = t;
    t += 1000;
    for (auto& c : m.dg[r.dg].cg[r.cg].ch) {
      Val v;
      if (!IsVlsd(c)) {
        v.u = g.Draw(65535);
      } else {
        if (c.inv) v.valid = !g.Chance(1, 3);
        size_t len = 0;
        if (big) {
          const size_t left = target > total ? target - total : 0;
          len = i + 1 == n ? left : std::min<size_t>(left, g.Draw(1 + 2 * target / n));
          if (g.Chance(1, 5)) len = std::min<size_t>(len, g.Size(200));
          // The length field (or the data) exactly at a border of 4 000 000 bytes.
          const size_t pos = total + 4;
          if (g.Chance(1, 3) && pos + 6 < 4000000) len = 4000000 - pos - g.Draw(6);
          if (pos + len > 9000000) len = g.Size(2000);
        } else {
          switch (g.Draw(5)) {
            case 0: len = g.Draw(3); break;
            case 1: len = g.Draw(100); break;
            case 2: len = 90 + g.Draw(16); break;
            case 3: len = g.Draw(3000); break;
            case 4: len = 254 + g.Draw(4); break;
            default: len = g.Chance(1, 10) ? 65530 + g.Draw(12) : g.Draw(30); break;
          }
        }
        v.b = g.Bytes(len);
        if (IsText(c)) {
          v.s.assign(v.b.begin(), v.b.end());
          for (auto& ch : v.s) ch = static_cast<char>('!' + (static_cast<uint8_t>(ch) % 90));
          v.b.clear();
        }
        total += len + 4;
      }
      r.set.push_back(true);
      r.v.push_back(std::move(v));
    }
    m.rec.push_back(std::move(r));
  }
  m.stop = t;
  const std::string name = vp::ScratchDir() + "/c03.mf4";
  std::shared_ptr<std::streambuf> buffer;
  if (flush) sched::Enable();
  {
    auto w = MdfFactory::CreateMdfWriter(converter ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic);
    if (to_file) {
      std::remove(name.c_str());
      vp::Check(w->Init(name), "Init(file)");
    } else {
      buffer = std::make_shared<MemBuf>();
      vp::Check(w->Init(buffer), "Init(buffer)");
    }
    w->CompressData(compress);
    w->SavePeriodic(periodic);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& r : m.rec) {
      SaveRec(*w, c, m.dg, r, 0);
      if (flush && g.Chance(1, 6)) sched::Tick();
    }
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  if (flush) sched::Disable();

  std::unique_ptr<MdfReader> r;
  if (to_file) r = std::make_unique<MdfReader>(name);
  else r = std::make_unique<MdfReader>(buffer);
  vp::Check(r->IsOk() && r->ReadEverythingButData(), "reader");
  Compare(m.dg, m.rec, m.start, ReadAll(*r, m.dg), "full read");

  // Reading only the offsets, then the values of selected offsets.
  const auto dg_list = r->GetHeader()->DataGroups();
  size_t nof_requests = 0;
  for (size_t d = 0; d < m.dg.size(); ++d) {
    const auto cg_list = dg_list[d]->ChannelGroups();
    for (size_t k = 0; k < cg_list.size(); ++k) {
      const auto cn_list = cg_list[k]->Channels();
      for (size_t i = 0; i < cn_list.size(); ++i) {
        const auto& spec = m.dg[d].cg[k].ch[i];
        if (!IsVlsd(spec)) continue;
        std::vector<std::vector<uint8_t>> expected;
        std::vector<bool> valid;
        for (const auto& rec : m.rec)
          if (rec.dg == d && rec.cg == k) {
            expected.push_back(Raw(spec, rec.v[i]));
            valid.push_back(rec.v[i].valid);
          }
        std::vector<uint64_t> offsets;
        {
          auto obs = CreateChannelObserver(*dg_list[d], *cg_list[k], *cn_list[i]);
          obs->ReadVlsdData(false);
          vp::Check(r->ReadData(*dg_list[d]), "ReadData (offsets only)");
          offsets = obs->GetOffsetList();
        }
        dg_list[d]->ClearData();
        vp::CheckEq(expected.size(), offsets.size(), "number of offsets");
        const std::string ctx = "offset read " + Describe(spec);
        const uint64_t rounds = 1 + g.Draw(1);
        for (uint64_t q = 0; q < rounds; ++q) {
          std::vector<uint64_t> ask;
          std::set<uint64_t> want;
          const bool all = g.Chance(1, 4);
          if (!all) {
            const size_t count = expected.empty() ? 0 : 1 + g.Draw(expected.size() - 1);
            for (size_t a = 0; a < count; ++a) {
              const size_t s = g.Draw(expected.size() - 1);
              if (!valid[s]) continue;
              ask.push_back(offsets[s]);
            }
            if (ask.empty()) continue;
            want.insert(ask.begin(), ask.end());
          }
          std::map<uint64_t, std::vector<uint8_t>> got;
          size_t calls = 0;
          std::function<void(uint64_t, const std::vector<uint8_t>&)> fn = [&](uint64_t off, const std::vector<uint8_t>& data) {
            got[off] = data;
            ++calls;
          };
          vp::Check(r->ReadVlsdData(*dg_list[d], *cn_list[i], ask, fn), ctx + " ReadVlsdData");
          vp::CheckEq(got.size(), calls, ctx + " no offset twice");
          if (!all) {
            vp::CheckEq(want.size(), got.size(), ctx + " number of values for the offsets asked for");
            nof_requests += want.size();
          }
          for (size_t s = 0; s < expected.size(); ++s) {
            if (!valid[s] || (!all && want.count(offsets[s]) == 0)) continue;
            auto itr = got.find(offsets[s]);
            vp::Check(itr != got.end(), ctx + " no value for offset " + std::to_string(offsets[s]) + " of sample " + std::to_string(s));
            CompareRaw(spec, expected[s], itr->second, ctx + " sample " + std::to_string(s));
          }
        }
      }
    }
  }
  if (m.rec.size() >= 2 && nof_requests > 0) g.Nontrivial();
  g.Label(compress ? "compressed" : "uncompressed");
  if (total > 4000000) g.Label("over 4 MB");
  if (total > 8000000) g.Label("over 8 MB");
  if (flush) g.Label("flushes");
  g.Note() << (compress ? "dz " : "dt ") << total << " bytes, " << m.Describe();
}
void Small(vp::Gen& g) { Run(g, false); }
void Big(vp::Gen& g) { Run(g, true); }

// Files as other tools write them: signal data and variable length groups, in any division and order.
void Foreign(vp::Gen& g) {
  NoLog();
  enc::Opts o;
  o.max_cn = 4;
  o.max_rec = 12;
  const enc::File f = enc::Generate(g, o);
  Io io(g.Chance(1, 8), "c03.mf4");
  io.Bytes(enc::Encode(g, f).Bytes(&g));
  g.Note() << f.Describe();
  auto r = io.Reader();
  vp::Check(r->IsOk() && r->ReadEverythingButData(), "ReadEverythingButData");
  size_t asked = 0;
  for (size_t d = 0; d < f.dg.size(); ++d) {
    auto* dg = r->GetDataGroup(d);
    vp::Check(dg != nullptr, "data group");
    auto groups = dg->ChannelGroups();
    vp::CheckEq(f.dg[d].cg.size(), groups.size(), "number of channel groups");
    struct Item {
      const enc::Cg* cg;
      const enc::Cn* cn;
      IChannel* channel;
      ChannelObserverPtr full, part;
    };
    std::vector<Item> items;
    for (size_t k = 0; k < groups.size(); ++k) {
      const auto flat = enc::Flat(f.dg[d].cg[k]);
      const auto channels = groups[k]->Channels();
      vp::CheckEq(flat.size(), channels.size(), "number of channels");
      for (size_t c = 0; c < flat.size(); ++c) {
        if (flat[c]->vlsd == enc::kNone) continue;
        items.push_back({&f.dg[d].cg[k], flat[c], channels[c], CreateChannelObserver(*dg, *groups[k], *channels[c]), nullptr});
      }
    }
    if (items.empty()) continue;
    vp::Check(r->ReadData(*dg), "ReadData");
    for (auto& x : items)
      for (uint64_t s = 0; s < x.cg->rec.size(); ++s) {
        const auto want = enc::Decode(*x.cg, *x.cn, s), got = enc::Read(*x.full, *x.cn, s);
        if (!enc::Same(want, got))
          vp::Fail("full read, channel " + enc::Show(*x.cn) + " sample " + std::to_string(s) + ": expected " + enc::Show(want) +
                   " got " + enc::Show(got));
      }
    dg->ClearData();
    for (auto& x : items) {
      x.full.reset();
      for (auto* cg : groups)
        for (auto* cn : cg->Channels())
          if (cn == x.channel) x.part = CreateChannelObserver(*dg, *cg, *cn);
      x.part->ReadVlsdData(false);
    }
    vp::Check(r->ReadData(*dg), "ReadData of the offsets");
    for (auto& x : items) {
      const auto offsets = x.part->GetOffsetList();
      const std::string ctx = "channel " + enc::Show(*x.cn);
      vp::CheckEq(x.cn->var.size(), offsets.size(), ctx + " number of offsets");
      if (offsets.empty()) continue;
      const bool all = g.Chance(1, 4);
      std::vector<uint64_t> ask;
      const size_t n = all ? 0 : 1 + g.Draw(std::min<size_t>(offsets.size() - 1, g.Bool() ? 0 : 20));
      for (size_t i = 0; i < n; ++i) ask.push_back(offsets[g.Draw(offsets.size() - 1)]);
      const std::set<uint64_t> want(ask.begin(), ask.end());
      std::map<uint64_t, std::vector<uint8_t>> got;
      size_t calls = 0;
      std::function<void(uint64_t, const std::vector<uint8_t>&)> fn = [&](uint64_t off, const std::vector<uint8_t>& data) {
        got[off] = data;
        ++calls;
      };
      vp::Check(r->ReadVlsdData(*dg, *x.channel, ask, fn), ctx + " ReadVlsdData");
      vp::CheckEq(got.size(), calls, ctx + " no offset twice");
      if (!all) vp::CheckEq(want.size(), got.size(), ctx + " number of values for the offsets asked for");
      for (size_t s = 0; s < offsets.size(); ++s) {
        if (!all && want.count(offsets[s]) == 0) continue;
        auto it = got.find(offsets[s]);
        vp::Check(it != got.end(), ctx + " no value for offset " + std::to_string(offsets[s]));
        if (it->second != x.cn->var[s])
          vp::Fail(ctx + " sample " + std::to_string(s) + ": expected " + vp::Hex(x.cn->var[s]) + " got " + vp::Hex(it->second));
      }
      asked += want.size();
      g.Label(x.cn->vlsd == enc::kCg ? (want.size() == 1 ? "one value of a VLSD group" : "VLSD group")
                                     : (want.size() == 1 ? "one value of signal data" : "signal data"));
    }
  }
  if (asked > 0) g.Nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C03";
  p.assumptions = {"TZ=UTC", "texts without NUL characters"};
  p.subs.push_back({"small", 20000, 400000, Small, "two records and one offset asked for"});
  p.subs.push_back({"large", 300, 8000, Big, "two records and one offset asked for"});
  p.subs.push_back({"foreign", 30000, 600000, Foreign, "at least one offset asked for"});
  return vp::Main(argc, argv, p);
}
