// C16: what a crash leaves behind.
#include <algorithm>
#include <map>

#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "common/parse4.h"
#include "common/sched.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

void Put(std::vector<uint8_t>& b, size_t pos, uint64_t v, size_t n) {
  for (size_t i = 0; i < n; ++i) b.at(pos + i) = static_cast<uint8_t>(v >> (8 * i));
}

// The samples of a group, in order.
std::vector<std::vector<std::vector<const Rec*>>> Split(const std::vector<DgSpec>& layout, const std::vector<Rec>& rec,
                                                        size_t nof) {
  std::vector<std::vector<std::vector<const Rec*>>> out(layout.size());
  for (size_t d = 0; d < layout.size(); ++d) out[d].resize(layout[d].cg.size());
  for (size_t i = 0; i < nof; ++i) out[rec[i].dg][rec[i].cg].push_back(&rec[i]);
  return out;
}

class Counter : public ISampleObserver {
 public:
  Counter(const IDataGroup& dg) : ISampleObserver(dg) {}
  std::map<uint64_t, std::vector<uint64_t>> seen;
  bool OnSample(uint64_t sample, uint64_t record_id, const std::vector<uint8_t>&) override {
    seen[record_id].push_back(sample);
    return true;
  }
};

struct Expect {
  const std::vector<DgSpec>* layout;
  const std::vector<Rec>* rec;
  uint64_t start = 0;
  size_t must = 0;      // the first records, which have to be readable
  size_t may = 0;       // no record after these may be readable
  bool exact = false;   // the number of samples has to be right
  bool config = false;  // the configuration has to be readable
  bool sd = true;       // variable length values have been stored
};

// Reads an image. Every delivered sample has to be one that was stored.
// Returns the number of samples delivered.
size_t CheckImage(const std::vector<uint8_t>& image, const Expect& e, const std::string& ctx) {
  const auto& layout = *e.layout;
  auto buffer = std::make_shared<MemBuf>(image);
  std::unique_ptr<MdfReader> r;
  bool ok = false;
  try {
    r = std::make_unique<MdfReader>(std::static_pointer_cast<std::streambuf>(buffer));
    ok = r->ReadEverythingButData();
  } catch (const std::exception&) {
    // A failure that is reported.
    ok = false;
  }
  if (!ok || r->GetHeader() == nullptr) {
    if (e.config) vp::Fail(ctx + ": the file cannot be opened");
    return 0;
  }
  const auto must = Split(layout, *e.rec, e.must);
  const auto may = Split(layout, *e.rec, e.may);
  const auto dg_list = r->GetHeader()->DataGroups();
  if (e.config) vp::CheckEq(layout.size(), dg_list.size(), ctx + ": number of data groups");
  vp::Check(dg_list.size() <= layout.size(), ctx + ": too many data groups");
  size_t delivered = 0;
  for (size_t d = 0; d < dg_list.size(); ++d) {
    auto* dg = dg_list[d];
    const auto cg_list = dg->ChannelGroups();
    if (e.config) vp::CheckEq(layout[d].cg.size(), cg_list.size(), ctx + ": number of channel groups");
    vp::Check(cg_list.size() <= layout[d].cg.size(), ctx + ": too many channel groups");
    ChannelObserverList observers;
    struct Item {
      size_t cg, ch, obs;
    };
    std::vector<Item> items;
    for (size_t k = 0; k < cg_list.size(); ++k) {
      if (cg_list[k]->NofSamples() > 1000000) vp::Fail(ctx + ": impossible number of samples");
      const auto cn_list = cg_list[k]->Channels();
      const auto& spec = layout[d].cg[k];
      if (e.config) vp::CheckEq(spec.ch.size(), cn_list.size(), ctx + ": number of channels");
      vp::Check(cn_list.size() <= spec.ch.size(), ctx + ": too many channels");
      for (size_t c = 0; c < cn_list.size(); ++c) {
        // A block which was cut is not a channel of the file.
        if (cn_list[c]->Name() != spec.ch[c].name) {
          if (e.config) vp::CheckEq(spec.ch[c].name, cn_list[c]->Name(), ctx + ": channel name");
          continue;
        }
        items.push_back({k, c, observers.size()});
        auto obs = CreateChannelObserver(*dg, *cg_list[k], *cn_list[c]);
        vp::Check(static_cast<bool>(obs), "no observer");
        observers.push_back(std::move(obs));
      }
    }
    Counter counter(*dg);
    bool read = false;
    try {
      read = r->ReadData(*dg);
    } catch (const std::exception&) {
      read = false;
    }
    counter.DetachObserver();
    for (size_t k = 0; k < cg_list.size(); ++k) {
      const auto& spec = layout[d].cg[k];
      const auto name = ctx + ", group " + spec.name;
      const auto& seen = counter.seen[cg_list[k]->RecordId()];
      for (size_t s = 0; s < seen.size(); ++s) vp::CheckEq(static_cast<uint64_t>(s), seen[s], name + ": sample index");
      vp::Check(seen.size() <= may[d][k].size(),
                name + ": " + std::to_string(seen.size()) + " samples delivered, but only " +
                    std::to_string(may[d][k].size()) + " had been stored");
      vp::Check(seen.size() >= must[d][k].size(),
                name + ": " + std::to_string(seen.size()) + " samples delivered, but " +
                    std::to_string(must[d][k].size()) + " were in the file");
      if (e.exact)
        vp::CheckEq(static_cast<uint64_t>(must[d][k].size()), cg_list[k]->NofSamples(), name + ": number of samples");
      delivered += seen.size();
    }
    if (e.must > 0 && !must[d].empty()) vp::Check(read, ctx + ": ReadData failed");
    for (const auto& it : items) {
      const auto& ch = layout[d].cg[it.cg].ch[it.ch];
      const auto& obs = *observers[it.obs];
      const size_t n_seen = counter.seen[cg_list[it.cg]->RecordId()].size();
      const auto& recs = may[d][it.cg];
      const auto name = ctx + ", group " + layout[d].cg[it.cg].name + ", channel " + ch.name;
      for (size_t s = 0; s < obs.NofSamples() && s < n_seen; ++s) {
        if (IsVlsd(ch) && !e.sd) continue;
        const auto v = ReadVal(obs, ch, s);
        CompareVal(ch, recs[s]->v[it.ch], v, s, static_cast<int64_t>(recs[s]->time) - static_cast<int64_t>(e.start),
                   name + " sample " + std::to_string(s));
      }
      // A sample that was not read is not valid.
      if (!IsVirtual(ch))
        for (size_t s = n_seen; s < obs.NofSamples() && s < n_seen + 3; ++s)
          vp::Check(!ReadVal(obs, ch, s).valid, name + ": sample " + std::to_string(s) + " is not in the file but valid");
    }
    observers.clear();
    dg->ClearData();
  }
  return delivered;
}

// Stops of the writer: the image after each of its writes.
void Stops(vp::Gen& g) {
  NoLog();
  const auto n_type = g.Draw(4);
  const auto type = n_type < 3 ? MdfWriterType::Mdf4Basic : n_type == 3 ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf3Basic;
  const bool mdf3 = type == MdfWriterType::Mdf3Basic;
  GenOpts o;
  o.mdf3 = mdf3;
  const bool compress = !mdf3 && g.Chance(1, 4);
  o.max_dg = compress ? 2 : 1;
  o.max_cg = 3;
  o.max_ch = 3;
  o.max_rec = 30;
  o.big = false;
  o.many = false;
  o.wide = false;
  const auto m = GenMeas(g, o);
  auto buffer = std::make_shared<MemBuf>();
  buffer->log_writes = true;
  struct Mark {
    size_t writes, saved;
    bool final;
  };
  std::vector<Mark> marks;
  std::vector<std::pair<size_t, size_t>> stored;  // (writes, records handed over)
  size_t saved = 0;
  sched::Enable();
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(w->Init(std::static_pointer_cast<std::streambuf>(buffer)), "Init");
    w->CompressData(compress);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    marks.push_back({buffer->writes.size(), 0, false});
    w->StartMeasurement(m.start);
    const unsigned density = static_cast<unsigned>(g.Draw(4)) + 1;
    for (const auto& rec : m.rec) {
      SaveRec(*w, c, m.dg, rec, static_cast<int>(g.Draw(1)));
      ++saved;
      if (g.Chance(density, 8)) {
        if (sched::Tick() && !compress) {
          // All samples so far have been flushed (compressed data is stored in blocks of 4 MB).
          marks.push_back({buffer->writes.size(), saved, false});
        }
      }
    }
    w->StopMeasurement(m.stop);
    marks.push_back({buffer->writes.size(), saved, false});
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
    marks.push_back({buffer->writes.size(), saved, true});
  }
  sched::Disable();

  // Crash points.
  const size_t nof = buffer->writes.size();
  std::vector<bool> check(nof + 1, false);
  for (const auto& mk : marks) check[mk.writes] = true;
  const size_t tries = std::min<size_t>(nof, 40);
  if (nof <= 60) check.assign(nof + 1, true);
  else {
    // Around a flush, or anywhere.
    for (size_t i = 0; i < tries; ++i) {
      if (g.Bool()) check[g.Draw(nof)] = true;
      else {
        const auto& mk = marks[g.Draw(marks.size() - 1)];
        check[mk.writes - std::min<size_t>(mk.writes, g.Draw(20))] = true;
      }
    }
  }
  size_t images = 0, partial = 0;
  std::vector<uint8_t> image;
  size_t mark = 0;
  Expect e;
  e.layout = &m.dg;
  e.rec = &m.rec;
  e.start = m.start;
  e.sd = false;
  for (size_t k = 0; k <= nof; ++k) {
    if (k > 0) {
      const auto& wr = buffer->writes[k - 1];
      // The last write may be cut.
      if (check[k] && wr.bytes.size() > 1 && g.Chance(1, 4)) {
        auto cut = image;
        const size_t n = 1 + g.Draw(wr.bytes.size() - 2);
        if (wr.pos + n > cut.size()) cut.resize(wr.pos + n);
        std::copy_n(wr.bytes.begin(), n, cut.begin() + static_cast<int64_t>(wr.pos));
        Expect e2 = e;
        e2.may = saved;
        // A number that is cut in the file may be any number, so only the absence of a crash counts.
        if (wr.bytes.size() > 8) {
          ++images;
          CheckImage(cut, e2, "stop in write " + std::to_string(k) + " of " + std::to_string(nof));
        }
      }
      if (wr.pos + wr.bytes.size() > image.size()) image.resize(wr.pos + wr.bytes.size());
      std::copy(wr.bytes.begin(), wr.bytes.end(), image.begin() + static_cast<int64_t>(wr.pos));
    }
    while (mark < marks.size() && marks[mark].writes <= k) {
      e.config = true;
      e.must = marks[mark].saved;
      if (marks[mark].final) e.sd = true;
      ++mark;
    }
    if (!check[k]) continue;
    // The records handed over before the next flush ended may be there.
    e.may = mark < marks.size() ? marks[mark].saved : saved;
    // The tree of compressed data blocks is only complete when it has been written.
    if (compress && (mark == 0 || marks[mark - 1].writes != k)) {
      e.config = false;
      e.must = 0;
    }
    ++images;
    const auto n = CheckImage(image, e, "stop after write " + std::to_string(k) + " of " + std::to_string(nof));
    if (n > 0 && n < saved) ++partial;
  }
  if (partial > 0) g.Nontrivial();
  if (compress) g.Label("compressed");
  g.Label(mdf3 ? "mdf3" : type == MdfWriterType::MdfBusLogger ? "bus logger" : "mdf4");
  g.Note() << (mdf3 ? "mdf3" : "mdf4") << ", " << m.rec.size() << " samples, " << marks.size() - 3 << " flushes, " << nof
           << " writes, " << images << " images read, " << partial << " with a part of the samples";
}

// Marks a file as not finalized and ends it anywhere in the data of the last measurement.
struct Cut {
  std::vector<uint8_t> data;  // all records of the last data group
  size_t cut = 0;             // bytes of them that are left
  bool partial = false;       // the last record is not complete
  size_t total = 0;           // complete records
  std::map<uint64_t, uint64_t> cycles, vlsd;
  uint16_t flags = 0;
  bool fix_dt = false, fix_cg = false;
  void Run(vp::Gen& g, std::vector<uint8_t>& bytes, const std::vector<uint8_t>& all);
};
uint64_t Get(const std::vector<uint8_t>& b, size_t pos, size_t n) {
  uint64_t v = 0;
  for (size_t i = 0; i < n; ++i) v |= static_cast<uint64_t>(b.at(pos + i)) << (8 * i);
  return v;
}
// The fields of a data group that depend on the data.
struct CgInfo {
  size_t pos;
  uint64_t record_id, cycles;
  uint16_t flags;
  uint32_t data_bytes, inval_bytes;
};
struct DgInfo {
  size_t pos;
  uint8_t rec_id_size;
  std::vector<CgInfo> cg;
};
DgInfo Walk(const std::vector<uint8_t>& b, size_t index) {
  DgInfo d{};
  d.pos = Get(b, 64 + 24, 8);
  for (size_t i = 0; i < index; ++i) d.pos = Get(b, d.pos + 24, 8);
  d.rec_id_size = b.at(d.pos + 24 + 4 * 8);
  for (size_t p = Get(b, d.pos + 32, 8); p != 0; p = Get(b, p + 24, 8)) {
    const size_t q = p + 24 + 6 * 8;
    d.cg.push_back({p, Get(b, q, 8), Get(b, q + 8, 8), static_cast<uint16_t>(Get(b, q + 16, 2)),
                    static_cast<uint32_t>(Get(b, q + 24, 4)), static_cast<uint32_t>(Get(b, q + 28, 4))});
  }
  return d;
}
void Cut::Run(vp::Gen& g, std::vector<uint8_t>& bytes, const std::vector<uint8_t>& all) {
  size_t last = 0;
  for (size_t p = Get(bytes, 64 + 24, 8); Get(bytes, p + 24, 8) != 0; p = Get(bytes, p + 24, 8)) ++last;
  const auto dg = Walk(bytes, last);
  data = all;
  // The records of the last data group, moved to a DT block at the end of the file.
  while (bytes.size() % 8) bytes.push_back(0);
  const size_t dt = bytes.size();
  bytes.resize(dt + 24, 0);
  bytes[dt] = bytes[dt + 1] = '#';
  bytes[dt + 2] = 'D';
  bytes[dt + 3] = 'T';
  bytes.insert(bytes.end(), data.begin(), data.end());
  Put(bytes, dg.pos + 24 + 16, dt, 8);

  // The end of the file.
  cut = g.Chance(1, 6) ? data.size() : g.Draw(data.size());
  bytes.resize(dt + 24 + cut);
  // Complete records.
  std::map<uint64_t, const CgInfo*> by_id;
  for (const auto& cg : dg.cg) by_id[cg.record_id] = &cg;
  size_t pos = 0;
  while (pos < cut) {
    size_t p = pos;
    uint64_t id = 0;
    if (p + dg.rec_id_size > cut) {
      partial = true;
      break;
    }
    for (size_t i = 0; i < dg.rec_id_size; ++i) id |= static_cast<uint64_t>(data[p + i]) << (8 * i);
    p += dg.rec_id_size;
    const auto* cg = dg.rec_id_size == 0 ? &dg.cg[0] : by_id.at(id);
    uint64_t n = cg->data_bytes + cg->inval_bytes;
    if (cg->flags & 1) {
      if (p + 4 > cut) {
        partial = true;
        break;
      }
      n = 4 + (data[p] | data[p + 1] << 8 | data[p + 2] << 16 | static_cast<uint64_t>(data[p + 3]) << 24);
    }
    if (n == 0 && dg.rec_id_size == 0) break;
    if (p + n > cut) {
      partial = true;
      break;
    }
    pos = p + n;
    ++cycles[cg->record_id];
    if (cg->flags & 1) vlsd[cg->record_id] += n;
    ++total;
  }
  // Fields which the logger did not update.
  const bool dt_flag = g.Chance(2, 3), cg_flag = g.Chance(3, 4), vlsd_flag = g.Chance(1, 2);
  if (cg_flag) flags |= 0x01;
  if (dt_flag) flags |= 0x04;
  if (vlsd_flag) flags |= static_cast<uint16_t>(g.Pick({0x20, 0x40, 0x60}));
  if (flags == 0) flags = 0x05;
  fix_dt = (flags & 0x04) != 0, fix_cg = (flags & 0x01) != 0;
  const uint64_t true_length = 24 + (fix_dt ? cut : pos);
  Put(bytes, dt + 8, !fix_dt ? true_length : g.Pick({24ull, 0ull, static_cast<unsigned long long>(true_length),
                                                      24ull + g.Draw(cut), 24ull + cut + g.Draw(1000)}),
      8);
  if (!fix_dt) bytes.resize(dt + 24 + pos);
  for (const auto& cg : dg.cg) {
    const uint64_t n = cycles[cg.record_id];
    const bool is_vlsd = (cg.flags & 1) != 0;
    Put(bytes, cg.pos + 24 + 6 * 8 + 8, fix_cg ? g.Pick({uint64_t{0}, n, g.Draw(n), n + g.Draw(100)}) : n, 8);
    if (is_vlsd) {
      const uint64_t v = vlsd[cg.record_id];
      Put(bytes, cg.pos + 24 + 6 * 8 + 24, (flags & 0x60) ? g.Pick({uint64_t{0}, v, g.Draw(v)}) : v, 8);
    }
  }
  std::copy_n("UnFinMF ", 8, bytes.begin());
  Put(bytes, 60, flags, 2);
}

// A file which its writer marked as not finalized and which ends anywhere in
// the data of the last measurement.
void Unfinalized(vp::Gen& g) {
  NoLog();
  GenOpts o;
  o.max_dg = 2;
  o.max_cg = 3;
  o.max_ch = 3;
  o.max_rec = 30;
  o.big = false;
  o.many = g.Chance(1, 40);
  o.wide = false;
  const auto m = GenMeas(g, o);
  Io io(false, "unfin.mf4");
  {
    auto w = MdfFactory::CreateMdfWriter(g.Chance(1, 4) ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(true);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& rec : m.rec) SaveRec(*w, c, m.dg, rec, 1);
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  auto bytes = io.Bytes();
  const auto original = bytes;
  parse4::File f(original);
  const auto& dg = f.dg.back();
  Cut c;
  c.Run(g, bytes, f.TreeData(dg.data_link, "DT"));
  const auto& [data, cut, partial, total, cycles_, vlsd_, flags, fix_dt, fix_cg] = c;
  auto cycles = cycles_;
  // All records of earlier data groups and those of the last one that are complete.
  std::vector<Rec> rec;
  std::vector<size_t> count(m.dg.back().cg.size(), 0);
  std::vector<uint64_t> limit;
  for (const auto& cg : dg.cg)
    if (!(cg.flags & 1)) limit.push_back(cycles[cg.record_id]);
  vp::CheckEq(count.size(), limit.size(), "number of groups");
  for (const auto& r : m.rec) {
    if (r.dg + 1 == m.dg.size()) {
      if (count[r.cg] >= limit[r.cg]) continue;
      ++count[r.cg];
    }
    rec.push_back(r);
  }
  Expect e;
  e.layout = &m.dg;
  e.rec = &rec;
  e.start = m.start;
  e.must = e.may = rec.size();
  e.exact = true;
  e.config = true;
  const std::string ctx = "flags " + std::to_string(flags) + ", " + std::to_string(cut) + " of " +
                          std::to_string(data.size()) + " data bytes";
  CheckImage(bytes, e, ctx);
  {
    auto r = std::make_unique<MdfReader>(
        std::static_pointer_cast<std::streambuf>(std::make_shared<MemBuf>(bytes)));
    vp::Check(r->IsOk(), "IsOk");
    vp::Check(!r->IsFinalized(), "IsFinalized() before the repair");
    vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
    vp::Check(r->IsFinalized(), "IsFinalized() after the repair");
  }
  // A logger that starts again appends a new measurement to the file.
  if (g.Chance(1, 3)) {
    GenOpts o2 = o;
    o2.many = false;
    o2.max_dg = 1;
    const auto m2 = GenMeas(g, o2);
    Io io2(true, "again.mf4");
    io2.Bytes(bytes);
    {
      auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
      vp::Check(io2.Init(*w), "Init of the file with a writer");
      w->CompressData(g.Bool());
      auto c = CreateConfig(*w, m2.dg);
      vp::Check(w->InitMeasurement(), "InitMeasurement");
      w->StartMeasurement(m2.start);
      for (const auto& r : m2.rec) SaveRec(*w, c, m2.dg, r, 1);
      w->StopMeasurement(m2.stop);
      vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
    }
    auto r = io2.Reader();
    vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
    vp::Check(r->IsFinalized(), "IsFinalized() after a new measurement");
    Compare(m.dg, rec, m.start, ReadAll(*r, m.dg), ctx + ", after a new measurement was added");
    Compare(m2.dg, m2.rec, m2.start, ReadAll(*r, m2.dg, m.dg.size()), ctx + ", new measurement");
    if (!(partial && fix_dt)) {  // the repair also corrects the counters and sizes in the file
      const auto repaired = io2.Bytes();
      parse4::File strict(repaired);
      g.Label("repaired file checked");
    }
    g.Label("new measurement added");
  }
  if (total > 0 && cut < data.size()) g.Nontrivial();
  if (partial && fix_dt) g.Label("last record cut");
  if (fix_dt) g.Label("data length unknown");
  if (fix_cg) g.Label("sample counters unknown");
  g.Note() << ctx << ", " << total << " complete records" << (partial ? " and a part of one" : "");
}

// The same with files of other tools: variable length groups, structures, any record layout.
void UnfinalizedForeign(vp::Gen& g) {
  NoLog();
  enc::Opts o;
  o.max_cn = 4;
  o.max_rec = 15;
  const enc::File f = enc::Generate(g, o);
  auto bytes = enc::Encode(g, f).Bytes(&g);
  Cut c;
  enc::Out stream;
  for (const auto& [k, s] : f.dg.back().order) {
    const auto& cg = f.dg.back().cg[k];
    for (uint8_t i = 0; i < f.dg.back().id_size; ++i) stream.N<uint8_t>(static_cast<uint8_t>(cg.id >> (8 * i)));
    if (cg.vlsd) stream.N<uint32_t>(static_cast<uint32_t>(cg.rec[s].size()));
    stream.Raw(cg.rec[s]);
  }
  c.Run(g, bytes, stream.b);
  g.Note() << "flags " << c.flags << ", " << c.cut << " of " << c.data.size() << " data bytes, " << f.Describe();
  auto count = [&](size_t d, size_t k) {
    const auto& cg = f.dg[d].cg[k];
    if (d + 1 < f.dg.size()) return static_cast<uint64_t>(cg.rec.size());
    return c.cycles[cg.id];
  };
  auto check = [&](MdfReader& r, const std::string& when) {
    vp::Check(r.IsOk() && r.ReadEverythingButData(), "ReadEverythingButData");
    for (size_t d = 0; d < f.dg.size(); ++d) {
      auto* dg = r.GetDataGroup(d);
      vp::Check(dg != nullptr, "data group");
      const auto groups = dg->ChannelGroups();
      struct Item {
        size_t k;
        const enc::Cn* cn;
        ChannelObserverPtr o;
      };
      std::vector<Item> items;
      for (size_t k = 0; k < groups.size(); ++k) {
        vp::CheckEq(count(d, k), groups[k]->NofSamples(), when + "samples of group " + f.dg[d].cg[k].name);
        if (f.dg[d].cg[k].vlsd) continue;
        const auto flat = enc::Flat(f.dg[d].cg[k]);
        for (const auto* cn : flat) {
          auto* channel = groups[k]->GetChannel(cn->name);
          vp::Check(channel != nullptr, "channel " + cn->name);
          items.push_back({k, cn, CreateChannelObserver(*dg, *groups[k], *channel)});
        }
      }
      vp::Check(r.ReadData(*dg), when + "ReadData");
      for (const auto& x : items) {
        const auto& cg = f.dg[d].cg[x.k];
        vp::CheckEq(count(d, x.k), x.o->NofSamples(), when + "samples of channel " + x.cn->name);
        for (uint64_t s = 0; s < count(d, x.k); ++s) {
          // The value of the last record may be cut off.
          if (x.cn->vlsd == enc::kCg && count(d, x.cn->vlsd_cg) < f.dg[d].cg[x.cn->vlsd_cg].rec.size()) {
            const auto& var = f.dg[d].cg[x.cn->vlsd_cg].rec;
            const auto n = static_cast<std::ptrdiff_t>(count(d, x.cn->vlsd_cg));
            if (std::find(var.begin(), var.begin() + n, x.cn->var[s]) == var.begin() + n) continue;
            if (s >= count(d, x.cn->vlsd_cg)) continue;
          }
          const auto want = enc::Decode(cg, *x.cn, s), got = enc::Read(*x.o, *x.cn, s);
          if (!enc::Same(want, got))
            vp::Fail(when + "channel " + enc::Show(*x.cn) + " sample " + std::to_string(s) + ": expected " + enc::Show(want) +
                     " got " + enc::Show(got));
        }
      }
    }
  };
  Io io(true, "foreign.mf4");
  io.Bytes(bytes);
  check(*io.Reader(), "");
  if (g.Chance(1, 2)) {
    GenOpts o2;
    o2.max_dg = 1;
    o2.max_cg = 2;
    o2.max_ch = 3;
    o2.max_rec = 5;
    o2.big = o2.many = o2.wide = false;
    const auto m2 = GenMeas(g, o2);
    {
      auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
      vp::Check(io.Init(*w), "Init of the file with a writer");
      w->CompressData(g.Bool());
      auto config = CreateConfig(*w, m2.dg);
      vp::Check(w->InitMeasurement(), "InitMeasurement");
      w->StartMeasurement(m2.start);
      for (const auto& r : m2.rec) SaveRec(*w, config, m2.dg, r, 1);
      w->StopMeasurement(m2.stop);
      vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
    }
    auto r = io.Reader();
    check(*r, "after a new measurement: ");
    vp::Check(r->IsFinalized(), "IsFinalized() after a new measurement");
    Compare(m2.dg, m2.rec, m2.start, ReadAll(*r, m2.dg, f.dg.size()), "new measurement");
    const auto repaired = Walk(io.Bytes(), f.dg.size() - 1);
    vp::CheckEq(f.dg.back().cg.size(), repaired.cg.size(), "number of groups in the repaired file");
    for (const auto& cg : repaired.cg) {
      vp::CheckEq(c.cycles[cg.record_id], cg.cycles, "sample counter in the repaired file");
      if (cg.flags & 1)
        vp::CheckEq(c.vlsd[cg.record_id], cg.data_bytes + (uint64_t{cg.inval_bytes} << 32), "VLSD size in the repaired file");
    }
    g.Label("new measurement added");
  }
  if (!c.vlsd.empty()) g.Label((c.flags & 0x60) ? "VLSD size unknown" : "VLSD group");
  if (c.partial && c.fix_dt) g.Label("last record cut");
  if (c.total > 0) g.Nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C16";
  p.assumptions = {"writes reach the file in order; a stop may fall inside a write",
                   "values of variable length channels are stored when the measurement is finalized"};
  p.subs.push_back({"stops", 8000, 30000, Stops, "an image with some but not all samples"});
  p.subs.push_back({"unfinalized", 15000, 100000, Unfinalized, "file cut inside the data"});
  p.subs.push_back({"foreign", 15000, 300000, UnfinalizedForeign, "at least one complete record"});
  return vp::Main(argc, argv, p);
}
