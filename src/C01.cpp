// C01: whatever is stored through the MDF4 writers is read back unchanged.
#include <sstream>

#include "common/membuf.h"
#include "common/model.h"
#include "common/sched.h"
#include "mdf/idatawriter.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

void RoundTrip(vp::Gen& g) {
  NoLog();
  GenOpts o;
  const bool converter = g.Chance(1, 3);
  const bool compress = g.Bool();
  const bool to_file = g.Chance(1, 3);
  const bool periodic = !g.Chance(1, 4);
  const bool flush = periodic && g.Chance(1, 3);
  const int how = static_cast<int>(g.Draw(2));
  const bool as_text = g.Chance(1, 6);  // some values are given as text
  Meas m = GenMeas(g, o);

  const std::string name = vp::ScratchDir() + "/rt.mf4";
  std::shared_ptr<std::streambuf> buffer;
  if (flush) sched::Enable();
  {
    auto w = MdfFactory::CreateMdfWriter(converter ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic);
    if (to_file) {
      vp::Check(w->Init(name), "Init(file)");
    } else {
      buffer = std::make_shared<MemBuf>();
      vp::Check(w->Init(buffer), "Init(buffer)");
    }
    w->CompressData(compress);
    w->SavePeriodic(periodic);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& r : m.rec) {
      SaveRec(*w, c, m.dg, r, how, as_text && g.Bool());
      if (flush && g.Chance(1, 6)) sched::Tick();
    }
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  if (flush) sched::Disable();
  {
    std::unique_ptr<MdfReader> r;
    if (to_file) r = std::make_unique<MdfReader>(name);
    else r = std::make_unique<MdfReader>(buffer);
    vp::Check(r->IsOk(), "reader not ok");
    vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
    vp::CheckEq(true, r->IsFinalized(), "IsFinalized");
    vp::CheckEq(m.start, r->GetHeader()->StartTime(), "header start time");
    vp::CheckEq(m.dg.size(), r->GetHeader()->DataGroups().size(), "number of data groups");
    auto got = ReadAll(*r, m.dg);
    Compare(m.dg, m.rec, m.start, got, "MDF4");
  }
  size_t bytes = 0;
  bool inv = false, vlsd = false, be = false;
  for (auto& d : m.dg)
    for (auto& cg : d.cg)
      for (auto& c : cg.ch) {
        inv |= c.inv;
        vlsd |= IsVlsd(c);
        be |= c.dt == ChannelDataType::UnsignedIntegerBe || c.dt == ChannelDataType::SignedIntegerBe || c.dt == ChannelDataType::FloatBe;
      }
  for (auto& r : m.rec)
    for (size_t k = 0; k < r.v.size(); ++k) bytes += m.dg[r.dg].cg[r.cg].ch[k].bytes + r.v[k].s.size() + r.v[k].b.size();
  if (m.rec.size() >= 2) g.Nontrivial();
  g.Label(compress ? "compressed" : "uncompressed");
  g.Label(converter ? "converter" : "basic");
  if (to_file) g.Label("file");
  if (m.dg.size() > 1) g.Label("several DG");
  if (m.dg[0].cg.size() > 1) g.Label("several CG");
  if (inv) g.Label("invalidation bits");
  if (vlsd) g.Label("vlsd");
  if (be) g.Label("big endian");
  if (flush) g.Label("flushes");
  if (bytes > 4000000) g.Label("over 4 MB");
  g.Note() << (converter ? "converter " : "basic ") << (compress ? "dz " : "dt ") << (to_file ? "file " : "buffer ")
           << m.Describe();
}

template <typename T>
bool Put(IDataWriter& w, const DataWriterChannelLayout& l, T v) {
  w.SetValue(l, v);
  return true;
}

// One value through the data writer. False if it has no typed access to it.
bool PutValue(IDataWriter& w, const DataWriterChannelLayout& l, const ChSpec& c, const Val& v) {
  if (IsUnsigned(c)) {
    switch (c.bytes) {
      case 1: return Put(w, l, static_cast<uint8_t>(v.u));
      case 2: return Put(w, l, static_cast<uint16_t>(v.u));
      case 4: return Put(w, l, static_cast<uint32_t>(v.u));
      case 8: return Put(w, l, static_cast<uint64_t>(v.u));
      default: return false;
    }
  }
  if (IsSigned(c)) {
    switch (c.bytes) {
      case 1: return Put(w, l, static_cast<int8_t>(v.i));
      case 2: return Put(w, l, static_cast<int16_t>(v.i));
      case 4: return Put(w, l, static_cast<int32_t>(v.i));
      case 8: return Put(w, l, static_cast<int64_t>(v.i));
      default: return false;
    }
  }
  if (IsFloat(c) && c.bytes == 4) return Put(w, l, static_cast<float>(v.d));
  if (IsFloat(c) && c.bytes == 8) return Put(w, l, v.d);
  return false;
}

// Samples built with the data writer of their group and stored by AddSample.
void Bulk(vp::Gen& g) {
  NoLog();
  GenOpts o;
  o.vlsd = false;
  o.big = false;
  o.leave_unset = false;
  Meas m = GenMeas(g, o);
  // Only fixed length channels without invalidation; a master is calculated.
  for (auto& d : m.dg)
    for (auto& cg : d.cg)
      for (auto& c : cg.ch) {
        c.inv = false;
        if (c.type == ChannelType::Master) c.auto_time = true;
      }
  for (auto& r : m.rec)
    for (auto& v : r.v) v.valid = true;
  auto buffer = std::make_shared<MemBuf>();
  size_t typed = 0, direct = 0, raw = 0;
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
    vp::Check(w->Init(std::static_pointer_cast<std::streambuf>(buffer)), "Init(buffer)");
    w->CompressData(g.Bool());
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    std::vector<std::vector<std::unique_ptr<IDataWriter>>> dw;
    for (size_t d = 0; d < m.dg.size(); ++d) {
      dw.emplace_back();
      for (size_t k = 0; k < m.dg[d].cg.size(); ++k) {
        dw[d].push_back(MdfFactory::CreateDataWriter(*c.cg[d][k]));
        vp::Check(static_cast<bool>(dw[d][k]), "CreateDataWriter");
        // Each channel but the master, in order
        const auto& l = dw[d][k]->ChannelLayouts();
        size_t at = 0;
        for (size_t i = 0; i < m.dg[d].cg[k].ch.size(); ++i) {
          const auto& spec = m.dg[d].cg[k].ch[i];
          if (spec.type == ChannelType::Master) continue;
          vp::Check(at < l.size(), "the data writer has no layout for " + spec.name);
          vp::CheckEq(i, l[at].channel_index, "layout channel index");
          vp::CheckEq(spec.name, l[at].name, "layout name");
          vp::CheckEq(int(spec.dt), int(l[at].data_type), "layout data type of " + spec.name);
          vp::CheckEq(c.ch[d][k][i]->DataBytes(), l[at].data_bytes, "layout bytes of " + spec.name);
          ++at;
        }
        vp::CheckEq(at, l.size(), "number of layouts");
      }
    }
    w->StartMeasurement(m.start);
    for (const auto& r : m.rec) {
      auto& x = *dw[r.dg][r.cg];
      const auto& spec = m.dg[r.dg].cg[r.cg].ch;
      if (g.Chance(1, 2)) x.Reset();
      if (g.Chance(1, 5)) {
        // The record serialized by the channels themselves
        for (size_t k = 0; k < spec.size(); ++k) SetValue(*c.ch[r.dg][r.cg][k], spec[k], r.v[k]);
        const SampleRecord rec = c.cg[r.dg][r.cg]->GetSampleRecord();
        vp::CheckEq(x.RecordSize(), rec.record_buffer.size(), "record size");
        vp::CheckEq(false, x.WriteRawRecord(rec.record_buffer.data(), rec.record_buffer.size() + 1), "WriteRawRecord of a wrong length");
        vp::CheckEq(true, x.WriteRawRecord(rec.record_buffer.data(), rec.record_buffer.size()), "WriteRawRecord");
        ++raw;
      } else {
        for (const auto& l : x.ChannelLayouts()) {
          const auto& ch = spec[l.channel_index];
          const auto& v = r.v[l.channel_index];
          if (IsVirtual(ch)) continue;
          if (PutValue(x, l, ch, v)) {
            ++typed;
            continue;
          }
          // Serialized by the channel
          SetValue(*c.ch[r.dg][r.cg][l.channel_index], ch, v);
          const SampleRecord rec = c.cg[r.dg][r.cg]->GetSampleRecord();
          vp::Check(l.byte_offset + l.data_bytes <= rec.record_buffer.size() && x.Buffer().size() == rec.record_buffer.size(),
                    "layout of " + ch.name + " outside the record");
          std::copy_n(rec.record_buffer.begin() + l.byte_offset, l.data_bytes, x.Buffer().begin() + l.byte_offset);
          ++direct;
        }
      }
      SampleRecord rec = x.Commit();
      vp::CheckEq(c.cg[r.dg][r.cg]->RecordId(), rec.record_id, "record id of the committed record");
      w->AddSample(*c.dg[r.dg], *c.cg[r.dg][r.cg], r.time, std::move(rec));
    }
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  MdfReader r(std::static_pointer_cast<std::streambuf>(buffer));
  vp::Check(r.IsOk() && r.ReadEverythingButData(), "ReadEverythingButData");
  Compare(m.dg, m.rec, m.start, ReadAll(r, m.dg), "data writer");
  if (m.rec.size() >= 2 && typed > 0) g.Nontrivial();
  if (direct) g.Label("direct bytes");
  if (raw) g.Label("raw record");
  if (m.dg.size() > 1) g.Label("several DG");
  g.Note() << m.Describe();
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C01";
  p.assumptions = {"TZ=UTC", "values generated inside the range of the channel's data type"};
  p.subs.push_back({"roundtrip", 40000, 800000, RoundTrip, "at least two records stored"});
  p.subs.push_back({"bulk", 6000, 120000, Bulk, "at least two records, one value stored by the typed access of the data writer"});
  p.subs.push_back({"long", 60, 1000, [](vp::Gen& g) { LongRun(g, false); }, "more than 65536 samples in a group", 3, 60});
  return vp::Main(argc, argv, p);
}
