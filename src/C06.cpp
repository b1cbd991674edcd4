// C06: a new measurement leaves everything that is already in the file as it was.
#include "common/enc3.h"
#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "common/sched.h"
#include "mdf/iattachment.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

struct Texts {
  std::vector<std::string> dg;
  std::vector<std::vector<std::string>> cg;
  std::vector<std::vector<std::vector<std::string>>> cn;
};
struct Attached {
  std::string file;
  std::vector<uint8_t> data;
};

std::string Comment(vp::Gen& g) {
  auto s = g.Text(20);
  // Surrounding blanks are not preserved.
  return "d" + s + ".";
}

struct World {
  bool mdf3 = false;
  std::vector<Meas> all;
  std::vector<Texts> texts;
  std::vector<Attached> at;
  std::vector<std::string> events;
  std::string author, description;
  uint64_t start = 0;       // expected start time of the file
  bool with_samples = false;
};

// Everything the world holds is found in the file.
void Verify(const Io& io, const World& w, const std::string& ctx) {
  auto r = io.Reader();
  vp::Check(r->IsOk(), ctx + "reader");
  vp::Check(r->ReadEverythingButData(), ctx + "ReadEverythingButData");
  const auto* h = r->GetHeader();
  size_t nof_dg = 0;
  for (const auto& m : w.all) nof_dg += m.dg.size();
  vp::CheckEq(nof_dg, h->DataGroups().size(), ctx + "number of data groups");
  vp::CheckEq(w.start, h->StartTime(), ctx + "start time");
  vp::CheckEq(w.author, h->Author(), ctx + "author");
  vp::CheckEq(w.description, h->Description(), ctx + "description");
  if (!w.mdf3) vp::CheckEq(true, r->IsFinalized(), ctx + "finalized");
  size_t dg = 0;
  for (size_t i = 0; i < w.all.size(); ++i) {
    const auto& m = w.all[i];
    const std::string where = ctx + "measurement " + std::to_string(i) + " ";
    const auto got = ReadAll(*r, m.dg, dg);
    Compare(m.dg, m.rec, m.start, got, where);
    const auto& t = w.texts[i];
    for (size_t d = 0; d < m.dg.size(); ++d) {
      auto* fdg = h->DataGroups()[dg + d];
      if (!w.mdf3) vp::CheckEq(t.dg[d], fdg->Description(), where + "data group text");
      for (size_t k = 0; k < m.dg[d].cg.size(); ++k) {
        auto* fcg = fdg->ChannelGroups()[k];
        vp::CheckEq(t.cg[d][k], fcg->Description(), where + "channel group text");
        for (size_t n = 0; n < m.dg[d].cg[k].ch.size(); ++n) {
          auto* fcn = fcg->Channels()[n];
          vp::CheckEq(t.cn[d][k][n], fcn->Description(), where + "channel text");
          // A synchronization channel without a unit has the default unit of its domain.
          const auto& spec = m.dg[d].cg[k].ch[n];
          if (!spec.unit.empty() || spec.sync == ChannelSyncType::None) vp::CheckEq(spec.unit, fcn->Unit(), where + "unit");
          vp::CheckEq(static_cast<int>(m.dg[d].cg[k].ch[n].dt), static_cast<int>(fcn->DataType()), where + "data type");
        }
      }
    }
    dg += m.dg.size();
  }
  if (w.mdf3) return;
  const auto at = h->Attachments();
  vp::CheckEq(w.at.size(), at.size(), ctx + "number of attachments");
  for (size_t i = 0; i < at.size(); ++i) {
    vp::CheckEq(w.at[i].file, at[i]->FileName(), ctx + "attached file");
    MemBuf out;
    vp::Check(r->ExportAttachmentData(*at[i], out), ctx + "export");
    vp::Check(out.Data() == w.at[i].data, ctx + "attached bytes");
  }
  const auto ev = h->Events();
  vp::CheckEq(w.events.size(), ev.size(), ctx + "number of events");
  for (size_t i = 0; i < ev.size(); ++i) vp::CheckEq(w.events[i], ev[i]->Name(), ctx + "event name");
}

void Append(vp::Gen& g) {
  NoLog();
  World world;
  world.mdf3 = g.Chance(1, 3);
  const bool to_file = !g.Chance(1, 5);
  Io io(to_file, world.mdf3 ? "append.mdf" : "append.mf4");
  const size_t rounds = 2 + g.Size(g.Thorough() ? 6 : 4);
  std::unique_ptr<MdfWriter> w;
  size_t reopened = 0, same = 0, empty = 0;
  uint64_t now = 1500000000000000000ull;
  std::string history;
  for (size_t round = 0; round < rounds; ++round) {
    const bool fresh = round == 0 || (to_file && g.Bool());
    if (fresh) {
      w.reset();
      const auto n = g.Draw(4);
      const auto type = world.mdf3 ? MdfWriterType::Mdf3Basic
                                   : n < 3 ? MdfWriterType::Mdf4Basic : n == 3 ? MdfWriterType::MdfConverter : MdfWriterType::MdfBusLogger;
      w = MdfFactory::CreateMdfWriter(type);
      vp::Check(io.Init(*w), "Init");
      vp::CheckEq(round == 0, w->IsFileNew(), "IsFileNew");
      if (round > 0) ++reopened;
      history += round > 0 ? " reopen" : "";
      if (round > 0 && g.Chance(1, 6)) {
        // Opened and closed without a measurement.
        w.reset();
        Verify(io, world, "after opening: ");
        w = MdfFactory::CreateMdfWriter(type);
        vp::Check(io.Init(*w), "Init");
      }
    } else {
      ++same;
      history += " next";
    }
    const bool compress = !world.mdf3 && g.Bool();
    const bool periodic = !g.Chance(1, 4);
    const bool flush = periodic && g.Chance(1, 3);
    w->CompressData(compress);
    w->SavePeriodic(periodic);
    GenOpts o;
    o.mdf3 = world.mdf3;
    o.max_rec = 20;
    o.max_ch = 4;
    o.many = false;
    Meas m = GenMeas(g, o);
    if (g.Chance(1, 6)) m.rec.clear();
    const uint64_t shift = now - m.start;
    m.start += shift;
    m.stop += shift;
    for (auto& x : m.rec) x.time += shift;
    now = m.stop + 1000000000ull * g.Draw(1000);
    if (m.rec.empty()) ++empty;
    if (round == 0) {
      if (g.Bool()) w->Header()->Author(world.author = Comment(g).substr(0, 1) + g.Ident(10));
      if (g.Bool()) w->Header()->Description(world.description = "x" + g.Ident(20));
    }
    auto c = CreateConfig(*w, m.dg);
    Texts t;
    for (size_t d = 0; d < m.dg.size(); ++d) {
      t.dg.push_back(!world.mdf3 && g.Chance(1, 3) ? Comment(g) : "");
      if (!t.dg.back().empty()) c.dg[d]->Description(t.dg.back());
      t.cg.emplace_back();
      t.cn.emplace_back();
      for (size_t k = 0; k < m.dg[d].cg.size(); ++k) {
        t.cg.back().push_back(g.Chance(1, 3) ? (world.mdf3 ? g.Ident(30) : Comment(g)) : "");
        if (!t.cg.back().back().empty()) c.cg[d][k]->Description(t.cg.back().back());
        t.cn.back().emplace_back();
        for (size_t n = 0; n < m.dg[d].cg[k].ch.size(); ++n) {
          t.cn.back().back().push_back(g.Chance(1, 4) ? (world.mdf3 ? g.Ident(100) : Comment(g)) : "");
          if (!t.cn.back().back().back().empty()) c.ch[d][k][n]->Description(t.cn.back().back().back());
        }
      }
    }
    if (!world.mdf3 && g.Chance(1, 4)) {
      Attached a;
      a.file = vp::ScratchDir() + "/at" + std::to_string(round) + ".bin";
      a.data = g.Bytes(g.Size(300));
      WriteFileBytes(a.file, a.data);
      auto* at = w->Header()->CreateAttachment();
      at->IsEmbedded(true);
      at->IsCompressed(g.Bool());
      at->FileName(a.file);
      world.at.push_back(a);
    }
    if (!world.mdf3 && g.Chance(1, 4)) {
      auto* ev = w->Header()->CreateEvent();
      ev->Name("Event" + std::to_string(round));
      if (g.Bool()) ev->AddScope(c.cg[0][0]);
      world.events.push_back("Event" + std::to_string(round));
    }
    if (flush) sched::Enable();
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    const int how = static_cast<int>(g.Draw(2));
    for (const auto& x : m.rec) {
      SaveRec(*w, c, m.dg, x, how);
      if (flush && g.Chance(1, 8)) sched::Tick();
    }
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
    if (flush) sched::Disable();
    // The start time of the file is the one of its first samples.
    if (!world.with_samples) world.start = m.start;
    world.with_samples |= !m.rec.empty();
    history += " " + std::to_string(m.rec.size());
    world.all.push_back(std::move(m));
    world.texts.push_back(std::move(t));
    // The file may be checked while the writer is still open.
    if (g.Bool()) w.reset();
    const bool closed = !w;
    Verify(io, world, "after measurement " + std::to_string(round) + ": ");
    if (closed && round + 1 < rounds) {
      if (!to_file) break;
      w = MdfFactory::CreateMdfWriter(world.mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
      vp::Check(io.Init(*w), "Init");
      ++reopened;
    }
  }
  for (const auto& a : world.at) std::remove(a.file.c_str());
  size_t recs = 0, with = 0;
  for (auto& m : world.all) {
    recs += m.rec.size();
    with += m.rec.empty() ? 0 : 1;
  }
  if (with > 1) g.Nontrivial();
  g.Label(world.mdf3 ? "mdf3" : "mdf4");
  if (reopened) g.Label("reopened");
  if (same) g.Label("same session");
  if (empty) g.Label("measurement without samples");
  if (!world.at.empty()) g.Label("attachments");
  g.Note() << (world.mdf3 ? "mdf3" : "mdf4") << (to_file ? " file" : " buffer") << history << "; first " << world.all[0].Describe();
}

// Measurements added to a file of another tool.
void Foreign(vp::Gen& g) {
  NoLog();
  enc::Opts o;
  o.max_cn = 4;
  o.max_rec = 15;
  const enc::File f = enc::Generate(g, o);
  Io io(true, "foreign.mf4");
  io.Bytes(enc::Encode(g, f).Bytes(&g));
  std::vector<Meas> added;
  const size_t sessions = 1 + g.Draw(2);
  size_t samples = 0;
  for (size_t i = 0; i < sessions; ++i) {
    {
      auto w = MdfFactory::CreateMdfWriter(g.Pick({MdfWriterType::Mdf4Basic, MdfWriterType::MdfConverter}));
      vp::Check(io.Init(*w), "Init of the file with a writer");
      if (g.Chance(1, 5)) w->Header()->Author("someone");
      w->CompressData(g.Bool());
      const size_t rounds = 1 + (g.Chance(1, 4) ? 1 : 0);
      for (size_t k = 0; k < rounds; ++k) {
        GenOpts o2;
        o2.max_dg = 1;
        o2.max_cg = 2;
        o2.max_ch = 3;
        o2.max_rec = 8;
        o2.big = o2.many = o2.wide = false;
        auto m = GenMeas(g, o2);
        auto c = CreateConfig(*w, m.dg);
        vp::Check(w->InitMeasurement(), "InitMeasurement");
        w->StartMeasurement(m.start);
        for (const auto& r : m.rec) SaveRec(*w, c, m.dg, r, 1);
        w->StopMeasurement(m.stop);
        vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
        samples += m.rec.size();
        added.push_back(std::move(m));
      }
    }
    const std::string when = "after session " + std::to_string(i) + ": ";
    auto r = io.Reader();
    vp::Check(r->IsOk() && r->ReadEverythingButData(), when + "ReadEverythingButData");
    enc::CheckRead(*r, f, when);
    size_t first = f.dg.size();
    for (const auto& m : added) {
      Compare(m.dg, m.rec, m.start, ReadAll(*r, m.dg, first), when + "added measurement");
      first += m.dg.size();
    }
    vp::CheckEq(first, r->GetHeader()->DataGroups().size(), when + "number of data groups");
  }
  if (samples > 0) g.Nontrivial();
  g.Note() << added.size() << " measurements added to " << f.Describe();
}

// The same for MDF3.
void Foreign3(vp::Gen& g) {
  NoLog();
  enc::Opts o;
  o.max_cn = 4;
  o.max_rec = 15;
  o.vlsd = false;
  enc::File f = enc::Generate(g, o);
  enc::ToMdf3(g, f);
  std::map<std::string, enc::Text3> text;
  std::string version;
  Io io(true, "foreign.dat");
  io.Bytes(enc::Encode3(g, f, text, version, false));
  std::vector<Meas> added;
  g.Note() << version << " " << f.Describe();
  const size_t sessions = 1 + g.Draw(2);
  size_t samples = 0;
  for (size_t i = 0; i < sessions; ++i) {
    {
      auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf3Basic);
      vp::Check(io.Init(*w), "Init of the file with a writer");
      const size_t rounds = 1 + (g.Chance(1, 4) ? 1 : 0);
      for (size_t k = 0; k < rounds; ++k) {
        GenOpts o2;
        o2.mdf3 = true;
        o2.max_dg = 1;
        o2.max_cg = 2;
        o2.max_ch = 3;
        o2.max_rec = 8;
        o2.big = o2.many = o2.wide = false;
        auto m = GenMeas(g, o2);
        auto c = CreateConfig(*w, m.dg);
        vp::Check(w->InitMeasurement(), "InitMeasurement");
        w->StartMeasurement(m.start);
        for (const auto& r : m.rec) SaveRec(*w, c, m.dg, r, 1);
        w->StopMeasurement(m.stop);
        vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
        samples += m.rec.size();
        added.push_back(std::move(m));
      }
    }
    const std::string when = "after session " + std::to_string(i) + ": ";
    auto r = io.Reader();
    vp::Check(r->IsOk() && r->ReadEverythingButData(), when + "ReadEverythingButData");
    enc::CheckRead3(*r, f, text, version, when, false);
    size_t first = f.dg.size();
    for (const auto& m : added) {
      Compare(m.dg, m.rec, m.start, ReadAll(*r, m.dg, first), when + "added measurement");
      first += m.dg.size();
    }
    vp::CheckEq(first, r->GetHeader()->DataGroups().size(), when + "number of data groups");
    vp::CheckEq(std::string("file comment"), r->GetHeader()->Description(), when + "comment of the header");
    vp::CheckEq(std::string("author"), r->GetHeader()->Author(), when + "author");
  }
  if (samples > 0) g.Nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C06";
  p.assumptions = {"TZ=UTC", "a stream buffer always starts a new file, so only files are reopened"};
  p.subs.push_back({"append", 12000, 300000, Append, "at least two measurements with samples"});
  p.subs.push_back({"foreign", 8000, 200000, Foreign, "at least one sample added"});
  p.subs.push_back({"foreign3", 6000, 150000, Foreign3, "at least one sample added"});
  return vp::Main(argc, argv, p);
}
