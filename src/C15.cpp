// C15: finalized MDF4 files are well-formed and hold the stored samples as seen
// by an independent parser.
#include <fstream>

#include "common/compare4.h"
#include "common/io.h"
#include "common/model.h"
#include "common/parse4.h"
#include "common/sched.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/isourceinformation.h"
#include "mdf/mdfreader.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

// Descriptive blocks that only have to be stored well-formed here.
size_t Decorate(vp::Gen& g, MdfWriter& w, const Created& c, bool first) {
  size_t n = 0;
  auto* h = w.Header();
  if (first) {
    if (g.Bool()) {
      auto* fh = h->CreateFileHistory();
      if (g.Bool()) fh->Description(g.Text(30));
      fh->ToolName(g.Text(10));
      fh->ToolVendor(g.Text(10));
      fh->ToolVersion(g.Text(10));
      fh->UserName(g.Text(10));
      ++n;
    }
    if (g.Bool()) h->Author(g.Text(20));
    if (g.Bool()) h->Description(g.Text(40));
    if (g.Chance(1, 4)) {
      auto* at = h->CreateAttachment();
      const std::string name = vp::ScratchDir() + "/at.bin";
      WriteFileBytes(name, g.Bytes(g.Size(500)));
      at->IsEmbedded(g.Bool());
      at->IsCompressed(at->IsEmbedded() && g.Bool());
      at->FileName(name);
      at->FileType("application/x");
      ++n;
    }
    const size_t nof_ev = g.Chance(1, 3) ? 1 + g.Draw(3) : 0;
    IEvent* parent = nullptr;
    for (size_t i = 0; i < nof_ev; ++i) {
      auto* e = h->CreateEvent();
      if (g.Bool()) e->Name(g.Text(10));
      if (g.Bool()) e->Description(g.Text(10));
      if (parent != nullptr && g.Bool()) e->ParentEvent(parent);
      if (!c.cg.empty() && g.Bool()) e->AddScope(c.cg[0][0]);
      if (!c.ch.empty() && g.Bool()) e->AddScope(c.ch[0][0][0]);
      parent = e;
      ++n;
    }
    if (g.Chance(1, 4)) {
      auto* ch = h->CreateChannelHierarchy();
      ch->Name(g.Text(10));
      if (!c.ch.empty()) ch->AddElementLink({c.dg[0], c.cg[0][0], c.ch[0][0][0]});
      if (g.Bool()) {
        auto* sub = ch->CreateChannelHierarchy();
        sub->Name(g.Text(10));
      }
      ++n;
    }
  }
  for (size_t d = 0; d < c.dg.size(); ++d) {
    if (g.Chance(1, 4)) c.dg[d]->Description(g.Text(20)), ++n;
    for (size_t k = 0; k < c.cg[d].size(); ++k) {
      if (g.Chance(1, 4)) c.cg[d][k]->Description(g.Text(20)), ++n;
      if (g.Chance(1, 4)) {
        auto* si = c.cg[d][k]->CreateSourceInformation();
        if (g.Bool()) si->Name(g.Text(10));
        if (g.Bool()) si->Path(g.Text(10));
        if (g.Bool()) si->Description(g.Text(10));
        ++n;
      }
      for (auto* cn : c.ch[d][k]) {
        if (g.Chance(1, 4)) cn->Description(g.Text(20)), ++n;
        if (g.Chance(1, 6)) {
          auto* si = cn->CreateSourceInformation();
          si->Name(g.Text(10));
          ++n;
        }
        if (cn->Type() != ChannelType::Master && g.Chance(1, 5)) {
          auto* cc = cn->CreateChannelConversion();
          if (g.Bool()) cc->Name(g.Text(10));
          if (g.Bool()) cc->Unit(g.Text(5));
          switch (g.Draw(3)) {
            case 0:
              cc->Type(ConversionType::Linear);
              cc->Parameter(0, g.InterestingDouble());
              cc->Parameter(1, g.InterestingDouble());
              break;
            case 1: {
              cc->Type(ConversionType::ValueToText);
              const size_t nv = g.Draw(4);
              for (size_t i = 0; i < nv; ++i) {
                cc->Parameter(static_cast<uint16_t>(i), static_cast<double>(i));
                cc->Reference(static_cast<uint16_t>(i), g.Text(10));
              }
              cc->Reference(static_cast<uint16_t>(nv), g.Text(10));
              break;
            }
            case 2: {
              cc->Type(ConversionType::ValueToValue);
              const size_t nv = 1 + g.Draw(4);
              for (size_t i = 0; i < nv; ++i) {
                cc->Parameter(static_cast<uint16_t>(2 * i), static_cast<double>(i));
                cc->Parameter(static_cast<uint16_t>(2 * i + 1), g.InterestingDouble());
              }
              break;
            }
            default:
              cc->Type(ConversionType::NoConversion);
              break;
          }
          ++n;
        }
      }
    }
  }
  return n;
}

void WellFormed(vp::Gen& g) {
  NoLog();
  const bool converter = g.Chance(1, 3);
  const bool compress = g.Bool();
  const bool to_file = g.Chance(1, 4);
  const bool periodic = !g.Chance(1, 4);
  const bool flush = periodic && g.Chance(1, 3);
  const size_t rounds = g.Chance(1, 3) ? 2 + g.Draw(1) : 1;
  Io io(to_file, "wf.mf4");
  std::vector<Meas> all;
  size_t deco = 0;
  std::unique_ptr<MdfWriter> w;
  bool reopened = false;
  for (size_t r = 0; r < rounds; ++r) {
    const bool reopen = r == 0 || (to_file && g.Bool());
    if (reopen) {
      w = MdfFactory::CreateMdfWriter(converter ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic);
      vp::Check(io.Init(*w), "Init");
      reopened |= r > 0;
    }
    w->CompressData(compress);
    w->SavePeriodic(periodic);
    GenOpts o;
    o.max_rec = 30;
    Meas m = GenMeas(g, o);
    if (!all.empty()) {
      const uint64_t shift = all.back().stop > m.start ? all.back().stop - m.start : 0;
      m.start += shift;
      m.stop += shift;
      for (auto& x : m.rec) x.time += shift;
    }
    auto c = CreateConfig(*w, m.dg);
    deco += Decorate(g, *w, c, r == 0);
    if (flush) sched::Enable();
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& x : m.rec) {
      SaveRec(*w, c, m.dg, x, 0);
      if (flush && g.Chance(1, 8)) sched::Tick();
    }
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
    if (flush) sched::Disable();
    all.push_back(std::move(m));

    const auto bytes = io.Bytes();
    parse4::File f(bytes);
    // (A reopened file keeps the start time of its first measurement or takes
    // the new one, see C06.)
    size_t dg = 0;
    for (size_t i = 0; i < all.size(); ++i) {
      compare4::Records(f, all[i].dg, all[i].rec, all[i].start, dg, "measurement " + std::to_string(i));
      dg += all[i].dg.size();
    }
    vp::CheckEq(dg, f.dg.size(), "number of data groups");
    if (r == 0) vp::CheckEq(all[0].start, f.start_time, "start time in the HD block");
  }
  size_t recs = 0;
  for (auto& m : all) recs += m.rec.size();
  if (recs > 1) g.Nontrivial();
  g.Label(compress ? "compressed" : "uncompressed");
  if (rounds > 1) g.Label("several measurements");
  if (reopened) g.Label("reopened");
  if (deco > 0) g.Label("descriptive blocks");
  if (flush) g.Label("flushes");
  g.Note() << rounds << " measurements " << deco << " extra blocks; " << all[0].Describe();
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C15";
  p.assumptions = {"TZ=UTC", "the parser in common/parse4.cpp implements the block rules of ASAM MDF 4.1/4.2"};
  p.subs.push_back({"wellformed", 40000, 400000, WellFormed, "at least two records stored"});
  return vp::Main(argc, argv, p);
}
