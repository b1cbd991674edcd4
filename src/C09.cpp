// C09: channel values of any well-formed MDF4 file are decoded as the standard defines them.
#include <map>

#include "common/enc3.h"
#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "vp.h"

using namespace mdf;

namespace {

void ReadAndCompare(MdfReader& r, const enc::File& f) {
  const auto dg_list = r.GetHeader()->DataGroups();
  vp::CheckEq(f.dg.size(), dg_list.size(), "number of data groups");
  for (size_t d = 0; d < f.dg.size(); ++d) {
    const auto& dg = f.dg[d];
    const auto cg_list = dg_list[d]->ChannelGroups();
    vp::CheckEq(dg.cg.size(), cg_list.size(), "number of channel groups");
    struct Item { const enc::Cg* cg; const enc::Cn* cn; ChannelObserverPtr obs; };
    std::vector<Item> items;
    for (size_t k = 0; k < dg.cg.size(); ++k) {
      const auto& cg = dg.cg[k];
      vp::CheckEq(cg.rec.size(), cg_list[k]->NofSamples(), "number of samples");
      if (cg.vlsd) continue;
      vp::CheckEq(cg.name, cg_list[k]->Name(), "group name");
      const auto cn_list = cg_list[k]->Channels();
      const auto flat = enc::Flat(cg);
      vp::CheckEq(flat.size(), cn_list.size(), "number of channels");
      for (size_t c = 0; c < flat.size(); ++c) {
        const IChannel* cn = cg_list[k]->GetChannel(flat[c]->name);
        vp::Check(cn != nullptr, "no channel " + flat[c]->name);
        auto obs = CreateChannelObserver(*dg_list[d], *cg_list[k], *cn);
        vp::Check(static_cast<bool>(obs), "no observer for " + enc::Show(*flat[c]));
        items.push_back({&cg, flat[c], std::move(obs)});
      }
    }
    vp::Check(r.ReadData(*dg_list[d]), "ReadData() returned false");
    for (const auto& it : items) {
      for (uint64_t s = 0; s < it.cg->rec.size(); ++s) {
        const auto want = enc::Decode(*it.cg, *it.cn, s);
        const auto got = enc::Read(*it.obs, *it.cn, s);
        if (!enc::Same(want, got))
          vp::Fail(it.cg->name + " " + enc::Show(*it.cn) + " sample " + std::to_string(s) + ": expected " +
                   enc::Show(want) + " got " + enc::Show(got));
      }
    }
  }
}

void Decode(vp::Gen& g) {
  model::NoLog();
  enc::Opts o;
  const enc::File f = enc::Generate(g, o);
  const auto bytes = enc::Encode(g, f).Bytes(&g);
  Io io(g.Chance(1, 8), "c09.mf4");
  io.Bytes(bytes);
  g.Note() << f.Describe();
  auto r = io.Reader();
  vp::Check(r->IsOk(), "the reader does not accept the file");
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  ReadAndCompare(*r, f);
  size_t samples = 0;
  for (const auto& d : f.dg)
    for (const auto& c : d.cg) {
      samples += c.rec.size();
      for (const auto& n : c.cn) {
        if (n.bit_off) g.Label("bit offset");
        if (n.vlsd == enc::kCg) g.Label("VLSD group");
        if (n.vlsd == enc::kSd) g.Label("signal data");
        if (n.type == 5) g.Label("MLSD");
        if (n.flags & 2) g.Label("invalidation bit");
        if (!n.comp.empty()) g.Label("structure");
      }
    }
  if (samples >= 2) g.Nontrivial();
}

void Decode3(vp::Gen& g) {
  model::NoLog();
  enc::Opts o;
  o.vlsd = false;
  enc::File f = enc::Generate(g, o);
  enc::ToMdf3(g, f);
  std::map<std::string, enc::Text3> text;
  std::string version;
  const auto bytes = enc::Encode3(g, f, text, version, false);
  Io io(g.Chance(1, 8), "c09.dat");
  io.Bytes(bytes);
  g.Note() << version << " " << f.Describe();
  auto r = io.Reader();
  vp::Check(r->IsOk(), "the reader does not accept the file");
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  enc::CheckRead3(*r, f, text, version, "");
  vp::CheckEq(f.dg.size(), r->GetHeader()->DataGroups().size(), "number of data groups");
  size_t samples = 0;
  for (const auto& d : f.dg)
    for (const auto& c : d.cg) {
      samples += c.rec.size();
      for (const auto& n : c.cn)
        if (n.bit_off) g.Label("bit offset");
    }
  if (samples >= 2) g.Nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C09";
  p.assumptions = {"TZ=UTC", "the files are encoded by the harness from the MDF 4.1 standard"};
  p.subs.push_back({"decode", 60000, 1000000, Decode, "at least two records in the file"});
  p.subs.push_back({"decode3", 40000, 700000, Decode3, "at least two records in the file"});
  return vp::Main(argc, argv, p);
}
