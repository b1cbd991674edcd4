// C18: the sorting task keeps the content of a file.
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <map>
#include <sstream>

#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "mdf/atcomment.h"
#include "mdf/cccomment.h"
#include "mdf/cgcomment.h"
#include "mdf/cncomment.h"
#include "mdf/fhcomment.h"
#include "mdf/ifilehistory.h"
#include "mdf/sicomment.h"
#include "mdf/hdcomment.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ifilehistory.h"
#include "mdf/isourceinformation.h"
#include "sortingtask.h"
#include "validatingtask.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

// Runs the task inside the scratch directory.
struct Place {
  std::string dir = vp::ScratchDir(), tmp = dir + "/tmp", source = dir + "/source.mf4", out = dir + "/out", dest = out + "/dest.mf4";
  Place() {
    std::filesystem::remove_all(tmp);
    std::filesystem::remove_all(out);
    std::filesystem::remove(source);
    std::filesystem::create_directories(tmp);
    setenv("TMPDIR", tmp.c_str(), 1);
  }
};

std::string Messages(const MdfTask& task) {
  std::string s;
  for (const auto& m : task.MessageList()) s += m + "; ";
  return s;
}

void RunSort(vp::Gen& g, const Place& p, bool skip_empty) {
  const auto before = ReadFileBytes(p.source);
  const bool exists = g.Chance(1, 4);
  if (exists) {
    std::filesystem::create_directories(p.out);
    WriteFileBytes(p.dest, std::vector<uint8_t>(10, 'x'));
  }
  SortingTask task;
  task.SourceFile(p.source);
  task.DestinationFile(p.dest);
  task.CompressData(g.Bool());
  task.SkipIfNoSamples(skip_empty);
  task.OverwriteFile(exists);
  task.Run();
  vp::Check(before == ReadFileBytes(p.source), "the source file was changed");
  vp::Check(!task.Error() && task.Result(), "the task failed: " + Messages(task));
  vp::Check(std::filesystem::is_empty(p.tmp), "temporary file left");
}

using Dump = std::map<std::string, std::string>;
template <typename T>
std::string Str(const T& v) {
  std::ostringstream s;
  s.precision(17);
  s << v;
  return s.str();
}

// The text and the properties of a comment.
std::string ShowComment(const MdComment& c) {
  std::string s = vp::Quote(c.Comment().Text());
  for (const auto& [name, p] : c.Properties()) s += " " + name + "=" + vp::Quote(p.Value<std::string>());
  return s;
}

void DumpSource(Dump& d, const std::string& at, const ISourceInformation* si) {
  d[at] = si ? "yes" : "no";
  if (!si) return;
  d[at + ".name"] = si->Name();
  d[at + ".path"] = si->Path();
  d[at + ".desc"] = si->Description();
  d[at + ".type"] = Str(int(si->Type())) + " " + Str(int(si->Bus())) + " " + Str(int(si->Flags()));
  SiComment c;
  si->GetSiComment(c);
  d[at + ".comment"] = ShowComment(c);
}

void DumpConversion(Dump& d, const std::string& at, const IChannelConversion* cc) {
  d[at] = cc ? "yes" : "no";
  if (!cc) return;
  d[at + ".name"] = cc->Name();
  d[at + ".unit"] = cc->Unit();
  d[at + ".desc"] = cc->Description();
  d[at + ".type"] = Str(int(cc->Type())) + " flags " + Str(int(cc->Flags())) + " decimals " +
                    (cc->IsDecimalUsed() ? Str(int(cc->Decimals())) : "-");
  const auto r = cc->Range();
  d[at + ".range"] = r ? Str(r->first) + " " + Str(r->second) : "-";
  std::string par;
  for (uint16_t i = 0; i < cc->NofParameters(); ++i) par += Str(cc->Parameter(i)) + " ";
  d[at + ".par"] = par;
  std::string ref;
  for (uint16_t i = 0; i < cc->NofReferences(); ++i) ref += vp::Quote(cc->Reference(i)) + " ";
  d[at + ".ref"] = ref;
  CcComment c;
  cc->GetCcComment(c);
  d[at + ".comment"] = ShowComment(c);
  DumpConversion(d, at + ".inverse", cc->Inverse());
}

void DumpChannel(Dump& d, const std::string& at, const IChannel& cn) {
  d[at + ".name"] = cn.Name();
  d[at + ".display"] = cn.DisplayName();
  d[at + ".desc"] = cn.Description();
  d[at + ".unit"] = cn.Unit();
  d[at + ".type"] = Str(int(cn.Type())) + " " + Str(int(cn.Sync())) + " " + Str(int(cn.DataType())) + " " + Str(cn.DataBytes());
  d[at + ".flags"] = Str(cn.Flags());
  d[at + ".decimals"] = cn.IsDecimalUsed() ? Str(int(cn.Decimals())) : "-";
  const auto r = cn.Range(), l = cn.Limit(), e = cn.ExtLimit();
  d[at + ".range"] = r ? Str(r->first) + " " + Str(r->second) : "-";
  d[at + ".limit"] = l ? Str(l->first) + " " + Str(l->second) : "-";
  d[at + ".ext"] = e ? Str(e->first) + " " + Str(e->second) : "-";
  CnComment c;
  cn.GetCnComment(c);
  d[at + ".comment"] = ShowComment(c);
  size_t n = 0;
  for (const auto* ca : cn.ChannelArrays()) {
    const std::string key = at + ".ca" + Str(n++);
    d[key] = Str(int(ca->Type())) + " " + Str(int(ca->Storage())) + " " + Str(ca->Flags()) + " " + ca->DimensionAsString();
    for (double x : ca->AxisValues()) d[key + ".axis"] += Str(x) + " ";
  }
  d[at + ".arrays"] = Str(n);
  DumpSource(d, at + ".si", cn.SourceInformation());
  DumpConversion(d, at + ".cc", cn.ChannelConversion());
}

// The groups are named by their position in the sorted file.
Dump DumpFile(MdfReader& r, bool skip_empty) {
  Dump d;
  const auto* hd = r.GetHeader();
  d["hd.author"] = hd->Author();
  d["hd.department"] = hd->Department();
  d["hd.project"] = hd->Project();
  d["hd.subject"] = hd->Subject();
  d["hd.desc"] = hd->Description();
  d["hd.start"] = Str(hd->StartTime());
  d["hd.angle"] = hd->StartAngle() ? Str(*hd->StartAngle()) : "-";
  d["hd.distance"] = hd->StartDistance() ? Str(*hd->StartDistance()) : "-";
  HdComment c_hd;
  hd->GetHdComment(c_hd);
  d["hd.comment"] = ShowComment(c_hd);
  size_t n = 0;
  for (const auto* at : hd->Attachments()) {
    const std::string key = "at" + Str(n++);
    d[key + ".name"] = at->FileName();
    d[key + ".type"] = at->FileType();
    d[key + ".flags"] = Str(at->IsEmbedded()) + Str(at->IsCompressed());
    d[key + ".creator"] = Str(at->CreatorIndex());
    AtComment c;
    at->GetAtComment(c);
    d[key + ".comment"] = ShowComment(c);
    d[key + ".md5"] = at->Md5() ? *at->Md5() : "-";
    if (at->IsEmbedded()) {
      const std::string file = vp::ScratchDir() + "/exported";
      std::filesystem::remove(file);
      const bool ok = r.ExportAttachmentData(*at, file);
      d[key + ".export"] = Str(ok);
      if (ok) {
        const auto b = ReadFileBytes(file);
        d[key + ".bytes"] = std::string(b.begin(), b.end());
      }
    }
  }
  d["attachments"] = Str(n);
  size_t k = 0;
  for (const auto* dg : hd->DataGroups())
    for (const auto* cg : dg->ChannelGroups()) {
      if ((cg->Flags() & CgFlag::VlsdChannel) != 0 || (skip_empty && cg->NofSamples() == 0)) continue;
      const std::string at = "cg" + Str(k++);
      d[at + ".name"] = cg->Name();
      d[at + ".desc"] = cg->Description();
      d[at + ".flags"] = Str(cg->Flags());
      d[at + ".separator"] = Str(static_cast<int>(cg->PathSeparator()));
      CgComment c_cg;
      cg->GetCgComment(c_cg);
      d[at + ".comment"] = ShowComment(c_cg);
      d[at + ".samples"] = Str(cg->NofSamples());
      DumpSource(d, at + ".si", cg->SourceInformation());
      size_t c = 0;
      for (const auto* cn : cg->Channels()) DumpChannel(d, at + ".cn" + Str(c++), *cn);
      d[at + ".channels"] = Str(c);
    }
  d["groups"] = Str(k);
  return d;
}

void CompareDump(const Dump& a, const Dump& b) {
  for (const auto& [key, value] : a) {
    const auto it = b.find(key);
    vp::Check(it != b.end(), key + " " + vp::Quote(value) + " is missing in the sorted file");
    vp::CheckEq(value, it->second, key);
  }
  for (const auto& [key, value] : b) vp::Check(a.count(key) > 0, key + " " + vp::Quote(value) + " is new in the sorted file");
}

// The history of the source is part of the history of the sorted file.
void CompareHistory(const IHeader& a, const IHeader& b) {
  auto list = [](const IHeader& hd) {
    std::vector<std::string> out;
    for (const auto* fh : hd.FileHistories()) {
      FhComment c;
      fh->GetFhComment(c);
      out.push_back(Str(fh->Time()) + " " + vp::Quote(fh->Description()) + " " + vp::Quote(fh->ToolName()) + " " +
                    vp::Quote(fh->ToolVersion()) + " " + vp::Quote(fh->ToolVendor()) + " " + vp::Quote(fh->UserName()) + " " +
                    ShowComment(c));
    }
    return out;
  };
  const auto want = list(a), got = list(b);
  size_t at = 0;
  for (const auto& w : want) {
    while (at < got.size() && got[at] != w) ++at;
    if (at == got.size()) {
      std::string s;
      for (const auto& x : got) s += "\n  " + x;
      vp::Fail("file history " + w + " is not in the sorted file:" + s);
    }
    ++at;
  }
}

std::string Word(vp::Gen& g) { return g.Ident(12); }

template <typename C>
std::unique_ptr<C> MakeComment(vp::Gen& g) {
  auto c = std::make_unique<C>();
  c->Comment(Word(g));
  const size_t n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) c->AddProperty("p" + Str(i), Word(g));
  return c;
}

void Conversion(vp::Gen& g, IChannelConversion& cc, int depth) {
  const int kind = static_cast<int>(g.Draw(4));
  if (g.Bool()) cc.Name(Word(g));
  if (g.Bool()) cc.Unit(Word(g));
  if (g.Chance(1, 3)) cc.Range(-1.5, 100);
  if (g.Chance(1, 3)) cc.Decimals(static_cast<uint8_t>(g.Draw(9)));
  if (kind == 0) {
    cc.Type(ConversionType::Linear);
    cc.Parameter(0, g.Int(-100, 100) / 4.0);
    cc.Parameter(1, g.Int(1, 100) / 8.0);
  } else if (kind == 1) {
    cc.Type(ConversionType::Rational);
    for (uint16_t i = 0; i < 6; ++i) cc.Parameter(i, static_cast<double>(g.Int(-5, 5)));
  } else if (kind == 2) {
    cc.Type(g.Bool() ? ConversionType::ValueToValueInterpolation : ConversionType::ValueToValue);
    const auto n = static_cast<uint16_t>(1 + g.Draw(4));
    for (uint16_t i = 0; i < n; ++i) {
      cc.Parameter(2 * i, i * 10.0);
      cc.Parameter(2 * i + 1, g.Int(-50, 50) / 2.0);
    }
  } else if (kind == 3) {
    cc.Type(ConversionType::ValueToText);
    const auto n = static_cast<uint16_t>(1 + g.Draw(4));
    for (uint16_t i = 0; i < n; ++i) {
      cc.Parameter(i, i);
      cc.Reference(i, Word(g));
    }
    cc.Reference(n, Word(g));
  } else {
    cc.Type(ConversionType::ValueRangeToText);
    const auto n = static_cast<uint16_t>(1 + g.Draw(4));
    for (uint16_t i = 0; i < n; ++i) {
      cc.Parameter(2 * i, i * 10.0);
      cc.Parameter(2 * i + 1, i * 10.0 + 9);
      cc.Reference(i, Word(g));
    }
    cc.Reference(n, Word(g));
  }
  if (g.Chance(1, 4)) cc.SetCcComment(*MakeComment<CcComment>(g));
  if (depth == 0 && g.Chance(1, 4)) {
    auto* inv = cc.CreateInverse();
    vp::Check(inv != nullptr, "CreateInverse");
    Conversion(g, *inv, 1);
  }
}

void Source(vp::Gen& g, ISourceInformation* si) {
  vp::Check(si != nullptr, "CreateSourceInformation");
  si->Name(Word(g));
  si->Path(Word(g));
  if (g.Bool()) si->Description(Word(g));
  if (g.Chance(1, 4)) si->SetSiComment(*MakeComment<SiComment>(g));
  si->Type(static_cast<SourceType>(g.Draw(5)));
  si->Bus(static_cast<BusType>(g.Draw(8)));
}

void Sort(vp::Gen& g) {
  NoLog();
  GenOpts o;
  o.max_rec = 40;
  o.many = false;
  o.big = false;
  o.vlsd = false;
  Meas m = GenMeas(g, o);
  const Place p;
  const bool compress = g.Bool(), skip_empty = g.Chance(1, 4);
  size_t conversions = 0;
  {
    auto w = MdfFactory::CreateMdfWriter(g.Bool() ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic);
    vp::Check(w->Init(p.source), "Init");
    w->CompressData(compress);
    auto* hd = w->Header();
    if (g.Bool()) hd->Author(Word(g));
    if (g.Bool()) hd->Department(Word(g));
    if (g.Bool()) hd->Project(Word(g));
    if (g.Bool()) hd->Subject(Word(g));
    if (g.Bool()) hd->Description(Word(g));
    if (g.Chance(1, 4)) {
      auto c = MakeComment<HdComment>(g);
      c->Author(Word(g));
      c->Project(Word(g));
      hd->SetHdComment(*c);
    }
    const size_t histories = g.Draw(2);
    for (size_t i = 0; i < histories; ++i) {
      auto* fh = hd->CreateFileHistory();
      vp::Check(fh != nullptr, "CreateFileHistory");
      fh->Time(g.Draw(2'000'000'000) * uint64_t{1'000'000'000} + g.Draw(999'999'999));
      fh->Description(Word(g));
      fh->ToolName(Word(g));
      fh->ToolVendor(Word(g));
      fh->ToolVersion(Word(g));
      if (g.Bool()) fh->UserName(Word(g));
    }
    if (g.Chance(1, 4)) hd->StartAngle(1.25);
    if (g.Chance(1, 4)) hd->StartDistance(-7.5);
    const size_t attachments = g.Chance(1, 4) ? 1 + g.Draw(2) : 0;
    for (size_t i = 0; i < attachments; ++i) {
      const std::string file = p.dir + "/attached" + Str(i);
      WriteFileBytes(file, g.Bytes(1 + g.Draw(5000)));
      auto* at = hd->CreateAttachment();
      vp::Check(at != nullptr, "CreateAttachment");
      at->FileName(file);
      at->FileType("application/x-" + Word(g));
      at->IsEmbedded(g.Chance(3, 4));
      at->IsCompressed(at->IsEmbedded() && g.Bool());
      at->CreatorIndex(static_cast<uint16_t>(g.Draw(3)));
      if (g.Bool()) at->SetAtComment(*MakeComment<AtComment>(g));
    }
    auto c = CreateConfig(*w, m.dg);
    for (size_t d = 0; d < m.dg.size(); ++d)
      for (size_t k = 0; k < m.dg[d].cg.size(); ++k) {
        if (g.Chance(1, 3)) c.cg[d][k]->Description(Word(g));
        if (g.Chance(1, 4)) c.cg[d][k]->SetCgComment(*MakeComment<CgComment>(g));
        if (g.Chance(1, 4)) c.cg[d][k]->PathSeparator(g.Pick({u'.', u'\\', u':', u'\u00e4'}));
        if (g.Chance(1, 3)) Source(g, c.cg[d][k]->CreateSourceInformation());
        for (size_t n = 0; n < c.ch[d][k].size(); ++n) {
          auto& cn = *c.ch[d][k][n];
          if (g.Chance(1, 3)) cn.Description(Word(g));
          if (g.Chance(1, 5)) cn.DisplayName(Word(g));
          if (g.Chance(1, 5)) {
            auto comment = MakeComment<CnComment>(g);
            if (g.Bool()) comment->Names().AddDisplayName(MdString(Word(g)));
            cn.SetCnComment(*comment);
          }
          if (g.Chance(1, 5)) cn.Decimals(static_cast<uint8_t>(g.Draw(9)));
          if (g.Chance(1, 5)) cn.Range(-1, 1.5);
          if (g.Chance(1, 5)) cn.Limit(-2, 2.5);
          if (g.Chance(1, 5)) cn.ExtLimit(-3, 3.5);
          if (g.Chance(1, 5)) Source(g, cn.CreateSourceInformation());
          const auto& s = m.dg[d].cg[k].ch[n];
          if (s.type != ChannelType::Master && (IsUnsigned(s) || IsSigned(s) || IsFloat(s)) && g.Chance(1, 3)) {
            auto* cc = cn.CreateChannelConversion();
            vp::Check(cc != nullptr, "CreateChannelConversion");
            Conversion(g, *cc, 0);
            ++conversions;
          }
        }
      }
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& r : m.rec) SaveRec(*w, c, m.dg, r, 0);
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  g.Note() << m.Describe();
  RunSort(g, p, skip_empty);
  // Each group has its own data group
  std::vector<std::vector<size_t>> count(m.dg.size());
  for (size_t d = 0; d < m.dg.size(); ++d) count[d].resize(m.dg[d].cg.size());
  for (const auto& r : m.rec) ++count[r.dg][r.cg];
  std::vector<DgSpec> layout;
  std::vector<Rec> rec;
  std::vector<std::vector<size_t>> pos(m.dg.size());
  for (size_t d = 0; d < m.dg.size(); ++d)
    for (size_t k = 0; k < m.dg[d].cg.size(); ++k) {
      pos[d].push_back(layout.size());
      if (!skip_empty || count[d][k]) layout.push_back(DgSpec{{m.dg[d].cg[k]}});
    }
  for (auto r : m.rec) {
    r.dg = pos[r.dg][r.cg];
    r.cg = 0;
    rec.push_back(r);
  }
  MdfReader s(p.source), r(p.dest);
  vp::Check(s.ReadEverythingButData() && r.ReadEverythingButData(), "ReadEverythingButData");
  vp::CheckEq(true, r.IsFinalized(), "IsFinalized");
  vp::CheckEq(layout.size(), r.GetHeader()->DataGroups().size(), "number of data groups");
  CompareDump(DumpFile(s, skip_empty), DumpFile(r, false));
  CompareHistory(*s.GetHeader(), *r.GetHeader());
  Compare(layout, rec, m.start, ReadAll(r, layout), "sorted");
  if (m.rec.size() > 1) g.Nontrivial();
  if (conversions) g.Label("conversions");
  if (layout.size() > m.dg.size()) g.Label("unsorted source");
  if (skip_empty) g.Label("skip empty");
  g.Label(compress ? "compressed source" : "plain source");
}

// Sources of any layout
void Foreign(vp::Gen& g) {
  NoLog();
  enc::Opts o;
  o.vlsd = false;
  enc::File f = enc::Generate(g, o);
  for (auto& d : f.dg)
    for (auto& c : d.cg)
      for (auto& n : c.cn)
      {
        if (n.type == 5) n.type = 0, n.len_cn = -1;  // known finding: the length link is not kept
      }
  const Place p;
  WriteFileBytes(p.source, enc::Encode(g, f).Bytes(&g));
  g.Note() << f.Describe();
  RunSort(g, p, false);
  MdfReader r(p.dest);
  vp::Check(r.ReadEverythingButData(), "ReadEverythingButData");
  std::vector<const enc::Cg*> groups;
  for (const auto& d : f.dg)
    for (const auto& c : d.cg) groups.push_back(&c);
  const auto dg_list = r.GetHeader()->DataGroups();
  vp::CheckEq(groups.size(), dg_list.size(), "number of data groups");
  size_t samples = 0;
  for (size_t i = 0; i < groups.size(); ++i) {
    const auto& cg = *groups[i];
    const auto cg_list = dg_list[i]->ChannelGroups();
    vp::CheckEq(size_t(1), cg_list.size(), "number of groups");
    vp::CheckEq(cg.name, cg_list[0]->Name(), "group name");
    vp::CheckEq(cg.rec.size(), cg_list[0]->NofSamples(), "samples of " + cg.name);
    samples += cg.rec.size();
    const auto flat = enc::Flat(cg);
    vp::CheckEq(flat.size(), cg_list[0]->Channels().size(), "number of channels");
    std::vector<ChannelObserverPtr> obs;
    for (const auto* n : flat) {
      const IChannel* cn = cg_list[0]->GetChannel(n->name);
      vp::Check(cn != nullptr, "no channel " + n->name);
      obs.push_back(CreateChannelObserver(*dg_list[i], *cg_list[0], *cn));
    }
    vp::Check(r.ReadData(*dg_list[i]), "ReadData");
    for (size_t k = 0; k < flat.size(); ++k)
      for (uint64_t s = 0; s < cg.rec.size(); ++s) {
        const auto want = enc::Decode(cg, *flat[k], s);
        const auto got = enc::Read(*obs[k], *flat[k], s);
        if (!enc::Same(want, got))
          vp::Fail(cg.name + " " + enc::Show(*flat[k]) + " sample " + std::to_string(s) + ": expected " + enc::Show(want) +
                   " got " + enc::Show(got));
      }
  }
  if (samples > 1) g.Nontrivial();
}

// The validating task finds the invalid values and keeps the content
void Validate(vp::Gen& g) {
  NoLog();
  const bool mdf3 = g.Chance(1, 5);
  GenOpts o;
  o.mdf3 = mdf3;
  o.max_rec = 20;
  o.many = false;
  o.big = false;
  Meas m = GenMeas(g, o);
  if (g.Bool()) {
    // Mostly valid
    const size_t keep = m.rec.empty() || g.Bool() ? m.rec.size() : g.Draw(m.rec.size() - 1);
    for (size_t i = 0; i < m.rec.size(); ++i)
      if (i != keep)
        for (auto& v : m.rec[i].v) v.valid = true;
    for (auto& r : m.rec) r.set.assign(r.set.size(), true);
  }
  bool all_valid = true;
  for (const auto& r : m.rec)
    for (size_t k = 0; k < r.v.size(); ++k) {
      const auto& c = m.dg[r.dg].cg[r.cg].ch[k];
      if (c.inv && !r.v[k].valid && !IsVirtual(c) && !c.auto_time) all_valid = false;
    }
  const Place p;
  const bool in_place = g.Chance(1, 4), exists = !in_place && g.Chance(1, 4);
  {
    auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
    vp::Check(w->Init(p.source), "Init");
    w->CompressData(!mdf3 && g.Bool());
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& r : m.rec) SaveRec(*w, c, m.dg, r, 0);
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  g.Note() << (mdf3 ? "MDF3 " : "MDF4 ") << (all_valid ? "valid " : "invalid ") << m.Describe();
  const auto before = ReadFileBytes(p.source);
  std::filesystem::create_directories(p.out);
  const std::vector<uint8_t> old(10, 'x');
  if (exists) WriteFileBytes(p.dest, old);
  ValidatingTask task;
  task.SourceFile(p.source);
  if (!in_place) task.DestinationFile(p.dest);
  task.OverwriteFile(in_place);
  task.Run();
  vp::Check(!task.Error(), "the task failed: " + Messages(task));
  vp::CheckEq(all_valid, task.Result(), "result of the validation");
  vp::CheckEq(all_valid, task.MessageList().empty(), "no messages");
  vp::Check(std::filesystem::is_empty(p.tmp), "temporary file left");
  const bool copied = all_valid && !mdf3;
  if (!in_place || !copied) vp::Check(before == ReadFileBytes(p.source), "the source file was changed");
  if (exists) vp::Check(old == ReadFileBytes(p.dest), "an existing file was overwritten");
  if (!in_place && !copied && !exists) vp::Check(!std::filesystem::exists(p.dest), "a file that is not valid was copied");
  if (copied && !exists) {
    MdfReader r(in_place ? p.source : p.dest);
    vp::Check(r.ReadEverythingButData(), "ReadEverythingButData");
    vp::CheckEq(true, r.IsFinalized(), "IsFinalized");
    vp::CheckEq(m.dg.size(), r.GetHeader()->DataGroups().size(), "number of data groups");
    Compare(m.dg, m.rec, m.start, ReadAll(r, m.dg), "validated");
  }
  if (m.rec.size() > 1) g.Nontrivial();
  g.Label(all_valid ? "valid" : "invalid values");
  if (mdf3) g.Label("MDF3");
}

// Master channels of any kind and resolution, and arrays.
void Masters(vp::Gen& g) {
  NoLog();
  const Place p;
  const bool skip_empty = g.Chance(1, 4);
  struct Chan {
    int kind;  // 0 unsigned, 1 signed, 2 float
    uint64_t bytes;
    std::vector<uint64_t> shape;
    uint64_t count = 1;
    IChannel* cn = nullptr;
  };
  struct Group {
    IChannelGroup* cg = nullptr;
    std::vector<Chan> ch;
    size_t samples = 0;
  };
  std::vector<Group> groups;
  size_t arrays = 0, masters = 0, samples = 0;
  {
    auto w = MdfFactory::CreateMdfWriter(g.Bool() ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic);
    vp::Check(w->Init(p.source), "Init");
    w->CompressData(g.Bool());
    const size_t nof_dg = 1 + g.Draw(1);
    for (size_t d = 0; d < nof_dg; ++d) {
      auto* dg = w->CreateDataGroup();
      const size_t nof_cg = 1 + g.Draw(2);
      for (size_t k = 0; k < nof_cg; ++k) {
        Group gr;
        gr.cg = MdfWriter::CreateChannelGroup(dg);
        gr.cg->Name("G" + Str(groups.size()));
        const bool master = g.Chance(3, 4);
        const size_t nof = 1 + g.Draw(3);
        for (size_t n = 0; n < nof; ++n) {
          Chan c;
          c.kind = static_cast<int>(g.Draw(2));
          const bool be = g.Bool();
          c.bytes = c.kind == 2 ? 4 + 4 * g.Draw(1) : g.Pick({1ull, 2ull, 4ull, 8ull});
          c.cn = MdfWriter::CreateChannel(gr.cg);
          c.cn->Name("C" + Str(n));
          c.cn->DataType(c.kind == 0   ? be ? ChannelDataType::UnsignedIntegerBe : ChannelDataType::UnsignedIntegerLe
                         : c.kind == 1 ? be ? ChannelDataType::SignedIntegerBe : ChannelDataType::SignedIntegerLe
                         : be          ? ChannelDataType::FloatBe
                                       : ChannelDataType::FloatLe);
          if (master && n == 0) {
            c.cn->Type(ChannelType::Master);
            c.cn->Sync(g.Chance(3, 4) ? ChannelSyncType::Time : g.Bool() ? ChannelSyncType::Angle : ChannelSyncType::Index);
            c.cn->CalculateMasterTime(false);
            ++masters;
          }
          c.cn->DataBytes(c.bytes);
          if (g.Chance(1, 3) && !(master && n == 0)) c.cn->Flags(CnFlag::InvalidValid);
          if (g.Bool()) {
            auto* cc = c.cn->CreateChannelConversion();
            cc->Type(ConversionType::Linear);
            cc->Parameter(0, g.Pick({0.0, 0.0, -3.25}));
            cc->Parameter(1, g.Pick({1.0, 0.1, 0.001, 1e-6, 1e-9, 3.0}));
            if (g.Chance(1, 3)) {
              auto* inv = cc->CreateInverse();
              inv->Type(ConversionType::Linear);
              inv->Parameter(0, 1);
              inv->Parameter(1, 0.25);
            }
          }
          if (!(master && n == 0) && g.Bool()) {
            auto* ca = c.cn->CreateChannelArray();
            vp::Check(ca != nullptr, "CreateChannelArray");
            ca->Type(g.Pick({ArrayType::Array, ArrayType::LookUp, ArrayType::ScalingAxis}));
            const size_t dims = 1 + g.Draw(2);
            for (size_t i = 0; i < dims; ++i) c.shape.push_back(1 + g.Draw(3));
            const uint32_t flags = g.Chance(1, 3) ? CaFlag::FixedAxis : 0;
            ca->Flags(flags | (g.Chance(1, 4) ? CaFlag::LeftOpenInterval : 0) | (g.Chance(1, 4) ? CaFlag::InverseLayout : 0));
            ca->Shape(c.shape);
            for (auto x : c.shape) c.count *= x;
            if (flags != 0) {
              size_t sum = 0;
              for (auto x : c.shape) sum += x;
              std::vector<double> axis;
              for (size_t i = 0; i < sum; ++i) axis.push_back(g.Int(-50, 50) / 8.0);
              ca->AxisValues() = axis;
            }
            ++arrays;
          }
          gr.ch.push_back(c);
        }
        groups.push_back(gr);
      }
    }
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    uint64_t now = 1600000000000000000ull;
    w->StartMeasurement(now);
    const size_t nof = g.Size(20);
    double tick = 0;
    for (size_t i = 0; i < nof; ++i) {
      auto& gr = groups[g.Draw(groups.size() - 1)];
      tick += static_cast<double>(g.Draw(1000)) / 7e9;  // less than a nanosecond counts
      for (auto& c : gr.ch)
        for (uint64_t e = 0; e < c.count; ++e) {
          const bool valid = !g.Chance(1, 4);
          if (c.kind == 0) c.cn->SetChannelValue(g.Chance(1, 3) ? uint64_t(g.Draw(UINT64_MAX)) : uint64_t(i), valid, e);
          else if (c.kind == 1) c.cn->SetChannelValue(g.Chance(1, 3) ? static_cast<int64_t>(g.Draw(UINT64_MAX)) : int64_t(i), valid, e);
          else c.cn->SetChannelValue(tick, valid, e);
        }
      w->SaveSample(*gr.cg, now += 1 + g.Draw(1000000));
      ++gr.samples;
      ++samples;
    }
    w->StopMeasurement(now + 1);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  g.Note() << groups.size() << " groups, " << masters << " masters, " << arrays << " arrays, " << samples << " samples";
  RunSort(g, p, skip_empty);
  MdfReader s(p.source), r(p.dest);
  vp::Check(s.ReadEverythingButData() && r.ReadEverythingButData(), "ReadEverythingButData");
  CompareDump(DumpFile(s, skip_empty), DumpFile(r, false));
  std::map<std::string, std::pair<IDataGroup*, IChannelGroup*>> sorted;
  for (auto* dg : r.GetHeader()->DataGroups())
    for (auto* cg : dg->ChannelGroups()) sorted[cg->Name()] = {dg, cg};
  size_t at = 0;
  for (auto* dg : s.GetHeader()->DataGroups())
    for (auto* cg : dg->ChannelGroups()) {
      const auto& gr = groups[at++];
      if (skip_empty && gr.samples == 0) continue;
      const auto it = sorted.find(cg->Name());
      vp::Check(it != sorted.end(), "no group " + cg->Name());
      std::vector<ChannelObserverPtr> a, b;
      for (auto* cn : cg->Channels()) {
        auto* other = it->second.second->GetChannel(cn->Name());
        vp::Check(other != nullptr, "no channel " + cn->Name());
        a.push_back(CreateChannelObserver(*dg, *cg, *cn));
        b.push_back(CreateChannelObserver(*it->second.first, *it->second.second, *other));
      }
      vp::Check(s.ReadData(*dg) && r.ReadData(*it->second.first), "ReadData");
      for (size_t k = 0; k < a.size(); ++k) {
        vp::CheckEq(a[k]->NofSamples(), b[k]->NofSamples(), "number of samples");
        for (size_t i = 0; i < gr.samples; ++i)
          for (uint64_t e = 0; e < gr.ch[k].count; ++e) {
            const std::string ctx = cg->Name() + " " + a[k]->Name() + " sample " + Str(i) + " element " + Str(e);
            auto show = [&](const IChannelObserver& o) {
              bool ok = false;
              std::string v;
              if (gr.ch[k].kind == 0) {
                uint64_t x = 0;
                ok = o.GetChannelValue(i, x, e);
                v = Str(x);
              } else if (gr.ch[k].kind == 1) {
                int64_t x = 0;
                ok = o.GetChannelValue(i, x, e);
                v = Str(x);
              } else {
                double x = 0;
                ok = o.GetChannelValue(i, x, e);
                v = Str(x);
              }
              double eng = 0;
              const bool ok_eng = o.GetEngValue(i, eng, e);
              return v + (ok ? " valid " : " invalid ") + (ok_eng ? Str(eng) : "-");
            };
            vp::CheckEq(show(*a[k]), show(*b[k]), ctx);
          }
      }
      for (auto& o : a) o->DetachObserver();
      for (auto& o : b) o->DetachObserver();
      dg->ClearData();
      it->second.first->ClearData();
    }
  if (samples > 1 && (arrays > 0 || masters > 0)) g.Nontrivial();
  if (arrays) g.Label("arrays");
  if (masters) g.Label("masters");
}

// A source the task cannot sort is reported
void Refused(vp::Gen& g) {
  NoLog();
  const Place p;
  const int kind = static_cast<int>(g.Draw(3));
  const bool exists = g.Chance(1, 3);
  std::filesystem::create_directories(p.out);
  const std::vector<uint8_t> old(10, 'x');
  if (exists) WriteFileBytes(p.dest, old);
  GenOpts o;
  o.mdf3 = kind == 0;
  o.max_rec = 20;
  o.many = false;
  o.big = false;
  o.vlsd = false;
  Meas m = GenMeas(g, o);
  if (kind == 0 || kind == 3) {
    auto w = MdfFactory::CreateMdfWriter(o.mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
    vp::Check(w->Init(p.source), "Init");
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& r : m.rec) SaveRec(*w, c, m.dg, r, 0);
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  } else if (kind == 1) {
    WriteFileBytes(p.source, g.Bytes(g.Draw(3000)));
  }  // else: there is no source file
  SortingTask task;
  task.SourceFile(p.source);
  task.DestinationFile(kind == 3 ? p.source : p.dest);
  task.OverwriteFile(kind == 3 || g.Bool());
  const bool has_source = std::filesystem::exists(p.source);
  const auto before = has_source ? ReadFileBytes(p.source) : std::vector<uint8_t>();
  task.Run();
  static const char* const kName[] = {"MDF3 source", "no MDF file", "no source", "source and destination are the same"};
  g.Note() << kName[kind];
  g.Label(kName[kind]);
  vp::Check(task.Error() && !task.Result() && !task.MessageList().empty(), "no failure is reported");
  if (has_source) vp::Check(before == ReadFileBytes(p.source), "the source file was changed");
  if (exists) vp::Check(old == ReadFileBytes(p.dest), "the existing destination was changed");
  else vp::Check(!std::filesystem::exists(p.dest), "a destination was created");
  g.Nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C18";
  p.assumptions = {"TZ=UTC", "sources are MDF4 files without variable length channels"};
  p.subs.push_back({"sort", 3000, 60000, Sort, "two or more records", 3, 60});
  p.subs.push_back({"foreign", 3000, 60000, Foreign, "two or more records", 3, 60});
  p.subs.push_back({"masters", 3000, 60000, Masters, "two or more records, with a master channel or an array", 3, 60});
  p.subs.push_back({"validate", 3000, 60000, Validate, "two or more records", 3, 60});
  p.subs.push_back({"refused", 1500, 30000, Refused, "every case", 3, 60});
  return vp::Main(argc, argv, p);
}
