// C11: descriptive data of a measurement is stored and read back unchanged.
//
// Every object of the file has a list of fields (setter with a generated value,
// getter). Setters are called in any order and any number of times; the model is
// the map "object + field -> value of the last call"; fields never set keep the
// value that the new object had. The file is written and read and each getter of
// each object that is read is compared with the map.
#include <cmath>
#include <map>
#include <set>

#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/iheader.h"
#include "mdf/imetadata.h"
#include "mdf/isourceinformation.h"
#include "mdf/mdfhelper.h"
#include "vp.h"

using namespace mdf;

namespace {

std::string Trim(std::string s) {
  while (!s.empty() && strchr(" \t\r\n\v\f", s.front()) != nullptr) s.erase(s.begin());
  while (!s.empty() && strchr(" \t\r\n\v\f", s.back()) != nullptr) s.pop_back();
  return s;
}

// Any text. Leading and trailing white space is not kept by the format, and a
// text that is a XML document is taken as such by some of the setters.
std::string Txt(vp::Gen& g, size_t most = 40) {
  std::string s;
  const uint64_t kind = g.Draw(9);
  if (kind < 6) s = g.Text(most);
  else if (kind < 9) {
    static const char* kBits[] = {"a", "B", " ", "<", ">", "&", "'", "\"", "\n", "\t", "\r", "\r\n", "]]>", "<!--", "-->",
                                  "&amp;", "&#10;", "<?", "\xC3\xA5", "\xF0\x9F\x98\x80", "\xE2\x82\xAC", "%s", "\\", "/",
                                  ";", "=", "  ", "\xC2\xA0", "\xEF\xBF\xBD", "{}", "<TX>", "</TX>"};
    const size_t n = g.Draw(12);
    for (size_t i = 0; i < n; ++i) s += kBits[g.Draw(std::size(kBits) - 1)];
  } else {
    s = g.Text(20);
    const size_t n = g.Draw(g.Thorough() ? 20000 : 3000);
    const std::string unit = s.empty() ? "x" : s;
    while (s.size() < n) s += unit;
  }
  s = Trim(s);
  if (!s.empty() && s[0] == '<' && (s.find("/>") != s.npos || s.find("</") != s.npos)) s = "x" + s;
  return s;
}
std::string Num(double d) {
  if (d == 0) d = 0;  // no sign
  std::ostringstream s;
  s.precision(17);
  s << d;
  return s.str();
}
double Value(vp::Gen& g) {
  switch (g.Draw(3)) {
    case 0: return static_cast<double>(g.Int(-1000, 1000)) / 8;
    case 1: return static_cast<double>(g.Int(-1000000, 1000000)) / 1000;
    case 2: return static_cast<double>(g.Int(-1000000000000000, 1000000000000000)) * 1E-6;
    default: return g.InterestingDouble();
  }
}

template <class T>
struct Field {
  std::string name;
  std::function<std::string(vp::Gen&, T&)> set;
  std::function<std::string(const T&)> get;
};
using Model = std::map<std::string, std::string>;

template <class T>
void Apply(vp::Gen& g, T& object, const std::vector<Field<T>>& fields, const std::string& path, Model& m) {
  for (const auto& f : fields) m[path + "." + f.name] = f.get(object);
  if (fields.empty()) return;
  const size_t n = g.Draw(fields.size() + 2);
  for (size_t i = 0; i < n; ++i) {
    const auto& f = fields[g.Draw(fields.size() - 1)];
    const std::string v = f.set(g, object);
    m[path + "." + f.name] = v;
    g.Note() << path << "." << f.name << "=" << vp::Quote(v, 20) << " ";
    g.Nontrivial();
    // The object itself shows the value.
    vp::CheckEq(vp::Quote(v, 4000), vp::Quote(f.get(object), 4000), "value of " + path + "." + f.name + " right after it was set");
  }
}
template <class T>
void Compare(const T& object, const std::vector<Field<T>>& fields, const std::string& path, const Model& m) {
  for (const auto& f : fields) {
    const auto itr = m.find(path + "." + f.name);
    if (itr == m.end()) continue;
    vp::CheckEq(vp::Quote(itr->second, 4000), vp::Quote(f.get(object), 4000), path + "." + f.name + " in the file");
  }
}

// Text property.
#define TEXT(T, F)                                                                     \
  Field<T> {                                                                           \
    #F, [](vp::Gen& g, T& o) { const auto t = Txt(g); o.F(t); return t; },             \
        [](const T& o) { return std::string(o.F()); }                                  \
  }
#define ENUM(T, F, E, FIRST, LAST)                                                             \
  Field<T> {                                                                                   \
    #F, [](vp::Gen& g, T& o) { const auto v = g.Int(FIRST, LAST); o.F(static_cast<E>(v)); return std::to_string(v); }, \
        [](const T& o) { return std::to_string(static_cast<int64_t>(o.F())); }                 \
  }
#define PAIR(T, F)                                                                             \
  Field<T> {                                                                                   \
    #F, [](vp::Gen& g, T& o) { double a = Value(g), b = Value(g); if (b < a) std::swap(a, b); if (a == b) { a = 0; b = 1; } o.F(a, b); return Num(a) + ".." + Num(b); }, \
        [](const T& o) { const auto v = o.F(); return v ? Num(v->first) + ".." + Num(v->second) : std::string("none"); } \
  }
#define DECIMALS(T)                                                                            \
  Field<T> {                                                                                   \
    "Decimals", [](vp::Gen& g, T& o) { const auto v = static_cast<uint8_t>(g.Draw(254)); o.Decimals(v); return std::to_string(v); }, \
        [](const T& o) { return o.IsDecimalUsed() ? std::to_string(o.Decimals()) : std::string("none"); } \
  }

const std::vector<Field<IHeader>> kHeader = {
    TEXT(IHeader, Author), TEXT(IHeader, Department), TEXT(IHeader, Project), TEXT(IHeader, Subject),
    TEXT(IHeader, Description), TEXT(IHeader, MeasurementId), TEXT(IHeader, RecorderId),
    {"RecorderIndex",
     [](vp::Gen& g, IHeader& h) { const auto v = g.InterestingSigned(64); h.RecorderIndex(v); return std::to_string(v); },
     [](const IHeader& h) { return std::to_string(h.RecorderIndex()); }},
    {"StartAngle", [](vp::Gen& g, IHeader& h) { const double v = Value(g); h.StartAngle(v); return Num(v); },
     [](const IHeader& h) { const auto v = h.StartAngle(); return v ? Num(*v) : std::string("none"); }},
    {"StartDistance", [](vp::Gen& g, IHeader& h) { const double v = Value(g); h.StartDistance(v); return Num(v); },
     [](const IHeader& h) { const auto v = h.StartDistance(); return v ? Num(*v) : std::string("none"); }},
};
const std::vector<Field<IFileHistory>> kHistory = {
    TEXT(IFileHistory, Description), TEXT(IFileHistory, ToolName), TEXT(IFileHistory, ToolVendor),
    TEXT(IFileHistory, ToolVersion), TEXT(IFileHistory, UserName),
    {"Time",
     [](vp::Gen& g, IFileHistory& f) {
       const uint64_t t = g.Draw(4000000000ull) * 1000000000ull + g.Draw(999999999);
       f.Time(t);
       return std::to_string(t);
     },
     [](const IFileHistory& f) { return std::to_string(f.Time()); }},
};
const std::vector<Field<IEvent>> kEvent = {
    TEXT(IEvent, Name), TEXT(IEvent, GroupName), TEXT(IEvent, Description), ENUM(IEvent, Type, EventType, 0, 6),
    ENUM(IEvent, Sync, SyncType, 1, 4), ENUM(IEvent, Range, RangeType, 0, 2), ENUM(IEvent, Cause, EventCause, 0, 4),
    ENUM(IEvent, CreatorIndex, size_t, 0, 65535), ENUM(IEvent, SyncValue, int64_t, INT64_MIN / 2, INT64_MAX / 2),
    {"SyncFactor", [](vp::Gen& g, IEvent& e) { const double v = Value(g); e.SyncFactor(v); return Num(v); },
     [](const IEvent& e) { return Num(e.SyncFactor()); }},
    {"PreTrig", [](vp::Gen& g, IEvent& e) { const double v = Value(g); e.PreTrig(v); return Num(v); },
     [](const IEvent& e) { return Num(e.PreTrig()); }},
    {"PostTrig", [](vp::Gen& g, IEvent& e) { const double v = Value(g); e.PostTrig(v); return Num(v); },
     [](const IEvent& e) { return Num(e.PostTrig()); }},
};
const std::vector<Field<IChannelHierarchy>> kHierarchy = {
    TEXT(IChannelHierarchy, Name), TEXT(IChannelHierarchy, Description), ENUM(IChannelHierarchy, Type, ChType, 0, 8)};
const std::vector<Field<ISourceInformation>> kSource = {
    TEXT(ISourceInformation, Name), TEXT(ISourceInformation, Path), TEXT(ISourceInformation, Description),
    ENUM(ISourceInformation, Type, SourceType, 0, 5), ENUM(ISourceInformation, Bus, BusType, 0, 8),
    ENUM(ISourceInformation, Flags, uint8_t, 0, 255)};
const std::vector<Field<IDataGroup>> kDataGroup = {TEXT(IDataGroup, Description)};
const std::vector<Field<IChannelGroup>> kGroup = {
    TEXT(IChannelGroup, Name), TEXT(IChannelGroup, Description),
    {"Flags",
     [](vp::Gen& g, IChannelGroup& o) {
       // VLSD groups and remote masters have a layout of their own
       const auto v = static_cast<uint16_t>(g.Draw(31) & ~(CgFlag::VlsdChannel | CgFlag::RemoteMaster));
       o.Flags(v);
       return std::to_string(v);
     },
     [](const IChannelGroup& o) { return std::to_string(o.Flags()); }},
    ENUM(IChannelGroup, PathSeparator, char16_t, 0, 0xffff)};
const std::vector<Field<IChannel>> kChannel = {
    TEXT(IChannel, Name), TEXT(IChannel, Description), TEXT(IChannel, Unit), PAIR(IChannel, Range), PAIR(IChannel, Limit),
    PAIR(IChannel, ExtLimit), DECIMALS(IChannel),
    {"Flags",
     [](vp::Gen& g, IChannel& c) {
       // Flags that describe the channel; those that go with another property are set with it
       constexpr uint32_t kMask = CnFlag::AllValuesInvalid | CnFlag::Discrete | CnFlag::Calibration | CnFlag::Calculated |
                                  CnFlag::Virtual | CnFlag::StrictlyMonotonous;
       const uint32_t v = g.Draw(0x7fff) & kMask;
       c.Flags((c.Flags() & ~kMask) | v);
       return std::to_string(v);
     },
     [](const IChannel& c) {
       constexpr uint32_t kMask = CnFlag::AllValuesInvalid | CnFlag::Discrete | CnFlag::Calibration | CnFlag::Calculated |
                                  CnFlag::Virtual | CnFlag::StrictlyMonotonous;
       return std::to_string(c.Flags() & kMask);
     }},
};
const std::vector<Field<IChannelConversion>> kConversion = {
    TEXT(IChannelConversion, Name), TEXT(IChannelConversion, Description), TEXT(IChannelConversion, Unit),
    PAIR(IChannelConversion, Range), DECIMALS(IChannelConversion),
    {"StatusString",
     [](vp::Gen& g, IChannelConversion& c) {
       const auto v = static_cast<uint16_t>(g.Bool() ? CcFlag::StatusString : 0);
       c.Flags(static_cast<uint16_t>((c.Flags() & ~CcFlag::StatusString) | v));
       return std::to_string(v);
     },
     [](const IChannelConversion& c) { return std::to_string(c.Flags() & CcFlag::StatusString); }},
};
const std::vector<Field<IAttachment>> kAttachment = {ENUM(IAttachment, CreatorIndex, uint16_t, 0, 65535),
                                                     TEXT(IAttachment, FileType)};

// --- metadata ---------------------------------------------------------------------
struct Tag {
  std::string name, desc, unit, unit_ref, type, lang, value;
  uint64_t kind = 0;  // text, number, integer, boolean
  double number = 0;
  int64_t integer = 0;
  bool ro = false;
  int ci = -1;
  std::vector<Tag> sub;
};
Tag GenTag(vp::Gen& g, const std::string& name, unsigned level) {
  Tag t;
  t.name = name;
  if (g.Chance(1, 3)) t.desc = Txt(g, 12);
  if (g.Chance(1, 4)) t.ci = static_cast<int>(g.Draw(70000));
  if (level < 3 && g.Chance(1, 3)) {
    const size_t n = 1 + g.Draw(2);
    for (size_t i = 0; i < n; ++i) t.sub.push_back(GenTag(g, "t" + std::to_string(i) + Txt(g, 4), level + 1));
    return t;
  }
  if (g.Chance(1, 3)) t.unit = Txt(g, 8);
  if (g.Chance(1, 4)) t.unit_ref = Txt(g, 8);
  if (g.Chance(1, 2)) t.type = g.Pick({std::string("string"), std::string("decimal"), std::string("integer"), std::string("float"),
                                       std::string("boolean"), std::string("date"), std::string("time"), std::string("dateTime")});
  if (g.Chance(1, 4)) t.lang = g.Pick({std::string("en"), std::string("sv"), std::string("de-AT")});
  t.ro = g.Chance(1, 4);
  t.kind = g.Chance(1, 2) ? 1 + g.Draw(2) : 0;
  if (t.kind == 0) t.value = Txt(g, 30);
  else if (t.kind == 1) t.number = Value(g);
  else t.integer = g.InterestingSigned(64);
  return t;
}
ETag MakeTag(const Tag& t) {
  ETag e;
  e.Name(t.name);
  e.Description(t.desc);
  e.CreatorIndex(t.ci);
  if (t.sub.empty()) {
    e.Unit(t.unit);
    e.UnitRef(t.unit_ref);
    e.Type(t.type);
    e.Language(t.lang);
    e.ReadOnly(t.ro);
    switch (t.kind) {
      case 0: e.Value(t.value); break;
      case 1:
        e.Value(t.number);
        if (Num(e.Value<double>()) != Num(t.number)) vp::Fail("tag value given " + Num(t.number) + ", the tag has " + Num(e.Value<double>()));
        break;
      case 2:
        e.Value(t.integer);
        if (e.Value<int64_t>() != t.integer) vp::Fail("integer tag value is not kept");
        break;
      default:
        e.Value((t.integer & 1) != 0);
        if (e.Value<bool>() != ((t.integer & 1) != 0)) vp::Fail("boolean tag value is not kept");
        break;
    }
  }
  for (const auto& s : t.sub) e.AddTag(MakeTag(s));
  return e;
}
std::string ShowTag(const ETag& e) {
  std::ostringstream s;
  s << "{" << vp::Quote(e.Name(), 500) << " d=" << vp::Quote(e.Description(), 500) << " ci=" << e.CreatorIndex();
  if (e.TreeList().empty()) {
    s << " u=" << vp::Quote(e.Unit(), 500) << " r=" << vp::Quote(e.UnitRef(), 500) << " t=" << e.Type() << " l=" << e.Language()
      << " ro=" << e.ReadOnly() << " v=" << vp::Quote(e.Value<std::string>(), 5000);
  }
  for (const auto& t : e.TreeList()) s << ShowTag(t);
  s << "}";
  return s.str();
}

struct Meta {
  std::map<std::string, std::string> text;
  std::map<std::string, double> number;
  std::vector<std::pair<std::string, std::string>> common;  // name, shown
};
// The root "TX" is the description, which the object's own fields cover.
void ApplyMeta(vp::Gen& g, IMetaData& md, Meta& m) {
  const size_t n = g.Draw(5);
  for (size_t i = 0; i < n; ++i) {
    const std::string name = "p" + std::to_string(g.Draw(3));
    switch (g.Draw(2)) {
      case 0: {
        const auto t = Txt(g, 20);
        md.StringProperty("s" + name, t);
        m.text["s" + name] = t;
        break;
      }
      case 1: {
        const double d = Value(g);
        md.FloatProperty("f" + name, d);
        m.number["f" + name] = d;
        break;
      }
      default: {
        // Properties that are set again have the same kind (tree or value).
        const size_t count = 1 + g.Draw(2);
        std::vector<ETag> list;
        for (size_t k = 0; k < count; ++k) {
          const std::string tag_name = "n" + std::to_string(m.common.size()) + Txt(g, 6);
          const ETag e = MakeTag(GenTag(g, tag_name, 0));
          m.common.emplace_back(tag_name, ShowTag(e));
          list.push_back(e);
        }
        if (list.size() == 1) md.CommonProperty(list[0]);
        else md.CommonProperties(list);
        g.Label("common properties");
        break;
      }
    }
    g.Nontrivial();
  }
}
void CompareMeta(const IMetaData* md, const Meta& m, const std::string& path) {
  if (m.text.empty() && m.number.empty() && m.common.empty()) return;
  vp::Check(md != nullptr, path + ": metadata is missing");
  for (const auto& [k, v] : m.text)
    vp::CheckEq(vp::Quote(v, 4000), vp::Quote(md->StringProperty(k), 4000), path + " text property " + k);
  for (const auto& [k, v] : m.number) vp::CheckEq(Num(v), Num(md->FloatProperty(k)), path + " number property " + k);
  const auto list = md->CommonProperties();
  std::map<std::string, std::string> got;
  for (const auto& e : list) got[e.Name()] = ShowTag(e);
  for (const auto& [name, shown] : m.common) {
    vp::CheckEq(shown, got[name], path + " common property in the list");
    vp::CheckEq(shown, ShowTag(md->CommonProperty(name)), path + " common property by name");
  }
}

// --- MDF4 -------------------------------------------------------------------------
struct LinkRef { int dg = -1, cg = -1, cn = -1; };

struct Setup4 {
  Model m;
  std::map<std::string, Meta> meta;
  std::vector<std::string> cn_path;
};

void Mdf4(vp::Gen& g) {
  model::NoLog();
  const MdfWriterType type = g.Chance(1, 5) ? MdfWriterType::MdfBusLogger : MdfWriterType::Mdf4Basic;
  Io io(g.Chance(1, 6), "c11.mf4");
  Setup4 s;
  struct Ids { IDataGroup* dg; IChannelGroup* cg; IChannel* cn; };
  std::vector<IDataGroup*> dgs;
  std::vector<std::pair<IDataGroup*, IChannelGroup*>> cgs;
  std::vector<Ids> cns;
  std::vector<std::string> cn_path, cg_path;
  std::vector<IEvent*> evs;
  std::vector<IAttachment*> ats;
  std::map<size_t, std::string> x_of_group;  // the first master channel of each group
  std::vector<IChannelHierarchy*> chs;
  std::vector<std::string> ch_path;
  std::map<std::string, size_t> count;  // path of a list -> number of objects
  struct EvLink { int parent = -1, range = -1; std::vector<int> scope, at; };
  std::vector<EvLink> ev_link;
  std::map<std::string, std::vector<LinkRef>> ch_link;
  std::map<std::string, LinkRef> default_x;
  std::map<std::string, std::vector<int>> cn_at;
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(io.Init(*w), "Init failed");
    auto* hd = w->Header();
    vp::Check(hd != nullptr, "no header");
    Apply(g, *hd, kHeader, "hd", s.m);
    auto meta = [&](auto& object, const std::string& path, const auto& fields) {
      if (!g.Chance(1, 3)) return;
      auto* md = object.CreateMetaData();
      vp::Check(md != nullptr, "no metadata for " + path);
      Compare(object, fields, path, s.m);  // nothing else changes
      ApplyMeta(g, *md, s.meta[path]);
      Compare(object, fields, path, s.m);
      if (g.Chance(1, 3)) Apply(g, object, fields, path, s.m);
    };
    meta(*hd, "hd", kHeader);
    size_t fh_count = 0, at_count = 0;
    auto history = [&] {
      auto* fh = hd->CreateFileHistory();
      const size_t i = fh_count++;
      const auto path = "fh" + std::to_string(i);
      Apply(g, *fh, kHistory, path, s.m);
      meta(*fh, path, kHistory);
    };
    for (uint64_t n = 1 + g.Draw(2); n > 0; --n) history();
    auto attachment = [&] {
      auto* at = hd->CreateAttachment();
      const size_t i = at_count++;
      const std::string name = vp::ScratchDir() + "/att" + std::to_string(i) + ".bin";
      WriteFileBytes(name, {1, 2, 3});
      at->IsEmbedded(true);
      at->FileName(name);
      const auto path = "at" + std::to_string(i);
      Apply(g, *at, kAttachment, path, s.m);
      meta(*at, path, kAttachment);
      ats.push_back(at);
    };
    for (uint64_t n = g.Draw(g.Chance(1, 4) ? 6 : 2); n > 0; --n) attachment();
    auto source = [&](auto& object, const std::string& path) {
      if (!g.Chance(1, 3)) return;
      auto* si = object.CreateSourceInformation();
      vp::Check(si != nullptr, "no source information for " + path);
      Apply(g, *si, kSource, path + ".si", s.m);
      meta(*si, path + ".si", kSource);
      count[path + ".si"] = 1;
    };
    std::function<void(IChannel&, const std::string&, IDataGroup*, IChannelGroup*, unsigned)> channel =
        [&](IChannel& cn, const std::string& path, IDataGroup* dg, IChannelGroup* cg, unsigned level) {
          cn.Type(ChannelType::FixedLength);
          cn.DataType(ChannelDataType::FloatLe);
          cn.DataBytes(8);
          Apply(g, cn, kChannel, path, s.m);
          meta(cn, path, kChannel);
          source(cn, path);
          if (g.Chance(1, 3)) {
            auto* cc = cn.CreateChannelConversion();
            cc->Type(ConversionType::Linear);
            cc->Parameter(0, 1);
            cc->Parameter(1, 2);
            Apply(g, *cc, kConversion, path + ".cc", s.m);
            if (g.Chance(1, 3)) {
              auto* md = cc->CreateMetaData();
              vp::Check(md != nullptr, "no metadata of the conversion");
              ApplyMeta(g, *md, s.meta[path + ".cc"]);
            }
            count[path + ".cc"] = 1;
            if (g.Chance(1, 4)) {
              auto* inv = cc->CreateInverse();
              vp::Check(inv != nullptr, "no inverse conversion");
              inv->Type(ConversionType::Linear);
              Apply(g, *inv, kConversion, path + ".cc.inv", s.m);
              count[path + ".cc.inv"] = 1;
            }
          }
          if (!ats.empty() && g.Chance(1, 4)) {
            const size_t n = 1 + g.Draw(ats.size() > 2 ? 9 : 2);
            for (size_t k = 0; k < n; ++k) {
              const int a = static_cast<int>(g.Draw(ats.size() - 1));
              // the same attachment only once
              auto& list = cn_at[path];
              if (std::find(list.begin(), list.end(), a) != list.end()) continue;
              cn.AddAttachmentReference(ats[static_cast<size_t>(a)]);
              list.push_back(a);
            }
            g.Label(cn_at[path].size() > 2 ? "channel with three or more attachments" : "channel with attachment");
          }
          if (level < 2 && g.Chance(1, 8)) {
            const size_t n = 1 + g.Draw(2);
            for (size_t k = 0; k < n; ++k) {
              auto* sub = cn.CreateChannelComposition();
              vp::Check(sub != nullptr, "no composed channel");
              channel(*sub, path + ".cx" + std::to_string(k), dg, cg, level + 1);
            }
            count[path + ".cx"] = n;
            g.Label("composition");
          }
          cns.push_back({dg, cg, &cn});
          cn_path.push_back(path);
        };
    const size_t dg_count = 1 + g.Draw(2);
    for (size_t d = 0; d < dg_count; ++d) {
      auto* dg = g.Bool() ? hd->CreateDataGroup() : w->CreateDataGroup();
      const auto dg_path = "dg" + std::to_string(d);
      Apply(g, *dg, kDataGroup, dg_path, s.m);
      meta(*dg, dg_path, kDataGroup);
      dgs.push_back(dg);
      const size_t cg_count = 1 + g.Draw(1);
      for (size_t c = 0; c < cg_count; ++c) {
        auto* cg = dg->CreateChannelGroup();
        const auto path = dg_path + ".cg" + std::to_string(c);
        Apply(g, *cg, kGroup, path, s.m);
        meta(*cg, path, kGroup);
        source(*cg, path);
        cgs.emplace_back(dg, cg);
        cg_path.push_back(path);
        const size_t cn_count = 1 + g.Draw(2);
        for (size_t n = 0; n < cn_count; ++n) {
          auto* cn = cg->CreateChannel();
          const auto p = path + ".cn" + std::to_string(n);
          channel(*cn, p, dg, cg, 0);
          if (g.Chance(1, 4)) {
            cn->Type(g.Bool() ? ChannelType::Master : ChannelType::VirtualMaster);
            if (x_of_group.find(cg_path.size() - 1) == x_of_group.end()) x_of_group[cg_path.size() - 1] = p;
            g.Label("master");
          }
        }
        count[path] = cn_count;
      }
      count[dg_path] = cg_count;
    }
    auto events = [&] {
    const size_t old_count = evs.size(), ev_count = old_count + g.Draw(3);
    for (size_t i = old_count; i < ev_count; ++i) evs.push_back(hd->CreateEvent());
    for (size_t i = old_count; i < ev_count; ++i) {
      const auto path = "ev" + std::to_string(i);
      Apply(g, *evs[i], kEvent, path, s.m);
      meta(*evs[i], path, kEvent);
      EvLink l;
      if (g.Chance(1, 3)) { l.parent = static_cast<int>(g.Draw(ev_count - 1)); evs[i]->ParentEvent(evs[static_cast<size_t>(l.parent)]); }
      if (g.Chance(1, 3)) { l.range = static_cast<int>(g.Draw(ev_count - 1)); evs[i]->RangeEvent(evs[static_cast<size_t>(l.range)]); }
      const size_t scopes = g.Draw(2);
      for (size_t k = 0; k < scopes; ++k) {
        if (g.Bool()) {
          const int c = static_cast<int>(g.Draw(cgs.size() - 1));
          evs[i]->AddScope(cgs[static_cast<size_t>(c)].second);
          l.scope.push_back(-1 - c);
        } else {
          const int c = static_cast<int>(g.Draw(cns.size() - 1));
          evs[i]->AddScope(cns[static_cast<size_t>(c)].cn);
          l.scope.push_back(c);
        }
      }
      const size_t n_at = ats.empty() ? 0 : g.Draw(2);
      for (size_t k = 0; k < n_at; ++k) {
        l.at.push_back(static_cast<int>(g.Draw(ats.size() - 1)));
        evs[i]->AddAttachment(ats[static_cast<size_t>(l.at.back())]);
      }
      ev_link.push_back(l);
      if (!l.scope.empty()) g.Label("event scope");
    }
    };
    if (g.Chance(2, 3)) events();
    auto link = [&](ElementLink& e) {
      LinkRef r;
      const auto c = static_cast<int>(g.Draw(cns.size() - 1));
      const auto& id = cns[static_cast<size_t>(c)];
      // a channel, or only its group, or only the data group
      const uint64_t depth = g.Draw(2);
      e.data_group = id.dg;
      for (size_t k = 0; k < dgs.size(); ++k) if (dgs[k] == id.dg) r.dg = static_cast<int>(k);
      if (depth < 2) {
        e.channel_group = id.cg;
        for (size_t k = 0; k < cgs.size(); ++k) if (cgs[k].second == id.cg) r.cg = static_cast<int>(k);
      }
      if (depth < 1) { e.channel = id.cn; r.cn = c; }
      return r;
    };
    std::function<void(IChannelHierarchy&, const std::string&, unsigned)> hierarchy =
        [&](IChannelHierarchy& ch, const std::string& path, unsigned level) {
          Apply(g, ch, kHierarchy, path, s.m);
          meta(ch, path, kHierarchy);
          const size_t n = g.Draw(3);
          for (size_t k = 0; k < n; ++k) {
            ElementLink e;
            ch_link[path].push_back(link(e));
            ch.AddElementLink(e);
            g.Label("hierarchy element");
          }
          const size_t subs = level < 3 ? g.Draw(2) : 0;
          for (size_t k = 0; k < subs; ++k) hierarchy(*ch.CreateChannelHierarchy(), path + "." + std::to_string(k), level + 1);
          count[path] = subs;
        };
    size_t ch_count = 0;
    auto hierarchies = [&] {
      for (uint64_t n = g.Draw(2); n > 0; --n) {
        auto* ch = hd->CreateChannelHierarchy();
        hierarchy(*ch, "ch" + std::to_string(ch_count++), 0);
      }
    };
    if (g.Chance(2, 3)) hierarchies();
    // These objects may also be added during the measurement.
    auto late = [&] {
      if (!g.Chance(1, 5)) return;
      g.Label("objects added during the measurement");
      if (g.Chance(1, 3)) history();
      if (g.Chance(1, 3)) attachment();
      if (g.Chance(1, 2)) events();
      if (g.Chance(1, 3)) hierarchies();
    };
    for (size_t i = 0; i < cns.size(); ++i) {
      if (!g.Chance(1, 5)) continue;
      ElementLink e;
      LinkRef r = link(e);
      if (r.cn < 0) continue;
      cns[i].cn->DefaultX(e);
      default_x[cn_path[i]] = r;
      g.Label(cns[static_cast<size_t>(r.cn)].dg == cns[i].dg ? "default x" : "default x of another data group");
    }
    count["dg"] = dg_count;
    vp::Check(w->InitMeasurement(), "InitMeasurement failed");
    late();
    w->StartMeasurement(1700000000000000000ull);
    const size_t samples = g.Draw(3);
    for (size_t i = 0; i < samples; ++i) {
      const auto& c = cgs[g.Draw(cgs.size() - 1)];
      w->SaveSample(*c.first, *c.second, 1700000000000000000ull + i);
    }
    late();
    w->StopMeasurement(1700000000000001000ull);
    late();
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement failed");
    count["fh"] = fh_count;
    count["at"] = at_count;
    count["ev"] = evs.size();
    count["ch"] = ch_count;
  }
  auto r = io.Reader();
  vp::Check(r->IsOk(), "the file cannot be opened");
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData failed");
  const auto* hd = r->GetHeader();
  vp::Check(hd != nullptr, "no header in the file");
  Compare(*hd, kHeader, "hd", s.m);
  CompareMeta(hd->MetaData(), s.meta["hd"], "hd");
  const auto fh = hd->FileHistories();
  vp::CheckEq(count["fh"], fh.size(), "number of file histories");
  for (size_t i = 0; i < fh.size(); ++i) {
    Compare(*fh[i], kHistory, "fh" + std::to_string(i), s.m);
    CompareMeta(fh[i]->MetaData(), s.meta["fh" + std::to_string(i)], "fh" + std::to_string(i));
  }
  const auto at = hd->Attachments();
  vp::CheckEq(count["at"], at.size(), "number of attachments");
  for (size_t i = 0; i < at.size(); ++i) {
    Compare(*at[i], kAttachment, "at" + std::to_string(i), s.m);
    CompareMeta(at[i]->MetaData(), s.meta["at" + std::to_string(i)], "at" + std::to_string(i));
  }
  std::vector<const IDataGroup*> dgs2;
  std::vector<const IChannelGroup*> cgs2;
  std::map<std::string, const IChannel*> by_path;
  auto source = [&](const auto& object, const std::string& path) {
    const auto* si = object.SourceInformation();
    vp::CheckEq(count[path + ".si"] == 1, si != nullptr, path + " has source information");
    if (si == nullptr) return;
    Compare(*si, kSource, path + ".si", s.m);
    CompareMeta(si->MetaData(), s.meta[path + ".si"], path + ".si");
  };
  std::function<void(const IChannel&, const std::string&)> channel = [&](const IChannel& cn, const std::string& path) {
    if (s.m[path + ".Unit"].empty() && count[path + ".cc"] == 1) {
      // A channel without unit shows the unit of its conversion.
      s.m[path + ".Unit"] = s.m[path + ".cc.Unit"];
    }
    Compare(cn, kChannel, path, s.m);
    CompareMeta(cn.MetaData(), s.meta[path], path);
    source(cn, path);
    const auto* cc = cn.ChannelConversion();
    vp::CheckEq(count[path + ".cc"] == 1, cc != nullptr, path + " has a conversion");
    if (cc != nullptr) {
      Compare(*cc, kConversion, path + ".cc", s.m);
      CompareMeta(cc->MetaData(), s.meta[path + ".cc"], path + ".cc");
      const auto* inv = cc->Inverse();
      vp::CheckEq(count[path + ".cc.inv"] == 1, inv != nullptr, path + " has an inverse conversion");
      if (inv != nullptr) Compare(*inv, kConversion, path + ".cc.inv", s.m);
    }
    const auto a = cn.AttachmentList();
    vp::CheckEq(cn_at[path].size(), a.size(), path + " attachments");
    for (size_t k = 0; k < a.size(); ++k)
      vp::Check(a[k] == at[static_cast<size_t>(cn_at[path][k])], path + " refers to another attachment");
    const auto cx = cn.ChannelCompositions();
    vp::CheckEq(count[path + ".cx"], cx.size(), path + " composed channels");
    by_path[path] = &cn;
    for (size_t k = 0; k < cx.size(); ++k) channel(*cx[k], path + ".cx" + std::to_string(k));
  };
  const auto dg = hd->DataGroups();
  vp::CheckEq(count["dg"], dg.size(), "number of data groups");
  for (size_t d = 0; d < dg.size(); ++d) {
    const auto dg_path = "dg" + std::to_string(d);
    dgs2.push_back(dg[d]);
    Compare(*dg[d], kDataGroup, dg_path, s.m);
    CompareMeta(dg[d]->MetaData(), s.meta[dg_path], dg_path);
    const auto cg = dg[d]->ChannelGroups();
    vp::CheckEq(count[dg_path], cg.size(), "number of groups of " + dg_path);
    for (size_t c = 0; c < cg.size(); ++c) {
      const auto path = dg_path + ".cg" + std::to_string(c);
      cgs2.push_back(cg[c]);
      Compare(*cg[c], kGroup, path, s.m);
      CompareMeta(cg[c]->MetaData(), s.meta[path], path);
      source(*cg[c], path);
      const auto cn = cg[c]->TopLevelChannels();
      vp::CheckEq(count[path], cn.size(), "number of channels of " + path);
      for (size_t n = 0; n < cn.size(); ++n) channel(*cn[n], path + ".cn" + std::to_string(n));
      for (const auto* x : cg[c]->Channels())
        vp::Check(r->GetFile()->FindParentDataGroup(*x) == dg[d], "data group of channel " + x->Name() + " of " + path);
    }
  }
  vp::CheckEq(cn_path.size(), by_path.size(), "number of channels in all");
  auto same = [&](const ElementLink& e, const LinkRef& l, const std::string& what) {
    vp::Check(e.data_group == (l.dg < 0 ? nullptr : dgs2[static_cast<size_t>(l.dg)]), what + " refers to another data group");
    vp::Check(e.channel_group == (l.cg < 0 ? nullptr : cgs2[static_cast<size_t>(l.cg)]), what + " refers to another group");
    vp::Check(e.channel == (l.cn < 0 ? nullptr : by_path[cn_path[static_cast<size_t>(l.cn)]]), what + " refers to another channel");
  };
  for (size_t c = 0; c < cgs2.size(); ++c) {
    for (const auto* cn : cgs2[c]->Channels()) {
      // its own X channel if it has one, else the first master of the group
      const IChannel* want = x_of_group.find(c) == x_of_group.end() ? nullptr : by_path[x_of_group[c]];
      std::string path;
      for (const auto& [p, x] : by_path) if (x == cn) path = p;
      if (const auto itr = default_x.find(path); itr != default_x.end())
        want = by_path[cn_path[static_cast<size_t>(itr->second.cn)]];
      vp::Check(cgs2[c]->GetXChannel(*cn) == want, path + " X channel is another channel");
    }
  }
  for (const auto& p : cn_path) {
    const auto itr = default_x.find(p);
    const auto e = by_path[p]->DefaultX();
    if (itr == default_x.end()) vp::Check(e.IsEmpty(), p + " got a default x");
    else same(e, itr->second, p + " default x");
  }
  const auto ev = hd->Events();
  vp::CheckEq(count["ev"], ev.size(), "number of events");
  for (size_t i = 0; i < ev.size(); ++i) {
    const auto path = "ev" + std::to_string(i);
    Compare(*ev[i], kEvent, path, s.m);
    CompareMeta(ev[i]->MetaData(), s.meta[path], path);
    const auto& l = ev_link[i];
    vp::Check(ev[i]->ParentEvent() == (l.parent < 0 ? nullptr : ev[static_cast<size_t>(l.parent)]), path + " has another parent");
    vp::Check(ev[i]->RangeEvent() == (l.range < 0 ? nullptr : ev[static_cast<size_t>(l.range)]), path + " has another range event");
    const auto& sc = ev[i]->Scopes();
    vp::CheckEq(l.scope.size(), sc.size(), path + " scopes");
    for (size_t k = 0; k < sc.size(); ++k) {
      const void* want = l.scope[k] < 0 ? static_cast<const void*>(cgs2[static_cast<size_t>(-1 - l.scope[k])])
                                        : static_cast<const void*>(by_path[cn_path[static_cast<size_t>(l.scope[k])]]);
      vp::Check(sc[k] == want, path + " has another scope");
    }
    const auto& a = ev[i]->Attachments();
    vp::CheckEq(l.at.size(), a.size(), path + " attachments");
    for (size_t k = 0; k < a.size(); ++k) vp::Check(a[k] == at[static_cast<size_t>(l.at[k])], path + " refers to another attachment");
  }
  std::function<void(const IChannelHierarchy&, const std::string&)> hierarchy = [&](const IChannelHierarchy& ch, const std::string& path) {
    Compare(ch, kHierarchy, path, s.m);
    CompareMeta(ch.MetaData(), s.meta[path], path);
    const auto& e = ch.ElementLinks();
    vp::CheckEq(ch_link[path].size(), e.size(), path + " elements");
    for (size_t k = 0; k < e.size(); ++k) same(e[k], ch_link[path][k], path + " element");
    const auto sub = ch.ChannelHierarchies();
    vp::CheckEq(count[path], sub.size(), path + " children");
    for (size_t k = 0; k < sub.size(); ++k) hierarchy(*sub[k], path + "." + std::to_string(k));
  };
  const auto ch = hd->ChannelHierarchies();
  vp::CheckEq(count["ch"], ch.size(), "number of hierarchies");
  for (size_t i = 0; i < ch.size(); ++i) hierarchy(*ch[i], "ch" + std::to_string(i));
}

// --- MDF3 -------------------------------------------------------------------------
// Text of one byte per character, with the size limit of the field (0: none).
std::string Txt3(vp::Gen& g, size_t limit) {
  std::string s = g.Ascii(limit == 0 ? (g.Chance(1, 10) ? 2000 : 60) : limit);
  if (limit != 0 && g.Chance(1, 6)) { while (s.size() < limit) s += static_cast<char>('A' + g.Draw(25)); }
  return Trim(s);
}
#define TEXT3(T, F, LIMIT)                                                              \
  Field<T> {                                                                            \
    #F, [](vp::Gen& g, T& o) { const auto t = Txt3(g, LIMIT); o.F(t); return t; },      \
        [](const T& o) { return std::string(o.F()); }                                   \
  }
const std::vector<Field<IHeader>> kHeader3 = {TEXT3(IHeader, Author, 31), TEXT3(IHeader, Department, 31),
                                              TEXT3(IHeader, Project, 31), TEXT3(IHeader, Subject, 31),
                                              TEXT3(IHeader, Description, 0)};
const std::vector<Field<IChannelGroup>> kGroup3 = {TEXT3(IChannelGroup, Description, 0)};
const std::vector<Field<IChannel>> kChannel3 = {
    TEXT3(IChannel, Name, 0), TEXT3(IChannel, DisplayName, 0), TEXT3(IChannel, Description, 127),
    {"SamplingRate", [](vp::Gen& g, IChannel& c) { const double v = Value(g); c.SamplingRate(v); return Num(v); },
     [](const IChannel& c) { return Num(c.SamplingRate()); }}};
const std::vector<Field<IChannelConversion>> kConversion3 = {TEXT3(IChannelConversion, Unit, 19)};

void Mdf3(vp::Gen& g) {
  model::NoLog();
  Io io(g.Chance(1, 6), "c11.dat");
  Model m;
  std::map<std::string, size_t> count;
  std::string program, file_id;
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf3Basic);
    vp::Check(io.Init(*w), "Init failed");
    auto* hd = w->Header();
    Apply(g, *hd, kHeader3, "hd", m);
    const size_t dg_count = 1 + g.Draw(2);
    std::vector<IChannelGroup*> cgs;
    for (size_t d = 0; d < dg_count; ++d) {
      auto* dg = w->CreateDataGroup();
      const size_t cg_count = 1 + g.Draw(1);
      count["dg" + std::to_string(d)] = cg_count;
      for (size_t c = 0; c < cg_count; ++c) {
        auto* cg = w->CreateChannelGroup(dg);
        const auto path = "dg" + std::to_string(d) + ".cg" + std::to_string(c);
        Apply(g, *cg, kGroup3, path, m);
        cgs.push_back(cg);
        const size_t cn_count = 1 + g.Draw(3);
        count[path] = cn_count;
        for (size_t n = 0; n < cn_count; ++n) {
          auto* cn = w->CreateChannel(cg);
          const auto cn_path = path + ".cn" + std::to_string(n);
          cn->Type(n == 0 ? ChannelType::Master : ChannelType::FixedLength);
          cn->DataType(ChannelDataType::FloatLe);
          cn->DataBytes(8);
          Apply(g, *cn, kChannel3, cn_path, m);
          if (g.Bool()) {
            auto* cc = cn->CreateChannelConversion();
            cc->Type(ConversionType::Linear);
            cc->Parameter(0, 1);
            cc->Parameter(1, 2);
            Apply(g, *cc, kConversion3, cn_path + ".cc", m);
            count[cn_path + ".cc"] = 1;
          }
        }
      }
    }
    count["dg"] = dg_count;
    vp::Check(w->InitMeasurement(), "InitMeasurement failed");
    w->StartMeasurement(1700000000000000000ull);
    const size_t samples = g.Draw(2);
    for (size_t i = 0; i < samples; ++i) w->SaveSample(*cgs[g.Draw(cgs.size() - 1)], 1700000000000000000ull + i);
    w->StopMeasurement(1700000000000001000ull);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement failed");
  }
  auto r = io.Reader();
  vp::Check(r->IsOk(), "the file cannot be opened");
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData failed");
  const auto* hd = r->GetHeader();
  Compare(*hd, kHeader3, "hd", m);
  const auto dg = hd->DataGroups();
  vp::CheckEq(count["dg"], dg.size(), "number of data groups");
  for (size_t d = 0; d < dg.size(); ++d) {
    const auto cg = dg[d]->ChannelGroups();
    vp::CheckEq(count["dg" + std::to_string(d)], cg.size(), "number of groups");
    for (size_t c = 0; c < cg.size(); ++c) {
      const auto path = "dg" + std::to_string(d) + ".cg" + std::to_string(c);
      Compare(*cg[c], kGroup3, path, m);
      const auto cn = cg[c]->Channels();
      vp::CheckEq(count[path], cn.size(), "number of channels of " + path);
      for (size_t n = 0; n < cn.size(); ++n) {
        const auto cn_path = path + ".cn" + std::to_string(n);
        Compare(*cn[n], kChannel3, cn_path, m);
        vp::Check(r->GetFile()->FindParentDataGroup(*cn[n]) == dg[d], "data group of channel " + cn_path);
        const auto* cc = cn[n]->ChannelConversion();
        vp::CheckEq(count[cn_path + ".cc"] == 1, cc != nullptr, cn_path + " has a conversion");
        if (cc != nullptr) Compare(*cc, kConversion3, cn_path + ".cc", m);
      }
    }
  }
}

// --- files of other tools ------------------------------------------------------------
// Comments may be plain text (TX) or XML (MD) in any notation.
std::string Xml(vp::Gen& g, const std::string& text) {
  if (g.Chance(1, 4) && text.find("]]>") == text.npos && text.find('\r') == text.npos && !text.empty()) {
    g.Label("cdata");
    return "<![CDATA[" + text + "]]>";
  }
  std::string out;
  for (size_t i = 0; i < text.size(); ++i) {
    const char c = text[i];
    if (c == '<') out += g.Bool() ? "&lt;" : "&#60;";
    else if (c == '&') out += g.Bool() ? "&amp;" : "&#x26;";
    else if (c == '>') out += "&gt;";
    else if (c == '\r') out += "&#xD;";
    else out += c;
  }
  return out;
}
int Comment(vp::Gen& g, enc::Image& im, const std::string& root, const std::string& text) {
  if (text.empty() && g.Bool()) return -1;
  if (g.Bool()) {
    g.Label("plain text comment");
    return im.Text(text);
  }
  std::string x;
  if (g.Chance(1, 4)) x += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  x += "<" + root;
  if (g.Bool()) x += " xmlns=\"http://www.asam.net/mdf/v4\"";
  x += ">";
  if (g.Bool()) x += "\n  ";
  if (g.Chance(1, 4)) x += "<!-- c -->";
  if (text.empty() && g.Bool()) x += "<TX/>";
  else x += std::string("<TX") + (g.Chance(1, 4) ? " xml:space='preserve'" : "") + ">" + Xml(g, text) + "</TX>";
  if (g.Chance(1, 3)) x += "\n<common_properties><e name=\"x\">y</e></common_properties>\n";
  x += "</" + root + ">";
  return im.Xml(x);
}

void Foreign(vp::Gen& g) {
  model::NoLog();
  enc::Image im;
  const int hd = im.Add("HD", std::vector<int>(6, -1), enc::Out().N(uint64_t{1700000000000000000ull}).N(int16_t{60}).N(int16_t{0})
                        .N(uint8_t{2}).N(uint8_t{0}).N(uint8_t{0}).N(uint8_t{0}).N(0.0).N(0.0).b);
  std::map<std::string, std::string> want;
  auto comment = [&](const std::string& key, const std::string& root) {
    const auto t = Txt(g, 40);
    want[key] = t;
    g.Nontrivial();
    return Comment(g, im, root, t);
  };
  auto name = [&](const std::string& key) {
    const auto t = Txt(g, 20);
    want[key] = t;
    return t.empty() ? -1 : im.Text(t);
  };
  auto si = [&](const std::string& key) {
    const int n = name(key + ".name");
    const int p = name(key + ".path");
    const int c = comment(key + ".desc", "SIcomment");
    return im.Add("SI", {n, p, c}, enc::Out().N(uint8_t{2}).N(uint8_t{3}).N(uint8_t{1}).Raw(std::vector<uint8_t>(5)).b);
  };
  im.blk[static_cast<size_t>(hd)].link[5] = comment("hd", "HDcomment");
  int next = -1;
  const size_t fhs = 1 + g.Draw(2);
  for (size_t i = fhs; i-- > 0;) {
    const int c = comment("fh" + std::to_string(i), "FHcomment");
    next = im.Add("FH", {next, c}, enc::Out().N(uint64_t{1700000000000000000ull}).N(int16_t{0}).N(int16_t{0}).N(uint8_t{0}).Raw({0, 0, 0}).b);
  }
  im.blk[static_cast<size_t>(hd)].link[1] = next;
  next = -1;
  const size_t evs = g.Draw(2);
  for (size_t i = evs; i-- > 0;) {
    const auto key = "ev" + std::to_string(i);
    const int n = name(key + ".name");
    const int c = comment(key, "EVcomment");
    next = im.Add("EV", {next, -1, -1, n, c}, enc::Out().N(uint8_t{6}).N(uint8_t{1}).N(uint8_t{0}).N(uint8_t{4}).N(uint8_t{0})
                  .Raw({0, 0, 0}).N(uint32_t{0}).N(uint16_t{0}).N(uint16_t{0}).N(int64_t{5}).N(1.0).b);
  }
  im.blk[static_cast<size_t>(hd)].link[4] = next;
  next = -1;
  const size_t chs = g.Draw(2);
  for (size_t i = chs; i-- > 0;) {
    const auto key = "ch" + std::to_string(i);
    const int n = name(key + ".name");
    const int c = comment(key, "CHcomment");
    next = im.Add("CH", {next, -1, n, c}, enc::Out().N(uint32_t{0}).N(uint8_t{1}).Raw({0, 0, 0}).b);
  }
  im.blk[static_cast<size_t>(hd)].link[2] = next;
  int next_cn = -1;
  const size_t cns = 1 + g.Draw(2);
  for (size_t i = cns; i-- > 0;) {
    const auto key = "cn" + std::to_string(i);
    const int n = name(key + ".name");
    const int s = g.Bool() ? si(key + ".si") : -1;
    int cc = -1;
    if (g.Bool()) {
      const int cn = name(key + ".cc.name");
      const int cu = comment(key + ".cc.unit", "CCunit");
      const int c = comment(key + ".cc", "CCcomment");
      cc = im.Add("CC", {cn, cu, c, -1}, enc::Out().N(uint8_t{1}).N(uint8_t{0}).N(uint16_t{0}).N(uint16_t{0}).N(uint16_t{2})
                  .N(0.0).N(0.0).N(1.0).N(2.0).b);
    }
    const int u = comment(key + ".unit", "CNunit");
    if (u < 0) want[key + ".unit"] = cc >= 0 ? want[key + ".cc.unit"] : "";
    const int c = comment(key, "CNcomment");
    next_cn = im.Add("CN", {next_cn, -1, n, s, cc, -1, u, c},
                     enc::Out().N(uint8_t{0}).N(uint8_t{0}).N(uint8_t{4}).N(uint8_t{0}).N(static_cast<uint32_t>(8 * i)).N(uint32_t{64})
                     .N(uint32_t{0}).N(uint32_t{0}).N(uint8_t{0}).N(uint8_t{0}).N(uint16_t{0}).N(0.0).N(0.0).N(0.0).N(0.0).N(0.0).N(0.0).b);
  }
  const int cg_name = name("cg.name");
  const int cg_si = g.Bool() ? si("cg.si") : -1;
  const int cg_c = comment("cg", "CGcomment");
  const int cg = im.Add("CG", {-1, next_cn, cg_name, cg_si, -1, cg_c},
                        enc::Out().N(uint64_t{0}).N(uint64_t{0}).N(uint16_t{0}).N(uint16_t{0}).N(uint32_t{0})
                        .N(static_cast<uint32_t>(8 * cns)).N(uint32_t{0}).b);
  const int dg_c = comment("dg", "DGcomment");
  im.blk[static_cast<size_t>(hd)].link[0] = im.Add("DG", {-1, cg, -1, dg_c}, {0, 0, 0, 0, 0, 0, 0, 0});
  Io io(g.Chance(1, 6), "c11.mf4");
  io.Bytes(im.Bytes(&g));
  auto r = io.Reader();
  vp::Check(r->IsOk(), "the file cannot be opened");
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData failed");
  const auto* h = r->GetHeader();
  auto eq = [&](const std::string& key, const std::string& got) {
    vp::CheckEq(vp::Quote(want[key], 4000), vp::Quote(got, 4000), key);
  };
  auto check_si = [&](const ISourceInformation* s, const std::string& key) {
    vp::CheckEq(want.count(key + ".name") > 0, s != nullptr, key + " exists");
    if (s == nullptr) return;
    eq(key + ".name", s->Name());
    eq(key + ".path", s->Path());
    eq(key + ".desc", s->Description());
  };
  eq("hd", h->Description());
  const auto fh = h->FileHistories();
  vp::CheckEq(fhs, fh.size(), "number of file histories");
  for (size_t i = 0; i < fhs; ++i) eq("fh" + std::to_string(i), fh[i]->Description());
  const auto ev = h->Events();
  vp::CheckEq(evs, ev.size(), "number of events");
  for (size_t i = 0; i < evs; ++i) {
    eq("ev" + std::to_string(i) + ".name", ev[i]->Name());
    eq("ev" + std::to_string(i), ev[i]->Description());
  }
  const auto ch = h->ChannelHierarchies();
  vp::CheckEq(chs, ch.size(), "number of hierarchies");
  for (size_t i = 0; i < chs; ++i) {
    eq("ch" + std::to_string(i) + ".name", ch[i]->Name());
    eq("ch" + std::to_string(i), ch[i]->Description());
  }
  const auto dgs = h->DataGroups();
  vp::CheckEq(size_t{1}, dgs.size(), "number of data groups");
  eq("dg", dgs[0]->Description());
  const auto cgs = dgs[0]->ChannelGroups();
  vp::CheckEq(size_t{1}, cgs.size(), "number of groups");
  eq("cg.name", cgs[0]->Name());
  eq("cg", cgs[0]->Description());
  check_si(cgs[0]->SourceInformation(), "cg.si");
  const auto cn = cgs[0]->Channels();
  vp::CheckEq(cns, cn.size(), "number of channels");
  for (size_t i = 0; i < cns; ++i) {
    const auto key = "cn" + std::to_string(i);
    eq(key + ".name", cn[i]->Name());
    eq(key, cn[i]->Description());
    eq(key + ".unit", cn[i]->Unit());
    check_si(cn[i]->SourceInformation(), key + ".si");
    const auto* cc = cn[i]->ChannelConversion();
    vp::CheckEq(want.count(key + ".cc.name") > 0, cc != nullptr, key + " has a conversion");
    if (cc == nullptr) continue;
    eq(key + ".cc.name", cc->Name());
    eq(key + ".cc.unit", cc->Unit());
    eq(key + ".cc", cc->Description());
  }
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C11";
  p.assumptions = {
      "texts have no leading or trailing white space and no NUL or other control characters than tab, line feed and carriage "
      "return; a text that is itself a XML document is not used as description",
      "MDF3: texts within the size of their field, one byte per character; the library has no ranges for MDF3 channels",
      "names of metadata properties differ in more than the case of their letters"};
  p.subs = {
      {"mdf4", 2500, 60000, Mdf4, "at least one property is set", 3, 60, false},
      {"mdf3", 1500, 40000, Mdf3, "at least one property is set", 3, 60, false},
      {"foreign", 5000, 60000, Foreign, "the file has comments", 3, 60, false},
  };
  return vp::Main(argc, argv, p);
}
