// C12: structured comments survive the conversion to XML and back, and any
// rendering of the same XML gives the same comment.
//
// Generated comment objects (all classes, all their parts) are converted to XML
// and back into a new object; a dump of all getters is compared. Numbers are in
// addition compared with the generated value just after the setter, so that a
// loss in the setter is seen as well. The XML text is parsed by a small
// independent parser (well-formedness), rendered again with other white space,
// quotes, character references, CDATA sections and comments, and read by the
// library. Sub "file" stores the comments in a file.
#include <cmath>
#include <map>
#include <memory>
#include <set>

#include "common/io.h"
#include "common/model.h"
#include "mdf/atcomment.h"
#include "mdf/cccomment.h"
#include "mdf/ccunit.h"
#include "mdf/cgcomment.h"
#include "mdf/chcomment.h"
#include "mdf/cncomment.h"
#include "mdf/cnunit.h"
#include "mdf/dgcomment.h"
#include "mdf/evcomment.h"
#include "mdf/fhcomment.h"
#include "mdf/hdcomment.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/iheader.h"
#include "mdf/isourceinformation.h"
#include "mdf/sicomment.h"
#include "vp.h"

using namespace mdf;

namespace {

constexpr const char* kSpace = " \t\r\n\v\f";

std::string Trim(std::string s) {
  while (!s.empty() && strchr(kSpace, s.front()) != nullptr) s.erase(s.begin());
  while (!s.empty() && strchr(kSpace, s.back()) != nullptr) s.pop_back();
  return s;
}
std::string Txt(vp::Gen& g, size_t most = 30) {
  std::string s;
  if (g.Draw(3) < 2) {
    s = g.Text(most);
  } else {
    static const char* kBits[] = {"a", "B", " ", "<", ">", "&", "'", "\"", "\n", "\t", "\r", "\r\n", "]]>", "<!--", "-->",
                                  "&amp;", "&#10;", "<?", "\xC3\xA5", "\xF0\x9F\x98\x80", "\xE2\x82\xAC", "%s", "\\", "/",
                                  ";", "=", "  ", "\xC2\xA0", "{}", "<TX>", "</TX>", "<![CDATA["};
    const size_t n = g.Draw(10);
    for (size_t i = 0; i < n; ++i) s += kBits[g.Draw(std::size(kBits) - 1)];
  }
  return Trim(s);
}
std::string Some(vp::Gen& g, size_t most = 20) {  // never empty
  const auto s = Txt(g, most);
  return s.empty() ? "x" : s;
}
double Value(vp::Gen& g) {
  switch (g.Draw(4)) {
    case 0: return static_cast<double>(g.Int(-1000, 1000));
    case 1: return static_cast<double>(g.Int(-1000, 1000)) / 8;
    case 2: return static_cast<double>(g.Int(-1000000000000000, 1000000000000000)) * 1E-6;
    case 3: return static_cast<double>(g.Int(-1000000, 1000000)) * 1E-12;
    default: {
      const double d = g.InterestingDouble();
      // The text stream of the library does not read subnormal numbers
      return d != 0 && std::fabs(d) < 1E-300 ? 0.0 : d;
    }
  }
}
std::string Num(double d) {
  if (d == 0) d = 0;
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
void Equal(const char* what, double given, double got) {
  if (Num(given) != Num(got)) vp::Fail(std::string(what) + " given " + Num(given) + ", the object has " + Num(got));
}
void Equal(const char* what, uint64_t given, uint64_t got) {
  if (given != got) vp::Fail(std::string(what) + " given " + std::to_string(given) + ", the object has " + std::to_string(got));
}

// ---- generators

void Attr(vp::Gen& g, MdStandardAttribute& a) {
  if (g.Chance(1, 6)) a.HistoryIndex(g.Draw(3) ? g.Draw(100) : g.InterestingUnsigned(63));
  if (g.Chance(1, 6)) a.Language(g.Pick<std::string>({"en", "sv", "de-AT", "zh-Hans"}));
  if (g.Chance(1, 8)) {
    const size_t n = 1 + g.Draw(2);
    for (size_t i = 0; i < n; ++i) a.AddCustomAttribute("u_" + g.Ident(6) + std::to_string(i), Txt(g, 12));
  }
}
MdString Str(vp::Gen& g, size_t most = 30) {
  MdString s(Some(g, most));
  Attr(g, s);
  return s;
}
MdNumber Number(vp::Gen& g, bool hex_only = false) {
  MdNumber n;
  const uint64_t kind = hex_only ? 3 : g.Draw(5);
  const double d = Value(g);
  const uint64_t u = g.Draw(2) ? g.Draw(1000) : g.InterestingUnsigned(64);
  switch (kind) {
    case 0:
      n = MdNumber(d);
      Equal("number", d, n.Number<double>());
      break;
    case 1:
      n.Number(d);
      Equal("number", d, n.Number<double>());
      break;
    case 2:
      n.DataType(MdDataType::MdInteger);
      n.Number(u);
      Equal("number", u, n.Number<uint64_t>());
      break;
    case 3:
      n = MdNumber(u, MdDataType::MdHex);
      Equal("number", u, n.Number<uint64_t>());
      break;
    case 4:
      n.DataType(MdDataType::MdHex);
      n.Number(u);
      Equal("number", u, n.Number<uint64_t>());
      break;
    default:
      n = MdNumber(u, MdDataType::MdInteger);
      Equal("number", u, n.Number<uint64_t>());
      break;
  }
  if (g.Chance(1, 3)) n.Triggered(true);
  if (g.Chance(1, 3)) n.ByteCount(g.Draw(9));
  if (g.Chance(1, 3)) n.BitMask(g.Bool() ? g.Draw(255) : g.InterestingUnsigned(64));
  if (g.Chance(1, 3)) n.ByteOrder(MdByteOrder::BigEndian);
  if (g.Chance(1, 3)) n.Min(Value(g));
  if (g.Chance(1, 3)) n.Max(Value(g));
  if (g.Chance(1, 3)) n.Average(Value(g));
  if (g.Chance(1, 3)) n.Unit(Txt(g, 8));
  if (g.Chance(1, 3)) n.UnitRef(Txt(g, 8));
  Attr(g, n);
  return n;
}
void PropDetails(vp::Gen& g, MdProperty& p) {
  if (g.Chance(1, 3)) p.Description(Txt(g));
  if (g.Chance(1, 4)) p.Unit(Txt(g, 6));
  if (g.Chance(1, 4)) p.UnitReference(Txt(g, 6));
  if (g.Chance(1, 4)) p.ReadOnly(true);
  Attr(g, p);
}
MdProperty Prop(vp::Gen& g, const std::string& name) {
  MdProperty p;
  p.Name(name);
  switch (g.Draw(7)) {
    case 0:
    case 1:
      p.Value(Txt(g));
      break;
    case 2: {
      const bool b = g.Bool();
      p.DataType(MdDataType::MdBoolean);
      p.Value(b);
      if (p.Value<bool>() != b) vp::Fail("boolean property value");
      break;
    }
    case 3: {
      const uint64_t u = g.InterestingUnsigned(64);
      p.DataType(MdDataType::MdInteger);
      p.Value(u);
      Equal("property", u, p.Value<uint64_t>());
      break;
    }
    case 4: {
      const int64_t i = g.InterestingSigned(64);
      p.DataType(MdDataType::MdInteger);
      p.Value(i);
      Equal("property", static_cast<uint64_t>(i), static_cast<uint64_t>(p.Value<int64_t>()));
      break;
    }
    case 5: {
      const double d = Value(g);
      p.DataType(g.Bool() ? MdDataType::MdFloat : MdDataType::MdDecimal);
      p.Value(d);
      Equal("property", d, p.Value<double>());
      break;
    }
    case 6: {
      // whole milliseconds from 1970 to 2200
      const uint64_t ns = g.Draw(7258118400000ULL) * 1000000;
      p.DataType(g.Pick<MdDataType>({MdDataType::MdDateTime, MdDataType::MdDate, MdDataType::MdTime}));
      p.Value(ns);
      if (p.DataType() == MdDataType::MdDateTime) Equal("date and time", ns, p.Value<uint64_t>());
      break;
    }
    default: {
      const uint64_t u = g.InterestingUnsigned(64);
      p.DataType(MdDataType::MdHex);
      p.Value(u);
      break;
    }
  }
  PropDetails(g, p);
  return p;
}
MdEnumerate Enum(vp::Gen& g, const std::string& name) {
  MdEnumerate e;
  e.Name(name);
  if (g.Bool()) e.DataType(static_cast<MdDataType>(g.Draw(7)));
  PropDetails(g, e);
  const size_t n = g.Draw(3);
  for (size_t i = 0; i < n; ++i) e.AddValue(Str(g, 10));
  return e;
}
// Names are unique within their list; no '/' as it separates the parts of a path.
std::string NextName(vp::Gen& g, std::set<std::string>& used) {
  std::string s = Some(g, 8);
  for (auto& c : s) if (c == '/') c = '.';
  while (!used.insert(s).second) s += std::to_string(used.size());
  return s;
}
template <class List>
void Fill(vp::Gen& g, List& l, size_t level, std::set<std::string>& used);
MdList SubList(vp::Gen& g, const std::string& name, size_t level) {
  MdList l;
  l.Name(name);
  if (g.Chance(1, 3)) l.Description(Txt(g));
  Attr(g, l);
  std::set<std::string> used;
  Fill(g, l, level, used);
  return l;
}
template <class List>
void Fill(vp::Gen& g, List& l, size_t level, std::set<std::string>& used) {
  const size_t n = g.Draw(level == 0 ? 5 : 3);
  for (size_t i = 0; i < n; ++i) {
    const auto name = NextName(g, used);
    const uint64_t kind = g.Draw(level < 3 ? 5 : 3);
    if (kind < 3) l.AddProperty(Prop(g, name));
    else if (kind == 3) l.AddEnumerate(Enum(g, name));
    else if (kind == 4) l.AddTree(SubList(g, name, level + 1));
    else l.AddList(SubList(g, name, level + 1));
  }
}
void Names(vp::Gen& g, MdAlternativeName& a) {
  if (g.Bool()) a.DefaultName(Some(g));
  const size_t n = g.Draw(4);
  for (size_t i = 0; i < n; ++i) {
    switch (g.Draw(3)) {
      case 0: a.AddAlternativeName(Str(g)); break;
      case 1: a.AddDisplayName(Str(g)); break;
      case 2: a.AddVendor(Str(g)); break;
      default: a.AddDescription(Str(g)); break;
    }
  }
  if (n > 0) Attr(g, a);
}
void Formula(vp::Gen& g, MdFormula& f) {
  MdSyntax s;
  s.Syntax(Some(g));
  if (g.Bool()) s.Version(Some(g, 6));
  Attr(g, s);
  f.Syntax(s);
  std::set<std::string> used;
  const size_t n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    MdSyntax c;
    c.Syntax(NextName(g, used));
    if (g.Bool()) c.Version(Some(g, 6));
    if (g.Bool()) c.Source(Some(g, 6));
    Attr(g, c);
    f.AddCustomSyntax(c);
  }
  const size_t nv = g.Draw(3);
  for (size_t i = 0; i < nv; ++i) {
    MdVariable v;
    v.Variable(NextName(g, used));
    if (g.Bool()) v.CnBlockName(Txt(g));
    if (g.Chance(1, 3)) v.CnSourceName(Txt(g));
    if (g.Chance(1, 3)) v.CnSourcePath(Txt(g));
    if (g.Chance(1, 3)) v.CgBlockName(Txt(g));
    if (g.Chance(1, 3)) v.CgSourceName(Txt(g));
    if (g.Chance(1, 3)) v.CgSourcePath(Txt(g));
    if (g.Chance(1, 3)) v.Raw(true);
    const size_t ni = g.Draw(3);
    for (size_t k = 0; k < ni; ++k) v.AddArrayIndex(g.Draw(3) ? g.Draw(20) : g.InterestingUnsigned(64));
    Attr(g, v);
    f.AddVariable(v);
  }
  Attr(g, f);
}

void Name(vp::Gen& g, HoNameDetails& d, bool need_short = false) {
  if (need_short || g.Bool()) d.ShortName(Some(g, 10));
  size_t n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) d.AddLongName(Str(g));
  n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) d.AddDescription(Str(g));
}
HoInterval Limit(vp::Gen& g) {
  HoInterval i;
  i.Limit(Value(g));
  i.Type(static_cast<HoIntervalType>(g.Draw(2)));
  return i;
}
HoScaleConstraint Constraint(vp::Gen& g) {
  HoScaleConstraint c;
  const bool low = g.Bool();
  if (low) c.LowerLimit(Limit(g));
  if (!low || g.Bool()) c.UpperLimit(Limit(g));
  c.Validity(static_cast<HoValidity>(g.Draw(5)));
  return c;
}
void Method(vp::Gen& g, HoCompuMethod& m) {
  Name(g, m, true);
  m.Category(static_cast<HoComputationMethodCategory>(g.Draw(5)));
  if (g.Bool()) m.UnitReference(Some(g, 8));
  size_t n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) m.AddPhysicalConstraint(Constraint(g));
  n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) m.AddInternalConstraint(Constraint(g));
  n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    HoCompuScale s;
    if (g.Bool()) s.LowerLimit(Limit(g));
    if (g.Bool()) s.UpperLimit(Limit(g));
    size_t k = g.Draw(2);
    while (k-- > 0) s.AddDescription(Str(g, 10));
    if (g.Chance(1, 3)) s.ConstFloatValue(Value(g));
    if (g.Chance(1, 3)) s.ConstTextValue(Txt(g));
    k = g.Draw(3);
    while (k-- > 0) s.AddNumerator(Value(g));
    k = g.Draw(3);
    while (k-- > 0) s.AddDenominator(Value(g));
    if (g.Chance(1, 3)) s.GenericMath(Txt(g));
    m.AddCompuScale(s);
  }
  if (g.Chance(1, 3)) m.DefaultFloatValue(Value(g));
  if (g.Chance(1, 3)) m.DefaultTextValue(Txt(g));
}
void UnitSpec(vp::Gen& g, HoUnitSpecification& u) {
  size_t n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    HoRevision r;
    if (g.Bool()) r.TeamMemberReference(Some(g, 8));
    if (g.Bool()) r.RevisionLabel(Some(g, 8));
    if (g.Bool()) r.State(Some(g, 8));
    if (g.Bool()) {
      const uint64_t ns = g.Draw(7258118400ULL) * 1000000000;
      r.DateNs(ns);
      Equal("revision date", ns, r.DateNs());
    }
    size_t k = g.Draw(2);
    while (k-- > 0) r.AddCompanyRevision({Txt(g, 8), Txt(g, 8), Txt(g, 8)});
    k = g.Draw(2);
    while (k-- > 0) r.AddModification({Txt(g), Txt(g)});
    u.AdminData().AddRevision(r);
  }
  std::set<std::string> used;
  n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    HoPhysicalDimension d;
    d.Identity(NextName(g, used));
    Name(g, d);
    if (g.Bool()) d.LengthExponent(Value(g));
    if (g.Bool()) d.MassExponent(Value(g));
    if (g.Bool()) d.TimeExponent(Value(g));
    if (g.Bool()) d.CurrentExponent(Value(g));
    if (g.Bool()) d.TemperatureExponent(Value(g));
    if (g.Bool()) d.MolarExponent(Value(g));
    if (g.Bool()) d.LuminousExponent(Value(g));
    u.AddPhysicalDimension(d);
  }
  n = g.Draw(2);
  for (size_t i = 0; i < n; ++i) {
    HoUnitGroup d;
    Name(g, d);
    d.ShortName(NextName(g, used));
    d.Category(static_cast<HoUnitGroupCategory>(g.Draw(1)));
    size_t k = g.Draw(3);
    while (k-- > 0) d.AddUnitReference(Some(g, 6));
    u.AddUnitGroup(d);
  }
  n = g.Draw(3);
  for (size_t i = 0; i < n; ++i) {
    HoUnit d;
    d.Identity(NextName(g, used));
    Name(g, d, true);
    if (g.Bool()) d.DisplayName(Some(g, 6));
    if (g.Bool()) d.Factor(Value(g));
    if (g.Bool()) d.Offset(Value(g));
    if (g.Bool()) d.PhysicalDimensionRef(Some(g, 6));
    u.AddUnit(d);
  }
}
struct Ext : MdExtension {
  Ext() = default;
};

// ---- dump

struct Dump {
  std::vector<std::string> lines;
  std::vector<std::string> path;
  void Add(const std::string& key, const std::string& value) {
    std::string l;
    for (const auto& p : path) l += p + "|";
    lines.push_back(l + key + " = " + value);
  }
};
struct In {
  Dump& d;
  In(Dump& dd, std::string p) : d(dd) { d.path.push_back(std::move(p)); }
  ~In() { d.path.pop_back(); }
};
void Show(Dump& d, const MdStandardAttribute& a) {
  d.Add("ci", std::to_string(a.HistoryIndex()));
  d.Add("lang", a.Language());
  for (const auto& [k, v] : a.CustomAttributes()) if (k.rfind("u_", 0) == 0) d.Add("attribute " + k, v);
}
void ShowS(Dump& d, const char* name, const MdString& s) {
  In in(d, name);
  d.Add("text", s.Text());
  d.Add("offset", std::to_string(s.Offset()));
  Show(d, static_cast<const MdStandardAttribute&>(s));
}
void ShowS(Dump& d, const char* name, const MdStringList& l) {
  d.Add(std::string(name) + " count", std::to_string(l.size()));
  for (const auto& s : l) ShowS(d, name, s);
}
void ShowN(Dump& d, const char* name, const MdNumber& n) {
  In in(d, name);
  d.Add("active", n.IsActive() ? "y" : "n");
  if (!n.IsActive()) return;
  d.Add("unsigned", std::to_string(n.Number<uint64_t>()));
  d.Add("double", Num(n.Number<double>()));
  d.Add("text", n.Number<std::string>());
  d.Add("triggered", n.Triggered() ? "y" : "n");
  d.Add("bytes", std::to_string(n.ByteCount()));
  d.Add("mask", std::to_string(n.BitMask()));
  d.Add("order", n.ByteOrder() == MdByteOrder::BigEndian ? "BE" : "LE");
  d.Add("min", n.Min() ? Num(*n.Min()) : "-");
  d.Add("max", n.Max() ? Num(*n.Max()) : "-");
  d.Add("average", n.Average() ? Num(*n.Average()) : "-");
  d.Add("unit", n.Unit());
  d.Add("unit ref", n.UnitRef());
  Show(d, static_cast<const MdStandardAttribute&>(n));
}
void ShowP(Dump& d, const MdProperty& p, bool value = true) {
  d.Add("name", p.Name());
  d.Add("desc", p.Description());
  d.Add("unit", p.Unit());
  d.Add("unit ref", p.UnitReference());
  // There is no type name of its own for hexadecimal integers
  const auto type = p.DataType() == MdDataType::MdHex ? MdDataType::MdInteger : p.DataType();
  d.Add("type", std::to_string(static_cast<int>(type)));
  d.Add("read only", p.ReadOnly() ? "y" : "n");
  if (value) d.Add("value", p.Value<std::string>());
  Show(d, static_cast<const MdStandardAttribute&>(p));
}
void ShowE(Dump& d, const MdEnumerate& e) {
  ShowP(d, e, false);
  ShowS(d, "eli", e.ValueList());
}
template <class List>
void ShowL(Dump& d, const List& l) {
  d.Add("properties", std::to_string(l.Properties().size()));
  for (const auto& [k, p] : l.Properties()) {
    In in(d, "e " + k);
    ShowP(d, p);
  }
  d.Add("enumerates", std::to_string(l.Enumerates().size()));
  for (const auto& [k, p] : l.Enumerates()) {
    In in(d, "elist " + k);
    ShowE(d, p);
  }
  d.Add("trees", std::to_string(l.Trees().size()));
  for (const auto& [k, p] : l.Trees()) {
    In in(d, "tree " + k);
    d.Add("desc", p.Description());
    Show(d, static_cast<const MdStandardAttribute&>(p));
    ShowL(d, p);
  }
  d.Add("lists", std::to_string(l.Lists().size()));
  for (const auto& [k, p] : l.Lists()) {
    In in(d, "list " + k);
    d.Add("desc", p.Description());
    Show(d, static_cast<const MdStandardAttribute&>(p));
    ShowL(d, p);
  }
}
void ShowA(Dump& d, const char* name, const MdAlternativeName& a) {
  In in(d, name);
  d.Add("default", a.DefaultName());
  Show(d, static_cast<const MdStandardAttribute&>(a));
  ShowS(d, "name", a.AlternativeNames());
  ShowS(d, "display", a.DisplayNames());
  ShowS(d, "vendor", a.Vendors());
  ShowS(d, "description", a.Descriptions());
}
void ShowF(Dump& d, const MdFormula& f) {
  In in(d, "formula");
  Show(d, static_cast<const MdStandardAttribute&>(f));
  auto syntax = [&](const MdSyntax& s, const char* name) {
    ShowS(d, name, s);
    In in2(d, name);
    d.Add("version", s.Version());
    d.Add("source", s.Source());
  };
  syntax(f.Syntax(), "syntax");
  for (const auto& [k, s] : f.CustomSyntaxes()) syntax(s, "custom");
  for (const auto& [k, v] : f.Variables()) {
    ShowS(d, "variable", v);
    In in2(d, "variable");
    d.Add("cn", v.CnBlockName());
    d.Add("cs", v.CnSourceName());
    d.Add("cp", v.CnSourcePath());
    d.Add("gn", v.CgBlockName());
    d.Add("gs", v.CgSourceName());
    d.Add("gp", v.CgSourcePath());
    d.Add("raw", v.Raw() ? "y" : "n");
    std::string idx;
    for (const auto i : v.ArrayIndexes()) idx += std::to_string(i) + " ";
    d.Add("idx", idx);
  }
}
void ShowND(Dump& d, const HoNameDetails& n) {
  d.Add("short name", n.ShortName());
  ShowS(d, "long name", n.LongNames());
  ShowS(d, "description", n.Descriptions());
}
void ShowI(Dump& d, const char* name, const HoInterval& i) {
  d.Add(name, i.IsActive() ? Num(i.Limit()) + " type " + std::to_string(static_cast<int>(i.Type())) : "-");
}
void ShowM(Dump& d, const HoCompuMethod& m) {
  In in(d, "method");
  ShowND(d, m);
  d.Add("category", std::to_string(static_cast<int>(m.Category())));
  d.Add("unit ref", m.UnitReference());
  auto constraint = [&](const char* name, const HoScaleConstraint& c, bool scale) {
    In in2(d, name);
    ShowI(d, "low", c.LowerLimit());
    ShowI(d, "high", c.UpperLimit());
    if (!scale) d.Add("validity", std::to_string(static_cast<int>(c.Validity())));
  };
  d.Add("counts", std::to_string(m.PhysicalConstraints().size()) + " " + std::to_string(m.InternalConstraints().size()) +
                      " " + std::to_string(m.CompuScales().size()));
  for (const auto& c : m.PhysicalConstraints()) constraint("phys", c, false);
  for (const auto& c : m.InternalConstraints()) constraint("internal", c, false);
  for (const auto& s : m.CompuScales()) {
    constraint("scale", s, true);
    In in2(d, "scale");
    ShowS(d, "desc", s.Descriptions());
    d.Add("const", Num(s.ConstFloatValue()));
    d.Add("const text", s.ConstTextValue());
    std::string c;
    for (const auto v : s.Numerators()) c += Num(v) + " ";
    c += "/ ";
    for (const auto v : s.Denominators()) c += Num(v) + " ";
    d.Add("coefficients", c);
    d.Add("math", s.GenericMath());
  }
  d.Add("default", Num(m.DefaultFloatValue()));
  d.Add("default text", m.DefaultTextValue());
}
void ShowU(Dump& d, const HoUnitSpecification& u) {
  In in(d, "unit spec");
  for (const auto& r : u.AdminData().Revisions()) {
    In in2(d, "revision");
    d.Add("member", r.TeamMemberReference());
    d.Add("label", r.RevisionLabel());
    d.Add("state", r.State());
    d.Add("date", r.Date());
    for (const auto& c : r.CompanyRevisions()) d.Add("company", c.DataReference + "|" + c.Label + "|" + c.State);
    for (const auto& c : r.Modifications()) d.Add("modification", c.Change + "|" + c.Reason);
  }
  for (const auto& [k, p] : u.PhysicalDimensions()) {
    In in2(d, "dimension " + k);
    ShowND(d, p);
    d.Add("id", p.Identity());
    d.Add("length", Num(p.LengthExponent()));
    d.Add("mass", Num(p.MassExponent()));
    d.Add("time", Num(p.TimeExponent()));
    d.Add("current", Num(p.CurrentExponent()));
    d.Add("temperature", Num(p.TemperatureExponent()));
    d.Add("molar", Num(p.MolarExponent()));
    d.Add("luminous", Num(p.LuminousExponent()));
  }
  for (const auto& [k, p] : u.UnitGroups()) {
    In in2(d, "group " + k);
    ShowND(d, p);
    d.Add("category", std::to_string(static_cast<int>(p.Category())));
    for (const auto& r : p.UnitRefs()) d.Add("ref", r);
  }
  for (const auto& [k, p] : u.Units()) {
    In in2(d, "unit " + k);
    ShowND(d, p);
    d.Add("id", p.Identity());
    d.Add("display", p.DisplayName());
    d.Add("factor", Num(p.Factor()));
    d.Add("offset", Num(p.Offset()));
    d.Add("dimension", p.PhysicalDimensionRef());
  }
}
void ShowBase(Dump& d, const MdComment& c) {
  ShowS(d, "TX", c.Comment());
  ShowL(d, c);
  ShowA(d, "names", c.Names());
  ShowF(d, c.Formula());
  d.Add("extensions", std::to_string(c.Extensions().size()));
  for (const auto& e : c.Extensions()) {
    In in(d, "extension");
    Show(d, *e);
  }
}

// ---- the comment classes

enum Parts { kNames = 1, kFormula = 2 };

void GenBase(vp::Gen& g, MdComment& c, int parts, std::set<std::string> used = {}) {
  if (g.Chance(4, 5)) {
    MdString s(Txt(g, 60));
    Attr(g, s);
    c.Comment(s);
  }
  if (g.Chance(2, 3)) Fill(g, c, 0, used);
  if ((parts & kNames) != 0 && g.Chance(1, 3)) Names(g, c.Names());
  if ((parts & kFormula) != 0 && g.Chance(1, 3)) Formula(g, c.Formula());
  const size_t n = g.Chance(1, 5) ? 1 + g.Draw(1) : 0;
  for (size_t i = 0; i < n; ++i) {
    auto e = std::make_unique<Ext>();
    Attr(g, *e);
    c.AddExtension(std::move(e));
  }
}

struct Kind {
  std::string name;
  std::function<std::unique_ptr<MdComment>()> make;
  std::function<void(vp::Gen&, MdComment&)> gen;
  std::function<void(Dump&, const MdComment&)> show;
};

template <class T>
std::unique_ptr<MdComment> Make() {
  auto p = std::make_unique<T>();
  p->SetExtensionCreator([] { return std::make_unique<Ext>(); });
  return p;
}
template <class T>
Kind Simple(const char* name, int parts) {
  return {name, Make<T>, [parts](vp::Gen& g, MdComment& c) { GenBase(g, c, parts); },
          [](Dump& d, const MdComment& c) { ShowBase(d, c); }};
}

const std::vector<Kind>& Kinds() {
  static const std::vector<Kind> kinds = {
      Simple<AtComment>("AT", kNames | kFormula),
      Simple<DgComment>("DG", kNames | kFormula),
      Simple<CgComment>("CG", kNames | kFormula),
      Simple<ChComment>("CH", kNames | kFormula),
      {"HD", Make<HdComment>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<HdComment&>(c);
         if (g.Chance(1, 3)) h.Author(Txt(g));
         if (g.Chance(1, 3)) h.Department(Txt(g));
         if (g.Chance(1, 3)) h.Project(Txt(g));
         if (g.Chance(1, 3)) h.Subject(Txt(g));
         if (g.Chance(1, 3)) h.MeasurementUuid(Txt(g));
         if (g.Chance(1, 3)) h.RecorderUuid(Txt(g));
         if (g.Chance(1, 3)) {
           const int64_t i = g.InterestingSigned(64);
           h.RecorderFileIndex(i);
           Equal("file index", static_cast<uint64_t>(i), static_cast<uint64_t>(h.RecorderFileIndex()));
         }
         GenBase(g, c, 0,
                 {"author", "department", "project", "subject", "Measurement.UUID", "Recorder.UUID", "Recorder.FileIndex"});
         if (g.Chance(1, 3)) h.TimeSource(Str(g));
         std::set<std::string> used;
         const size_t n = g.Draw(2);
         for (size_t i = 0; i < n; ++i) {
           MdString s(NextName(g, used));
           Attr(g, s);
           h.AddConstant(s, Txt(g));
         }
         if (g.Chance(1, 2)) UnitSpec(g, h.UnitSpecification());
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const HdComment&>(c);
         ShowBase(d, c);
         d.Add("author", h.Author());
         d.Add("department", h.Department());
         d.Add("project", h.Project());
         d.Add("subject", h.Subject());
         d.Add("measurement uuid", h.MeasurementUuid());
         d.Add("recorder uuid", h.RecorderUuid());
         d.Add("index", std::to_string(h.RecorderFileIndex()));
         ShowS(d, "time source", h.TimeSource());
         for (const auto& [k, v] : h.Constants()) {
           ShowS(d, "constant", k);
           d.Add("expression", v);
         }
         ShowU(d, h.UnitSpecification());
       }},
      {"FH", Make<FhComment>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<FhComment&>(c);
         GenBase(g, c, 0);
         if (g.Bool()) h.ToolId(Str(g));
         if (g.Bool()) h.ToolVendor(Str(g));
         if (g.Bool()) h.ToolVersion(Str(g));
         if (g.Bool()) h.UserName(Str(g));
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const FhComment&>(c);
         ShowBase(d, c);
         ShowS(d, "tool id", h.ToolId());
         ShowS(d, "tool vendor", h.ToolVendor());
         ShowS(d, "tool version", h.ToolVersion());
         ShowS(d, "user", h.UserName());
       }},
      {"EV", Make<EvComment>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<EvComment&>(c);
         GenBase(g, c, kFormula);
         if (g.Bool()) h.PreTriggerInterval(Number(g));
         if (g.Bool()) h.PostTriggerInterval(Number(g));
         if (g.Bool()) h.Timeout(Number(g));
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const EvComment&>(c);
         ShowBase(d, c);
         ShowN(d, "pre", h.PreTriggerInterval());
         ShowN(d, "post", h.PostTriggerInterval());
         ShowN(d, "timeout", h.Timeout());
       }},
      {"SI", Make<SiComment>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<SiComment&>(c);
         GenBase(g, c, kNames);
         if (g.Bool()) Names(g, h.Path());
         if (g.Bool()) Names(g, h.Bus());
         if (g.Bool()) h.Protocol(Str(g));
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const SiComment&>(c);
         ShowBase(d, c);
         ShowA(d, "path", h.Path());
         ShowA(d, "bus", h.Bus());
         ShowS(d, "protocol", h.Protocol());
       }},
      {"CN", Make<CnComment>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<CnComment&>(c);
         GenBase(g, c, kNames | kFormula);
         if (g.Bool()) {
           auto s = Str(g);
           if (g.Bool()) s.Offset(g.Draw(2) ? g.Draw(100) : g.InterestingUnsigned(64));
           h.LinkerName(s);
         }
         if (g.Bool()) h.LinkerAddress(Number(g, true));
         if (g.Bool()) h.AxisMonotony(static_cast<MdMonotony>(g.Draw(6)));
         if (g.Bool()) h.Raster(Number(g));
         if (g.Bool()) h.Address(Number(g, true));
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const CnComment&>(c);
         ShowBase(d, c);
         ShowS(d, "linker name", h.LinkerName());
         ShowN(d, "linker address", h.LinkerAddress());
         ShowN(d, "raster", h.Raster());
         ShowN(d, "address", h.Address());
         d.Add("monotony", std::to_string(static_cast<int>(h.AxisMonotony())));
       }},
      {"CC", Make<CcComment>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<CcComment&>(c);
         GenBase(g, c, kNames | kFormula);
         if (g.Bool()) Method(g, h.CompuMethod());
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const CcComment&>(c);
         ShowBase(d, c);
         ShowM(d, h.CompuMethod());
       }},
      {"CN unit", Make<CnUnit>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<CnUnit&>(c);
         GenBase(g, c, kNames | kFormula);
         if (g.Bool()) h.UnitRef(Str(g));
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const CnUnit&>(c);
         ShowBase(d, c);
         ShowS(d, "unit ref", h.UnitRef());
       }},
      {"CC unit", Make<CcUnit>,
       [](vp::Gen& g, MdComment& c) {
         auto& h = static_cast<CcUnit&>(c);
         GenBase(g, c, kNames | kFormula);
         if (g.Bool()) h.UnitRef(Str(g));
       },
       [](Dump& d, const MdComment& c) {
         const auto& h = static_cast<const CcUnit&>(c);
         ShowBase(d, c);
         ShowS(d, "unit ref", h.UnitRef());
       }},
  };
  return kinds;
}

void Compare(const Kind& k, const MdComment& want, const MdComment& got, const std::string& how) {
  Dump a, b;
  k.show(a, want);
  k.show(b, got);
  for (size_t i = 0; i < a.lines.size() || i < b.lines.size(); ++i) {
    const std::string x = i < a.lines.size() ? a.lines[i] : "(end)";
    const std::string y = i < b.lines.size() ? b.lines[i] : "(end)";
    if (x != y) vp::Fail(k.name + " comment " + how + ": expected [" + x + "], read [" + y + "]");
  }
}

// Every property is found by its path (and at the top by its name).
template <class List>
void Lookup(const MdComment& c, const List& l, const std::string& path, bool in_tree) {
  for (const auto& [k, p] : l.Properties()) {
    const auto* found = c.GetProperty(path + k);
    if (found == nullptr) vp::Fail("property " + path + k + " is not found");
    if (found != &p) vp::Fail("another property is found for the path " + path + k);
  }
  for (const auto& [k, p] : l.Enumerates()) {
    const auto* found = c.GetEnumerate(path + k);
    if (found == nullptr) vp::Fail("enumerate " + path + k + " is not found");
    if (found != &p) vp::Fail("another enumerate is found for the path " + path + k);
  }
  for (const auto& [k, t] : l.Trees()) Lookup(c, t, path + k + "/", true);
  for (const auto& [k, t] : l.Lists()) Lookup(c, t, path + k + "/", true);
}

// ---- independent XML

struct Node {
  std::string tag;
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<Node> sub;
  std::string text;
};

class Parser {
 public:
  explicit Parser(const std::string& s) : s_(s) {}
  Node Document() {
    Space();
    if (s_.compare(p_, 5, "<?xml") == 0) {
      p_ = s_.find("?>", p_);
      if (p_ == std::string::npos) Bad("open XML declaration");
      p_ += 2;
      Space();
    }
    Node n = Element();
    Space();
    if (p_ != s_.size()) Bad("text after the root element");
    return n;
  }

 private:
  const std::string& s_;
  size_t p_ = 0;
  [[noreturn]] void Bad(const std::string& why) {
    vp::Fail("the XML is not well-formed: " + why + " at " + std::to_string(p_) + " of " + s_.substr(0, 2000));
  }
  char At() {
    if (p_ >= s_.size()) Bad("end of text");
    return s_[p_];
  }
  void Space() {
    while (p_ < s_.size() && strchr(" \t\r\n", s_[p_]) != nullptr) ++p_;
  }
  std::string XName() {
    std::string n;
    while (isalnum(static_cast<unsigned char>(At())) || strchr("_:.-", At()) != nullptr) n += s_[p_++];
    if (n.empty() || isdigit(static_cast<unsigned char>(n[0]))) Bad("name expected");
    return n;
  }
  std::string Ref() {  // behind '&'
    const size_t e = s_.find(';', p_);
    if (e == std::string::npos || e - p_ > 8) Bad("bad reference");
    const std::string r = s_.substr(p_, e - p_);
    p_ = e + 1;
    if (r == "lt") return "<";
    if (r == "gt") return ">";
    if (r == "amp") return "&";
    if (r == "quot") return "\"";
    if (r == "apos") return "'";
    if (r.size() > 1 && r[0] == '#') {
      const unsigned long c = r[1] == 'x' ? strtoul(r.c_str() + 2, nullptr, 16) : strtoul(r.c_str() + 1, nullptr, 10);
      if (c == 0 || c > 127) Bad("unexpected character reference");
      return std::string(1, static_cast<char>(c));
    }
    Bad("unknown reference");
  }
  Node Element() {
    if (At() != '<') Bad("element expected");
    ++p_;
    Node n;
    n.tag = XName();
    while (true) {
      Space();
      if (At() == '/') {
        ++p_;
        if (At() != '>') Bad("> expected");
        ++p_;
        return n;
      }
      if (At() == '>') {
        ++p_;
        break;
      }
      std::string key = XName();
      Space();
      if (At() != '=') Bad("= expected");
      ++p_;
      Space();
      const char q = At();
      if (q != '"' && q != '\'') Bad("quote expected");
      ++p_;
      std::string v;
      while (At() != q) {
        if (At() == '<') Bad("< in attribute");
        if (At() == '&') {
          ++p_;
          v += Ref();
        } else if (At() == '\n' || At() == '\t' || At() == '\r') {  // normalized by a parser
          v += ' ';
          ++p_;
        } else {
          v += s_[p_++];
        }
      }
      ++p_;
      for (const auto& [k, old] : n.attr) if (k == key) Bad("attribute " + key + " twice");
      n.attr.emplace_back(key, v);
    }
    std::string text;
    while (true) {
      if (At() == '<') {
        if (p_ + 1 < s_.size() && s_[p_ + 1] == '/') {
          p_ += 2;
          const auto end = XName();
          if (end != n.tag) Bad("end tag " + end + " of " + n.tag);
          Space();
          if (At() != '>') Bad("> expected");
          ++p_;
          break;
        }
        n.sub.push_back(Element());
      } else if (At() == '&') {
        ++p_;
        text += Ref();
      } else if (At() == '\r') {
        text += '\n';
        ++p_;
        if (At() == '\n') ++p_;
      } else {
        if (s_.compare(p_, 3, "]]>") == 0) Bad("]]> in text");
        if (static_cast<unsigned char>(At()) < 32 && At() != '\n' && At() != '\t') Bad("control character");
        text += s_[p_++];
      }
    }
    n.text = Trim(text);
    if (!n.sub.empty() && !n.text.empty()) Bad("text beside elements in " + n.tag);
    return n;
  }
};

std::string Escape(vp::Gen& g, const std::string& s, char quote) {
  std::string r;
  const bool cdata = quote == 0 && s.find("]]>") == s.npos && s.find('\r') == s.npos && g.Chance(1, 4);
  if (cdata) return "<![CDATA[" + s + "]]>";
  const bool often = g.Chance(1, 4);
  for (const char c : s) {
    const auto u = static_cast<unsigned char>(c);
    const bool must = c == '<' || c == '&' || c == '\r' || (c == '>' && quote == 0) || (quote != 0 && (c == quote || c == '\n' || c == '\t'));
    if (u < 128 && (must || (often && g.Chance(1, 3)))) {
      if (g.Bool()) {
        switch (c) {
          case '<': r += "&lt;"; continue;
          case '>': r += "&gt;"; continue;
          case '&': r += "&amp;"; continue;
          case '"': r += "&quot;"; continue;
          case '\'': r += "&apos;"; continue;
          default: break;
        }
      }
      char b[16];
      snprintf(b, sizeof b, g.Bool() ? "&#%d;" : "&#x%X;", u);
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}
void Ws(vp::Gen& g, std::string& o, bool one = false) {
  static const char* kWs[] = {"", "\n", "  ", "\r\n", "\t"};
  const std::string w = kWs[g.Draw(4)];
  o += one && w.empty() ? " " : w;
}
void Between(vp::Gen& g, std::string& o) {
  Ws(g, o);
  if (g.Chance(1, 10)) o += "<!-- <TX>no</TX> & -->";
  if (g.Chance(1, 20)) o += "<?app data?>";
  Ws(g, o);
}
void Render(vp::Gen& g, const Node& n, std::string& o) {
  o += "<" + n.tag;
  auto attr = n.attr;
  for (size_t i = attr.size(); i > 1; --i) std::swap(attr[i - 1], attr[g.Draw(i - 1)]);
  for (const auto& [k, v] : attr) {
    Ws(g, o, true);
    o += k;
    Ws(g, o);
    o += "=";
    Ws(g, o);
    const char q = g.Bool() ? '\'' : '"';
    o += q + Escape(g, v, q) + q;
  }
  Ws(g, o);
  if (n.sub.empty() && n.text.empty() && g.Bool()) {
    o += "/>";
    return;
  }
  o += ">";
  if (n.sub.empty()) {
    Ws(g, o);
    if (!n.text.empty()) o += Escape(g, n.text, 0);
    Ws(g, o);
  } else {
    for (const auto& s : n.sub) {
      Between(g, o);
      Render(g, s, o);
    }
    Between(g, o);
  }
  o += "</" + n.tag;
  Ws(g, o);
  o += ">";
}

void Direct(vp::Gen& g) {
  model::NoLog();
  const auto& k = Kinds()[g.Draw(Kinds().size() - 1)];
  auto c = k.make();
  k.gen(g, *c);
  const std::string xml = c->ToXml();
  g.Label(k.name);
  g.Note() << xml.substr(0, 400);
  if (xml.empty()) vp::Fail("no XML");
  if (xml.size() > 60) g.Nontrivial();
  Lookup(*c, *c, "", false);

  auto read = k.make();
  read->FromXml(xml);
  Compare(k, *c, *read, "read from its XML");
  Lookup(*read, *read, "", false);
  const std::string again = read->ToXml();
  auto read2 = k.make();
  read2->FromXml(again);
  Compare(k, *c, *read2, "read from the XML of the object read");

  const Node n = Parser(xml).Document();
  std::string other;
  if (g.Chance(1, 3)) other = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  Render(g, n, other);
  if (g.Chance(1, 3)) other += "\n";
  auto read3 = k.make();
  read3->FromXml(other);
  try {
    Compare(k, *c, *read3, "read from another rendering of its XML");
  } catch (...) {
    g.Note() << "\nrendering: " << other;
    throw;
  }
}

void File(vp::Gen& g) {
  model::NoLog();
  Io store(g.Chance(1, 6), "c12.mf4");
  std::map<std::string, std::unique_ptr<MdComment>> have;
  auto kind = [](const std::string& name) -> const Kind& {
    for (const auto& k : Kinds()) if (k.name == name) return k;
    vp::Fail("kind");
  };
  auto gen = [&](const std::string& name, const std::string& key) -> MdComment* {
    if (g.Chance(1, 6)) return nullptr;
    const auto& k = kind(name);
    auto c = k.make();
    k.gen(g, *c);
    g.Label(name);
    auto* p = c.get();
    have[key] = std::move(c);
    g.Nontrivial();
    return p;
  };
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
    if (!store.Init(*w)) vp::Fail("Init");
    auto* hd = w->Header();
    if (auto* c = gen("HD", "HD")) hd->SetHdComment(static_cast<HdComment&>(*c));
    auto* fh = hd->CreateFileHistory();
    if (auto* c = gen("FH", "FH")) fh->SetFhComment(static_cast<FhComment&>(*c));
    auto* at = hd->CreateAttachment();
    at->FileName("none.txt");
    if (auto* c = gen("AT", "AT")) at->SetAtComment(static_cast<AtComment&>(*c));
    auto* ev = hd->CreateEvent();
    ev->Name("event");
    if (auto* c = gen("EV", "EV")) ev->SetEvComment(static_cast<EvComment&>(*c));
    auto* ch = hd->CreateChannelHierarchy();
    ch->Name("hierarchy");
    if (auto* c = gen("CH", "CH")) ch->SetChComment(static_cast<ChComment&>(*c));
    auto* dg = hd->CreateDataGroup();
    if (auto* c = gen("DG", "DG")) dg->SetDgComment(static_cast<DgComment&>(*c));
    auto* cg = dg->CreateChannelGroup();
    cg->Name("group");
    if (auto* c = gen("CG", "CG")) cg->SetCgComment(static_cast<CgComment&>(*c));
    auto* si = cg->CreateSourceInformation();
    si->Name("source");
    if (auto* c = gen("SI", "SI")) si->SetSiComment(static_cast<SiComment&>(*c));
    auto* t = cg->CreateChannel();
    t->Name("t");
    t->Type(ChannelType::Master);
    t->Sync(ChannelSyncType::Time);
    t->DataType(ChannelDataType::FloatLe);
    t->DataBytes(8);
    const size_t n = 1 + g.Draw(2);
    for (size_t i = 0; i < n; ++i) {
      const auto id = std::to_string(i);
      auto* cn = cg->CreateChannel();
      cn->Name("c" + id);
      cn->DataType(ChannelDataType::UnsignedIntegerLe);
      cn->DataBytes(2);
      if (auto* c = gen("CN", "CN" + id)) cn->SetCnComment(static_cast<CnComment&>(*c));
      if (auto* c = gen("CN unit", "CNU" + id)) cn->SetCnUnit(static_cast<CnUnit&>(*c));
      if (g.Bool()) {
        auto* s = cn->CreateSourceInformation();
        s->Name("s");
        if (auto* c = gen("SI", "CNSI" + id)) s->SetSiComment(static_cast<SiComment&>(*c));
      }
      if (g.Bool()) {
        auto* cc = cn->CreateChannelConversion();
        cc->Type(ConversionType::Linear);
        cc->Parameter(0, 1.0);
        cc->Parameter(1, 2.0);
        if (auto* c = gen("CC", "CC" + id)) cc->SetCcComment(static_cast<CcComment&>(*c));
        if (auto* c = gen("CC unit", "CCU" + id)) cc->SetCcUnit(static_cast<CcUnit&>(*c));
      }
    }
    if (!w->InitMeasurement()) vp::Fail("InitMeasurement");
    w->StartMeasurement(1000000000);
    w->StopMeasurement(2000000000);
    if (!w->FinalizeMeasurement()) vp::Fail("FinalizeMeasurement");
  }
  auto r = store.Reader();
  if (!r->ReadEverythingButData()) vp::Fail("the file is not readable");
  auto check = [&](const std::string& name, const std::string& key, auto get) {
    const auto& k = kind(name);
    const auto i = have.find(key);
    if (i == have.end()) return;
    auto c = k.make();
    get(*c);
    Compare(k, *i->second, *c, "read from the file (" + key + ")");
  };
  const auto* hd = r->GetHeader();
  check("HD", "HD", [&](MdComment& c) { hd->GetHdComment(static_cast<HdComment&>(c)); });
  const auto fh = hd->FileHistories();
  if (fh.empty() || hd->Attachments().size() != 1 || hd->Events().size() != 1 || hd->ChannelHierarchies().size() != 1 ||
      hd->DataGroups().size() != 1)
    vp::Fail("objects are missing in the file");
  // The history entry of this test is the first one
  check("FH", "FH", [&](MdComment& c) { fh[0]->GetFhComment(static_cast<FhComment&>(c)); });
  check("AT", "AT", [&](MdComment& c) { hd->Attachments()[0]->GetAtComment(static_cast<AtComment&>(c)); });
  check("EV", "EV", [&](MdComment& c) { hd->Events()[0]->GetEvComment(static_cast<EvComment&>(c)); });
  check("CH", "CH", [&](MdComment& c) { hd->ChannelHierarchies()[0]->GetChComment(static_cast<ChComment&>(c)); });
  const auto* dg = hd->DataGroups()[0];
  check("DG", "DG", [&](MdComment& c) { dg->GetDgComment(static_cast<DgComment&>(c)); });
  const auto* cg = dg->ChannelGroups().at(0);
  check("CG", "CG", [&](MdComment& c) { cg->GetCgComment(static_cast<CgComment&>(c)); });
  check("SI", "SI", [&](MdComment& c) { cg->SourceInformation()->GetSiComment(static_cast<SiComment&>(c)); });
  for (const auto* cn : cg->Channels()) {
    const auto id = cn->Name().substr(1);
    if (id.empty()) continue;
    check("CN", "CN" + id, [&](MdComment& c) { cn->GetCnComment(static_cast<CnComment&>(c)); });
    check("CN unit", "CNU" + id, [&](MdComment& c) { cn->GetCnUnit(static_cast<CnUnit&>(c)); });
    if (have.count("CNSI" + id)) {
      if (cn->SourceInformation() == nullptr) vp::Fail("source information of the channel is missing");
      check("SI", "CNSI" + id, [&](MdComment& c) { cn->SourceInformation()->GetSiComment(static_cast<SiComment&>(c)); });
    }
    if (have.count("CC" + id) || have.count("CCU" + id)) {
      const auto* cc = cn->ChannelConversion();
      if (cc == nullptr) vp::Fail("conversion is missing");
      check("CC", "CC" + id, [&](MdComment& c) { cc->GetCcComment(static_cast<CcComment&>(c)); });
      check("CC unit", "CCU" + id, [&](MdComment& c) { cc->GetCcUnit(static_cast<CcUnit&>(c)); });
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C12";
  p.assumptions = {
      "texts have no leading or trailing white space and no control characters other than tab, line feed and carriage return",
      "only parts that the class stores are set (the header and history comments have no names and no formula; a formula has "
      "a syntax); a hexadecimal integer is read as an integer",
      "numbers of the magnitude 1E-300 and above or 0"};
  p.subs = {
      {"direct", 25000, 600000, Direct, "the XML has more than the empty comment", 3, 60, false},
      {"file", 2000, 40000, File, "at least one comment is stored", 3, 60, false},
  };
  return vp::Main(argc, argv, p);
}
