// C20: the exported functions of mdflibrary and their wrapper classes against the C++ library.
// Every operation is done twice: through the wrappers (which call the exported functions) on the objects of a
// writer A, and with the C++ library on the objects of a writer B. A is then dumped through the wrappers
// and through C++, B through C++: the three dumps have to be the same, in memory and after reading the files.
#include <cmath>
#include <cstdio>
#include <cstring>
#include <filesystem>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <mdflibrary/CanMessage.h>
#include <mdflibrary/LinMessage.h>
#include <mdflibrary/MdfAttachment.h>
#include <mdflibrary/MdfChannel.h>
#include <mdflibrary/MdfChannelConversion.h>
#include <mdflibrary/MdfChannelGroup.h>
#include <mdflibrary/MdfChannelObserver.h>
#include <mdflibrary/MdfDataGroup.h>
#include <mdflibrary/MdfETag.h>
#include <mdflibrary/MdfEvent.h>
#include <mdflibrary/MdfFile.h>
#include <mdflibrary/MdfFileHistory.h>
#include <mdflibrary/MdfHeader.h>
#include <mdflibrary/MdfMetaData.h>
#include <mdflibrary/MdfReader.h>
#include <mdflibrary/MdfSourceInformation.h>
#include <mdflibrary/MdfWriter.h>

#include "common/io.h"
#include "common/model.h"
#include "mdf/canmessage.h"
#include "mdf/etag.h"
#include "mdf/iattachment.h"
#include "mdf/ichannel.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelgroup.h"
#include "mdf/ichannelobserver.h"
#include "mdf/idatagroup.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/iheader.h"
#include "mdf/isourceinformation.h"
#include "mdf/linmessage.h"
#include "mdf/mdffactory.h"
#include "mdf/mdffile.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"

namespace L = MdfLibrary;

// Exported functions without a declaration in MdfExport.h.
extern "C" {
int64_t MdfChannelArrayGetIndex(mdf::IChannelArray*);
uint8_t MdfChannelArrayGetType(mdf::IChannelArray*);
void MdfChannelArraySetType(mdf::IChannelArray*, mdf::ArrayType);
uint8_t MdfChannelArrayGetStorage(mdf::IChannelArray*);
void MdfChannelArraySetStorage(mdf::IChannelArray*, mdf::ArrayStorage);
uint32_t MdfChannelArrayGetFlags(mdf::IChannelArray*);
void MdfChannelArraySetFlags(mdf::IChannelArray*, uint32_t);
size_t MdfChannelArrayGetDimensions(mdf::IChannelArray*);
size_t MdfChannelArrayGetShape(mdf::IChannelArray*, uint64_t*);
void MdfChannelArraySetShape(mdf::IChannelArray*, uint64_t*, size_t);
uint64_t MdfChannelArrayGetDimensionSize(mdf::IChannelArray*, size_t);
size_t MdfChannelArrayGetAxisValues(mdf::IChannelArray*, double*);
size_t MdfChannelArrayGetCycleCounts(mdf::IChannelArray*, uint64_t*);
uint64_t MdfChannelArrayGetNofArrayValues(mdf::IChannelArray*);
size_t MdfChannelArrayGetDimensionAsString(mdf::IChannelArray*, char*);
void MdfChannelArrayResizeArrays(mdf::IChannelArray*);
}

namespace {

using Ids = std::map<const void*, std::string>;

struct Out {
  const Ids* ids = nullptr;
  std::vector<std::string> lines;
  void Raw(const std::string& name, const std::string& text) { lines.push_back(name + " = " + text); }
  void Put(const std::string& name, const std::string& v) { Raw(name, vp::Quote(v, 100000)); }
  void Put(const std::string& name, const char* v) { Raw(name, v); }
  void Put(const std::string& name, double v) {
    char t[64];
    snprintf(t, sizeof(t), "%a", v);
    Raw(name, std::isnan(v) ? "nan" : t);
  }
  void Put(const std::string& name, float v) { Put(name, static_cast<double>(v)); }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>>
  void Put(const std::string& name, T v) {
    if constexpr (std::is_signed_v<T>) Raw(name, std::to_string(static_cast<int64_t>(v)));
    else Raw(name, std::to_string(static_cast<uint64_t>(v)));
  }
  void Bytes(const std::string& name, const std::vector<uint8_t>& v) {
    Raw(name, "[" + std::to_string(v.size()) + "]" + vp::Hex(v, 100000));
  }
  void Link(const std::string& name, const void* p) {
    if (p == nullptr) return Raw(name, "none");
    auto it = ids->find(p);
    Raw(name, it == ids->end() ? "unknown object" : it->second);
  }
};

void Same(const Out& expected, const Out& got, const std::string& what) {
  for (size_t i = 0; i < expected.lines.size() || i < got.lines.size(); ++i) {
    const std::string e = i < expected.lines.size() ? expected.lines[i] : "(nothing)";
    const std::string a = i < got.lines.size() ? got.lines[i] : "(nothing)";
    if (e != a) vp::Fail(what + ": C++ " + e + " | C interface " + a);
  }
}

// Calls an exported text function as a C program does.
template <typename F>
std::string Text(F f) {
  const size_t size = f(nullptr);
  std::unique_ptr<char[]> buffer(new char[size + 1]);
  memset(buffer.get(), 'x', size + 1);
  const size_t again = f(buffer.get());
  if (again != size) vp::Fail("text function returns " + std::to_string(size) + ", then " + std::to_string(again));
  if (memchr(buffer.get(), 0, size + 1) == nullptr) vp::Fail("text function: no terminator");
  return std::string(buffer.get());
}
template <typename T, typename F>
std::vector<T> List(F f) {
  const size_t size = f(nullptr);
  std::vector<T> list(size);
  if (size > 0) {
    const size_t again = f(list.data());
    if (again != size) vp::Fail("list function returns " + std::to_string(size) + ", then " + std::to_string(again));
  }
  return list;
}
template <typename F>
bool Null(F f) {
  try {
    f();
  } catch (const std::runtime_error&) {
    return true;
  }
  return false;
}

#define GET(n) o.Put(p + #n, w.Get##n())
#define CPP(n, f) o.Put(p + #n, x->f())

// ------------------------------------------------------------------ meta data
void DumpC(Out& o, const std::string& p, L::MdfETag& w) {
  GET(Name); GET(Description); GET(Unit); GET(UnitRef); GET(Type); GET(DataType); GET(Language); GET(ReadOnly);
  GET(ValueAsString); GET(ValueAsFloat); GET(ValueAsBoolean); GET(ValueAsSigned); GET(ValueAsUnsigned);
}
void DumpX(Out& o, const std::string& p, const mdf::ETag* x) {
  CPP(Name, Name); CPP(Description, Description); CPP(Unit, Unit); CPP(UnitRef, UnitRef); CPP(Type, Type);
  CPP(DataType, DataType); CPP(Language, Language); CPP(ReadOnly, ReadOnly);
  o.Put(p + "ValueAsString", x->Value<std::string>());
  o.Put(p + "ValueAsFloat", x->Value<double>());
  o.Put(p + "ValueAsBoolean", x->Value<bool>());
  o.Put(p + "ValueAsSigned", x->Value<int64_t>());
  o.Put(p + "ValueAsUnsigned", x->Value<uint64_t>());
}
const std::vector<std::string> kProperty = {"TX", "alfa", "beta", "gamma"};
template <typename F>
void DumpMetaC(Out& o, const std::string& p, F get) {
  if (Null(get)) return o.Put(p + "MetaData", "none");
  L::MdfMetaData w = get();
  for (const auto& n : kProperty) {
    o.Put(p + "meta." + n, w.GetPropertyAsString(n.c_str()));
    o.Put(p + "meta.f." + n, w.GetPropertyAsFloat(n.c_str()));
  }
  auto all = w.GetProperties();
  o.Put(p + "meta.size", all.size());
  for (auto& t : all) {
    DumpC(o, p + "meta.tag.", t);
    L::ExportFunctions::MdfETagUnInit(t.GetETag());
  }
  auto common = w.GetCommonProperties();
  o.Put(p + "meta.common", common.size());
  for (auto& t : common) {
    DumpC(o, p + "meta.common.", t);
    L::ExportFunctions::MdfETagUnInit(t.GetETag());
  }
  o.Put(p + "meta.xml", w.GetXmlSnippet());
}
void DumpMetaX(Out& o, const std::string& p, const mdf::IMetaData* x) {
  if (x == nullptr) return o.Put(p + "MetaData", "none");
  for (const auto& n : kProperty) {
    o.Put(p + "meta." + n, x->StringProperty(n));
    o.Put(p + "meta.f." + n, x->FloatProperty(n));
  }
  auto all = x->Properties();
  o.Put(p + "meta.size", all.size());
  for (auto& t : all) DumpX(o, p + "meta.tag.", &t);
  auto common = x->CommonProperties();
  o.Put(p + "meta.common", common.size());
  for (auto& t : common) DumpX(o, p + "meta.common.", &t);
  o.Put(p + "meta.xml", x->XmlSnippet());
}

// --------------------------------------------------------------------- source
template <typename F>
void DumpSourceC(Out& o, const std::string& p, F get) {
  if (Null(get)) return o.Put(p + "none", "none");
  const L::MdfSourceInformation w = get();
  GET(Index); GET(Name); GET(Description); GET(Path); GET(Type); GET(Bus); GET(Flags);
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
}
void DumpSourceX(Out& o, const std::string& p, const mdf::ISourceInformation* x) {
  if (x == nullptr) return o.Put(p + "none", "none");
  CPP(Index, Index); CPP(Name, Name); CPP(Description, Description); CPP(Path, Path); CPP(Type, Type); CPP(Bus, Bus);
  CPP(Flags, Flags);
  DumpMetaX(o, p, x->MetaData());
}

// ----------------------------------------------------------------- conversion
void DumpConvC(Out& o, const std::string& p, mdf::IChannelConversion* raw, int depth = 0) {
  L::MdfChannelConversion w(raw);
  GET(Index); GET(Name); GET(Description); GET(Unit); GET(Type); GET(Flags);
  o.Put(p + "IsPrecisionUsed", w.IsPrecisionUsed());
  GET(Precision);
  o.Put(p + "IsRangeUsed", w.IsRangeUsed());
  if (w.IsRangeUsed()) {
    GET(RangeMin);
    GET(RangeMax);
  }
  o.Put(p + "Formula", Text([&](char* b) { return L::ExportFunctions::MdfChannelConversionGetFormula(raw, b); }));
  const auto n = static_cast<uint16_t>(L::ExportFunctions::MdfChannelConversionGetNofParameters(raw, 0));
  o.Put(p + "NofParameters", n);
  for (uint16_t i = 0; i < n; ++i) {
    o.Put(p + "par" + std::to_string(i), w.GetParameter(i));
    o.Put(p + "upar" + std::to_string(i), w.GetParameterUint(i));
  }
  for (uint16_t i = 0; i < 5; ++i) {
    o.Put(p + "ref" + std::to_string(i), w.GetReference(i));
    o.Put(p + "cref" + std::to_string(i),
          Text([&](char* b) { return L::ExportFunctions::MdfChannelConversionGetReference(raw, i, b); }));
  }
  DumpMetaC(o, p, [&] { return w.GetMetadata(); });
  const bool none = Null([&] { return w.GetInverse(); });
  o.Put(p + "inverse", none ? "none" : "some");
  if (!none && depth < 1)
    DumpConvC(o, p + "inv.", const_cast<mdf::IChannelConversion*>(L::ExportFunctions::MdfChannelConversionGetInverse(raw)),
              depth + 1);
}
void DumpConvX(Out& o, const std::string& p, const mdf::IChannelConversion* x, int depth = 0) {
  CPP(Index, Index); CPP(Name, Name); CPP(Description, Description); CPP(Unit, Unit); CPP(Type, Type); CPP(Flags, Flags);
  o.Put(p + "IsPrecisionUsed", x->IsDecimalUsed());
  CPP(Precision, Decimals);
  o.Put(p + "IsRangeUsed", x->Range().has_value());
  if (x->Range()) {
    o.Put(p + "RangeMin", x->Range()->first);
    o.Put(p + "RangeMax", x->Range()->second);
  }
  CPP(Formula, Formula);
  o.Put(p + "NofParameters", x->NofParameters());
  for (uint16_t i = 0; i < x->NofParameters(); ++i) {
    o.Put(p + "par" + std::to_string(i), x->Parameter(i));
    o.Put(p + "upar" + std::to_string(i), x->ParameterUint(i));
  }
  for (uint16_t i = 0; i < 5; ++i) {
    o.Put(p + "ref" + std::to_string(i), x->Reference(i));
    o.Put(p + "cref" + std::to_string(i), x->Reference(i));
  }
  DumpMetaX(o, p, x->MetaData());
  o.Put(p + "inverse", x->Inverse() == nullptr ? "none" : "some");
  if (x->Inverse() != nullptr && depth < 1) DumpConvX(o, p + "inv.", x->Inverse(), depth + 1);
}

// ---------------------------------------------------------------------- array
void DumpArrayC(Out& o, const std::string& p, mdf::IChannelArray* a) {
  o.Put(p + "Index", MdfChannelArrayGetIndex(a));
  o.Put(p + "Type", MdfChannelArrayGetType(a));
  o.Put(p + "Storage", MdfChannelArrayGetStorage(a));
  o.Put(p + "Flags", MdfChannelArrayGetFlags(a));
  const size_t n = MdfChannelArrayGetDimensions(a);
  o.Put(p + "Dimensions", n);
  for (uint64_t s : List<uint64_t>([&](uint64_t* b) { return MdfChannelArrayGetShape(a, b); })) o.Put(p + "Shape", s);
  for (size_t i = 0; i < n; ++i) o.Put(p + "DimensionSize", MdfChannelArrayGetDimensionSize(a, i));
  for (double s : List<double>([&](double* b) { return MdfChannelArrayGetAxisValues(a, b); })) o.Put(p + "Axis", s);
  for (uint64_t s : List<uint64_t>([&](uint64_t* b) { return MdfChannelArrayGetCycleCounts(a, b); })) o.Put(p + "Cycle", s);
  o.Put(p + "NofArrayValues", MdfChannelArrayGetNofArrayValues(a));
  o.Put(p + "Text", Text([&](char* b) { return MdfChannelArrayGetDimensionAsString(a, b); }));
}
void DumpArrayX(Out& o, const std::string& p, const mdf::IChannelArray* a) {
  o.Put(p + "Index", a->Index());
  o.Put(p + "Type", a->Type());
  o.Put(p + "Storage", a->Storage());
  o.Put(p + "Flags", a->Flags());
  o.Put(p + "Dimensions", a->Dimensions());
  for (uint64_t s : a->Shape()) o.Put(p + "Shape", s);
  for (size_t i = 0; i < a->Dimensions(); ++i) o.Put(p + "DimensionSize", a->DimensionSize(i));
  for (double s : a->AxisValues()) o.Put(p + "Axis", s);
  for (uint64_t s : a->CycleCounts()) o.Put(p + "Cycle", s);
  o.Put(p + "NofArrayValues", a->NofArrayValues());
  o.Put(p + "Text", a->DimensionAsString());
}

// -------------------------------------------------------------------- channel
void DumpC(Out& o, const std::string& p, mdf::IChannel* raw, int depth = 0) {
  L::MdfChannel w(raw);
  o.Link(p + "self", w.GetChannel());
  GET(Index); GET(Name); GET(DisplayName); GET(Description);
  o.Put(p + "IsUnitUsed", w.IsUnitUsed());
  GET(Unit); GET(Type); GET(Sync); GET(DataType); GET(Flags); GET(DataBytes);
  o.Put(p + "IsPrecisionUsed", w.IsPrecisionUsed());
  GET(Precision);
  o.Put(p + "IsRangeUsed", w.IsRangeUsed());
  if (w.IsRangeUsed()) {
    GET(RangeMin);
    GET(RangeMax);
  }
  o.Put(p + "IsLimitUsed", w.IsLimitUsed());
  if (w.IsLimitUsed()) {
    GET(LimitMin);
    GET(LimitMax);
  }
  o.Put(p + "IsExtLimitUsed", w.IsExtLimitUsed());
  if (w.IsExtLimitUsed()) {
    GET(ExtLimitMin);
    GET(ExtLimitMax);
  }
  GET(SamplingRate); GET(VlsdRecordId); GET(BitCount); GET(BitOffset);
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
  DumpSourceC(o, p + "si.", [&] { return w.GetSourceInformation(); });
  const bool none = Null([&] { return w.GetChannelConversion(); });
  o.Put(p + "cc", none ? "none" : "some");
  if (!none)
    DumpConvC(o, p + "cc.", const_cast<mdf::IChannelConversion*>(L::ExportFunctions::MdfChannelGetChannelConversion(raw)));
  auto* array = const_cast<mdf::IChannelArray*>(L::ExportFunctions::MdfChannelGetChannelArray(raw));
  o.Put(p + "ca", array == nullptr ? "none" : "some");
  if (array != nullptr) DumpArrayC(o, p + "ca.", array);
  const auto list = w.GetChannelCompositions();
  o.Put(p + "compositions", list.size());
  if (depth < 3)
    for (const auto& c : list) DumpC(o, p + "sub.", c.GetChannel(), depth + 1);
}
void DumpX(Out& o, const std::string& p, const mdf::IChannel* x, int depth = 0) {
  o.Link(p + "self", x);
  CPP(Index, Index); CPP(Name, Name); CPP(DisplayName, DisplayName); CPP(Description, Description);
  o.Put(p + "IsUnitUsed", x->IsUnitValid());
  CPP(Unit, Unit); CPP(Type, Type); CPP(Sync, Sync); CPP(DataType, DataType); CPP(Flags, Flags); CPP(DataBytes, DataBytes);
  o.Put(p + "IsPrecisionUsed", x->IsDecimalUsed());
  CPP(Precision, Decimals);
  o.Put(p + "IsRangeUsed", x->Range().has_value());
  if (x->Range()) {
    o.Put(p + "RangeMin", x->Range()->first);
    o.Put(p + "RangeMax", x->Range()->second);
  }
  o.Put(p + "IsLimitUsed", x->Limit().has_value());
  if (x->Limit()) {
    o.Put(p + "LimitMin", x->Limit()->first);
    o.Put(p + "LimitMax", x->Limit()->second);
  }
  o.Put(p + "IsExtLimitUsed", x->ExtLimit().has_value());
  if (x->ExtLimit()) {
    o.Put(p + "ExtLimitMin", x->ExtLimit()->first);
    o.Put(p + "ExtLimitMax", x->ExtLimit()->second);
  }
  CPP(SamplingRate, SamplingRate); CPP(VlsdRecordId, VlsdRecordId); CPP(BitCount, BitCount); CPP(BitOffset, BitOffset);
  DumpMetaX(o, p, x->MetaData());
  DumpSourceX(o, p + "si.", x->SourceInformation());
  o.Put(p + "cc", x->ChannelConversion() == nullptr ? "none" : "some");
  if (x->ChannelConversion() != nullptr) DumpConvX(o, p + "cc.", x->ChannelConversion());
  const auto* array = x->ChannelArray(0);
  o.Put(p + "ca", array == nullptr ? "none" : "some");
  if (array != nullptr) DumpArrayX(o, p + "ca.", array);
  const auto list = const_cast<mdf::IChannel*>(x)->ChannelCompositions();
  o.Put(p + "compositions", list.size());
  if (depth < 3)
    for (const auto* c : list) DumpX(o, p + "sub.", c, depth + 1);
}

// --------------------------------------------------------------------- groups
void DumpC(Out& o, const std::string& p, mdf::IChannelGroup* raw) {
  L::MdfChannelGroup w(raw);
  o.Link(p + "self", w.GetChannelGroup());
  GET(Index); GET(RecordId); GET(Name); GET(Description); GET(NofSamples); GET(Flags);
  o.Put(p + "PathSeparator", static_cast<uint32_t>(w.GetPathSeparator()));
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
  DumpSourceC(o, p + "si.", [&] { return w.GetSourceInformation(); });
  const auto list = w.GetChannels();
  o.Put(p + "channels", list.size());
  for (const auto& c : list) {
    DumpC(o, p + "cn.", c.GetChannel());
    o.Link(p + "x", L::ExportFunctions::MdfChannelGroupGetXChannel(raw, c.GetChannel()));
    o.Put(p + "no x", Null([&] { return w.GetXChannel(c); }));
  }
}
void DumpX(Out& o, const std::string& p, const mdf::IChannelGroup* x) {
  o.Link(p + "self", x);
  CPP(Index, Index); CPP(RecordId, RecordId); CPP(Name, Name); CPP(Description, Description); CPP(NofSamples, NofSamples);
  CPP(Flags, Flags);
  o.Put(p + "PathSeparator", static_cast<uint32_t>(x->PathSeparator()));
  DumpMetaX(o, p, x->MetaData());
  DumpSourceX(o, p + "si.", x->SourceInformation());
  const auto list = x->Channels();
  o.Put(p + "channels", list.size());
  for (const auto* c : list) {
    DumpX(o, p + "cn.", c);
    o.Link(p + "x", x->GetXChannel(*c));
    o.Put(p + "no x", x->GetXChannel(*c) == nullptr);
  }
}
void DumpC(Out& o, const std::string& p, mdf::IDataGroup* raw) {
  L::MdfDataGroup w(raw);
  o.Link(p + "self", w.GetDataGroup());
  GET(Index); GET(Description); GET(RecordIdSize);
  o.Put(p + "IsRead", w.IsRead());
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
  const auto list = w.GetChannelGroups();
  o.Put(p + "groups", list.size());
  for (const auto& c : list) {
    DumpC(o, p + "cg.", c.GetChannelGroup());
    o.Link(p + "by id", L::ExportFunctions::MdfDataGroupGetChannelGroupByRecordId(raw, c.GetRecordId()));
    if (!Null([&] { return w.GetChannelGroup(c.GetRecordId()); }))
      o.Link(p + "by id ", w.GetChannelGroup(c.GetRecordId()).GetChannelGroup());
    if (!c.GetName().empty() && !Null([&] { return w.GetChannelGroup(c.GetName()); }))
      o.Link(p + "by name", w.GetChannelGroup(c.GetName()).GetChannelGroup());
    for (const auto& ch : c.GetChannels()) o.Link(p + "parent", w.FindParentChannelGroup(ch).GetChannelGroup());
  }
}
void DumpX(Out& o, const std::string& p, const mdf::IDataGroup* x) {
  o.Link(p + "self", x);
  CPP(Index, Index); CPP(Description, Description); CPP(RecordIdSize, RecordIdSize); CPP(IsRead, IsRead);
  DumpMetaX(o, p, x->MetaData());
  const auto list = x->ChannelGroups();
  o.Put(p + "groups", list.size());
  for (const auto* c : list) {
    DumpX(o, p + "cg.", c);
    o.Link(p + "by id", x->GetChannelGroup(c->RecordId()));
    if (x->GetChannelGroup(c->RecordId()) != nullptr) o.Link(p + "by id ", x->GetChannelGroup(c->RecordId()));
    if (!c->Name().empty() && x->GetChannelGroup(c->Name()) != nullptr) o.Link(p + "by name", x->GetChannelGroup(c->Name()));
    for (const auto* ch : c->Channels()) o.Link(p + "parent", x->FindParentChannelGroup(*ch));
  }
}

// --------------------------------------------------------------- other blocks
void DumpC(Out& o, const std::string& p, mdf::IAttachment* raw) {
  L::MdfAttachment w(raw);
  o.Link(p + "self", w.GetAttachment());
  GET(Index); GET(CreatorIndex); GET(Embedded); GET(Compressed); GET(FileName); GET(FileType);
  o.Put(p + "Md5", w.GetMd5());
  o.Put(p + "HasMd5", L::ExportFunctions::MdfAttachmentGetMd5(raw, nullptr));
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
}
void DumpX(Out& o, const std::string& p, const mdf::IAttachment* x) {
  o.Link(p + "self", x);
  CPP(Index, Index); CPP(CreatorIndex, CreatorIndex); CPP(Embedded, IsEmbedded); CPP(Compressed, IsCompressed);
  CPP(FileName, FileName); CPP(FileType, FileType);
  o.Put(p + "Md5", x->Md5().value_or(""));
  o.Put(p + "HasMd5", x->Md5().has_value());
  DumpMetaX(o, p, x->MetaData());
}
void DumpC(Out& o, const std::string& p, mdf::IFileHistory* raw) {
  L::MdfFileHistory w(raw);
  GET(Index); GET(Time); GET(Description); GET(ToolName); GET(ToolVendor); GET(ToolVersion); GET(UserName);
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
}
void DumpX(Out& o, const std::string& p, const mdf::IFileHistory* x) {
  CPP(Index, Index); CPP(Time, Time); CPP(Description, Description); CPP(ToolName, ToolName); CPP(ToolVendor, ToolVendor);
  CPP(ToolVersion, ToolVersion); CPP(UserName, UserName);
  DumpMetaX(o, p, x->MetaData());
}
void DumpC(Out& o, const std::string& p, mdf::IEvent* raw) {
  L::MdfEvent w(raw);
  o.Link(p + "self", raw);
  GET(Index); GET(Name); GET(Description); GET(GroupName); GET(Type); GET(Sync); GET(Range); GET(Cause); GET(CreatorIndex);
  GET(SyncValue); GET(PreTrig); GET(PostTrig);
  o.Put(p + "SyncFactor", L::ExportFunctions::MdfEventGetSyncFactor(raw));
  o.Link(p + "parent", L::ExportFunctions::MdfEventGetParentEvent(raw));
  o.Link(p + "range", L::ExportFunctions::MdfEventGetRangeEvent(raw));
  o.Put(p + "parent name", Null([&] { return w.GetParentEvent(); }) ? std::string() : w.GetParentEvent().GetName());
  o.Put(p + "range name", Null([&] { return w.GetRangeEvent(); }) ? std::string() : w.GetRangeEvent().GetName());
  for (const auto& a : w.GetAttachments()) o.Link(p + "attachment", a.GetAttachment());
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
}
void DumpX(Out& o, const std::string& p, const mdf::IEvent* x) {
  o.Link(p + "self", x);
  CPP(Index, Index); CPP(Name, Name); CPP(Description, Description); CPP(GroupName, GroupName); CPP(Type, Type);
  CPP(Sync, Sync); CPP(Range, Range); CPP(Cause, Cause);
  o.Put(p + "CreatorIndex", static_cast<int64_t>(x->CreatorIndex()));
  CPP(SyncValue, SyncValue); CPP(PreTrig, PreTrig); CPP(PostTrig, PostTrig); CPP(SyncFactor, SyncFactor);
  o.Link(p + "parent", x->ParentEvent());
  o.Link(p + "range", x->RangeEvent());
  o.Put(p + "parent name", x->ParentEvent() == nullptr ? std::string() : x->ParentEvent()->Name());
  o.Put(p + "range name", x->RangeEvent() == nullptr ? std::string() : x->RangeEvent()->Name());
  for (const auto* a : x->Attachments()) o.Link(p + "attachment", a);
  DumpMetaX(o, p, x->MetaData());
}
void DumpC(Out& o, const std::string& p, mdf::IHeader* raw) {
  L::MdfHeader w(raw);
  GET(Index); GET(Description); GET(Author); GET(Department); GET(Project); GET(Subject); GET(MeasurementId);
  GET(RecorderId); GET(RecorderIndex); GET(StartTime);
  o.Put(p + "IsStartAngleUsed", w.IsStartAngleUsed());
  GET(StartAngle);
  o.Put(p + "IsStartDistanceUsed", w.IsStartDistanceUsed());
  GET(StartDistance);
  DumpMetaC(o, p, [&] { return w.GetMetaData(); });
  const auto at = w.GetAttachments();
  o.Put(p + "attachments", at.size());
  for (const auto& a : at) DumpC(o, p + "at.", a.GetAttachment());
  using namespace L::ExportFunctions;
  const auto fh = List<mdf::IFileHistory*>([&](mdf::IFileHistory** b) { return MdfHeaderGetFileHistorys(raw, b); });
  o.Put(p + "histories", fh.size());
  for (auto* a : fh) DumpC(o, p + "fh.", a);
  for (const auto& a : w.GetFileHistorys()) o.Put(p + "fh index", a.GetIndex());
  const auto ev = List<mdf::IEvent*>([&](mdf::IEvent** b) { return MdfHeaderGetEvents(raw, b); });
  o.Put(p + "events", ev.size());
  for (auto* a : ev) DumpC(o, p + "ev.", a);
  for (const auto& a : w.GetEvents()) o.Put(p + "ev name", a.GetName());
  const auto dg = w.GetDataGroups();
  o.Put(p + "groups", dg.size());
  for (const auto& a : dg) DumpC(o, p + "dg.", a.GetDataGroup());
  o.Link(p + "last", dg.empty() ? nullptr : w.GetLastDataGroup().GetDataGroup());
}
void DumpX(Out& o, const std::string& p, const mdf::IHeader* x) {
  CPP(Index, Index); CPP(Description, Description); CPP(Author, Author); CPP(Department, Department); CPP(Project, Project);
  CPP(Subject, Subject); CPP(MeasurementId, MeasurementId); CPP(RecorderId, RecorderId); CPP(RecorderIndex, RecorderIndex);
  CPP(StartTime, StartTime);
  o.Put(p + "IsStartAngleUsed", x->StartAngle().has_value());
  o.Put(p + "StartAngle", x->StartAngle().value_or(0));
  o.Put(p + "IsStartDistanceUsed", x->StartDistance().has_value());
  o.Put(p + "StartDistance", x->StartDistance().value_or(0));
  DumpMetaX(o, p, x->MetaData());
  const auto at = x->Attachments();
  o.Put(p + "attachments", at.size());
  for (const auto* a : at) DumpX(o, p + "at.", a);
  const auto fh = x->FileHistories();
  o.Put(p + "histories", fh.size());
  for (const auto* a : fh) DumpX(o, p + "fh.", a);
  for (const auto* a : fh) o.Put(p + "fh index", a->Index());
  const auto ev = x->Events();
  o.Put(p + "events", ev.size());
  for (const auto* a : ev) DumpX(o, p + "ev.", a);
  for (const auto* a : ev) o.Put(p + "ev name", a->Name());
  const auto dg = x->DataGroups();
  o.Put(p + "groups", dg.size());
  for (const auto* a : dg) DumpX(o, p + "dg.", a);
  o.Link(p + "last", dg.empty() ? nullptr : x->LastDataGroup());
}
void DumpC(Out& o, const std::string& p, mdf::MdfFile* raw) {
  L::MdfFile w(raw);
  GET(Name); GET(Version); GET(MainVersion); GET(MinorVersion); GET(ProgramId);
  o.Put(p + "Mdf4", w.GetIsMdf4());
  uint16_t standard = 7, custom = 7;
  o.Put(p + "Finalized", w.GetFinalized(standard, custom));
  o.Put(p + "Standard", standard);
  o.Put(p + "Custom", custom);
  for (const auto& a : w.GetAttachments()) o.Link(p + "attachment", a.GetAttachment());
  for (const auto& a : w.GetDataGroups()) o.Link(p + "group", a.GetDataGroup());
  o.Put(p + "header", w.GetHeader().GetIndex());
}
void DumpX(Out& o, const std::string& p, const mdf::MdfFile* x) {
  CPP(Name, Name); CPP(Version, Version); CPP(MainVersion, MainVersion); CPP(MinorVersion, MinorVersion);
  CPP(ProgramId, ProgramId); CPP(Mdf4, IsMdf4);
  uint16_t standard = 7, custom = 7;
  o.Put(p + "Finalized", x->IsFinalized(standard, custom));
  o.Put(p + "Standard", standard);
  o.Put(p + "Custom", custom);
  mdf::AttachmentList at;
  x->Attachments(at);
  for (const auto* a : at) o.Link(p + "attachment", a);
  mdf::DataGroupList dg;
  x->DataGroups(dg);
  for (const auto* a : dg) o.Link(p + "group", a);
  o.Put(p + "header", x->Header()->Index());
}

void Number(Ids& ids, mdf::IHeader* h) {
  auto add = [&](const void* p, const char* kind) {
    if (ids.count(p) == 0) ids[p] = kind + std::to_string(ids.size());
  };
  std::function<void(mdf::IChannel*)> channel = [&](mdf::IChannel* c) {
    add(c, "cn");
    for (auto* s : c->ChannelCompositions()) channel(s);
  };
  for (auto* a : h->Attachments()) add(a, "at");
  for (auto* a : h->Events()) add(a, "ev");
  for (auto* d : h->DataGroups()) {
    add(d, "dg");
    for (auto* c : d->ChannelGroups()) {
      add(c, "cg");
      for (auto* n : c->Channels()) channel(n);
    }
  }
}

void Compare(mdf::MdfFile* fa, mdf::MdfFile* fb, mdf::IHeader* a, mdf::IHeader* b, const std::string& what) {
  Ids ida, idb;
  Number(ida, a);
  Number(idb, b);
  Out ac, ax, bx;
  ac.ids = ax.ids = &ida;
  bx.ids = &idb;
  DumpC(ac, "file.", fa);
  DumpC(ac, "", a);
  DumpX(ax, "file.", fa);
  DumpX(ax, "", a);
  DumpX(bx, "file.", fb);
  DumpX(bx, "", b);
  Same(ax, ac, what + ", read");
  Same(bx, ax, what + ", set");
}

// -------------------------------------------------------------------- setters
std::string Str(vp::Gen& g) { return g.Chance(1, 6) ? g.Ascii(g.Chance(1, 8) ? 400 : 60) : g.Text(12); }
double Dbl(vp::Gen& g) { return g.Chance(1, 3) ? g.InterestingDouble() : static_cast<double>(g.Int(-1000, 100000)) / 8; }

#define SETS(n, f)                \
  if (g.Bool()) {                 \
    const std::string v = Str(g); \
    w.Set##n(v.c_str());          \
    b->f(v);                      \
  }
#define SETV(n, f, value) \
  if (g.Bool()) {         \
    const auto v = value; \
    w.Set##n(v);          \
    b->f(v);              \
  }
#define SETE(n, f, E, max)                            \
  if (g.Bool()) {                                     \
    const auto v = static_cast<uint8_t>(g.Draw(max)); \
    w.Set##n(static_cast<L::E>(v));                   \
    b->f(static_cast<mdf::E>(v));                     \
  }

void SetTag(vp::Gen& g, L::MdfETag& w, mdf::ETag* b) {
  SETS(Name, Name); SETS(Description, Description); SETS(Unit, Unit); SETS(UnitRef, UnitRef); SETS(Type, Type);
  SETE(DataType, DataType, ETagDataType, 8);
  SETS(Language, Language);
  SETV(ReadOnly, ReadOnly, g.Bool());
  switch (g.Draw(5)) {
    case 0: break;
    case 1: {
      const std::string v = Str(g);
      w.SetValueAsString(v.c_str());
      b->Value(v);
      break;
    }
    case 2: {
      const double v = static_cast<double>(g.Int(-100000, 100000)) / 4;
      w.SetValueAsFloat(v);
      b->Value(v);
      break;
    }
    case 3: {
      const bool v = g.Bool();
      w.SetValueAsBoolean(v);
      b->Value(v);
      break;
    }
    case 4: {
      const int64_t v = g.InterestingSigned(64);
      w.SetValueAsSigned(v);
      b->Value(v);
      break;
    }
    default: {
      const uint64_t v = g.InterestingUnsigned(64);
      w.SetValueAsUnsigned(v);
      b->Value(v);
    }
  }
}
void SetMeta(vp::Gen& g, L::MdfMetaData w, mdf::IMetaData* b) {
  if (b == nullptr) return;
  const size_t n = g.Draw(3);
  for (size_t i = 0; i < n; ++i) {
    const auto& name = g.Pick(kProperty);
    switch (g.Draw(3)) {
      case 0: {
        const std::string v = Str(g);
        w.SetPropertyAsString(name.c_str(), v.c_str());
        b->StringProperty(name, v);
        break;
      }
      case 1: {
        const double v = static_cast<double>(g.Int(-100000, 100000)) / 4;
        w.SetPropertyAsFloat(name.c_str(), v);
        b->FloatProperty(name, v);
        break;
      }
      case 2: {
        L::MdfETag tag;
        mdf::ETag copy;
        const std::string id = g.Ident(5);
        tag.SetName(id.c_str());
        copy.Name(id);
        SetTag(g, tag, &copy);
        w.AddCommonProperty(tag);
        b->CommonProperty(copy);
        break;
      }
      default: {
        std::vector<L::MdfETag> list;
        std::vector<mdf::ETag> copies(g.Draw(3));
        for (auto& c : copies) {
          list.emplace_back();
          SetTag(g, list.back(), &c);
        }
        const size_t count = list.size();
        w.SetCommonProperties(std::move(list), count);
        b->CommonProperties(copies);
      }
    }
  }
}
void SetSource(vp::Gen& g, L::MdfSourceInformation w, mdf::ISourceInformation* b) {
  SETS(Name, Name); SETS(Description, Description); SETS(Path, Path);
  SETE(Type, Type, SourceType, 5); SETE(Bus, Bus, BusType, 8);
  SETV(Flags, Flags, static_cast<uint8_t>(g.Draw(255)));
  if (g.Chance(1, 4)) SetMeta(g, w.CreateMetaData(), b->CreateMetaData());
}
void SetConv(vp::Gen& g, mdf::IChannelConversion* a, mdf::IChannelConversion* b, bool mdf4, bool text, int depth = 0) {
  L::MdfChannelConversion w(a);
  SETS(Name, Name); SETS(Description, Description); SETS(Unit, Unit);
  const uint8_t type = text ? g.Pick({255, 9, 10}) : mdf4 ? g.Pick({255, 0, 1, 2, 4, 5, 6, 7, 8}) : g.Pick({255, 0, 1, 2, 6, 9, 10, 11, 12});
  w.SetType(static_cast<L::ConversionType>(type));
  b->Type(static_cast<mdf::ConversionType>(type));
  const size_t par = g.Draw(7);
  for (size_t i = 0; i < par; ++i) {
    const auto index = static_cast<uint16_t>(g.Chance(1, 8) ? g.Draw(12) : i);
    if (g.Chance(1, 6)) {
      const uint64_t v = g.InterestingUnsigned(64);
      w.SetParameter(index, v);
      b->ParameterUint(index, v);
    } else {
      const double v = Dbl(g);
      w.SetParameter(index, v);
      b->Parameter(index, v);
    }
  }
  if (type == 3 || g.Chance(1, 8)) {
    const std::string v = Str(g);
    L::ExportFunctions::MdfChannelConversionSetFormula(a, v.c_str());
    b->Formula(v);
  }
  if (mdf4) {
    const size_t ref = g.Draw(4);
    for (size_t i = 0; i < ref; ++i) {
      const std::string v = Str(g);
      w.SetReference(static_cast<uint16_t>(i), v.c_str());
      b->Reference(static_cast<uint16_t>(i), v);
    }
    if (g.Chance(1, 3)) {
      const double lo = Dbl(g), hi = Dbl(g);
      w.SetRange(lo, hi);
      b->Range(lo, hi);
    }
    if (g.Chance(1, 4))
      SetMeta(g, L::MdfMetaData(L::ExportFunctions::MdfChannelConversionCreateMetaData(a)), b->CreateMetaData());
    if (depth == 0 && g.Chance(1, 6)) {
      w.CreateInverse();
      SetConv(g, const_cast<mdf::IChannelConversion*>(L::ExportFunctions::MdfChannelConversionGetInverse(a)),
              b->CreateInverse(), mdf4, text, 1);
    }
  }
}

struct Chan {
  mdf::IChannel* a;
  mdf::IChannel* b;
  int kind;  // 0 unsigned 1 signed 2 float 3 text 4 bytes
  uint64_t array = 1;
  uint64_t bytes = 0;
};
struct Group {
  mdf::IChannelGroup* a;
  mdf::IChannelGroup* b;
  mdf::IDataGroup* da;
  mdf::IDataGroup* db;
  std::vector<Chan> channels;
};

void SetChannel(vp::Gen& g, L::MdfChannel w, mdf::IChannel* b, Chan& c, bool mdf4, bool master) {
  const std::string name = g.Chance(1, 6) ? Str(g) : g.Ident(8);
  w.SetName(name.c_str());
  b->Name(name);
  SETS(DisplayName, DisplayName); SETS(Description, Description); SETS(Unit, Unit);
  uint8_t type = 0, data = 0;
  uint64_t bytes = 0;
  if (master) {
    type = 2, data = 4, bytes = 8, c.kind = 2;
    w.SetSync(L::ChannelSyncType::Time);
    b->Sync(mdf::ChannelSyncType::Time);
  } else {
    c.kind = static_cast<int>(g.Draw(4));
    const bool big = g.Chance(1, 4);
    switch (c.kind) {
      case 0: data = big ? 1 : 0; bytes = g.Pick({1, 2, 4, 8}); break;
      case 1: data = big ? 3 : 2; bytes = g.Pick({1, 2, 4, 8}); break;
      case 2: data = big ? 5 : 4; bytes = g.Pick({4, 8}); break;
      case 3:
        data = mdf4 ? 7 : 6, bytes = 1 + g.Draw(20);
        if (mdf4 && g.Bool()) type = 1, bytes = 0;
        break;
      default:
        data = 10, bytes = 1 + g.Draw(12);
        if (mdf4 && g.Bool()) type = 1, bytes = 0;
    }
    SETE(Sync, Sync, ChannelSyncType, 0);
  }
  w.SetType(static_cast<L::ChannelType>(type));
  b->Type(static_cast<mdf::ChannelType>(type));
  w.SetDataType(static_cast<L::ChannelDataType>(data));
  b->DataType(static_cast<mdf::ChannelDataType>(data));
  w.SetDataBytes(bytes);
  b->DataBytes(bytes);
  c.bytes = bytes;
  if (mdf4 && type != 1 && c.kind < 3 && g.Chance(1, 3)) {
    const uint32_t flags = 2;  // invalid bit
    w.SetFlags(flags);
    b->Flags(flags);
  }
  if (g.Chance(1, 3)) {
    const double lo = Dbl(g), hi = Dbl(g);
    w.SetRange(lo, hi);
    b->Range(lo, hi);
  }
  if (g.Chance(1, 3)) {
    const double lo = Dbl(g), hi = Dbl(g);
    w.SetLimit(lo, hi);
    b->Limit(lo, hi);
  }
  if (g.Chance(1, 3)) {
    const double lo = Dbl(g), hi = Dbl(g);
    w.SetExtLimit(lo, hi);
    b->ExtLimit(lo, hi);
  }
  if (mdf4 && g.Chance(1, 4)) SetMeta(g, w.CreateMetaData(), b->CreateMetaData());
  if (mdf4 && g.Chance(1, 4)) SetSource(g, w.CreateSourceInformation(), b->CreateSourceInformation());
  if (g.Chance(1, 3)) {
    w.CreateChannelConversion();
    auto* cb = b->CreateChannelConversion();
    auto* ca = const_cast<mdf::IChannelConversion*>(L::ExportFunctions::MdfChannelGetChannelConversion(w.GetChannel()));
    SetConv(g, ca, cb, mdf4, c.kind == 3);
  }
  if (mdf4 && !master && type == 0 && c.kind < 3 && g.Chance(1, 5)) {
    auto* aa = L::ExportFunctions::MdfChannelCreateChannelArray(w.GetChannel());
    auto* ab = b->CreateChannelArray();
    std::vector<uint64_t> shape(1 + g.Draw(2));
    for (auto& s : shape) s = 1 + g.Draw(3);
    const auto at = static_cast<mdf::ArrayType>(g.Draw(4));
    MdfChannelArraySetType(aa, at);
    ab->Type(at);
    const auto flags = static_cast<uint32_t>(g.Draw(1) << 1 | (g.Bool() ? 0x40 : 0));
    MdfChannelArraySetFlags(aa, flags);
    ab->Flags(flags);
    MdfChannelArraySetShape(aa, shape.data(), shape.size());
    ab->Shape(shape);
    MdfChannelArrayResizeArrays(aa);
    ab->ResizeArrays();
    c.array = ab->NofArrayValues();
  }
}
void SetChannelGroup(vp::Gen& g, L::MdfChannelGroup w, mdf::IChannelGroup* b, bool mdf4) {
  const std::string name = g.Chance(1, 6) ? Str(g) : g.Ident(6);
  w.SetName(name.c_str());
  b->Name(name);
  SETS(Description, Description);
  if (mdf4) {
    if (g.Bool()) {
      const auto v = g.Pick({0x2E, 0x2F, 0x20AC});
      w.SetPathSeparator(static_cast<wchar_t>(v));
      b->PathSeparator(static_cast<char16_t>(v));
    }
    SETV(Flags, Flags, static_cast<uint16_t>(g.Pick({0, 2, 4, 6})));
    if (g.Chance(1, 4)) SetMeta(g, w.CreateMetaData(), b->CreateMetaData());
    if (g.Chance(1, 4)) SetSource(g, w.CreateSourceInformation(), b->CreateSourceInformation());
  }
}
std::string kAttached;
void SetHeader(vp::Gen& g, L::MdfHeader w, mdf::IHeader* b, mdf::IHeader* a, bool mdf4) {
  SETS(Description, Description); SETS(Author, Author); SETS(Department, Department); SETS(Project, Project);
  SETS(Subject, Subject); SETS(MeasurementId, MeasurementId); SETS(RecorderId, RecorderId);
  SETV(RecorderIndex, RecorderIndex, g.Int(0, 1000000));
  const uint64_t start = 1600000000000000000 + g.Draw(1000000000000000);
  w.SetStartTime(start);
  b->StartTime(start);
  SETV(StartAngle, StartAngle, Dbl(g));
  SETV(StartDistance, StartDistance, Dbl(g));
  if (!mdf4) return;
  if (g.Chance(1, 4)) SetMeta(g, w.CreateMetaData(), b->CreateMetaData());
  const size_t nat = g.Draw(2);
  for (size_t i = 0; i < nat; ++i) {
    auto wa = w.CreateAttachment();
    auto* ba = b->CreateAttachment();
    auto set = [&](L::MdfAttachment w, mdf::IAttachment* b) {
      SETV(CreatorIndex, CreatorIndex, static_cast<uint16_t>(g.Draw(65535)));
      SETV(Embedded, IsEmbedded, g.Bool());
      SETV(Compressed, IsCompressed, g.Bool());
      w.SetFileName(kAttached.c_str());
      b->FileName(kAttached);
      SETS(FileType, FileType);
      if (g.Chance(1, 4)) SetMeta(g, w.CreateMetaData(), b->CreateMetaData());
    };
    set(wa, ba);
  }
  const size_t nfh = g.Draw(2);
  for (size_t i = 0; i < nfh; ++i) {
    auto set = [&](L::MdfFileHistory w, mdf::IFileHistory* b) {
      const uint64_t t = 1600000000000000000 + g.Draw(1000000000000);
      w.SetTime(t);
      b->Time(t);
      SETS(Description, Description); SETS(ToolName, ToolName); SETS(ToolVendor, ToolVendor);
      SETS(ToolVersion, ToolVersion); SETS(UserName, UserName);
    };
    set(w.CreateFileHistory(), b->CreateFileHistory());
  }
  const size_t nev = g.Draw(3);
  for (size_t i = 0; i < nev; ++i) {
    auto set = [&](L::MdfEvent w, mdf::IEvent* b) {
      SETS(Name, Name); SETS(Description, Description); SETS(GroupName, GroupName);
      SETE(Type, Type, EventType, 6);
      if (g.Bool()) {
        const auto v = static_cast<uint8_t>(1 + g.Draw(3));
        w.SetSync(static_cast<L::SyncType>(v));
        b->Sync(static_cast<mdf::SyncType>(v));
      }
      SETE(Range, Range, RangeType, 2); SETE(Cause, Cause, EventCause, 4);
      SETV(CreatorIndex, CreatorIndex, g.Int(0, 65535));
      SETV(SyncValue, SyncValue, g.InterestingSigned(64));
      SETV(SyncFactor, SyncFactor, Dbl(g));
      SETV(PreTrig, PreTrig, static_cast<double>(g.Int(0, 1000)) / 4);
      SETV(PostTrig, PostTrig, static_cast<double>(g.Int(0, 1000)) / 4);
    };
    auto wa = w.CreateEvent();
    auto* bb = b->CreateEvent();
    set(wa, bb);
    const auto ea = a->Events();
    const auto eb = b->Events();
    if (ea.size() == eb.size() && ea.size() > 1) {
      if (g.Bool()) {
        const size_t k = g.Draw(ea.size() - 2);
        wa.SetParentEvent(L::MdfEvent(ea[k]));
        bb->ParentEvent(eb[k]);
      }
      if (g.Bool()) {
        const size_t k = g.Draw(ea.size() - 2);
        wa.SetRangeEvent(L::MdfEvent(ea[k]));
        bb->RangeEvent(eb[k]);
      }
    }
    const auto aa = a->Attachments();
    const auto ab = b->Attachments();
    if (aa.size() == ab.size())
      for (size_t k = 0; k < aa.size(); ++k)
        if (g.Bool()) {
          wa.AddAttachment(L::MdfAttachment(aa[k]));
          bb->AddAttachment(ab[k]);
        }
  }
}

// --------------------------------------------------------------------- values
void SetValue(vp::Gen& g, Chan& c) {
  using namespace L::ExportFunctions;
  L::MdfChannel w(c.a);
  for (uint64_t i = 0; i < c.array; ++i) {
    const bool valid = !g.Chance(1, 5);
    const auto how = g.Draw(1);  // wrapper or exported function
    switch (c.kind) {
      case 0: {
        const uint64_t v = g.InterestingUnsigned(static_cast<unsigned>(8 * c.bytes));
        if (how == 0 && c.array == 1) w.SetChannelValue(v, valid);
        else MdfChannelSetChannelValueAsUnSigned(c.a, v, valid, i);
        c.b->SetChannelValue(v, valid, i);
        break;
      }
      case 1: {
        const int64_t v = g.InterestingSigned(static_cast<unsigned>(8 * c.bytes));
        if (how == 0 && c.array == 1) w.SetChannelValue(v, valid);
        else MdfChannelSetChannelValueAsSigned(c.a, v, valid, i);
        c.b->SetChannelValue(v, valid, i);
        break;
      }
      case 2: {
        const double v = static_cast<double>(g.Int(0, 1000000)) / 16;
        if (how == 0 && c.array == 1) w.SetChannelValue(v, valid);
        else MdfChannelSetChannelValueAsFloat(c.a, v, valid, i);
        c.b->SetChannelValue(v, valid, i);
        break;
      }
      case 3: {
        const std::string v = g.Text(g.Chance(1, 6) ? 300 : 16);
        if (how == 0 && c.array == 1) w.SetChannelValue(v.c_str(), valid);
        else MdfChannelSetChannelValueAsString(c.a, v.c_str(), valid, i);
        c.b->SetChannelValue(v, valid, i);
        break;
      }
      default: {
        const auto v = g.Bytes(c.bytes != 0 ? g.Draw(c.bytes) : g.Size(300));
        if (how == 0 && c.array == 1) w.SetChannelValue(v.data(), v.size(), valid);
        else MdfChannelSetChannelValueAsArray(c.a, v.data(), v.size(), valid, i);
        c.b->SetChannelValue(v, valid, i);
      }
    }
  }
}

// The exported text and byte functions with buffers of every size.
void Buffers(vp::Gen& g, mdf::IChannelObserver* raw, uint64_t sample) {
  using namespace L::ExportFunctions;
  for (int eng = 0; eng < 2; ++eng) {
    std::string text;
    const bool valid = eng ? raw->GetEngValue(sample, text) : raw->GetChannelValue(sample, text);
    const size_t capacity = g.Draw(text.size() + 9);
    std::unique_ptr<char[]> buffer(new char[capacity + 1]);
    memset(buffer.get(), 0x5A, capacity + 1);
    size_t size = capacity;
    const bool got = eng ? MdfChannelObserverGetEngValueAsString(raw, sample, buffer.get(), size)
                         : MdfChannelObserverGetChannelValueAsString(raw, sample, buffer.get(), size);
    vp::CheckEq(valid, got, "validity of a text value");
    vp::CheckEq(text.size(), size, "size of a text value");
    if (capacity > text.size()) vp::CheckEq(std::string(text.c_str()), std::string(buffer.get()), "text value");
    vp::CheckEq('\x5A', buffer[capacity], "byte behind the buffer of a text");
    std::vector<uint8_t> bytes;
    const bool bvalid = raw->GetChannelValue(sample, bytes);
    const size_t room = g.Draw(bytes.size() + 40);
    std::unique_ptr<uint8_t[]> data(new uint8_t[room + 1]);
    memset(data.get(), 0x5A, room + 1);
    size = room;
    const bool bgot = eng ? MdfChannelObserverGetEngValueAsArray(raw, sample, data.get(), size)
                          : MdfChannelObserverGetChannelValueAsArray(raw, sample, data.get(), size);
    vp::CheckEq(bvalid, bgot, "validity of a byte array");
    vp::CheckEq(bytes.size(), size, "size of a byte array");
    if (room >= bytes.size()) {
      vp::Check(bytes.empty() || memcmp(bytes.data(), data.get(), bytes.size()) == 0, "byte array value");
      for (size_t i = bytes.size(); i <= room; ++i) vp::CheckEq(0x5A, static_cast<int>(data[i]), "byte behind a byte array");
    } else {
      vp::CheckEq(0x5A, static_cast<int>(data[room]), "byte behind the buffer of a byte array");
    }
  }
}
void DumpC(Out& o, const std::string& p, const L::MdfChannelObserver& w) {
  GET(NofSamples); GET(Name); GET(Unit);
  o.Link(p + "channel", w.GetChannel().GetChannel());
  o.Put(p + "IsMaster", w.IsMaster());
  const auto n = static_cast<uint64_t>(w.GetNofSamples());
  for (uint64_t s = 0; s < n; ++s) {
    const std::string q = p + std::to_string(s) + ".";
    for (int eng = 0; eng < 2; ++eng) {
      int64_t i = 0;
      uint64_t u = 0;
      double d = 0;
      std::string t;
      std::vector<uint8_t> v;
      o.Put(q + "i", eng ? w.GetEngValue(s, i) : w.GetChannelValue(s, i));
      o.Put(q + "i", i);
      o.Put(q + "u", eng ? w.GetEngValue(s, u) : w.GetChannelValue(s, u));
      o.Put(q + "u", u);
      o.Put(q + "d", eng ? w.GetEngValue(s, d) : w.GetChannelValue(s, d));
      o.Put(q + "d", d);
      o.Put(q + "t", eng ? w.GetEngValue(s, t) : w.GetChannelValue(s, t));
      o.Put(q + "t", std::string(t.c_str()));
      o.Put(q + "v", eng ? w.GetEngValue(s, v) : w.GetChannelValue(s, v));
      o.Bytes(q + "v", v);
    }
  }
}
void DumpX(Out& o, const std::string& p, const mdf::IChannelObserver* x) {
  CPP(NofSamples, NofSamples); CPP(Name, Name); CPP(Unit, Unit);
  o.Link(p + "channel", &x->Channel());
  o.Put(p + "IsMaster", x->IsMaster());
  for (uint64_t s = 0; s < x->NofSamples(); ++s) {
    const std::string q = p + std::to_string(s) + ".";
    for (int eng = 0; eng < 2; ++eng) {
      int64_t i = 0;
      uint64_t u = 0;
      double d = 0;
      std::string t;
      std::vector<uint8_t> v;
      o.Put(q + "i", eng ? x->GetEngValue(s, i) : x->GetChannelValue(s, i));
      o.Put(q + "i", i);
      o.Put(q + "u", eng ? x->GetEngValue(s, u) : x->GetChannelValue(s, u));
      o.Put(q + "u", u);
      o.Put(q + "d", eng ? x->GetEngValue(s, d) : x->GetChannelValue(s, d));
      o.Put(q + "d", d);
      o.Put(q + "t", eng ? x->GetEngValue(s, t) : x->GetChannelValue(s, t));
      o.Put(q + "t", std::string(t.c_str()));
      o.Put(q + "v", x->GetChannelValue(s, v));
      o.Bytes(q + "v", v);
    }
  }
}

// Reads file A through the wrappers and both files with the library.
std::string Lower(std::string s) {
  for (auto& c : s)
    if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
  return s;
}

void ReadBoth(vp::Gen& g, const std::string& fa, const std::string& fb, bool samples) {
  L::MdfReader ra(fa.c_str());
  mdf::MdfReader ax(fa), bx(fb);
  vp::CheckEq(ax.IsOk(), ra.IsOk(), "IsOk");
  vp::CheckEq(bx.IsOk(), ra.IsOk(), "IsOk of the other file");
  if (!ax.IsOk()) return;
  const auto how = g.Draw(2);
  auto read = [&](auto& r) { return how == 0 ? r.ReadEverythingButData() : how == 1 ? r.ReadMeasurementInfo() : r.ReadHeader(); };
  if (g.Bool()) vp::Check(ra.Open(), "Open");
  const bool ok = read(ax);
  vp::CheckEq(ok, read(bx), "reading the other file");
  vp::CheckEq(ok, read(ra), "reading");
  if (how != 0) {
    const bool all = ax.ReadEverythingButData();
    vp::CheckEq(all, bx.ReadEverythingButData(), "reading the rest of the other file");
    vp::CheckEq(all, ra.ReadEverythingButData(), "reading the rest");
  }
  auto* header = const_cast<mdf::IHeader*>(ax.GetHeader());
  Compare(const_cast<mdf::MdfFile*>(ax.GetFile()), const_cast<mdf::MdfFile*>(bx.GetFile()), header,
          const_cast<mdf::IHeader*>(bx.GetHeader()), "file");
  // The same through the objects of the C reader.
  const auto ha = ra.GetHeader();
  vp::CheckEq(header->DataGroups().size(), ha.GetDataGroups().size(), "data groups of the reader");
  vp::CheckEq(header->Index(), ha.GetIndex(), "header of the reader");
  vp::CheckEq(ax.GetFile()->Name(), ra.GetFile().GetName(), "file of the reader");
  vp::CheckEq(ax.GetFile()->FileName(), ra.GetFile().GetFileName(), "file name of the reader");
  if (!samples) return;
  auto dga = ha.GetDataGroups();
  for (size_t d = 0; d < dga.size(); ++d) {
    mdf::IDataGroup* ga = dga[d].GetDataGroup();
    vp::Check(ra.GetDataGroup(d).GetDataGroup() == ga, "GetDataGroup(index)");
    mdf::IDataGroup* gx = ax.GetDataGroup(d);
    mdf::IDataGroup* gb = bx.GetDataGroup(d);
    const auto way = g.Draw(2);
    std::vector<L::MdfChannelObserver> oc;
    mdf::ChannelObserverList ox, ob;
    for (auto* cg : gx->ChannelGroups()) mdf::CreateChannelObserverForChannelGroup(*gx, *cg, ox);
    for (auto* cg : gb->ChannelGroups()) mdf::CreateChannelObserverForChannelGroup(*gb, *cg, ob);
    Ids ida, idx, idb;
    size_t id = 0;
    std::map<std::string, int> names;
    for (auto* cg : gx->ChannelGroups())
      for (auto* cn : cg->Channels()) {
        idx[cn] = "cn" + std::to_string(id++);
        ++names[Lower(cn->Name())];  // names are looked up without regard to case
      }
    id = 0;
    for (auto* cg : gb->ChannelGroups())
      for (auto* cn : cg->Channels()) idb[cn] = "cn" + std::to_string(id++);
    id = 0;
    for (const auto& cg : dga[d].GetChannelGroups()) {
      const auto list = cg.GetChannels();
      if (way == 0) {
        for (auto& x : L::MdfCreateChannelObserverForChannelGroup(dga[d], cg)) oc.push_back(std::move(x));
      } else {
        for (const auto& cn : list) {
          const std::string name = cn.GetName();
          if (way == 2 && names[Lower(name)] == 1 && !name.empty() && cg.GetNofSamples() > 0)
            oc.emplace_back(dga[d], name.c_str());
          else oc.emplace_back(dga[d], cg, cn);
        }
      }
      for (const auto& cn : list) ida[cn.GetChannel()] = "cn" + std::to_string(id++);
    }
    const bool rx = ax.ReadData(*gx);
    vp::CheckEq(rx, bx.ReadData(*gb), "ReadData of the other file");
    vp::CheckEq(rx, ra.ReadData(dga[d]), "ReadData");
    vp::CheckEq(gx->IsRead(), dga[d].IsRead(), "IsRead");
    vp::CheckEq(ox.size(), oc.size(), "number of observers");
    for (size_t i = 0; i < ox.size(); ++i) {
      Out c, x, b;
      c.ids = &ida, x.ids = &idx, b.ids = &idb;
      DumpC(c, "observer.", oc[i]);
      DumpX(x, "observer.", ox[i].get());
      DumpX(b, "observer.", ob[i].get());
      Same(x, c, "samples");
      Same(b, x, "samples of the other file");
    }
    // Buffers of any size, through the observers of the library (the handles are the same objects).
    for (auto& x : ox)
      if (x->NofSamples() > 0) Buffers(g, x.get(), g.Draw(x->NofSamples() - 1));
  }
  ra.Close();
}


// Settings of a writer; both are handled alike by the exported functions and the wrapper class.
struct ByFunction {
  mdf::MdfWriter* w;
  explicit ByFunction(int type, const std::string& file)
      : w(L::ExportFunctions::MdfWriterInit(static_cast<L::MdfWriterType>(type), file.c_str())) {
    vp::Check(w != nullptr, "MdfWriterInit");
  }
  ~ByFunction() { L::ExportFunctions::MdfWriterUnInit(w); }
};
template <typename W>
void SetWriter(vp::Gen& g, W& w, mdf::MdfWriter* b, bool bus) {
  SETV(CompressData, CompressData, g.Bool());
  if (!bus) SETV(PreTrigTime, PreTrigTime, static_cast<double>(g.Draw(8)) / 4);
  SETE(StorageType, StorageType, MdfStorageType, 2);
  if (bus || g.Bool()) {
    const auto v = static_cast<uint16_t>(bus ? g.Pick({1, 2, 3}) : g.Pick({0, 1, 2, 4, 8, 16}));
    w.SetBusType(static_cast<L::MdfBusType>(v));
    b->BusType(v);
  }
  SETV(MaxLength, MaxLength, static_cast<uint32_t>(8 + g.Draw(56)));
}
template <typename W>
void SameWriter(const W& w, mdf::MdfWriter* b, const char* when) {
  Out c, x;
  c.Put("compress", w.GetCompressData());
  x.Put("compress", b->CompressData());
  c.Put("pretrig", w.GetPreTrigTime());
  x.Put("pretrig", b->PreTrigTime());
  c.Put("storage", static_cast<int>(w.GetStorageType()));
  x.Put("storage", static_cast<int>(b->StorageType()));
  c.Put("bus", static_cast<uint16_t>(w.GetBusType()));
  x.Put("bus", b->BusType());
  c.Put("max", w.GetMaxLength());
  x.Put("max", b->MaxLength());
  c.Put("start", w.GetStartTime());
  x.Put("start", b->StartTime());
  c.Put("stop", w.GetStopTime());
  x.Put("stop", b->StopTime());
  c.Put("new", w.IsFileNew());
  x.Put("new", b->IsFileNew());
  Same(x, c, std::string("writer ") + when);
}
struct Functions {  // the exported functions with the names of the wrapper class
  mdf::MdfWriter* w;
#define FORWARD(n) \
  auto Get##n() const { return L::ExportFunctions::MdfWriterGet##n(w); } \
  template <typename T> void Set##n(T v) { L::ExportFunctions::MdfWriterSet##n(w, v); }
  FORWARD(CompressData)
  FORWARD(PreTrigTime)
  FORWARD(StorageType)
  FORWARD(BusType)
  FORWARD(MaxLength)
  auto GetStartTime() const { return L::ExportFunctions::MdfWriterGetStartTime(w); }
  auto GetStopTime() const { return L::ExportFunctions::MdfWriterGetStopTime(w); }
  bool IsFileNew() const { return L::ExportFunctions::MdfWriterIsFileNew(w); }
};

void Interface(vp::Gen& g) {
  using namespace L::ExportFunctions;
  model::NoLog();
  const std::string dir = vp::ScratchDir();
  const std::string fa = dir + "/a/m.mf4", fb = dir + "/b/m.mf4";
  std::filesystem::create_directories(dir + "/a");
  std::filesystem::create_directories(dir + "/b");
  std::remove(fa.c_str());
  std::remove(fb.c_str());
  kAttached = dir + "/attached.bin";
  WriteFileBytes(kAttached, g.Bytes(g.Size(200)));
  const int type = static_cast<int>(g.Pick({1, 0, 3}));
  const bool mdf4 = type != 0;
  auto wb = mdf::MdfFactory::CreateMdfWriter(static_cast<mdf::MdfWriterType>(type));
  wb->Init(fb);
  size_t nof_samples = 0;
  {
    ByFunction wa(type, fa);
    Functions settings{wa.w};
    SetWriter(g, settings, wb.get(), false);
    SameWriter(settings, wb.get(), "before");
    auto* ha = MdfWriterGetHeader(wa.w);
    auto* hb = wb->Header();
    vp::Check(ha == wa.w->Header(), "MdfWriterGetHeader");
    auto* file_a = MdfWriterGetFile(wa.w);
    auto* file_b = wb->GetFile();
    vp::Check(file_a == wa.w->GetFile(), "MdfWriterGetFile");
    {
      L::MdfFile w(file_a);
      auto* b = file_b;
      if (g.Bool()) {
        const std::string v = g.Ascii(mdf4 ? 8 : 7);
        w.SetProgramId(v.c_str());
        b->ProgramId(v);
      }
      SETS(Name, Name);
      if (w.GetName() != b->Name() || true) {
        const std::string v = g.Ident(5);
        w.SetName(v.c_str());
        b->Name(v);
      }
      if (mdf4) SETV(MinorVersion, MinorVersion, static_cast<int>(10 + g.Draw(2)));
      vp::CheckEq(file_a->FileName(), w.GetFileName(), "GetFileName");
    }
    SetHeader(g, L::MdfHeader(ha), hb, ha, mdf4);
    std::vector<Group> groups;
    const size_t ndg = 1 + g.Draw(1);
    for (size_t d = 0; d < ndg; ++d) {
      mdf::IDataGroup *da, *db;
      switch (g.Draw(2)) {
        case 0:
          da = MdfWriterCreateDataGroup(wa.w), db = wb->CreateDataGroup();
          break;
        case 1:
          da = L::MdfHeader(ha).CreateDataGroup().GetDataGroup(), db = hb->CreateDataGroup();
          break;
        default:
          da = L::MdfFile(file_a).CreateDataGroup().GetDataGroup(), db = file_b->CreateDataGroup();
      }
      L::MdfDataGroup dw(da);
      if (mdf4 && g.Chance(1, 4)) SetMeta(g, dw.CreateMetaData(), db->CreateMetaData());
      const size_t ncg = 1 + g.Draw(1);
      for (size_t i = 0; i < ncg; ++i) {
        Group group;
        group.da = da, group.db = db;
        L::MdfChannelGroup gw = dw.CreateChannelGroup();
        group.a = gw.GetChannelGroup();
        group.b = db->CreateChannelGroup();
        SetChannelGroup(g, gw, group.b, mdf4);
        const size_t ncn = 1 + g.Draw(3);
        for (size_t n = 0; n < ncn; ++n) {
          Chan ch{};
          L::MdfChannel cw = gw.CreateChannel();
          ch.a = cw.GetChannel();
          ch.b = group.b->CreateChannel();
          SetChannel(g, cw, ch.b, ch, mdf4, n == 0);
          if (n > 0) group.channels.push_back(ch);
        }
        groups.push_back(group);
      }
    }
    Compare(file_a, file_b, ha, hb, "configuration");
    if (g.Chance(1, 8)) {  // values that only live in memory
      auto& gr = groups[g.Draw(groups.size() - 1)];
      L::MdfChannelGroup w(gr.a);
      auto* b = gr.b;
      SETV(NofSamples, NofSamples, g.Draw(1000));
      if (!gr.channels.empty()) {
        L::MdfChannel w(gr.channels[0].a);
        auto* b = gr.channels[0].b;
        SETV(VlsdRecordId, VlsdRecordId, g.Draw(100000));
        SETV(BitCount, BitCount, static_cast<uint32_t>(g.Draw(64)));
        SETV(BitOffset, BitOffset, static_cast<uint16_t>(g.Draw(7)));
        SETE(Sync, Sync, ChannelSyncType, 4);
        SETV(Flags, Flags, static_cast<uint32_t>(g.Draw(0xFFFFFF)));
        auto* aa = const_cast<mdf::IChannelArray*>(L::ExportFunctions::MdfChannelGetChannelArray(gr.channels[0].a));
        auto* ab = b->ChannelArray(0);
        vp::CheckEq(ab == nullptr, aa == nullptr, "ChannelArray");
        if (ab != nullptr) {
          const auto storage = static_cast<mdf::ArrayStorage>(g.Draw(2));
          MdfChannelArraySetStorage(aa, storage);
          ab->Storage(storage);
          MdfChannelArrayResizeArrays(aa);
          ab->ResizeArrays();
        }
        const bool none = Null([&] { return w.CreateChannelComposition(); });
        vp::CheckEq(b->CreateChannelComposition() == nullptr, none, "CreateChannelComposition");
      }
      Compare(file_a, file_b, ha, hb, "memory");
      const std::string other = dir + "/" + g.Ident(8);
      L::MdfFile(file_a).SetFileName(other.c_str());
      vp::CheckEq(other, file_a->FileName(), "SetFileName");
      g.Label("memory");
      return;
    }
    const bool ia = MdfWriterInitMeasurement(wa.w), ib = wb->InitMeasurement();
    vp::CheckEq(ib, ia, "InitMeasurement");
    if (!ib) return;
    const uint64_t start = hb->StartTime();
    const size_t n = type == 0 && groups.size() > 1 ? g.Draw(6) : g.Draw(12);
    bool started = false;
    uint64_t t = start;
    for (size_t i = 0; i < n; ++i) {
      if (!started && (i > 0 || g.Bool()) && g.Chance(2, 3)) {
        MdfWriterStartMeasurement(wa.w, t);
        wb->StartMeasurement(t);
        started = true;
      }
      t += 1 + g.Draw(100000000);
      auto& gr = groups[g.Draw(groups.size() - 1)];
      for (auto& ch : gr.channels) SetValue(g, ch);
      MdfWriterSaveSample(wa.w, gr.a, t);
      wb->SaveSample(*gr.b, t);
      ++nof_samples;
    }
    if (!started) {
      MdfWriterStartMeasurement(wa.w, t);
      wb->StartMeasurement(t);
    }
    t += g.Draw(100000000);
    MdfWriterStopMeasurement(wa.w, t);
    wb->StopMeasurement(t);
    SameWriter(settings, wb.get(), "after");
    vp::CheckEq(wb->FinalizeMeasurement(), MdfWriterFinalizeMeasurement(wa.w), "FinalizeMeasurement");
    vp::CheckEq(wb->IsFileNew(), MdfWriterIsFileNew(wa.w), "IsFileNew after the measurement");
    Compare(file_a, file_b, ha, hb, "after the measurement");
  }
  wb.reset();
  ReadBoth(g, fa, fb, true);
  if (nof_samples > 1) g.Nontrivial();
  g.Label(type == 0 ? "mdf3" : type == 1 ? "mdf4" : "converter");
  g.Note() << "type " << type << " samples " << nof_samples;
}

// ------------------------------------------------------------------- messages
void DumpC(Out& o, const std::string& p, const L::CanMessage& w) {
  GET(MessageId); GET(CanId); GET(ExtendedId); GET(Dlc); GET(DataLength);
  o.Bytes(p + "DataBytes", w.GetDataBytes());
  GET(Dir); GET(Srr); GET(Edl); GET(Brs); GET(Esi); GET(Rtr); GET(WakeUp); GET(SingleWire); GET(BusChannel);
  GET(BitPosition); GET(ErrorType);
}
void DumpX(Out& o, const std::string& p, const mdf::CanMessage* x) {
  CPP(MessageId, MessageId); CPP(CanId, CanId); CPP(ExtendedId, ExtendedId); CPP(Dlc, Dlc); CPP(DataLength, DataLength);
  o.Bytes(p + "DataBytes", x->DataBytes());
  CPP(Dir, Dir); CPP(Srr, Srr); CPP(Edl, Edl); CPP(Brs, Brs); CPP(Esi, Esi); CPP(Rtr, Rtr); CPP(WakeUp, WakeUp);
  CPP(SingleWire, SingleWire); CPP(BusChannel, BusChannel); CPP(BitPosition, BitPosition); CPP(ErrorType, ErrorType);
}
void DumpC(Out& o, const std::string& p, const L::LinMessage& w) {
  GET(LinId); GET(BusChannel); GET(Dir); GET(DataLength); GET(ReceivedDataByteCount);
  o.Bytes(p + "DataBytes", w.GetDataBytes());
  GET(Checksum);
  o.Put(p + "ChecksumModel", static_cast<int>(w.GetChecksumModel()));
  GET(StartOfFrame); GET(Baudrate); GET(ResponseBaudrate); GET(BreakLength);
}
void DumpX(Out& o, const std::string& p, const mdf::LinMessage* x) {
  CPP(LinId, LinId); CPP(BusChannel, BusChannel); CPP(Dir, Dir); CPP(DataLength, DataLength);
  CPP(ReceivedDataByteCount, ReceivedDataByteCount);
  o.Bytes(p + "DataBytes", x->DataBytes());
  CPP(Checksum, Checksum);
  o.Put(p + "ChecksumModel", static_cast<int>(x->ChecksumModel()));
  CPP(StartOfFrame, StartOfFrame); CPP(Baudrate, Baudrate); CPP(ResponseBaudrate, ResponseBaudrate); CPP(BreakLength, BreakLength);
}
void SetCan(vp::Gen& g, L::CanMessage& w, mdf::CanMessage* b) {
  SETV(MessageId, MessageId, static_cast<uint32_t>(g.InterestingUnsigned(32)));
  SETV(ExtendedId, ExtendedId, g.Bool());
  SETV(Dlc, Dlc, static_cast<uint8_t>(g.Draw(15)));
  if (g.Chance(1, 3)) SETV(DataLength, DataLength, static_cast<uint8_t>(g.Draw(64)));
  if (g.Chance(3, 4)) {
    const auto v = g.Bytes(g.Chance(1, 3) ? g.Draw(64) : g.Draw(8));
    if (g.Bool()) w.SetDataBytes(v);
    else w.SetDataBytes(v.data(), v.size());
    b->DataBytes(v);
  }
  SETV(Dir, Dir, g.Bool()); SETV(Srr, Srr, g.Bool()); SETV(Edl, Edl, g.Bool()); SETV(Brs, Brs, g.Bool());
  SETV(Esi, Esi, g.Bool()); SETV(Rtr, Rtr, g.Bool()); SETV(WakeUp, WakeUp, g.Bool()); SETV(SingleWire, SingleWire, g.Bool());
  SETV(BusChannel, BusChannel, static_cast<uint8_t>(g.Draw(255)));
  SETV(BitPosition, BitPosition, static_cast<uint16_t>(g.InterestingUnsigned(16)));
  SETE(ErrorType, ErrorType, CanErrorType, 5);
}
void SetLin(vp::Gen& g, L::LinMessage& w, mdf::LinMessage* b) {
  SETV(LinId, LinId, static_cast<uint8_t>(g.Draw(255)));
  SETV(BusChannel, BusChannel, static_cast<uint8_t>(g.Draw(255)));
  SETV(Dir, Dir, g.Bool());
  SETV(DataLength, DataLength, static_cast<uint8_t>(g.Draw(8)));
  SETV(ReceivedDataByteCount, ReceivedDataByteCount, static_cast<uint8_t>(g.Draw(255)));
  if (g.Chance(3, 4)) {
    const auto v = g.Bytes(g.Draw(8));
    if (g.Bool()) w.SetDataBytes(v);
    else w.SetDataBytes(v.data(), v.size());
    b->DataBytes(v);
  }
  SETV(Checksum, Checksum, static_cast<uint8_t>(g.Draw(255)));
  if (g.Bool()) {
    const auto v = static_cast<int>(g.Draw(2)) - 1;
    w.SetChecksumModel(v);
    b->ChecksumModel(static_cast<mdf::LinChecksumModel>(v));
  }
  SETV(StartOfFrame, StartOfFrame, 1600000000000000000 + g.Draw(1000000000000));
  SETV(Baudrate, Baudrate, static_cast<float>(g.Draw(40000)) / 2);
  SETV(ResponseBaudrate, ResponseBaudrate, static_cast<float>(g.Draw(40000)) / 2);
  SETV(BreakLength, BreakLength, static_cast<uint32_t>(g.InterestingUnsigned(32)));
}

void Bus(vp::Gen& g) {
  model::NoLog();
  const std::string dir = vp::ScratchDir();
  const std::string fa = dir + "/a/m.mf4", fb = dir + "/b/m.mf4";
  std::filesystem::create_directories(dir + "/a");
  std::filesystem::create_directories(dir + "/b");
  std::remove(fa.c_str());
  std::remove(fb.c_str());
  auto wb = mdf::MdfFactory::CreateMdfWriter(mdf::MdfWriterType::MdfBusLogger);
  wb->Init(fb);
  size_t saved = 0;
  {
    L::MdfWriter wa(L::MdfWriterType::MdfBusLogger, fa.c_str());
    SetWriter(g, wa, wb.get(), true);
    if (g.Bool()) {
      const double v = static_cast<double>(g.Draw(8)) / 4;
      wa.SetPreTrigTime(v);
      wb->PreTrigTime(v);
    }
    SameWriter(wa, wb.get(), "before");
    const uint64_t start = 1600000000000000000 + g.Draw(1000000000);
    wa.GetHeader().SetStartTime(start);
    wb->Header()->StartTime(start);
    const std::string id = g.Ident(7);
    wa.GetFile().SetProgramId(id.c_str());
    wb->GetFile()->ProgramId(id);
    vp::CheckEq(wb->CreateBusLogConfiguration(), wa.CreateBusLogConfiguration(), "CreateBusLogConfiguration");
    auto da = wa.GetHeader().GetLastDataGroup();
    auto* db = wb->Header()->LastDataGroup();
    vp::Check(db != nullptr, "no data group");
    const auto la = da.GetChannelGroups();
    const auto lb = db->ChannelGroups();
    vp::CheckEq(lb.size(), la.size(), "number of groups");
    if (g.Chance(1, 4)) {
      auto extra = wa.CreateDataGroup();
      (void)wb->CreateDataGroup();
      vp::CheckEq(wb->Header()->DataGroups().size(), wa.GetHeader().GetDataGroups().size(), "CreateDataGroup");
    }
    vp::CheckEq(wb->InitMeasurement(), wa.InitMeasurement(), "InitMeasurement");
    wa.StartMeasurement(start);
    wb->StartMeasurement(start);
    const size_t n = g.Draw(10);
    uint64_t t = start;
    L::CanMessage can;
    mdf::CanMessage can_b;
    L::LinMessage lin;
    mdf::LinMessage lin_b;
    for (size_t i = 0; i < n; ++i) {
      t += 1 + g.Draw(10000000);
      const size_t k = g.Draw(lb.size() - 1);
      const std::string name = lb[k]->Name();
      vp::CheckEq(name, la[k].GetName(), "group name");
      if ((lb[k]->Flags() & mdf::CgFlag::VlsdChannel) != 0 || name.empty()) continue;
      Out c, x;
      if (name.find("LIN") != std::string::npos) {
        if (g.Chance(1, 4)) {
          lin_b = mdf::LinMessage();
          L::LinMessage fresh;
          SetLin(g, fresh, &lin_b);
          DumpC(c, "lin.", fresh);
          DumpX(x, "lin.", &lin_b);
          wa.SaveLinMessage(la[k], t, fresh);
        } else {
          SetLin(g, lin, &lin_b);
          // the kept object may differ from the fresh one of an earlier round: compare the objects as they are
          mdf::LinMessage copy = *lin.GetLinMessage();
          lin_b = copy;
          SetLin(g, lin, &lin_b);
          DumpC(c, "lin.", lin);
          DumpX(x, "lin.", &lin_b);
          wa.SaveLinMessage(la[k], t, lin);
        }
        Same(x, c, "LIN message");
        wb->SaveLinMessage(*lb[k], t, lin_b);
      } else {
        can_b = *can.GetCanMessage();
        SetCan(g, can, &can_b);
        DumpC(c, "can.", can);
        DumpX(x, "can.", &can_b);
        Same(x, c, "CAN message");
        wa.SaveCanMessage(la[k], t, can);
        wb->SaveCanMessage(*lb[k], t, can_b);
      }
      ++saved;
    }
    wa.StopMeasurement(t + 1);
    wb->StopMeasurement(t + 1);
    SameWriter(wa, wb.get(), "after");
    vp::CheckEq(wb->FinalizeMeasurement(), wa.FinalizeMeasurement(), "FinalizeMeasurement");
  }
  wb.reset();
  ReadBoth(g, fa, fb, true);
  if (saved > 0) g.Nontrivial();
  g.Note() << "messages " << saved;
}

// Tags and messages on their own: many setters in any order.
void Objects(vp::Gen& g) {
  model::NoLog();
  L::MdfETag tag;
  mdf::ETag tag_b;
  L::CanMessage can;
  mdf::CanMessage can_b;
  L::LinMessage lin;
  mdf::LinMessage lin_b;
  const size_t n = 1 + g.Draw(4);
  for (size_t i = 0; i < n; ++i) {
    Out c, x;
    switch (g.Draw(2)) {
      case 0:
        SetTag(g, tag, &tag_b);
        break;
      case 1:
        SetCan(g, can, &can_b);
        break;
      default:
        SetLin(g, lin, &lin_b);
    }
    DumpC(c, "tag.", tag);
    DumpX(x, "tag.", &tag_b);
    DumpC(c, "can.", can);
    DumpX(x, "can.", &can_b);
    DumpX(c, "can.", can.GetCanMessage());
    DumpX(x, "can.", &can_b);
    DumpC(c, "lin.", lin);
    DumpX(x, "lin.", &lin_b);
    Same(x, c, "object");
  }
  L::MdfETag moved_tag(std::move(tag));
  L::CanMessage moved_can(std::move(can));
  L::LinMessage moved_lin(std::move(lin));
  Out c, x;
  DumpC(c, "tag.", moved_tag);
  DumpX(x, "tag.", &tag_b);
  DumpC(c, "can.", moved_can);
  DumpX(x, "can.", &can_b);
  DumpC(c, "lin.", moved_lin);
  DumpX(x, "lin.", &lin_b);
  Same(x, c, "moved object");
  if (n > 1) g.Nontrivial();
  g.Note() << n << " rounds";
}
}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C20";
  p.assumptions = {"texts without NUL characters (C strings)", "handles are valid and of the right kind"};
  p.subs.push_back({"interface", 1600, 40000, Interface, "at least two samples stored"});
  p.subs.push_back({"bus", 1200, 40000, Bus, "at least one message stored"});
  p.subs.push_back({"objects", 20000, 400000, Objects, "at least two rounds of setters"});
  return vp::Main(argc, argv, p);
}
