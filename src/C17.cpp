// C17: damaged or hostile files never crash, hang or exhaust the reader.
#include <malloc.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <filesystem>
#include <new>

#include "common/enc3.h"
#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "mdf/canbusobserver.h"
#include "mdf/canmessage.h"
#include "mdf/atcomment.h"
#include "mdf/cccomment.h"
#include "mdf/cgcomment.h"
#include "mdf/cncomment.h"
#include "mdf/dgcomment.h"
#include "mdf/evcomment.h"
#include "mdf/fhcomment.h"
#include "mdf/hdcomment.h"
#include "mdf/iattachment.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelhierarchy.h"
#include "mdf/ievent.h"
#include "mdf/ifilehistory.h"
#include "mdf/isamplereduction.h"
#include "mdf/isourceinformation.h"
#include "mdf/sicomment.h"
#include "vp.h"

// A small machine: one allocation of more than 64 MB, or more than 512 MB in
// all, fails as it would there.
namespace {
std::atomic<bool> g_limit{false};
std::atomic<int64_t> g_live{0};
constexpr size_t kMaxOne = 4u << 20;
constexpr int64_t kMaxAll = int64_t{128} << 20;
void* Take(size_t n) {
  if (g_limit && (n > kMaxOne || g_live > kMaxAll)) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  g_live += static_cast<int64_t>(malloc_usable_size(p));
  return p;
}
void Give(void* p) {
  if (p == nullptr) return;
  g_live -= static_cast<int64_t>(malloc_usable_size(p));
  std::free(p);
}
}  // namespace
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }

using namespace mdf;

namespace {

using Bytes = std::vector<uint8_t>;

std::string Known(const std::string& type) {
  for (const char* k : {"HD", "MD", "TX", "FH", "CH", "AT", "EV", "DG", "CG", "SI", "CN", "CC", "CA", "DT", "SR", "RD",
                        "SD", "DL", "DZ", "HL", "DV", "DI", "LD", "RV", "RI"})
    if (type == k) return type;
  return "another block";
}

// ---- valid files

int GenCc(vp::Gen& g, enc::Image& im, int depth = 0) {
  const auto type = static_cast<uint8_t>(g.Draw(11));
  const size_t pairs = g.Draw(4);
  std::vector<int> link = {g.Bool() ? im.Text("cc") : -1, g.Bool() ? im.Text("km") : -1, -1, -1};
  std::vector<double> val;
  size_t refs = 0;
  switch (type) {
    case 1: val = {1, 2}; break;
    case 2: val = {1, 2, 3, 4, 5, 6}; break;
    case 3: link.push_back(im.Text("X*2+1")); refs = 1; break;
    case 4: case 5: for (size_t i = 0; i < pairs; ++i) { val.push_back(static_cast<double>(i)); val.push_back(2); } break;
    case 6: for (size_t i = 0; i < pairs; ++i) { val.push_back(static_cast<double>(i)); val.push_back(static_cast<double>(i) + 1); val.push_back(7); } val.push_back(0); break;
    case 7: for (size_t i = 0; i < pairs; ++i) val.push_back(static_cast<double>(i)); refs = pairs + 1; break;
    case 8: for (size_t i = 0; i < pairs; ++i) { val.push_back(static_cast<double>(i)); val.push_back(static_cast<double>(i) + 1); } refs = pairs + 1; break;
    case 9: for (size_t i = 0; i <= pairs; ++i) val.push_back(static_cast<double>(i)); refs = pairs; break;
    case 10: refs = 2 * pairs + 1; break;
    case 11: for (size_t i = 0; i < pairs; ++i) val.push_back(1); refs = pairs; break;
    default: break;
  }
  if (type != 3)
    for (size_t i = 0; i < refs; ++i)
      link.push_back(g.Chance(1, 8) ? -1 : depth < 2 && (type == 7 || type == 8 || type == 11) && g.Chance(1, 4)
                                               ? GenCc(g, im, depth + 1) : im.Text("ref" + std::to_string(i)));
  enc::Out o;
  o.N<uint8_t>(type).N<uint8_t>(2).N<uint16_t>(3).N<uint16_t>(static_cast<uint16_t>(refs));
  o.N<uint16_t>(static_cast<uint16_t>(val.size())).N<double>(0).N<double>(10);
  for (double v : val) o.N<double>(v);
  return im.Add("CC", link, o.b);
}

std::string Xml(vp::Gen& g, const std::string& root) {
  static const std::vector<std::string> parts = {
      "<TX>some text</TX>",
      "<common_properties><e name=\"a\">1</e><tree name=\"t\"><e name=\"b\" type=\"float\">2.5</e></tree>"
      "<list name=\"l\"><li><e name=\"x\">1</e></li></list><elist name=\"q\" type=\"integer\"><eli>3</eli></elist></common_properties>",
      "<names><name>n</name><display>d</display></names>",
      "<const_properties/><formula><syntax>X1</syntax><variables><var>A</var></variables></formula>",
      "<time_source>ts</time_source><constants><const name=\"PI\">3.14</const></constants>",
      "<tool_id>a</tool_id><tool_vendor>b</tool_vendor><tool_version>c</tool_version><user_name>u</user_name>",
      "<extensions><extension>text</extension></extensions>",
      "<linker_name>z</linker_name><linker_address>0x100</linker_address><axis_monotony>MON_INCREASE</axis_monotony>"
      "<raster min=\"1\" max=\"2\" average=\"1.5\">1</raster><address byte_count=\"4\">255</address>",
      "<COMPU-METHOD><CATEGORY>LINEAR</CATEGORY><COMPU-INTERNAL-TO-PHYS><COMPU-SCALES><COMPU-SCALE>"
      "<LOWER-LIMIT>1</LOWER-LIMIT></COMPU-SCALE></COMPU-SCALES></COMPU-INTERNAL-TO-PHYS></COMPU-METHOD>",
      "<ho:UNIT-SPEC><ho:UNITS><ho:UNIT ID=\"u\"><ho:SHORT-NAME>m</ho:SHORT-NAME></ho:UNIT></ho:UNITS></ho:UNIT-SPEC>"};
  std::string s = "<" + root + " xmlns='http://www.asam.net/mdf/v4'>";
  const size_t n = g.Draw(3);
  for (size_t i = 0; i < n; ++i) s += g.Pick(parts);
  return s + "</" + root + ">";
}

int GenSi(vp::Gen& g, enc::Image& im) {
  enc::Out o;
  o.N<uint8_t>(2).N<uint8_t>(2).N<uint8_t>(0).Raw(Bytes(5, 0));
  return im.Add("SI", {im.Text("si"), im.Text("path"), g.Bool() ? im.Xml(Xml(g, "SIcomment")) : -1}, o.b);
}

Bytes Encoded4(vp::Gen& g) {
  enc::Opts o;
  o.max_rec = 12;
  o.max_cn = 4;
  o.max_cg = 3;
  const auto f = enc::Generate(g, o);
  auto im = enc::Encode(g, f);
  const size_t n = im.blk.size();
  std::vector<int> cgs, cns, dgs;
  for (size_t i = 0; i < n; ++i) {
    if (im.blk[i].id == "CG") cgs.push_back(static_cast<int>(i));
    if (im.blk[i].id == "CN") cns.push_back(static_cast<int>(i));
    if (im.blk[i].id == "DG") dgs.push_back(static_cast<int>(i));
  }
  auto& hd = im.blk[0];
  (void)hd;
  for (int c : cns) {
    auto L = [&](size_t k) -> int& { return im.blk[static_cast<size_t>(c)].link[k]; };
    if (L(4) < 0 && g.Chance(1, 2)) { const int x = GenCc(g, im); L(4) = x; }
    if (L(3) < 0 && g.Chance(1, 6)) { const int x = GenSi(g, im); L(3) = x; }
    if (L(6) < 0 && g.Chance(1, 4)) { const int x = g.Bool() ? im.Text("unit") : im.Xml(Xml(g, "CNunit")); L(6) = x; }
    if (L(7) < 0 && g.Chance(1, 3)) { const int x = im.Xml(Xml(g, "CNcomment")); L(7) = x; }
    if (L(1) < 0 && g.Chance(1, 5)) {
      // An array.
      const auto nd = static_cast<uint16_t>(1 + g.Draw(2));
      const auto flags = static_cast<uint32_t>(g.Draw(511));
      const auto storage = static_cast<uint8_t>(g.Chance(1, 4) ? 1 + g.Draw(1) : 0);
      std::vector<uint64_t> dim;
      size_t sum = 0, prod = 1;
      for (unsigned i = 0; i < nd; ++i) {
        dim.push_back(1 + g.Draw(2));
        sum += dim.back();
        prod *= dim.back();
      }
      auto any = [&] { return g.Pick(cns); };
      std::vector<int> link = {-1};
      auto triple = [&] {
        link.push_back(g.Pick(dgs));
        link.push_back(g.Pick(cgs));
        link.push_back(any());
      };
      if (storage == 2) for (size_t i = 0; i < prod; ++i) link.push_back(-1);
      if (flags & 1) for (unsigned i = 0; i < nd; ++i) triple();
      if (flags & 2) for (unsigned i = 0; i < nd; ++i) triple();
      if (flags & 4) triple();
      if (flags & 8) triple();
      if (flags & 16) for (unsigned i = 0; i < nd; ++i) link.push_back(GenCc(g, im));
      if ((flags & 16) && !(flags & 32)) for (unsigned i = 0; i < nd; ++i) triple();
      enc::Out a;
      a.N<uint8_t>(static_cast<uint8_t>(g.Draw(4))).N<uint8_t>(storage).N<uint16_t>(nd).N<uint32_t>(flags).N<int32_t>(1).N<uint32_t>(0);
      for (auto d : dim) a.N<uint64_t>(d);
      if (flags & 32) for (size_t i = 0; i < sum; ++i) a.N<double>(static_cast<double>(i));
      if (storage >= 1) for (size_t i = 0; i < prod; ++i) a.N<uint64_t>(3);
      const int x = im.Add("CA", link, a.b);
      L(1) = x;
    }
  }
  for (int c : cgs) {
    auto L = [&](size_t k) -> int& { return im.blk[static_cast<size_t>(c)].link[k]; };
    if (g.Chance(1, 4)) { const int x = GenSi(g, im); L(3) = x; }
    if (g.Chance(1, 4)) { const int x = im.Xml(Xml(g, "CGcomment")); L(5) = x; }
    if (g.Chance(1, 4)) {
      // Sample reductions.
      int next = -1;
      const size_t k = 1 + g.Draw(1);
      for (size_t i = 0; i < k; ++i) {
        enc::Out sr;
        const uint64_t cycles = g.Draw(4);
        sr.N<uint64_t>(cycles).N<double>(0.5).N<uint8_t>(1).N<uint8_t>(0).Raw(Bytes(6, 0));
        const auto& cg = im.blk[static_cast<size_t>(c)].data;
        uint32_t db = 0, ib = 0;
        memcpy(&db, &cg[24], 4);
        memcpy(&ib, &cg[28], 4);
        if (db > 10000 || ib > 10000) db = ib = 1;
        const int data = enc::EncodeData(g, im, g.Bytes((3 * db + ib) * cycles), "RD", 3 * db + ib);
        next = im.Add("SR", {next, data}, sr.b);
      }
      L(4) = next;
    }
  }
  auto set_hd = [&](size_t k, int v) { im.blk[0].link[k] = v; };
  if (g.Chance(1, 3)) {
    enc::Out o2;
    o2.N<uint64_t>(1600000000000000000ull).N<int16_t>(60).N<int16_t>(0).N<uint8_t>(0).Raw(Bytes(3, 0));
    set_hd(1, im.Add("FH", {-1, im.Xml(Xml(g, "FHcomment"))}, o2.b));
  }
  int at = -1;
  if (g.Chance(1, 3)) {
    const auto data = g.Bytes(g.Draw(40));
    const bool zip = g.Bool();
    const auto emb = zip ? enc::Zip(data, 6) : data;
    enc::Out a;
    a.N<uint16_t>(static_cast<uint16_t>(zip ? 3 : 1)).N<uint16_t>(0).N<uint32_t>(0).Raw(Bytes(16, 0));
    a.N<uint64_t>(data.size()).N<uint64_t>(emb.size()).Raw(emb);
    at = im.Add("AT", {-1, im.Text("a.txt"), im.Text("text/plain"), im.Xml(Xml(g, "ATcomment"))}, a.b);
    set_hd(3, at);
  }
  int ev = -1;
  const size_t nof_ev = g.Chance(1, 3) ? 1 + g.Draw(2) : 0;
  for (size_t i = 0; i < nof_ev; ++i) {
    enc::Out e;
    const bool scope = g.Bool(), with_at = at >= 0 && g.Bool();
    e.N<uint8_t>(6).N<uint8_t>(1).N<uint8_t>(0).N<uint8_t>(1).N<uint8_t>(0).Raw(Bytes(3, 0));
    e.N<uint32_t>(scope ? 1 : 0).N<uint16_t>(with_at ? 1 : 0).N<uint16_t>(0).N<int64_t>(10).N<double>(1);
    std::vector<int> link = {ev, i > 0 && g.Bool() ? ev : -1, i > 0 && g.Bool() ? ev : -1, im.Text("ev"), im.Xml(Xml(g, "EVcomment"))};
    if (scope) link.push_back(g.Bool() ? g.Pick(cgs) : g.Pick(cns));
    if (with_at) link.push_back(at);
    ev = im.Add("EV", link, e.b);
  }
  if (ev >= 0) set_hd(4, ev);
  if (g.Chance(1, 3)) {
    int child = -1;
    const size_t depth = 1 + g.Draw(2);
    for (size_t i = 0; i < depth; ++i) {
      enc::Out c;
      c.N<uint32_t>(1).N<uint8_t>(1).Raw(Bytes(3, 0));
      child = im.Add("CH", {-1, child, im.Text("ch"), g.Bool() ? im.Xml(Xml(g, "CHcomment")) : -1, g.Pick(dgs), g.Pick(cgs), g.Pick(cns)}, c.b);
    }
    set_hd(2, child);
  }
  if (g.Chance(1, 3)) set_hd(5, im.Xml(Xml(g, "HDcomment")));
  for (int d : dgs)
    if (g.Chance(1, 4)) { const int x = im.Xml(Xml(g, "DGcomment")); im.blk[static_cast<size_t>(d)].link[3] = x; }
  if (g.Chance(1, 6)) {
    im.file_id = "UnFinMF ";
    im.unfinished = static_cast<uint16_t>(g.Draw(0x7f));
  }
  return im.Bytes(&g);
}

Bytes Written(vp::Gen& g, bool mdf3) {
  model::GenOpts o;
  o.mdf3 = mdf3;
  o.max_dg = 2;
  o.max_cg = 2;
  o.max_ch = 3;
  o.max_rec = 10;
  o.big = o.many = o.wide = false;
  const auto m = model::GenMeas(g, o);
  Io io(false, "seed");
  {
    auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(!mdf3 && g.Bool());
    auto c = model::CreateConfig(*w, m.dg);
    auto* hd = w->Header();
    hd->Description("text");
    if (!mdf3) {
      hd->CreateFileHistory()->Description("history");
    }
    for (auto& d : c.ch)
      for (auto& k : d)
        for (auto* cn : k) {
          if (cn->Type() != ChannelType::FixedLength || !g.Chance(1, 2)) continue;
          auto* cc = cn->CreateChannelConversion();
          switch (g.Draw(4)) {
            case 0:
              cc->Type(ConversionType::Linear);
              cc->Parameter(0, 1.0);
              cc->Parameter(1, 2.0);
              break;
            case 1:
              cc->Type(ConversionType::ValueToText);
              cc->Parameter(0, 1.0);
              cc->Reference(0, "one");
              cc->Reference(1, "other");
              break;
            case 2:
              cc->Type(ConversionType::ValueToValue);
              for (uint16_t i = 0; i < 4; ++i) cc->Parameter(i, static_cast<double>(i));
              break;
            case 3:
              cc->Type(ConversionType::ValueRangeToText);
              for (uint16_t i = 0; i < 4; ++i) cc->Parameter(i, static_cast<double>(i));
              for (uint16_t i = 0; i < 3; ++i) cc->Reference(i, "t" + std::to_string(i));
              break;
            default:
              cc->Type(ConversionType::Polynomial);
              for (uint16_t i = 0; i < 6; ++i) cc->Parameter(i, static_cast<double>(i));
              break;
          }
        }
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& rec : m.rec) model::SaveRec(*w, c, m.dg, rec, 1);
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  return io.Bytes();
}

// A file of another tool.
Bytes Encoded3(vp::Gen& g) {
  enc::Opts o;
  o.vlsd = false;
  o.max_rec = 10;
  enc::File f = enc::Generate(g, o);
  enc::ToMdf3(g, f);
  std::map<std::string, enc::Text3> text;
  std::string version;
  return enc::Encode3(g, f, text, version, true);
}

// ---- mutations

uint64_t Get(const Bytes& b, size_t pos, size_t n) {
  uint64_t v = 0;
  for (size_t i = 0; i < n && pos + i < b.size(); ++i) v |= static_cast<uint64_t>(b[pos + i]) << (8 * i);
  return v;
}
void Put(Bytes& b, size_t pos, uint64_t v, size_t n) {
  for (size_t i = 0; i < n && pos + i < b.size(); ++i) b[pos + i] = static_cast<uint8_t>(v >> (8 * i));
}

std::vector<size_t> Blocks4(const Bytes& b) {
  std::vector<size_t> out;
  for (size_t p = 64; p + 24 <= b.size(); p += 8)
    if (b[p] == '#' && b[p + 1] == '#' && isupper(b[p + 2])) out.push_back(p);
  return out;
}

void Mutate(vp::Gen& g, Bytes& b, bool mdf3) {
  if (b.size() < 70) return;
  const auto value = [&](uint64_t old, size_t n) -> uint64_t {
    switch (g.Draw(5)) {
      case 0: return old + 1;
      case 1: return old - 1;
      case 2: return g.Pick({uint64_t{0}, uint64_t{1}, ~uint64_t{0}, uint64_t{0x7fffffffffffffff}, uint64_t{0x80000000}, uint64_t{0xffffffff}, uint64_t{0x7fffffff}, uint64_t{0xffff}, uint64_t{1} << 40, uint64_t{b.size()}});
      case 3: return old ^ (uint64_t{1} << g.Draw(8 * n - 1));
      case 4: return g.Draw(300);
      default: return g.U64();
    }
  };
  const auto kind = g.Draw(9);
  if (!mdf3 && kind < 7) {
    const auto blocks = Blocks4(b);
    if (blocks.empty()) return;
    const size_t p = g.Pick(blocks);
    const uint64_t links = Get(b, p + 16, 8), length = Get(b, p + 8, 8);
    const std::string type(b.begin() + static_cast<int64_t>(p) + 2, b.begin() + static_cast<int64_t>(p) + 4);
    if (kind <= 2 && links > 0 && links < 10000 && p + 24 + 8 * links <= b.size()) {
      // A link to another block (or nowhere).
      const size_t k = p + 24 + 8 * g.Draw(links - 1);
      Put(b, k, g.Chance(1, 8) ? value(Get(b, k, 8), 8) : g.Pick(blocks), 8);
      g.Label("link of " + Known(type));
    } else if (kind == 3) {
      // Length or number of links.
      const size_t k = g.Bool() ? p + 8 : p + 16;
      Put(b, k, value(Get(b, k, 8), 8), 8);
      g.Label("head of " + type);
    } else if (kind == 4) {
      // Block type.
      const size_t q = g.Pick(blocks);
      b[p + 2] = b[q + 2];
      b[p + 3] = b[q + 3];
      g.Label("type of " + Known(type));
    } else {
      // A field of the data section.
      const uint64_t data = p + 24 + 8 * (links < 10000 ? links : 0);
      if (length > 24 + 8 * links && data < b.size() && length < b.size()) {
        const uint64_t size = std::min<uint64_t>(length - 24 - 8 * links, 120);
        const size_t n = g.Pick({size_t{1}, size_t{2}, size_t{4}, size_t{8}});
        const uint64_t k = data + g.Draw(size - 1) / n * n;
        Put(b, k, value(Get(b, k, n), n), n);
        g.Label("field of " + type);
      }
    }
    return;
  }
  if (mdf3 && kind < 7) {
    // Positions which hold a link, a size or another small number.
    std::vector<size_t> pos, target;
    for (size_t p = 64; p + 4 <= b.size(); ++p) {
      if (isupper(b[p]) && isupper(b[p + 1]) && Get(b, p + 2, 2) > 4 && Get(b, p + 2, 2) < 2000) target.push_back(p);
    }
    if (target.empty()) return;
    const size_t p = g.Pick(target);
    const uint64_t size = Get(b, p + 2, 2);
    if (kind <= 2) {
      const size_t k = p + 4 + 4 * g.Draw(4);
      Put(b, k, g.Chance(1, 8) ? value(Get(b, k, 4), 4) : g.Pick(target), 4);
      g.Label("mdf3 link");
    } else if (kind == 3) {
      Put(b, p + 2, value(size, 2), 2);
      g.Label("mdf3 block size");
    } else {
      const size_t n = g.Pick({size_t{1}, size_t{2}, size_t{4}, size_t{8}});
      const size_t k = p + 4 + 2 * g.Draw(std::min<uint64_t>(size, 300) / 2);
      Put(b, k, value(Get(b, k, n), n), n);
      g.Label("mdf3 field");
    }
    return;
  }
  if (kind == 7) {
    b.resize(g.Draw(b.size()));
    g.Label("cut");
  } else if (kind == 8) {
    const size_t n = 1 + g.Draw(8);
    for (size_t i = 0; i < n; ++i) b[g.Draw(b.size() - 1)] = static_cast<uint8_t>(g.Draw(255));
    g.Label("random bytes");
  } else {
    const size_t n = 1 + g.Draw(std::min<uint64_t>(b.size(), 200) - 1);
    const size_t from = g.Draw(b.size() - n), to = g.Draw(b.size() - n);
    const Bytes part(b.begin() + static_cast<int64_t>(from), b.begin() + static_cast<int64_t>(from + n));
    std::copy(part.begin(), part.end(), b.begin() + static_cast<int64_t>(to));
    g.Label("copied part");
  }
}

// ---- use of everything a reader offers

size_t Sink(const std::string& s) { return s.size(); }

template <typename F>
void Try(F&& f) {
  try {
    f();
  } catch (const vp::Failure&) {
    throw;
  } catch (const std::exception&) {
    // A reported failure.
  }
}

struct Any : ISampleObserver {
  explicit Any(const IDataGroup& dg) : ISampleObserver(dg) {}
  uint64_t n = 0, sum = 0;
  bool OnSample(uint64_t sample, uint64_t, const std::vector<uint8_t>& record) override {
    ++n;
    sum += sample;
    for (auto b : record) sum += b;
    return n < 100000;
  }
};

template <typename O>
void Values(const O& obs) {
  const uint64_t n = obs.NofSamples();
  const uint64_t array = std::min<uint64_t>(obs.Channel().ArraySize(), 50);
  for (uint64_t s = 0; s < std::min<uint64_t>(n, 40); ++s) {
    std::string t;
    double d = 0;
    uint64_t u = 0;
    int64_t i = 0;
    std::vector<uint8_t> v;
    Try([&] { (void)obs.GetChannelValue(s, t); });
    Try([&] { (void)obs.GetChannelValue(s, v); });
    Try([&] { (void)obs.GetEngValue(s, t); });
    for (uint64_t a = 0; a < array; ++a) {
      Try([&] { (void)obs.GetChannelValue(s, u, a); });
      Try([&] { (void)obs.GetChannelValue(s, i, a); });
      Try([&] { (void)obs.GetChannelValue(s, d, a); });
      Try([&] { (void)obs.GetEngValue(s, d, a); });
    }
  }
}

void Hierarchy(const IChannelHierarchy& ch, size_t& budget) {
  if (budget == 0) return;
  --budget;
  Sink(ch.Name());
  Sink(ch.Description());
  for (const auto& e : ch.ElementLinks()) {
    if (e.channel_group != nullptr) Sink(e.channel_group->Name());
    if (e.channel != nullptr) Sink(e.channel->Name());
  }
  for (const auto* c : ch.ChannelHierarchies())
    if (c != nullptr) Hierarchy(*c, budget);
}

void UseAll(MdfReader& r, uint64_t how, const std::string& scratch) {
  const auto* file = r.GetFile();
  const auto* hd = r.GetHeader();
  if (file == nullptr || hd == nullptr) return;
  Sink(file->Version());
  Sink(file->ProgramId());
  Try([&] { Sink(hd->Author()); Sink(hd->Project()); Sink(hd->Subject()); Sink(hd->Department()); Sink(hd->Description()); });
  Try([&] { HdComment c; hd->GetHdComment(c); Sink(c.ToXml()); });
  for (const auto* fh : hd->FileHistories()) {
    Try([&] { Sink(fh->Description()); FhComment c; fh->GetFhComment(c); Sink(c.ToXml()); });
  }
  for (const auto* at : hd->Attachments()) {
    Try([&] { Sink(at->FileName()); Sink(at->FileType()); AtComment c; at->GetAtComment(c); Sink(c.ToXml()); });
    Try([&] { MemBuf out; (void)r.ExportAttachmentData(*at, out); });
    if (at->IsEmbedded()) Try([&] { (void)r.ExportAttachmentData(*at, scratch + "/attachment"); });
  }
  for (const auto* ev : hd->Events()) {
    Try([&] {
      Sink(ev->Name());
      EvComment c;
      ev->GetEvComment(c);
      Sink(c.ToXml());
      if (ev->ParentEvent() != nullptr) Sink(ev->ParentEvent()->Name());
      if (ev->RangeEvent() != nullptr) Sink(ev->RangeEvent()->Name());
      for (const auto* a : ev->Attachments())
        if (a != nullptr) Sink(a->FileName());
    });
  }
  size_t budget = 1000;
  for (const auto* ch : hd->ChannelHierarchies()) Try([&] { Hierarchy(*ch, budget); });
  size_t nof_dg = 0;
  for (auto* dg : hd->DataGroups()) {
    if (dg == nullptr || ++nof_dg > 6) continue;
    Try([&] { Sink(dg->Description()); DgComment c; dg->GetDgComment(c); Sink(c.ToXml()); });
    const auto cgs = dg->ChannelGroups();
    size_t nof_cg = 0;
    std::vector<IChannel*> vlsd;
    bool big_array = false;
    for (auto* cg : cgs) {
      if (cg == nullptr || ++nof_cg > 8) continue;
      Try([&] { Sink(cg->Name()); Sink(cg->Description()); CgComment c; cg->GetCgComment(c); Sink(c.ToXml()); });
      Try([&] {
        if (const auto* si = cg->SourceInformation(); si != nullptr) {
          Sink(si->Name());
          SiComment c;
          si->GetSiComment(c);
        }
      });
      size_t nof_cn = 0;
      for (auto* cn : cg->Channels()) {
        if (cn == nullptr || ++nof_cn > 20) continue;
        Try([&] { Sink(cn->Name()); Sink(cn->Unit()); Sink(cn->Description()); CnComment c; cn->GetCnComment(c); Sink(c.ToXml()); });
        Try([&] {
          if (const auto* cc = cn->ChannelConversion(); cc != nullptr) {
            Sink(cc->Name());
            Sink(cc->Unit());
            CcComment c;
            cc->GetCcComment(c);
            for (uint16_t i = 0; i < 5; ++i) { (void)cc->Parameter(i); Sink(cc->Reference(i)); }
          }
        });
        Try([&] {
          // Reading costs time in proportion to the declared array; that is no hang.
          if (cn->ArraySize() > 2000) big_array = true;
          if (const auto* ca = cn->ChannelArray(0); ca != nullptr) {
            (void)ca->SumOfArray();
            (void)ca->ProductOfArray();
            for (const auto& e : ca->InputQuantityList()) if (e.Channel != nullptr) Sink(e.Channel->Name());
          }
        });
        if (cn->Type() == ChannelType::VariableLength) vlsd.push_back(cn);
      }
    }
    {
      ChannelObserverList list;
      if (!big_array) Try([&] { CreateChannelObserverForDataGroup(*dg, list); });
      Any any(*dg);
      Try([&] {
        if (how == 1) (void)r.ReadPartialData(*dg, 1, 4);
        else (void)r.ReadData(*dg);
      });
      size_t k = 0;
      for (const auto& obs : list)
        if (obs && ++k < 30) Values(*obs);
    }
    if (how == 2)
      for (auto* cn : vlsd)
        Try([&] {
          std::function<void(uint64_t, const std::vector<uint8_t>&)> cb = [](uint64_t, const std::vector<uint8_t>&) {};
          (void)r.ReadVlsdData(*dg, *cn, {}, cb);
          (void)r.ReadVlsdData(*dg, *cn, {0, 5, 10, 1000}, cb);
        });
    Try([&] { dg->ClearData(); });
  }
}

void Case(vp::Gen& g, const Bytes& b) {
  const auto how = g.Draw(3);
  const bool to_file = g.Chance(1, 10);
  // What is done with the file.
  struct Limit {
    Limit() { g_limit = true; }
    ~Limit() { g_limit = false; }
  } limit;
  std::shared_ptr<std::streambuf> buf = std::make_shared<MemBuf>(b);
  const std::string name = vp::ScratchDir() + "/hostile.mf4";
  if (to_file) WriteFileBytes(name, b);
  Try([&] {
    std::unique_ptr<MdfReader> r = to_file ? std::make_unique<MdfReader>(name) : std::make_unique<MdfReader>(buf);
    if (!r->IsOk()) return;
    bool ok = false;
    Try([&] {
      if (how == 3) {
        (void)r->ReadHeader();
        (void)r->ReadMeasurementInfo();
      }
      ok = r->ReadEverythingButData();
    });
    if (ok) g.Nontrivial();
    g.Label(ok ? "opened" : "refused");
    // What was read before a failure can also be used.
    UseAll(*r, how, vp::ScratchDir());
  });
  // A writer may also open it.
  if (to_file && g.Chance(1, 3)) {
    Try([&] {
      auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
      (void)w->Init(name);
    });
  }
  if (to_file) std::filesystem::remove(name);
}

void Fuzz(vp::Gen& g, int kind) {
  model::NoLog();
  Bytes b = kind == 0 ? Encoded4(g) : kind == 3 ? Encoded3(g) : Written(g, kind == 2);
  const size_t n = 1 + g.Size(6);
  const auto before = b;
  for (size_t i = 0; i < n; ++i) Mutate(g, b, kind >= 2);
  g.Note() << b.size() << " bytes, " << n << " mutations";
  if (before == b) return;
  Case(g, b);
}

// Every prefix of a file.
void Cut(vp::Gen& g) {
  model::NoLog();
  const auto kind = g.Draw(3);
  Bytes b = kind == 0 ? Encoded4(g) : kind == 3 ? Encoded3(g) : Written(g, kind == 2);
  b.resize(g.Draw(b.size()));
  g.Note() << b.size() << " bytes";
  Case(g, b);
}

void Random(vp::Gen& g) {
  model::NoLog();
  Bytes b = g.Bytes(g.Draw(600));
  if (g.Chance(3, 4) && b.size() >= 64) {
    const std::string id = g.Bool() ? "MDF     4.10    vp      " : "MDF     3.30    vp      ";
    std::copy(id.begin(), id.end(), b.begin());
    Put(b, 28, id[8] == '4' ? 410 : 330, 2);
    if (b.size() > 100) {
      const std::string hd = id[8] == '4' ? "##HD" : "HD";
      std::copy(hd.begin(), hd.end(), b.begin() + 64);
    }
  }
  g.Note() << b.size() << " bytes";
  Case(g, b);
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C17";
  p.assumptions = {"one allocation of more than 64 MB, or more than 512 MB in all, fails with std::bad_alloc, as on a small machine",
                   "a case without an answer after 20 s hangs (the files are smaller than 100 kB)",
                   "an exception derived from std::exception is a reported failure"};
  const char* rule = "the damaged file is still opened";
  p.subs.push_back({"mdf4", 60000, 2000000, [](vp::Gen& g) { Fuzz(g, 0); }, rule, 3, 20});
  p.subs.push_back({"written4", 20000, 500000, [](vp::Gen& g) { Fuzz(g, 1); }, rule, 3, 20});
  p.subs.push_back({"mdf3", 30000, 1000000, [](vp::Gen& g) { Fuzz(g, 2); }, rule, 3, 20});
  p.subs.push_back({"foreign3", 40000, 1000000, [](vp::Gen& g) { Fuzz(g, 3); }, rule, 3, 20});
  p.subs.push_back({"cut", 20000, 300000, Cut, rule, 3, 20});
  p.subs.push_back({"random", 10000, 300000, Random, rule, 3, 20});
  return vp::Main(argc, argv, p);
}
