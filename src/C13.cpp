// C13: attachments.
#include <cstring>
#include <dirent.h>

#include <algorithm>
#include <cmath>
#include <sstream>

#include "common/io.h"
#include "common/model.h"
#include "mdf/cryptoutil.h"
#include "mdf/iattachment.h"
#include "mdf/mdffactory.h"

using namespace mdf;

namespace {

// MD5 (RFC 1321).
std::string RefMd5(const std::vector<uint8_t>& in) {
  static const int kShift[64] = {7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9,
                                 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23,
                                 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21};
  uint32_t k[64];
  for (int i = 0; i < 64; ++i) k[i] = static_cast<uint32_t>(std::floor(std::fabs(std::sin(i + 1.0)) * 4294967296.0));
  auto m = in;
  const uint64_t bits = static_cast<uint64_t>(in.size()) * 8;
  m.push_back(0x80);
  while (m.size() % 64 != 56) m.push_back(0);
  for (int i = 0; i < 8; ++i) m.push_back(static_cast<uint8_t>(bits >> (8 * i)));
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t off = 0; off < m.size(); off += 64) {
    uint32_t w[16];
    for (int i = 0; i < 16; ++i)
      w[i] = m[off + 4 * i] | m[off + 4 * i + 1] << 8 | m[off + 4 * i + 2] << 16 | static_cast<uint32_t>(m[off + 4 * i + 3]) << 24;
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) {
      uint32_t f;
      int g;
      if (i < 16) f = (b & c) | (~b & d), g = i;
      else if (i < 32) f = (d & b) | (~d & c), g = (5 * i + 1) % 16;
      else if (i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16;
      else f = c ^ (b | ~d), g = (7 * i) % 16;
      f += a + k[i] + w[g];
      a = d;
      d = c;
      c = b;
      b += f << kShift[i] | f >> (32 - kShift[i]);
    }
    h[0] += a;
    h[1] += b;
    h[2] += c;
    h[3] += d;
  }
  std::string s;
  for (uint32_t x : h)
    for (int i = 0; i < 4; ++i) {
      char t[3];
      snprintf(t, sizeof(t), "%02X", x >> (8 * i) & 0xFF);
      s += t;
    }
  return s;
}

size_t OpenFiles() {
  size_t n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d) != nullptr) ++n;
    closedir(d);
  }
  return n;
}

std::vector<uint8_t> Content(vp::Gen& g) {
  switch (g.Draw(6)) {
    case 0: return g.Bytes(g.Draw(3));
    case 1: return g.Bytes(g.Draw(200));
    case 2: return g.Bytes(50 + g.Draw(80));
    case 3: return g.Bytes(9990 + g.Draw(20));
    case 4: return g.Bytes(16380 + g.Draw(10) + 16384 * g.Draw(2));
    case 5: return g.Bytes(g.Draw(60000));
    default: return g.Chance(1, 10) ? g.Bytes(g.Draw(1000000)) : g.Bytes(g.Draw(3000));
  }
}

// Blanks at the ends of an XML text are not significant.
std::string Trimmed(std::string s) {
  while (!s.empty() && s.front() == ' ') s.erase(s.begin());
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}

struct At {
  std::vector<uint8_t> data;
  std::string file, type, comment;
  uint16_t creator = 0;
  bool embedded = true, compressed = false, exists = true;
};

void Attach(vp::Gen& g) {
  model::NoLog();
  Io io(g.Chance(1, 3), "c13.mf4");
  std::vector<At> list(1 + g.Draw(4));
  size_t nof_embedded = 0;
  for (size_t i = 0; i < list.size(); ++i) {
    auto& a = list[i];
    a.data = Content(g);
    a.file = vp::ScratchDir() + "/at" + std::to_string(i) + (g.Chance(1, 4) ? "_\xC3\xA5\xE2\x82\xAC" : "") + g.Ident(8) + ".bin";
    a.type = g.Pick({std::string("text/plain"), std::string("application/octet-stream"), std::string("image/png")});
    a.comment = g.Bool() ? Trimmed(g.Text(40)) : "";
    a.creator = static_cast<uint16_t>(g.Draw(65535));
    a.embedded = !g.Chance(1, 4);
    a.compressed = g.Bool();
    if (a.embedded) ++nof_embedded;
    WriteFileBytes(a.file, a.data);
  }
  const size_t open_before = OpenFiles();
  const auto writer_type = g.Pick({MdfWriterType::Mdf4Basic, MdfWriterType::MdfBusLogger, MdfWriterType::MdfConverter});
  {
    auto w = MdfFactory::CreateMdfWriter(writer_type);
    vp::Check(io.Init(*w), "Init");
    auto* h = w->Header();
    for (auto& a : list) {
      auto* at = h->CreateAttachment();
      at->FileName(a.file);
      at->FileType(a.type);
      at->CreatorIndex(a.creator);
      at->IsEmbedded(a.embedded);
      at->IsCompressed(a.compressed);
      if (!a.comment.empty()) {
        AtComment c(a.comment);
        at->SetAtComment(c);
      }
    }
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(1600000000000000000ull);
    w->StopMeasurement(1600000001000000000ull);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  vp::CheckEq(open_before, OpenFiles(), "number of open files after attaching");
  // The original of an embedded file is not needed any more.
  for (auto& a : list)
    if (a.embedded) std::remove(a.file.c_str());
  const auto bytes = io.Bytes();
  {
    auto r = io.Reader();
    vp::Check(r->IsOk(), "reader");
    vp::Check(g.Bool() ? r->ReadEverythingButData() : r->ReadMeasurementInfo(), "read");
    const auto got = r->GetHeader()->Attachments();
    vp::CheckEq(list.size(), got.size(), "number of attachments");
    for (size_t i = 0; i < list.size(); ++i) {
      const auto& a = list[i];
      const std::string ctx = "attachment " + std::to_string(i) + " (" + std::to_string(a.data.size()) + " bytes" + (a.embedded ? " embedded" : "") +
                              (a.compressed ? " compressed" : "") + ") ";
      vp::CheckEq(a.file, got[i]->FileName(), ctx + "name");
      vp::CheckEq(a.type, got[i]->FileType(), ctx + "type");
      vp::CheckEq(a.creator, got[i]->CreatorIndex(), ctx + "creator");
      vp::CheckEq(a.embedded, got[i]->IsEmbedded(), ctx + "embedded");
      vp::CheckEq(static_cast<uint64_t>(a.data.size()), got[i]->OriginalSize(), ctx + "size");
      vp::Check(got[i]->Md5().has_value(), ctx + "has no MD5");
      vp::CheckEq(RefMd5(a.data), *got[i]->Md5(), ctx + "MD5");
      if (!a.comment.empty()) {
        AtComment c;
        got[i]->GetAtComment(c);
        vp::CheckEq(a.comment, c.Comment().Text(), ctx + "comment");
      }
      const std::string out = vp::ScratchDir() + "/export.bin";
      std::remove(out.c_str());
      vp::Check(r->ExportAttachmentData(*got[i], out), ctx + "export failed");
      vp::Check(ReadFileBytes(out) == a.data, ctx + "exported bytes differ");
      MemBuf to;
      vp::Check(r->ExportAttachmentData(*got[i], to), ctx + "export to a stream failed");
      vp::Check(to.Data() == a.data, ctx + "bytes exported to a stream differ");
    }
  }
  // A damaged byte in an embedded attachment.
  for (size_t i = 0; i < list.size() && nof_embedded > 0; ++i) {
    const auto& a = list[i];
    if (!a.embedded || a.compressed || a.data.size() < 16) continue;
    // Follows the list of the attachment blocks.
    const auto u64 = [&](size_t p) {
      uint64_t v = 0;
      vp::Check(p + 8 <= bytes.size(), "a link outside the file");
      std::memcpy(&v, &bytes[p], 8);
      return static_cast<size_t>(v);
    };
    size_t block = u64(64 + 24 + 3 * 8);
    for (size_t n = 0; n < i; ++n) block = u64(block + 24);
    const size_t pos = block + 96;
    vp::Check(pos + a.data.size() <= bytes.size() && std::equal(a.data.begin(), a.data.end(), &bytes[pos]),
              "the attached bytes are not found in the file");
    auto damaged = bytes;
    const size_t at = pos + g.Draw(a.data.size() - 1);
    damaged[at] ^= static_cast<uint8_t>(1u << g.Draw(7));
    Io io2(false, "");
    io2.Bytes(damaged);
    auto r = io2.Reader();
    vp::Check(r->IsOk() && r->ReadMeasurementInfo(), "reader of the damaged file");
    const auto got = r->GetHeader()->Attachments();
    vp::CheckEq(list.size(), got.size(), "number of attachments (damaged)");
    const std::string out = vp::ScratchDir() + "/export.bin";
    vp::CheckEq(false, r->ExportAttachmentData(*got[i], out), "export of a damaged attachment");
    g.Label("damaged");
    break;
  }
  for (auto& a : list) std::remove(a.file.c_str());
  if (nof_embedded > 0) g.Nontrivial();
  for (auto& a : list) {
    if (a.embedded) g.Label(a.compressed ? "compressed" : "plain");
    else g.Label("external");
    if (a.data.empty()) g.Label("empty");
  }
  g.Note() << list.size() << " attachments, first " << list[0].data.size() << " bytes";
}

void Md5(vp::Gen& g) {
  model::NoLog();
  const auto data = Content(g);
  const std::string name = vp::ScratchDir() + "/md5.bin";
  WriteFileBytes(name, data);
  const std::string ref = RefMd5(data);
  vp::CheckEq(ref, CreateMd5FileString(name), "MD5 of " + std::to_string(data.size()) + " bytes");
  std::vector<uint8_t> sum(g.Draw(20));
  vp::Check(CreateMd5FileChecksum(name, sum), "CreateMd5FileChecksum");
  vp::CheckEq(static_cast<size_t>(16), sum.size(), "size of the checksum");
  for (size_t i = 0; i < 16; ++i) {
    char t[3];
    snprintf(t, sizeof(t), "%02X", sum[i]);
    vp::CheckEq(ref.substr(2 * i, 2), std::string(t), "checksum byte");
  }
  vp::CheckEq(false, CreateMd5FileChecksum(name + ".missing", sum), "checksum of a missing file");
  if (data.size() > 64) g.Nontrivial();
  g.Note() << data.size() << " bytes " << ref;
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C13";
  p.assumptions = {"the attached file does not change while it is attached"};
  p.subs.push_back({"attach", 16000, 200000, Attach, "at least one embedded attachment"});
  p.subs.push_back({"md5", 60000, 400000, Md5, "more than one block of 64 bytes"});
  return vp::Main(argc, argv, p);
}
