// C14: compression, transposition, time, text and raw value helpers.
#include <zlib.h>

#include <cmath>
#include <cstdlib>
#include <ctime>
#include <sstream>

#include "common/membuf.h"
#include "common/model.h"
#include "mdf/itimestamp.h"
#include "mdf/mdfhelper.h"
#include "mdf/zlibutil.h"
#include "vp.h"

using namespace mdf;

namespace {

std::vector<uint8_t> Data(vp::Gen& g) {
  size_t len = 0;
  switch (g.Draw(6)) {
    case 0: len = g.Draw(4); break;
    case 1: len = g.Draw(120); break;
    case 2: len = g.Draw(5000); break;
    case 3: len = 16384 * (1 + g.Draw(3)) - 3 + g.Draw(6); break;  // around the chunks of the streams
    case 4: len = g.Draw(60000); break;
    case 5: len = g.Draw(300); break;
    default: len = g.Chance(1, 8) ? g.Draw(2000000) : g.Draw(40000); break;
  }
  auto v = g.Bytes(len);
  // Runs of zeros make it compressible in part.
  if (g.Bool() && len > 10) {
    const size_t from = g.Draw(len - 1), n = g.Draw(len - from);
    for (size_t i = 0; i < n; ++i) v[from + i] = static_cast<uint8_t>(i >> 9);
  }
  return v;
}

std::vector<uint8_t> RefInflate(const std::vector<uint8_t>& z, size_t expect) {
  std::vector<uint8_t> out(expect + 1);
  uLongf n = static_cast<uLongf>(out.size());
  const int ret = uncompress(out.data(), &n, z.data(), static_cast<uLong>(z.size()));
  if (ret != Z_OK) vp::Fail("zlib cannot decompress the data: " + std::to_string(ret));
  out.resize(n);
  return out;
}
void Same(const std::vector<uint8_t>& e, const std::vector<uint8_t>& a, const std::string& what) {
  if (e != a)
    vp::Fail(what + ": expected " + std::to_string(e.size()) + " bytes " + vp::Hex(e) + " got " + std::to_string(a.size()) +
             " bytes " + vp::Hex(a));
}

void Compress(vp::Gen& g) {
  model::NoLog();
  const auto in = Data(g);
  g.Note() << in.size() << " bytes";
  if (in.size() > 100) g.Nontrivial();
  // memory to memory
  ByteArray z;
  if (g.Chance(1, 4)) z.resize(g.Draw(2 * in.size() + 10), 0x55);
  if (in.empty()) {
    vp::CheckEq(false, Deflate(in, z), "Deflate of nothing");
  } else {
    vp::Check(Deflate(in, z), "Deflate(array) of " + std::to_string(in.size()) + " bytes");
    Same(in, RefInflate(z, in.size()), "Deflate(array)");
    ByteArray out(in.size() + (g.Chance(1, 3) ? g.Draw(500) : 0), 0xAA);
    vp::Check(Inflate(z, out), "Inflate(array)");
    Same(in, out, "Inflate(array)");
    MemBuf to;
    vp::Check(Inflate(z, to), "Inflate(array to stream)");
    Same(in, to.Data(), "Inflate(array to stream)");
    if (in.size() > 1) {
      // Cut data is reported.
      ByteArray cut(z.begin(), z.begin() + static_cast<long>(1 + g.Draw(z.size() - 2)));
      ByteArray out2(in.size(), 0);
      vp::CheckEq(false, Inflate(cut, out2), "Inflate of cut data");
      MemBuf to2;
      vp::CheckEq(false, Inflate(cut, to2), "Inflate of cut data to a stream");
      MemBuf from2(cut), to3;
      vp::CheckEq(false, Inflate(from2, to3), "Inflate of a cut stream");
    }
  }
  // stream to stream
  MemBuf from(in), mid;
  vp::Check(Deflate(from, mid), "Deflate(stream)");
  Same(in, RefInflate(mid.Data(), in.size()), "Deflate(stream)");
  {
    MemBuf a(mid.Data()), b;
    vp::Check(Inflate(a, b), "Inflate(stream)");
    Same(in, b.Data(), "Inflate(stream)");
  }
  {
    auto with_tail = mid.Data();
    const size_t tail = g.Draw(40000);
    for (size_t i = 0; i < tail; ++i) with_tail.push_back(static_cast<uint8_t>(i * 7));
    MemBuf a(with_tail), b;
    vp::Check(Inflate(a, b, mid.Data().size()), "Inflate(part of stream)");
    Same(in, b.Data(), "Inflate(part of stream)");
  }
  if (g.Chance(1, 4)) {
    const std::string name = vp::ScratchDir() + "/c14.bin";
    WriteFileBytes(name, in);
    ByteArray zf;
    const bool ok = Deflate(name, zf);
    if (!in.empty()) {
      vp::Check(ok, "Deflate(file)");
      Same(in, RefInflate(zf, in.size()), "Deflate(file)");
    }
  }
  g.Label(z.size() > in.size() ? "grows" : "shrinks");
}

void Transp(vp::Gen& g) {
  const size_t rec = g.Chance(1, 6) ? g.Draw(2000) : g.Draw(40);
  auto in = g.Bytes(g.Chance(1, 3) ? rec * g.Draw(20) : g.Draw(3000));
  auto t = in;
  Transpose(t, rec);
  vp::CheckEq(in.size(), t.size(), "size after transpose");
  auto ref = in;
  if (rec > 0) {
    const size_t rows = in.size() / rec;
    for (size_t r = 0; r < rows; ++r)
      for (size_t c = 0; c < rec; ++c) ref[c * rows + r] = in[r * rec + c];
  }
  Same(ref, t, "transpose with record size " + std::to_string(rec));
  InvTranspose(t, rec);
  Same(in, t, "inverse transpose with record size " + std::to_string(rec));
  if (rec > 1 && in.size() >= 2 * rec) g.Nontrivial();
  g.Note() << in.size() << " bytes, record " << rec;
}

const char* const kZones[] = {"UTC", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3",
                              "XXX3:30"};
struct Zone {
  explicit Zone(const char* z) {
    setenv("TZ", z, 1);
    tzset();
  }
  ~Zone() {
    setenv("TZ", "UTC", 1);
    tzset();
  }
};

// Days since 1970 of a civil date.
int64_t Days(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400;
  const int64_t yoe = y - era * 400;
  const int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  const int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
std::string Pad(uint64_t v, int n) {
  auto s = std::to_string(v);
  while (static_cast<int>(s.size()) < n) s.insert(s.begin(), '0');
  return s;
}

void Times(vp::Gen& g) {
  model::NoLog();
  const char* zone = kZones[g.Draw(5)];
  Zone z(zone);
  g.Label(zone);
  g.Nontrivial();
  const uint64_t mode = g.Draw(3);
  if (mode == 0) {
    // 1970-01-02 .. 2069-12-30
    const uint64_t ns = (86400000ull + g.Draw(3155500000000ull)) * 1000000ull;
    auto b = MdfHelper::NsToCanOpenDateArray(ns);
    vp::CheckEq(static_cast<size_t>(7), b.size(), "CANopen date size");
    vp::CheckEq(ns, MdfHelper::CanOpenDateArrayToNs(b), std::string("CANopen date in ") + zone);
    // Field check in UTC.
    if (std::string(zone) == "UTC") {
      const uint64_t ms = ns / 1000000;
      vp::CheckEq(static_cast<unsigned>(ms % 60000), static_cast<unsigned>(b[0] | b[1] << 8), "CANopen date ms");
      vp::CheckEq(static_cast<unsigned>(ms / 60000 % 60), static_cast<unsigned>(b[2] & 0x3F), "CANopen date minute");
      vp::CheckEq(static_cast<unsigned>(ms / 3600000 % 24), static_cast<unsigned>(b[3] & 0x1F), "CANopen date hour");
      const int64_t days = static_cast<int64_t>(ms / 86400000);
      vp::CheckEq(static_cast<unsigned>((days + 3) % 7 + 1), static_cast<unsigned>(b[4] >> 5), "CANopen date day of week");
      int64_t y = b[6] & 0x7F;
      y += y >= 70 ? 1900 : 2000;
      vp::CheckEq(days, Days(y, b[5] & 0x3F, b[4] & 0x1F), "CANopen date day");
    }
    g.Note() << "date " << ns << " " << zone;
  } else if (mode == 1) {
    const uint64_t day0 = 441763200ull * 1000;
    const uint64_t ns = (day0 + 86400000ull + g.Draw(65533ull * 86400000ull)) * 1000000ull;
    auto b = MdfHelper::NsToCanOpenTimeArray(ns);
    vp::CheckEq(static_cast<size_t>(6), b.size(), "CANopen time size");
    vp::CheckEq(ns, MdfHelper::CanOpenTimeArrayToNs(b), std::string("CANopen time in ") + zone);
    if (std::string(zone) == "UTC") {
      const uint64_t ms = ns / 1000000 - day0;
      vp::CheckEq(ms % 86400000, static_cast<uint64_t>(b[0]) | b[1] << 8 | b[2] << 16 | static_cast<uint64_t>(b[3]) << 24, "CANopen ms of day");
      vp::CheckEq(ms / 86400000, static_cast<uint64_t>(b[4] | b[5] << 8), "CANopen days");
    }
    g.Note() << "time " << ns << " " << zone;
  } else {
    // ISO date and time texts.
    const int year = static_cast<int>(g.Int(1970, 2200));
    const int month = static_cast<int>(g.Int(1, 12));
    const int day = static_cast<int>(g.Int(1, 28));
    const int h = static_cast<int>(g.Int(0, 23)), mi = static_cast<int>(g.Int(0, 59)), s = static_cast<int>(g.Int(0, 59));
    const uint64_t sec = static_cast<uint64_t>(Days(year, month, day)) * 86400 + static_cast<uint64_t>(h * 3600 + mi * 60 + s);
    const std::string date = Pad(static_cast<uint64_t>(year), 4) + "-" + Pad(static_cast<uint64_t>(month), 2) + "-" + Pad(static_cast<uint64_t>(day), 2);
    const std::string clock = Pad(static_cast<uint64_t>(h), 2) + ":" + Pad(static_cast<uint64_t>(mi), 2) + ":" + Pad(static_cast<uint64_t>(s), 2);
    const uint64_t frac = g.Draw(999999999);
    const uint64_t ns = sec * 1000000000ull + frac;
    UtcTimestamp t(ns);
    vp::CheckEq(ns, t.GetTimeNs(), "UTC time");
    vp::CheckEq(ns, t.GetUtcTimeNs(), "UTC time");
    const uint64_t ms = frac / 1000000;
    const std::string ms_text = ms > 0 ? "." + Pad(ms, 3) : "";
    vp::CheckEq(date + "Z", t.ToIsoDate(), "ISO date");
    vp::CheckEq(clock + ms_text + "Z", t.ToIsoTime(true), "ISO time");
    vp::CheckEq(clock + "Z", t.ToIsoTime(false), "ISO time");
    vp::CheckEq(date + "T" + clock + ms_text + "Z", t.ToIsoDateTime(true), "ISO date time");
    vp::CheckEq(date + "T" + clock + "Z", t.ToIsoDateTime(false), "ISO date time");
    // Parsing with a fraction of 1..9 digits and an optional zone.
    std::string text = date + (g.Bool() ? "T" : " ") + clock;
    uint64_t expect = sec * 1000000000ull;
    const uint64_t digits = g.Draw(9);
    if (digits > 0) {
      const std::string d = Pad(frac, 9).substr(0, static_cast<size_t>(digits));
      text += "." + d;
      expect += std::stoull((d + "000000000").substr(0, 9));
    }
    const uint64_t zone_form = g.Draw(3);
    if (zone_form == 1) text += "Z";
    if (zone_form >= 2) {
      const int64_t off = g.Int(-14 * 60, 14 * 60);
      const uint64_t a = static_cast<uint64_t>(off < 0 ? -off : off);
      text += (off < 0 ? "-" : "+") + Pad(a / 60, 2) + ":" + Pad(a % 60, 2);
      if (static_cast<int64_t>(sec) - off * 60 < 0) return;
      expect -= static_cast<uint64_t>(off * 60) * 1000000000ull;
    }
    UtcTimestamp p(text);
    vp::CheckEq(expect, p.GetUtcTimeNs(), "parsing of " + text);
    // Shorter forms, with or without separators; what is left out is the smallest possible.
    {
      const bool basic = g.Bool();
      const auto num = [](int v, int n) { return Pad(static_cast<uint64_t>(v), n); };
      const uint64_t parts = basic ? g.Draw(3) : g.Draw(4);  // 0: date, 1: hour, 2: minute, 3: second, 4: month
      std::string f = num(year, 4) + (basic ? "" : "-") + num(month, 2);
      uint64_t want = static_cast<uint64_t>(Days(year, month, parts == 4 ? 1 : day)) * 86400;
      if (parts != 4) f += (basic ? "" : "-") + num(day, 2);
      if (parts >= 1 && parts <= 3) {
        f += "T" + num(h, 2);
        want += static_cast<uint64_t>(h * 3600);
      }
      if (parts == 2 || parts == 3) {
        f += (basic ? "" : ":") + num(mi, 2);
        want += static_cast<uint64_t>(mi * 60);
      }
      if (parts == 3) {
        f += (basic ? "" : ":") + num(s, 2);
        want += static_cast<uint64_t>(s);
      }
      const uint64_t zf = parts == 4 || parts == 0 ? g.Draw(1) : g.Draw(3);
      int64_t off = 0;
      if (zf == 1) f += "Z";
      if (zf >= 2) {
        off = zf == 3 ? g.Int(-14, 14) * 60 : g.Int(-14 * 60, 14 * 60);
        const uint64_t a = static_cast<uint64_t>(off < 0 ? -off : off);
        f += (off < 0 ? "-" : "+") + Pad(a / 60, 2);
        if (zf == 2) f += (basic ? "" : ":") + Pad(a % 60, 2);
      }
      const int64_t utc = static_cast<int64_t>(want) - off * 60;
      if (utc >= 0) {
        UtcTimestamp u(f);
        vp::CheckEq(static_cast<uint64_t>(utc) * 1000000000ull, u.GetUtcTimeNs(), "parsing of " + f);
        UtcTimestamp u2;
        u2.FromIsoDateTime(f);
        vp::CheckEq(u.GetUtcTimeNs(), u2.GetUtcTimeNs(), "parsing of " + f);
      }
      UtcTimestamp clock_only("T" + t.ToIsoTime(true));
      vp::CheckEq((sec % 86400) * 1000000000ull + ms * 1000000, clock_only.GetUtcTimeNs(), "parsing of T" + t.ToIsoTime(true));
      vp::CheckEq(0, static_cast<int>(t.GetTimezoneMin()) + t.GetDstMin(), "zone of a UTC time");
    }
    UtcTimestamp q(t.ToIsoDateTime(true));
    vp::CheckEq(sec * 1000000000ull + ms * 1000000, q.GetUtcTimeNs(), "ISO round trip");
    const std::string dmy = Pad(static_cast<uint64_t>(day), 2) + ":" + Pad(static_cast<uint64_t>(month), 2) + ":" + Pad(static_cast<uint64_t>(year), 4);
    vp::CheckEq(dmy, MdfHelper::NanoSecUtcToDDMMYYYY(ns), "UTC date");
    vp::CheckEq(clock, MdfHelper::NanoSecUtcToHHMMSS(ns), "UTC clock");
    const auto tz = static_cast<int16_t>(g.Int(-14 * 60, 14 * 60));
    const auto dst = static_cast<int16_t>(g.Int(0, 2) * 30);
    if (static_cast<int64_t>(sec) + (tz + dst) * 60 >= 0) {
      const uint64_t shifted = static_cast<uint64_t>(static_cast<int64_t>(ns) + (tz + dst) * 60000000000ll);
      vp::CheckEq(MdfHelper::NanoSecUtcToDDMMYYYY(shifted), MdfHelper::NanoSecTzToDDMMYYYY(ns, tz, dst), "zone date");
      vp::CheckEq(MdfHelper::NanoSecUtcToHHMMSS(shifted), MdfHelper::NanoSecTzToHHMMSS(ns, tz, dst), "zone clock");
    }
    if (std::string(zone) == "UTC") {
      vp::CheckEq(dmy, MdfHelper::NanoSecToDDMMYYYY(ns), "date");
      vp::CheckEq(clock, MdfHelper::NanoSecToHHMMSS(ns), "clock");
      vp::CheckEq(date + " " + clock + ms_text, MdfHelper::NsToLocalIsoTime(ns), "local ISO time");
    }
    g.Note() << text << " " << zone;
  }
}

void Texts(vp::Gen& g) {
  // UTF-8 <-> wide
  const std::string utf8 = g.Text(60);
  std::wstring ref;
  for (size_t i = 0; i < utf8.size();) {
    const auto c = static_cast<uint8_t>(utf8[i]);
    const int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    uint32_t cp = n == 1 ? c : n == 2 ? c & 0x1F : n == 3 ? c & 0x0F : c & 0x07;
    for (int k = 1; k < n; ++k) cp = cp << 6 | (static_cast<uint8_t>(utf8[i + static_cast<size_t>(k)]) & 0x3F);
    ref.push_back(static_cast<wchar_t>(cp));
    i += static_cast<size_t>(n);
  }
  const std::wstring wide = MdfHelper::Utf8ToUtf16(utf8);
  vp::Check(wide == ref, "Utf8ToUtf16 of " + vp::Quote(utf8));
  vp::CheckEq(utf8, MdfHelper::Utf16ToUtf8(wide), "Utf16ToUtf8");
  // Latin1
  std::string latin;
  for (size_t n = g.Draw(40); n > 0; --n) latin += static_cast<char>(1 + g.Draw(254));
  std::string lref;
  for (char ch : latin) {
    const auto c = static_cast<uint8_t>(ch);
    if (c < 0x80) lref += ch;
    else {
      lref += static_cast<char>(0xC0 | c >> 6);
      lref += static_cast<char>(0x80 | (c & 0x3F));
    }
  }
  vp::CheckEq(lref, MdfHelper::Latin1ToUtf8(latin), "Latin1ToUtf8");
  // Trim
  std::string core = g.Ident(10) + (g.Bool() ? " " + g.Ident(4) : "");
  if (g.Chance(1, 5)) core.clear();
  std::string t = std::string(g.Draw(4), ' ') + (g.Bool() ? "\t\n" : "") + core + (g.Bool() ? "\r\n" : "") + std::string(g.Draw(4), ' ');
  MdfHelper::Trim(t);
  vp::CheckEq(core, t, "Trim");
  const auto arr = MdfHelper::TextToByteArray(latin);
  vp::Check(std::string(arr.begin(), arr.end()) == latin, "TextToByteArray");
  if (!utf8.empty()) g.Nontrivial();
  g.Note() << vp::Quote(utf8);
}

void Raw(vp::Gen& g) {
  const size_t bytes = 1 + g.Draw(19);
  auto raw = g.Bytes(bytes);
  const auto before = raw;
  const bool le = g.Bool();
  const size_t length = 1 + g.Draw(std::min<size_t>(64, bytes * 8) - 1);
  const uint64_t value = g.U64();
  size_t start = 0;
  if (le) {
    start = g.Draw(bytes * 8 - length);
  } else {
    // Big endian: position of the most significant bit, counted with bit 7 first in each byte.
    const size_t seq = g.Draw(bytes * 8 - length);
    start = seq / 8 * 8 + (7 - seq % 8);
  }
  MdfHelper::UnsignedToRaw(le, start, length, value, raw.data());
  auto ref = before;
  for (size_t i = 0; i < length; ++i) {
    size_t byte, bit;
    bool v;
    if (le) {
      byte = (start + i) / 8;
      bit = (start + i) % 8;
      v = value >> i & 1;
    } else {
      const size_t seq = start / 8 * 8 + (7 - start % 8) + i;
      byte = seq / 8;
      bit = 7 - seq % 8;
      v = value >> (length - 1 - i) & 1;
    }
    ref[byte] = static_cast<uint8_t>((ref[byte] & ~(1u << bit)) | (v ? 1u << bit : 0u));
  }
  Same(ref, raw, "UnsignedToRaw le " + std::to_string(le) + " start " + std::to_string(start) + " length " + std::to_string(length));
  // Format of floating point values: within the precision asked for.
  const double x = static_cast<double>(g.Int(-1000000, 1000000)) / std::pow(10.0, static_cast<double>(g.Draw(8))) *
                   (g.Chance(1, 5) ? 1e6 : 1.0);
  const auto dec = static_cast<uint8_t>(g.Draw(9));
  const bool fixed = g.Bool();
  const std::string unit = g.Bool() ? g.Ident(4) : "";
  std::string text = MdfHelper::FormatDouble(x, dec, fixed, unit);
  if (!unit.empty()) {
    vp::Check(text.size() > unit.size() + 1 && text.substr(text.size() - unit.size() - 1) == " " + unit, "unit in " + text);
    text.resize(text.size() - unit.size() - 1);
  }
  char* end = nullptr;
  const double back = std::strtod(text.c_str(), &end);
  vp::Check(end != nullptr && *end == 0 && !text.empty(), "FormatDouble gives no number: " + text);
  if (std::fabs(back - x) > std::max(0.500001 * std::pow(10.0, -dec), 5.1e-6 * std::fabs(x)))
    vp::CheckEq(x, back, "FormatDouble with " + std::to_string(dec) + " decimals: " + text);
  if (length > 8) g.Nontrivial();
  g.Note() << "le " << le << " start " << start << " length " << length << ", " << text;
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C14";
  p.assumptions = {"zlib is correct", "times 1970..2069 for CANopen dates, 1984 + 65535 days for CANopen times, millisecond resolution",
                   "the zone rules are given as POSIX TZ strings"};
  p.subs.push_back({"compress", 40000, 300000, Compress, "more than 100 bytes"});
  p.subs.push_back({"transpose", 60000, 2000000, Transp, "at least two records of two bytes"});
  p.subs.push_back({"times", 600000, 6000000, Times, "every case"});
  p.subs.push_back({"texts", 100000, 3000000, Texts, "text not empty"});
  p.subs.push_back({"raw", 600000, 6000000, Raw, "more than 8 bits"});
  return vp::Main(argc, argv, p);
}
