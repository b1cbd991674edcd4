#include "common/enc4.h"

#include <zlib.h>

#include <algorithm>
#include <cmath>
#include <limits>

namespace enc {

int Image::Add(const std::string& id, std::vector<int> link, std::vector<uint8_t> data) {
  blk.push_back({id, std::move(link), std::move(data)});
  return static_cast<int>(blk.size()) - 1;
}

int Image::Text(const std::string& text) {
  std::vector<uint8_t> d(text.begin(), text.end());
  d.push_back(0);
  while (d.size() % 8) d.push_back(0);
  return Add("TX", {}, d);
}

int Image::Xml(const std::string& text) {
  std::vector<uint8_t> d(text.begin(), text.end());
  d.push_back(0);
  while (d.size() % 8) d.push_back(0);
  return Add("MD", {}, d);
}

std::vector<uint8_t> Image::Bytes(vp::Gen* g) const {
  std::vector<size_t> order;
  for (size_t i = 1; i < blk.size(); ++i) order.push_back(i);
  const bool shuffle = g && g->Chance(1, 4);
  const bool gaps = g && g->Chance(1, 5);
  if (shuffle) {
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g->Draw(i - 1)]);
    g->Label("blocks in any order");
  }
  order.insert(order.begin(), 0);
  std::vector<uint64_t> pos(blk.size());
  uint64_t at = 64;
  for (size_t i : order) {
    pos[i] = at;
    at += 24 + 8 * blk[i].link.size() + blk[i].data.size();
    at = (at + 7) / 8 * 8;
    if (gaps && g->Chance(1, 6)) at += 8 * (1 + g->Draw(3));
  }
  std::vector<uint8_t> out(64, 0);
  auto put = [&](size_t p, const std::string& s) { memcpy(out.data() + p, s.data(), s.size()); };
  put(0, file_id);
  put(8, version + "    ");
  put(16, "verif   ");
  const uint16_t ver = static_cast<uint16_t>((version[0] - '0') * 100 + (version[2] - '0') * 10 + (version[3] - '0'));
  memcpy(out.data() + 28, &ver, 2);
  memcpy(out.data() + 60, &unfinished, 2);
  for (size_t i : order) {
    out.resize(static_cast<size_t>(pos[i]), gaps ? 0xEE : 0);
    const Blk& b = blk[i];
    Out o;
    o.b.insert(o.b.end(), {'#', '#', static_cast<uint8_t>(b.id[0]), static_cast<uint8_t>(b.id[1])});
    o.N<uint32_t>(0).N<uint64_t>(24 + 8 * b.link.size() + b.data.size()).N<uint64_t>(b.link.size());
    for (int l : b.link) o.N<uint64_t>(l < 0 ? 0 : pos[static_cast<size_t>(l)]);
    o.Raw(b.data);
    out.insert(out.end(), o.b.begin(), o.b.end());
  }
  return out;
}

std::vector<uint8_t> Zip(const std::vector<uint8_t>& in, int level) {
  uLongf n = compressBound(in.size());
  std::vector<uint8_t> out(n);
  compress2(out.data(), &n, in.data(), in.size(), level);
  out.resize(n);
  return out;
}

std::vector<uint8_t> Transpose(const std::vector<uint8_t>& in, size_t columns) {
  if (columns == 0) return in;
  const size_t rows = in.size() / columns;
  std::vector<uint8_t> out = in;
  for (size_t r = 0; r < rows; ++r)
    for (size_t c = 0; c < columns; ++c) out[c * rows + r] = in[r * columns + c];
  return out;
}

namespace {

const std::vector<std::string> kDtNames = {"uLE", "uBE", "iLE", "iBE", "fLE", "fBE", "latin1", "utf8", "utf16LE",
                                           "utf16BE", "bytes", "mimeSample", "mimeStream", "date", "time"};

int EncodeBlock(vp::Gen& g, Image& im, const std::vector<uint8_t>& data, const std::string& type, bool zip,
                int zip_type, size_t record_size) {
  if (!zip) return im.Add(type, {}, data);
  uint32_t param = 0;
  std::vector<uint8_t> src = data;
  if (zip_type == 1) {
    param = static_cast<uint32_t>(g.Chance(1, 3) ? 1 + g.Draw(20) : std::max<size_t>(1, record_size));
    src = Transpose(data, param);
    g.Label(param > data.size() ? "transposed, less than a row" : data.size() % param ? "transposed, rest" : "transposed");
  } else {
    g.Label("deflated");
  }
  const auto z = Zip(src, g.Pick({6, 0, 1, 9}));
  Out o;
  o.b = {static_cast<uint8_t>(type[0]), static_cast<uint8_t>(type[1]), static_cast<uint8_t>(zip_type), 0};
  o.N<uint32_t>(param).N<uint64_t>(data.size()).N<uint64_t>(z.size()).Raw(z);
  return im.Add("DZ", {}, o.b);
}

std::string Utf8(uint32_t c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) {
    s += static_cast<char>(0xC0 | (c >> 6));
    s += static_cast<char>(0x80 | (c & 0x3F));
  } else if (c < 0x10000) {
    s += static_cast<char>(0xE0 | (c >> 12));
    s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
    s += static_cast<char>(0x80 | (c & 0x3F));
  } else {
    s += static_cast<char>(0xF0 | (c >> 18));
    s += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
    s += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
    s += static_cast<char>(0x80 | (c & 0x3F));
  }
  return s;
}

bool IsString(uint8_t dt) { return dt >= 6 && dt <= 9; }

// Text content of about the wanted number of bytes in the encoding of dt.
std::vector<uint8_t> GenText(vp::Gen& g, uint8_t dt, size_t max_bytes, bool terminate) {
  std::vector<uint8_t> out;
  const size_t n = g.Draw(max_bytes);
  while (true) {
    uint32_t c;
    switch (g.Draw(5)) {
      case 0: case 1: case 2: c = static_cast<uint32_t>(' ' + g.Draw(94)); break;
      case 3: c = static_cast<uint32_t>(0xA1 + g.Draw(0x5E)); break;
      case 4: c = dt == 6 ? 'x' : static_cast<uint32_t>(0x100 + g.Draw(0x2000)); break;
      default: c = dt == 6 ? 'y' : dt == 7 ? static_cast<uint32_t>(0x10000 + g.Draw(0xFFFF)) : 0xE000 + static_cast<uint32_t>(g.Draw(0x1FFD)); break;
    }
    std::vector<uint8_t> e;
    if (dt == 6) e = {static_cast<uint8_t>(c)};
    else if (dt == 7) { auto s = Utf8(c); e.assign(s.begin(), s.end()); }
    else if (dt == 8) e = {static_cast<uint8_t>(c), static_cast<uint8_t>(c >> 8)};
    else e = {static_cast<uint8_t>(c >> 8), static_cast<uint8_t>(c)};
    if (out.size() + e.size() > n) break;
    out.insert(out.end(), e.begin(), e.end());
  }
  if (terminate) {
    out.push_back(0);
    if (dt >= 8) out.push_back(0);
  }
  return out;
}

std::string TextOf(uint8_t dt, const std::vector<uint8_t>& b) {
  std::string s;
  if (dt == 6) {
    for (uint8_t c : b) { if (!c) break; s += Utf8(c); }
  } else if (dt == 7) {
    for (uint8_t c : b) { if (!c) break; s += static_cast<char>(c); }
  } else {
    for (size_t i = 0; i + 2 <= b.size(); i += 2) {
      uint32_t c = dt == 8 ? b[i] | b[i + 1] << 8 : b[i] << 8 | b[i + 1];
      if (!c) break;
      s += Utf8(c);
    }
  }
  return s;
}

double Half(uint16_t h) {
  const int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
  double v;
  if (e == 31) v = m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
  else if (e == 0) v = std::ldexp(m, -24);
  else v = std::ldexp(1024 + m, e - 25);
  return s ? -v : v;
}

// Days since 1984-01-01 and calendar to ns since 1970 (own calculation)
int64_t DaysFromCivil(int y, int m, int d) {
  y -= m <= 2;
  const int era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = static_cast<unsigned>(y - era * 400);
  const unsigned doy = static_cast<unsigned>((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1);
  const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return static_cast<int64_t>(era) * 146097 + static_cast<int64_t>(doe) - 719468;
}

}  // namespace

int EncodeData(vp::Gen& g, Image& im, const std::vector<uint8_t>& data, const std::string& type, size_t record_size) {
  if (data.empty() && g.Bool()) return -1;
  const int form = static_cast<int>(g.Draw(3));
  const int zip_type = static_cast<int>(g.Draw(1));
  if (form == 0) {
    g.Label("plain");
    return EncodeBlock(g, im, data, type, false, 0, record_size);
  }
  if (form == 1 && !data.empty()) return EncodeBlock(g, im, data, type, true, zip_type, record_size);
  // list
  const bool zip = form == 3 && !data.empty();
  std::vector<std::vector<uint8_t>> part;
  const bool equal = g.Bool();
  const bool empty_parts = g.Chance(1, 4);
  const bool column = type == "DV";  // parts are whole records
  uint64_t equal_len = 0;
  if (equal) {
    equal_len = 1 + g.Draw(std::max<size_t>(1, std::min<size_t>(data.size() + 3, g.Bool() ? 12 : data.size() + 3)));
    if (data.size() / equal_len > 300) equal_len = data.size() / 300 + 1;
    if (column) equal_len = (equal_len + record_size - 1) / record_size * record_size;
    for (size_t p = 0; p < data.size(); p += equal_len)
      part.emplace_back(data.begin() + static_cast<long>(p), data.begin() + static_cast<long>(std::min<size_t>(data.size(), p + equal_len)));
  } else {
    const size_t n = 1 + g.Size(10);
    std::vector<size_t> cut = {0, data.size()};
    for (size_t i = 1; i < n; ++i) cut.push_back(static_cast<size_t>(g.Draw(data.size())));
    if (column)
      for (size_t i = 2; i < cut.size(); ++i) cut[i] = cut[i] / record_size * record_size;
    std::sort(cut.begin(), cut.end());
    for (size_t i = 0; i + 1 < cut.size(); ++i) {
      if (cut[i] == cut[i + 1] && cut.size() > 2) {
        if (!empty_parts) continue;
        g.Label("empty part");
      }
      part.emplace_back(data.begin() + static_cast<long>(cut[i]), data.begin() + static_cast<long>(cut[i + 1]));
    }
  }
  if (part.empty()) part.emplace_back();
  std::vector<int> blocks;
  std::vector<uint64_t> offset;
  uint64_t at = 0;
  for (const auto& p : part) {
    const bool z = zip && !p.empty() && !g.Chance(1, 8);
    blocks.push_back(EncodeBlock(g, im, p, type, z, zip_type, record_size));
    offset.push_back(at);
    at += p.size();
  }
  // divide in DL blocks
  std::vector<std::pair<size_t, size_t>> lists;
  for (size_t i = 0; i < blocks.size();) {
    const size_t n = g.Bool() ? blocks.size() - i : 1 + g.Draw(blocks.size() - i - 1);
    lists.push_back({i, i + n});
    i += n;
  }
  int next = -1;
  // time, angle and distance of the first record of each block may be given
  const uint8_t values = g.Chance(1, 4) ? static_cast<uint8_t>(g.Draw(7) << 1) : 0;
  if (values) g.Label("list with master values");
  for (size_t l = lists.size(); l-- > 0;) {
    std::vector<int> link = {next};
    Out o;
    o.b = {static_cast<uint8_t>((equal ? 1 : 0) | values), 0, 0, 0};
    o.N<uint32_t>(static_cast<uint32_t>(lists[l].second - lists[l].first));
    for (size_t i = lists[l].first; i < lists[l].second; ++i) link.push_back(blocks[i]);
    const uint64_t unit = column ? record_size : 1;  // LD counts samples
    if (equal) o.N<uint64_t>(equal_len / unit);
    else for (size_t i = lists[l].first; i < lists[l].second; ++i) o.N<uint64_t>(offset[i] / unit);
    for (uint8_t bit = 2; bit <= 8; bit = static_cast<uint8_t>(bit << 1))
      if (values & bit)
        for (size_t i = lists[l].first; i < lists[l].second; ++i) o.N<int64_t>(static_cast<int64_t>(i) * 1000);
    next = im.Add(column ? "LD" : "DL", link, o.b);
  }
  g.Label(lists.size() > 1 ? "several lists" : blocks.size() > 1 ? "list" : "list of one");
  if (zip || g.Chance(1, 6)) {
    Out o;
    o.N<uint16_t>(equal ? 1 : 0).N<uint8_t>(static_cast<uint8_t>(zip ? zip_type : 0));
    o.b.resize(8, 0);
    next = im.Add("HL", {next}, o.b);
    g.Label("header list");
  }
  return next;
}

File Generate(vp::Gen& g, const Opts& o) {
  File f;
  const size_t ndg = 1 + g.Draw(o.max_dg - 1);
  int number = 0;
  for (size_t d = 0; d < ndg; ++d) {
    Dg dg;
    const size_t ncg = 1 + g.Draw(o.max_cg - 1);
    std::vector<std::pair<size_t, size_t>> wants_cg;  // channels with a VLSD group
    const bool allow_vlsd_cg = o.vlsd && g.Chance(1, 3);
    for (size_t k = 0; k < ncg; ++k) {
      Cg cg;
      cg.name = "G" + std::to_string(d) + "_" + std::to_string(k);
      const size_t nrec = g.Chance(1, 40) ? 300 + g.Draw(400) : g.Size(o.max_rec);
      const uint32_t free_bytes = static_cast<uint32_t>(1 + g.Draw(g.Chance(1, 10) ? 120 : 24));
      uint32_t end = free_bytes;  // reserved places are appended
      const size_t ncn = 1 + g.Draw(o.max_cn - 1);
      struct Slot { size_t cn; uint32_t at; uint32_t bytes; };
      std::vector<Slot> text, index, mlsd;
      bool inv_group = g.Bool();
      for (size_t c = 0; c < ncn; ++c) {
        Cn cn;
        cn.name = "c" + std::to_string(number++);
        const uint64_t what = g.Draw(19);
        if (what <= 9) {  // integer anywhere in the free bytes
          cn.dt = static_cast<uint8_t>(g.Draw(3));
          cn.bits = static_cast<uint32_t>(g.Chance(1, 3) ? g.Pick({8, 16, 32, 64, 24, 1}) : 1 + g.Draw(63));
          cn.bit_off = static_cast<uint8_t>(g.Bool() ? 0 : g.Draw(7));
          const uint32_t need = (cn.bit_off + cn.bits + 7) / 8;
          if (need > free_bytes) {
            cn.bit_off = 0;
            cn.bits = std::min<uint32_t>(cn.bits, free_bytes * 8);
          }
          const uint32_t n = (cn.bit_off + cn.bits + 7) / 8;
          cn.byte_off = static_cast<uint32_t>(g.Draw(free_bytes - n));
        } else if (what <= 11) {  // float
          cn.dt = static_cast<uint8_t>(4 + g.Draw(1));
          cn.bits = g.Pick({64u, 32u, 16u});
          while (cn.bits / 8 > free_bytes) cn.bits /= 2;
          if (cn.bits < 16) { cn.dt = 0; cn.bits = 8; }
          cn.byte_off = static_cast<uint32_t>(g.Draw(free_bytes - cn.bits / 8));
        } else if (what == 12) {  // byte array in the free bytes
          cn.dt = g.Pick({uint8_t{10}, uint8_t{11}, uint8_t{12}});
          const uint32_t n = static_cast<uint32_t>(1 + g.Draw(free_bytes - 1));
          cn.bits = n * 8;
          cn.byte_off = static_cast<uint32_t>(g.Draw(free_bytes - n));
          if (g.Bool()) {  // structure with members
            const size_t m = 1 + g.Draw(3);
            for (size_t i = 0; i < m; ++i) {
              Cn sub;
              sub.name = cn.name + ".m" + std::to_string(i);
              sub.dt = static_cast<uint8_t>(g.Draw(3));
              sub.bits = static_cast<uint32_t>(1 + g.Draw(std::min<uint32_t>(63, n * 8 - 1)));
              sub.byte_off = cn.byte_off + static_cast<uint32_t>(g.Draw(n - (sub.bits + 7) / 8));
              cn.comp.push_back(sub);
            }
          }
        } else if (what == 13) {  // fixed text in its own place
          cn.dt = static_cast<uint8_t>(6 + g.Draw(3));
          const uint32_t n = static_cast<uint32_t>(2 * (1 + g.Draw(12)));
          cn.bits = n * 8;
          cn.byte_off = end;
          end += n;
          text.push_back({cg.cn.size(), cn.byte_off, n});
        } else if (what == 14) {  // date or time in its own place
          cn.dt = static_cast<uint8_t>(13 + g.Draw(1));
          cn.bits = cn.dt == 13 ? 56 : 48;
          cn.byte_off = end;
          end += cn.bits / 8;
          text.push_back({cg.cn.size(), cn.byte_off, cn.bits / 8});
        } else if (what <= 17 && o.vlsd) {  // variable length
          cn.type = 1;
          cn.dt = g.Pick({uint8_t{7}, uint8_t{6}, uint8_t{8}, uint8_t{9}, uint8_t{10}, uint8_t{11}, uint8_t{12}});
          cn.vlsd = allow_vlsd_cg && g.Bool() ? kCg : kSd;
          cn.bits = g.Chance(1, 4) ? 32 : 64;
          cn.byte_off = end;
          end += cn.bits / 8;
          index.push_back({cg.cn.size(), cn.byte_off, cn.bits / 8});
          if (cn.vlsd == kCg) wants_cg.push_back({k, cg.cn.size()});
        } else if (what == 18) {  // maximum length with its length channel
          Cn len;
          len.name = "c" + std::to_string(number++);
          len.dt = static_cast<uint8_t>(g.Draw(1));
          len.bits = g.Bool() ? 8 : 16;
          len.byte_off = end;
          end += len.bits / 8;
          cg.cn.push_back(len);
          cn.type = 5;
          cn.len_cn = static_cast<int>(cg.cn.size()) - 1;
          cn.dt = g.Pick({uint8_t{10}, uint8_t{11}, uint8_t{12}, uint8_t{7}, uint8_t{6}});
          const uint32_t n = static_cast<uint32_t>(1 + g.Draw(20));
          cn.bits = n * 8;
          cn.byte_off = end;
          end += n;
          mlsd.push_back({cg.cn.size(), cn.byte_off, n});
        } else {
          cn.type = g.Bool() ? 3 : 6;
          cn.dt = 0;
          cn.bits = 0;
          cn.byte_off = 0;
          if (cn.type == 3) cn.sync = 4;
        }
        if (inv_group && cn.type != 3 && cn.type != 6 && g.Bool()) cn.flags |= 2;
        if (cn.type != 3 && cn.type != 6 && g.Chance(1, 40)) cn.flags |= 1;
        cg.cn.push_back(cn);
      }
      if (cg.cn[0].type == 0 && cg.cn[0].dt <= 5 && g.Chance(1, 3)) {
        cg.cn[0].type = 2;
        cg.cn[0].sync = static_cast<uint8_t>(1 + g.Draw(3));
      }
      cg.data_bytes = end + static_cast<uint32_t>(g.Chance(1, 4) ? g.Draw(5) : 0);
      uint32_t npos = 0;
      bool any = false;
      const uint32_t spread = static_cast<uint32_t>(g.Draw(9));
      for (auto& c : cg.cn)
        if (c.flags & 2) {
          any = true;
          c.inv_pos = npos + static_cast<uint32_t>(g.Draw(spread));
          npos = c.inv_pos + 1;
        }
      if (any) cg.inv_bytes = (npos + 7) / 8 + static_cast<uint32_t>(g.Chance(1, 4) ? 1 : 0);
      else if (g.Chance(1, 10)) cg.inv_bytes = 1;
      // all invalid and invalidation bit: the bit has to be set for all
      const int content = static_cast<int>(g.Draw(3));
      std::vector<uint64_t> sd_size(cg.cn.size(), 0);
      for (size_t s = 0; s < nrec; ++s) {
        std::vector<uint8_t> r;
        if (content == 0) r.assign(cg.data_bytes + cg.inv_bytes, static_cast<uint8_t>(s));
        else if (content == 1) {
          r.resize(cg.data_bytes + cg.inv_bytes);
          for (auto& b : r) b = g.Chance(1, 4) ? 0xFF : static_cast<uint8_t>(g.Draw(255));
        } else r = g.Bytes(cg.data_bytes + cg.inv_bytes);
        for (const auto& t : text) {
          const auto& c = cg.cn[t.cn];
          std::vector<uint8_t> v;
          if (IsString(c.dt)) {
            v = GenText(g, c.dt, t.bytes, false);
            if (v.size() < t.bytes) {
              v.push_back(0);
              if (c.dt >= 8 && v.size() < t.bytes) v.push_back(0);
            }
            while (v.size() < t.bytes) v.push_back(static_cast<uint8_t>(g.Draw(1) * 0x41));
          } else if (c.dt == 13) {
            const uint16_t ms = static_cast<uint16_t>(g.Draw(59999));
            const int month = static_cast<int>(1 + g.Draw(11));
            const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
            const int day = static_cast<int>(1 + g.Draw(static_cast<uint64_t>(dim[month - 1] - 1)));
            const int year = static_cast<int>((g.Draw(85) + 84) % 100);  // 1984..2069
            v = {static_cast<uint8_t>(ms), static_cast<uint8_t>(ms >> 8), static_cast<uint8_t>(g.Draw(59)),
                 static_cast<uint8_t>(g.Draw(23)), static_cast<uint8_t>(day), static_cast<uint8_t>(month),
                 static_cast<uint8_t>(year)};
          } else {
            const uint32_t ms = static_cast<uint32_t>(g.Draw(86399999));
            const uint16_t days = static_cast<uint16_t>(g.Draw(0xFFFF));
            v.resize(6);
            memcpy(v.data(), &ms, 4);
            memcpy(v.data() + 4, &days, 2);
          }
          std::copy(v.begin(), v.end(), r.begin() + t.at);
        }
        for (const auto& t : index) {
          auto& c = cg.cn[t.cn];
          std::vector<uint8_t> v = IsString(c.dt) ? GenText(g, c.dt, g.Chance(1, 20) ? 200 : 12, g.Bool())
                                                  : g.Bytes(g.Size(g.Chance(1, 20) ? 300 : 12));
          const uint64_t at = sd_size[t.cn];
          memcpy(r.data() + t.at, &at, t.bytes);
          sd_size[t.cn] += 4 + v.size();
          c.var.push_back(std::move(v));
        }
        for (const auto& t : mlsd) {
          const auto& c = cg.cn[t.cn];
          const auto& len = cg.cn[static_cast<size_t>(c.len_cn)];
          size_t n = g.Draw(t.bytes);
          if (IsString(c.dt)) {
            auto v = GenText(g, c.dt, n, false);
            n = v.size();
            std::copy(v.begin(), v.end(), r.begin() + t.at);
          }
          if (len.bits == 8) r[len.byte_off] = static_cast<uint8_t>(n);
          else if (len.dt % 2 == 0) { r[len.byte_off] = static_cast<uint8_t>(n); r[len.byte_off + 1] = 0; }
          else { r[len.byte_off + 1] = static_cast<uint8_t>(n); r[len.byte_off] = 0; }
        }
        for (const auto& c : cg.cn)
          if (c.flags & 2) {
            auto& b = r[cg.data_bytes + c.inv_pos / 8];
            const uint8_t m = static_cast<uint8_t>(1 << (c.inv_pos % 8));
            if ((c.flags & 1) || g.Chance(1, 4)) b |= m;
            else b &= static_cast<uint8_t>(~m);
          }
        cg.rec.push_back(std::move(r));
      }
      dg.cg.push_back(std::move(cg));
    }
    // VLSD groups at the end of the list of groups
    for (auto& [k, c] : wants_cg) {
      Cg v;
      v.vlsd = true;
      v.rec = dg.cg[k].cn[c].var;
      dg.cg[k].cn[c].vlsd_cg = dg.cg.size();
      dg.cg.push_back(std::move(v));
    }
    // record identifiers
    if (dg.cg.size() > 1 || g.Chance(1, 4)) {
      dg.id_size = g.Pick({uint8_t{1}, uint8_t{2}, uint8_t{4}, uint8_t{8}});
      std::vector<uint64_t> used;
      const uint64_t max = dg.id_size == 8 ? UINT64_MAX - 1 : (uint64_t{1} << (8 * dg.id_size)) - 2;
      for (auto& cg : dg.cg) {
        uint64_t id = 1 + (g.Bool() ? used.size() : g.Draw(max - 1));
        while (std::find(used.begin(), used.end(), id) != used.end()) id = id % max + 1;
        cg.id = id;
        used.push_back(id);
      }
    } else if (g.Chance(1, 3)) {
      dg.cg[0].id = g.Draw(1000);
    }
    // order of the records
    std::vector<size_t> at(dg.cg.size(), 0);
    const bool blocks = g.Bool();
    while (true) {
      std::vector<size_t> left;
      for (size_t k = 0; k < dg.cg.size(); ++k)
        if (at[k] < dg.cg[k].rec.size()) left.push_back(k);
      if (left.empty()) break;
      const size_t k = left[g.Draw(left.size() - 1)];
      const size_t n = blocks ? 1 + g.Draw(4) : 1;
      for (size_t i = 0; i < n && at[k] < dg.cg[k].rec.size(); ++i) dg.order.push_back({k, at[k]++});
    }
    f.dg.push_back(std::move(dg));
  }
  return f;
}

Image Encode(vp::Gen& g, const File& f) {
  Image im;
  im.version = g.Pick({"4.10", "4.10", "4.11", "4.20", "4.00"});
  im.Add("HD", {-1, -1, -1, -1, -1, -1}, {});
  {
    Out o;
    o.N<uint64_t>(1600000000000000000ull).N<int16_t>(0).N<int16_t>(0);
    o.b.insert(o.b.end(), {0, 0, 0, 0});
    o.N<double>(0).N<double>(0);
    im.blk[0].data = o.b;
  }
  {
    Out o;
    o.N<uint64_t>(1600000000000000000ull).N<int16_t>(0).N<int16_t>(0).N<uint32_t>(0);
    im.blk[0].link[1] = im.Add("FH", {-1, im.Xml("<FHcomment><TX>v</TX><tool_id>v</tool_id><tool_vendor>v</tool_vendor>"
                                                 "<tool_version>1</tool_version></FHcomment>")}, o.b);
  }
  // Next links are patched: blocks are added first to last.
  int prev_dg = -1;
  for (const auto& dg : f.dg) {
    Out od;
    od.N<uint8_t>(dg.id_size);
    od.b.resize(8, 0);
    const int dgi = im.Add("DG", {-1, -1, -1, -1}, od.b);
    if (prev_dg < 0) im.blk[0].link[0] = dgi;
    else im.blk[static_cast<size_t>(prev_dg)].link[0] = dgi;
    prev_dg = dgi;
    std::vector<int> cg_blk;
    std::vector<std::vector<int>> cn_blk(dg.cg.size());
    for (size_t k = 0; k < dg.cg.size(); ++k) {
      const auto& cg = dg.cg[k];
      Out oc;
      oc.N<uint64_t>(cg.id).N<uint64_t>(cg.rec.size()).N<uint16_t>(cg.vlsd ? 1 : 0).N<uint16_t>('.').N<uint32_t>(0);
      if (cg.vlsd) {
        uint64_t total = 0;
        for (const auto& r : cg.rec) total += r.size() + 4;
        oc.N<uint64_t>(total);
      } else {
        oc.N<uint32_t>(cg.data_bytes).N<uint32_t>(cg.inv_bytes);
      }
      const int name = cg.name.empty() ? -1 : im.Text(cg.name);
      const int cgi = im.Add("CG", {-1, -1, name, -1, -1, -1}, oc.b);
      if (k == 0) im.blk[static_cast<size_t>(dgi)].link[1] = cgi;
      else im.blk[static_cast<size_t>(cg_blk.back())].link[0] = cgi;
      cg_blk.push_back(cgi);
      std::function<int(const Cn&)> add = [&](const Cn& c) {
        Out o;
        o.N<uint8_t>(c.type).N<uint8_t>(c.sync).N<uint8_t>(c.dt).N<uint8_t>(c.bit_off).N<uint32_t>(c.byte_off);
        o.N<uint32_t>(c.bits).N<uint32_t>(c.flags).N<uint32_t>(c.inv_pos).N<uint8_t>(0).N<uint8_t>(0).N<uint16_t>(0);
        for (int i = 0; i < 6; ++i) o.N<double>(0);
        const int tx = im.Text(c.name);
        int data = -1;
        if (c.vlsd == kSd) {
          std::vector<uint8_t> sd;
          for (const auto& v : c.var) {
            Out e;
            e.N<uint32_t>(static_cast<uint32_t>(v.size())).Raw(v);
            sd.insert(sd.end(), e.b.begin(), e.b.end());
          }
          data = EncodeData(g, im, sd, "SD", 4);
        }
        const int me = im.Add("CN", {-1, -1, tx, -1, -1, data, -1, -1}, o.b);
        int prev = -1;
        for (const auto& s : c.comp) {
          const int i = add(s);
          if (prev < 0) im.blk[static_cast<size_t>(me)].link[1] = i;
          else im.blk[static_cast<size_t>(prev)].link[0] = i;
          prev = i;
        }
        return me;
      };
      for (const auto& c : cg.cn) {
        const int i = add(c);
        if (cn_blk[k].empty()) im.blk[static_cast<size_t>(cgi)].link[1] = i;
        else im.blk[static_cast<size_t>(cn_blk[k].back())].link[0] = i;
        cn_blk[k].push_back(i);
      }
    }
    for (size_t k = 0; k < dg.cg.size(); ++k)
      for (size_t c = 0; c < dg.cg[k].cn.size(); ++c) {
        const auto& cn = dg.cg[k].cn[c];
        if (cn.vlsd == kCg) im.blk[static_cast<size_t>(cn_blk[k][c])].link[5] = cg_blk[cn.vlsd_cg];
        if (cn.len_cn >= 0) im.blk[static_cast<size_t>(cn_blk[k][c])].link[5] = cn_blk[k][static_cast<size_t>(cn.len_cn)];
      }
    Out stream;
    for (const auto& [k, s] : dg.order) {
      const auto& cg = dg.cg[k];
      for (uint8_t i = 0; i < dg.id_size; ++i) stream.N<uint8_t>(static_cast<uint8_t>(cg.id >> (8 * i)));
      if (cg.vlsd) stream.N<uint32_t>(static_cast<uint32_t>(cg.rec[s].size()));
      stream.Raw(cg.rec[s]);
    }
    const size_t record = dg.id_size + dg.cg[0].data_bytes + dg.cg[0].inv_bytes;
    const bool column = dg.id_size == 0 && dg.cg.size() == 1 && dg.cg[0].inv_bytes == 0 && record > 0 && g.Chance(1, 3);
    if (column) g.Label("DV data");
    im.blk[static_cast<size_t>(dgi)].link[2] = EncodeData(g, im, stream.b, column ? "DV" : "DT", record);
  }
  return im;
}

std::vector<const Cn*> Flat(const Cg& cg) {
  std::vector<const Cn*> list;
  std::function<void(const Cn&)> add = [&](const Cn& c) {
    list.push_back(&c);
    for (const auto& s : c.comp) add(s);
  };
  for (const auto& c : cg.cn) add(c);
  return list;
}

Value Decode(const Cg& cg, const Cn& cn, uint64_t sample) {
  const auto& r = cg.rec[static_cast<size_t>(sample)];
  Value v;
  if (cn.flags & 1) v.valid = false;
  if ((cn.flags & 2) && (r[cg.data_bytes + cn.inv_pos / 8] >> (cn.inv_pos % 8) & 1)) v.valid = false;
  std::vector<uint8_t> bytes;
  if (cn.vlsd != kNone) bytes = cn.var[static_cast<size_t>(sample)];
  else if (cn.dt >= 6 && cn.type != 3 && cn.type != 6) {
    size_t n = cn.bits / 8;
    if (cn.len_cn >= 0) {
      const Value len = Decode(cg, cg.cn[static_cast<size_t>(cn.len_cn)], sample);
      n = static_cast<size_t>(len.kind == Value::I ? static_cast<uint64_t>(len.i) : len.u);
    }
    bytes.assign(r.begin() + cn.byte_off, r.begin() + cn.byte_off + static_cast<long>(n));
  }
  if (cn.type == 3 || cn.type == 6) {
    v.u = sample;
    return v;
  }
  if (cn.dt <= 5) {
    const unsigned n = (cn.bit_off + cn.bits + 7) / 8;
    unsigned __int128 raw = 0;
    for (unsigned i = 0; i < n; ++i) {
      const uint8_t b = r[cn.byte_off + i];
      if (cn.dt % 2 == 0) raw |= static_cast<unsigned __int128>(b) << (8 * i);
      else raw = raw << 8 | b;
    }
    uint64_t u = static_cast<uint64_t>(raw >> cn.bit_off);
    if (cn.bits < 64) u &= (uint64_t{1} << cn.bits) - 1;
    if (cn.dt < 2) v.u = u;
    else if (cn.dt < 4) {
      v.kind = Value::I;
      if (cn.bits < 64 && (u >> (cn.bits - 1) & 1)) u |= ~((uint64_t{1} << cn.bits) - 1);
      v.i = static_cast<int64_t>(u);
    } else {
      v.kind = Value::D;
      if (cn.bits == 64) memcpy(&v.d, &u, 8);
      else if (cn.bits == 32) {
        float f;
        const uint32_t w = static_cast<uint32_t>(u);
        memcpy(&f, &w, 4);
        v.d = f;
      } else v.d = Half(static_cast<uint16_t>(u));
    }
  } else if (cn.dt <= 9) {
    v.kind = Value::S;
    v.s = TextOf(cn.dt, bytes);
  } else if (cn.dt <= 12) {
    v.kind = Value::B;
    v.b = bytes;
  } else if (cn.dt == 13) {
    const int year = bytes[6] + (bytes[6] < 84 ? 2000 : 1900);
    const int64_t days = DaysFromCivil(year, bytes[5] & 0x3F, bytes[4] & 0x1F);
    const int64_t ms = ((days * 24 + (bytes[3] & 0x1F)) * 60 + (bytes[2] & 0x3F)) * 60000 + (bytes[0] | bytes[1] << 8);
    v.u = static_cast<uint64_t>(ms) * 1000000;
  } else {
    uint32_t ms;
    uint16_t days;
    memcpy(&ms, bytes.data(), 4);
    memcpy(&days, bytes.data() + 4, 2);
    v.u = (static_cast<uint64_t>(ms & 0xFFFFFFF) + (static_cast<uint64_t>(days) + 5113) * 86400000ull) * 1000000;
  }
  return v;
}

Value Read(const mdf::IChannelObserver& obs, const Cn& cn, uint64_t sample) {
  Value v;
  if (cn.type == 3 || cn.type == 6 || cn.dt < 2 || cn.dt >= 13) v.valid = obs.GetChannelValue(sample, v.u);
  else if (cn.dt < 4) { v.kind = Value::I; v.valid = obs.GetChannelValue(sample, v.i); }
  else if (cn.dt < 6) { v.kind = Value::D; v.valid = obs.GetChannelValue(sample, v.d); }
  else if (cn.dt < 10) { v.kind = Value::S; v.valid = obs.GetChannelValue(sample, v.s); }
  else { v.kind = Value::B; v.valid = obs.GetChannelValue(sample, v.b); }
  return v;
}

bool Same(const Value& a, const Value& b) {
  if (a.valid != b.valid) return false;
  if (!a.valid) return true;
  return a.u == b.u && a.i == b.i && (a.d == b.d || (std::isnan(a.d) && std::isnan(b.d))) && a.s == b.s && a.b == b.b;
}

std::string Show(const Value& v) {
  std::ostringstream s;
  s.precision(17);
  if (!v.valid) s << "invalid ";
  switch (v.kind) {
    case Value::U: s << v.u; break;
    case Value::I: s << v.i; break;
    case Value::D: s << v.d; break;
    case Value::S: s << vp::Quote(v.s); break;
    case Value::B: s << vp::Hex(v.b); break;
  }
  return s.str();
}

std::string Show(const Cn& c) {
  std::ostringstream s;
  s << c.name << "(type " << int(c.type) << " " << (c.dt < kDtNames.size() ? kDtNames[c.dt] : "?") << " @" << c.byte_off
    << "." << int(c.bit_off) << " " << c.bits << " bits flags " << c.flags << " inv " << c.inv_pos
    << (c.vlsd == kSd ? " SD" : c.vlsd == kCg ? " VLSD-CG" : "") << ")";
  return s.str();
}

std::string File::Describe() const {
  std::ostringstream s;
  for (size_t d = 0; d < dg.size() && d < 3; ++d) {
    s << "DG id" << int(dg[d].id_size) << " [";
    for (size_t k = 0; k < dg[d].cg.size() && k < 4; ++k) {
      const auto& cg = dg[d].cg[k];
      s << (k ? "; " : "") << (cg.vlsd ? "vlsd" : cg.name) << " id=" << cg.id << " " << cg.data_bytes << "+" << cg.inv_bytes << "B x"
        << cg.rec.size() << " :";
      for (size_t c = 0; c < cg.cn.size() && c < 5; ++c) s << " " << Show(cg.cn[c]);
    }
    s << "] ";
  }
  return s.str();
}

void CheckRead(mdf::MdfReader& r, const File& f, const std::string& when) {
  const auto dg_list = r.GetHeader()->DataGroups();
  vp::Check(f.dg.size() <= dg_list.size(), when + "number of data groups");
  for (size_t d = 0; d < f.dg.size(); ++d) {
    const auto& dg = f.dg[d];
    const auto cg_list = dg_list[d]->ChannelGroups();
    vp::CheckEq(dg.cg.size(), cg_list.size(), when + "number of channel groups");
    struct Item {
      const Cg* cg;
      const Cn* cn;
      mdf::ChannelObserverPtr obs;
    };
    std::vector<Item> items;
    for (size_t k = 0; k < dg.cg.size(); ++k) {
      const auto& cg = dg.cg[k];
      vp::CheckEq(cg.rec.size(), cg_list[k]->NofSamples(), when + "number of samples");
      if (cg.vlsd) continue;
      vp::CheckEq(cg.name, cg_list[k]->Name(), when + "group name");
      const auto flat = Flat(cg);
      vp::CheckEq(flat.size(), cg_list[k]->Channels().size(), when + "number of channels");
      for (const auto* c : flat) {
        const mdf::IChannel* cn = cg_list[k]->GetChannel(c->name);
        vp::Check(cn != nullptr, when + "no channel " + c->name);
        items.push_back({&cg, c, mdf::CreateChannelObserver(*dg_list[d], *cg_list[k], *cn)});
      }
    }
    vp::Check(r.ReadData(*dg_list[d]), when + "ReadData() returned false");
    for (const auto& it : items)
      for (uint64_t s = 0; s < it.cg->rec.size(); ++s) {
        const auto want = Decode(*it.cg, *it.cn, s);
        const auto got = Read(*it.obs, *it.cn, s);
        if (!Same(want, got))
          vp::Fail(when + it.cg->name + " " + Show(*it.cn) + " sample " + std::to_string(s) + ": expected " + Show(want) +
                   " got " + Show(got));
      }
  }
}
}  // namespace enc
