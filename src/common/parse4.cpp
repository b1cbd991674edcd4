#include "common/parse4.h"

#include <expat.h>
#include <zlib.h>

#include <algorithm>
#include <cstring>

#include "vp.h"

namespace parse4 {
using vp::Check;
using vp::Fail;

namespace {
std::string P(uint64_t pos) {
  char t[32];
  snprintf(t, sizeof(t), "0x%llX", static_cast<unsigned long long>(pos));
  return t;
}
}  // namespace

uint64_t File::U(size_t pos, size_t n) const {
  Check(pos + n <= d_.size(), "read after the end of the file at " + P(pos));
  uint64_t v = 0;
  for (size_t i = 0; i < n; ++i) v |= static_cast<uint64_t>(d_[pos + i]) << (8 * i);
  return v;
}

// allowed: list such as "TX,MD"
const Block& File::Get(uint64_t pos, const std::string& allowed, const std::string& from) {
  auto itr = blocks.find(pos);
  if (itr == blocks.end()) {
    Check(pos % 8 == 0, from + " links to a block that is not aligned to 8 bytes: " + P(pos));
    Check(pos >= 64 && pos + 24 <= d_.size(), from + " links outside the file: " + P(pos));
    Check(d_[pos] == '#' && d_[pos + 1] == '#', from + " links to something that is no block: " + P(pos));
    Block b;
    b.pos = pos;
    b.type = std::string(d_.begin() + static_cast<long>(pos) + 2, d_.begin() + static_cast<long>(pos) + 4);
    b.length = U(pos + 8, 8);
    const uint64_t n = U(pos + 16, 8);
    Check(b.length >= 24 && pos + b.length <= d_.size(), b.type + " block at " + P(pos) + " has a wrong length " + std::to_string(b.length));
    Check(n <= (b.length - 24) / 8, b.type + " block at " + P(pos) + " has a wrong link count " + std::to_string(n));
    for (uint64_t i = 0; i < n; ++i) b.link.push_back(U(pos + 24 + 8 * i, 8));
    b.data = pos + 24 + 8 * n;
    b.data_size = static_cast<size_t>(b.length - 24 - 8 * n);
    ++count[b.type];
    itr = blocks.emplace(pos, std::move(b)).first;
  }
  const auto& b = itr->second;
  Check(("," + allowed + ",").find("," + b.type + ",") != std::string::npos,
        from + " links to a block of type " + b.type + " at " + P(pos) + ", allowed: " + allowed);
  return b;
}

std::string File::Text(uint64_t pos, const std::string& from, bool md) {
  if (pos == 0) return {};
  const auto& b = Get(pos, md ? "TX,MD" : "TX", from);
  Check(b.data_size > 0, "empty text block at " + P(pos));
  const char* s = reinterpret_cast<const char*>(d_.data() + b.data);
  const size_t len = strnlen(s, b.data_size);
  Check(len < b.data_size, "text block without terminating zero at " + P(pos));
  std::string text(s, len);
  if (b.type == "MD") {
    XML_Parser p = XML_ParserCreate(nullptr);
    const auto ok = XML_Parse(p, text.data(), static_cast<int>(text.size()), 1);
    XML_ParserFree(p);
    Check(ok == XML_STATUS_OK, "MD block at " + P(pos) + " is not well-formed XML: " + vp::Quote(text, 300));
  }
  return text;
}
void File::Comment(uint64_t pos, const std::string& from) { Text(pos, from); }

void File::Si(uint64_t pos) {
  if (pos == 0) return;
  const auto& b = Get(pos, "SI", "source link");
  Check(b.link.size() == 3 && b.data_size >= 3, "SI block at " + P(pos));
  Text(b.link[0], "SI name", false);
  Text(b.link[1], "SI path", false);
  Comment(b.link[2], "SI comment");
}

void File::Cc(uint64_t pos, int depth) {
  if (pos == 0) return;
  Check(depth < 20, "conversion loop");
  const auto b = Get(pos, "CC", "conversion link");
  Check(b.link.size() >= 4 && b.data_size >= 24, "CC block size at " + P(pos));
  Text(b.link[0], "CC name", false);
  Comment(b.link[1], "CC unit");
  Comment(b.link[2], "CC comment");
  Cc(b.link[3], depth + 1);
  const auto type = U(b.data, 1);
  const auto nof_ref = U(b.data + 4, 2), nof_val = U(b.data + 6, 2);
  Check(b.link.size() == 4 + nof_ref, "CC reference count at " + P(pos));
  Check(b.data_size >= 24 + 8 * nof_val, "CC value count at " + P(pos));
  const bool text = type >= 7;
  Check(text || nof_ref == 0 || type == 3, "numeric CC with references at " + P(pos));
  switch (type) {
    case 0: Check(nof_val == 0, "CC 1:1 parameters"); break;
    case 1: Check(nof_val == 2, "CC linear parameters"); break;
    case 2: Check(nof_val == 6, "CC rational parameters"); break;
    case 3: Check(nof_ref == 1, "CC algebraic references"); break;
    case 4:
    case 5: Check(nof_val % 2 == 0 && nof_val > 0, "CC table parameters"); break;
    case 6: Check(nof_val % 3 == 1, "CC range table parameters"); break;
    case 7: Check(nof_ref == nof_val + 1, "CC value to text references"); break;
    case 8: Check(2 * (nof_ref - 1) == nof_val, "CC range to text references"); break;
    case 9: break;
    case 10: Check(nof_ref % 2 == 1, "CC text to text references"); break;
    case 11: Check(nof_ref == nof_val, "CC bitfield references"); break;
    default: Fail("CC type " + std::to_string(type) + " at " + P(pos));
  }
  for (size_t i = 4; i < b.link.size(); ++i) {
    if (b.link[i] == 0) continue;
    const auto& r = Get(b.link[i], "TX,MD,CC", "CC reference");
    if (r.type == "CC") Cc(r.pos, depth + 1);
    else Text(r.pos, "CC reference");
  }
}

void File::Ca(uint64_t pos, Cn& cn, const Cg& cg, int depth) {
  const auto b = Get(pos, "CA", "composition");
  Check(b.data_size >= 16, "CA size");
  const auto nof_dim = U(b.data + 2, 2);
  Check(nof_dim >= 1, "CA without dimensions");
  uint64_t n = 1;
  for (uint64_t i = 0; i < nof_dim; ++i) n *= U(b.data + 16 + 8 * i, 8);
  cn.elements = n;
  if (!b.link.empty() && b.link[0] != 0) {
    const auto& c = Get(b.link[0], "CN,CA", "CA composition");
    if (c.type == "CN") cn.composition = CnList(c.pos, cg, depth + 1);
  }
}

std::vector<Cn> File::CnList(uint64_t pos, const Cg& cg, int depth) {
  Check(depth < 20, "composition too deep");
  std::vector<Cn> list;
  std::set<uint64_t> seen;
  size_t masters = 0;
  for (; pos != 0;) {
    Check(seen.insert(pos).second, "loop in the CN list");
    const auto b = Get(pos, "CN", "CN link");
    Check(b.link.size() >= 8 && b.data_size >= 72, "CN size at " + P(pos));
    Cn c;
    c.pos = pos;
    c.name = Text(b.link[2], "CN name", false);
    Si(b.link[3]);
    c.cc_link = b.link[4];
    Cc(b.link[4], 0);
    c.data_link = b.link[5];
    c.unit = Text(b.link[6], "CN unit");
    Comment(b.link[7], "CN comment");
    c.type = static_cast<uint8_t>(U(b.data, 1));
    c.sync = static_cast<uint8_t>(U(b.data + 1, 1));
    c.dt = static_cast<uint8_t>(U(b.data + 2, 1));
    c.bit_offset = static_cast<uint8_t>(U(b.data + 3, 1));
    c.byte_offset = static_cast<uint32_t>(U(b.data + 4, 4));
    c.bit_count = static_cast<uint32_t>(U(b.data + 8, 4));
    c.flags = static_cast<uint32_t>(U(b.data + 12, 4));
    c.inval_bit = static_cast<uint32_t>(U(b.data + 16, 4));
    const auto nof_at = U(b.data + 22, 2);
    Check(b.link.size() == 8 + nof_at + (c.flags & 0x1000 ? 3 : 0), "CN link count at " + P(pos));
    for (uint64_t i = 0; i < nof_at; ++i)
      if (b.link[8 + i] != 0) Get(b.link[8 + i], "AT", "CN attachment");
    if (c.flags & 0x1000) {
      const auto n = 8 + nof_at;
      if (b.link[n]) Get(b.link[n], "DG", "CN default x");
      if (b.link[n + 1]) Get(b.link[n + 1], "CG", "CN default x");
      if (b.link[n + 2]) Get(b.link[n + 2], "CN", "CN default x");
    }
    Check(c.type <= 7, "CN type " + std::to_string(c.type) + " of " + c.name);
    Check(c.sync <= 4, "CN sync type of " + c.name);
    Check(c.dt <= 16, "CN data type of " + c.name);
    Check(c.bit_offset <= 7, "CN bit offset of " + c.name);
    if (c.type == 2 || c.type == 3) ++masters;
    if (b.link[1] != 0) {
      const auto& comp = Get(b.link[1], "CN,CA", "CN composition");
      if (comp.type == "CN") c.composition = CnList(comp.pos, cg, depth + 1);
      else Ca(comp.pos, c, cg, depth + 1);
    }
    const bool vlsd_group = (cg.flags & 1) != 0;
    if (c.type != 3 && c.type != 6 && !vlsd_group) {
      const uint64_t bits = c.bit_offset + static_cast<uint64_t>(c.bit_count) * (c.dt <= 5 || c.dt == 15 || c.dt == 16 ? c.elements : 1);
      Check(c.byte_offset + (bits + 7) / 8 <= cg.data_bytes, "channel " + c.name + " is outside its record");
      if (c.flags & 2) Check(c.inval_bit / 8 < cg.inval_bytes, "invalidation bit of " + c.name + " is outside its record");
    }
    if (c.dt == 4 || c.dt == 5) Check(c.bit_count == 16 || c.bit_count == 32 || c.bit_count == 64, "size of float channel " + c.name);
    if (c.data_link != 0) {
      const auto& t = Get(c.data_link, "SD,DZ,DL,HL,CG,CN,AT,EV", "CN data of " + c.name);
      if (c.type == 1) {
        Check(t.type == "SD" || t.type == "DZ" || t.type == "DL" || t.type == "HL" || t.type == "CG", "variable length data of " + c.name + ": " + t.type);
      }
    }
    pos = b.link[0];
    list.push_back(std::move(c));
  }
  Check(masters <= 1 || depth > 0, "several masters in a group");
  return list;
}

void File::Tree(uint64_t link, const std::string& kind, Bytes& out, int depth) {
  if (link == 0) return;
  Check(depth < 8, "data tree too deep");
  const auto b = Get(link, kind + ",DZ,DL,HL", "data link");
  if (b.type == "DZ") {
    Check(b.data_size >= 24, "DZ size");
    const std::string org(d_.begin() + static_cast<long>(b.data), d_.begin() + static_cast<long>(b.data) + 2);
    Check(org == kind, "DZ block of type " + org + " in the place of " + kind);
    const auto zip = U(b.data + 2, 1);
    const auto par = U(b.data + 4, 4);
    const auto org_size = U(b.data + 8, 8), size = U(b.data + 16, 8);
    Check(size <= b.data_size - 24, "DZ data size");
    Check(org_size < 1ull << 32, "DZ original size");
    Bytes z(static_cast<size_t>(org_size));
    uLongf n = static_cast<uLongf>(org_size);
    if (org_size > 0 || size > 0) {
      const int ret = uncompress(z.data(), &n, d_.data() + b.data + 24, static_cast<uLong>(size));
      Check(ret == Z_OK && n == org_size, "DZ block at " + P(link) + " cannot be decompressed (" + std::to_string(ret) + ")");
    }
    if (zip == 1) {
      Check(par > 0, "DZ transposition parameter");
      const size_t rows = z.size() / par;
      Bytes t = z;
      for (size_t r = 0; r < rows; ++r)
        for (size_t c = 0; c < par; ++c) t[r * par + c] = z[c * rows + r];
      z = t;
    } else {
      Check(zip == 0, "DZ zip type");
    }
    out.insert(out.end(), z.begin(), z.end());
  } else if (b.type == "HL") {
    Check(b.link.size() == 1 && b.data_size >= 3, "HL block");
    if (b.link[0] != 0) {
      Get(b.link[0], "DL", "HL");
      Tree(b.link[0], kind, out, depth + 1);
    }
  } else if (b.type == "DL") {
    std::set<uint64_t> seen;
    uint64_t pos = link;
    const size_t base = out.size();
    uint64_t equal = 0;
    bool short_before = false;
    while (pos != 0) {
      Check(seen.insert(pos).second, "loop in the DL list");
      const auto dl = Get(pos, "DL", "DL list");
      Check(dl.data_size >= 8 && !dl.link.empty(), "DL size");
      const auto flags = U(dl.data, 1);
      const auto n = U(dl.data + 4, 4);
      Check(dl.link.size() == n + 1, "DL count " + std::to_string(n) + " with " + std::to_string(dl.link.size()) + " links");
      if (flags & 1) equal = U(dl.data + 8, 8);
      else Check(dl.data_size >= 8 + 8 * n, "DL offsets");
      for (uint64_t i = 0; i < n; ++i) {
        const size_t before = out.size();
        if (dl.link[1 + i] != 0) Get(dl.link[1 + i], kind + ",DZ", "DL data");
        if (!(flags & 1)) Check(U(dl.data + 8 + 8 * i, 8) == before - base, "DL offset of block " + std::to_string(i));
        Tree(dl.link[1 + i], kind, out, depth + 1);
        if (flags & 1) {
          const size_t len = out.size() - before;
          Check(len <= equal, "DL equal length: a block is longer");
          Check(!short_before, "DL equal length: a block after a shorter one");
          if (len < equal) short_before = true;
        }
      }
      pos = dl.link[0];
    }
  } else {
    out.insert(out.end(), d_.begin() + static_cast<long>(b.data), d_.begin() + static_cast<long>(b.data + b.data_size));
  }
}

Bytes File::TreeData(uint64_t link, const std::string& kind) {
  Bytes out;
  Tree(link, kind, out, 0);
  return out;
}

void File::Overlaps() {
  uint64_t end = 64;
  std::string last = "ID";
  for (const auto& [pos, b] : blocks) {
    Check(pos >= end, "block " + b.type + " at " + P(pos) + " overlaps the block " + last);
    end = pos + b.length;
    last = b.type + " at " + P(pos);
  }
}

File::File(const Bytes& data, bool strict) : d_(data), strict_(strict) {
  Check(d_.size() >= 64 + 24, "file too small");
  const std::string id(d_.begin(), d_.begin() + 8);
  finalized = id == "MDF     ";
  Check(finalized || id == "UnFinMF ", "file identifier " + vp::Quote(id));
  Check(d_[8] == '4' && d_[9] == '.', "version text");
  const auto ver = U(28, 2);
  Check(ver >= 400 && ver < 500, "version number " + std::to_string(ver));
  Check(static_cast<char>(d_[10]) == static_cast<char>('0' + ver / 10 % 10) && static_cast<char>(d_[11]) == static_cast<char>('0' + ver % 10),
        "version text and number differ");
  unfin_flags = static_cast<uint16_t>(U(60, 2));
  if (strict_) {
    Check(finalized, "the file is not finalized");
    Check(unfin_flags == 0, "unfinalized flags are set");
  }
  const auto hd = Get(64, "HD", "ID");
  Check(hd.link.size() == 6 && hd.data_size >= 31, "HD size");
  start_time = U(hd.data, 8);
  Comment(hd.link[5], "HD comment");
  // File history
  std::set<uint64_t> seen;
  for (uint64_t p = hd.link[1]; p != 0;) {
    Check(seen.insert(p).second, "FH loop");
    const auto& b = Get(p, "FH", "FH list");
    Check(b.link.size() == 2 && b.data_size >= 16, "FH size");
    Comment(b.link[1], "FH comment");
    p = b.link[0];
  }
  for (uint64_t p = hd.link[3]; p != 0;) {
    Check(seen.insert(p).second, "AT loop");
    const auto b = Get(p, "AT", "AT list");
    Check(b.link.size() == 4 && b.data_size >= 40, "AT size");
    Text(b.link[1], "AT name", false);
    Text(b.link[2], "AT type", false);
    Comment(b.link[3], "AT comment");
    Check(40 + U(b.data + 32, 8) <= b.data_size, "AT embedded size");
    p = b.link[0];
  }
  // Data groups
  for (uint64_t p = hd.link[0]; p != 0;) {
    Check(seen.insert(p).second, "DG loop");
    const auto b = Get(p, "DG", "DG list");
    Check(b.link.size() == 4 && b.data_size >= 8, "DG size");
    Dg g;
    g.pos = p;
    g.rec_id_size = static_cast<uint8_t>(U(b.data, 1));
    g.data_link = b.link[2];
    Check(g.rec_id_size <= 4 || g.rec_id_size == 8, "record id size");
    Comment(b.link[3], "DG comment");
    for (uint64_t q = b.link[1]; q != 0;) {
      Check(seen.insert(q).second, "CG loop");
      const auto c = Get(q, "CG", "CG list");
      Check(c.link.size() >= 6 && c.data_size >= 32, "CG size");
      Cg k;
      k.pos = q;
      k.record_id = U(c.data, 8);
      k.cycles = U(c.data + 8, 8);
      k.flags = static_cast<uint16_t>(U(c.data + 16, 2));
      k.data_bytes = static_cast<uint32_t>(U(c.data + 24, 4));
      k.inval_bytes = static_cast<uint32_t>(U(c.data + 28, 4));
      k.name = Text(c.link[2], "CG name", false);
      Si(c.link[3]);
      Comment(c.link[5], "CG comment");
      k.cn = CnList(c.link[1], k, 0);
      q = c.link[0];
      g.cg.push_back(std::move(k));
    }
    if (strict_) {
      std::set<uint64_t> ids;
      for (auto& k : g.cg) {
        if (g.rec_id_size == 0) Check(g.cg.size() <= 1, "several groups without a record id");
        else Check(ids.insert(k.record_id).second, "record id used twice");
        if (g.rec_id_size > 0 && g.rec_id_size < 8) Check(k.record_id < 1ull << (8 * g.rec_id_size), "record id does not fit");
      }
    }
    // Records
    const Bytes data = TreeData(g.data_link, "DT");
    size_t pos = 0;
    while (pos < data.size()) {
      uint64_t id2 = 0;
      if (pos + g.rec_id_size > data.size()) {
        if (strict_) Fail("incomplete record id at the end of the data");
        break;
      }
      for (size_t i = 0; i < g.rec_id_size; ++i) id2 |= static_cast<uint64_t>(data[pos + i]) << (8 * i);
      Cg* k = nullptr;
      for (auto& x : g.cg)
        if (g.rec_id_size == 0 || x.record_id == id2) k = &x;
      if (k == nullptr) {
        if (strict_) Fail("unknown record id " + std::to_string(id2));
        break;
      }
      pos += g.rec_id_size;
      size_t len = k->data_bytes + k->inval_bytes;
      if (k->flags & 1) {
        if (pos + 4 > data.size()) {
          if (strict_) Fail("incomplete length of a variable length record");
          break;
        }
        len = 0;
        for (size_t i = 0; i < 4; ++i) len |= static_cast<size_t>(data[pos + i]) << (8 * i);
        pos += 4;
      }
      if (g.rec_id_size == 0 && len == 0) break;
      if (pos + len > data.size()) {
        if (strict_) Fail("incomplete record at the end of the data");
        break;
      }
      k->records.emplace_back(data.begin() + static_cast<long>(pos), data.begin() + static_cast<long>(pos + len));
      pos += len;
    }
    if (strict_)
      for (auto& k : g.cg) {
        if (g.rec_id_size == 0 && k.data_bytes + k.inval_bytes == 0) continue;
        Check(k.cycles == k.records.size(), "group " + k.name + " has " + std::to_string(k.records.size()) + " records but counts " + std::to_string(k.cycles));
        if (k.flags & 1) {
          uint64_t total = 0;
          for (auto& r : k.records) total += r.size() + 4;
          const uint64_t stored = k.data_bytes | static_cast<uint64_t>(k.inval_bytes) << 32;
          Check(stored == total || stored == total - 4 * k.records.size(),
                "VLSD group size " + std::to_string(stored) + " for " + std::to_string(total) + " bytes in " + std::to_string(k.records.size()) + " records");
        }
      }
    dg.push_back(std::move(g));
    p = b.link[0];
  }
  // Events
  for (uint64_t p = hd.link[4]; p != 0;) {
    Check(seen.insert(p).second, "EV loop");
    const auto b = Get(p, "EV", "EV list");
    Check(b.link.size() >= 5 && b.data_size >= 32, "EV size");
    if (b.link[1]) Get(b.link[1], "EV", "EV parent");
    if (b.link[2]) Get(b.link[2], "EV", "EV range");
    Text(b.link[3], "EV name", false);
    Comment(b.link[4], "EV comment");
    const auto nof_scope = U(b.data + 8, 4), nof_at = U(b.data + 12, 2);
    Check(b.link.size() >= 5 + nof_scope + nof_at, "EV link count");
    for (uint64_t i = 0; i < nof_scope; ++i)
      if (b.link[5 + i]) Get(b.link[5 + i], "CG,CN", "EV scope");
    for (uint64_t i = 0; i < nof_at; ++i)
      if (b.link[5 + nof_scope + i]) Get(b.link[5 + nof_scope + i], "AT", "EV attachment");
    p = b.link[0];
  }
  // Hierarchy
  std::vector<uint64_t> todo{hd.link[2]};
  while (!todo.empty()) {
    const uint64_t p = todo.back();
    todo.pop_back();
    if (p == 0) continue;
    Check(seen.insert(p).second, "CH loop");
    const auto b = Get(p, "CH", "CH list");
    Check(b.link.size() >= 4 && b.data_size >= 8, "CH size");
    const auto n = U(b.data, 4);
    Check(b.link.size() == 4 + 3 * n, "CH element count");
    Text(b.link[2], "CH name", false);
    Comment(b.link[3], "CH comment");
    for (uint64_t i = 0; i < n; ++i) {
      if (b.link[4 + 3 * i]) Get(b.link[4 + 3 * i], "DG", "CH element");
      if (b.link[5 + 3 * i]) Get(b.link[5 + 3 * i], "CG", "CH element");
      if (b.link[6 + 3 * i]) Get(b.link[6 + 3 * i], "CN", "CH element");
    }
    todo.push_back(b.link[0]);
    todo.push_back(b.link[1]);
  }
  Overlaps();
}

uint64_t File::RawUnsigned(const Cn& cn, const Bytes& rec, size_t element) {
  const bool be = cn.dt == 1 || cn.dt == 3 || cn.dt == 5;
  const size_t size = (cn.bit_offset + cn.bit_count + 7) / 8;
  const size_t pos = cn.byte_offset + element * size;
  Check(pos + size <= rec.size(), "channel outside the record");
  // Bits of the value, least significant first.
  uint64_t v = 0;
  for (size_t i = 0; i < cn.bit_count && i < 64; ++i) {
    const size_t bit = cn.bit_offset + i;
    const size_t byte = be ? size - 1 - bit / 8 : bit / 8;
    if (rec[pos + byte] >> (bit % 8) & 1) v |= 1ull << i;
  }
  return v;
}
bool File::Valid(const Cn& cn, const Cg& cg, const Bytes& rec) {
  if (cn.flags & 1) return false;       // all values invalid
  if ((cn.flags & 2) == 0) return true;
  const size_t pos = cg.data_bytes + cn.inval_bit / 8;
  Check(pos < rec.size(), "invalidation bit outside the record");
  return (rec[pos] >> (cn.inval_bit % 8) & 1) == 0;
}
Bytes File::RawBytes(const Cn& cn, const Bytes& rec) {
  const size_t n = cn.bit_count / 8;
  Check(cn.byte_offset + n <= rec.size(), "channel outside the record");
  return Bytes(rec.begin() + cn.byte_offset, rec.begin() + static_cast<long>(cn.byte_offset + n));
}
Bytes File::Vlsd(const Cn& cn, const Bytes& rec) {
  const uint64_t off = RawUnsigned(cn, rec);
  const auto& b = Get(cn.data_link, "SD,DZ,DL,HL,CG", "CN data");
  if (b.type == "CG") {
    for (auto& g : dg)
      for (auto& k : g.cg)
        if (k.pos == b.pos) {
          uint64_t at = 0;
          for (auto& r : k.records) {
            if (at == off) return r;
            at += r.size() + 4;
          }
          Fail("no variable length record at offset " + std::to_string(off));
        }
    Fail("VLSD group not found");
  }
  auto itr = sd_.find(cn.data_link);
  if (itr == sd_.end()) {
    itr = sd_.emplace(cn.data_link, TreeData(cn.data_link, "SD")).first;
    // The signal data is a sequence of values.
    size_t pos = 0;
    const auto& s = itr->second;
    while (pos < s.size()) {
      Check(pos + 4 <= s.size(), "incomplete length in the signal data of " + cn.name);
      const size_t len = s[pos] | s[pos + 1] << 8 | s[pos + 2] << 16 | static_cast<size_t>(s[pos + 3]) << 24;
      Check(pos + 4 + len <= s.size(), "incomplete value in the signal data of " + cn.name);
      pos += 4 + len;
    }
  }
  const auto& s = itr->second;
  Check(off + 4 <= s.size(), "offset outside the signal data of " + cn.name);
  const size_t len = s[off] | s[off + 1] << 8 | s[off + 2] << 16 | static_cast<size_t>(s[off + 3]) << 24;
  Check(off + 4 + len <= s.size(), "value outside the signal data of " + cn.name);
  return Bytes(s.begin() + static_cast<long>(off) + 4, s.begin() + static_cast<long>(off + 4 + len));
}

}  // namespace parse4
