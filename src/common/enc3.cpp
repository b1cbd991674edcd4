#include "common/enc3.h"

#include <algorithm>
#include <cstring>

namespace enc {

// Makes the generated layout one that MDF3 can express.
void ToMdf3(vp::Gen& g, File& f) {
  for (auto& dg : f.dg) {
    dg.id_size = dg.cg.size() > 1 ? g.Pick({uint8_t{1}, uint8_t{2}}) : static_cast<uint8_t>(g.Draw(2));
    std::vector<uint64_t> used;
    for (auto& cg : dg.cg) {
      uint64_t id = g.Bool() ? used.size() + 1 : g.Draw(255);
      while (std::find(used.begin(), used.end(), id) != used.end()) id = (id + 1) % 256;
      cg.id = id;
      used.push_back(id);
      cg.data_bytes += cg.inv_bytes;
      cg.inv_bytes = 0;
      for (auto& c : cg.cn) {
        c.comp.clear();
        c.flags = 0;
        c.sync = 0;
        c.len_cn = -1;
        if (c.type == 3 || c.type == 6) {
          c.dt = 0;
          c.bits = 8;
        }
        if (c.type != 2) c.type = 0;
        if (c.dt >= 4 && c.dt <= 5 && c.bits == 16) c.dt -= 4;
        if ((c.dt >= 7 && c.dt <= 9) || c.dt == 11 || c.dt == 12) c.dt = 10;
        if (c.dt == 6)  // ASCII
          for (auto& r : cg.rec)
            for (uint32_t i = 0; i < c.bits / 8; ++i) r[c.byte_off + i] &= 0x7F;
      }
    }
  }
}


namespace {

struct Enc3 {
  vp::Gen& g;
  bool be = false;
  struct B { std::vector<uint8_t> data; std::vector<std::pair<size_t, int>> link; };
  std::vector<B> blk;
  template <typename T>
  void Num(std::vector<uint8_t>& b, T v) const {
    uint8_t t[sizeof(T)];
    memcpy(t, &v, sizeof(T));
    if (be) std::reverse(t, t + sizeof(T));
    b.insert(b.end(), t, t + sizeof(T));
  }
  static void Str(std::vector<uint8_t>& b, const std::string& s, size_t n) {
    for (size_t i = 0; i < n; ++i) b.push_back(i < s.size() ? static_cast<uint8_t>(s[i]) : 0);
  }
  int New(const char* id) {
    B b;
    b.data = {static_cast<uint8_t>(id[0]), static_cast<uint8_t>(id[1]), 0, 0};
    blk.push_back(std::move(b));
    return static_cast<int>(blk.size()) - 1;
  }
  void Link(int at, int to) {
    auto& b = blk[static_cast<size_t>(at)];
    b.link.push_back({b.data.size(), to});
    b.data.insert(b.data.end(), 4, 0);
  }
  void Set(int at, size_t nr, int to) { blk[static_cast<size_t>(at)].link[nr].second = to; }
  std::vector<uint8_t>& D(int at) { return blk[static_cast<size_t>(at)].data; }
  void Close(int at) {
    std::vector<uint8_t> n;
    Num<uint16_t>(n, static_cast<uint16_t>(D(at).size()));
    D(at)[2] = n[0];
    D(at)[3] = n[1];
  }
  int Tx(const std::string& s) {
    if (s.empty()) return -1;
    const int t = New("TX");
    Str(D(t), s, s.size() + 1);
    Close(t);
    return t;
  }
};

// Any conversion rule.
void Rule(Enc3& e, int cc) {
  auto& g = e.g;
  const uint16_t type = g.Pick({uint16_t{0}, uint16_t{1}, uint16_t{2}, uint16_t{6}, uint16_t{7}, uint16_t{8}, uint16_t{9},
                                uint16_t{10}, uint16_t{11}, uint16_t{12}, uint16_t{132}, uint16_t{133}});
  e.Num<uint16_t>(e.D(cc), type);
  const size_t n = g.Draw(4);
  switch (type) {
    case 0: case 6: case 7: case 8: case 9: {
      const size_t k = type == 0 ? 2 : type == 6 || type == 9 ? 6 : 7;
      e.Num<uint16_t>(e.D(cc), static_cast<uint16_t>(k));
      for (size_t i = 0; i < k; ++i) e.Num<double>(e.D(cc), static_cast<double>(g.Draw(3)));
      break;
    }
    case 1: case 2:
      e.Num<uint16_t>(e.D(cc), static_cast<uint16_t>(n));
      for (size_t i = 0; i < 2 * n; ++i) e.Num<double>(e.D(cc), static_cast<double>(i));
      break;
    case 10:
      e.Num<uint16_t>(e.D(cc), 10);
      Enc3::Str(e.D(cc), "X1 * 2 + 1", 10);
      break;
    case 11:
      e.Num<uint16_t>(e.D(cc), static_cast<uint16_t>(n));
      for (size_t i = 0; i < n; ++i) {
        e.Num<double>(e.D(cc), static_cast<double>(i));
        Enc3::Str(e.D(cc), "text", 32);
      }
      break;
    case 12:
      e.Num<uint16_t>(e.D(cc), static_cast<uint16_t>(n));
      for (size_t i = 0; i < n; ++i) {
        e.Num<double>(e.D(cc), static_cast<double>(2 * i));
        e.Num<double>(e.D(cc), static_cast<double>(2 * i + 1));
        e.Link(cc, e.Tx("range"));
      }
      break;
    default: e.Num<uint16_t>(e.D(cc), 0); break;
  }
}

}  // namespace

std::vector<uint8_t> Encode3(vp::Gen& g, const File& f, std::map<std::string, Text3>& text, std::string& version,
                             bool all_blocks) {
  Enc3 e{g};
  e.be = g.Chance(1, 3);
  if (e.be) g.Label("big endian file");
  const int ver = g.Pick({330, 330, 320, 310, 300, 210});
  version = std::to_string(ver / 100) + "." + std::to_string(ver % 100);
  if (version.size() == 3) version += "0";
  // The header is the first block.
  const int hd = e.New("HD");
  for (int i = 0; i < 3; ++i) e.Link(hd, -1);
  e.Num<uint16_t>(e.D(hd), static_cast<uint16_t>(f.dg.size()));
  Enc3::Str(e.D(hd), "12:03:2015", 10);
  Enc3::Str(e.D(hd), "01:02:03", 8);
  for (const char* s : {"author", "organisation", "project", "subject"}) Enc3::Str(e.D(hd), s, 32);
  if (ver >= 320) {
    e.Num<uint64_t>(e.D(hd), 1426122123000000000ull);
    e.Num<int16_t>(e.D(hd), 0);
    e.Num<uint16_t>(e.D(hd), 0);
    Enc3::Str(e.D(hd), "timer", 32);
  }
  e.Close(hd);
  e.Set(hd, 1, e.Tx("file comment"));
  if (all_blocks && g.Bool()) {
    const int pr = e.New("PR");
    Enc3::Str(e.D(pr), "program", 8);
    e.Close(pr);
    e.Set(hd, 2, pr);
  }
  int prev_dg = -1;
  for (const auto& dg : f.dg) {
    const int d = e.New("DG");
    for (int i = 0; i < 4; ++i) e.Link(d, -1);
    e.Num<uint16_t>(e.D(d), static_cast<uint16_t>(dg.cg.size()));
    e.Num<uint16_t>(e.D(d), dg.id_size);
    if (ver >= 320 || g.Bool()) e.Num<uint32_t>(e.D(d), 0);
    e.Close(d);
    e.Set(prev_dg < 0 ? hd : prev_dg, 0, d);
    prev_dg = d;
    if (g.Chance(1, 6)) {
      const int tr = e.New("TR");
      e.Link(tr, e.Tx("trigger"));
      const size_t n = g.Draw(3);
      e.Num<uint16_t>(e.D(tr), static_cast<uint16_t>(n));
      for (size_t i = 0; i < 3 * n; ++i) e.Num<double>(e.D(tr), static_cast<double>(i));
      e.Close(tr);
      e.Set(d, 2, tr);
    }
    int prev_cg = -1;
    for (const auto& cg : dg.cg) {
      const int c = e.New("CG");
      e.Link(c, -1);
      e.Link(c, -1);
      e.Link(c, e.Tx(cg.name));
      e.Num<uint16_t>(e.D(c), static_cast<uint16_t>(cg.id));
      e.Num<uint16_t>(e.D(c), static_cast<uint16_t>(cg.cn.size()));
      e.Num<uint16_t>(e.D(c), static_cast<uint16_t>(cg.data_bytes));
      e.Num<uint32_t>(e.D(c), static_cast<uint32_t>(cg.rec.size()));
      if (all_blocks && g.Bool()) {
        const int sr = e.New("SR");
        e.Link(sr, -1);
        const int data = e.New("RD");
        e.D(data).assign(3 * cg.data_bytes * 2, 1);
        e.Link(sr, data);
        e.Num<uint32_t>(e.D(sr), 2);
        e.Num<double>(e.D(sr), 0.5);
        e.Close(sr);
        e.Link(c, sr);
        e.Num<uint32_t>(e.D(c), 0);
      } else if (ver == 330) {
        e.Link(c, -1);
      }
      e.Close(c);
      if (prev_cg < 0) e.Set(d, 1, c);
      else e.Set(prev_cg, 0, c);
      prev_cg = c;
      int prev_cn = -1;
      for (const auto& cn : cg.cn) {
        Text3 t;
        if (ver >= 300 && g.Chance(1, 3)) t.long_name = cn.name + "_" + std::string(40, 'n');
        if (g.Bool()) t.description = g.Ident(g.Chance(1, 10) ? 127 : 20);
        if (g.Chance(1, 3)) t.comment = g.Ident(30);
        int cc = -1;
        if (cn.dt >= 13 || g.Chance(1, 3)) {
          cc = e.New("CC");
          if (g.Chance(2, 3)) t.unit = g.Ident(g.Chance(1, 10) ? 19 : 4);
          e.Num<uint16_t>(e.D(cc), 0);
          e.Num<double>(e.D(cc), 0);
          e.Num<double>(e.D(cc), 0);
          Enc3::Str(e.D(cc), t.unit, 20);
          if (all_blocks) {
            Rule(e, cc);
          } else {
            e.Num<uint16_t>(e.D(cc), cn.dt == 13 ? 132 : cn.dt == 14 ? 133 : 65535);
            e.Num<uint16_t>(e.D(cc), 0);
          }
          e.Close(cc);
        } else if (cn.type == 2) t.unit = "s";
        int ce = -1;
        if (g.Chance(1, 6)) {
          ce = e.New("CE");
          const bool can = g.Bool();
          e.Num<uint16_t>(e.D(ce), can ? 19 : 2);
          if (can) {
            e.Num<uint32_t>(e.D(ce), 123);
            e.Num<uint32_t>(e.D(ce), 1);
            Enc3::Str(e.D(ce), "message", 36);
            Enc3::Str(e.D(ce), "sender", 36);
          } else {
            e.Num<uint16_t>(e.D(ce), 1);
            e.Num<uint32_t>(e.D(ce), 2);
            Enc3::Str(e.D(ce), "description", 80);
            Enc3::Str(e.D(ce), "ecu", 32);
          }
          e.Close(ce);
        }
        int cd = -1;
        if (all_blocks && g.Chance(1, 4)) {
          cd = e.New("CD");
          const uint16_t kind = g.Pick({uint16_t{1}, uint16_t{2}, uint16_t{257}});
          e.Num<uint16_t>(e.D(cd), kind);
          e.Num<uint16_t>(e.D(cd), 1);
          for (int i = 0; i < 3; ++i) e.Link(cd, hd);
          if (kind > 256) e.Num<uint16_t>(e.D(cd), 1);
          e.Close(cd);
        }
        const int tc = e.Tx(t.comment), tl = e.Tx(t.long_name);
        const int n = e.New("CN");
        e.Link(n, -1);
        e.Link(n, cc);
        e.Link(n, ce);
        e.Link(n, cd);
        e.Link(n, tc);
        auto put = [&](auto v) { e.Num(e.D(n), v); };
        put(static_cast<uint16_t>(cn.type == 2 ? 1 : 0));
        Enc3::Str(e.D(n), cn.name, 32);
        Enc3::Str(e.D(n), t.description, 128);
        // the place: the additional byte offset is free to choose
        const bool has_add = ver >= 300;
        uint32_t add = 0;
        if (has_add && g.Chance(1, 3)) add = static_cast<uint32_t>(g.Draw(cn.byte_off));
        if (add) g.Label("additional byte offset");
        put(static_cast<uint16_t>((cn.byte_off - add) * 8 + cn.bit_off));
        put(static_cast<uint16_t>(cn.bits));
        uint16_t type = 0;
        const bool want_be = cn.dt % 2 == 1;
        const bool native = want_be == e.be && g.Bool();
        if (cn.dt <= 1) type = native ? 0 : want_be ? 9 : 13;
        else if (cn.dt <= 3) type = native ? 1 : want_be ? 10 : 14;
        else if (cn.dt <= 5) type = static_cast<uint16_t>((native ? 2 : want_be ? 11 : 15) + (cn.bits == 64 ? 1 : 0));
        else type = cn.dt == 6 ? 7 : 8;
        put(type);
        put(static_cast<uint16_t>(g.Draw(1)));
        put(-1.0);
        put(1.0);
        put(0.01);
        if (ver >= 210) e.Link(n, tl);
        if (ver >= 300) {
          e.Link(n, -1);
          put(static_cast<uint16_t>(add));
        }
        e.Close(n);
        if (prev_cn < 0) e.Set(c, 1, n);
        else e.Set(prev_cn, 0, n);
        prev_cn = n;
        text[cn.name] = t;
      }
    }
    // the data block has no header
    const int dt = e.New("DT");
    e.D(dt).clear();
    for (const auto& [k, s] : dg.order) {
      const auto& cg = dg.cg[k];
      if (dg.id_size) e.D(dt).push_back(static_cast<uint8_t>(cg.id));
      const auto& r = cg.rec[s];
      e.D(dt).insert(e.D(dt).end(), r.begin(), r.end());
      if (dg.id_size == 2) e.D(dt).push_back(static_cast<uint8_t>(cg.id));
    }
    e.Set(d, 3, e.D(dt).empty() && g.Bool() ? -1 : dt);
  }
  // ID block
  std::vector<uint8_t> out;
  Enc3::Str(out, "MDF     ", 8);
  Enc3::Str(out, version + "    ", 8);
  Enc3::Str(out, "verif   ", 8);
  out.push_back(static_cast<uint8_t>(e.be ? 1 : 0));
  out.push_back(0);
  e.Num<uint16_t>(out, 0);
  e.Num<uint16_t>(out, static_cast<uint16_t>(ver));
  e.Num<uint16_t>(out, 0);
  out.resize(64, 0);
  // the other blocks in any order, with or without space between
  std::vector<size_t> order;
  for (size_t i = 1; i < e.blk.size(); ++i) order.push_back(i);
  if (g.Bool())
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.Draw(i - 1)]);
  order.insert(order.begin(), 0);
  const bool gaps = g.Bool();
  std::vector<uint32_t> pos(e.blk.size());
  uint32_t at = 64;
  for (size_t i : order) {
    if (i > 0 && gaps) at += static_cast<uint32_t>(g.Draw(3));
    pos[i] = at;
    at += static_cast<uint32_t>(e.blk[i].data.size());
  }
  out.resize(at, 0xA5);
  for (size_t i : order) {
    auto b = e.blk[i].data;
    for (const auto& [p, to] : e.blk[i].link) {
      std::vector<uint8_t> n;
      e.Num<uint32_t>(n, to < 0 ? 0 : pos[static_cast<size_t>(to)]);
      std::copy(n.begin(), n.end(), b.begin() + static_cast<long>(p));
    }
    std::copy(b.begin(), b.end(), out.begin() + pos[i]);
  }
  return out;
}

void CheckRead3(mdf::MdfReader& r, const File& f, const std::map<std::string, Text3>& text, const std::string& version,
                const std::string& when, bool header_too) {
  const auto* header = r.GetHeader();
  if (header_too) {
  vp::CheckEq(std::string("author"), header->Author(), when + "author");
  vp::CheckEq(std::string("organisation"), header->Department(), when + "organisation");
  vp::CheckEq(std::string("project"), header->Project(), when + "project");
  vp::CheckEq(std::string("subject"), header->Subject(), when + "subject");
  vp::CheckEq(std::string("file comment"), header->Description(), when + "comment");
  if (version >= "3.20") vp::CheckEq(uint64_t{1426122123000000000}, header->StartTime(), when + "start time");
  vp::CheckEq(version, r.GetFile()->Version(), when + "version");
  vp::CheckEq(std::string("verif"), r.GetFile()->ProgramId(), when + "program");
  }
  const auto dg_list = header->DataGroups();
  vp::Check(f.dg.size() <= dg_list.size(), when + "number of data groups");
  for (size_t d = 0; d < f.dg.size(); ++d) {
    const auto& dg = f.dg[d];
    const auto cg_list = dg_list[d]->ChannelGroups();
    vp::CheckEq(dg.cg.size(), cg_list.size(), when + "number of channel groups");
    struct Item { const Cg* cg; const Cn* cn; mdf::ChannelObserverPtr obs; };
    std::vector<Item> items;
    for (size_t k = 0; k < dg.cg.size(); ++k) {
      const auto& cg = dg.cg[k];
      vp::CheckEq(cg.rec.size(), cg_list[k]->NofSamples(), when + "number of samples");
      vp::CheckEq(cg.name, cg_list[k]->Description(), when + "group comment");
      const auto cn_list = cg_list[k]->Channels();
      vp::CheckEq(cg.cn.size(), cn_list.size(), when + "number of channels");
      for (size_t c = 0; c < cg.cn.size(); ++c) {
        const auto& want = cg.cn[c];
        const auto& t = text.at(want.name);
        const mdf::IChannel* cn = cn_list[c];
        vp::CheckEq(t.long_name.empty() ? want.name : t.long_name, cn->Name(), when + "channel name");
        vp::CheckEq(t.description, cn->Description(), when + "description");
        vp::CheckEq(t.unit, cn->Unit(), when + "unit");
        vp::CheckEq(want.type == 2, cn->Type() == mdf::ChannelType::Master, when + "master channel");
        auto obs = mdf::CreateChannelObserver(*dg_list[d], *cg_list[k], *cn);
        vp::Check(static_cast<bool>(obs), when + "no observer for " + Show(want));
        items.push_back({&cg, &want, std::move(obs)});
      }
    }
    vp::Check(r.ReadData(*dg_list[d]), when + "ReadData() returned false");
    for (const auto& it : items)
      for (uint64_t s = 0; s < it.cg->rec.size(); ++s) {
        const auto want = Decode(*it.cg, *it.cn, s);
        const auto got = Read(*it.obs, *it.cn, s);
        if (!Same(want, got))
          vp::Fail(when + it.cg->name + " " + Show(*it.cn) + " sample " + std::to_string(s) + ": expected " +
                   Show(want) + " got " + Show(got));
      }
  }
}

}  // namespace enc
