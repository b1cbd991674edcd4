// Compares the content found by the independent parser with the model.
#pragma once
#include <cmath>
#include <cstring>
#include <string>
#include <vector>

#include "common/model.h"
#include "common/parse4.h"

namespace compare4 {

inline model::Val Decode(parse4::File& f, const model::ChSpec& c, const parse4::Cg& cg, const parse4::Cn& cn,
                         const parse4::Bytes& rec, uint64_t sample) {
  model::Val v;
  v.valid = parse4::File::Valid(cn, cg, rec);
  if (model::IsVirtual(c)) {
    vp::Check(cn.type == 3 || cn.type == 6, "type of the virtual channel " + c.name);
    v.u = sample;
    return v;
  }
  parse4::Bytes raw;
  if (cn.type == 1) {
    raw = f.Vlsd(cn, rec);
  } else if (model::IsText(c) || model::IsBytes(c) || c.dt == mdf::ChannelDataType::CanOpenDate ||
             c.dt == mdf::ChannelDataType::CanOpenTime) {
    raw = parse4::File::RawBytes(cn, rec);
  }
  if (model::IsUnsigned(c)) {
    v.u = parse4::File::RawUnsigned(cn, rec);
  } else if (model::IsSigned(c)) {
    uint64_t u = parse4::File::RawUnsigned(cn, rec);
    if (cn.bit_count < 64 && (u >> (cn.bit_count - 1) & 1)) u |= ~0ull << cn.bit_count;
    v.i = static_cast<int64_t>(u);
  } else if (model::IsFloat(c)) {
    const uint64_t u = parse4::File::RawUnsigned(cn, rec);
    if (cn.bit_count == 32) {
      const auto u32 = static_cast<uint32_t>(u);
      float x;
      std::memcpy(&x, &u32, 4);
      v.d = x;
    } else {
      std::memcpy(&v.d, &u, 8);
    }
  } else if (model::IsText(c)) {
    // Texts end with a zero.
    v.s = std::string(raw.begin(), raw.end());
    v.s = v.s.c_str();
  } else if (model::IsBytes(c)) {
    v.b = raw;
  } else if (c.dt == mdf::ChannelDataType::CanOpenTime) {
    uint64_t ms = 0, days = 0;
    for (size_t i = 0; i < 4; ++i) ms |= static_cast<uint64_t>(raw[i]) << (8 * i);
    for (size_t i = 0; i < 2; ++i) days |= static_cast<uint64_t>(raw[4 + i]) << (8 * i);
    ms &= 0x0FFFFFFF;
    v.u = (441763200000ull + days * 86400000ull + ms) * 1000000ull;
  } else if (c.dt == mdf::ChannelDataType::CanOpenDate) {
    const uint64_t ms = raw[0] | raw[1] << 8;
    const int min = raw[2] & 0x3F, hour = raw[3] & 0x1F, day = raw[4] & 0x1F, month = raw[5] & 0x3F, yy = raw[6] & 0x7F;
    // The two digit years 70..99 belong to 19xx.
    const int year = yy >= 70 ? 1900 + yy : 2000 + yy;
    // Days since 1970 (civil).
    const int y = month <= 2 ? year - 1 : year;
    const int era = y / 400;
    const int yoe = y - era * 400;
    const int doy = (153 * (month + (month > 2 ? -3 : 9)) + 2) / 5 + day - 1;
    const int64_t days = static_cast<int64_t>(era) * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
    v.u = static_cast<uint64_t>((days * 86400 + hour * 3600 + min * 60) * 1000 + static_cast<int64_t>(ms)) * 1000000ull;
  }
  return v;
}

// The records of a measurement are found in the data groups from first_dg.
inline void Records(parse4::File& f, const std::vector<model::DgSpec>& dg, const std::vector<model::Rec>& rec,
                    uint64_t start, size_t first_dg, const std::string& ctx) {
  vp::Check(first_dg + dg.size() <= f.dg.size(), ctx + ": number of data groups");
  for (size_t d = 0; d < dg.size(); ++d) {
    const auto& fd = f.dg[first_dg + d];
    std::vector<const parse4::Cg*> groups;
    for (const auto& k : fd.cg)
      if (!(k.flags & 1)) groups.push_back(&k);
    vp::CheckEq(dg[d].cg.size(), groups.size(), ctx + ": number of channel groups");
    for (size_t k = 0; k < groups.size(); ++k) {
      const auto& spec = dg[d].cg[k];
      const auto& cg = *groups[k];
      vp::CheckEq(spec.name, cg.name, ctx + ": group name");
      vp::CheckEq(spec.ch.size(), cg.cn.size(), ctx + ": number of channels");
      std::vector<const model::Rec*> list;
      for (const auto& r : rec)
        if (r.dg == d && r.cg == k) list.push_back(&r);
      vp::CheckEq(list.size(), cg.records.size(), ctx + ": number of records of " + spec.name);
      for (size_t c = 0; c < spec.ch.size(); ++c) {
        const auto& cs = spec.ch[c];
        const auto& cn = cg.cn[c];
        vp::CheckEq(cs.name, cn.name, ctx + ": channel name");
        vp::CheckEq(static_cast<int>(cs.dt), static_cast<int>(cn.dt), ctx + ": data type of " + cs.name);
        if (model::IsVlsd(cs)) {
          vp::CheckEq(1, static_cast<int>(cn.type), ctx + ": type of the variable length channel " + cs.name);
        } else {
          vp::CheckEq(static_cast<int>(cs.type), static_cast<int>(cn.type), ctx + ": channel type of " + cs.name);
          if (!model::IsVirtual(cs)) vp::CheckEq(cs.bytes * 8, uint64_t(cn.bit_count), ctx + ": bit count of " + cs.name);
        }
        vp::CheckEq(static_cast<int>(cs.sync), static_cast<int>(cn.sync), ctx + ": sync type of " + cs.name);
        vp::CheckEq(cs.inv, (cn.flags & 2) != 0, ctx + ": invalidation flag of " + cs.name);
        for (size_t s = 0; s < list.size(); ++s) {
          const auto got = Decode(f, cs, cg, cn, cg.records[s], s);
          model::CompareVal(cs, list[s]->v[c], got, s, static_cast<int64_t>(list[s]->time) - static_cast<int64_t>(start),
                            ctx + " (independent parser) " + spec.name);
        }
      }
    }
  }
}
}  // namespace compare4
