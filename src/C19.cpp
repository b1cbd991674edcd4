// C19: array channels keep every element in its place.
#include <cmath>

#include "common/io.h"
#include "common/model.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/isampleobserver.h"
#include "vp.h"

using namespace mdf;

namespace {

struct Ref { int cn = -1; };  // number of a channel of the file or -1

struct Array {
  ArrayType type = ArrayType::Array;
  ArrayStorage storage = ArrayStorage::CnTemplate;
  uint32_t flags = 0;
  std::vector<uint64_t> shape;
  std::vector<double> axis;
  std::vector<uint64_t> cycles;
  std::vector<Ref> dynamic, input, axes;
  Ref output, comparison;
  std::vector<int> axis_cc;  // channels whose conversion is used
};

struct Chan {
  std::string name;
  size_t group = 0, dg = 0;
  int kind = 0;  // 0 unsigned 1 signed 2 float
  bool be = false;
  unsigned bits = 8;
  bool inv = false;
  bool linear = false;
  double a = 0, b = 1;
  std::vector<Array> arrays;
  size_t count = 1;
  std::vector<uint64_t> raw;  // sample * count + element: value bits
  std::vector<bool> valid;
};

struct File {
  std::vector<Chan> cn;
  std::vector<size_t> dg_of;   // data group of each group
  size_t dgs = 1;
  std::vector<size_t> samples;  // per group
};

double AsFloat(const Chan& c, uint64_t raw) {
  if (c.bits == 32) {
    float f;
    const auto u = static_cast<uint32_t>(raw);
    memcpy(&f, &u, 4);
    return f;
  }
  double d;
  memcpy(&d, &raw, 8);
  return d;
}

File GenFile(vp::Gen& g) {
  File f;
  f.dgs = 1 + g.Draw(2);
  const size_t groups = f.dgs + g.Draw(1);
  for (size_t i = 0; i < groups; ++i) {
    f.dg_of.push_back(i < f.dgs ? i : g.Draw(f.dgs - 1));
    f.samples.push_back(1 + g.Draw(4));
    const size_t n = 1 + g.Draw(3);
    for (size_t k = 0; k < n; ++k) {
      Chan c;
      c.group = i;
      c.dg = f.dg_of[i];
      c.name = "c" + std::to_string(f.cn.size());
      c.kind = static_cast<int>(g.Draw(2));
      c.be = g.Bool();
      c.bits = c.kind == 2 ? g.Pick({64u, 32u}) : g.Pick({8u, 16u, 32u, 64u});
      if (c.kind != 2 && !c.be && g.Chance(1, 6)) {
        c.bits = g.Pick({12u, 7u, 20u, 1u, 63u});
        g.Label("odd bit count");
      }
      c.inv = g.Chance(1, 3);
      if (g.Chance(1, 3)) {
        c.linear = true;
        c.a = static_cast<double>(g.Int(-8, 8));
        c.b = static_cast<double>(g.Int(1, 4)) / 2;
      }
      f.cn.push_back(c);
    }
  }
  for (auto& c : f.cn) {
    if (!g.Chance(3, 4)) continue;
    const size_t nested = g.Chance(1, 5) ? 2 : 1;
    if (nested > 1) g.Label("array of arrays");
    for (size_t l = 0; l < nested; ++l) {
      Array a;
      const size_t dims = 1 + g.Size(nested > 1 ? 2 : 4);
      size_t product = 1, sum = 0;
      const size_t most = g.Chance(1, 20) ? 400 : 40;
      for (size_t d = 0; d < dims; ++d) {
        uint64_t n = 1 + g.Draw(g.Chance(1, 8) ? 40 : 4);
        if (product * n > most) n = 1;
        product *= n;
        sum += n;
        a.shape.push_back(n);
      }
      c.count *= product;
      a.type = static_cast<ArrayType>(g.Draw(4));
      if (g.Chance(1, 5)) a.storage = g.Bool() ? ArrayStorage::DgTemplate : ArrayStorage::CgTemplate;
      for (uint32_t bit = 0; bit < 9; ++bit)
        if (g.Chance(1, 4)) a.flags |= 1u << bit;
      if ((a.flags & CaFlag::FixedAxis) != 0)
        for (size_t i = 0; i < sum; ++i) a.axis.push_back(g.InterestingDouble());
      if (a.storage != ArrayStorage::CnTemplate)
        for (size_t i = 0; i < product; ++i) a.cycles.push_back(g.Draw(1000));
      auto ref = [&] {
        Ref r;
        if (g.Chance(4, 5)) {
          r.cn = static_cast<int>(g.Draw(f.cn.size() - 1));
          g.Label("references");
        }
        return r;
      };
      if ((a.flags & CaFlag::DynamicSize) != 0)
        for (size_t i = 0; i < dims; ++i) a.dynamic.push_back(ref());
      if ((a.flags & CaFlag::InputQuantity) != 0)
        for (size_t i = 0; i < dims; ++i) a.input.push_back(ref());
      if ((a.flags & CaFlag::OutputQuantity) != 0) a.output = ref();
      if ((a.flags & CaFlag::ComparisonQuantity) != 0) a.comparison = ref();
      if ((a.flags & CaFlag::Axis) != 0) {
        for (size_t i = 0; i < dims; ++i) {
          const Ref r = ref();
          a.axis_cc.push_back(r.cn >= 0 && f.cn[static_cast<size_t>(r.cn)].linear ? r.cn : -1);
        }
        if ((a.flags & CaFlag::FixedAxis) == 0)
          for (size_t i = 0; i < dims; ++i) a.axes.push_back(ref());
      }
      c.arrays.push_back(a);
    }
    if (c.count > 1) g.Nontrivial();
  }
  for (auto& c : f.cn) {
    for (size_t i = 0; i < f.samples[c.group] * c.count; ++i) {
      uint64_t v = 0;
      if (c.kind == 0) v = g.InterestingUnsigned(c.bits);
      else if (c.kind == 1) v = static_cast<uint64_t>(g.InterestingSigned(c.bits));
      else if (c.bits == 64) { const double d = g.InterestingDouble(); memcpy(&v, &d, 8); }
      else { const float d = g.InterestingFloat(); uint32_t u; memcpy(&u, &d, 4); v = u; }
      c.raw.push_back(v);
      c.valid.push_back(!c.inv || !g.Chance(1, 3));
    }
    g.Note() << c.name << " group " << c.group << " kind " << c.kind << (c.be ? " BE" : " LE") << " bits " << c.bits
             << " elements " << c.count << " arrays " << c.arrays.size() << (c.inv ? " inv" : "") << "\n";
  }
  return f;
}

// ---- sample observer: exceptions must not pass through the reader
void Run(vp::Gen& g) {
  model::NoLog();
  const File f = GenFile(g);
  const bool compressed = g.Chance(1, 3);
  const bool bulk = g.Bool();
  Io io(g.Chance(1, 8), "c19.mf4");
  auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf4Basic);
  vp::Check(io.Init(*w), "Init");
  w->CompressData(compressed);
  std::vector<IDataGroup*> dgs;
  for (size_t i = 0; i < f.dgs; ++i) dgs.push_back(w->CreateDataGroup());
  std::vector<IChannelGroup*> cgs;
  for (size_t i = 0; i < f.dg_of.size(); ++i) {
    cgs.push_back(w->CreateChannelGroup(dgs[f.dg_of[i]]));
    cgs.back()->Name("G" + std::to_string(i));
  }
  std::vector<IChannel*> cns;
  for (const auto& c : f.cn) {
    auto* cn = cgs[c.group]->CreateChannel(c.name);
    cn->Type(ChannelType::FixedLength);
    cn->DataType(c.kind == 0   ? (c.be ? ChannelDataType::UnsignedIntegerBe : ChannelDataType::UnsignedIntegerLe)
                 : c.kind == 1 ? (c.be ? ChannelDataType::SignedIntegerBe : ChannelDataType::SignedIntegerLe)
                               : (c.be ? ChannelDataType::FloatBe : ChannelDataType::FloatLe));
    cn->BitCount(c.bits);
    if (c.inv) cn->Flags(CnFlag::InvalidValid);
    if (c.linear) {
      auto* cc = cn->CreateChannelConversion();
      cc->Type(ConversionType::Linear);
      cc->Parameter(0, c.a);
      cc->Parameter(1, c.b);
      cc->Name("cc_" + c.name);
    }
    cns.push_back(cn);
  }
  auto target = [&](const Ref& r) {
    CaTripleReference t;
    if (r.cn < 0) return t;
    const auto& c = f.cn[static_cast<size_t>(r.cn)];
    t.DataGroup = dgs[c.dg];
    t.ChannelGroup = cgs[c.group];
    t.Channel = cns[static_cast<size_t>(r.cn)];
    return t;
  };
  for (size_t i = 0; i < f.cn.size(); ++i)
    for (const auto& a : f.cn[i].arrays) {
      auto* ca = cns[i]->CreateChannelArray();
      vp::Check(ca != nullptr, "CreateChannelArray");
      ca->Type(a.type);
      ca->Storage(a.storage);
      ca->Flags(a.flags);
      ca->Shape(a.shape);
      if (g.Bool()) ca->ResizeArrays();
      if (!a.axis.empty()) ca->AxisValues() = a.axis;
      if (!a.cycles.empty()) ca->CycleCounts() = a.cycles;
      if (a.storage == ArrayStorage::DgTemplate) (void)ca->DataLinks();
      for (size_t k = 0; k < a.dynamic.size(); ++k) ca->DynamicSizeList()[k] = target(a.dynamic[k]);
      for (size_t k = 0; k < a.input.size(); ++k) ca->InputQuantityList()[k] = target(a.input[k]);
      for (size_t k = 0; k < a.axes.size(); ++k) ca->AxisList()[k] = target(a.axes[k]);
      for (size_t k = 0; k < a.axis_cc.size(); ++k)
        if (a.axis_cc[k] >= 0)
          ca->AxisConversionList()[k] = cns[static_cast<size_t>(a.axis_cc[k])]->ChannelConversion();
      ca->OutputQuantity() = target(a.output);
      ca->ComparisonQuantity() = target(a.comparison);
    }
  vp::Check(w->InitMeasurement(), "InitMeasurement");
  w->StartMeasurement(1000);
  uint64_t time = 1000;
  for (size_t gi = 0; gi < cgs.size(); ++gi)
    for (size_t s = 0; s < f.samples[gi]; ++s) {
      for (size_t i = 0; i < f.cn.size(); ++i) {
        const auto& c = f.cn[i];
        if (c.group != gi) continue;
        vp::CheckEq(c.count, cns[i]->ArraySize(), "ArraySize of " + c.name);
        bool all_valid = true;
        for (size_t e = 0; e < c.count; ++e) all_valid = all_valid && c.valid[s * c.count + e];
        if (bulk && !c.inv) {
          if (c.kind == 0) cns[i]->SetChannelValues(std::vector<uint64_t>(c.raw.begin() + s * c.count, c.raw.begin() + (s + 1) * c.count));
          else if (c.kind == 1) {
            std::vector<int64_t> v;
            for (size_t e = 0; e < c.count; ++e) v.push_back(static_cast<int64_t>(c.raw[s * c.count + e]));
            cns[i]->SetChannelValues(v);
          } else {
            std::vector<double> v;
            for (size_t e = 0; e < c.count; ++e) v.push_back(AsFloat(c, c.raw[s * c.count + e]));
            cns[i]->SetChannelValues(v);
          }
          continue;
        }
        for (size_t e0 = 0; e0 < c.count; ++e0) {
          const size_t e = (s & 1) ? c.count - 1 - e0 : e0;  // either order
          const size_t at = s * c.count + e;
          if (c.kind == 0) cns[i]->SetChannelValue(c.raw[at], c.valid[at], e);
          else if (c.kind == 1) cns[i]->SetChannelValue(static_cast<int64_t>(c.raw[at]), c.valid[at], e);
          else cns[i]->SetChannelValue(AsFloat(c, c.raw[at]), c.valid[at], e);
        }
        // An element behind the last one must not reach other data.
        if (g.Chance(1, 8)) {
          const bool invalid_shared = c.inv;  // its flag would be another channel's
          if (!invalid_shared && gi == f.cn[i].group && (i + 1 == f.cn.size() || f.cn[i + 1].group != gi) && !c.inv) {
            bool any_inv = false;
            for (const auto& o : f.cn) any_inv |= o.group == gi && o.inv;
            if (!any_inv) {
              if (c.kind == 0) cns[i]->SetChannelValue(static_cast<uint64_t>(1), true, c.count);
              else if (c.kind == 1) cns[i]->SetChannelValue(static_cast<int64_t>(1), true, c.count);
              else cns[i]->SetChannelValue(1.0, true, c.count);
              g.Label("index behind the end");
            }
          }
        }
      }
      w->SaveSample(*cgs[gi], ++time);
    }
  w->StopMeasurement(time + 1);
  vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  w.reset();

  auto r = io.Reader();
  vp::Check(r->IsOk() && r->ReadEverythingButData(), "reader");
  auto* hd = r->GetHeader();
  const auto rdg = hd->DataGroups();
  vp::CheckEq(f.dgs, rdg.size(), "number of data groups");
  std::vector<IChannelGroup*> rcg(f.dg_of.size());
  std::vector<IChannel*> rcn;
  for (size_t i = 0; i < rcg.size(); ++i) {
    rcg[i] = rdg[f.dg_of[i]]->GetChannelGroup("G" + std::to_string(i));
    vp::Check(rcg[i] != nullptr, "no group " + std::to_string(i));
    vp::CheckEq(f.samples[i], rcg[i]->NofSamples(), "number of samples");
  }
  for (const auto& c : f.cn) {
    rcn.push_back(rcg[c.group]->GetChannel(c.name));
    vp::Check(rcn.back() != nullptr, "no channel " + c.name);
  }
  auto check_ref = [&](const Ref& want, const CaTripleReference& got, const std::string& what) {
    if (want.cn < 0) {
      vp::Check(got.IsEmpty(), what + ": expected no reference");
      return;
    }
    const auto& c = f.cn[static_cast<size_t>(want.cn)];
    vp::Check(got.DataGroup == rdg[c.dg], what + ": wrong data group" + (got.DataGroup ? " (another)" : " (none)") + (got.ChannelGroup ? " cg" : " no cg") + (got.Channel ? " cn" : " no cn"));
    vp::Check(got.ChannelGroup == rcg[c.group], what + ": wrong channel group");
    vp::Check(got.Channel == rcn[static_cast<size_t>(want.cn)],
              what + ": expected channel " + c.name + " got " + (got.Channel ? got.Channel->Name() : std::string("none")));
  };
  for (size_t i = 0; i < f.cn.size(); ++i) {
    const auto& c = f.cn[i];
    const auto list = rcn[i]->ChannelArrays();
    vp::CheckEq(c.arrays.size(), list.size(), "number of arrays of " + c.name);
    vp::CheckEq(c.count, rcn[i]->ArraySize(), "ArraySize of " + c.name);
    for (size_t k = 0; k < list.size(); ++k) {
      const auto& a = c.arrays[k];
      const IChannelArray* ca = list[k];
      const std::string w2 = c.name + " array " + std::to_string(k);
      vp::CheckEq(static_cast<int>(a.type), static_cast<int>(ca->Type()), w2 + " type");
      vp::CheckEq(static_cast<int>(a.storage), static_cast<int>(ca->Storage()), w2 + " storage");
      vp::CheckEq(a.flags, ca->Flags(), w2 + " flags");
      vp::Check(a.shape == ca->Shape(), w2 + " shape");
      vp::CheckEq(a.shape.size(), ca->Dimensions(), w2 + " dimensions");
      std::string text = "N";
      for (size_t d = 0; d < a.shape.size(); ++d) {
        vp::CheckEq(a.shape[d], ca->DimensionSize(d), w2 + " dimension size");
        text += "[" + std::to_string(a.shape[d]) + "]";
      }
      vp::CheckEq(text, ca->DimensionAsString(), w2 + " dimension text");
      vp::Check(a.axis == ca->AxisValues(), w2 + " axis values");
      vp::Check(a.cycles == ca->CycleCounts(), w2 + " cycle counts");
      vp::CheckEq(a.dynamic.size(), ca->DynamicSizeList().size(), w2 + " dynamic sizes");
      for (size_t d = 0; d < a.dynamic.size(); ++d) check_ref(a.dynamic[d], ca->DynamicSizeList()[d], w2 + " dynamic size");
      vp::CheckEq(a.input.size(), ca->InputQuantityList().size(), w2 + " input quantities");
      for (size_t d = 0; d < a.input.size(); ++d) check_ref(a.input[d], ca->InputQuantityList()[d], w2 + " input quantity");
      vp::CheckEq(a.axes.size(), ca->AxisList().size(), w2 + " axes");
      for (size_t d = 0; d < a.axes.size(); ++d) check_ref(a.axes[d], ca->AxisList()[d], w2 + " axis");
      check_ref(a.output, ca->OutputQuantity(), w2 + " output quantity");
      check_ref(a.comparison, ca->ComparisonQuantity(), w2 + " comparison quantity");
      vp::CheckEq(a.axis_cc.size(), ca->AxisConversionList().size(), w2 + " axis conversions");
      for (size_t d = 0; d < a.axis_cc.size(); ++d) {
        const IChannelConversion* want =
            a.axis_cc[d] < 0 ? nullptr : rcn[static_cast<size_t>(a.axis_cc[d])]->ChannelConversion();
        vp::Check(want == ca->AxisConversionList()[d], w2 + " axis conversion");
      }
    }
  }
  auto want_eng = [&](const Chan& c, size_t at) {
    const double x = c.kind == 0 ? static_cast<double>(c.raw[at]) : c.kind == 1 ? static_cast<double>(static_cast<int64_t>(c.raw[at])) : AsFloat(c, c.raw[at]);
    return c.linear ? c.a + c.b * x : x;
  };
  for (size_t d = 0; d < f.dgs; ++d) {
    std::vector<ChannelObserverPtr> obs(f.cn.size());
    for (size_t i = 0; i < f.cn.size(); ++i)
      if (f.cn[i].dg == d) obs[i] = CreateChannelObserver(*rdg[d], *rcg[f.cn[i].group], *rcn[i]);
    std::exception_ptr bad;
    ISampleObserver so(*rdg[d]);
    so.DoOnSample = [&](uint64_t s, uint64_t id, const std::vector<uint8_t>& rec) {
      try {
        for (size_t i = 0; i < f.cn.size(); ++i) {
          const auto& c = f.cn[i];
          if (c.dg != d || rcg[c.group]->RecordId() != id) continue;
          for (size_t e = 0; e < c.count; ++e) {
            const size_t at = s * c.count + e;
            double v = 0;
            const bool ok = so.GetEngValue(*rcn[i], s, rec, v, e);
            const std::string where = "sample observer " + c.name + " sample " + std::to_string(s) + " element " + std::to_string(e);
            vp::CheckEq(static_cast<bool>(c.valid[at]), ok, where + " valid");
            if (ok) vp::CheckEq(want_eng(c, at), v, where);
          }
        }
      } catch (...) {
        if (!bad) bad = std::current_exception();
      }
      return true;
    };
    vp::Check(r->ReadData(*rdg[d]), "ReadData");
    if (bad) std::rethrow_exception(bad);
    for (size_t i = 0; i < f.cn.size(); ++i) {
      const auto& c = f.cn[i];
      if (c.dg != d) continue;
      vp::CheckEq(c.count, obs[i]->ArraySize(), "observer array size");
      vp::CheckEq(!c.arrays.empty(), obs[i]->IsArray(), "observer IsArray");
      vp::CheckEq(f.samples[c.group], obs[i]->NofSamples(), "observer samples");
      for (size_t s = 0; s < f.samples[c.group]; ++s) {
        const std::string where = c.name + " sample " + std::to_string(s);
        std::vector<uint64_t> u;
        std::vector<int64_t> si;
        std::vector<double> fl, eng;
        std::vector<bool> ok;
        if (c.kind == 0) ok = obs[i]->GetChannelValues(s, u);
        else if (c.kind == 1) ok = obs[i]->GetChannelValues(s, si);
        else ok = obs[i]->GetChannelValues(s, fl);
        const auto ok2 = obs[i]->GetEngValues(s, eng);
        vp::CheckEq(c.count, ok.size(), where + " number of flags");
        vp::CheckEq(c.count, eng.size(), where + " number of values");
        std::string text = obs[i]->EngValueToString(s);
        size_t from = 0;
        for (size_t e = 0; e < c.count; ++e) {
          const size_t at = s * c.count + e;
          const std::string we = where + " element " + std::to_string(e);
          vp::CheckEq(static_cast<bool>(c.valid[at]), static_cast<bool>(ok[e]), we + " valid");
          vp::CheckEq(static_cast<bool>(c.valid[at]), static_cast<bool>(ok2[e]), we + " engineering valid");
          vp::CheckEq(static_cast<bool>(c.valid[at]), static_cast<bool>(obs[i]->GetValidList().at(at)), we + " valid list");
          const auto end = std::min(text.size(), text.find(';', from));
          const std::string part = text.substr(from, end - from);
          from = end + 1;
          if (e + 1 < c.count) vp::Check(end < text.size(), we + ": too few elements in the text");
          else vp::CheckEq(text.size(), end, we + ": too many elements in the text");
          if (!c.valid[at]) {
            vp::CheckEq(std::string("*"), part, we + " text");
            continue;
          }
          if (c.kind == 0) vp::CheckEq(c.raw[at], u[e], we);
          else if (c.kind == 1) vp::CheckEq(static_cast<int64_t>(c.raw[at]), si[e], we);
          else vp::CheckEq(AsFloat(c, c.raw[at]), fl[e], we);
          vp::CheckEq(want_eng(c, at), eng[e], we + " engineering");
          double one = 0;
          vp::Check(obs[i]->GetEngValue(s, one, e), we + " single");
          vp::CheckEq(want_eng(c, at), one, we + " single");
          if (c.kind != 2 && !c.linear)
            vp::CheckEq(c.kind == 0 ? std::to_string(c.raw[at]) : std::to_string(static_cast<int64_t>(c.raw[at])), part, we + " text");
        }
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C19";
  p.assumptions = {"numeric elements stored in the record, one behind the other (the only layout the writer makes)"};
  p.subs.push_back({"arrays", 20000, 400000, Run, "at least one channel has an array with more than one element"});
  return vp::Main(argc, argv, p);
}
