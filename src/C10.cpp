// C10: conversion rules give the engineering value the standard defines.
#include <cmath>
#include <memory>

#include "common/enc4.h"
#include "common/io.h"
#include "common/model.h"
#include "mdf/ichannelconversion.h"
#include "mdf/isampleobserver.h"
#include "vp.h"

using namespace mdf;

namespace {

struct Rule {
  ConversionType type = ConversionType::NoConversion;
  std::vector<double> par;
  struct Ref { std::string text; std::shared_ptr<Rule> rule; };
  std::vector<Ref> ref;
  int decimals = -1;
};

struct Raw {            // a channel value
  bool text = false;
  double x = 0;         // its number (exact for the generated values)
  std::string s;
};

struct Result {
  enum Kind { None, Number, Text, Skip } kind = None;
  double v = 0, tol = 0;
  std::string s;
  int decimals = -1;
};

Result Num(double v, double tol) { Result r; r.kind = Result::Number; r.v = v; r.tol = tol; return r; }
Result Txt(const std::string& s) { Result r; r.kind = Result::Text; r.s = s; return r; }
Result Unknown() { Result r; r.kind = Result::Skip; return r; }

// The rule evaluated from its definition.
Result Eval(const Rule& c, const Raw& raw, bool is_float, bool mdf3) {
  const double x = raw.x;
  const auto& p = c.par;
  Result out;
  switch (c.type) {
    case ConversionType::NoConversion:
      if (raw.text) return Txt(raw.s);
      out = Num(x, 0);
      break;
    case ConversionType::Linear: {
      if (raw.text) return {};
      out = Num(p[0] + p[1] * x, 1e-12 * (std::fabs(p[0]) + std::fabs(p[1] * x)));
      break;
    }
    case ConversionType::Rational: {
      if (raw.text) return {};
      const double n = p[0] * x * x + p[1] * x + p[2];
      const double d = p[3] * x * x + p[4] * x + p[5];
      const double an = std::fabs(p[0] * x * x) + std::fabs(p[1] * x) + std::fabs(p[2]);
      const double ad = std::fabs(p[3] * x * x) + std::fabs(p[4] * x) + std::fabs(p[5]);
      if (ad == 0) return {};
      bool exact = std::fabs(x) < 4096 && x == std::floor(x);
      for (double v : p) exact = exact && std::fabs(v) < 4096 && v == std::floor(v);
      if (exact && d == 0) return {};
      if (!exact && std::fabs(d) < 1e-6 * ad) return Unknown();
      const double v = n / d;
      out = Num(v, 1e-9 * (an / std::fabs(d) + std::fabs(v) * ad / std::fabs(d)));
      break;
    }
    case ConversionType::ValueToValueInterpolation: {
      if (raw.text) return {};
      const size_t n = p.size() / 2;
      if (x <= p[0]) out = Num(p[1], 0);
      else if (x >= p[2 * (n - 1)]) out = Num(p[2 * (n - 1) + 1], 0);
      else
        for (size_t i = 0; i + 1 < n; ++i) {
          const double k0 = p[2 * i], v0 = p[2 * i + 1], k1 = p[2 * i + 2], v1 = p[2 * i + 3];
          if (x >= k0 && x < k1) {
            out = Num(v0 + (x - k0) / (k1 - k0) * (v1 - v0), 1e-9 * (std::fabs(v0) + std::fabs(v1)));
            break;
          }
        }
      break;
    }
    case ConversionType::ValueToValue: {
      if (raw.text) return {};
      const size_t n = p.size() / 2;
      if (x <= p[0]) out = Num(p[1], 0);
      else if (x >= p[2 * (n - 1)]) out = Num(p[2 * (n - 1) + 1], 0);
      else
        for (size_t i = 0; i + 1 < n; ++i) {
          const double k0 = p[2 * i], v0 = p[2 * i + 1], k1 = p[2 * i + 2], v1 = p[2 * i + 3];
          if (x >= k0 && x < k1) {
            out = Num((x - k0) > (k1 - x) ? v1 : v0, 0);
            break;
          }
        }
      break;
    }
    case ConversionType::ValueRangeToValue: {
      if (raw.text) return {};
      out = Num(p.back(), 0);
      for (size_t i = 0; i + 2 < p.size(); i += 3)
        if (x >= p[i] && (is_float ? x < p[i + 1] : x <= p[i + 1])) {
          out = Num(p[i + 2], 0);
          break;
        }
      break;
    }
    case ConversionType::ValueToText:
    case ConversionType::ValueRangeToText: {
      if (raw.text) return {};
      size_t at = c.ref.size() - 1;  // default
      bool found = false;
      if (c.type == ConversionType::ValueToText) {
        for (size_t i = 0; i < p.size() && !found; ++i)
          if (p[i] == x) { at = i; found = true; }
        if (mdf3 && !found) return {};
      } else {
        for (size_t i = 0; 2 * i + 1 < p.size() && !found; ++i)
          if (x >= p[2 * i] && (is_float ? x < p[2 * i + 1] : x <= p[2 * i + 1])) { at = i; found = true; }
      }
      if (c.ref[at].rule) return Eval(*c.ref[at].rule, raw, is_float, mdf3);
      return Txt(c.ref[at].text);
    }
    case ConversionType::TextToValue: {
      if (!raw.text) return Unknown();
      out = Num(p.back(), 0);
      for (size_t i = 0; i < c.ref.size(); ++i)
        if (c.ref[i].text == raw.s) {
          out = Num(p[i], 0);
          break;
        }
      break;
    }
    case ConversionType::TextToTranslation: {
      if (!raw.text) return Unknown();
      for (size_t i = 0; i + 1 < c.ref.size(); i += 2)
        if (c.ref[i].text == raw.s) return Txt(c.ref[i + 1].text);
      return Txt(c.ref.back().text);
    }
    case ConversionType::Polynomial: {
      const double t = x - p[4] - p[5];
      const double n = p[1] - p[3] * t, d = p[2] * t - p[0];
      const double an = std::fabs(p[1]) + std::fabs(p[3] * t), ad = std::fabs(p[2] * t) + std::fabs(p[0]);
      if (ad == 0) return {};
      if (std::fabs(d) < 1e-6 * ad) return Unknown();
      out = Num(n / d, 1e-9 * (an / std::fabs(d) + std::fabs(n / d) * ad / std::fabs(d)));
      break;
    }
    case ConversionType::Exponential:
    case ConversionType::Logarithmic: {
      double t, k;
      if (p[3] == 0) {
        if (p[0] == 0 || p[1] == 0) return {};
        t = ((x - p[6]) * p[5] - p[2]) / p[0];
        k = p[1];
      } else if (p[0] == 0) {
        if (x == p[6] || p[4] == 0) return {};
        t = (p[2] / (x - p[6]) - p[5]) / p[3];
        k = p[4];
      } else {
        return {};
      }
      if (c.type == ConversionType::Logarithmic && !(t > 1e-6)) return Unknown();
      if (std::fabs(t) > 200) return Unknown();
      const double v = (c.type == ConversionType::Exponential ? std::exp(t) : std::log(t)) / k;
      out = Num(v, 1e-9 * (std::fabs(v) + 1 / std::fabs(k)));
      break;
    }
    default:
      return Unknown();
  }
  out.decimals = c.decimals;
  return out;
}

double Small(vp::Gen& g) {
  switch (g.Draw(3)) {
    case 0: return static_cast<double>(g.Int(-20, 20));
    case 1: return static_cast<double>(g.Int(-400, 400)) / 4;
    case 2: return static_cast<double>(g.Int(-100000, 100000)) / 1000.0;
    default: return static_cast<double>(g.Int(-1000000, 1000000)) * (g.Bool() ? 1e3 : 1e-6);
  }
}

std::vector<double> Keys(vp::Gen& g, size_t n, bool integers) {
  std::vector<double> k;
  double at = static_cast<double>(g.Int(-50, 50)) / (integers ? 1 : 2);
  for (size_t i = 0; i < n; ++i) {
    k.push_back(at);
    at += static_cast<double>(1 + g.Draw(g.Chance(1, 4) ? 1000 : 4)) / (integers ? 1 : 2);
  }
  return k;
}

std::string Word(vp::Gen& g) {
  if (g.Chance(1, 6)) return "two words";
  std::string s = g.Text(12);
  // Texts of blocks are read without surrounding white space.
  while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.pop_back();
  while (!s.empty() && isspace(static_cast<unsigned char>(s.front()))) s.erase(0, 1);
  return s;
}

Rule GenRule(vp::Gen& g, bool text, bool nested, bool mdf3, bool encoded, int depth = 0) {
  Rule c;
  std::vector<ConversionType> types = {ConversionType::NoConversion, ConversionType::Linear, ConversionType::Rational,
                                       ConversionType::ValueToValueInterpolation, ConversionType::ValueToValue,
                                       ConversionType::ValueRangeToValue, ConversionType::ValueToText,
                                       ConversionType::ValueRangeToText};
  if (mdf3) {
    types = {ConversionType::NoConversion, ConversionType::Linear, ConversionType::Rational,
             ConversionType::ValueToValueInterpolation, ConversionType::ValueToValue, ConversionType::Polynomial,
             ConversionType::Exponential, ConversionType::Logarithmic};
    if (encoded) {
      types.push_back(ConversionType::ValueToText);
      types.push_back(ConversionType::ValueRangeToText);
    }
  }
  if (text) types = {ConversionType::NoConversion, ConversionType::TextToValue, ConversionType::TextToTranslation};
  c.type = g.Pick(types);
  if (!mdf3 && g.Chance(1, 4)) c.decimals = static_cast<int>(g.Draw(8));
  auto ref = [&](bool allow_rule) {
    Rule::Ref r;
    if (nested && allow_rule && depth < 2 && g.Chance(1, 3)) {
      r.rule = std::make_shared<Rule>(GenRule(g, false, true, mdf3, encoded, depth + 1));
      g.Label("nested rule");
    } else {
      r.text = mdf3 ? g.Ascii(20) : Word(g);
    }
    return r;
  };
  const size_t n = 1 + g.Size(g.Chance(1, 20) ? 200 : 6);
  switch (c.type) {
    case ConversionType::Linear: c.par = {Small(g), Small(g)}; break;
    case ConversionType::Rational: for (int i = 0; i < 6; ++i) c.par.push_back(g.Chance(1, 4) ? 0.0 : Small(g)); break;
    case ConversionType::Polynomial: for (int i = 0; i < 6; ++i) c.par.push_back(g.Chance(1, 4) ? 0.0 : Small(g)); break;
    case ConversionType::Exponential:
    case ConversionType::Logarithmic:
      for (int i = 0; i < 7; ++i) c.par.push_back(g.Chance(1, 6) ? 0.0 : Small(g));
      if (g.Bool()) c.par[3] = 0;
      else c.par[0] = 0;
      break;
    case ConversionType::ValueToValue:
    case ConversionType::ValueToValueInterpolation:
      for (double k : Keys(g, n, false)) { c.par.push_back(k); c.par.push_back(Small(g)); }
      break;
    case ConversionType::ValueRangeToValue: {
      const auto k = Keys(g, 2 * n, g.Bool());
      for (size_t i = 0; i < n; ++i) {
        c.par.push_back(k[2 * i]);
        c.par.push_back(g.Bool() && i + 1 < n ? k[2 * i + 2] : k[2 * i + 1]);  // touching or separate ranges
        c.par.push_back(Small(g));
      }
      c.par.push_back(Small(g));
      break;
    }
    case ConversionType::ValueToText:
      c.par = Keys(g, n, g.Bool());
      for (size_t i = 0; i <= n; ++i) c.ref.push_back(ref(true));
      break;
    case ConversionType::ValueRangeToText: {
      const auto k = Keys(g, 2 * n, g.Bool());
      for (size_t i = 0; i < n; ++i) {
        c.par.push_back(k[2 * i]);
        c.par.push_back(g.Bool() && i + 1 < n ? k[2 * i + 2] : k[2 * i + 1]);
      }
      for (size_t i = 0; i <= n; ++i) c.ref.push_back(ref(true));
      break;
    }
    case ConversionType::TextToValue:
      for (size_t i = 0; i < n; ++i) { c.ref.push_back(ref(false)); c.par.push_back(Small(g)); }
      c.par.push_back(Small(g));
      break;
    case ConversionType::TextToTranslation:
      for (size_t i = 0; i < 2 * n + 1; ++i) c.ref.push_back(ref(false));
      break;
    default: break;
  }
  return c;
}

void Points(const Rule& c, std::vector<double>& k) {
  for (double v : c.par) k.push_back(v);
  for (const auto& r : c.ref)
    if (r.rule) Points(*r.rule, k);
}

std::string Show(const Rule& c) {
  std::ostringstream s;
  s.precision(12);
  s << "type " << static_cast<int>(c.type) << " par";
  for (double v : c.par) s << " " << v;
  for (const auto& r : c.ref) s << " ref " << (r.rule ? "(" + Show(*r.rule) + ")" : vp::Quote(r.text));
  if (c.decimals >= 0) s << " decimals " << c.decimals;
  return s.str();
}

struct Chan {
  std::string name;
  int kind = 0;    // 0 unsigned 1 signed 2 float 3 text
  unsigned bits = 64;
  bool inv = false;
  Rule rule;
  std::vector<Raw> raw;
  std::vector<bool> valid;
};

Raw GenRaw(vp::Gen& g, const Chan& c, const std::vector<double>& pts) {
  Raw r;
  if (c.kind == 3) {
    r.text = true;
    if (!c.rule.ref.empty() && g.Chance(3, 4)) r.s = c.rule.ref[g.Draw(c.rule.ref.size() - 1)].text;
    else r.s = g.Ascii(10);
    if (r.s.size() > 40) r.s.clear();
    return r;
  }
  double x = 0;
  if (!pts.empty() && g.Chance(4, 5)) {
    x = g.Pick(pts);
    switch (g.Draw(5)) {
      case 1: x += 1; break;
      case 2: x -= 1; break;
      case 3: x += 0.25; break;
      case 4: x = (x + g.Pick(pts)) / 2; break;
      case 5: x += static_cast<double>(g.Int(-10, 10)); break;
      default: break;
    }
  } else {
    x = static_cast<double>(g.Int(-300, 300));
  }
  if (c.kind == 2) {
    r.x = c.bits == 32 ? static_cast<double>(static_cast<float>(x)) : x;
    return r;
  }
  x = std::floor(x);
  const double top = std::ldexp(1.0, static_cast<int>(std::min(c.bits, 50u)) - (c.kind == 1 ? 1 : 0)) - 1;
  const double low = c.kind == 1 ? -top - 1 : 0;
  if (g.Chance(1, 20)) x = g.Bool() ? top : low;
  r.x = std::min(std::max(x, low), top);
  if (r.x == 0) r.x = 0;
  return r;
}

std::vector<Chan> GenChans(vp::Gen& g, bool nested, bool mdf3, bool encoded) {
  std::vector<Chan> list;
  const size_t n = 1 + g.Draw(3);
  const size_t samples = 4 + g.Size(30);
  for (size_t i = 0; i < n; ++i) {
    Chan c;
    c.name = "c" + std::to_string(i);
    c.kind = static_cast<int>(g.Draw(mdf3 ? 2 : 3));
    c.bits = c.kind == 2 ? g.Pick({64u, 32u}) : g.Pick({64u, 32u, 16u, 8u});
    c.inv = !mdf3 && g.Chance(1, 4);
    c.rule = GenRule(g, c.kind == 3, nested, mdf3, encoded);
    std::vector<double> pts;
    Points(c.rule, pts);
    for (size_t s = 0; s < samples; ++s) {
      c.raw.push_back(GenRaw(g, c, pts));
      c.valid.push_back(!c.inv || !g.Chance(1, 4));
    }
    g.Note() << c.name << " kind " << c.kind << " bits " << c.bits << " " << Show(c.rule) << "\n";
    g.Label("type " + std::to_string(static_cast<int>(c.rule.type)));
    list.push_back(c);
  }
  return list;
}

bool TextIsNumber(const std::string& text, const Result& w) {
  if (!std::isfinite(w.v) || std::fabs(w.v) > 1e15) return true;
  char* end = nullptr;
  const double got = std::strtod(text.c_str(), &end);
  if (text.empty() || *end) return false;
  const int dec = w.decimals < 0 ? 6 : w.decimals;
  return std::fabs(got - w.v) <= 0.51 * std::pow(10, -dec) + 1e-5 * std::fabs(w.v) + w.tol;
}

void CompareOne(const std::string& where, const Result& w, bool valid_d, double d, bool valid_s, const std::string& s) {
  switch (w.kind) {
    case Result::Skip: return;
    case Result::None:
      if (valid_d || valid_s) vp::Fail(where + ": the rule has no result but a valid value is given");
      return;
    case Result::Number:
      if (!valid_d) vp::Fail(where + ": expected " + std::to_string(w.v) + " but the value is not valid");
      if (std::isnan(d) || std::fabs(d - w.v) > w.tol) {
        std::ostringstream t;
        t.precision(17);
        t << where << ": expected " << w.v << " got " << d;
        vp::Fail(t.str());
      }
      if (!valid_s) vp::Fail(where + ": the text value is not valid");
      if (!TextIsNumber(s, w)) vp::Fail(where + ": expected the number " + std::to_string(w.v) + " got text " + vp::Quote(s));
      return;
    case Result::Text:
      if (!valid_s) vp::Fail(where + ": expected " + vp::Quote(w.s) + " but the value is not valid");
      if (s != w.s) vp::Fail(where + ": expected " + vp::Quote(w.s) + " got " + vp::Quote(s));
      return;
  }
}

void Compare(vp::Gen& g, MdfReader& r, const std::vector<Chan>& list, bool mdf3) {
  auto* dg = r.GetHeader()->DataGroups().at(0);
  auto* cg = dg->ChannelGroups().at(0);
  std::vector<ChannelObserverPtr> obs;
  std::vector<const IChannel*> cns;
  for (const auto& c : list) {
    auto* cn = cg->GetChannel(c.name);
    vp::Check(cn != nullptr, "no channel " + c.name);
    cns.push_back(cn);
    obs.push_back(CreateChannelObserver(*dg, *cg, *cn));
  }
  vp::CheckEq(list[0].raw.size(), cg->NofSamples(), "number of samples");
  auto want = [&](size_t i, uint64_t s) {
    const auto& c = list[i];
    Result w;
    if (!c.valid[s]) return w;
    return Eval(c.rule, c.raw[s], c.kind == 2, mdf3);
  };
  auto where = [&](size_t i, uint64_t s, const char* via) {
    std::ostringstream t;
    t.precision(17);
    t << via << " channel " << list[i].name << " (" << Show(list[i].rule) << ") raw ";
    if (list[i].raw[s].text) t << vp::Quote(list[i].raw[s].s);
    else t << list[i].raw[s].x;
    return t.str();
  };
  ISampleObserver raw(*dg);
  std::exception_ptr bad;  // an exception must not pass through the reader
  raw.DoOnSample = [&](uint64_t s, uint64_t, const std::vector<uint8_t>& rec) {
    for (size_t i = 0; i < list.size(); ++i) {
      double d = 0;
      std::string t;
      const bool vd = raw.GetEngValue(*cns[i], s, rec, d);
      const bool vs = raw.GetEngValue(*cns[i], s, rec, t);
      try {
        CompareOne(where(i, s, "sample observer"), want(i, s), vd, d, vs, t);
      } catch (...) {
        if (!bad) bad = std::current_exception();
      }
    }
    return true;
  };
  vp::Check(r.ReadData(*dg), "ReadData");
  if (bad) std::rethrow_exception(bad);
  for (size_t i = 0; i < list.size(); ++i)
    for (uint64_t s = 0; s < list[i].raw.size(); ++s) {
      double d = 0;
      std::string t;
      const bool vd = obs[i]->GetEngValue(s, d);
      const bool vs = obs[i]->GetEngValue(s, t);
      const Result w = want(i, s);
      CompareOne(where(i, s, "channel observer"), w, vd, d, vs, t);
      if (w.kind == Result::Text) vp::CheckEq(w.s, obs[i]->EngValueToString(s), where(i, s, "EngValueToString"));
      if (w.kind != Result::None && w.kind != Result::Skip) g.Nontrivial();
    }
}

ChannelDataType Dt(vp::Gen& g, const Chan& c) {
  switch (c.kind) {
    case 0: return g.Bool() ? ChannelDataType::UnsignedIntegerBe : ChannelDataType::UnsignedIntegerLe;
    case 1: return g.Bool() ? ChannelDataType::SignedIntegerBe : ChannelDataType::SignedIntegerLe;
    case 2: return g.Bool() ? ChannelDataType::FloatBe : ChannelDataType::FloatLe;
    default: return ChannelDataType::StringUTF8;
  }
}

void Written(vp::Gen& g, bool mdf3) {
  model::NoLog();
  const auto list = GenChans(g, false, mdf3, false);
  Io io(false, "c10");
  {
    auto w = MdfFactory::CreateMdfWriter(mdf3 ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic);
    vp::Check(io.Init(*w), "Init");
    auto* dg = w->CreateDataGroup();
    auto* cg = w->CreateChannelGroup(dg);
    cg->Name("G");
    std::vector<IChannel*> cns;
    for (const auto& c : list) {
      auto* cn = cg->CreateChannel(c.name);
      cn->Type(ChannelType::FixedLength);
      cn->DataType(Dt(g, c));
      cn->DataBytes(c.kind == 3 ? 60 : c.bits / 8);
      if (c.inv) cn->Flags(CnFlag::InvalidValid);
      if (c.rule.type != ConversionType::NoConversion || g.Bool()) {
        auto* cc = cn->CreateChannelConversion();
        cc->Type(c.rule.type);
        if (c.rule.decimals >= 0) cc->Decimals(static_cast<uint8_t>(c.rule.decimals));
        for (size_t i = 0; i < c.rule.par.size(); ++i) cc->Parameter(static_cast<uint16_t>(i), c.rule.par[i]);
        for (size_t i = 0; i < c.rule.ref.size(); ++i) cc->Reference(static_cast<uint16_t>(i), c.rule.ref[i].text);
      }
      cns.push_back(cn);
    }
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(1000);
    for (size_t s = 0; s < list[0].raw.size(); ++s) {
      for (size_t i = 0; i < list.size(); ++i) {
        const auto& c = list[i];
        if (c.kind == 0) cns[i]->SetChannelValue(static_cast<uint64_t>(c.raw[s].x), c.valid[s]);
        else if (c.kind == 1) cns[i]->SetChannelValue(static_cast<int64_t>(c.raw[s].x), c.valid[s]);
        else if (c.kind == 2) cns[i]->SetChannelValue(c.raw[s].x, c.valid[s]);
        else cns[i]->SetChannelValue(c.raw[s].s, c.valid[s]);
      }
      w->SaveSample(*cg, 1000 + s);
    }
    w->StopMeasurement(2000);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  auto r = io.Reader();
  vp::Check(r->IsOk() && r->ReadEverythingButData(), "reader");
  Compare(g, *r, list, mdf3);
}

void PutValue(std::vector<uint8_t>& rec, const Chan& c, const Raw& v) {
  uint8_t t[64] = {};
  size_t n = c.bits / 8;
  if (c.kind == 0) { const auto u = static_cast<uint64_t>(v.x); memcpy(t, &u, 8); }
  else if (c.kind == 1) { const auto u = static_cast<int64_t>(v.x); memcpy(t, &u, 8); }
  else if (c.kind == 2 && c.bits == 64) memcpy(t, &v.x, 8);
  else if (c.kind == 2) { const auto f = static_cast<float>(v.x); memcpy(t, &f, 4); }
  else { n = 60; memcpy(t, v.s.data(), v.s.size()); }
  rec.insert(rec.end(), t, t + n);
}

int AddRule(enc::Image& im, const Rule& c) {
  std::vector<int> link = {-1, -1, -1, -1};
  for (const auto& r : c.ref) link.push_back(r.rule ? AddRule(im, *r.rule) : im.Text(r.text));
  enc::Out o;
  o.N<uint8_t>(static_cast<uint8_t>(c.type)).N<uint8_t>(static_cast<uint8_t>(std::max(0, c.decimals)));
  o.N<uint16_t>(c.decimals >= 0 ? 1 : 0).N<uint16_t>(static_cast<uint16_t>(c.ref.size()));
  o.N<uint16_t>(static_cast<uint16_t>(c.par.size())).N<double>(0).N<double>(0);
  for (double v : c.par) o.N<double>(v);
  return im.Add("CC", link, o.b);
}

void Encoded4(vp::Gen& g) {
  model::NoLog();
  auto list = GenChans(g, true, false, true);
  for (auto& c : list) { c.inv = false; c.valid.assign(c.valid.size(), true); }
  enc::Image im;
  enc::Out hd;
  hd.N<uint64_t>(1600000000000000000ull).N<int16_t>(0).N<int16_t>(0).N<uint32_t>(0).N<double>(0).N<double>(0);
  im.Add("HD", {-1, -1, -1, -1, -1, -1}, hd.b);
  enc::Out fh;
  fh.N<uint64_t>(1600000000000000000ull).N<int16_t>(0).N<int16_t>(0).N<uint32_t>(0);
  im.blk[0].link[1] = im.Add("FH", {-1, im.Xml("<FHcomment><TX>v</TX></FHcomment>")}, fh.b);
  std::vector<uint8_t> data;
  size_t rec_size = 0;
  for (size_t s = 0; s < list[0].raw.size(); ++s) {
    std::vector<uint8_t> rec;
    for (const auto& c : list) PutValue(rec, c, c.raw[s]);
    rec_size = rec.size();
    data.insert(data.end(), rec.begin(), rec.end());
  }
  enc::Out dg;
  dg.b.resize(8, 0);
  const int dgi = im.Add("DG", {-1, -1, -1, -1}, dg.b);
  im.blk[0].link[0] = dgi;
  enc::Out cg;
  cg.N<uint64_t>(0).N<uint64_t>(list[0].raw.size()).N<uint16_t>(0).N<uint16_t>('.').N<uint32_t>(0);
  cg.N<uint32_t>(static_cast<uint32_t>(rec_size)).N<uint32_t>(0);
  const int cgi = im.Add("CG", {-1, -1, im.Text("G"), -1, -1, -1}, cg.b);
  im.blk[static_cast<size_t>(dgi)].link[1] = cgi;
  int prev = -1;
  uint32_t at = 0;
  for (const auto& c : list) {
    const uint32_t n = c.kind == 3 ? 60 : c.bits / 8;
    enc::Out o;
    o.N<uint8_t>(0).N<uint8_t>(0).N<uint8_t>(c.kind == 0 ? 0 : c.kind == 1 ? 2 : c.kind == 2 ? 4 : 7).N<uint8_t>(0).N<uint32_t>(at);
    o.N<uint32_t>(n * 8).N<uint32_t>(0).N<uint32_t>(0).N<uint8_t>(0).N<uint8_t>(0).N<uint16_t>(0);
    for (int i = 0; i < 6; ++i) o.N<double>(0);
    const int cc = c.rule.type == ConversionType::NoConversion && g.Bool() ? -1 : AddRule(im, c.rule);
    const int i = im.Add("CN", {-1, -1, im.Text(c.name), -1, cc, -1, -1, -1}, o.b);
    if (prev < 0) im.blk[static_cast<size_t>(cgi)].link[1] = i;
    else im.blk[static_cast<size_t>(prev)].link[0] = i;
    prev = i;
    at += n;
  }
  im.blk[static_cast<size_t>(dgi)].link[2] = im.Add("DT", {}, data);
  Io io(false, "c10");
  io.Bytes(im.Bytes(&g));
  auto r = io.Reader();
  vp::Check(r->IsOk() && r->ReadEverythingButData(), "reader");
  Compare(g, *r, list, false);
}

// ---- MDF3 file made by hand
struct Out3 : enc::Out {
  Out3& Str(const std::string& s, size_t n) {
    std::vector<uint8_t> t(s.begin(), s.end());
    t.resize(n, 0);
    Raw(t);
    return *this;
  }
  template <typename T> Out3& Put(T v) { N<T>(v); return *this; }
};

void Encoded3(vp::Gen& g) {
  model::NoLog();
  auto list = GenChans(g, false, true, true);
  // Text tables: the border of a range of a float channel is not tested in MDF3
  // (the harness has no authoritative definition).
  std::vector<uint8_t> f;
  auto here = [&] { return static_cast<uint32_t>(f.size()); };
  auto add = [&](const Out3& o) { f.insert(f.end(), o.b.begin(), o.b.end()); };
  {
    Out3 id;
    id.Str("MDF     ", 8).Str("3.30    ", 8).Str("vp      ", 8);
    id.Put<uint16_t>(0).Put<uint16_t>(0).Put<uint16_t>(330).Put<uint16_t>(0);
    id.b.resize(64, 0);
    add(id);
  }
  const uint32_t hd_at = here();
  Out3 hd;
  hd.Str("HD", 2).Put<uint16_t>(208).Put<uint32_t>(0).Put<uint32_t>(0).Put<uint32_t>(0).Put<uint16_t>(1);
  hd.Str("01:02:2020", 10).Str("10:11:12", 8).Str("a", 32).Str("o", 32).Str("p", 32).Str("s", 32);
  hd.Put<uint64_t>(1600000000000000000ull).Put<int16_t>(0).Put<uint16_t>(0).Str("t", 32);
  add(hd);
  auto patch = [&](uint32_t at, uint32_t v) { memcpy(&f[at], &v, 4); };
  std::vector<uint32_t> cc_at;
  for (const auto& c : list) {
    std::vector<uint32_t> tx;
    if (c.rule.type == ConversionType::ValueRangeToText)
      for (const auto& r : c.rule.ref) {
        tx.push_back(here());
        Out3 o;
        o.Str("TX", 2).Put<uint16_t>(static_cast<uint16_t>(4 + r.text.size() + 1)).Str(r.text, r.text.size() + 1);
        add(o);
      }
    cc_at.push_back(here());
    Out3 body;
    uint16_t type = 65535, n = static_cast<uint16_t>(c.rule.par.size());
    switch (c.rule.type) {
      case ConversionType::Linear: type = 0; break;
      case ConversionType::ValueToValueInterpolation: type = 1; n /= 2; break;
      case ConversionType::ValueToValue: type = 2; n /= 2; break;
      case ConversionType::Polynomial: type = 6; break;
      case ConversionType::Exponential: type = 7; break;
      case ConversionType::Logarithmic: type = 8; break;
      case ConversionType::Rational: type = 9; break;
      case ConversionType::ValueToText:
        type = 11;
        for (size_t i = 0; i < c.rule.par.size(); ++i) body.Put<double>(c.rule.par[i]).Str(c.rule.ref[i].text, 32);
        break;
      case ConversionType::ValueRangeToText:
        type = 12;
        n = static_cast<uint16_t>(n / 2 + 1);
        body.Put<double>(0).Put<double>(0).Put<uint32_t>(tx.back());  // default
        for (size_t i = 0; 2 * i + 1 < c.rule.par.size(); ++i)
          body.Put<double>(c.rule.par[2 * i]).Put<double>(c.rule.par[2 * i + 1]).Put<uint32_t>(tx[i]);
        break;
      default: break;
    }
    if (type < 11) for (double v : c.rule.par) body.Put<double>(v);
    Out3 o;
    o.Str("CC", 2).Put<uint16_t>(static_cast<uint16_t>(46 + body.b.size())).Put<uint16_t>(0).Put<double>(0).Put<double>(0);
    o.Str("", 20).Put<uint16_t>(type).Put<uint16_t>(n);
    o.Raw(body.b);
    add(o);
  }
  uint32_t next = 0, bit = 0;
  std::vector<uint32_t> bits;
  for (const auto& c : list) { bits.push_back(bit); bit += c.bits; }
  for (size_t i = list.size(); i-- > 0;) {
    const uint32_t me = here();
    Out3 o;
    o.Str("CN", 2).Put<uint16_t>(228).Put<uint32_t>(next).Put<uint32_t>(cc_at[i]).Put<uint32_t>(0).Put<uint32_t>(0).Put<uint32_t>(0);
    o.Put<uint16_t>(0).Str(list[i].name, 32).Str("", 128);
    o.Put<uint16_t>(static_cast<uint16_t>(bits[i])).Put<uint16_t>(static_cast<uint16_t>(list[i].bits));
    o.Put<uint16_t>(static_cast<uint16_t>(list[i].kind == 0 ? 13 : list[i].kind == 1 ? 14 : list[i].bits == 32 ? 15 : 16));
    o.Put<uint16_t>(0).Put<double>(0).Put<double>(0).Put<double>(0).Put<uint32_t>(0).Put<uint32_t>(0).Put<uint16_t>(0);
    add(o);
    next = me;
  }
  const uint32_t cg_at = here();
  Out3 cg;
  cg.Str("CG", 2).Put<uint16_t>(26).Put<uint32_t>(0).Put<uint32_t>(next).Put<uint32_t>(0).Put<uint16_t>(1);
  cg.Put<uint16_t>(static_cast<uint16_t>(list.size())).Put<uint16_t>(static_cast<uint16_t>(bit / 8));
  cg.Put<uint32_t>(static_cast<uint32_t>(list[0].raw.size()));
  add(cg);
  const uint32_t dg_at = here();
  Out3 dg;
  dg.Str("DG", 2).Put<uint16_t>(28).Put<uint32_t>(0).Put<uint32_t>(cg_at).Put<uint32_t>(0).Put<uint32_t>(dg_at + 28);
  dg.Put<uint16_t>(1).Put<uint16_t>(0).Put<uint32_t>(0);
  add(dg);
  patch(hd_at + 4, dg_at);
  for (size_t s = 0; s < list[0].raw.size(); ++s)
    for (const auto& c : list) PutValue(f, c, c.raw[s]);
  Io io(false, "c10");
  io.Bytes(f);
  auto r = io.Reader();
  vp::Check(r->IsOk() && r->ReadEverythingButData(), "reader");
  // no border cases for float ranges
  for (auto& c : list)
    if (c.kind == 2 && c.rule.type == ConversionType::ValueRangeToText) {
      std::vector<bool> ok;
      for (size_t s = 0; s < c.raw.size(); ++s) {
        bool border = false;
        for (size_t i = 1; i < c.rule.par.size(); i += 2) border |= c.raw[s].x == c.rule.par[i];
        if (border) return;
      }
    }
  Compare(g, *r, list, true);
}

}  // namespace


int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C10";
  p.assumptions = {"algebraic formulas and bit field texts are not evaluated by the library (documented) and are not part of the property",
                   "MDF3 exponential and logarithmic rules as named by the library",
                   "numbers are compared within the rounding error of the formula"};
  const char* rule = "at least one sample has a defined engineering value";
  p.subs.push_back({"written4", 30000, 500000, [](vp::Gen& g) { Written(g, false); }, rule});
  p.subs.push_back({"encoded4", 30000, 500000, Encoded4, rule});
  p.subs.push_back({"written3", 20000, 300000, [](vp::Gen& g) { Written(g, true); }, rule});
  p.subs.push_back({"encoded3", 20000, 300000, Encoded3, rule});
  return vp::Main(argc, argv, p);
}
