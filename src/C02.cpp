// C02: MDF3 files written are read back unchanged (samples, configuration and
// conversion rules).
#include <cmath>
#include <sstream>

#include "common/membuf.h"
#include "common/model.h"
#include "common/sched.h"
#include "mdf/ichannelconversion.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

std::string Trimmed(std::string s) {
  while (!s.empty() && s.front() == ' ') s.erase(s.begin());
  while (!s.empty() && s.back() == ' ') s.pop_back();
  return s;
}
std::string Fix(vp::Gen& g, size_t max) {
  std::string s = Trimmed(g.Chance(1, 5) ? g.Text(max) : g.Ascii(max));
  if (g.Chance(1, 6)) {  // exactly full
    while (s.size() < max) s += static_cast<char>('a' + s.size() % 26);
  }
  return s;
}

struct Io {
  bool to_file;
  std::string name;
  std::shared_ptr<std::streambuf> buffer;
  explicit Io(bool file) : to_file(file), name(vp::ScratchDir() + "/c02.mdf") {}
  bool Init(MdfWriter& w) {
    if (to_file) {
      std::remove(name.c_str());
      return w.Init(name);
    }
    buffer = std::make_shared<MemBuf>();
    return w.Init(buffer);
  }
  std::unique_ptr<MdfReader> Reader() const {
    return to_file ? std::make_unique<MdfReader>(name) : std::make_unique<MdfReader>(buffer);
  }
};

void RoundTrip(vp::Gen& g) {
  NoLog();
  GenOpts o;
  o.mdf3 = true;
  const bool periodic = !g.Chance(1, 4);
  const bool flush = periodic && g.Chance(1, 3);
  const int how = static_cast<int>(g.Draw(2));
  Io io(g.Chance(1, 3));
  const bool as_text = g.Chance(1, 6);  // some values are given as text
  Meas m = GenMeas(g, o);
  if (flush) sched::Enable();
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf3Basic);
    vp::Check(io.Init(*w), "Init");
    w->SavePeriodic(periodic);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    w->StartMeasurement(m.start);
    for (const auto& r : m.rec) {
      SaveRec(*w, c, m.dg, r, how, as_text && g.Bool());
      if (flush && g.Chance(1, 6)) sched::Tick();
    }
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  if (flush) sched::Disable();
  {
    auto r = io.Reader();
    vp::Check(r->IsOk(), "reader not ok");
    vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
    vp::Check(r->GetFile() != nullptr && !r->GetFile()->IsMdf4(), "not an MDF3 file");
    vp::CheckEq(m.start, r->GetHeader()->StartTime(), "header start time");
    vp::CheckEq(m.dg.size(), r->GetHeader()->DataGroups().size(), "number of data groups");
    auto got = ReadAll(*r, m.dg);
    Compare(m.dg, m.rec, m.start, got, "MDF3");
  }
  if (m.rec.size() >= 2) g.Nontrivial();
  if (m.dg.size() > 1) g.Label("several DG");
  for (auto& d : m.dg)
    if (d.cg.size() > 1) {
      g.Label("several CG");
      break;
    }
  if (flush) g.Label("flushes");
  if (io.to_file) g.Label("file");
  g.Note() << m.Describe();
}

struct Conv {
  ConversionType type = ConversionType::NoConversion;
  std::vector<double> par;
};
bool Near(double a, double b) {
  if (std::isnan(a) && std::isnan(b)) return true;
  if (a == b) return true;
  return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b));
}
// Reference of the MDF3 conversion formulas.
bool Ref(const Conv& c, double x, double& y) {
  const auto& p = c.par;
  switch (c.type) {
    case ConversionType::NoConversion: y = x; return true;
    case ConversionType::Linear: y = p[0] + p[1] * x; return true;
    case ConversionType::Rational: {
      const double d = p[3] * x * x + p[4] * x + p[5];
      if (d == 0) return false;
      y = (p[0] * x * x + p[1] * x + p[2]) / d;
      return true;
    }
    case ConversionType::Polynomial: {
      const double t = x - p[4] - p[5];
      const double d = p[2] * t - p[0];
      if (d == 0) return false;
      y = (p[1] - p[3] * t) / d;
      return true;
    }
    case ConversionType::ValueToValueInterpolation:
    case ConversionType::ValueToValue: {
      const size_t n = p.size() / 2;
      if (x <= p[0]) { y = p[1]; return true; }
      if (x >= p[2 * n - 2]) { y = p[2 * n - 1]; return true; }
      for (size_t k = 1; k < n; ++k) {
        if (x == p[2 * k]) { y = p[2 * k + 1]; return true; }
        if (x < p[2 * k]) {
          const double f = (x - p[2 * k - 2]) / (p[2 * k] - p[2 * k - 2]);
          if (c.type == ConversionType::ValueToValue) y = f <= 0.5 ? p[2 * k - 1] : p[2 * k + 1];
          else y = p[2 * k - 1] + f * (p[2 * k + 1] - p[2 * k - 1]);
          return true;
        }
      }
      return false;
    }
    default: return false;
  }
}

void Config(vp::Gen& g) {
  NoLog();
  Io io(g.Chance(1, 3));
  struct Ch {
    std::string name, display, unit, desc;
    double rate = 0;
    ChannelDataType dt = ChannelDataType::FloatLe;
    uint64_t bytes = 8;
    bool master = false;
    bool has_unit = false;
    Conv conv;
    std::vector<double> value;
  };
  struct Cg {
    std::string desc;
    std::vector<Ch> ch;
    size_t samples = 0;
  };
  const std::string author = Fix(g, 31), dep = Fix(g, 31), project = Fix(g, 31), subject = Fix(g, 31);
  const std::string desc = Fix(g, 300);
  const std::string program = Fix(g, 7);
  std::vector<std::vector<Cg>> dgs(1 + g.Draw(2));
  size_t nof_conv = 0;
  for (auto& dg : dgs) {
    dg.resize(1 + g.Draw(2));
    for (auto& cg : dg) {
      cg.desc = Fix(g, 80);
      cg.samples = g.Draw(4);
      cg.ch.resize(1 + g.Draw(3));
      for (size_t k = 0; k < cg.ch.size(); ++k) {
        auto& c = cg.ch[k];
        c.name = "n" + std::to_string(k) + Fix(g, g.Chance(1, 3) ? 120 : 29);
        c.display = Fix(g, 60);
        c.desc = Fix(g, 127);
        c.has_unit = g.Bool();
        if (c.has_unit) c.unit = Fix(g, 19);
        c.rate = g.Bool() ? g.InterestingDouble() : 0;
        c.master = k == 0 && g.Chance(1, 3);
        static const ChannelDataType kType[] = {ChannelDataType::FloatLe, ChannelDataType::FloatBe,
                                                ChannelDataType::SignedIntegerLe, ChannelDataType::SignedIntegerBe,
                                                ChannelDataType::UnsignedIntegerLe, ChannelDataType::UnsignedIntegerBe};
        c.dt = c.master ? ChannelDataType::FloatLe : kType[g.Draw(5)];
        const bool is_float = c.dt == ChannelDataType::FloatLe || c.dt == ChannelDataType::FloatBe;
        c.bytes = is_float ? (g.Bool() ? 4 : 8) : static_cast<uint64_t>(1) << g.Draw(3);
        if (!c.master && g.Chance(3, 5)) {
          static const ConversionType kConv[] = {ConversionType::Linear, ConversionType::Rational, ConversionType::Polynomial,
                                                 ConversionType::ValueToValueInterpolation, ConversionType::ValueToValue,
                                                 ConversionType::NoConversion};
          c.conv.type = kConv[g.Draw(5)];
          auto num = [&]() { return static_cast<double>(g.Int(-1000, 1000)) / static_cast<double>(1 << g.Draw(4)); };
          switch (c.conv.type) {
            case ConversionType::Linear:
              c.conv.par = {num(), num()};
              break;
            case ConversionType::Rational:
            case ConversionType::Polynomial:
              for (int i = 0; i < 6; ++i) c.conv.par.push_back(num());
              break;
            case ConversionType::ValueToValueInterpolation:
            case ConversionType::ValueToValue: {
              double key = num();
              const size_t n = 1 + g.Draw(6);
              for (size_t i = 0; i < n; ++i) {
                c.conv.par.push_back(key);
                c.conv.par.push_back(num());
                key += 1 + static_cast<double>(g.Draw(40));
              }
              break;
            }
            default: break;
          }
          if (c.conv.type != ConversionType::NoConversion) ++nof_conv;
        }
        for (size_t s = 0; s < cg.samples; ++s) {
          const bool uns = c.dt == ChannelDataType::UnsignedIntegerLe || c.dt == ChannelDataType::UnsignedIntegerBe;
          double v = static_cast<double>(uns ? g.Int(0, 255) : g.Int(-128, 127));
          if (c.bytes == 1 && uns == false) v = static_cast<double>(g.Int(-128, 127));
          if (is_float) v /= 4;
          if (!c.conv.par.empty() && g.Chance(1, 3)) {
            // Close to a key of the table, when it is in range.
            const double k2 = c.conv.par[2 * g.Draw((c.conv.par.size() - 1) / 2)] + static_cast<double>(g.Int(0, 1));
            if ((uns ? k2 >= 0 && k2 < 255 : std::fabs(k2) < 127) && (is_float || k2 == std::floor(k2))) v = k2;
          }
          c.value.push_back(v);
        }
      }
    }
  }
  {
    auto w = MdfFactory::CreateMdfWriter(MdfWriterType::Mdf3Basic);
    vp::Check(io.Init(*w), "Init");
    auto* h = w->Header();
    h->Author(author);
    h->Department(dep);
    h->Project(project);
    h->Subject(subject);
    h->Description(desc);
    w->GetFile()->ProgramId(program);
    std::vector<std::vector<IChannelGroup*>> cg_ptr;
    std::vector<std::vector<std::vector<IChannel*>>> ch_ptr;
    for (auto& dg : dgs) {
      auto* d = w->CreateDataGroup();
      cg_ptr.emplace_back();
      ch_ptr.emplace_back();
      for (auto& cg : dg) {
        auto* k = MdfWriter::CreateChannelGroup(d);
        k->Description(cg.desc);
        cg_ptr.back().push_back(k);
        ch_ptr.back().emplace_back();
        for (auto& c : cg.ch) {
          auto* n = MdfWriter::CreateChannel(k);
          n->Name(c.name);
          n->DisplayName(c.display);
          n->Description(c.desc);
          if (c.has_unit) n->Unit(c.unit);
          n->SamplingRate(c.rate);
          n->Type(c.master ? ChannelType::Master : ChannelType::FixedLength);
          if (g.Bool()) {
            n->DataType(c.dt);
            if (g.Bool()) n->BitCount(static_cast<uint32_t>(c.bytes * 8));
            else n->DataBytes(c.bytes);
          } else {
            n->DataBytes(c.bytes);
            n->DataType(c.dt);
          }
          n->CalculateMasterTime(false);
          if (c.conv.type != ConversionType::NoConversion) {
            auto* cc = n->CreateChannelConversion();
            cc->Type(c.conv.type);
            for (size_t i = 0; i < c.conv.par.size(); ++i) cc->Parameter(static_cast<uint16_t>(i), c.conv.par[i]);
          }
          ch_ptr.back().back().push_back(n);
        }
      }
    }
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    const uint64_t t0 = 1600000000000000000ull;
    w->StartMeasurement(t0);
    for (size_t d = 0; d < dgs.size(); ++d)
      for (size_t k = 0; k < dgs[d].size(); ++k)
        for (size_t s = 0; s < dgs[d][k].samples; ++s) {
          for (size_t i = 0; i < dgs[d][k].ch.size(); ++i) ch_ptr[d][k][i]->SetChannelValue(dgs[d][k].ch[i].value[s]);
          w->SaveSample(*cg_ptr[d][k], t0 + s);
        }
    w->StopMeasurement(t0 + 1000);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  auto r = io.Reader();
  vp::Check(r->IsOk() && r->ReadEverythingButData(), "reader");
  const auto* h = r->GetHeader();
  vp::CheckEq(author, h->Author(), "author");
  vp::CheckEq(dep, h->Department(), "department");
  vp::CheckEq(project, h->Project(), "project");
  vp::CheckEq(subject, h->Subject(), "subject");
  vp::CheckEq(desc, h->Description(), "description");
  vp::CheckEq(program, r->GetFile()->ProgramId(), "program id");
  const auto dl = h->DataGroups();
  vp::CheckEq(dgs.size(), dl.size(), "data groups");
  for (size_t d = 0; d < dgs.size(); ++d) {
    const auto cl = dl[d]->ChannelGroups();
    vp::CheckEq(dgs[d].size(), cl.size(), "channel groups");
    ChannelObserverList obs;
    std::vector<const Ch*> spec;
    std::vector<size_t> count;
    for (size_t k = 0; k < cl.size(); ++k) {
      auto& cg = dgs[d][k];
      vp::CheckEq(cg.desc, cl[k]->Description(), "group description");
      vp::CheckEq(cg.samples, cl[k]->NofSamples(), "group samples");
      const auto nl = cl[k]->Channels();
      vp::CheckEq(cg.ch.size(), nl.size(), "channels");
      for (size_t i = 0; i < nl.size(); ++i) {
        auto& c = cg.ch[i];
        auto* n = nl[i];
        vp::CheckEq(c.name, n->Name(), "channel name");
        vp::CheckEq(c.display, n->DisplayName(), "display name");
        vp::CheckEq(c.desc, n->Description(), "channel description");
        if (c.has_unit) vp::CheckEq(c.unit, n->Unit(), "unit of " + c.name);
        vp::CheckEq(c.rate, n->SamplingRate(), "sampling rate");
        vp::CheckEq(static_cast<int>(c.dt), static_cast<int>(n->DataType()), "data type");
        vp::CheckEq(c.bytes, n->DataBytes(), "data bytes");
        vp::CheckEq(c.master, n->Type() == ChannelType::Master, "master");
        if (c.conv.type != ConversionType::NoConversion) {
          const auto* cc = n->ChannelConversion();
          vp::Check(cc != nullptr, "conversion of " + c.name + " is lost");
          vp::CheckEq(static_cast<int>(c.conv.type), static_cast<int>(cc->Type()), "conversion type");
          for (size_t p = 0; p < c.conv.par.size(); ++p)
            vp::CheckEq(c.conv.par[p], cc->Parameter(static_cast<uint16_t>(p)), "conversion parameter " + std::to_string(p));
        }
        obs.push_back(CreateChannelObserver(*dl[d], *cl[k], *n));
        spec.push_back(&c);
        count.push_back(cg.samples);
      }
    }
    vp::Check(r->ReadData(*dl[d]), "ReadData");
    for (size_t i = 0; i < obs.size(); ++i) {
      for (size_t s = 0; s < count[i]; ++s) {
        double v = 0, e = 0;
        vp::Check(obs[i]->GetChannelValue(s, v), "valid channel value");
        vp::CheckEq(spec[i]->value[s], v, "channel value");
        double ref = 0;
        const bool ok = Ref(spec[i]->conv, v, ref);
        const bool got = obs[i]->GetEngValue(s, e);
        if (spec[i]->conv.type == ConversionType::NoConversion || ok) {
          vp::CheckEq(true, got, "conversion result exists");
          if (!Near(ref, e)) vp::CheckEq(ref, e, "converted value, type " + std::to_string(static_cast<int>(spec[i]->conv.type)));
        } else {
          vp::CheckEq(false, got, "conversion result without a value");
        }
      }
    }
  }
  if (nof_conv > 0) g.Nontrivial();
  g.Note() << dgs.size() << " DG, conversions " << nof_conv << ", first channel " << dgs[0][0].ch[0].name;
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C02";
  p.assumptions = {"TZ=UTC", "values generated inside the range of the channel's data type",
                   "texts fit the fixed fields of the MDF3 blocks and have no blanks at the ends"};
  p.subs.push_back({"roundtrip", 40000, 800000, RoundTrip, "at least two records stored"});
  p.subs.push_back({"config", 20000, 400000, Config, "at least one conversion rule stored"});
  p.subs.push_back({"long", 60, 1000, [](vp::Gen& g) { LongRun(g, true); }, "more than 65536 samples in a group", 3, 60});
  return vp::Main(argc, argv, p);
}
