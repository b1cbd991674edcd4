// C04: the content of a file does not depend on the background saving or on
// the number of storing threads.
#include <atomic>
#include <sstream>
#include <thread>

#include "common/io.h"
#include "common/model.h"
#include "common/sched.h"
#include "vp.h"

using namespace mdf;
using namespace model;

namespace {

MdfWriterType GenWriter(vp::Gen& g) {
  const auto n = g.Draw(5);
  return n < 3 ? MdfWriterType::Mdf4Basic : n < 5 ? MdfWriterType::Mdf3Basic : MdfWriterType::MdfConverter;
}
const char* TypeName(MdfWriterType t) {
  return t == MdfWriterType::Mdf4Basic ? "mdf4" : t == MdfWriterType::Mdf3Basic ? "mdf3" : "converter";
}

// Every layout and record is generated; the worker runs at generated points.
void Schedule(vp::Gen& g) {
  NoLog();
  const auto type = GenWriter(g);
  const bool compress = type != MdfWriterType::Mdf3Basic && g.Bool();
  const bool periodic = !g.Chance(1, 8);
  const bool to_file = g.Chance(1, 3);
  GenOpts o;
  o.mdf3 = type == MdfWriterType::Mdf3Basic;
  o.max_rec = 40;
  o.many = false;
  Meas m = GenMeas(g, o);
  Io io(to_file, "sched.mf4");
  const unsigned density = static_cast<unsigned>(g.Draw(3));
  sched::Enable();
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(compress);
    w->SavePeriodic(periodic);
    // All samples stored before the start are inside the pre-trigger time.
    const bool pre = g.Chance(1, 4);
    w->PreTrigTime(pre ? 1000000.0 : 0.0);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    size_t early = 0;
    if (pre && !m.rec.empty()) {
      // The first samples are stored before the measurement is started.
      early = g.Draw(m.rec.size());
      if (early > 0) m.start = m.rec[early - 1].time + g.Draw(1000000);
    }
    for (size_t i = 0; i <= m.rec.size(); ++i) {
      if (i == early) {
        if (g.Chance(density, 6)) sched::Tick();
        w->StartMeasurement(m.start);
        if (g.Chance(density, 6)) sched::Tick();
      }
      if (i == m.rec.size()) break;
      SaveRec(*w, c, m.dg, m.rec[i], static_cast<int>(g.Draw(2)));
      while (g.Chance(density, 6)) sched::Tick();
    }
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  const uint64_t cycles = sched::Cycles();
  sched::Disable();
  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  vp::CheckEq(m.dg.size(), r->GetHeader()->DataGroups().size(), "number of data groups");
  // MDF3 data groups are read in the order of creation.
  const auto got = ReadAll(*r, m.dg);
  Compare(m.dg, m.rec, m.start, got, TypeName(type));
  if (cycles > 0 && m.rec.size() >= 2) g.Nontrivial();
  g.Label(TypeName(type));
  if (compress) g.Label("compressed");
  if (!periodic) g.Label("no periodic save");
  if (cycles > 3) g.Label("more than 3 saves");
  if (m.dg.size() > 1) g.Label("several DG");
  g.Note() << TypeName(type) << (compress ? " dz" : " dt") << " cycles=" << cycles << " " << m.Describe();
}

// Several threads store while the worker is running.
void Producers(vp::Gen& g) {
  NoLog();
  const auto type = GenWriter(g);
  const bool compress = type != MdfWriterType::Mdf3Basic && g.Bool();
  const bool to_file = g.Chance(1, 3);
  const bool shared = g.Chance(1, 3);
  GenOpts o;
  o.mdf3 = type == MdfWriterType::Mdf3Basic;
  o.max_cg = 4;
  o.big = false;
  o.many = false;
  o.leave_unset = false;
  Meas m;
  m.dg = GenLayout(g, o);
  m.start = 1600000000000000000ull;
  m.stop = m.start + 100000000000ull;
  const size_t nof_threads = 2 + g.Draw(3);
  // An own channel identifies the record.
  for (auto& d : m.dg)
    for (auto& cg : d.cg) {
      ChSpec id;
      id.name = "Id";
      id.bytes = 4;
      cg.ch.push_back(id);
    }
  struct Item {
    Rec rec;
    SampleRecord sample;
  };
  std::vector<std::vector<Item>> work(nof_threads);
  std::vector<std::pair<size_t, size_t>> groups;
  for (size_t d = 0; d < m.dg.size(); ++d)
    for (size_t k = 0; k < m.dg[d].cg.size(); ++k) groups.emplace_back(d, k);
  const size_t per_thread = 20 + g.Draw(200);
  const uint32_t period = static_cast<uint32_t>(1 + g.Draw(300));
  Io io(to_file, "prod.mf4");
  sched::Enable();
  sched::FreeRun(period);
  size_t used = 0;
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(compress);
    w->SavePeriodic(true);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    // The records of each thread. Own groups per thread, or all threads store
    // prepared records in all groups.
    const uint64_t seed = g.U64();
    for (size_t t = 0; t < nof_threads; ++t) {
      for (size_t i = 0; i < per_thread; ++i) {
        size_t gi = 0;
        if (shared) gi = (i * 7 + t) % groups.size();
        else if (t < groups.size()) gi = t + nof_threads * (i % ((groups.size() - t - 1) / nof_threads + 1));
        else break;
        Item item;
        item.rec.dg = groups[gi].first;
        item.rec.cg = groups[gi].second;
        // The time stamp identifies the thread and the record.
        item.rec.time = m.start + (i * nof_threads + t) * 1000;
        const auto& ch = m.dg[item.rec.dg].cg[item.rec.cg].ch;
        vp::Gen local(seed ^ (t * 1000003 + i), false);
        for (const auto& spec : ch) item.rec.v.push_back(GenVal(local, spec));
        item.rec.v.back().u = t * 100000 + i;
        item.rec.set.assign(ch.size(), true);
        if (shared) {
          for (size_t k = 0; k < ch.size(); ++k)
            SetValue(*c.ch[item.rec.dg][item.rec.cg][k], ch[k], item.rec.v[k]);
          item.sample = c.cg[item.rec.dg][item.rec.cg]->GetSampleRecord();
        }
        work[t].push_back(std::move(item));
      }
      if (!work[t].empty()) ++used;
    }
    w->StartMeasurement(m.start);
    std::atomic<bool> go{false};
    std::vector<std::thread> pool;
    for (size_t t = 0; t < nof_threads; ++t) {
      pool.emplace_back([&, t] {
        while (!go) std::this_thread::yield();
        for (auto& item : work[t]) {
          if (shared) {
            w->AddSample(*c.dg[item.rec.dg], *c.cg[item.rec.dg][item.rec.cg], item.rec.time, std::move(item.sample));
          } else {
            SaveRec(*w, c, m.dg, item.rec, static_cast<int>(item.rec.time / 1000 % 3));
          }
        }
      });
    }
    go = true;
    for (auto& t : pool) t.join();
    w->StopMeasurement(m.stop);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  const uint64_t cycles = sched::Cycles();
  sched::Disable();
  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  const auto got = ReadAll(*r, m.dg);
  if (!shared) {
    for (const auto& list : work)
      for (const auto& item : list) m.rec.push_back(item.rec);
    Compare(m.dg, m.rec, m.start, got, TypeName(type));
  } else {
    // An interleaving of the sequences of the threads: the next record of a
    // group is the next one of some thread.
    for (size_t d = 0; d < m.dg.size(); ++d) {
      for (size_t k = 0; k < m.dg[d].cg.size(); ++k) {
        const auto& spec = m.dg[d].cg[k];
        std::vector<std::vector<const Rec*>> seq(nof_threads);
        size_t total = 0;
        for (size_t t = 0; t < nof_threads; ++t)
          for (const auto& item : work[t])
            if (item.rec.dg == d && item.rec.cg == k) {
              seq[t].push_back(&item.rec);
              ++total;
            }
        vp::CheckEq(total, static_cast<size_t>(got[d][k].nof_samples), "number of samples in group");
        std::vector<size_t> pos(nof_threads, 0);
        for (size_t s = 0; s < total; ++s) {
          const uint64_t id = got[d][k].ch.back()[s].u;
          const size_t t = static_cast<size_t>(id / 100000);
          if (t >= nof_threads || pos[t] >= seq[t].size() || seq[t][pos[t]]->v.back().u != id)
            vp::Fail("sample " + std::to_string(s) + " with id " + std::to_string(id) +
                     " is not the next one of its thread");
          const Rec& e = *seq[t][pos[t]++];
          for (size_t c = 0; c < spec.ch.size(); ++c)
            CompareVal(spec.ch[c], e.v[c], got[d][k].ch[c][s], s,
                       static_cast<int64_t>(e.time) - static_cast<int64_t>(m.start), "shared group");
        }
      }
    }
  }
  if (used > 1 && cycles > 0) g.Nontrivial();
  g.Label(TypeName(type));
  g.Label(shared ? "shared groups" : "own groups");
  if (compress) g.Label("compressed");
  if (cycles > 3) g.Label("more than 3 saves");
  g.Note() << TypeName(type) << (compress ? " dz" : " dt") << " threads=" << nof_threads << " records=" << per_thread
           << " groups=" << groups.size() << (shared ? " shared" : "") << " cycles=" << cycles;
}

// The measurement is started while the worker is running: samples stored
// before the start get their time relative to the start.
void StartRace(vp::Gen& g) {
  NoLog();
  const auto type = g.Bool() ? MdfWriterType::Mdf3Basic : MdfWriterType::Mdf4Basic;
  Meas m;
  DgSpec dg;
  CgSpec cg;
  ChSpec t;
  t.name = "Time";
  t.type = ChannelType::Master;
  t.sync = ChannelSyncType::Time;
  t.dt = ChannelDataType::FloatLe;
  t.auto_time = true;
  ChSpec id;
  id.name = "Id";
  id.bytes = 4;
  if (type != MdfWriterType::Mdf3Basic) cg.name = "Group";
  cg.ch = {t, id};
  dg.cg.push_back(cg);
  m.dg.push_back(dg);
  m.start = 1600000000000000000ull;
  const size_t early = 1 + g.Draw(30), late = g.Draw(10);
  for (size_t i = 0; i < early + late; ++i) {
    Rec r;
    r.time = m.start - early * 1000000 + i * 1000000;
    r.v.resize(2);
    r.v[1].u = i;
    m.rec.push_back(r);
  }
  Io io(false, "");
  sched::Enable();
  sched::FreeRun(1 + static_cast<uint32_t>(g.Draw(20)));
  {
    auto w = MdfFactory::CreateMdfWriter(type);
    vp::Check(io.Init(*w), "Init");
    w->CompressData(g.Bool());
    w->PreTrigTime(1000.0);
    auto c = CreateConfig(*w, m.dg);
    vp::Check(w->InitMeasurement(), "InitMeasurement");
    for (size_t i = 0; i < m.rec.size(); ++i) {
      if (i == early) w->StartMeasurement(m.start);
      SaveRec(*w, c, m.dg, m.rec[i], 0);
    }
    if (late == 0) w->StartMeasurement(m.start);
    w->StopMeasurement(m.start + 1000000000);
    vp::Check(w->FinalizeMeasurement(), "FinalizeMeasurement");
  }
  sched::Disable();
  auto r = io.Reader();
  vp::Check(r->ReadEverythingButData(), "ReadEverythingButData");
  Compare(m.dg, m.rec, m.start, ReadAll(*r, m.dg), TypeName(type));
  g.Nontrivial();
  g.Note() << TypeName(type) << " early=" << early << " late=" << late;
}

}  // namespace

int main(int argc, char** argv) {
  vp::Property p;
  p.id = "C04";
  p.assumptions = {"periodic wake-ups of the worker happen where the harness places them (pthread_cond_clockwait and "
                   "pthread_cond_timedwait are interposed); other switches between threads are chosen by the OS"};
  p.subs.push_back({"schedule", 12000, 300000, Schedule, "at least two records and one background save"});
  p.subs.push_back({"producers", 3000, 60000, Producers, "at least two storing threads and one background save", 30, 60, true});
  p.subs.push_back({"startrace", 20000, 400000, StartRace, "every case", 30, 60, true});
  return vp::Main(argc, argv, p);
}
