#include "vp.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <limits>
#include <set>

namespace vp {
namespace {
constexpr size_t kMaxTape = 1u << 22;  // draws kept in shared memory

struct Slot {
  volatile uint64_t running;     // 1 while a case runs
  volatile uint64_t sub;
  volatile uint64_t index;
  volatile int64_t started_ms;   // steady clock
  volatile uint64_t tape_len;
  volatile uint64_t failed;
  char message[4096];
  uint64_t tape[kMaxTape];
};

Slot* g_slot = nullptr;
std::string g_scratch;

uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
int64_t NowMs() {
  // Not std::chrono: a harness may move that clock.
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<int64_t>(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}
std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}
}  // namespace

Gen::Gen(uint64_t seed, bool thorough) : random_(true), thorough_(thorough), seed_(seed) {
  uint64_t x = seed;
  for (auto& v : s_) v = SplitMix(x);
}
Gen::Gen(std::vector<uint64_t> tape, bool thorough)
    : random_(false), thorough_(thorough), tape_(std::move(tape)) {}

uint64_t Gen::Next() {
  auto rotl = [](uint64_t v, int k) { return (v << k) | (v >> (64 - k)); };
  const uint64_t r = rotl(s_[1] * 5, 7) * 9;
  const uint64_t t = s_[1] << 17;
  s_[2] ^= s_[0];
  s_[3] ^= s_[1];
  s_[1] ^= s_[2];
  s_[0] ^= s_[3];
  s_[2] ^= t;
  s_[3] = rotl(s_[3], 45);
  return r;
}

uint64_t Gen::Draw(uint64_t max) {
  uint64_t v = 0;
  if (random_) {
    if (max != 0) {
      v = Next();
      if (max != UINT64_MAX) v %= (max + 1);
    }
    tape_.push_back(v);
    if (g_slot != nullptr && tape_.size() <= kMaxTape) {
      g_slot->tape[tape_.size() - 1] = v;
      g_slot->tape_len = tape_.size();
    }
  } else {
    if (pos_ < tape_.size()) v = tape_[pos_];
    ++pos_;
    if (max != UINT64_MAX) v = v > max ? v % (max + 1) : v;
  }
  return v;
}

uint64_t Gen::InterestingUnsigned(unsigned bits) {
  const uint64_t mask = bits >= 64 ? UINT64_MAX : ((uint64_t{1} << bits) - 1);
  switch (Draw(7)) {
    case 0: return Draw(std::min<uint64_t>(mask, 10));
    case 1: return mask;
    case 2: return mask >> 1;
    case 3: return ((mask >> 1) + 1) & mask;
    case 4: return (uint64_t{1} << Draw(bits - 1)) & mask;
    case 5: return 0x0102030405060708ull & mask;
    default: return Draw(mask);
  }
}
int64_t Gen::InterestingSigned(unsigned bits) {
  uint64_t v = InterestingUnsigned(bits);
  if (bits < 64 && (v >> (bits - 1)) & 1) v |= ~((uint64_t{1} << bits) - 1);
  return static_cast<int64_t>(v);
}
double Gen::InterestingDouble() {
  switch (Draw(9)) {
    case 0: return static_cast<double>(Int(0, 20));
    case 1: return -static_cast<double>(Int(0, 20));
    case 2: return static_cast<double>(Int(0, 1000)) / 8.0;
    case 3: return 0.1 * static_cast<double>(Int(-1000, 1000));
    case 4: return std::numeric_limits<double>::max();
    case 5: return std::numeric_limits<double>::lowest();
    case 6: return std::numeric_limits<double>::min();
    case 7: return std::numeric_limits<double>::denorm_min();
    default: {
      uint64_t u = U64();
      double d;
      memcpy(&d, &u, 8);
      return std::isfinite(d) ? d : static_cast<double>(static_cast<int64_t>(u));
    }
  }
}
float Gen::InterestingFloat() {
  switch (Draw(7)) {
    case 0: return static_cast<float>(Int(0, 20));
    case 1: return -static_cast<float>(Int(0, 20));
    case 2: return static_cast<float>(Int(0, 1000)) / 8.0f;
    case 3: return std::numeric_limits<float>::max();
    case 4: return std::numeric_limits<float>::lowest();
    case 5: return std::numeric_limits<float>::min();
    default: {
      uint32_t u = static_cast<uint32_t>(Draw(UINT32_MAX));
      float d;
      memcpy(&d, &u, 4);
      return std::isfinite(d) ? d : static_cast<float>(static_cast<int32_t>(u));
    }
  }
}
size_t Gen::Size(size_t max) {
  if (max == 0) return 0;
  switch (Draw(3)) {
    case 0: return static_cast<size_t>(Draw(std::min<size_t>(max, 3)));
    case 1: return static_cast<size_t>(Draw(std::min<size_t>(max, 12)));
    default: return static_cast<size_t>(Draw(max));
  }
}
std::string Gen::Ascii(size_t max_len) {
  const size_t n = Size(max_len);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += static_cast<char>(Draw(94) == 0 ? 'a' : 33 + Draw(93));
  return s;
}
std::string Gen::Ident(size_t max_len) {
  static const char* kAlpha = "aABbcdefgXYZ_0123456789klmnopqr";
  const size_t n = 1 + Size(max_len > 0 ? max_len - 1 : 0);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += kAlpha[Draw(i == 0 ? 12 : 30)];
  return s;
}
std::string Gen::Text(size_t max_len) {
  static const char* kOdd[] = {"\xC3\xA5", "\xC3\xB6", "\xE2\x82\xAC", "\xC2\xB0", "\xF0\x9F\x98\x80",
                               "<", ">", "&", "\"", "'", " ", "\xCE\xBC", "/", "\\", "%", ",", ";"};
  const size_t n = Size(max_len);
  std::string s;
  while (s.size() < n) {
    const uint64_t k = Draw(9);
    if (k < 7) {
      s += static_cast<char>('a' + Draw(25));
    } else {
      const std::string o = kOdd[Draw(16)];
      if (s.size() + o.size() > max_len) break;
      s += o;
    }
  }
  return s;
}
std::vector<uint8_t> Gen::Bytes(size_t len) {
  std::vector<uint8_t> v(len);
  if (len <= 64) {
    for (auto& b : v) b = static_cast<uint8_t>(Draw(255));
  } else {
    // Long buffers: a cheap expansion of a few draws (keeps the tape small).
    const uint64_t mode = Draw(2);
    uint64_t x = U64();
    for (size_t i = 0; i < len; ++i) {
      if (mode == 0) v[i] = static_cast<uint8_t>(x + i);
      else if (mode == 1) v[i] = static_cast<uint8_t>(SplitMix(x));
      else v[i] = static_cast<uint8_t>((i / 97) * 31 + x);
    }
  }
  return v;
}

std::string ScratchDir() { return g_scratch; }

void Fail(const std::string& text) { throw Failure(text); }

std::string Hex(const std::vector<uint8_t>& bytes, size_t max) {
  std::ostringstream s;
  s << "[" << bytes.size() << "]";
  for (size_t i = 0; i < bytes.size() && i < max; ++i) {
    char b[4];
    snprintf(b, sizeof b, "%02x", bytes[i]);
    s << b;
  }
  if (bytes.size() > max) s << "...";
  return s.str();
}
std::string Quote(const std::string& text, size_t max) {
  std::ostringstream s;
  s << "[" << text.size() << "]\"";
  for (size_t i = 0; i < text.size() && i < max; ++i) {
    const unsigned char c = text[i];
    if (c >= 0x20 && c < 0x7f) s << text[i];
    else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      s << b;
    }
  }
  if (text.size() > max) s << "...";
  s << "\"";
  return s.str();
}

namespace {

struct Options {
  std::string tier = "quick";
  uint64_t seed = 1;
  std::string evidence;
  std::string replay_dir = ".";
  std::string replay;
  std::string only;
  std::string collect;
  double scale = 1.0;
  double budget_s = 0;
  unsigned jobs = 8;
  bool verbose = false;
};

void RunCase(const Sub& sub, Gen& gen) {
  try {
    sub.fn(gen);
  } catch (const Failure&) {
    throw;
  } catch (const std::exception& e) {
    throw Failure(std::string("unexpected exception: ") + e.what());
  }
}

void EmptyScratch() {
  std::error_code ec;
  for (const auto& e : std::filesystem::directory_iterator(g_scratch, ec)) {
    std::filesystem::remove_all(e.path(), ec);
  }
}

uint64_t CaseSeed(const Options& o, const Property& p, const Sub& s, uint64_t index) {
  uint64_t x = o.seed * 0x9E3779B97F4A7C15ull + HashStr(p.id + "/" + s.name);
  x ^= index * 0xD1B54A32D192ED03ull;
  SplitMix(x);
  return SplitMix(x);
}

std::string StatusText(int status) {
  if (WIFSIGNALED(status)) return "killed by signal " + std::to_string(WTERMSIG(status));
  return "exit status " + std::to_string(WEXITSTATUS(status));
}

constexpr int kExitFail = 77;
constexpr int kExitTimeout = 78;

Slot* MakeSlot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Slot*>(p);
}

// Outcome of one replayed tape.
struct Outcome {
  bool failed = false;
  std::string message;
};

void ChildSetup(const std::string& scratch, const std::string& err_file) {
  g_scratch = scratch;
  std::error_code ec;
  std::filesystem::create_directories(scratch, ec);
  const int fd = open(err_file.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

std::string ErrSummary(const std::string& err_file) {
  std::ifstream in(err_file);
  std::string line, out;
  int n = 0;
  while (std::getline(in, line) && n < 14) {
    if (line.find("ERROR") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
        line.find("runtime error") != std::string::npos ||
        (line.find("#") != std::string::npos && line.find("/repo/") != std::string::npos)) {
      out += line + "\n";
      ++n;
    }
  }
  return out;
}

// Start a child replaying the tape.
pid_t StartReplay(const Sub& sub, const std::vector<uint64_t>& tape, bool thorough, Slot* slot,
                  const std::string& scratch, const std::string& err_file) {
  slot->failed = 0;
  slot->message[0] = 0;
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    ChildSetup(scratch, err_file);
    g_slot = slot;
    alarm(0);
    signal(SIGALRM, SIG_DFL);
    try {
      Gen gen(tape, thorough);
      RunCase(sub, gen);
    } catch (const Failure& f) {
      slot->failed = 1;
      strncpy(slot->message, f.what(), sizeof(slot->message) - 1);
      _exit(kExitFail);
    }
    _exit(0);
  }
  return pid;
}

// Replays a number of tapes in parallel and returns the outcome of each.
std::vector<Outcome> ReplayMany(const Sub& sub, const std::vector<std::vector<uint64_t>>& tapes,
                                bool thorough, const std::string& root,
                                unsigned timeout_s) {
  static std::vector<Slot*> slots;
  while (slots.size() < tapes.size()) slots.push_back(MakeSlot());
  std::vector<Outcome> out(tapes.size());
  std::vector<pid_t> pids;
  for (size_t i = 0; i < tapes.size(); ++i) {
    pids.push_back(StartReplay(sub, tapes[i], thorough, slots[i], root + "/s" + std::to_string(i),
                               root + "/s" + std::to_string(i) + ".err"));
  }
  const int64_t deadline = NowMs() + int64_t{1000} * timeout_s;
  std::vector<bool> done(tapes.size(), false);
  size_t left = tapes.size();
  while (left > 0) {
    bool progress = false;
    for (size_t i = 0; i < tapes.size(); ++i) {
      if (done[i]) continue;
      int status = 0;
      const pid_t r = waitpid(pids[i], &status, WNOHANG);
      if (r == pids[i]) {
        done[i] = true;
        --left;
        progress = true;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
        out[i].failed = true;
        if (slots[i]->failed != 0) {
          out[i].message = slots[i]->message;
        } else {
          out[i].message = "crash (" + StatusText(status) + ")\n" +
                           ErrSummary(root + "/s" + std::to_string(i) + ".err");
        }
      } else if (NowMs() > deadline) {
        kill(pids[i], SIGKILL);
        waitpid(pids[i], &status, 0);
        done[i] = true;
        --left;
        out[i].failed = true;
        out[i].message = "no answer after " + std::to_string(timeout_s) + " s (hang)";
      }
    }
    if (!progress) usleep(500);
  }
  for (size_t i = 0; i < tapes.size(); ++i) {
    std::error_code ec;
    std::filesystem::remove_all(root + "/s" + std::to_string(i), ec);
  }
  return out;
}

std::vector<uint64_t> Shrink(const Sub& sub, std::vector<uint64_t> best, bool thorough,
                             const std::string& root, double budget_s, std::string& message) {
  const int64_t deadline = NowMs() + static_cast<int64_t>(budget_s * 1000);
  const unsigned kPar = 8;
  auto try_batch = [&](std::vector<std::vector<uint64_t>>& batch) -> bool {
    if (batch.empty()) return false;
    auto res = ReplayMany(sub, batch, thorough, root, std::min(sub.case_timeout_s, 20u));
    for (size_t i = 0; i < res.size(); ++i) {
      if (res[i].failed) {
        best = batch[i];
        message = res[i].message;
        batch.clear();
        return true;
      }
    }
    batch.clear();
    return false;
  };
  // drop trailing zeros
  auto trim = [&]() {
    while (!best.empty() && best.back() == 0) best.pop_back();
  };
  trim();
  bool improved = true;
  while (improved && NowMs() < deadline) {
    improved = false;
    // Remove spans.
    for (size_t span = std::max<size_t>(1, best.size() / 2); span >= 1 && NowMs() < deadline; span /= 2) {
      std::vector<std::vector<uint64_t>> batch;
      for (size_t at = 0; at + span <= best.size() && NowMs() < deadline;) {
        auto c = best;
        c.erase(c.begin() + static_cast<long>(at), c.begin() + static_cast<long>(at + span));
        batch.push_back(c);
        auto z = best;
        bool any = false;
        for (size_t k = at; k < at + span; ++k) {
          if (z[k] != 0) any = true;
          z[k] = 0;
        }
        if (any && span > 1) batch.push_back(z);
        if (batch.size() >= kPar) {
          const size_t before = best.size();
          if (try_batch(batch)) {
            improved = true;
            if (best.size() == before) at += span;
            continue;
          }
        }
        at += span;
      }
      if (try_batch(batch)) improved = true;
      if (span == 1) break;
    }
    // Lower single values.
    for (size_t at = 0; at < best.size() && NowMs() < deadline; ++at) {
      if (best[at] == 0) continue;
      std::vector<std::vector<uint64_t>> batch;
      const uint64_t v = best[at];
      for (uint64_t n : {uint64_t{0}, uint64_t{1}, v / 16, v / 4, v / 2, v - v / 4, v - 1}) {
        if (n >= v) continue;
        auto c = best;
        c[at] = n;
        batch.push_back(c);
      }
      if (try_batch(batch)) {
        improved = true;
        if (best[at] != 0) --at;  // again
      }
    }
    trim();
  }
  return best;
}

void WriteReplay(const std::string& path, const Property& p, const Sub& sub, const Options& o,
                 const std::vector<uint64_t>& tape, const std::string& message, const std::string& note) {
  std::ofstream f(path);
  f << "vp-replay 1\n";
  f << "property " << p.id << "\n";
  f << "sub " << sub.name << "\n";
  f << "tier " << o.tier << "\n";
  f << "tape " << tape.size();
  for (uint64_t v : tape) f << " " << v;
  f << "\n# message:\n";
  std::istringstream m(message);
  std::string line;
  while (std::getline(m, line)) f << "#   " << line << "\n";
  if (!note.empty()) {
    f << "# case:\n";
    std::istringstream n(note);
    while (std::getline(n, line)) f << "#   " << line << "\n";
  }
}

bool ReadReplay(const std::string& path, std::string& sub, std::string& tier, std::vector<uint64_t>& tape) {
  std::ifstream f(path);
  std::string word;
  while (f >> word) {
    if (word == "sub") f >> sub;
    else if (word == "tier") f >> tier;
    else if (word == "tape") {
      size_t n = 0;
      f >> n;
      tape.resize(n);
      for (auto& v : tape) f >> v;
      return true;
    }
  }
  return false;
}

struct WorkerReport {
  uint64_t cases = 0;
  uint64_t nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::set<uint64_t> hashes;
  std::vector<std::string> samples;
};

// Runs in the worker: the cases index = start, start + step ...
[[noreturn]] void Worker(const Property& p, size_t sub_index, const Options& o, Slot* slot,
                         uint64_t start, uint64_t step, uint64_t count, int64_t deadline_ms,
                         const std::string& report_file) {
  const Sub& sub = p.subs[sub_index];
  g_slot = slot;
  std::ofstream rep(report_file, std::ios::app);
  std::map<std::string, uint64_t> labels;
  uint64_t cases = 0, nontrivial = 0, samples = 0;
  std::ostringstream hashes;
  auto flush = [&]() {
    rep << "C " << cases << " " << nontrivial << "\n";
    for (auto& l : labels) rep << "L " << l.second << " " << l.first << "\n";
    rep << hashes.str();
    rep.flush();
    hashes.str("");
    labels.clear();
    cases = nontrivial = 0;
  };
  for (uint64_t i = start; i < count; i += step) {
    if (NowMs() > deadline_ms) break;
    slot->sub = sub_index;
    slot->index = i;
    slot->tape_len = 0;
    slot->failed = 0;
    slot->started_ms = NowMs();
    __sync_synchronize();
    slot->running = 1;
    Gen gen(CaseSeed(o, p, sub, i), o.tier == "thorough");
    try {
      RunCase(sub, gen);
    } catch (const Failure& f) {
      slot->failed = 1;
      strncpy(slot->message, f.what(), sizeof(slot->message) - 1);
      flush();
      _exit(kExitFail);
    }
    slot->running = 0;
    ++cases;
    for (auto& l : gen.Labels()) ++labels[l.first];
    if (gen.IsNontrivial()) {
      ++nontrivial;
      uint64_t h = 1469598103934665603ull;
      for (uint64_t v : gen.Tape()) h = (h ^ v) * 1099511628211ull;
      hashes << "H " << h << "\n";
      if (samples < 2 && !gen.NoteText().empty()) {
        ++samples;
        std::string n = gen.NoteText();
        if (n.size() > 400) n = n.substr(0, 400) + "...";
        std::replace(n.begin(), n.end(), '\n', ';');
        rep << "S " << sub.name << "#" << i << ": " << n << "\n";
      }
    }
    EmptyScratch();
  }
  flush();
  _exit(0);
}

}  // namespace

int Main(int argc, char** argv, const Property& property) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") o.tier = next();
    else if (a == "--seed") o.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--evidence") o.evidence = next();
    else if (a == "--replay-dir") o.replay_dir = next();
    else if (a == "--replay") o.replay = next();
    else if (a == "--only") o.only = next();
    else if (a == "--collect") o.collect = next();  // development: keep all failures, do not stop
    else if (a == "--scale") o.scale = atof(next().c_str());
    else if (a == "--budget") o.budget_s = atof(next().c_str());
    else if (a == "--jobs") o.jobs = static_cast<unsigned>(atoi(next().c_str()));
    else if (a == "-v") o.verbose = true;
  }
  const bool thorough = o.tier == "thorough";
  if (o.budget_s <= 0) o.budget_s = thorough ? 3000 : 300;

  if (!o.replay.empty()) {
    std::string sub_name, tier;
    std::vector<uint64_t> tape;
    if (!ReadReplay(o.replay, sub_name, tier, tape)) {
      std::cerr << "cannot read " << o.replay << "\n";
      return 2;
    }
    for (const auto& sub : property.subs) {
      if (sub.name != sub_name) continue;
      char dir[] = "/tmp/vpreplay_XXXXXX";
      g_scratch = mkdtemp(dir);
      int rc = 0;
      Gen gen(tape, tier == "thorough");
      try {
        RunCase(sub, gen);
        std::cout << "replay: the property holds on this case\n";
      } catch (const Failure& f) {
        std::cout << "replay: FAILED " << f.what() << "\n";
        rc = 1;
      }
      std::cout << "case: " << gen.NoteText() << "\n";
      std::error_code ec;
      std::filesystem::remove_all(g_scratch, ec);
      return rc;
    }
    std::cerr << "unknown sub check " << sub_name << "\n";
    return 2;
  }

  const int64_t t0 = NowMs();
  char dir_template[] = "/tmp/vp_XXXXXX";
  const std::string root = mkdtemp(dir_template);

  std::vector<Slot*> slots;
  for (unsigned i = 0; i < o.jobs; ++i) slots.push_back(MakeSlot());

  std::map<std::string, WorkerReport> reports;
  uint64_t unreproduced = 0;
  bool violation = false;
  std::string violation_path, violation_message;
  bool budget_hit = false;

  for (size_t si = 0; si < property.subs.size() && !violation; ++si) {
    const Sub& sub = property.subs[si];
    if (!o.only.empty() && sub.name.find(o.only) == std::string::npos) continue;
    const uint64_t count = std::max<uint64_t>(
        1, static_cast<uint64_t>(static_cast<double>(thorough ? sub.thorough_cases : sub.quick_cases) * o.scale));
    const int64_t sub_start = NowMs();
    const int64_t deadline_ms = t0 + static_cast<int64_t>(o.budget_s * 1000);
    std::vector<pid_t> pids(o.jobs, -1);
    std::vector<uint64_t> next_start(o.jobs);
    auto report_file = [&](unsigned w) { return root + "/report_" + std::to_string(w); };
    auto spawn = [&](unsigned w) {
      fflush(nullptr);
      std::cout.flush();
      slots[w]->running = 0;
      slots[w]->failed = 0;
      slots[w]->tape_len = 0;
      const pid_t pid = fork();
      if (pid == 0) {
        ChildSetup(root + "/w" + std::to_string(w), root + "/w" + std::to_string(w) + ".err");
        Worker(property, si, o, slots[w], next_start[w], o.jobs, count, deadline_ms, report_file(w));
      }
      pids[w] = pid;
    };
    for (unsigned w = 0; w < o.jobs; ++w) {
      std::error_code ec;
      std::filesystem::remove(report_file(w), ec);
      next_start[w] = w;
      spawn(w);
    }
    struct Candidate {
      uint64_t index;
      std::vector<uint64_t> tape;
      std::string message;
      bool hang;
    };
    std::vector<Candidate> candidates;
    unsigned active = o.jobs;
    uint64_t fails = 0;
    while (active > 0) {
      usleep(2000);
      for (unsigned w = 0; w < o.jobs; ++w) {
        if (pids[w] <= 0) continue;
        int status = 0;
        const pid_t r = waitpid(pids[w], &status, WNOHANG);
        bool failed = false;
        bool hang = false;
        if (r == pids[w]) {
          if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            pids[w] = -1;
            --active;
            continue;
          }
          failed = true;
        } else if (slots[w]->running != 0 &&
                   NowMs() - slots[w]->started_ms >
                       int64_t{1000} * (o.collect.empty() ? sub.case_timeout_s : 5)) {
          if (!o.collect.empty()) {
            kill(pids[w], SIGABRT);  // stack trace in the error file
            usleep(1500000);
          }
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
          failed = true;
          hang = true;
        }
        if (failed) {
          ++fails;
          Candidate c;
          c.index = slots[w]->index;
          c.tape.assign(slots[w]->tape, slots[w]->tape + std::min<uint64_t>(uint64_t{slots[w]->tape_len}, kMaxTape));
          c.hang = hang;
          if (slots[w]->failed != 0) c.message = slots[w]->message;
          else if (hang) c.message = "no answer after " + std::to_string(sub.case_timeout_s) + " s (hang)";
          else c.message = "crash (" + StatusText(status) + ")\n" + ErrSummary(root + "/w" + std::to_string(w) + ".err");
          if (o.verbose) std::cerr << "failed case " << sub.name << "#" << c.index << ": " << c.message << "\n";
          if (!o.collect.empty()) {
            const std::string name = o.collect + "/" + sub.name + "_" + std::to_string(c.index);
            WriteReplay(name + ".replay", property, sub, o, c.tape, c.message, "");
            std::error_code ec;
            std::filesystem::copy_file(root + "/w" + std::to_string(w) + ".err", name + ".err",
                                       std::filesystem::copy_options::overwrite_existing, ec);
            hang = false;
          } else {
            candidates.push_back(std::move(c));
          }
          // continue behind the failing case
          next_start[w] = slots[w]->index + o.jobs;
          if (candidates.size() >= 4 || (hang) || next_start[w] >= count) {
            pids[w] = -1;
            --active;
            if (candidates.size() >= 4 || hang) {
              for (unsigned k = 0; k < o.jobs; ++k) {
                if (pids[k] > 0) {
                  kill(pids[k], SIGKILL);
                  waitpid(pids[k], &status, 0);
                  pids[k] = -1;
                  --active;
                }
              }
              break;
            }
          } else {
            spawn(w);
          }
        }
      }
    }
    if (NowMs() > deadline_ms) budget_hit = true;
    WorkerReport& rep = reports[sub.name];
    for (unsigned w = 0; w < o.jobs; ++w) {
      std::ifstream in(report_file(w));
      std::string line;
      while (std::getline(in, line)) {
        if (line.size() < 2) continue;
        std::istringstream s(line.substr(2));
        if (line[0] == 'C') {
          uint64_t a = 0, b = 0;
          s >> a >> b;
          rep.cases += a;
          rep.nontrivial += b;
        } else if (line[0] == 'L') {
          uint64_t n = 0;
          std::string l;
          s >> n;
          std::getline(s, l);
          rep.labels[l.substr(1)] += n;
        } else if (line[0] == 'H') {
          uint64_t h = 0;
          s >> h;
          rep.hashes.insert(h);
        } else if (line[0] == 'S' && rep.samples.size() < 3) {
          rep.samples.push_back(line.substr(2));
        }
      }
    }
    std::cout << property.id << " " << sub.name << ": " << rep.cases << " cases, " << rep.hashes.size()
              << " distinct non-trivial, " << fails << " failing, " << (NowMs() - sub_start) / 1000.0 << " s\n";
    for (auto& l : rep.labels) {
      if (o.verbose) std::cout << "    " << l.first << ": " << l.second << "\n";
    }
    std::cout.flush();
    for (auto& c : candidates) {
      // Confirm by replaying.
      std::vector<std::vector<uint64_t>> tapes(sub.reproduce_tries, c.tape);
      auto res = ReplayMany(sub, tapes, thorough, root, sub.case_timeout_s);
      unsigned again = 0;
      for (auto& r : res) again += r.failed ? 1 : 0;
      const bool nondet = sub.racy;
      const bool confirmed = nondet || again == res.size();
      if (!confirmed) {
        ++unreproduced;
        std::cout << "note: case " << sub.name << "#" << c.index << " failed once but replayed " << again << "/"
                  << res.size() << ": not reported: " << c.message << "\n";
        continue;
      }
      std::string message = c.message;
      std::vector<uint64_t> tape = c.tape;
      if (!c.hang && again > 0) {
        tape = Shrink(sub, c.tape, thorough, root, thorough ? 120 : 20, message);
      }
      // The final replays of the shrunk case.
      if (!c.hang) {
        std::vector<std::vector<uint64_t>> fin(sub.reproduce_tries, tape);
        auto r3 = ReplayMany(sub, fin, thorough, root, sub.case_timeout_s);
        unsigned n = 0;
        for (auto& r : r3) {
          n += r.failed ? 1 : 0;
          if (r.failed) message = r.message;
        }
        if (n == 0 || (!nondet && n != r3.size())) {
          tape = c.tape;
          message = c.message;
        }
      }
      std::error_code ec;
      std::filesystem::create_directories(o.replay_dir, ec);
      violation_path = o.replay_dir + "/" + property.id + "_" + sub.name + "_" + std::to_string(o.seed) + "_" +
                       std::to_string(c.index) + ".replay";
      violation_message = message;
      WriteReplay(violation_path, property, sub, o, tape, message, "");
      violation = true;
      break;
    }
  }

  std::error_code ec;
  std::filesystem::remove_all(root, ec);
  const double wall = static_cast<double>(NowMs() - t0) / 1000.0;

  if (!o.evidence.empty()) {
    uint64_t evals = 0, distinct = 0;
    std::string rule;
    std::ostringstream samples, labels;
    bool first = true, first_label = true;
    for (const auto& sub : property.subs) {
      auto it = reports.find(sub.name);
      if (it == reports.end()) continue;
      evals += it->second.cases;
      distinct += it->second.hashes.size();
      rule += (rule.empty() ? "" : "; ") + sub.name + ": " + sub.rule;
      for (const auto& s : it->second.samples) {
        samples << (first ? "" : ",") << "\n      \"" << JsonEsc(s) << "\"";
        first = false;
      }
      labels << (first_label ? "" : ",") << "\n      \"" << JsonEsc(sub.name) << "\": {\"cases\": " << it->second.cases
             << ", \"distinct_nontrivial\": " << it->second.hashes.size();
      for (const auto& l : it->second.labels) labels << ", \"" << JsonEsc(l.first) << "\": " << l.second;
      labels << "}";
      first_label = false;
    }
    std::ofstream f(o.evidence);
    f << "{\n  \"property\": \"" << property.id << "\",\n  \"tier\": \"" << o.tier << "\",\n  \"seed\": " << o.seed
      << ",\n  \"level\": \"" << property.level << "\",\n  \"coverage\": {\n    \"evaluations\": " << evals
      << ",\n    \"distinct_nontrivial\": " << distinct << ",\n    \"rule\": \"" << JsonEsc(rule)
      << "\",\n    \"samples\": [" << samples.str() << "\n    ],\n    \"classes\": {" << labels.str()
      << "\n    },\n    \"unreproduced_failures\": " << unreproduced << ",\n    \"time_budget_reached\": "
      << (budget_hit ? "true" : "false") << "\n  },\n  \"assumptions\": [";
    for (size_t i = 0; i < property.assumptions.size(); ++i)
      f << (i ? ", " : "") << "\"" << JsonEsc(property.assumptions[i]) << "\"";
    f << "],\n  \"wall_s\": " << wall << ",\n  \"violations\": " << (violation ? 1 : 0);
    if (violation) {
      f << ",\n  \"replay\": \"" << JsonEsc(violation_path) << "\", \"message\": \"" << JsonEsc(violation_message) << "\"";
    }
    f << "\n}\n";
  }
  if (violation) {
    std::cout << violation_message << "\n";
    std::cout << "VIOLATION property=" << property.id << " replay=" << violation_path << std::endl;
    return 1;
  }
  std::cout << property.id << ": held on everything explored (" << wall << " s)\n";
  return 0;
}
}  // namespace vp
