#include "common/sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

#include <atomic>

namespace {
using ClockWait = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
using TimedWait = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);

ClockWait RealClockWait() {
  static ClockWait f = reinterpret_cast<ClockWait>(dlsym(RTLD_NEXT, "pthread_cond_clockwait"));
  return f;
}
TimedWait RealTimedWait() {
  static TimedWait f = reinterpret_cast<TimedWait>(dlsym(RTLD_NEXT, "pthread_cond_timedwait"));
  return f;
}

std::atomic<bool> g_enabled{false};
std::atomic<uint32_t> g_free_us{0};
std::atomic<uint64_t> g_requested{0};
std::atomic<uint64_t> g_consumed{0};
std::atomic<uint64_t> g_entered{0};
std::atomic<uint64_t> g_at{0};
std::atomic<uint64_t> g_cycles{0};
std::atomic<pthread_cond_t*> g_cond{nullptr};
std::atomic<pthread_mutex_t*> g_mutex{nullptr};
std::atomic<int> g_waiting{0};

// Time added to std::chrono::steady_clock, so that a wait can be made to time
// out at once.
std::atomic<int64_t> g_offset{0};

int64_t RealNs(clockid_t clock) {
  struct timespec t;
  clock_gettime(clock, &t);
  return static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec;
}
struct timespec ToSpec(int64_t ns) {
  struct timespec t;
  t.tv_sec = ns / 1000000000;
  t.tv_nsec = ns % 1000000000;
  return t;
}
constexpr int64_t kSlice = 5000000;  // 5 ms

// The wait has timed out: moves the steady clock to the deadline.
int TimedOut(clockid_t clock, int64_t deadline) {
  ++g_cycles;
  const int64_t now = RealNs(clock) + g_offset;
  if (now < deadline) g_offset += deadline - now + 1;
  return ETIMEDOUT;
}

template <typename W>
int Wait(pthread_cond_t* cond, pthread_mutex_t* mutex, clockid_t clock, const struct timespec* abstime, W real) {
  const int64_t deadline = static_cast<int64_t>(abstime->tv_sec) * 1000000000 + abstime->tv_nsec;
  const int64_t real_deadline = deadline - g_offset;
  const int64_t now = RealNs(clock);
  if (!g_enabled) {
    // Waits in short slices (a spurious wake-up is always allowed), so that a
    // lost wake-up does not cost the whole period of the writer thread.
    if (real_deadline - now <= kSlice) {
      const auto t = ToSpec(real_deadline);
      return real(&t);
    }
    const auto t = ToSpec(now + kSlice);
    const int r = real(&t);
    return r == ETIMEDOUT ? 0 : r;
  }
  if (const uint32_t us = g_free_us.load(); us != 0) {
    const auto t = ToSpec(now + static_cast<int64_t>(us) * 1000);
    const int r = real(&t);
    return r == ETIMEDOUT ? TimedOut(clock, deadline) : r;
  }
  // Controlled: the mutex is held here.
  g_cond = cond;
  g_mutex = mutex;
  ++g_entered;
  g_waiting = 1;
  int r = 0;
  if (g_consumed < g_requested) {
    g_at = g_entered.load();
    ++g_consumed;
    r = ETIMEDOUT;
  } else {
    const auto t = ToSpec(now + kSlice);
    r = real(&t);
    if (g_consumed < g_requested) {
      g_at = g_entered.load();
      ++g_consumed;
      r = ETIMEDOUT;
    } else if (r == ETIMEDOUT) {
      r = 0;  // spurious wake-up, waits again
    }
  }
  g_waiting = 0;
  return r == ETIMEDOUT ? TimedOut(clock, deadline) : r;
}
}  // namespace

extern "C" int pthread_cond_clockwait(pthread_cond_t* cond, pthread_mutex_t* mutex, clockid_t clock,
                                      const struct timespec* abstime) {
  return Wait(cond, mutex, clock, abstime,
              [&](const struct timespec* t) { return RealClockWait()(cond, mutex, clock, t); });
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* cond, pthread_mutex_t* mutex, const struct timespec* abstime) {
  return Wait(cond, mutex, CLOCK_REALTIME, abstime,
              [&](const struct timespec* t) { return RealTimedWait()(cond, mutex, t); });
}
// std::chrono::steady_clock::now()
extern "C" int64_t VpSteadyNow() asm("_ZNSt6chrono3_V212steady_clock3nowEv");
extern "C" int64_t VpSteadyNow() { return RealNs(CLOCK_MONOTONIC) + g_offset; }

namespace sched {
void Enable() {
  g_cond = nullptr;
  g_mutex = nullptr;
  g_requested = 0;
  g_consumed = 0;
  g_entered = 0;
  g_waiting = 0;
  g_cycles = 0;
  g_free_us = 0;
  g_enabled = true;
}
void Disable() {
  g_enabled = false;
  g_free_us = 0;
}
void FreeRun(uint32_t us) { g_free_us = us; }
uint64_t Cycles() { return g_cycles; }

bool Tick() {
  if (!g_enabled) return false;
  // Wait until the writer thread waits.
  for (int i = 0; i < 20000 && g_waiting == 0; ++i) usleep(50);
  if (g_waiting == 0) return false;
  pthread_mutex_t* mutex = g_mutex;
  pthread_cond_t* cond = g_cond;
  pthread_mutex_lock(mutex);
  ++g_requested;
  pthread_cond_broadcast(cond);
  pthread_mutex_unlock(mutex);
  // Wait until the cycle is done, i.e. the thread waits again.
  for (int i = 0; i < 400000; ++i) {
    if (g_consumed == g_requested && g_entered > g_at && g_waiting != 0) return true;
    usleep(i < 50 ? 5 : 50);
  }
  return false;
}
}  // namespace sched
