// Control over the periodic (10 s) wake-ups of the library's writer thread.
// pthread_cond_clockwait() is interposed: the wait of a controlled thread only
// times out when the harness says so, i.e. a generated flush schedule.
#pragma once
#include <cstdint>
namespace sched {
// After this call all timed waits of other threads are under control.
void Enable();
void Disable();
// Lets a waiting writer thread run one of its periodic cycles. Returns when the
// thread waits again (or after a bounded time if no thread waits). Returns true
// if a cycle was run.
bool Tick();
// Free running mode: each timed wait times out after the number of
// micro seconds (0 = off).
void FreeRun(uint32_t us);
// Number of periodic cycles run since Enable().
uint64_t Cycles();
}  // namespace sched
