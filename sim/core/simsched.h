// Simulated threads: real threads, released one at a time by the seeded scheduler.
#pragma once
#include <cstdint>
namespace sim {
namespace sched {
void begin();                       // start scheduling (call from the main thread of a run)
void pick_mode();                   // let the run choose its preemption style
void hw_concurrency(unsigned n);    // what the hardware reports
void fail_thread_create_at(int k);  // the k-th pthread_create from now fails with EAGAIN (1-based), 0 = off
bool thread_create_failed();
int live_threads();                 // including main
int created_threads();
uint64_t switches();
uint64_t interleaving_hash();
void yield_point();                 // explicit scheduling point (workload callbacks)
void no_preempt(bool on);           // harness-internal critical region (no scheduling inside)
int tid();
void stall_self(int n);             // slow node: this thread is not scheduled for n decisions
bool race_detection(bool on);
void fail_alloc_at(int64_t k);      // k-th operator new from now (any simulated thread) fails
bool alloc_failed_();
void pin_self(bool on);             // while pinned, the scheduler keeps running this thread
}
}
