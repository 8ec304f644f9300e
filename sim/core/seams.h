// Seams owned by the simulator: allocator, entropy, disk.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ allocator
// Only allocations made while a Lib scope is open are under simulation.
struct Lib { Lib(); ~Lib(); };
struct NoLib { NoLib(); ~NoLib(); bool was; };   // e.g. harness code called back from the library
void alloc_fail_at(int64_t k);        // k-th allocation from now throws bad_alloc (1-based); <=0 off
bool alloc_failed();                  // did the armed failure fire
uint64_t alloc_count();               // allocations in Lib scopes so far
void alloc_cap(uint64_t bytes);       // a request that would push live memory over this throws bad_alloc
uint64_t alloc_cap_hits();
uint64_t alloc_peak();                // peak live bytes requested (Lib scopes)
void alloc_peak_reset();
int64_t live_blocks();                // blocks allocated in Lib scopes, not yet freed
void alloc_fill(int mode);            // 0: leave, 1..255: fill fresh memory with this byte pattern
void scribble_stack(int byte);        // paint the unused stack below the caller

// ------------------------------------------------------------------ entropy
// mode 0: seeded stream, 1: all zero, 2: all ones, 3: constant, 4: counter, 5: throw at the k-th draw
void entropy(int mode, uint64_t param = 0);
uint64_t entropy_draws();
void entropy_pick();                  // let the scheduler choose the source

// ------------------------------------------------------------------ disk
// files whose path starts with "/sim/" live in a simulated disk
struct DiskFaults {
  bool chunked = false;      // short reads / short writes
  bool eintr = false;        // EINTR before transfers
  bool pipe = false;         // the file is a pipe: it arrives in pieces, has no size and cannot be repositioned
  bool transient = false;    // eio_write_at strikes once, later writes succeed
  int64_t eio_read_at = -1;  // read fails with EIO once this many bytes were delivered
  int64_t enospc_at = -1;    // device has room for this many bytes
  int64_t eio_write_at = -1; // write fails with EIO once this many bytes were accepted
  int64_t crash_at = -1;     // power cut once this many bytes were accepted: nothing later reaches the disk
  bool lose_tail = false;    // un-flushed bytes accepted before the crash may be lost
  bool open_fail = false;    // open fails (EACCES / EMFILE)
  bool close_fail = false;   // close reports EIO
};
namespace disk {
void reset();
void put(const std::string &path, const std::string &data);
bool exists(const std::string &path);
std::string get(const std::string &path);
void faults(const DiskFaults &f);
bool any_error_fired();       // an error was reported to the program by the disk
bool crashed();
uint64_t ops();
int open_handles();
}
}
