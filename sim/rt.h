// Runtime of the simulator: memory arena, deterministic scheduler, race detector and seams.
// Everything declared here is implemented in rt.cpp, which is compiled WITHOUT instrumentation.
#pragma once
#include <stddef.h>
#include <stdint.h>

enum { RT_MAXT = 6, RT_MAXSW = 4096, RT_PLAN = 1 << 18, RT_MSG = 8000, RT_CNT = 160, RT_MAXOP = 256, RT_MAXHOT = 4096 };

struct RtSwitch { int32_t tid; int32_t target; uint64_t step; };

// Violation classes; a check asks for the classes that its property is about.
enum Cls : uint32_t {
    V_RACE = 1u << 0, V_CRASH = 1u << 1, V_MEMSAFE = 1u << 2, V_BADFREE = 1u << 3, V_LEAK = 1u << 4, V_LIFECYCLE = 1u << 5,
    V_FROZEN = 1u << 6, V_TARGET = 1u << 7, V_IDENTITY = 1u << 8, V_HANG = 1u << 9, V_EXC = 1u << 10, V_PATH = 1u << 11,
    V_DISAGREE = 1u << 12, V_ACCEPT = 1u << 13, V_REJECT = 1u << 14, V_VALUE = 1u << 15, V_OUTCOME = 1u << 16, V_LOSTFAIL = 1u << 17,
    V_RETRY = 1u << 18, V_TEXT = 1u << 19, V_WFAIL = 1u << 20
};
const char* cls_name(uint32_t c);

// Shared between the parent (search driver) and the forked child that executes one run.
struct RtShared
{
    volatile int status;        // 0 running, 1 violation, 2 finished, 3 out of simulated resources
    uint32_t relevant;          // classes that end the run with a violation
    uint32_t cls;               // violation class
    char msg[RT_MSG];
    uint64_t hash;              // hash of the whole execution (schedule, outcomes, faults)
    uint64_t steps;             // instrumented memory accesses executed inside library calls
    uint64_t foreign;           // violations of classes that were not asked for
    int nops;
    uint64_t op_hash[RT_MAXOP]; // digest of the outcome of each operation
    uint64_t op_flags[RT_MAXOP];
    uint64_t tsteps[RT_MAXT];   // steps per thread
    uint32_t nhot[RT_MAXT];     // steps of each thread that touch shared state
    uint64_t hot[RT_MAXT][RT_MAXHOT];
    int cur_op;
    int cur_tid;
    char phase[96];
    uint64_t cnt[RT_CNT];       // counters, indexed by the enum in counters.h
};

extern "C" {

extern RtShared* rt_sh;
void rt_map(int fd);                      // parent: map all regions before forking; fd: file that backs the shared record
void rt_reset(void);                      // parent: clear the shared record before a run
void rt_child_init(int fill, int reuse);  // child: start simulated memory; fresh memory holds the byte `fill`; reuse released memory at once?
bool rt_in_child(void);
[[noreturn]] void rt_finish(void);

// reports a violation; returns if the class was not asked for and the run can go on
void rt_report(uint32_t cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void rt_fatal(uint32_t cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void rt_assert_fail(const char* expr, const char* file, int line);
void rt_count(int counter, uint64_t n);
void rt_hash(uint64_t v);

// --- threads and schedule
int  rt_tid(void);
void rt_sched(const RtSwitch* sw, uint32_t nsw);                       // explicit switch points
void rt_threads_run(int n, void (*fn)(int tid, void* arg), void* arg); // runs tids 1..n to completion, one at a time
void rt_hot(void);                        // a favoured preemption point

// --- library call window
void rt_call_begin(int op, const char* phase);
void rt_call_end(void);
int  rt_window_leave(void);               // user code called by the library: leave the window ...
void rt_window_enter(int saved);          // ... and enter it again
uint64_t rt_call_steps(void);
void rt_phase(const char* phase);

// --- allocation seam
void rt_alloc_fault(uint64_t nth, uint64_t count);   // arm: fail allocations nth..nth+count-1 (1-based) of the next call
uint64_t rt_alloc_fired(void);
uint64_t rt_alloc_seen(void);
uint64_t rt_live_blocks(void);            // live blocks that were allocated inside library calls
uint64_t rt_live_bytes(void);
uint32_t rt_seq(void);                    // sequence number of the next block
void rt_freeze_since(uint32_t seq, uint32_t upto, int on); // live blocks numbered seq.. become read-only (or writable again)
void rt_freeze_range(const void* p, size_t n, int on);
bool rt_is_valid(const void* p, size_t n);

// --- step-triggered callback (environment changes in the middle of a call)
void rt_at_step(uint64_t step, void (*fn)(void*), void* arg);

// --- ambient environment
void rt_env_comma(int on);                // simulated C locale with a decimal comma
void rt_env_clock(int64_t sec);           // simulated clock
void rt_env_changed(void);

}
