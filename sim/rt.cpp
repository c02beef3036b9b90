// Simulator runtime. Compiled without instrumentation; see rt.h.
#include "rt.h"
#include "counters.h"
#include <errno.h>
#include <exception>
#include <linux/futex.h>
#include <locale.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef uintptr_t uptr;

static const uptr ARENA = 0x100000000000ull;
static const uptr ARENA_SIZE = 768ull << 20;
static const uptr STACKS = 0x180000000000ull;
static const uptr STACK_SIZE = 8ull << 20;

extern "C" {
    extern char __data_start, _end;
    void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
    void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
    void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
    int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); void* __real_memchr(const void*, int, size_t);
    int __real_strcmp(const char*, const char*); int __real_strncmp(const char*, const char*, size_t);
    int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
    long __real_syscall(long, ...);
    int __real_pthread_once(pthread_once_t*, void (*)(void));
    struct tm* __real_gmtime_r(const time_t*, struct tm*); struct tm* __real_localtime_r(const time_t*, struct tm*); time_t __real_mktime(struct tm*);
    void __real_tzset(void);
    int __real_setenv(const char*, const char*, int); int __real_unsetenv(const char*); int __real_putenv(char*); char* __real_getenv(const char*);
    char* __real_setlocale(int, const char*);
    int __real_clock_gettime(clockid_t, struct timespec*); time_t __real_time(time_t*); int __real_gettimeofday(struct timeval*, void*);
    double __real_strtod(const char*, char**); float __real_strtof(const char*, char**); long double __real_strtold(const char*, char**);
    int __real_vsnprintf(char*, size_t, const char*, va_list);
}

// ---------------------------------------------------------------- state

RtShared* rt_sh;
static bool g_child;             // inside a simulated run
static int g_fill = 0xA5;
static u8* g_state;              // one byte per 8-byte granule of the arena: 0 invalid, 1..8 valid bytes, |0x80 frozen, |0x40 freed
static uptr g_top = ARENA;
static u64 g_live, g_live_bytes;
static u32 g_seq = 1;
static u64* g_blk;                // address of the block with each number
enum : u32 { MAXBLK = 24u << 20 };
static int g_reuse;              // 1: released memory is reused at once, as by a real allocator
static bool g_mt;                // more than one simulated thread exists
static u64 g_hash = 1469598103934665603ull;
static uptr g_data_lo, g_data_hi;

struct Block { u32 magic; u32 size; u32 seq; u32 total; };   // 16 bytes before the user memory
enum : u32 { MAGIC_LIVE = 0xB10C11FEu, MAGIC_USER = 0xB10C0511u, MAGIC_FREE = 0xDEADB10Cu }; // LIVE: made inside a library call; USER: by the harness

enum { W_NONE = 0, W_CALL = 1 };
enum { RUN, BLOCKED, DONE };
struct Thread
{
    int id, state, window;
    u64 steps, call_steps, since_switch;
    u64 next_sw;                 // step of the next explicit switch
    u32 sw_pos;
    u64 alloc_seen, alloc_nth, alloc_cnt, alloc_fired;
    u64 at_step; void (*at_fn)(void*); void* at_arg; bool in_cb;
    const void* wait_on;
    volatile int go;             // futex word
    u32 vc[RT_MAXT];
    u32 seen[RT_MAXT];           // what relaxed loads have seen, for a later acquire fence
    u32 fenced[RT_MAXT];         // what a release fence has made available to later relaxed stores
    pthread_t th;
    void (*fn)(int, void*); void* arg;
};
static Thread g_thr[RT_MAXT];
static Thread* cur = &g_thr[0];
static int g_nthr = 0;
static RtSwitch g_sw[RT_MAXSW];
static u32 g_nsw;

static void die(int status) { rt_sh->status = status; rt_sh->hash = g_hash; _exit(status == 2 ? 0 : 3); }

const char* cls_name(uint32_t c)
{
    static const char* const n[] = { "data-race", "crash", "memory-safety", "bad-release", "leak", "lifecycle", "source-modified", "target-modified",
        "identity", "hang", "exception-type", "error-location", "disagreement", "wrong-accept", "wrong-reject", "wrong-value", "outcome-changed",
        "lost-failure", "retry-failed", "wrong-text", "write-failed" };
    for (unsigned i = 0; i < sizeof(n) / sizeof(n[0]); ++i) if (c == (1u << i)) return n[i];
    return "none";
}

static void vreport(uint32_t cls, bool fatal, const char* fmt, va_list ap)
{
    if (!rt_sh) { __real_vsnprintf(nullptr, 0, fmt, ap); abort(); }
    if (!(rt_sh->relevant & cls)) {
        rt_sh->foreign++;
        if (!fatal) return;
    }
    rt_sh->cls = cls;
    __real_vsnprintf(rt_sh->msg, sizeof rt_sh->msg, fmt, ap);
    rt_sh->cur_tid = cur->id;
    die(1);
}
void rt_report(uint32_t cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vreport(cls, false, fmt, ap); va_end(ap); }
void rt_fatal(uint32_t cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vreport(cls, true, fmt, ap); va_end(ap); _exit(4); }
void rt_assert_fail(const char* expr, const char* file, int line) { rt_fatal(V_CRASH, "assertion of the underlying JSON library fails: %s (%s:%d)", expr, file, line); }
void rt_count(int c, uint64_t n) { rt_sh->cnt[c] += n; }
void rt_hash(uint64_t v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
bool rt_in_child(void) { return g_child; }
int rt_tid(void) { return cur->id; }

// ---------------------------------------------------------------- race detector

enum { GT = RT_MAXT };
struct Cell { u32 wclk[GT]; u32 rclk[GT]; u8 wmask[GT]; u8 rmask[GT]; };
static Cell* g_cells;            // arena
static Cell* g_dcells;           // data and bss of the executable
struct SyncVar { uptr addr; u32 vc[GT]; };
static SyncVar g_sync[1 << 15];
static SyncVar* sync_of(uptr a)
{
    u32 h = (u32)((a >> 2) * 2654435761u) & ((1 << 15) - 1);
    for (;; h = (h + 1) & ((1 << 15) - 1)) {
        if (g_sync[h].addr == a) return &g_sync[h];
        if (!g_sync[h].addr) { g_sync[h].addr = a; return &g_sync[h]; }
    }
}
static void vc_acquire(uptr a) { if (!g_mt) return; SyncVar* s = sync_of(a); for (int i = 0; i < GT; ++i) if (s->vc[i] > cur->vc[i]) cur->vc[i] = s->vc[i]; }
static void vc_release(uptr a) { if (!g_mt) return; SyncVar* s = sync_of(a); for (int i = 0; i < GT; ++i) if (cur->vc[i] > s->vc[i]) s->vc[i] = cur->vc[i]; cur->vc[cur->id]++; }

static void race_granule(Cell& c, u8 m, bool w, uptr addr)
{
    int t = cur->id;
    for (int u = 1; u <= g_nthr; ++u) {
        if (u == t) continue;
        if ((c.wmask[u] & m) && c.wclk[u] > cur->vc[u])
            rt_report(V_RACE, "data race: thread %d %s %s %p while thread %d %s it without synchronisation; operation %d (%s)", t, w ? "writes" : "reads",
                addr >= ARENA ? "heap memory" : "global memory", (void*)(addr >= ARENA ? addr - ARENA : addr), u, "wrote", rt_sh->cur_op, rt_sh->phase);
        if (w && (c.rmask[u] & m) && c.rclk[u] > cur->vc[u])
            rt_report(V_RACE, "data race: thread %d writes %s %p while thread %d read it without synchronisation; operation %d (%s)", t,
                addr >= ARENA ? "heap memory" : "global memory", (void*)(addr >= ARENA ? addr - ARENA : addr), u, rt_sh->cur_op, rt_sh->phase);
    }
    u32 k = cur->vc[t];
    if (w) { if (c.wclk[t] == k) c.wmask[t] |= m; else { c.wclk[t] = k; c.wmask[t] = m; } }
    else   { if (c.rclk[t] == k) c.rmask[t] |= m; else { c.rclk[t] = k; c.rmask[t] = m; } }
}
static void race_access(uptr a, size_t n, bool w)
{
    Cell* base; uptr lo;
    if (a - ARENA < ARENA_SIZE) { base = g_cells; lo = ARENA; }
    else if (a >= g_data_lo && a < g_data_hi) { base = g_dcells; lo = g_data_lo; }
    else return;
    uptr e = a + n;
    while (a < e) {
        uptr g = a & ~(uptr)7; unsigned o = (unsigned)(a - g); unsigned k = 8 - o; if (k > e - a) k = (unsigned)(e - a);
        race_granule(base[(g - lo) >> 3], (u8)(((1u << k) - 1) << o), w, a);
        a += k;
    }
}

// ---------------------------------------------------------------- scheduler

static void futex_wait(volatile int* p, int v) { __real_syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futex_wake(volatile int* p) { __real_syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void park(Thread* t) { while (!t->go) futex_wait(&t->go, 0); t->go = 0; cur = t; }
static void resume(Thread* t) { cur = t; __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST); futex_wake(&t->go); }

static Thread* pick(int from)      // next runnable thread in cyclic order
{
    for (int i = 1; i <= g_nthr; ++i) { int k = (from - 1 + i) % g_nthr + 1; if (k != from && g_thr[k].state == RUN) return &g_thr[k]; }
    return nullptr;
}
static void switch_to(Thread* to)
{
    Thread* me = cur;
    if (to == me) return;
    rt_hash(0x5C000000ull + me->id * 64 + to->id); rt_hash(me->steps);
    rt_count(K_SWITCHES, 1);
    me->since_switch = 0; to->since_switch = 0;
    int e = errno;
    resume(to);
    park(me);
    errno = e;
}
static void load_next_switch(Thread* t)
{
    t->next_sw = ~0ull;
    for (; t->sw_pos < g_nsw; ++t->sw_pos)
        if (g_sw[t->sw_pos].tid == t->id && g_sw[t->sw_pos].step > t->steps) { t->next_sw = g_sw[t->sw_pos].step; return; }
}
static void hot_step(void)
{
    u32& n = rt_sh->nhot[cur->id];
    if (n < RT_MAXHOT) rt_sh->hot[cur->id][n++] = cur->steps;
}
static void slow_step(void)
{
    Thread* t = cur;
    if (t->steps >= t->next_sw) {
        int target = g_sw[t->sw_pos].target; t->sw_pos++;
        load_next_switch(t);
        if (target >= 1 && target <= g_nthr && target != t->id && g_thr[target].state == RUN) { rt_count(F_PREEMPT, 1); switch_to(&g_thr[target]); return; }
    }
    if (t->since_switch > 60000) { t->since_switch = 0; if (g_mt) if (Thread* o = pick(t->id)) { switch_to(o); return; } }
    if (t->call_steps > 80000000ull) rt_fatal(V_HANG, "call does not end within %llu steps; operation %d (%s)", (unsigned long long)t->call_steps, rt_sh->cur_op, rt_sh->phase);
}
static inline void step(void)
{
    Thread* t = cur;
    ++t->steps; ++t->call_steps; ++t->since_switch;
    if (t->steps >= t->at_step && t->at_fn && !t->in_cb) {
        t->in_cb = true; auto f = t->at_fn; t->at_fn = nullptr; int w = t->window; t->window = W_NONE; f(t->at_arg); t->window = w; t->in_cb = false;
    }
    if (t->steps >= t->next_sw || t->since_switch > 60000 || (t->call_steps & 0xFFFFF) == 0xFFFFF) slow_step();
}
static void sync_point(void) { if (g_child && cur->window == W_CALL) { step(); hot_step(); } }
void rt_hot(void) { sync_point(); }

static void block_on(const void* what)
{
    Thread* t = cur;
    t->state = BLOCKED; t->wait_on = what;
    rt_count(F_BLOCKED, 1);
    Thread* o = pick(t->id);
    if (!o) rt_fatal(V_HANG, "deadlock: no thread can proceed; operation %d (%s)", rt_sh->cur_op, rt_sh->phase);
    switch_to(o);
}
static void unblock(const void* what) { for (int i = 1; i <= g_nthr; ++i) if (g_thr[i].state == BLOCKED && g_thr[i].wait_on == what) { g_thr[i].state = RUN; g_thr[i].wait_on = nullptr; } }

void rt_sched(const RtSwitch* sw, uint32_t nsw) { if (nsw > RT_MAXSW) nsw = RT_MAXSW; for (u32 i = 0; i < nsw; ++i) g_sw[i] = sw[i]; g_nsw = nsw; }

static void* thread_main(void* p)
{
    Thread* t = (Thread*)p;
    park(t);
    t->fn(t->id, t->arg);
    t->state = DONE;
    rt_sh->tsteps[t->id] = t->steps;
    rt_hash(0xD0E0 + t->id); rt_hash(t->steps);
    Thread* o = pick(t->id);
    if (o) { resume(o); }
    else {
        for (int i = 1; i <= g_nthr; ++i) if (g_thr[i].state == BLOCKED) rt_fatal(V_HANG, "deadlock: thread %d waits for ever", i);
        resume(&g_thr[0]);
    }
    for (;;) pause();            // the process ends when the run does
    return nullptr;
}
void rt_threads_run(int n, void (*fn)(int, void*), void* arg)
{
    g_nthr = n; g_mt = n > 1;
    for (int i = 1; i <= n; ++i) {
        Thread* t = &g_thr[i];
        t->id = i; t->fn = fn; t->arg = arg; t->state = RUN; t->at_step = ~0ull;
        for (int k = 0; k < RT_MAXT; ++k) t->vc[k] = 0;
        t->vc[i] = 1;
        load_next_switch(t);
        char* st = (char*)(STACKS + (i - 1) * (STACK_SIZE + (1 << 20)));
        pthread_attr_t at; pthread_attr_init(&at);
        __real_memset(st + STACK_SIZE - (96 << 10), g_fill, 96 << 10);
        pthread_attr_setstack(&at, st, STACK_SIZE);
        if (pthread_create(&t->th, &at, thread_main, t)) { rt_sh->status = 3; _exit(5); }
    }
    resume(&g_thr[1]);
    park(&g_thr[0]);
    g_mt = false;
}

// ---------------------------------------------------------------- memory

enum { BIG = 4096, NBIN = 16384 };
struct Bin { u32 n, head; uptr q[16]; uptr stack; };   // FIFO of big blocks, or LIFO chain when memory is reused at once
static Bin* g_bins;

void rt_map(int fd)
{
    auto map = [](uptr at, size_t n, int flags) -> void* {
        void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_NORESERVE | flags | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(9); }
        return p;
    };
    map(ARENA, ARENA_SIZE, MAP_PRIVATE);
    for (int i = 0; i < RT_MAXT - 1; ++i) map(STACKS + i * (STACK_SIZE + (1 << 20)), STACK_SIZE, MAP_PRIVATE);
    g_state = (u8*)map(0, ARENA_SIZE >> 3, MAP_PRIVATE);
    g_cells = (Cell*)map(0, (ARENA_SIZE >> 3) * sizeof(Cell), MAP_PRIVATE);
    g_data_lo = (uptr)&__data_start & ~(uptr)7; g_data_hi = ((uptr)&_end + 7) & ~(uptr)7;
    g_dcells = (Cell*)map(0, ((g_data_hi - g_data_lo) >> 3) * sizeof(Cell), MAP_PRIVATE);
    g_blk = (u64*)map(0, (size_t)MAXBLK * 8, MAP_PRIVATE);
    g_bins = (Bin*)map(0, NBIN * sizeof(Bin), MAP_PRIVATE);
    rt_sh = (RtShared*)mmap(nullptr, sizeof(RtShared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (rt_sh == MAP_FAILED) { perror("mmap"); _exit(9); }
}
void rt_reset(void)
{
    rt_sh->status = 0; rt_sh->cls = 0; rt_sh->msg[0] = 0; rt_sh->hash = 0; rt_sh->steps = 0; rt_sh->foreign = 0; rt_sh->nops = 0;
    __real_memset(rt_sh->op_hash, 0, sizeof rt_sh->op_hash); __real_memset(rt_sh->op_flags, 0, sizeof rt_sh->op_flags);
    __real_memset(rt_sh->tsteps, 0, sizeof rt_sh->tsteps); __real_memset(rt_sh->nhot, 0, sizeof rt_sh->nhot);
    __real_memset(rt_sh->cnt, 0, sizeof rt_sh->cnt);
    rt_sh->cur_op = -1; rt_sh->cur_tid = 0; rt_sh->phase[0] = 0;
}
static void on_terminate() { rt_fatal(V_CRASH, "the program is terminated by an exception that cannot propagate; operation %d (%s)", rt_sh->cur_op, rt_sh->phase); }
void rt_child_init(int fill, int reuse)
{
    g_fill = fill & 0xFF; g_reuse = reuse;
    g_thr[0].id = 0; g_thr[0].next_sw = ~0ull; g_thr[0].at_step = ~0ull; g_thr[0].state = DONE;
    cur = &g_thr[0];
    std::set_terminate(on_terminate);
    __libc_single_threaded = 0;   // reference counts are updated atomically
    g_child = true;
}
void rt_finish(void)
{
    u64 s = 0; for (int i = 0; i < RT_MAXT; ++i) s += g_thr[i].steps;
    rt_sh->steps = s; rt_hash(s);
    die(2); _exit(0);
}

static inline u8* state_of(uptr a) { return &g_state[(a - ARENA) >> 3]; }


static void* arena_alloc(size_t n, size_t align)
{
    if (n > (64u << 20) || g_seq + 1 >= MAXBLK) die(3);
    if (align < 16) align = 16;
    size_t body = (n + 7) & ~(size_t)7;
    size_t tail = 16 + ((0 - (body + 16)) & 15);
    u32 total = (u32)(16 + body + tail);
    uptr p = 0;
    if (total / 16 < NBIN && align == 16) {
        Bin& b = g_bins[total / 16];
        if (g_reuse) { if (b.stack) { p = b.stack; b.stack = *(uptr*)p; } }
        else if (n >= BIG && b.n == 16) { p = b.q[b.head]; b.head = (b.head + 1) & 15; b.n--; }
    }
    if (p) {
        if (g_mt) __real_memset(&g_cells[(p - ARENA) >> 3], 0, ((n + 7) >> 3) * sizeof(Cell));
    } else {
        p = (g_top + 16 + align - 1) & ~(uptr)(align - 1);
        if (p + body + tail > ARENA + ARENA_SIZE) die(3);
        g_top = p + body + tail;
    }
    Block* b = (Block*)(p - 16);
    bool lib = cur->window == W_CALL;
    b->magic = lib ? MAGIC_LIVE : MAGIC_USER; b->size = (u32)n; b->seq = g_seq; b->total = total;
    g_blk[g_seq++] = p;
    u8* s = state_of(p);
    __real_memset(s, 8, n >> 3);
    if (n & 7) s[n >> 3] = (u8)(n & 7);
    __real_memset((void*)p, g_fill, n);
    if (lib) { g_live++; g_live_bytes += n; }
    return (void*)p;
}
static void acc_range(uptr a, size_t n, bool w);
static Block* block_of(void* p, const char* what)
{
    uptr a = (uptr)p;
    Block* b = (Block*)(a - 16);
    if ((a & 15) || a < ARENA + 16 || (b->magic != MAGIC_LIVE && b->magic != MAGIC_USER && b->magic != MAGIC_FREE))
        rt_fatal(V_BADFREE, "%s of a pointer that was never allocated; operation %d (%s)", what, rt_sh->cur_op, rt_sh->phase);
    if (b->magic == MAGIC_FREE)
        rt_fatal(V_BADFREE, "memory is released twice (block of %u bytes); operation %d (%s)", b->size, rt_sh->cur_op, rt_sh->phase);
    return b;
}
static void arena_free(void* p)
{
    Block* b = block_of(p, "release");
    u32 n = b->size;
    u8* s = state_of((uptr)p);
    if (n && (s[0] & 0x80)) rt_report(V_FROZEN, "memory of a source object is released during the call; operation %d (%s)", rt_sh->cur_op, rt_sh->phase);
    if (g_mt && cur->window) race_access((uptr)p, n < 512 ? n : 512, true);
    if (b->magic == MAGIC_LIVE) { g_live--; g_live_bytes -= n; }
    b->magic = MAGIC_FREE;
    g_blk[b->seq] = 0;
    __real_memset(s, 0x40, (n + 7) >> 3);
    if (n < BIG) __real_memset(p, 0xDD, n);
    if (b->total / 16 < NBIN) {
        Bin& q = g_bins[b->total / 16];
        if (g_reuse) { if (n >= 8) { *(uptr*)p = q.stack; q.stack = (uptr)p; } }
        else if (n >= BIG && q.n < 16) { q.q[(q.head + q.n) & 15] = (uptr)p; q.n++; }
    }
}
static inline bool in_arena(const void* p) { return (uptr)p - ARENA < ARENA_SIZE; }

uint64_t rt_live_blocks(void) { return g_live; }
uint64_t rt_live_bytes(void) { return g_live_bytes; }
uint32_t rt_seq(void) { return g_seq; }
void rt_freeze_range(const void* p, size_t n, int on)
{
    if (!in_arena(p)) return;
    u8* s = state_of((uptr)p); u8* e = state_of((uptr)p + n + 7);
    for (; s < e; ++s) if ((*s & 0x4F) && !(*s & 0x40)) { if (on) *s |= 0x80; else *s &= 0x7F; }
}
void rt_freeze_since(uint32_t seq, uint32_t upto, int on)
{
    for (u32 i = seq; i < upto; ++i) if (g_blk[i]) rt_freeze_range((void*)g_blk[i], ((Block*)(g_blk[i] - 16))->size, on);
}

static void bad_access(uptr a, size_t n, bool w)
{
    u8 s = *state_of(a);
    rt_fatal(V_MEMSAFE, "%s %zu bytes %s; operation %d (%s)", w ? "writes" : "reads", n, (s & 0x40) ? "of memory that has been released" : "outside the bounds of an allocated block",
        rt_sh->cur_op, rt_sh->phase);
}
bool rt_is_valid(const void* p, size_t n)
{
    if (!in_arena(p)) return true;
    uptr a = (uptr)p, e = a + n;
    while (a < e) { u8 v = *state_of(a) & 0xF; uptr g = a & ~(uptr)7; uptr last = (g + 8 < e ? g + 8 : e); if (last - g > v) return false; a = g + 8; }
    return true;
}
static void check_mem(uptr a, size_t n, bool w)
{
    uptr x = a, e = a + n;
    if (e > ARENA + ARENA_SIZE) bad_access(a, n, w);
    while (x < e) {
        u8 s = *state_of(x); uptr g = x & ~(uptr)7; uptr last = g + 8 < e ? g + 8 : e;
        if (last - g > (uptr)(s & 0xF)) {
            // an aligned vector load may look past the end of a block as long as it starts inside
            if (!w && n == 16 && !(a & 15) && !(s & 0x40) && ((*state_of(a)) & 0xF)) return;
            bad_access(a, n, w);
        }
        if (w && (s & 0x80)) { rt_report(V_FROZEN, "a source object is modified during the call; operation %d (%s)", rt_sh->cur_op, rt_sh->phase); }
        x = g + 8;
    }
}
static inline void acc(uptr a, size_t n, bool w)
{
    if (!g_child) return;
    bool heap = a - ARENA < ARENA_SIZE;
    if (heap) {
        u8 s = *state_of(a);
        if (!(s == 8 && (a & 7) + n <= 8)) check_mem(a, n, w);
    }
    if (cur->window != W_CALL) return;
    step();
    if (!heap && a >= g_data_lo && a < g_data_hi) { if (w || g_mt) hot_step(); if (g_mt) race_access(a, n, w); }
    else if (heap && g_mt) race_access(a, n, w);
}
static void acc_range(uptr a, size_t n, bool w) { if (n) acc(a, n, w); }

// ---------------------------------------------------------------- call window and faults

void rt_call_begin(int op, const char* phase)
{
    rt_sh->cur_op = op; rt_phase(phase);
    cur->call_steps = 0; cur->alloc_seen = 0; cur->alloc_fired = 0;
    cur->window = W_CALL;
    rt_count(K_CALLS, 1);
    sync_point();
    rt_sh->cur_op = op; rt_phase(phase);
}
void rt_call_end(void) { cur->window = W_NONE; cur->alloc_nth = 0; cur->at_fn = nullptr; }
int rt_window_leave(void) { int w = cur->window; cur->window = W_NONE; return w; }
void rt_window_enter(int w) { cur->window = w; }
uint64_t rt_call_steps(void) { return cur->call_steps; }
void rt_phase(const char* p) { char* d = rt_sh->phase; size_t i = 0; for (; p[i] && i + 1 < sizeof rt_sh->phase; ++i) d[i] = p[i]; d[i] = 0; }
void rt_alloc_fault(uint64_t nth, uint64_t count) { cur->alloc_nth = nth; cur->alloc_cnt = count; }
uint64_t rt_alloc_fired(void) { return cur->alloc_fired; }
uint64_t rt_alloc_seen(void) { return cur->alloc_seen; }
void rt_at_step(uint64_t s, void (*fn)(void*), void* arg) { cur->at_step = cur->steps + s; cur->at_fn = fn; cur->at_arg = arg; }

static bool alloc_fails(void)
{
    Thread* t = cur;
    if (t->window != W_CALL) return false;
    u64 k = ++t->alloc_seen;
    if (t->alloc_nth && k >= t->alloc_nth && k < t->alloc_nth + t->alloc_cnt) { t->alloc_fired++; rt_count(F_ALLOC, 1); rt_hash(0xA110C + k); return true; }
    return false;
}
static void* do_new(size_t n, size_t align, bool nothrow)
{
    if (!g_child) return align > 16 ? __real_aligned_alloc(align, (n + align - 1) & ~(align - 1)) : __real_malloc(n ? n : 1);
    if (alloc_fails()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return arena_alloc(n, align);
}
static void do_delete(void* p) { if (!p) return; if (in_arena(p)) arena_free(p); else __real_free(p); }

void* operator new(size_t n) { return do_new(n, 16, false); }
void* operator new[](size_t n) { return do_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }

extern "C" {

void* __wrap_malloc(size_t n) { return g_child ? arena_alloc(n, 16) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!g_child) return __real_calloc(a, b); void* p = arena_alloc(a * b, 16); __real_memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { do_delete(p); }
void* __wrap_realloc(void* p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (!in_arena(p)) return __real_realloc(p, n);
    Block* b = block_of(p, "reallocation");
    void* q = arena_alloc(n, 16);
    __real_memcpy(q, p, b->size < n ? b->size : n);
    arena_free(p);
    return q;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return g_child ? arena_alloc(n, a) : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { if (!g_child) return __real_posix_memalign(p, a, n); *p = arena_alloc(n, a); return 0; }

void* __wrap_memcpy(void* d, const void* s, size_t n) { if (g_child && n) { acc_range((uptr)s, n, false); acc_range((uptr)d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_child && n) { acc_range((uptr)s, n, false); acc_range((uptr)d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (g_child && n) acc_range((uptr)d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (g_child && n) { acc_range((uptr)a, n, false); acc_range((uptr)b, n, false); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); if (g_child && n) acc_range((uptr)a, r ? (size_t)((char*)r - (char*)a) + 1 : n, false); return r; }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (g_child) acc_range((uptr)s, n + 1, false); return n; }
int __wrap_strcmp(const char* a, const char* b) { if (g_child) { acc_range((uptr)a, 1, false); acc_range((uptr)b, 1, false); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { if (g_child && n) { acc_range((uptr)a, 1, false); acc_range((uptr)b, 1, false); } return __real_strncmp(a, b, n); }

size_t __real_strnlen(const char*, size_t); char* __real_strcpy(char*, const char*); char* __real_strncpy(char*, const char*, size_t); char* __real_strcat(char*, const char*); char* __real_stpcpy(char*, const char*);
char* __real_strchr(const char*, int); char* __real_strrchr(const char*, int); char* __real_strstr(const char*, const char*); size_t __real_strspn(const char*, const char*); size_t __real_strcspn(const char*, const char*); char* __real_strpbrk(const char*, const char*);
size_t __wrap_strnlen(const char* s, size_t n) { size_t r = __real_strnlen(s, n); if (g_child) acc_range((uptr)s, r < n ? r + 1 : n, false); return r; }
char* __wrap_strcpy(char* d, const char* s) { size_t n = __real_strlen(s) + 1; if (g_child) { acc_range((uptr)s, n, false); acc_range((uptr)d, n, true); } return __real_strcpy(d, s); }
char* __wrap_stpcpy(char* d, const char* s) { size_t n = __real_strlen(s) + 1; if (g_child) { acc_range((uptr)s, n, false); acc_range((uptr)d, n, true); } return __real_stpcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t n) { size_t r = __real_strnlen(s, n); if (g_child && n) { acc_range((uptr)s, r < n ? r + 1 : n, false); acc_range((uptr)d, n, true); } return __real_strncpy(d, s, n); }
char* __wrap_strcat(char* d, const char* s) { size_t n = __real_strlen(s) + 1, m = __real_strlen(d); if (g_child) { acc_range((uptr)s, n, false); acc_range((uptr)d, m + 1, false); acc_range((uptr)d + m, n, true); } return __real_strcat(d, s); }
char* __wrap_strchr(const char* s, int c) { char* r = __real_strchr(s, c); if (g_child) acc_range((uptr)s, (r ? (size_t)(r - s) : __real_strlen(s)) + 1, false); return r; }
char* __wrap_strrchr(const char* s, int c) { if (g_child) acc_range((uptr)s, __real_strlen(s) + 1, false); return __real_strrchr(s, c); }
char* __wrap_strstr(const char* s, const char* t) { if (g_child) { acc_range((uptr)s, __real_strlen(s) + 1, false); acc_range((uptr)t, __real_strlen(t) + 1, false); } return __real_strstr(s, t); }
size_t __wrap_strspn(const char* s, const char* t) { size_t r = __real_strspn(s, t); if (g_child) { acc_range((uptr)s, r + 1, false); acc_range((uptr)t, __real_strlen(t) + 1, false); } return r; }
size_t __wrap_strcspn(const char* s, const char* t) { size_t r = __real_strcspn(s, t); if (g_child) { acc_range((uptr)s, r + 1, false); acc_range((uptr)t, __real_strlen(t) + 1, false); } return r; }
char* __wrap_strpbrk(const char* s, const char* t) { char* r = __real_strpbrk(s, t); if (g_child) { acc_range((uptr)s, (r ? (size_t)(r - s) : __real_strlen(s)) + 1, false); acc_range((uptr)t, __real_strlen(t) + 1, false); } return r; }
#define STRTOI(T, N) T __real_##N(const char*, char**, int); T __wrap_##N(const char* s, char** e, int b) { char* x; T r = __real_##N(s, &x, b); if (g_child) acc_range((uptr)s, (size_t)(x - s) + 1, false); if (e) *e = x; return r; }
STRTOI(long, strtol) STRTOI(unsigned long, strtoul) STRTOI(long long, strtoll) STRTOI(unsigned long long, strtoull)
STRTOI(long, __isoc23_strtol) STRTOI(unsigned long, __isoc23_strtoul) STRTOI(long long, __isoc23_strtoll) STRTOI(unsigned long long, __isoc23_strtoull)

// ---------------------------------------------------------------- locks

static bool simulated(void) { return g_child && cur->id > 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!simulated()) return __real_pthread_mutex_lock(m);
    sync_point();
    int r;
    while ((r = __real_pthread_mutex_trylock(m)) == EBUSY) block_on(m);
    if (r == 0) vc_acquire((uptr)m);
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!simulated()) return __real_pthread_mutex_trylock(m); sync_point(); int r = __real_pthread_mutex_trylock(m); if (r == 0) vc_acquire((uptr)m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!simulated()) return __real_pthread_mutex_unlock(m); vc_release((uptr)m); int r = __real_pthread_mutex_unlock(m); unblock(m); sync_point(); return r; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!simulated()) return __real_pthread_rwlock_rdlock(m); sync_point(); int r; while ((r = __real_pthread_rwlock_tryrdlock(m)) == EBUSY) block_on(m); vc_acquire((uptr)m); return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!simulated()) return __real_pthread_rwlock_wrlock(m); sync_point(); int r; while ((r = __real_pthread_rwlock_trywrlock(m)) == EBUSY) block_on(m); vc_acquire((uptr)m); return r; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_tryrdlock(m); if (simulated() && r == 0) vc_acquire((uptr)m); return r; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_trywrlock(m); if (simulated() && r == 0) vc_acquire((uptr)m); return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!simulated()) return __real_pthread_rwlock_unlock(m); vc_release((uptr)m); int r = __real_pthread_rwlock_unlock(m); unblock(m); sync_point(); return r; }

// waiting for another thread by other means than a lock
static void give_way(void) { sync_point(); if (g_mt) if (Thread* o = pick(cur->id)) switch_to(o); }
int __real_sched_yield(void); int __real_nanosleep(const struct timespec*, struct timespec*); int __real_usleep(useconds_t); int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __wrap_sched_yield(void) { if (!simulated()) return __real_sched_yield(); give_way(); return 0; }
int __wrap_nanosleep(const struct timespec* t, struct timespec* r) { if (!simulated()) return __real_nanosleep(t, r); give_way(); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* t, struct timespec* r) { if (!simulated()) return __real_clock_nanosleep(c, f, t, r); give_way(); return 0; }
int __wrap_usleep(useconds_t t) { if (!simulated()) return __real_usleep(t); give_way(); return 0; }
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f)
{
    if (!simulated() || nr != SYS_futex) return __real_syscall(nr, a, b, c, d, e, f);
    int op = (int)b & FUTEX_CMD_MASK;
    if (op != FUTEX_WAIT && op != FUTEX_WAIT_BITSET) return 0;
    give_way(); errno = EAGAIN; return -1;
}

// one-time initialisation: byte 0 done, byte 1 in progress, byte 2 thread
int __cxa_guard_acquire(uint64_t* g)
{
    u8* b = (u8*)g;
    sync_point();
    for (;;) {
        if (b[0]) { vc_acquire((uptr)g); return 0; }
        if (!b[1]) { b[1] = 1; b[2] = (u8)cur->id; vc_acquire((uptr)g); return 1; }
        if (b[2] == (u8)cur->id) rt_fatal(V_HANG, "one-time initialisation enters itself; operation %d (%s)", rt_sh ? rt_sh->cur_op : -1, rt_sh ? rt_sh->phase : "");
        rt_count(P_GUARD_CONTENDED, 1);
        block_on(g);
    }
}
void __cxa_guard_release(uint64_t* g) { u8* b = (u8*)g; b[1] = 0; if (g_child) vc_release((uptr)g); __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE); if (g_child) { unblock(g); sync_point(); } }
void __cxa_guard_abort(uint64_t* g) { u8* b = (u8*)g; b[1] = 0; if (g_child) { vc_release((uptr)g); unblock(g); sync_point(); } }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!simulated()) return __real_pthread_once(o, f);
    static uint64_t done[256]; static pthread_once_t* key[256];
    int i = 0; while (i < 255 && key[i] && key[i] != o) ++i;
    key[i] = o;
    if (*o == 2) { vc_acquire((uptr)&done[i]); return 0; }
    if (__cxa_guard_acquire(&done[i])) { try { f(); } catch (...) { __cxa_guard_abort(&done[i]); throw; } *o = 2; __cxa_guard_release(&done[i]); }
    return 0;
}

// ---------------------------------------------------------------- time zone, locale, clock

// pseudo-locations: process-wide state that such functions read and write
static u64 g_env_loc, g_loc_loc; static struct tm g_tm;
static void pseudo(void* loc, bool w) { if (g_child) acc((uptr)loc, 8, w); }

struct tm* __wrap_gmtime_r(const time_t* t, struct tm* r) { if (g_child) { acc((uptr)t, sizeof *t, false); acc((uptr)r, sizeof *r, true); } return __real_gmtime_r(t, r); }
struct tm* __wrap_localtime_r(const time_t* t, struct tm* r) { pseudo(&g_env_loc, false); return __real_localtime_r(t, r); }
struct tm* __wrap_gmtime(const time_t* t) { struct tm* r = __real_gmtime_r(t, &g_tm); if (g_child) { acc((uptr)&g_tm, sizeof g_tm, true); sync_point(); } return r ? &g_tm : nullptr; }
struct tm* __wrap_localtime(const time_t* t) { pseudo(&g_env_loc, false); struct tm* r = __real_localtime_r(t, &g_tm); if (g_child) { acc((uptr)&g_tm, sizeof g_tm, true); sync_point(); } return r ? &g_tm : nullptr; }
time_t __wrap_mktime(struct tm* t) { pseudo(&g_env_loc, false); return __real_mktime(t); }
void __wrap_tzset(void) { pseudo(&g_env_loc, false); __real_tzset(); }
int __wrap_setenv(const char* k, const char* v, int o) { pseudo(&g_env_loc, true); sync_point(); int r = __real_setenv(k, v, o); sync_point(); return r; }
int __wrap_unsetenv(const char* k) { pseudo(&g_env_loc, true); sync_point(); int r = __real_unsetenv(k); sync_point(); return r; }
int __wrap_putenv(char* s) { pseudo(&g_env_loc, true); sync_point(); int r = __real_putenv(s); sync_point(); return r; }
char* __wrap_getenv(const char* k) { pseudo(&g_env_loc, false); return __real_getenv(k); }
char* __wrap_setlocale(int c, const char* l) { pseudo(&g_loc_loc, l != nullptr); char* r = __real_setlocale(c, l); sync_point(); return r; }

static int g_comma; static int64_t g_clock = 1700000000;
void rt_env_comma(int on) { g_comma = on; }
void rt_env_clock(int64_t s) { g_clock = s; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!g_child) return __real_clock_gettime(c, ts); ts->tv_sec = g_clock; ts->tv_nsec = 123456789; return 0; }
time_t __wrap_time(time_t* t) { if (!g_child) return __real_time(t); if (t) *t = g_clock; return g_clock; }
int __wrap_gettimeofday(struct timeval* tv, void* tz) { if (!g_child) return __real_gettimeofday(tv, tz); tv->tv_sec = g_clock; tv->tv_usec = 123456; return 0; }

static bool comma(void) { return g_comma && g_child && uselocale((locale_t)0) == LC_GLOBAL_LOCALE; }
static const char* swap_point(const char* s, char* buf, size_t cap)
{
    // under a decimal comma, '.' ends a number and ',' is the decimal separator
    size_t i = 0;
    for (; s[i] && i + 1 < cap; ++i) buf[i] = s[i] == '.' ? ';' : s[i] == ',' ? '.' : s[i];
    buf[i] = 0; return buf;
}
#define STRTO(T, N) T __wrap_##N(const char* s, char** e) { pseudo(&g_loc_loc, false); if (g_child) acc((uptr)s, 1, false); \
    if (!comma()) { char* x; T r = __real_##N(s, &x); if (g_child && in_arena(s)) { if (!rt_is_valid(s, (size_t)(x - s) + 1)) check_mem((uptr)s, (size_t)(x - s) + 1, false); } if (e) *e = x; return r; } \
    char buf[512]; char* x; T r = __real_##N(swap_point(s, buf, sizeof buf), &x); if (e) *e = (char*)s + (x - buf); return r; }
STRTO(double, strtod) STRTO(float, strtof) STRTO(long double, strtold)
double __wrap_atof(const char* s) { return __wrap_strtod(s, nullptr); }

int __wrap_vsnprintf(char* b, size_t n, const char* f, va_list ap)
{
    pseudo(&g_loc_loc, false);
    if (g_child && b && n && in_arena(b) && !rt_is_valid(b, n)) check_mem((uptr)b, n, true);
    int r = __real_vsnprintf(b, n, f, ap);
    if (comma() && b && n) {
        bool fp = false;
        for (const char* p = f; *p; ++p) if (*p == '%') { ++p; while (*p && !((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z') || *p == '%')) ++p; while (*p == 'l' || *p == 'L' || *p == 'h' || *p == 'z') ++p; if (*p && strchr("eEfFgGaA", *p)) fp = true; if (!*p) break; }
        if (fp) for (char* p = b; *p; ++p) if (*p == '.') { *p = ','; }
    }
    return r;
}
int __wrap_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int __wrap_vsprintf(char* b, const char* f, va_list ap) { va_list c; va_copy(c, ap); int n = __real_vsnprintf(nullptr, 0, f, c); va_end(c); return __wrap_vsnprintf(b, (size_t)n + 1, f, ap); }
int __wrap_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsprintf(b, f, ap); va_end(ap); return r; }
int __real_vsscanf(const char*, const char*, va_list); int __real___isoc23_vsscanf(const char*, const char*, va_list);
#define SCAN(N) int __wrap_##N(const char* s, const char* f, va_list ap) { \
    pseudo(&g_loc_loc, false); if (g_child) acc_range((uptr)s, __real_strlen(s) + 1, false); \
    bool fp = false; if (comma()) for (const char* p = f; *p; ++p) if (*p == '%') { ++p; while (*p && !((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z') || *p == '%' || *p == '[')) ++p; while (*p == 'l' || *p == 'L' || *p == 'h' || *p == 'z') ++p; if (*p && __real_strchr("eEfFgGaA", *p)) fp = true; if (!*p) break; } \
    char buf[4096]; return __real_##N(fp ? swap_point(s, buf, sizeof buf) : s, f, ap); }
SCAN(vsscanf) SCAN(__isoc23_vsscanf)
int __wrap_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsscanf(s, f, ap); va_end(ap); return r; }
int __wrap___isoc23_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = __wrap___isoc23_vsscanf(s, f, ap); va_end(ap); return r; }
// characters beyond ASCII are letters or spaces in some locales, and i and I are not a pair in all
static unsigned short g_cls[384]; static int g_up[384], g_low[384]; static const unsigned short* g_cls_p = g_cls + 128; static const int *g_up_p = g_up + 128, *g_low_p = g_low + 128;
const unsigned short** __real___ctype_b_loc(void); const int** __real___ctype_tolower_loc(void); const int** __real___ctype_toupper_loc(void);
static void ctype_tables()
{
    const unsigned short* c = *__real___ctype_b_loc(); const int *l = *__real___ctype_tolower_loc(), *u = *__real___ctype_toupper_loc();
    for (int i = -128; i < 256; ++i) {
        unsigned char k = (unsigned char)i; g_cls[i + 128] = c[i]; g_up[i + 128] = u[i]; g_low[i + 128] = l[i];
        if (i == -1) continue;
        if (k == 0xA0) g_cls[i + 128] = c[(int)' ']; else if (k > 0xC0 && k < 0xDE) { g_cls[i + 128] = c[(int)'A'] & ~c[(int)'0']; g_low[i + 128] = i + 0x20; } else if (k >= 0xDE) { g_cls[i + 128] = c[(int)'z'] & ~c[(int)'0']; if (k > 0xE0 && k < 0xFE) g_up[i + 128] = i - 0x20; }
        if (i == 'i') g_up[i + 128] = 0xDD;
        if (i == 'I') g_low[i + 128] = 0xFD;
    }
}
const unsigned short** __wrap___ctype_b_loc(void) { pseudo(&g_loc_loc, false); if (!comma()) return __real___ctype_b_loc(); ctype_tables(); return &g_cls_p; }
const int** __wrap___ctype_toupper_loc(void) { pseudo(&g_loc_loc, false); if (!comma()) return __real___ctype_toupper_loc(); ctype_tables(); return &g_up_p; }
const int** __wrap___ctype_tolower_loc(void) { pseudo(&g_loc_loc, false); if (!comma()) return __real___ctype_tolower_loc(); ctype_tables(); return &g_low_p; }
#define CT(N) int __wrap_##N(int c) { return c < -128 || c > 255 ? 0 : (*__wrap___ctype_b_loc())[c] & ct_bit_##N; }
enum { ct_bit_isupper = 1 << 8, ct_bit_islower = 2 << 8, ct_bit_isalpha = 4 << 8, ct_bit_isdigit = 8 << 8, ct_bit_isxdigit = 16 << 8, ct_bit_isspace = 32 << 8, ct_bit_isprint = 64 << 8, ct_bit_isgraph = 128 << 8, ct_bit_isblank = 1, ct_bit_iscntrl = 2, ct_bit_ispunct = 4, ct_bit_isalnum = 8 };
CT(isupper) CT(islower) CT(isalpha) CT(isdigit) CT(isxdigit) CT(isspace) CT(isprint) CT(isgraph) CT(isblank) CT(iscntrl) CT(ispunct) CT(isalnum)
int __wrap_toupper(int c) { return c < -128 || c > 255 ? c : (*__wrap___ctype_toupper_loc())[c]; }
int __wrap_tolower(int c) { return c < -128 || c > 255 ? c : (*__wrap___ctype_tolower_loc())[c]; }
int __wrap_strcasecmp(const char* a, const char* b) { if (g_child) { acc_range((uptr)a, __real_strlen(a) + 1, false); acc_range((uptr)b, __real_strlen(b) + 1, false); } for (;; ++a, ++b) { int x = __wrap_tolower((unsigned char)*a), y = __wrap_tolower((unsigned char)*b); if (x != y || !x) return x - y; } }
int __wrap_strncasecmp(const char* a, const char* b, size_t n) { for (; n; ++a, ++b, --n) { if (g_child) { acc_range((uptr)a, 1, false); acc_range((uptr)b, 1, false); } int x = __wrap_tolower((unsigned char)*a), y = __wrap_tolower((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
int __wrap_strcoll(const char* a, const char* b) { if (comma()) if (int c = __wrap_strcasecmp(a, b)) return c; return __wrap_strcmp(a, b); }
// functions with a state of their own
static u64 g_tok_loc, g_asc_loc; char* __real_strtok(char*, const char*); char* __real_asctime(const struct tm*); char* __real_strerror(int);
char* __wrap_strtok(char* s, const char* d) { pseudo(&g_tok_loc, true); char* r = __real_strtok(s, d); if (g_child) sync_point(); return r; }
char* __wrap_asctime(const struct tm* t) { pseudo(&g_asc_loc, true); char* r = __real_asctime(t); if (g_child) sync_point(); return r; }
char* __wrap_ctime(const time_t* t) { struct tm b; pseudo(&g_env_loc, false); return __real_localtime_r(t, &b) ? __wrap_asctime(&b) : nullptr; }
struct lconv* __real_localeconv(void);
struct lconv* __wrap_localeconv(void)
{
    pseudo(&g_loc_loc, false);
    struct lconv* l = __real_localeconv();
    if (!comma()) return l;
    static struct lconv c; c = *l; c.decimal_point = (char*)","; c.thousands_sep = (char*)"."; c.grouping = (char*)"\3"; return &c;
}

// ---------------------------------------------------------------- instrumentation interface

void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define ACC(N) \
    void __tsan_read##N(void* a) { acc((uptr)a, N, false); } \
    void __tsan_write##N(void* a) { acc((uptr)a, N, true); } \
    void __tsan_unaligned_read##N(void* a) { acc((uptr)a, N, false); } \
    void __tsan_unaligned_write##N(void* a) { acc((uptr)a, N, true); } \
    void __tsan_volatile_read##N(void* a) { acc((uptr)a, N, false); } \
    void __tsan_volatile_write##N(void* a) { acc((uptr)a, N, true); } \
    void __tsan_unaligned_volatile_read##N(void* a) { acc((uptr)a, N, false); } \
    void __tsan_unaligned_volatile_write##N(void* a) { acc((uptr)a, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* a, size_t n) { acc_range((uptr)a, n, false); }
void __tsan_write_range(void* a, size_t n) { acc_range((uptr)a, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc((uptr)p, 8, true); else acc((uptr)p, 8, false); }
void __tsan_vptr_read(void** p) { acc((uptr)p, 8, false); }

static void at_begin(volatile const void* a, size_t n) { if (!g_child) return; uptr x = (uptr)a; if (x - ARENA < ARENA_SIZE) { u8 s = *state_of(x); if ((s & 0xF) < (x & 7) + n && n <= 8) bad_access(x, n, false); } sync_point(); }
static void vc_join(u32* to, const u32* from) { for (int i = 0; i < GT; ++i) if (from[i] > to[i]) to[i] = from[i]; }
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acquire and release, 5 sequentially consistent
static bool acquires(int mo) { mo &= 7; return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool releases(int mo) { mo &= 7; return mo >= 3; }
static void at_read(volatile const void* a, size_t n, int mo)
{
    if (!g_child || !g_mt) return;
    u32* to = acquires(mo) ? cur->vc : cur->seen;
    vc_join(to, sync_of((uptr)a)->vc);
    if (n == 8) vc_join(to, sync_of((uptr)a + 4)->vc);
}
static void at_write(volatile const void* a, int mo, bool rmw)
{
    if (!g_child || !g_mt) return;
    SyncVar* s = sync_of((uptr)a);
    if (!rmw) __real_memset(s->vc, 0, sizeof s->vc);      // a store that is not read-modify-write ends the release sequence
    vc_join(s->vc, releases(mo) ? cur->vc : cur->fenced);
    if (releases(mo)) cur->vc[cur->id]++;
}
static void fence(int mo)
{
    if (!g_child || !g_mt) return;
    if (acquires(mo)) vc_join(cur->vc, cur->seen);
    if (releases(mo)) { __real_memcpy(cur->fenced, cur->vc, sizeof cur->vc); cur->vc[cur->id]++; }
}
#define RMW(B, T, N, OP) T __tsan_atomic##B##_##N(volatile T* a, T v, int mo) { at_begin(a, sizeof(T)); T r = OP(a, v, __ATOMIC_SEQ_CST); at_read(a, sizeof(T), mo); at_write(a, mo, true); return r; }
#define CAS(B, T, N) int __tsan_atomic##B##_##N(volatile T* a, T* c, T v, int mo, int fmo) { at_begin(a, sizeof(T)); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_read(a, sizeof(T), r ? mo : fmo); if (r) at_write(a, mo, true); return r; }
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { at_begin(a, sizeof(T)); at_read(a, sizeof(T), mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_begin(a, sizeof(T)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); at_write(a, mo, false); } \
    RMW(B, T, exchange, __atomic_exchange_n) RMW(B, T, fetch_add, __atomic_fetch_add) RMW(B, T, fetch_sub, __atomic_fetch_sub) RMW(B, T, fetch_and, __atomic_fetch_and) \
    RMW(B, T, fetch_or, __atomic_fetch_or) RMW(B, T, fetch_xor, __atomic_fetch_xor) RMW(B, T, fetch_nand, __atomic_fetch_nand) \
    CAS(B, T, compare_exchange_strong) CAS(B, T, compare_exchange_weak) \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo) { fence(mo); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// bounds of fixed-size arrays and objects (-fsanitize=bounds,object-size,null)
#define UB(N, WHAT) void __ubsan_handle_##N(void*, ...) { if (g_child) rt_fatal(V_MEMSAFE, WHAT "; operation %d (%s)", rt_sh->cur_op, rt_sh->phase); } \
    void __ubsan_handle_##N##_abort(void*, ...) { if (g_child) rt_fatal(V_MEMSAFE, WHAT "; operation %d (%s)", rt_sh->cur_op, rt_sh->phase); }
UB(out_of_bounds, "index outside the bounds of an array") UB(type_mismatch_v1, "access through a null or insufficient object") UB(builtin_unreachable, "unreachable code reached")
UB(missing_return, "function ends without a value") UB(vla_bound_not_positive, "array of negative size")

}
