// Simulator runtime: deterministic scheduler for real threads (exactly one runs at a time and the
// simulator chooses which), simulated clock, simulated allocator with failure injection, and a
// vector-clock data race / heap misuse detector fed by -fsanitize=thread instrumentation
// (the instrumented code is linked against the callbacks in this file, not against libtsan).
//
// This file is compiled without instrumentation.
#include "internal.hpp"
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <atomic>
#include <algorithm>
#include <cmath>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
extern char __data_start, _end;
void* __real_memcpy(void*, void const*, size_t); void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
}

using namespace simi;
using u64 = std::uint64_t; using u32 = std::uint32_t; using u8 = std::uint8_t;

namespace {

// ---- memory layout ---------------------------------------------------------------------------
constexpr u64 arena_base = 0x10000000000ull, arena_size = 3ull << 30;
constexpr u64 cells_base = 0x20000000000ull;   // 4 cells of 8 bytes per 8 bytes of arena
constexpr u64 valid_base = 0x30000000000ull;   // 1 byte per 8 bytes of arena
constexpr u64 gcells_base = 0x38000000000ull;  // cells of the executable's own data
constexpr u64 stack_size = 1 << 20;
constexpr int max_threads = 60;
constexpr u64 no_deadline = ~0ull;

struct VC {
    u32 c[max_threads];
    void join(VC const& o) { for (int i = 0; i < max_threads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { runnable, blocked, finished };
enum Wait { w_none, w_mutex, w_cond, w_join, w_futex, w_sleep, w_rwlock, w_sem, w_once };
char const* wait_names[] = {"-", "mutex", "condition variable", "join", "futex", "sleep", "rwlock", "semaphore", "once"};

struct AtExit { void (*fn)(void*); void* arg; AtExit* next; };

struct Thread {
    int id; std::atomic<int> go; State state; Wait wait; void* wait_addr; u64 deadline; bool timed_out, woken;
    int quiet; int bypass; bool in_new;
    VC vc, acq_pending, rel_fence; bool has_rel_fence;
    pthread_t real; bool joined, detached; void* (*start)(void*); void* arg; void* ret; void* stack;
    long prio; u64 stalled_until; AtExit* atexit_list; u64 last_sync_step;
    void* callstack[64]; int depth;
    char const* blocked_in;
};

struct SyncObj {
    void* addr; u32 ordinal; VC vc; bool used;
    int owner; int count;           // mutex; rwlock: owner = writer, count = readers
    int waiters;                    // condition variable
};
constexpr u32 sync_table = 1 << 15;

struct Global {
    bool on;                        // a simulation is running in this process
    Plan plan; Result* r;
    Thread* threads[max_threads]; int num_threads;
    Thread* current;
    u64 steps, choice_at, syncs; u64 extra_ns; std::int64_t wall_offset;
    Rng w, s, f;
    // schedule
    int strategy; double p_sync, p_access, p_spurious; bool default_only; u64 changes[8]; int num_changes; long next_low;
    u32 sched_cursor;
    u32 fault_ops, fault_cursor;
    u32 draw_cursor;
    // allocation
    char* bump; u64 alloc_seq; u64 fail_at; bool fail_persistent, fail_fired; u64 start_seq, start_fail_at; bool start_persistent, start_fired; u64 live_blocks, live_bytes, live_new;
    SyncObj* sync; u32 num_sync;
    int cpus; int unjoined;
    u64 hash, sync_hash;
    bool ending;
};
Global g;
thread_local Thread* me __attribute__((tls_model("initial-exec"))) = nullptr;

// ---- raw helpers -----------------------------------------------------------------------------
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
void park(std::atomic<int>* w) {
    while (w->load(std::memory_order_acquire) == 0)
        raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    w->store(0, std::memory_order_relaxed);
}
void unpark(std::atomic<int>* w) {
    w->store(1, std::memory_order_release);
    raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
template<class F> F real_fn(char const* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

struct { int (*create)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);
         int (*join)(pthread_t, void**); int (*detach)(pthread_t);
         int (*mutex_lock)(pthread_mutex_t*); int (*mutex_trylock)(pthread_mutex_t*); int (*mutex_unlock)(pthread_mutex_t*);
         int (*once)(pthread_once_t*, void (*)());
         int (*clock_gettime)(clockid_t, timespec*); int (*gettimeofday)(timeval*, void*); time_t (*time)(time_t*);
         int (*nanosleep)(timespec const*, timespec*); int (*clock_nanosleep)(clockid_t, int, timespec const*, timespec*);
         int (*sched_yield)();
         int (*cond_wait)(pthread_cond_t*, pthread_mutex_t*); int (*cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, timespec const*);
         int (*cond_signal)(pthread_cond_t*); int (*cond_broadcast)(pthread_cond_t*); int (*cond_destroy)(pthread_cond_t*);
         int (*cxa_thread_atexit)(void (*)(void*), void*, void*);
         int (*rd)(pthread_rwlock_t*); int (*wr)(pthread_rwlock_t*); int (*rwun)(pthread_rwlock_t*);
         int (*tryrd)(pthread_rwlock_t*); int (*trywr)(pthread_rwlock_t*);
         int (*get_nprocs)(); long (*sysconf)(int);
} real;

bool active() { return me && !me->bypass; }

void fmix(u64& h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }

char trace_buf[1 << 16]; u32 trace_len = 0; u64 trace_total = 0;
void trace_flush() { if (trace_len) { ssize_t n = write(g.plan.trace_fd, trace_buf, trace_len); (void)n; trace_len = 0; } }
__attribute__((format(printf, 1, 2))) void trace(char const* fmt, ...) {
    if (!g.plan.trace || trace_total > 4000000) return;
    char line[512];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(line, sizeof line - 1, fmt, ap); va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof line - 2) n = sizeof line - 2;
    line[n++] = '\n';
    if (trace_len + n > sizeof trace_buf) trace_flush();
    __builtin_memcpy(trace_buf + trace_len, line, n); trace_len += n; trace_total += n;
}

void finalize_stats() {
    Result* r = g.r;
    r->hash = g.hash; r->sync_hash = g.sync_hash; r->steps = g.steps; r->syncs = g.syncs;
    r->sim_ns = g.steps * 20 + g.extra_ns; r->threads = g.num_threads; r->allocs = g.alloc_seq;
}

[[noreturn]] void end_run(int status, char const* cls, char const* message) {
    if (g.ending) raw_syscall(SYS_exit_group, 9, 0, 0, 0, 0, 0);
    g.ending = true;
    if (cls) snprintf(g.r->cls, sizeof g.r->cls, "%s", cls);
    if (message) snprintf(g.r->message, sizeof g.r->message, "%s", message);
    finalize_stats();
    if (cls) for (char const* p = cls; *p; ++p) fmix(g.r->hash, (u8)*p);
    trace("%s %s: %s", status == st_ok ? "END ok" : "END", cls ? cls : "", message ? message : "");
    if (g.plan.trace) trace_flush();
    g.r->status = status;
    // give the memory back now: the kernel frees that of exited processes later, possibly too late for
    // the many which follow (this thread's stack may be in the arena)
    raw_syscall(SYS_munmap, cells_base, arena_size * 4, 0, 0, 0, 0);
    raw_syscall(SYS_munmap, valid_base, arena_size / 8, 0, 0, 0, 0);
    u64 sp = (u64)__builtin_frame_address(0), low = (sp - 65536) & ~4095ull, high = (sp + 65536) & ~4095ull;
    if (sp - arena_base >= arena_size) raw_syscall(SYS_munmap, arena_base, arena_size, 0, 0, 0, 0);
    else {
        if (low > arena_base) raw_syscall(SYS_munmap, arena_base, low - arena_base, 0, 0, 0, 0);
        if (high < arena_base + arena_size) raw_syscall(SYS_munmap, high, arena_base + arena_size - high, 0, 0, 0, 0);
    }
    raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

void append(char* buf, size_t cap, char const* fmt, ...) {
    size_t n = strlen(buf); if (n + 1 >= cap) return;
    va_list ap; va_start(ap, fmt); vsnprintf(buf + n, cap - n, fmt, ap); va_end(ap);
}

void describe_stack(Thread* t, char* buf, size_t cap) {
    int shown = 0;
    for (int i = std::min(t->depth, 64) - 1; i >= 0 && shown < 7; --i, ++shown)
        append(buf, cap, " <%p>", t->callstack[i]);
}

void describe_threads(char* buf, size_t cap) {
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        append(buf, cap, "; thread %d %s", i, t->state == finished ? "finished" : t->state == runnable ? "runnable" : "blocked in ");
        if (t->state == blocked) append(buf, cap, "%s", wait_names[t->wait]);
    }
}

// ---- names -----------------------------------------------------------------------------------
void bump_name(NamedCount* table, char const* name, u64 n = 1) {
    for (int i = 0; i < max_names; ++i) {
        if (!table[i].name[0]) snprintf(table[i].name, sizeof table[i].name, "%s", name);
        if (strncmp(table[i].name, name, sizeof table[i].name - 1) == 0) { table[i].count += n; return; }
    }
}

// ---- sync objects ----------------------------------------------------------------------------
SyncObj* obj(void* addr) {
    u64 h = ((u64)addr >> 2) * 0x9e3779b97f4a7c15ull >> 40;
    for (u32 i = (u32)h & (sync_table - 1);; i = (i + 1) & (sync_table - 1)) {
        SyncObj& o = g.sync[i];
        if (!o.used) {
            if (g.num_sync > sync_table * 3 / 4) end_run(st_harness_error, "sync-table-full", "");
            o.used = true; o.addr = addr; o.ordinal = g.num_sync++; o.owner = -1; return &o;
        }
        if (o.addr == addr) return &o;
    }
}
void hb_acquire(VC const& v) { me->vc.join(v); }
void hb_release(VC& v) { v.join(me->vc); me->vc.c[me->id]++; }
void hb_release_store(VC& v) { v = me->vc; me->vc.c[me->id]++; }

// ---- schedule --------------------------------------------------------------------------------
enum { sub_spurious = 0, sub_timer = 1, sub_preempt = 2, sub_other = 3 };

void log_choice(int sub, u32 value) {
    Result* r = g.r;
    if (r->num_sched >= max_sched) { r->overflow = true; return; }
    r->sched[r->num_sched++] = {g.steps * 4 + sub, value, 0};
}

// the recorded choice at this point, 0 = default
u32 replay_choice(int sub) {
    u64 key = g.steps * 4 + sub;
    while (g.sched_cursor < g.plan.num_sched && g.plan.sched[g.sched_cursor].key < key) g.sched_cursor++;
    u32 v = 0;
    if (g.sched_cursor < g.plan.num_sched && g.plan.sched[g.sched_cursor].key == key) v = g.plan.sched[g.sched_cursor++].value;
    g.choice_at = g.sched_cursor < g.plan.num_sched ? g.plan.sched[g.sched_cursor].key / 4 : ~0ull;
    return v;
}

void next_access_choice() {
    if (g.plan.replay) {
        g.choice_at = g.sched_cursor < g.plan.num_sched ? std::max(g.plan.sched[g.sched_cursor].key / 4, g.steps + 1) : ~0ull;
        return;
    }
    if (g.default_only || g.num_threads < 2) { g.choice_at = ~0ull; return; }
    if (g.strategy == 2) {
        g.choice_at = ~0ull;
        for (int i = 0; i < g.num_changes; ++i)
            if (g.changes[i] > g.steps) g.choice_at = std::min(g.choice_at, g.changes[i]);
        return;
    }
    if (g.p_access <= 0) { g.choice_at = ~0ull; return; }
    double u = g.s.unit(); // geometric gap
    g.choice_at = g.steps + 1 + (u64)(std::log(1 - u) / std::log(1 - g.p_access));
}

Thread* nth_runnable(Thread const* except, u64 n) {
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        if (t->state == runnable && t != except && n-- == 0) return t;
    }
    return nullptr;
}
int count_runnable(Thread const* except) {
    int n = 0;
    for (int i = 0; i < g.num_threads; ++i) n += g.threads[i]->state == runnable && g.threads[i] != except;
    return n;
}
Thread* best_prio() {
    Thread* b = nullptr;
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        if (t->state == runnable && (!b || t->prio > b->prio)) b = t;
    }
    return b;
}
// default order: the next runnable thread after the current one
Thread* next_in_turn() {
    int from = g.current ? g.current->id : 0;
    for (int i = 1; i <= g.num_threads; ++i) {
        Thread* t = g.threads[(from + i) % g.num_threads];
        if (t->state == runnable) return t;
    }
    return nullptr;
}
Thread* random_other(Thread* except) {
    int n = count_runnable(except);
    if (!n) return nullptr;
    if (g.strategy == 3) { // avoid stalled threads while anything else can run
        Thread* c[max_threads]; int k = 0;
        for (int i = 0; i < g.num_threads; ++i) {
            Thread* t = g.threads[i];
            if (t->state == runnable && t != except && t->stalled_until < g.steps) c[k++] = t;
        }
        if (k) return c[g.s.below(k)];
        if (except && except->state == runnable) return nullptr;
    }
    return nth_runnable(except, g.s.below(n));
}

void handoff(Thread* to) {
    Thread* from = me;
    if (to == from) return;
    g.current = to; g.r->switches++;
    fmix(g.hash, 0x5157 + to->id * 131 + g.steps * 7);
    trace("[%llu] switch %d -> %d", (unsigned long long)g.steps, from->id, to->id);
    unpark(&to->go);
    if (from->state != finished) park(&from->go);
}

u64 now() { return g.steps * 20 + g.extra_ns; }

void wake(Thread* t, bool timeout) {
    t->state = runnable; t->timed_out = timeout; t->woken = !timeout;
}
void expire_timers() {
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        if (t->state == blocked && t->deadline != no_deadline && t->deadline <= now()) wake(t, true);
    }
}
Thread* earliest_timer() {
    Thread* b = nullptr;
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        if (t->state == blocked && t->deadline != no_deadline && (!b || t->deadline < b->deadline)) b = t;
    }
    return b;
}

void maybe_preempt(bool is_sync) {
    if (g.num_threads < 2) return;
    Thread* to = nullptr;
    if (g.plan.replay) {
        if (u32 v = replay_choice(sub_preempt)) {
            if ((int)v - 1 < g.num_threads && g.threads[v - 1]->state == runnable) to = g.threads[v - 1];
        }
    } else if (!g.default_only) {
        if (g.strategy == 2) {
            for (int i = 0; i < g.num_changes; ++i)
                if (g.changes[i] == g.steps) me->prio = --g.next_low;
            if (g.steps - me->last_sync_step > 2000000) { me->prio = --g.next_low; me->last_sync_step = g.steps; }
            to = best_prio();
        } else {
            if (g.strategy == 3 && me->stalled_until >= g.steps) to = random_other(me);
            else if (!is_sync || g.s.unit() < g.p_sync) to = random_other(me);
        }
    }
    if (to && to != me) {
        if (!g.plan.replay) log_choice(sub_preempt, to->id + 1);
        g.r->preemptions++;
        handoff(to);
    }
}

void check_limits() {
    if (g.steps > g.plan.step_limit) end_run(st_violation, "no-progress", "step limit exceeded: the run does not terminate");
}

// every synchronisation operation starts here
void sync_point(char const* what, void* addr) {
    g.steps++; g.syncs++; me->last_sync_step = g.steps;
    if (me->quiet) return;
    u32 ord = addr ? obj(addr)->ordinal : 0;
    u64 tag = 0; for (char const* p = what; *p; ++p) tag = tag * 31 + (u8)*p;
    fmix(g.hash, tag ^ (g.steps << 20) ^ ((u64)me->id << 8) ^ ord);
    fmix(g.sync_hash, tag ^ ((u64)me->id << 8) ^ ((u64)ord << 32));
    trace("[%llu] %d %s #%u", (unsigned long long)g.steps, me->id, what, ord);
    check_limits();
    expire_timers();
    if (g.plan.replay) {
        if (u32 v = replay_choice(sub_spurious)) {
            if ((int)v - 1 < g.num_threads) { Thread* t = g.threads[v - 1];
                if (t->state == blocked && t->wait == w_cond) { bump_name(g.r->faults, "spurious_wakeup"); trace("  spurious wake-up of %d", t->id); wake(t, false); t->woken = false; } }
        }
        if (u32 v = replay_choice(sub_timer)) {
            Thread* t = earliest_timer();
            if (v && t) { g.extra_ns += t->deadline > now() ? t->deadline - now() : 0; expire_timers(); }
        }
    } else if (!g.default_only) {
        if (g.p_spurious > 0 && g.s.unit() < g.p_spurious) {
            Thread* c[max_threads]; int k = 0;
            for (int i = 0; i < g.num_threads; ++i) if (g.threads[i]->state == blocked && g.threads[i]->wait == w_cond) c[k++] = g.threads[i];
            if (k) {
                Thread* t = c[g.s.below(k)];
                log_choice(sub_spurious, t->id + 1);
                bump_name(g.r->faults, "spurious_wakeup"); trace("  spurious wake-up of %d", t->id);
                wake(t, false); t->woken = false;
            }
        }
        if (Thread* t = earliest_timer()) {
            if (g.s.unit() < 0.02) { log_choice(sub_timer, 1); g.extra_ns += t->deadline > now() ? t->deadline - now() : 0; expire_timers(); }
        }
    }
    maybe_preempt(true);
    next_access_choice();
}

void access_choice() { // an instrumented memory access at which a preemption may happen
    check_limits();
    maybe_preempt(false);
    next_access_choice();
}

// the current thread cannot continue (it is blocked or finished): choose who runs
void dispatch() {
    g.steps++; check_limits();
    expire_timers();
    while (!count_runnable(nullptr)) {
        if (Thread* t = earliest_timer()) { g.extra_ns += t->deadline - std::min(t->deadline, now()); expire_timers(); continue; }
        char msg[1500] = "no thread can run"; describe_threads(msg, sizeof msg);
        end_run(st_violation, "deadlock", msg);
    }
    Thread* dflt = next_in_turn(); Thread* to = dflt;
    if (g.plan.replay) {
        if (u32 v = replay_choice(sub_other)) if ((int)v - 1 < g.num_threads && g.threads[v - 1]->state == runnable) to = g.threads[v - 1];
    } else if (!g.default_only) {
        if (g.strategy == 2) to = best_prio();
        else if (g.strategy != 0) { to = random_other(nullptr); if (!to) to = dflt; }
        if (to != dflt) log_choice(sub_other, to->id + 1);
    }
    next_access_choice();
    handoff(to);
}

void block(Wait w, void* addr, u64 deadline) {
    me->state = blocked; me->wait = w; me->wait_addr = addr; me->deadline = deadline; me->timed_out = me->woken = false;
    dispatch();
    me->wait = w_none; me->deadline = no_deadline;
}
void wake_all(Wait w, void* addr) {
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        if (t->state == blocked && t->wait == w && t->wait_addr == addr) wake(t, false);
    }
}
// which of several waiters is woken
Thread* pick_waiter(Wait w, void* addr) {
    Thread* c[max_threads]; int k = 0;
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        if (t->state == blocked && t->wait == w && t->wait_addr == addr) c[k++] = t;
    }
    if (!k) return nullptr;
    if (k == 1) return c[0];
    g.steps++;
    Thread* t = c[0];
    if (g.plan.replay) {
        if (u32 v = replay_choice(sub_other)) for (int i = 0; i < k; ++i) if (c[i]->id == (int)v - 1) t = c[i];
    } else if (!g.default_only) {
        t = c[g.s.below(k)];
        if (t != c[0]) log_choice(sub_other, t->id + 1);
    }
    next_access_choice();
    return t;
}

// ---- race and heap checking ------------------------------------------------------------------
// cell: clock 32 | tid 8 | off 3 | len-1 3 | write 1 | atomic 1
inline u64 make_cell(u32 clk, int tid, unsigned off, unsigned len, bool w, bool a) {
    return ((u64)clk << 32) | ((u64)tid << 8) | (off << 5) | ((len - 1) << 2) | (w ? 2 : 0) | (a ? 1 : 0);
}

[[noreturn]] __attribute__((noinline)) void report_race(u64 addr, unsigned len, bool w, bool a, u64 cell, void* pc) {
    char msg[1800]; msg[0] = 0;
    append(msg, sizeof msg, "thread %d %s%s %u bytes (pc %p) unordered with an earlier %s%s by thread %d; stack",
           me->id, a ? "atomically " : "", w ? "writes" : "reads", len, pc, cell & 1 ? "atomic " : "", cell & 2 ? "write" : "read", (int)((cell >> 8) & 0xff));
    describe_stack(me, msg, sizeof msg);
    append(msg, sizeof msg, "; other thread's stack now");
    describe_stack(g.threads[(cell >> 8) & 0xff], msg, sizeof msg);
    (void)addr;
    end_run(st_violation, "data-race", msg);
}
[[noreturn]] __attribute__((noinline)) void report_heap(u64 addr, unsigned len, bool w, void* pc, char const* what) {
    char msg[1200]; msg[0] = 0;
    append(msg, sizeof msg, "thread %d %s %u bytes outside a live memory block (%s, pc %p); stack", me->id, w ? "writes" : "reads", len, what, pc);
    describe_stack(me, msg, sizeof msg);
    (void)addr;
    end_run(st_violation, "bad-memory-access", msg);
}

inline void check_granule(u64* cells, unsigned off, unsigned len, bool w, bool a, u64 addr, void* pc) {
    Thread* t = me;
    u64 mine = make_cell(t->vc.c[t->id], t->id, off, len, w, a);
    int slot = -1, empty = -1, old = -1;
    for (int i = 0; i < 4; ++i) {
        u64 c = cells[i];
        if (!c) { if (empty < 0) empty = i; continue; }
        if (c == mine) return;
        int tid = (c >> 8) & 0xff;
        unsigned co = (c >> 5) & 7, cl = ((c >> 2) & 7) + 1;
        if (tid == t->id) {
            if (co == off && cl == len && (w || !(c & 2)) && (!a || (c & 1))) slot = i;
            continue;
        }
        bool ordered = t->vc.c[tid] >= (u32)(c >> 32);
        bool overlap = co < off + len && off < co + cl;
        if (ordered) { if (overlap && w) old = i; continue; }
        if (!overlap) continue;
        if ((w || (c & 2)) && !(a && (c & 1))) report_race(addr, len, w, a, c, pc);
    }
    if (slot < 0) slot = old >= 0 ? old : empty >= 0 ? empty : (int)(g.steps & 3);
    cells[slot] = mine;
}

inline void check_bytes(u64 a, u64 n, bool w, bool atomic, void* pc) {
    u64 off = a - arena_base;
    u64* cells; 
    if (off < arena_size) {
        u8* valid = (u8*)valid_base + (off >> 3);
        u64 end = off + n;
        for (u64 gr = off >> 3; gr <= (end - 1) >> 3; ++gr, ++valid) {
            u8 v = *valid;
            if (v != 8) { unsigned last = (unsigned)std::min<u64>(8, end - (gr << 3)); if (last > v) report_heap(a, (unsigned)n, w, pc, v == 0xff ? "?" : "heap"); }
        }
        cells = (u64*)cells_base + (off >> 3) * 4;
    } else {
        u64 lo = (u64)&__data_start, hi = (u64)&_end;
        if (a < lo || a + n > hi) return;
        off = a - (lo & ~7ull);
        cells = (u64*)gcells_base + (off >> 3) * 4;
    }
    if (!g.unjoined) return;     // everything so far is ordered before everything to come
    u64 pos = a, end = a + n;
    while (pos < end) {
        unsigned o = pos & 7; unsigned l = (unsigned)std::min<u64>(8 - o, end - pos);
        check_granule(cells, o, l, w, atomic, pos, pc);
        pos += l; cells += 4;
    }
}

inline void on_access(void* p, unsigned n, bool w, void* pc) {
    Thread* t = me;
    if (!t || t->quiet) return;
    if (++g.steps >= g.choice_at) access_choice();
    check_bytes((u64)p, n, w, false, pc);
}
void on_range(void const* p, u64 n, bool w, void* pc) {
    Thread* t = me;
    if (!t || t->quiet || !n) return;
    if (++g.steps >= g.choice_at) access_choice();
    check_bytes((u64)p, n, w, false, pc);
}

// ---- allocator -------------------------------------------------------------------------------
struct Header { u64 size; u32 cls; std::uint16_t state; std::uint16_t back; };
constexpr std::uint16_t st_live = 0x11fe, st_live_quiet = 0x11fd, st_free = 0xdead;
constexpr u32 cls_new = 1u << 31;                         // allocated by operator new
struct FreeNode { FreeNode* next; };
constexpr int num_classes = 160;
struct FreeList { FreeNode* head; FreeNode* tail; u32 count; } freelists[num_classes];
u64 class_size(int c) {
    if (c < 64) return (u64)(c + 1) * 16 + 32;            // up to 1056
    u64 s = 1056; for (int i = 64; i <= c; ++i) s += ((s / 4) + 15) & ~15ull;
    return s;
}
u64 class_sizes[num_classes];
int size_class(u64 total) {
    int lo = 0, hi = num_classes - 1;
    while (lo < hi) { int m = (lo + hi) / 2; if (class_sizes[m] >= total) hi = m; else lo = m + 1; }
    return lo;
}
void set_valid(u64 a, u64 n) {
    u64 off = a - arena_base; u8* v = (u8*)valid_base + (off >> 3);
    __builtin_memset(v, 8, n >> 3);
    if (n & 7) v[n >> 3] = n & 7;
}
void set_invalid(u64 a, u64 n) {
    u64 off = a - arena_base; __builtin_memset((u8*)valid_base + (off >> 3), 0, (n + 7) >> 3);
}
void clear_cells(u64 a, u64 n) {
    u64 off = a - arena_base; __builtin_memset((u64*)cells_base + (off >> 3) * 4, 0, ((n + 7) >> 3) * 32);
}
bool in_arena(void const* p) { return (u64)p - arena_base < arena_size; }

void* arena_alloc(u64 size, u64 align) {
    u64 extra = align > 16 ? align : 0;
    u64 total = size + extra + 16 + 16;                   // header, red zone
    int c = size_class(total);
    FreeList& fl = freelists[c];
    u64 base;
    u32 keep = c < 64 ? 64 : c < 90 ? 16 : 2;
    if (fl.count > keep) {
        base = (u64)fl.head; fl.head = fl.head->next; if (!fl.head) fl.tail = nullptr; fl.count--;
    } else {
        base = (u64)g.bump; u64 sz = class_sizes[c];
        if (base + sz > arena_base + arena_size) {
            if (!fl.count) end_run(st_harness_error, "arena-full", "");
            base = (u64)fl.head; fl.head = fl.head->next; if (!fl.head) fl.tail = nullptr; fl.count--;
        } else g.bump += sz;
    }
    u64 user = base + 16;
    if (extra) user = (user + align - 1) & ~(align - 1);
    Header* h = (Header*)(user - 16);
    h->size = size; h->cls = (u32)c; h->back = (std::uint16_t)((user - 16 - base) / 16);
    h->state = me && me->quiet ? st_live_quiet : st_live;
    if (h->state == st_live) { g.live_blocks++; g.live_bytes += size; if (me && me->in_new) { h->cls |= cls_new; g.live_new++; } }
    set_valid(user, size); clear_cells(user, size);
    __builtin_memset((void*)user, 0xA5, size < 4096 ? size : 4096); // reads of uninitialised memory repeat exactly
    if (size > 4096) __builtin_memset((void*)(user + 4096), 0xA5, size - 4096);
    return (void*)user;
}
void arena_free(void* p, void* pc) {
    if (!me) return;                                      // a dying real thread
    Header* h = (Header*)((u64)p - 16);
    if (h->state != st_live && h->state != st_live_quiet) {
        char msg[600]; msg[0] = 0; append(msg, sizeof msg, "free of a block that is not allocated (%s); stack", h->state == st_free ? "double free" : "invalid pointer");
        describe_stack(me, msg, sizeof msg);
        end_run(st_violation, "bad-free", msg);
    }
    if (!me->quiet && !me->bypass && h->state == st_live) {
        if (g.unjoined) { u64 n = std::min<u64>(h->size, 1 << 16); if (n) check_bytes((u64)p, n, true, false, pc); }
    }
    if (h->state == st_live) { g.live_blocks--; g.live_bytes -= h->size; if (h->cls & cls_new) g.live_new--; }
    set_invalid((u64)p, h->size);
    h->state = st_free;
    u64 base = (u64)p - 16 - (u64)h->back * 16; int c = (int)(h->cls & ~cls_new);
    // keep the header readable for double free detection: link through the red zone at the end
    FreeNode* n = (FreeNode*)base; 
    n->next = nullptr;                                    // over 'size' of the header: state stays intact at +12
    FreeList& fl = freelists[c];
    if (fl.tail) fl.tail->next = n; else fl.head = n;
    fl.tail = n; fl.count++;
}

bool alloc_fails() {
    if (me->quiet) return false;
    u64 k = g.alloc_seq++;
    if (g.fail_at == ~0ull) return false;
    if (k == g.fail_at || (g.fail_persistent && k > g.fail_at)) {
        g.fail_fired = true; bump_name(g.r->faults, "alloc_failure");
        if (g.plan.trace) { char msg[600]; msg[0] = 0; describe_stack(me, msg, sizeof msg); trace("  allocation %llu fails; stack %s", (unsigned long long)k, msg); }
        fmix(g.hash, 0xa110cfa1 + k);
        return true;
    }
    return false;
}

// ---- threads ---------------------------------------------------------------------------------
Thread* new_thread() {
    if (g.num_threads >= max_threads) end_run(st_harness_error, "too-many-threads", "");
    Thread* t = (Thread*)__libc_calloc(1, sizeof(Thread));
    t->id = g.num_threads; t->state = runnable; t->deadline = no_deadline;
    g.threads[g.num_threads++] = t;
    t->vc.c[t->id] = 1;
    // PCT: a random place among the priorities
    t->prio = g.plan.replay ? 0 : (long)(g.s.below(1000000));
    if (!g.plan.replay && g.strategy == 3) { if (g.s.below(3) == 0) t->stalled_until = g.steps + (1ull << g.s.below(18)); }
    // stack in the arena, so that it has a shadow
    u64 base = ((u64)g.bump + 4095) & ~4095ull; g.bump = (char*)(base + stack_size);
    if ((u64)g.bump > arena_base + arena_size) end_run(st_harness_error, "arena-full", "");
    t->stack = (void*)base;
    set_valid(base, stack_size);
    return t;
}
void run_atexit(Thread* t) {
    while (AtExit* a = t->atexit_list) { t->atexit_list = a->next; a->fn(a->arg); __libc_free(a); }
}
void* trampoline(void* p) {
    Thread* t = (Thread*)p;
    park(&t->go);
    me = t;
    t->ret = t->start(t->arg);
    run_atexit(t);
    sync_point("thread-end", nullptr);
    t->state = finished;
    wake_all(w_join, t);
    dispatch();                      // hands over the baton and returns at once
    me = nullptr;
    return t->ret;
}
void* main_trampoline(void* p) {
    park(&((Thread*)p)->go);
    me = (Thread*)p;
    ((void (*)())me->arg)();
    me->quiet++;
    run_atexit(me);
    for (int i = 1; i < g.num_threads; ++i)
        if (g.threads[i]->state != finished) {
            char msg[1000] = "threads are still alive after the operation returned"; describe_threads(msg, sizeof msg);
            end_run(st_violation, "leaked-thread", msg);
        }
    end_run(st_ok, nullptr, nullptr);
}

Thread* find_thread(pthread_t th) {
    for (int i = 0; i < g.num_threads; ++i) if (pthread_equal(g.threads[i]->real, th) && !g.threads[i]->joined) return g.threads[i];
    return nullptr;
}

// ---- mutex -----------------------------------------------------------------------------------
bool mutex_try(SyncObj* o, bool recursive) {
    if (o->owner < 0) { o->owner = me->id; o->count = 1; hb_acquire(o->vc); return true; }
    if (o->owner == me->id) {
        if (recursive) { o->count++; return true; }
    }
    return false;
}
bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == 1; }
void mutex_acquire(pthread_mutex_t* m) {
    SyncObj* o = obj(m);
    while (!mutex_try(o, is_recursive(m))) {
        if (o->owner == me->id) end_run(st_violation, "deadlock", "thread locks a mutex it already holds");
        block(w_mutex, m, no_deadline);
    }
}
void mutex_release(pthread_mutex_t* m) {
    SyncObj* o = obj(m);
    if (o->owner != me->id) end_run(st_violation, "bad-unlock", "mutex unlocked by a thread which does not hold it");
    if (--o->count == 0) { o->owner = -1; hb_release(o->vc); wake_all(w_mutex, m); }
}
void touch(void* p, bool write) { // synthetic access by a synchronisation operation
    if (!me->quiet) check_bytes((u64)p, 1, write, !write, __builtin_return_address(0));
}

u64 to_ns(timespec const* ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
constexpr u64 mono_base = 1000ull * 1000000000ull;
constexpr std::int64_t wall_base = 1700000000ll * 1000000000ll;
u64 clock_value(clockid_t id) {
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)
        return (u64)(wall_base + (std::int64_t)now() + g.wall_offset);
    return mono_base + now();
}
u64 deadline_from(clockid_t id, timespec const* ts) {
    u64 abs = to_ns(ts), cur = clock_value(id);
    return now() + (abs > cur ? abs - cur : 0);
}
int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    touch(c, false);
    sync_point("cond-wait", c);
    mutex_release(m);
    block(w_cond, c, deadline);
    bool to = me->timed_out;
    if (me->woken) hb_acquire(obj(c)->vc);
    mutex_acquire(m);
    return to ? ETIMEDOUT : 0;
}

[[noreturn]] void on_terminate() {
    char msg[900] = "std::terminate";
    if (auto ep = std::current_exception()) {
        if (me) me->quiet++;
        try { std::rethrow_exception(ep); }
        catch (std::exception const& e) { append(msg, sizeof msg, ": uncaught %s: %s", typeid(e).name(), e.what()); }
        catch (...) { append(msg, sizeof msg, ": uncaught exception"); }
    } else append(msg, sizeof msg, " without an active exception");
    if (me) describe_stack(me, msg, sizeof msg);
    if (g.on) end_run(st_violation, "terminate", msg);
    fprintf(stderr, "%s\n", msg); _exit(70);
}
void on_signal(int sig) {
    char msg[700]; snprintf(msg, sizeof msg, "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGALRM ? "watchdog" : "other");
    if (sig != SIGALRM && me) describe_stack(me, msg, sizeof msg);
    if (g.on) { if (me && sig != SIGALRM) me->quiet++; end_run(st_violation, sig == SIGALRM ? "hang" : "crash", msg); }
    _exit(71);
}

void choose_strategy() {
    g.default_only = false; g.p_sync = g.p_access = g.p_spurious = 0; g.num_changes = 0; g.next_low = -1;
    if (g.plan.replay) { g.strategy = 0; return; }
    u64 k = g.s.below(100);
    static double const ps[] = {0.03, 0.1, 0.25, 0.5};
    static double const pa[] = {0, 0.0003, 0.002, 0.01, 0.05, 0.2};
    g.strategy = k < 8 ? 0 : k < 55 ? 1 : k < 85 ? 2 : 3;
    if (g.strategy == 0) g.p_sync = 0;
    else if (g.strategy == 1 || g.strategy == 3) { g.p_sync = ps[g.s.below(4)]; g.p_access = pa[g.s.below(6)]; }
    else {
        g.num_changes = (int)g.s.below(7);
        u64 span = 1ull << (4 + g.s.below(15));
        for (int i = 0; i < g.num_changes; ++i) g.changes[i] = 1 + g.s.below(span);
    }
    static double const pp[] = {0, 0, 0.01, 0.05, 0.3};
    g.p_spurious = pp[g.s.below(5)];
}

} // namespace

namespace simi {

void rt_init() {
    real.create = real_fn<decltype(real.create)>("pthread_create"); real.join = real_fn<decltype(real.join)>("pthread_join");
    real.detach = real_fn<decltype(real.detach)>("pthread_detach");
    real.cond_wait = real_fn<decltype(real.cond_wait)>("pthread_cond_wait");
    real.cond_timedwait = real_fn<decltype(real.cond_timedwait)>("pthread_cond_timedwait");
    real.cond_signal = real_fn<decltype(real.cond_signal)>("pthread_cond_signal");
    real.cond_broadcast = real_fn<decltype(real.cond_broadcast)>("pthread_cond_broadcast");
    real.cond_destroy = real_fn<decltype(real.cond_destroy)>("pthread_cond_destroy");
    for (int i = 0; i < num_classes; ++i) class_sizes[i] = class_size(i);
    auto map = [](u64 at, u64 size) {
        void* p = mmap((void*)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)at) { perror("mmap"); _exit(72); }
    };
    map(arena_base, arena_size); map(cells_base, arena_size * 4); map(valid_base, arena_size / 8);
    map(gcells_base, (((u64)&_end - (u64)&__data_start) * 4 + 65536) & ~4095ull);
    g.sync = (SyncObj*)mmap(nullptr, sizeof(SyncObj) * sync_table, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}

[[noreturn]] void run_child(Plan const& plan, Result* result, void (*fn)()) {
    g.plan = plan; g.r = result;
    g.w.seed(plan.seed, 1); g.s.seed(plan.seed, 2); g.f.seed(plan.seed, 3);
    g.bump = (char*)arena_base + 4096; g.fail_at = ~0ull; g.start_fail_at = ~0ull; g.choice_at = ~0ull; g.cpus = 4;
    g.hash = 1; g.sync_hash = 1;
    choose_strategy();
    std::set_terminate(on_terminate);
    static char altstack[65536];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    alarm(plan.thorough ? 300 : 120);
    Thread* t = new_thread(); t->arg = (void*)fn;
    pthread_attr_t attr; pthread_attr_init(&attr); pthread_attr_setstack(&attr, t->stack, stack_size);
    g.on = true; g.current = t;
    if (real.create(&t->real, &attr, main_trampoline, t)) _exit(73);
    unpark(&t->go);
    for (;;) pause();
}

} // namespace simi

// ---- public interface ------------------------------------------------------------------------
namespace sim {

static Scenario* scenarios = nullptr;
Scenario::Scenario(char const* p, char const* n, int w, void (*f)()) : property(p), name(n), weight(w), fn(f), next(scenarios) { scenarios = this; }
Scenario* first_scenario() { return scenarios; }

std::uint64_t draw(std::uint64_t n) {
    if (n <= 1) return 0;
    Result* r = g.r; u64 v;
    if (g.plan.replay) { v = g.draw_cursor < g.plan.num_draws ? g.plan.draws[g.draw_cursor] : 0; g.draw_cursor++; if (v >= n) v = n - 1; }
    else v = g.w.below(n);
    if (r->num_draws < max_draws) { r->draws[r->num_draws] = (u32)v; r->draw_n[r->num_draws] = (u32)n; r->num_draws++; } else r->overflow = true;
    fmix(g.hash, 0xd0a0 + v);
    return v;
}
bool fault(char const* kind, unsigned num, unsigned den) {
    Result* r = g.r; u32 k = g.fault_ops++; r->num_fault_ops = g.fault_ops; bool fire = false;
    if (g.plan.replay) {
        while (g.fault_cursor < g.plan.num_faults && g.plan.faults[g.fault_cursor] < k) g.fault_cursor++;
        fire = g.fault_cursor < g.plan.num_faults && g.plan.faults[g.fault_cursor] == k;
    } else fire = g.f.below(den) < num;
    if (fire) {
        if (r->num_faultlog < max_faultlog) r->faultlog[r->num_faultlog++] = k; else r->overflow = true;
        bump_name(r->faults, kind); trace("  fault %s (opportunity %u)", kind, k);
    }
    return fire;
}
void count_fault(char const* kind) { bump_name(g.r->faults, kind); trace("  fault %s", kind); }
void fail_alloc_in(std::uint64_t k, bool persistent) { g.fail_at = g.alloc_seq + k; g.fail_persistent = persistent; g.fail_fired = false; }
bool fail_alloc_off() { bool f = g.fail_fired; g.fail_at = ~0ull; g.fail_persistent = false; g.fail_fired = false; return f; }
void fail_thread_in(std::uint64_t k, bool persistent) { g.start_fail_at = g.start_seq + k; g.start_persistent = persistent; g.start_fired = false; }
bool fail_thread_off() { bool f = g.start_fired; g.start_fail_at = ~0ull; g.start_persistent = false; g.start_fired = false; return f; }
std::uint64_t alloc_seq() { return g.alloc_seq; }
std::uint64_t live_blocks() { return g.live_blocks; }
std::uint64_t live_bytes() { return g.live_bytes; }
std::uint64_t live_new_blocks() { return g.live_new; }
std::uint64_t now_ns() { return now(); }
void advance_ns(std::uint64_t ns) { g.extra_ns += ns; if (me && !me->quiet) expire_timers(); }
void jump_wall_ns(std::int64_t ns) { g.wall_offset += ns; bump_name(g.r->faults, "clock_jump"); trace("  wall clock jumps by %lld ns", (long long)ns); }
std::int64_t wall_ns() { return (std::int64_t)clock_value(CLOCK_REALTIME); }
void yield_point() { if (me && !me->quiet) sync_point("yield", nullptr); }
void sleep_ns(std::uint64_t ns) { sync_point("sleep", nullptr); block(w_sleep, nullptr, now() + ns); }
int self() { return me ? me->id : -1; }
int num_threads_alive() { int n = 0; for (int i = 0; i < g.num_threads; ++i) n += g.threads[i]->state != finished; return n; }
std::uint64_t step() { return g.steps; }
void set_cpus(int n) { g.cpus = n; }
void only_default_schedule(bool on) { g.default_only = on; next_access_choice(); }
void violation(char const* cls, std::string const& m) { if (me) me->quiet++; end_run(st_violation, cls, m.c_str()); }
void harness_error(std::string const& m) { if (me) me->quiet++; end_run(st_harness_error, "harness-error", m.c_str()); }
void soft_finding(char const* id, std::string const& m) {
    Result* r = g.r;
    for (int i = 0; i < r->num_findings; ++i) if (!strcmp(r->findings[i].id, id)) return;
    if (r->num_findings == max_findings) return;
    auto& f = r->findings[r->num_findings++];
    snprintf(f.id, sizeof f.id, "%s", id); snprintf(f.message, sizeof f.message, "%s", m.c_str());
}
void event(std::string const& text) { for (char c : text) fmix(g.hash, (u8)c); trace("[%llu] %d: %s", (unsigned long long)g.steps, me ? me->id : -1, text.c_str()); }
void mix(std::uint64_t v) { fmix(g.hash, v); }
void probe(char const* name) { bump_name(g.r->probes, name); }
void nontrivial() { g.r->nontrivial = true; }
void describe(std::string const& t) { snprintf(g.r->describe, sizeof g.r->describe, "%s", t.c_str()); trace("workload: %s", t.c_str()); }
bool thorough() { return g.plan.thorough; }
bool tracing() { return g.plan.trace; }
Quiet::Quiet() { if (me) me->quiet++; }
Quiet::~Quiet() { if (me) me->quiet--; }
Loud::Loud() : saved(me ? me->quiet : 0) { if (me) me->quiet = 0; }
Loud::~Loud() { if (me) me->quiet = saved; }

} // namespace sim

// ---- interposed functions --------------------------------------------------------------------
void* operator new(std::size_t n) {
    Thread* t = me;
    if (t) t->in_new = true;
    void* p = malloc(n ? n : 1);
    if (t) t->in_new = false;
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }

extern "C" {

void* malloc(size_t n) {
    if (!active()) return __libc_malloc(n);
    if (alloc_fails()) { errno = ENOMEM; return nullptr; }
    if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    return arena_alloc(n, 16);
}
void free(void* p) {
    if (!p) return;
    if (in_arena(p)) arena_free(p, __builtin_return_address(0)); else __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    if (!active()) return __libc_calloc(a, b);
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = malloc(n); if (p) __builtin_memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!in_arena(p)) {
        if (!active()) return __libc_realloc(p, n);
        return __libc_realloc(p, n);
    }
    if (!n) { free(p); return nullptr; }
    Header* h = (Header*)((u64)p - 16); u64 old = h->size;
    void* q = malloc(n); if (!q) return nullptr;
    __builtin_memcpy(q, p, std::min<u64>(old, n)); free(p); return q;
}
void* memalign(size_t al, size_t n) {
    if (!active()) return __libc_memalign(al, n);
    if (alloc_fails() || n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    return arena_alloc(n, al < 16 ? 16 : al);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *out = p; return 0; }
size_t malloc_usable_size(void* p) { if (!p) return 0; if (in_arena(p)) return ((Header*)((u64)p - 16))->size; return 0; }

int pthread_create(pthread_t* out, pthread_attr_t const* attr, void* (*start)(void*), void* arg) {
    if (!active()) { static auto f = real_fn<decltype(real.create)>("pthread_create"); return f(out, attr, start, arg); }
    sync_point("thread-create", nullptr);
    u64 k = g.start_seq++;
    if (g.start_fail_at != ~0ull && (k == g.start_fail_at || (g.start_persistent && k > g.start_fail_at))) {
        g.start_fired = true; bump_name(g.r->faults, "thread_start_failure");
        return EAGAIN;
    }
    Thread* t = new_thread(); t->start = start; t->arg = arg;
    t->vc.join(me->vc); me->vc.c[me->id]++;
    me->bypass++;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t->stack, stack_size);
    if (real.create(&t->real, &a, trampoline, t)) end_run(st_harness_error, "pthread_create", "");
    pthread_attr_destroy(&a);
    me->bypass--;
    *out = t->real; g.unjoined++;
    next_access_choice();
    g.steps++;
    maybe_preempt(true);
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    if (!active()) { static auto f = real_fn<decltype(real.join)>("pthread_join"); return f(th, ret); }
    sync_point("join", nullptr);
    Thread* t = find_thread(th);
    if (!t || t->detached) return ESRCH;
    if (t == me) return EDEADLK;
    while (t->state != finished) block(w_join, t, no_deadline);
    hb_acquire(t->vc);
    t->joined = true; g.unjoined--;
    me->bypass++; void* r = nullptr; real.join(th, &r); me->bypass--;
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t th) {
    if (!active()) { static auto f = real_fn<decltype(real.detach)>("pthread_detach"); return f(th); }
    sync_point("detach", nullptr);
    Thread* t = find_thread(th); if (!t) return ESRCH;
    t->detached = true; return 0;
}
int sched_yield(void) {
    if (!active()) return (int)raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    if (g.strategy == 2 && !g.plan.replay) me->prio = --g.next_low;
    // a yielding thread really lets the others run, otherwise spinning never ends
    sync_point("sched-yield", nullptr);
    if (count_runnable(me)) { me->state = runnable; Thread* t = next_in_turn(); if (t != me) handoff(t); }
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) { if (g.on) return 0; if (!real.mutex_lock) real.mutex_lock = real_fn<decltype(real.mutex_lock)>("pthread_mutex_lock"); return real.mutex_lock(m); }
    touch(m, false);
    sync_point("lock", m);
    mutex_acquire(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) { if (g.on) return 0; if (!real.mutex_trylock) real.mutex_trylock = real_fn<decltype(real.mutex_trylock)>("pthread_mutex_trylock"); return real.mutex_trylock(m); }
    touch(m, false);
    sync_point("trylock", m);
    return mutex_try(obj(m), is_recursive(m)) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* ts) {
    sync_point("timedlock", m);
    u64 d = deadline_from(CLOCK_REALTIME, ts);
    while (!mutex_try(obj(m), is_recursive(m))) { block(w_mutex, m, d); if (me->timed_out) return ETIMEDOUT; }
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t id, timespec const* ts) {
    sync_point("timedlock", m);
    u64 d = deadline_from(id, ts);
    while (!mutex_try(obj(m), is_recursive(m))) { block(w_mutex, m, d); if (me->timed_out) return ETIMEDOUT; }
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) { if (g.on) return 0; if (!real.mutex_unlock) real.mutex_unlock = real_fn<decltype(real.mutex_unlock)>("pthread_mutex_unlock"); return real.mutex_unlock(m); }
    touch(m, false);
    sync_point("unlock", m);
    mutex_release(m); return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active()) return real.cond_wait(c, m);
    return cond_wait_impl(c, m, no_deadline);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts) {
    if (!active()) return real.cond_timedwait(c, m, ts);
    return cond_wait_impl(c, m, deadline_from((c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, timespec const* ts) {
    return cond_wait_impl(c, m, deadline_from(id, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) return real.cond_signal(c);
    touch(c, false);
    sync_point("notify-one", c);
    if (Thread* t = pick_waiter(w_cond, c)) wake(t, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) return real.cond_broadcast(c);
    touch(c, false);
    sync_point("notify-all", c);
    wake_all(w_cond, c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!active()) { if (real.cond_destroy) return real.cond_destroy(c); return 0; }
    touch(c, true);
    sync_point("cond-destroy", c);
    for (int i = 0; i < g.num_threads; ++i) {
        Thread* t = g.threads[i];
        if (t->state == blocked && t->wait == w_cond && t->wait_addr == c)
            end_run(st_violation, "cond-destroyed-with-waiters", "a condition variable is destroyed while a thread waits on it");
    }
    return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!active()) { if (!real.rd) real.rd = real_fn<decltype(real.rd)>("pthread_rwlock_rdlock"); return real.rd(l); }
    sync_point("rdlock", l); SyncObj* o = obj(l);
    while (o->owner >= 0) block(w_rwlock, l, no_deadline);
    o->count++; hb_acquire(o->vc); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!active()) { if (!real.wr) real.wr = real_fn<decltype(real.wr)>("pthread_rwlock_wrlock"); return real.wr(l); }
    sync_point("wrlock", l); SyncObj* o = obj(l);
    while (o->owner >= 0 || o->count > 0) block(w_rwlock, l, no_deadline);
    o->owner = me->id; hb_acquire(o->vc); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (!active()) { if (!real.tryrd) real.tryrd = real_fn<decltype(real.tryrd)>("pthread_rwlock_tryrdlock"); return real.tryrd(l); }
    sync_point("tryrdlock", l); SyncObj* o = obj(l); if (o->owner >= 0) return EBUSY; o->count++; hb_acquire(o->vc); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (!active()) { if (!real.trywr) real.trywr = real_fn<decltype(real.trywr)>("pthread_rwlock_trywrlock"); return real.trywr(l); }
    sync_point("trywrlock", l); SyncObj* o = obj(l); if (o->owner >= 0 || o->count > 0) return EBUSY; o->owner = me->id; hb_acquire(o->vc); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!active()) { if (!real.rwun) real.rwun = real_fn<decltype(real.rwun)>("pthread_rwlock_unlock"); return real.rwun(l); }
    sync_point("rwunlock", l); SyncObj* o = obj(l);
    if (o->owner == me->id) o->owner = -1; else o->count--;
    hb_release(o->vc); wake_all(w_rwlock, l); return 0;
}

int sem_wait(sem_t* s) {
    sync_point("sem-wait", s); int* v = (int*)s;
    while (*v <= 0) block(w_sem, s, no_deadline);
    --*v; hb_acquire(obj(s)->vc); return 0;
}
int sem_trywait(sem_t* s) {
    sync_point("sem-trywait", s); int* v = (int*)s;
    if (*v <= 0) { errno = EAGAIN; return -1; }
    --*v; hb_acquire(obj(s)->vc); return 0;
}
int sem_post(sem_t* s) {
    sync_point("sem-post", s); hb_release(obj(s)->vc); ++*(int*)s; wake_all(w_sem, s); return 0;
}
int sem_init(sem_t* s, int, unsigned v) { *(int*)s = (int)v; return 0; }
int sem_destroy(sem_t*) { return 0; }

int pthread_once(pthread_once_t* ctl, void (*fn)()) {
    if (!active()) { if (!real.once) real.once = real_fn<decltype(real.once)>("pthread_once"); return real.once(ctl, fn); }
    sync_point("once", ctl); SyncObj* o = obj(ctl);
    while (*ctl == 1) block(w_once, ctl, no_deadline);
    if (*ctl == 2) { hb_acquire(o->vc); return 0; }
    *ctl = 1;
    try { fn(); } catch (...) { *ctl = 0; wake_all(w_once, ctl); throw; }
    *ctl = 2; hb_release(o->vc); wake_all(w_once, ctl); return 0;
}

// futex-based synchronisation of libstdc++ (guards of local statics, std::future, std::atomic::wait)
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active()) {
        int op = (int)b & 127; void* addr = (void*)a;
        sync_point("futex", addr);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(int volatile*)addr != (int)c) { errno = EAGAIN; return -1; }
            u64 dl = no_deadline;
            if (d) { auto ts = (timespec const*)d; dl = op == FUTEX_WAIT ? now() + to_ns(ts) : deadline_from(b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts); }
            block(w_futex, addr, dl);
            hb_acquire(obj(addr)->vc);
            if (me->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            hb_release(obj(addr)->vc);
            long k = 0; for (; k < c; ++k) { Thread* t = pick_waiter(w_futex, addr); if (!t) break; wake(t, false); }
            return k;
        }
        errno = ENOSYS; return -1;
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

int clock_gettime(clockid_t id, timespec* ts) noexcept {
    if (!active()) { if (!real.clock_gettime) real.clock_gettime = real_fn<decltype(real.clock_gettime)>("clock_gettime"); return real.clock_gettime(id, ts); }
    if (!me->quiet) g.steps++;
    u64 v = clock_value(id); ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull); return 0;
}
int gettimeofday(timeval* tv, void* tz) noexcept {
    if (!active()) { if (!real.gettimeofday) real.gettimeofday = real_fn<decltype(real.gettimeofday)>("gettimeofday"); return real.gettimeofday(tv, tz); }
    u64 v = clock_value(CLOCK_REALTIME); tv->tv_sec = (time_t)(v / 1000000000ull); tv->tv_usec = (suseconds_t)(v % 1000000000ull / 1000); return 0;
}
time_t time(time_t* out) noexcept {
    if (!active()) { if (!real.time) real.time = real_fn<decltype(real.time)>("time"); return real.time(out); }
    time_t v = (time_t)(clock_value(CLOCK_REALTIME) / 1000000000ull); if (out) *out = v; return v;
}
clock_t clock(void) noexcept { return (clock_t)(now() / 1000); }
int nanosleep(timespec const* ts, timespec* rem) {
    if (!active()) { if (!real.nanosleep) real.nanosleep = real_fn<decltype(real.nanosleep)>("nanosleep"); return real.nanosleep(ts, rem); }
    sync_point("sleep", nullptr); block(w_sleep, nullptr, now() + to_ns(ts)); return 0;
}
int clock_nanosleep(clockid_t id, int flags, timespec const* ts, timespec* rem) {
    if (!active()) { if (!real.clock_nanosleep) real.clock_nanosleep = real_fn<decltype(real.clock_nanosleep)>("clock_nanosleep"); return real.clock_nanosleep(id, flags, ts, rem); }
    sync_point("sleep", nullptr); block(w_sleep, nullptr, flags & TIMER_ABSTIME ? deadline_from(id, ts) : now() + to_ns(ts)); return 0;
}
int get_nprocs(void) noexcept { if (active()) return g.cpus; if (!real.get_nprocs) real.get_nprocs = real_fn<decltype(real.get_nprocs)>("get_nprocs"); return real.get_nprocs(); }

int __cxa_thread_atexit(void (*fn)(void*), void* arg, void* dso) noexcept {
    if (!active()) { static auto f = real_fn<decltype(real.cxa_thread_atexit)>("__cxa_thread_atexit"); return f(fn, arg, dso); }
    AtExit* a = (AtExit*)__libc_malloc(sizeof(AtExit)); a->fn = fn; a->arg = arg; a->next = me->atexit_list; me->atexit_list = a; return 0;
}
void abort(void) noexcept {
    if (g.on && me) { me->quiet++; char msg[500] = "abort()"; describe_stack(me, msg, sizeof msg); end_run(st_violation, "abort", msg); }
    signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
void __assert_fail(char const* e, char const* file, unsigned line, char const* fn) noexcept {
    char msg[900]; snprintf(msg, sizeof msg, "assertion failed: %s (%s:%u %s)", e, file, line, fn ? fn : "");
    if (g.on && me) { me->quiet++; end_run(st_violation, "assert", msg); }
    fprintf(stderr, "%s\n", msg); _exit(134);
}

// ---- memory functions called from instrumented code (linked with --wrap) ---------------------
void* __wrap_memcpy(void* d, void const* s, size_t n) { void* pc = __builtin_return_address(0); on_range(s, n, false, pc); on_range(d, n, true, pc); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, size_t n) { void* pc = __builtin_return_address(0); on_range(s, n, false, pc); on_range(d, n, true, pc); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { on_range(d, n, true, __builtin_return_address(0)); return __real_memset(d, v, n); }

// ---- instrumentation callbacks ---------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thread* t = me; if (t) { if (t->depth < 64) t->callstack[t->depth] = pc; t->depth++; } }
void __tsan_func_exit() { Thread* t = me; if (t && t->depth > 0) t->depth--; }
#define RW(N) \
    void __tsan_read##N(void* p) { on_access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { on_access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { on_access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { on_access(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { on_access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { on_access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { on_access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { on_access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { on_range(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { on_range(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) on_access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { on_access(p, 8, false, PC); }

} // extern "C"

namespace {
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
inline bool atomic_begin(void volatile* p, unsigned n, bool w, void* pc) {
    Thread* t = me;
    if (!t || t->quiet) return false;
    if (++g.steps >= g.choice_at) access_choice();
    check_bytes((u64)p, n, w, true, pc);
    return true;
}
inline void after_load(void volatile* p, int mo) {
    SyncObj* o = obj((void*)p);
    if (acq(mo)) me->vc.join(o->vc); else me->acq_pending.join(o->vc);
}
inline void before_store(void volatile* p, int mo, bool rmw) {
    SyncObj* o = obj((void*)p);
    if (rel(mo)) { if (rmw) hb_release(o->vc); else hb_release_store(o->vc); }
    else if (me->has_rel_fence) { if (rmw) o->vc.join(me->rel_fence); else o->vc = me->rel_fence; }
    else if (!rmw) o->vc = VC{};
}
template<class T> T a_load(T volatile const* p, int mo, void* pc) {
    bool on = atomic_begin((void volatile*)p, sizeof(T), false, pc);
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (on) after_load((void volatile*)p, mo); return v;
}
template<class T> void a_store(T volatile* p, T v, int mo, void* pc) {
    if (atomic_begin(p, sizeof(T), true, pc)) before_store(p, mo, false);
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
}
template<class T, class F> T a_rmw(T volatile* p, int mo, void* pc, F f) {
    if (atomic_begin(p, sizeof(T), true, pc)) { after_load(p, mo); before_store(p, mo, true); }
    return f();
}
template<class T> bool a_cas(T volatile* p, T* c, T v, int mo, int fmo, void* pc) {
    bool on = atomic_begin(p, sizeof(T), true, pc);
    T expected = *c;
    bool ok = __atomic_compare_exchange_n(p, &expected, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    if (on) { if (ok) { after_load(p, mo); before_store(p, mo, true); } else after_load(p, fmo); }
    if (!ok) *c = expected;
    return ok;
}
} // namespace

extern "C" {
#define ATOMICS(B, T) \
    T __tsan_atomic##B##_load(T volatile const* p, int mo) { return a_load<T>(p, mo, PC); } \
    void __tsan_atomic##B##_store(T volatile* p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    T __tsan_atomic##B##_exchange(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&] { return __atomic_exchange_n(p, v, 5); }); } \
    T __tsan_atomic##B##_fetch_add(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&] { return __atomic_fetch_add(p, v, 5); }); } \
    T __tsan_atomic##B##_fetch_sub(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&] { return __atomic_fetch_sub(p, v, 5); }); } \
    T __tsan_atomic##B##_fetch_and(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&] { return __atomic_fetch_and(p, v, 5); }); } \
    T __tsan_atomic##B##_fetch_or(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&] { return __atomic_fetch_or(p, v, 5); }); } \
    T __tsan_atomic##B##_fetch_xor(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&] { return __atomic_fetch_xor(p, v, 5); }); } \
    T __tsan_atomic##B##_fetch_nand(T volatile* p, T v, int mo) { return a_rmw<T>(p, mo, PC, [&] { return __atomic_fetch_nand(p, v, 5); }); } \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile* p, T* c, T v, int mo, int fmo) { return a_cas<T>(p, c, v, mo, fmo, PC); } \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile* p, T* c, T v, int mo, int fmo) { return a_cas<T>(p, c, v, mo, fmo, PC); } \
    T __tsan_atomic##B##_compare_exchange_val(T volatile* p, T c, T v, int mo, int fmo) { a_cas<T>(p, &c, v, mo, fmo, PC); return c; }
ATOMICS(8, std::uint8_t) ATOMICS(16, std::uint16_t) ATOMICS(32, std::uint32_t) ATOMICS(64, std::uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!active() || me->quiet) return;
    if (acq(mo)) me->vc.join(me->acq_pending);
    if (rel(mo)) { me->rel_fence = me->vc; me->has_rel_fence = true; me->vc.c[me->id]++; }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
