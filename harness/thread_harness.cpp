// C01-C04, C17: the threading primitives of cppcore (detail/thread.hpp), run on simulated threads.
#include "../sim/sim.hpp"
#include <algorithm>
#include <condition_variable>
#include <cstdint>
#include <deque>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <vector>
#include "detail/config.hpp"
#include "detail/thread.hpp"

namespace {

std::string S(std::uint64_t v) { return std::to_string(v); }

// Waits on simulated threads; a wait which can never end shows up as a deadlock
struct Latch {
    std::mutex m; std::condition_variable cv; std::size_t count = 0;
    void arrive() { { std::lock_guard<std::mutex> lk(m); ++count; } cv.notify_all(); }
    void wait_for(std::size_t n) { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [&] { return count >= n; }); }
    void arrive_and_wait(std::size_t n) { arrive(); wait_for(n); }
};

// A job which takes a while: some preemption points, sometimes a stall in simulated time
struct Delay {
    unsigned yields; unsigned sleep_us;
    static Delay make(unsigned kind) {
        Delay d{0, 0};
        if (kind == 0) return d;
        auto k = sim::draw(8);
        if (k < 3) d.yields = static_cast<unsigned>(sim::draw(4));
        else if (k == 3) d.sleep_us = 1 + static_cast<unsigned>(sim::draw(5));
        else if (k == 4 && kind > 1) d.sleep_us = 50 + static_cast<unsigned>(sim::draw(2000));
        return d;
    }
    void operator()() const {
        for (unsigned i = 0; i < yields; ++i) sim::yield_point();
        if (sleep_us) { if (sleep_us >= 50) sim::count_fault("stalled_stage"); sim::sleep_ns(1000ull * sleep_us); }
    }
};

// What the jobs carry between the stages: plain memory, so that a missing ordering is a data race
struct Payload { std::uint64_t id, produced, computed; };
std::uint64_t f1(std::uint64_t id) { return id * 7919 + 13; }
std::uint64_t f2(std::uint64_t v) { return v * 31 + 5; }

// Two kinds of job values: a handle to shared memory, and a value which lives in the queue itself
struct HandleValue {
    std::shared_ptr<Payload> p;
    static HandleValue make(std::size_t id) { HandleValue v; v.p = std::make_shared<Payload>(); v.p->id = id; v.p->produced = f1(id); v.p->computed = 0; return v; }
    void compute() { p->computed = f2(p->produced); }
    Payload read() const { return *p; }
};
struct InlineValue {
    std::vector<std::uint64_t> d;
    static InlineValue make(std::size_t id) { InlineValue v; v.d = {id, f1(id), 0}; return v; }
    void compute() { d[2] = f2(d[1]); }
    Payload read() const { return d.size() == 3 ? Payload{d[0], d[1], d[2]} : Payload{~0ull, 0, 0}; }
};

struct Config {
    std::size_t size, threads, queue;
    unsigned slow_produce, slow_compute, slow_retire;
    std::size_t bound() const { return (queue > 0 ? queue : threads) + threads; }
    static Config make(std::size_t max_size) {
        Config c;
        c.size = sim::draw(4) == 0 ? sim::draw(3) : sim::draw(max_size + 1);
        c.threads = 1 + sim::draw(sim::thorough() ? 7 : 5);
        c.queue = sim::draw(5);
        if (sim::flip(1, 48)) { c.size = sim::draw(300); c.threads = 1 + sim::draw(12); c.queue = sim::draw(130); sim::probe("large_loop"); }
        c.slow_produce = static_cast<unsigned>(sim::draw(3)); c.slow_compute = static_cast<unsigned>(sim::draw(3)); c.slow_retire = static_cast<unsigned>(sim::draw(3));
        return c;
    }
    std::string text() const { return "parallel_for size=" + S(size) + " threads=" + S(threads) + " queue=" + S(queue); }
};

struct JobLog { int produced = 0, computed = 0, retired = 0; bool compute_done = false; };

template<class Value>
void pipeline(Config const& c, bool rendezvous) {
    sim::describe(c.text() + (rendezvous ? " rendezvous" : ""));
    std::vector<JobLog> log; std::vector<Delay> dp, dc, dr; std::size_t next_id = 0; int in_produce = 0, in_retire = 0; std::size_t retired = 0; int overlap = 0, max_overlap = 0;
    int producer_thread = -1; bool returned = false;
    { sim::Quiet q; log.resize(c.size);
      for (std::size_t i = 0; i < c.size; ++i) { dp.push_back(Delay::make(c.slow_produce)); dc.push_back(Delay::make(c.slow_compute)); dr.push_back(Delay::make(c.slow_retire)); } }
    std::size_t const group = std::min(c.threads, c.size);
    Latch latch;
    if (c.size > 1 && c.threads > 1) sim::nontrivial();

    cpb::parallel_for(c.size, c.threads, c.queue,
        [&](std::size_t id) {
            {   sim::Quiet q;
                if (returned) sim::violation("late-call", "produce called after the loop returned");
                if (id != next_id) sim::violation("produce-order", "produce called with id " + S(id) + ", expected " + S(next_id));
                if (id >= c.size) sim::violation("produce-range", "produce called with id " + S(id) + " of " + S(c.size));
                if (producer_thread < 0) producer_thread = sim::self();
                if (producer_thread != sim::self()) sim::violation("produce-thread", "jobs produced by different threads");
                if (in_produce++) sim::violation("produce-overlap", "two produce calls overlap");
                ++next_id; ++log[id].produced; sim::event("produce " + S(id));
            }
            dp[id]();
            auto v = Value::make(id);
            { sim::Quiet q; --in_produce; }
            return v;
        },
        [&](Value& v) {
            auto const p = v.read(); // loud: must be ordered after produce
            {   sim::Quiet q;
                if (returned) sim::violation("late-call", "compute called after the loop returned");
                if (p.id >= c.size || !log[p.id].produced || p.produced != f1(p.id)) sim::violation("compute-input", "compute got a job which was not produced: id " + S(p.id));
                if (log[p.id].computed++) sim::violation("computed-twice", "job " + S(p.id) + " computed twice");
                sim::event("compute " + S(p.id)); max_overlap = std::max(max_overlap, ++overlap);
            }
            if (rendezvous && p.id < group) latch.arrive_and_wait(group);
            dc[p.id]();
            v.compute();
            { sim::Quiet q; log[p.id].compute_done = true; --overlap; }
        },
        [&](Value v, std::size_t id) {
            auto const p = v.read();
            {   sim::Quiet q;
                if (returned) sim::violation("late-call", "retire called after the loop returned");
                if (id >= c.size || p.id != id) sim::violation("retire-id", "retire got id " + S(id) + " with the value of job " + S(p.id));
                if (!log[id].compute_done || p.computed != f2(f1(id))) sim::violation("retire-value", "job " + S(id) + " retired without its computed value");
                if (log[id].retired++) sim::violation("retired-twice", "job " + S(id) + " retired twice");
                if (in_retire++) sim::violation("retire-overlap", "two retire calls overlap");
                sim::event("retire " + S(id)); ++retired;
            }
            dr[id]();
            { sim::Quiet q; --in_retire; }
        });
    {   sim::Quiet q; returned = true;
        for (std::size_t i = 0; i < c.size; ++i)
            if (log[i].produced != 1 || log[i].computed != 1 || log[i].retired != 1)
                sim::violation("job-lost", "job " + S(i) + ": produced " + S(log[i].produced) + ", computed " + S(log[i].computed) + ", retired " + S(log[i].retired) + " times");
        if (in_produce || in_retire || overlap) sim::violation("returned-early", "the loop returned while a stage was still running");
        if (max_overlap > 1) sim::probe("computations_overlapped");
        if (max_overlap > (int)c.threads) sim::violation("too-many-workers", "more computations at once than threads");
        if (c.size == 0) sim::probe("empty_loop");
        if (c.size && c.size < c.threads) sim::probe("fewer_jobs_than_threads");
        if (c.size > c.bound()) sim::probe("more_jobs_than_fit_in_memory");
        log.clear(); log.shrink_to_fit();
    }
}

} // namespace

SCENARIO(C01, pipeline, 5) {
    auto c = Config::make(sim::thorough() ? 20 : 9);
    if (sim::flip()) pipeline<HandleValue>(c, false); else pipeline<InlineValue>(c, false);
}
SCENARIO(C01, rendezvous, 1) { // computations of different jobs do not wait for each other
    auto c = Config::make(8);
    pipeline<HandleValue>(c, true);
}
SCENARIO(C01, nested, 1) { // a loop inside a job of another loop, two loops after each other
    auto n = 1 + sim::draw(3), m = sim::draw(4), t = 1 + sim::draw(2);
    sim::describe("nested loops " + S(n) + "x" + S(m) + " threads " + S(t)); sim::nontrivial();
    std::vector<std::uint64_t> sums; { sim::Quiet q; sums.assign(n, 0); }
    for (int round = 0; round < 2; ++round)
        cpb::parallel_for(n, t, 1,
            [&](std::size_t id) { return std::vector<std::uint64_t>{id, 0}; },
            [&](std::vector<std::uint64_t>& v) {
                std::uint64_t sum = 0;
                cpb::parallel_for(m, t, 0, [&](std::size_t i) { return f1(i); }, [&](std::uint64_t& x) { x = f2(x); }, [&](std::uint64_t x, std::size_t i) { sum += x * (i + 1); });
                v[1] = sum + v[0];
            },
            [&](std::vector<std::uint64_t> v, std::size_t id) { sums[id] += v[1]; });
    sim::Quiet q; std::uint64_t expect = 0;
    for (std::uint64_t i = 0; i < m; ++i) expect += f2(f1(i)) * (i + 1);
    for (std::uint64_t i = 0; i < n; ++i) if (sums[i] != 2 * (expect + i)) sim::violation("retire-value", "nested loop result differs");
    sums.clear(); sums.shrink_to_fit();
}

// ---- C02 -------------------------------------------------------------------------------------
namespace {
struct Counted { // counts job values which exist, wherever they are kept
    static int alive; bool on = false; std::size_t id = 0; char large[200] = {};   // so large that queues allocate memory while they are in use
    Counted() = default;
    explicit Counted(std::size_t id) : on(true), id(id) { sim::Quiet q; ++alive; }
    Counted(Counted&& o) noexcept : on(o.on), id(o.id) { o.on = false; }
    Counted(Counted const& o) : on(false), id(o.id) {}
    Counted& operator=(Counted&& o) noexcept { drop(); on = o.on; id = o.id; o.on = false; return *this; }
    Counted& operator=(Counted const& o) { drop(); id = o.id; return *this; }
    ~Counted() { drop(); }
    void drop() { sim::Quiet q; if (on) --alive; on = false; }
};
int Counted::alive = 0;
} // namespace

SCENARIO(C02, bound, 4) {
    auto c = Config::make(sim::thorough() ? 24 : 14);
    sim::describe(c.text() + " delays " + S(c.slow_produce) + S(c.slow_compute) + S(c.slow_retire));
    std::vector<Delay> dp, dc, dr;
    { sim::Quiet q; for (std::size_t i = 0; i < c.size; ++i) { dp.push_back(Delay::make(c.slow_produce)); dc.push_back(Delay::make(c.slow_compute)); dr.push_back(Delay::make(c.slow_retire)); } }
    std::size_t started = 0, retired = 0, peak = 0; Counted::alive = 0;
    if (c.size > c.bound()) sim::nontrivial();
    cpb::parallel_for(c.size, c.threads, c.queue,
        [&](std::size_t id) {
            { sim::Quiet q; ++started; auto n = started - retired; peak = std::max(peak, n); sim::event("produce, in memory " + S(n));
              if (n > c.bound()) sim::violation("memory-bound", S(n) + " jobs are in memory at once, allowed are queue size + threads = " + S(c.bound())); }
            dp[id]();
            return Counted(id);
        },
        [&](Counted& v) { dc[v.id](); },
        [&](Counted v, std::size_t id) { dr[id](); { v = Counted{}; } sim::Quiet q; ++retired; });
    sim::Quiet q;
    if (peak == c.bound()) sim::probe("bound_reached");
    dp = {}; dc = {}; dr = {};
}
SCENARIO(C02, stalled_workers, 2) { // the producer runs ahead up to the bound
    auto c = Config::make(10);
    std::size_t const ahead = std::min(c.size, c.bound());
    sim::describe(c.text() + " stalled workers; producer must get " + S(ahead) + " jobs ahead"); if (ahead > 1) sim::nontrivial();
    Latch produced; std::size_t started = 0, retired = 0; std::size_t max_ahead = 0;
    cpb::parallel_for(c.size, c.threads, c.queue,
        [&](std::size_t) {
            { sim::Quiet q; ++started; max_ahead = std::max(max_ahead, started - retired);
              if (started - retired > c.bound()) sim::violation("memory-bound", S(started - retired) + " jobs are in memory at once, allowed are " + S(c.bound())); }
            produced.arrive(); return int{1};
        },
        [&](int&) { produced.wait_for(ahead); },
        [&](int, std::size_t) { sim::Quiet q; ++retired; });
    sim::Quiet q; if (max_ahead == c.bound()) sim::probe("bound_reached");
}
SCENARIO(C02, stalled_retire, 2) { // a reporter which is stuck on the first job until everything else stands still
    auto c = Config::make(14);
    sim::describe(c.text() + " stalled retire stage"); if (c.size > c.bound()) sim::nontrivial();
    std::size_t started = 0, retired = 0;
    cpb::parallel_for(c.size, c.threads, c.queue,
        [&](std::size_t) { sim::Quiet q; ++started;
            if (started - retired > c.bound()) sim::violation("memory-bound", S(started - retired) + " jobs are in memory at once, allowed are " + S(c.bound()));
            return int{1}; },
        [&](int&) {},
        [&](int, std::size_t) { sim::count_fault("stalled_stage"); sim::sleep_ns(50 * 1000000ull); sim::Quiet q; ++retired; });
}

// ---- C03 -------------------------------------------------------------------------------------
SCENARIO(C03, pool, 5) {
    auto workers = 1 + sim::draw(sim::thorough() ? 6 : 4); auto tasks = sim::draw(sim::thorough() ? 16 : 9);
    if (sim::flip(1, 48)) { workers = 1 + sim::draw(12); tasks = sim::draw(300); sim::probe("large_pool"); }
    auto const adders = sim::draw(3); auto const how = sim::draw(4); auto const slow = static_cast<unsigned>(sim::draw(3));
    sim::describe("pool workers=" + S(workers) + " tasks=" + S(tasks) + " extra adders=" + S(adders) + " end=" + S(how));
    struct Log { int started = 0, finished = 0; };
    std::vector<Log> log; std::vector<Delay> delay; std::vector<std::uint64_t> data; std::size_t running = 0, added = 0, finished = 0, peak = 0; bool ended = false;
    int const caller = sim::self();
    { sim::Quiet q; log.resize(tasks + adders * 2); data.assign(log.size(), 0); for (std::size_t i = 0; i < log.size(); ++i) delay.push_back(Delay::make(slow)); }
    if (workers > 1 && tasks > 1) sim::nontrivial();
    std::mutex add_mutex; // serialises the order of adding, so that it is known
    auto task = [&](std::size_t i, bool ordered) {
        return [&, i, ordered] {
            {   sim::Quiet q;
                if (ended) sim::violation("late-task", "task runs after the pool was joined");
                if (sim::self() == caller) sim::violation("wrong-thread", "task runs on the calling thread");
                if (log[i].started++) sim::violation("task-twice", "task " + S(i) + " started twice");
                if (++running > workers) sim::violation("too-many-workers", "more tasks at once than workers");
                peak = std::max<std::size_t>(peak, running);
                if (ordered) { // earlier tasks have been taken: at most workers - 1 of them may not have started yet
                    std::size_t skipped = 0; for (std::size_t k = 0; k < i; ++k) skipped += !log[k].started;
                    if (skipped > workers - 1) sim::violation("task-order", "task " + S(i) + " starts before " + S(skipped) + " earlier tasks");
                }
                sim::event("start task " + S(i));
            }
            delay[i]();
            data[i] = f1(i); // loud: must be visible after join
            { sim::Quiet q; --running; ++log[i].finished; ++finished; }
        };
    };
    {
        cpb::ThreadPool pool(static_cast<cpb::idx_t>(workers));
        std::vector<std::thread> others;
        for (std::size_t a = 0; a < adders; ++a)
            others.emplace_back([&, a] { for (std::size_t k = 0; k < 2; ++k) { pool.add(task(tasks + a * 2 + k, false)); sim::Quiet q; ++added; } });
        for (std::size_t i = 0; i < tasks; ++i) {
            if (sim::flip()) { auto t = task(i, adders == 0); pool.add(t); } else pool.add(task(i, adders == 0));
            sim::Quiet q; ++added;
        }
        for (auto& o : others) o.join();
        auto check = [&] {
            for (std::size_t i = 0; i < log.size(); ++i) { if (data[i] != f1(i)) { sim::Quiet q; sim::violation("task-lost", "join returned before task " + S(i) + " finished"); } }
            sim::Quiet q; if (finished != log.size() || running) sim::violation("task-lost", "join returned with " + S(log.size() - finished) + " tasks unfinished");
            ended = true;
        };
        if (how == 0) { pool.join(); check(); }
        if (how == 1) { pool.join(); check(); pool.join(); pool.join(); sim::probe("joined_again"); }
        if (how >= 2) sim::probe("ended_by_destructor");
        if (how == 0) sim::probe("join_then_destructor");
    }
    for (std::size_t i = 0; i < log.size(); ++i) { if (data[i] != f1(i)) { sim::Quiet q; sim::violation("task-lost", "the pool ended before task " + S(i) + " finished"); } }
    sim::Quiet q; ended = true;
    for (auto& l : log) if (l.started != 1 || l.finished != 1) sim::violation("task-lost", "a task started " + S(l.started) + " times");
    if (peak == workers) sim::probe("all_workers_busy");
    if (log.empty()) sim::probe("no_tasks");
}
SCENARIO(C03, rendezvous, 1) { // all workers really work: as many tasks as workers can wait for each other
    auto const workers = 1 + sim::draw(5), rounds = 1 + sim::draw(2);
    sim::describe("pool rendezvous workers=" + S(workers) + " rounds=" + S(rounds)); if (workers > 1) sim::nontrivial();
    std::uint64_t done = 0; std::mutex m;
    std::vector<std::unique_ptr<Latch>> latches; for (std::size_t r = 0; r < rounds; ++r) latches.emplace_back(new Latch);
    {
        cpb::ThreadPool pool(static_cast<cpb::idx_t>(workers));
        for (std::size_t r = 0; r < rounds; ++r)
            for (std::size_t i = 0; i < workers; ++i) { auto* l = latches[r].get(); pool.add([&, l] { l->arrive_and_wait(workers); std::lock_guard<std::mutex> lk(m); ++done; }); }
        pool.join();
    }
    sim::Quiet q; if (done != workers * rounds) sim::violation("task-lost", "tasks are missing");
}
SCENARIO(C03, tasks_own_state, 1) { // tasks are destroyed exactly once and do not share captured state
    auto const workers = 1 + sim::draw(3), tasks = sim::draw(6);
    sim::describe("pool captured state workers=" + S(workers) + " tasks=" + S(tasks)); if (tasks > 1) sim::nontrivial();
    std::vector<std::shared_ptr<Payload>> kept;
    {
        cpb::ThreadPool pool(static_cast<cpb::idx_t>(workers));
        for (std::size_t i = 0; i < tasks; ++i) { auto p = std::make_shared<Payload>(); p->id = i; p->computed = 0; kept.push_back(p); pool.add([p] { p->computed = f2(p->id); }); }
    }
    for (std::size_t i = 0; i < tasks; ++i) { auto v = kept[i]->computed; long uses = kept[i].use_count(); sim::Quiet q;
        if (v != f2(i)) sim::violation("task-lost", "task result is missing");
        if (uses != 1) sim::violation("task-leak", "a finished pool still holds a task"); }
}

// ---- C04 -------------------------------------------------------------------------------------
namespace {
struct Item { // heap content: a corrupted or shared copy is noticed
    std::unique_ptr<std::uint64_t> v;
    Item() = default;
    explicit Item(std::uint64_t x) : v(new std::uint64_t(x)) {}
    Item(Item const& o) : v(o.v ? new std::uint64_t(*o.v) : nullptr) {}
    Item(Item&&) = default; Item& operator=(Item&&) = default;
    Item& operator=(Item const& o) { v.reset(o.v ? new std::uint64_t(*o.v) : nullptr); return *this; }
    std::uint64_t value() const { return v ? *v : 0; }
};
enum Kind { k_push, k_pop, k_add, k_remove };
struct Op { Kind kind; std::uint64_t value; bool ok; std::uint64_t from, to; int thread; };
struct ModelState { std::deque<std::uint64_t> q; int producers = 0; bool closed = false; };

// Is there an order of the operations, compatible with real time, in which the model accepts them all?
struct Linearizer {
    std::vector<Op> ops; std::size_t capacity; std::set<std::pair<std::uint64_t, std::vector<std::uint64_t>>> seen; std::size_t visited = 0;
    bool apply(ModelState& s, Op const& o) const {
        switch (o.kind) {
            case k_push: if (s.q.size() >= capacity) return false; s.q.push_back(o.value); return true;
            case k_pop: if (!o.ok) return s.q.empty() && s.closed; if (s.q.empty() || s.q.front() != o.value) return false; s.q.pop_front(); return true;
            case k_add: s.producers++; if (s.producers > 0) s.closed = false; return true;
            case k_remove: s.producers--; if (s.producers <= 0) s.closed = true; return true;
        }
        return false;
    }
    bool search(std::uint64_t done, ModelState const& s) {
        if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) return true;
        if (++visited > 400000) return true; // give up: not a verdict
        std::vector<std::uint64_t> key(s.q.begin(), s.q.end()); key.push_back(static_cast<std::uint64_t>(s.producers * 2 + s.closed));
        if (!seen.insert({done, key}).second) return false;
        std::uint64_t horizon = ~0ull; // an operation may go next only if no unfinished one ended before it began
        for (std::size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) horizon = std::min(horizon, ops[i].to);
        for (std::size_t i = 0; i < ops.size(); ++i) {
            if (done >> i & 1 || ops[i].from > horizon) continue;
            ModelState n = s;
            if (apply(n, ops[i]) && search(done | 1ull << i, n)) return true;
        }
        return false;
    }
};

struct QueueRun {
    cpb::detail::Queue<Item> queue; std::vector<Op> ops; std::size_t capacity; std::uint64_t next_value = 1; std::uint64_t pushed = 0, popped = 0;
    explicit QueueRun(std::size_t cap) : queue(cap), capacity(cap) { sim::Quiet q; ops.reserve(64); }
    std::size_t begin(Kind k, std::uint64_t v) { sim::Quiet q; if (ops.size() >= 60) sim::harness_error("history too long"); ops.push_back({k, v, true, sim::step(), ~0ull, sim::self()}); return ops.size() - 1; }
    void end(std::size_t i) { sim::Quiet q; ops[i].to = sim::step(); }
    void push(bool move) {
        std::uint64_t v; { sim::Quiet q; v = next_value++; }
        Item item(v);
        auto i = begin(k_push, v);
        if (move) queue.push(std::move(item)); else queue.push(static_cast<Item const&>(item));
        end(i); { sim::Quiet q; ++pushed; sim::event("pushed " + S(v)); }
        if (!move && item.value() != v) { sim::Quiet q; sim::violation("item-altered", "pushing a copy changed the original"); }
    }
    bool pop() {
        auto i = begin(k_pop, 0);
        auto m = queue.pop();
        bool ok = m; std::uint64_t v = 0;
        if (ok) { Item it = m.get(); v = it.value(); }
        sim::Quiet q; ops[i].ok = ok; ops[i].value = v; ops[i].to = sim::step(); popped += ok; sim::event("popped " + (ok ? S(v) : std::string("nothing")));
        return ok;
    }
    void add() { auto i = begin(k_add, 0); queue.add_producer(); end(i); }
    void remove() { auto i = begin(k_remove, 0); queue.remove_producer(); end(i); }
    void verdict(bool all_popped) {
        sim::Quiet q;
        Linearizer l; l.ops = ops; l.capacity = capacity;
        if (!l.search(0, ModelState{})) {
            std::string text; for (auto& o : ops) text += " [" + S(o.from) + "-" + S(o.to) + " t" + S(o.thread) + (o.kind == k_push ? " push " + S(o.value) : o.kind == k_pop ? (o.ok ? " pop " + S(o.value) : " pop none") : o.kind == k_add ? " add" : " remove") + "]";
            sim::violation("not-linearizable", "no sequential order explains:" + text);
        }
        if (l.visited > 400000) sim::probe("linearizer_gave_up");
        if (all_popped && pushed != popped) sim::violation("item-lost", S(pushed) + " pushed, " + S(popped) + " popped");
        ops.clear(); ops.shrink_to_fit();
    }
};
} // namespace

SCENARIO(C04, producers_consumers, 4) {
    auto const capacity = sim::flip(1, 5) ? std::numeric_limits<std::size_t>::max() : 1 + sim::draw(3);
    auto const producers = 1 + sim::draw(3), consumers = 1 + sim::draw(3), each = 1 + sim::draw(4);
    bool const guards = sim::flip(); // producers register through the RAII guard
    sim::describe("queue capacity=" + (capacity > 100 ? std::string("unlimited") : S(capacity)) + " producers=" + S(producers) + "x" + S(each) + " consumers=" + S(consumers));
    sim::nontrivial();
    QueueRun run(capacity);
    run.add(); // the main thread keeps the queue open until all producers are done
    std::vector<std::thread> p, c;
    std::vector<int> mv; { sim::Quiet q; for (std::size_t i = 0; i < producers * each; ++i) mv.push_back(static_cast<int>(sim::draw(2))); }
    for (std::size_t t = 0; t < consumers; ++t) c.emplace_back([&] { while (run.pop()) {} });
    for (std::size_t t = 0; t < producers; ++t) p.emplace_back([&, t] {
        if (guards) {
            auto i = run.begin(k_add, 0); std::size_t j;
            { cpb::detail::QueueGuard<Item> g(run.queue); run.end(i); for (std::size_t k = 0; k < each; ++k) run.push(mv[t * each + k]); j = run.begin(k_remove, 0); }
            run.end(j);
        } else { run.add(); for (std::size_t k = 0; k < each; ++k) run.push(mv[t * each + k]); run.remove(); }
    });
    for (auto& t : p) t.join();
    run.remove();
    for (auto& t : c) t.join();
    run.verdict(true);
    sim::Quiet q; mv = {};
}
SCENARIO(C04, long_runs, 1) { // many items and large capacities: order and capacity checked by the real-time order of the calls
    std::size_t const capacity = sim::flip(1, 4) ? std::numeric_limits<std::size_t>::max() : 1 + sim::draw(sim::flip() ? 8 : 140);
    auto const producers = 1 + sim::draw(4), consumers = 1 + sim::draw(4), each = 1 + sim::draw(250 / producers); bool const late = sim::flip(1, 3);
    sim::describe("queue capacity=" + (capacity > 1000 ? std::string("unlimited") : S(capacity)) + " producers=" + S(producers) + "x" + S(each) + " consumers=" + S(consumers) + (late ? " which start late" : "")); sim::nontrivial();
    struct Times { std::uint64_t push_from = 0, push_to = ~0ull, pop_from = 0, pop_to = ~0ull; int pops = 0; };
    std::vector<Times> items; { sim::Quiet q; items.resize(producers * each); }
    Latch filled; std::size_t pushed = 0, taken = 0;  // finished pushes, pops which may have taken an item
    {
        cpb::detail::Queue<Item> queue(capacity);
        queue.add_producer();
        std::vector<std::thread> p, c;
        for (std::size_t t = 0; t < producers; ++t) p.emplace_back([&, t] {
            for (std::size_t k = 0; k < each; ++k) {
                auto const i = t * each + k; Item item(i + 1);
                { sim::Quiet q; items[i].push_from = sim::step(); }
                if (k % 2) queue.push(std::move(item)); else queue.push(static_cast<Item const&>(item));
                {   sim::Quiet q; items[i].push_to = sim::step(); ++pushed;
                    if (capacity < 1000 && pushed > taken + capacity) sim::violation("over-capacity", S(pushed) + " items are pushed, at most " + S(taken) + " taken, the queue holds up to " + S(capacity));
                }
                if (late) filled.arrive();
            }
        });
        if (late) { sim::probe("consumers_start_late"); filled.wait_for(std::min<std::uint64_t>(producers * each, capacity)); } // there is room: no push needs a pop
        for (std::size_t t = 0; t < consumers; ++t) c.emplace_back([&] {
            for (;;) {
                std::uint64_t from; { sim::Quiet q; from = sim::step(); ++taken; }
                auto m = queue.pop();
                if (!m) { sim::Quiet q; --taken; return; }
                Item it = m.get(); auto const v = it.value();
                sim::Quiet q; if (!v || v > items.size()) { sim::violation("item-altered", "popped " + S(v)); return; }
                items[v - 1].pop_from = from; items[v - 1].pop_to = sim::step(); if (items[v - 1].pops++) sim::violation("item-duplicated", "item " + S(v) + " is popped twice");
            }
        });
        for (auto& t : p) t.join();
        queue.remove_producer();
        for (auto& t : c) t.join();
    }
    sim::Quiet q;
    for (auto const& x : items) if (!x.pops) sim::violation("item-lost", "an item was never popped");
    // whatever was pushed before another item's push began is popped first
    std::vector<Times const*> by_push; for (auto const& x : items) by_push.push_back(&x);
    std::sort(by_push.begin(), by_push.end(), [](Times const* a, Times const* b) { return a->push_from < b->push_from; });
    for (auto const* a : by_push) for (auto const* b : by_push)
        if (a->push_to < b->push_from && b->pop_to < a->pop_from) { sim::violation("not-fifo", "an item pushed later is popped earlier"); break; }
    items = {}; by_push = {};
}
SCENARIO(C04, phases, 2) { // the queue is closed and reopened; items pushed while it is closed are still delivered
    auto const capacity = 1 + sim::draw(3), phases = 1 + sim::draw(3);
    sim::describe("queue reopened " + S(phases) + " times, capacity " + S(capacity)); sim::nontrivial();
    QueueRun run(capacity);
    for (std::size_t ph = 0; ph < phases; ++ph) {
        run.add();
        auto const n = sim::draw(4), consumers = 1 + sim::draw(2);
        std::vector<std::thread> c;
        for (std::size_t t = 0; t < consumers; ++t) c.emplace_back([&] { while (run.pop()) {} });
        for (std::size_t k = 0; k < n; ++k) run.push(sim::flip());
        run.remove();
        for (auto& t : c) t.join();
        // after closing, up to `capacity` items still fit and are still delivered
        auto const late = sim::draw(capacity + 1);
        for (std::size_t k = 0; k < late; ++k) { run.push(true); sim::probe("pushed_to_closed_queue"); }
        for (std::size_t k = 0; k < late + sim::draw(2); ++k) run.pop();
    }
    run.verdict(false);
}
SCENARIO(C04, exact_pops, 2) { // consumers take a fixed number: no item needs a close to be delivered
    auto const capacity = 1 + sim::draw(3), producers = 1 + sim::draw(3), each = 1 + sim::draw(3), total = producers * each;
    auto const consumers = 1 + sim::draw(std::min<std::uint64_t>(3, total));
    sim::describe("queue capacity=" + S(capacity) + " " + S(producers) + "x" + S(each) + " pushes, " + S(consumers) + " consumers with fixed shares"); sim::nontrivial();
    QueueRun run(capacity);
    if (sim::flip()) run.add();
    std::vector<std::thread> t;
    for (std::size_t k = 0; k < consumers; ++k) { auto share = total / consumers + (k < total % consumers); t.emplace_back([&run, share] { for (std::size_t i = 0; i < share; ++i) if (!run.pop()) { sim::Quiet q; sim::violation("pop-empty-handed", "pop returned nothing although items were still to come and no producer had left"); } }); }
    for (std::size_t k = 0; k < producers; ++k) t.emplace_back([&run, each] { for (std::size_t i = 0; i < each; ++i) run.push(i & 1); });
    for (auto& x : t) x.join();
    run.verdict(true);
}

// ---- C17 -------------------------------------------------------------------------------------
namespace {
// What the system may run out of while a loop or pool is at work: a failure must reach the caller like any other error
struct Resources {
    int mode = 0; std::uint64_t at = 0; bool persistent = false, fired = false, reported = false;
    static Resources make(std::uint64_t threads) {
        Resources r; r.mode = static_cast<int>(sim::draw(5)); r.persistent = sim::flip();
        if (r.mode == 1) r.at = sim::draw(threads); else if (r.mode == 2) r.at = sim::draw(sim::flip() ? 12 : 60); else r.mode = 0;
        return r;
    }
    std::string text() const { return mode == 0 ? "" : std::string(mode == 1 ? "; thread " : "; allocation ") + S(at) + (persistent ? " and all later ones" : "") + (mode == 1 ? " cannot be started" : " fails"); }
    void on() const { sim::Quiet q; if (mode == 1) sim::fail_thread_in(at, persistent); if (mode == 2) sim::fail_alloc_in(at, persistent); }
    void off() { sim::Quiet q; bool a = sim::fail_alloc_off(), t = sim::fail_thread_off(); fired = mode == 1 ? t : mode == 2 ? a : false; }
    // runs f; true: it reported that the system ran out of something
    template<class F> void guard(F f) {
        on();
        try { f(); }
        catch (std::bad_alloc const&) { off(); reported = true; sim::Quiet q; if (mode != 2 || !fired) sim::violation("error-invented", "out of memory is reported although no allocation failed"); }
        catch (std::system_error const& e) { off(); reported = true; sim::Quiet q; if (mode != 1 || !fired) sim::violation("error-invented", std::string("a system error is reported although nothing failed: ") + e.what()); }
        if (!reported) off();
    }
};
struct StageError : std::runtime_error { int stage; std::size_t id; StageError(int stage, std::size_t id) : std::runtime_error("stage " + S(stage) + " of job " + S(id)), stage(stage), id(id) {} };
} // namespace

SCENARIO(C17, parallel_for_errors, 4) {
    auto c = Config::make(8); int const caller = sim::self();
    // which stages of which jobs fail
    std::vector<int> fails; std::vector<Delay> dp, dc, dr; bool any = false;
    {   sim::Quiet q; std::string text;
        for (std::size_t i = 0; i < c.size * 3; ++i) { bool f = sim::draw(10) == 9; fails.push_back(f); if (f) text += " " + S(i % 3) + "@" + S(i / 3); }
        for (std::size_t i = 0; i < c.size; ++i) { dp.push_back(Delay::make(c.slow_produce)); dc.push_back(Delay::make(c.slow_compute)); dr.push_back(Delay::make(c.slow_retire)); }
        sim::describe(c.text() + " failing stage@job:" + text);
    }
    auto res = Resources::make(c.threads + 2); if (res.mode) { sim::Quiet q; sim::describe(c.text() + res.text()); }
    std::vector<JobLog> log; { sim::Quiet q; log.resize(c.size); }
    bool returned = false; std::vector<std::pair<int, std::size_t>> thrown; int running = 0;
    auto const blocks = sim::live_blocks();
    auto maybe_fail = [&](int stage, std::size_t id) {
        bool f; { sim::Quiet q; --running; f = fails[id * 3 + static_cast<std::size_t>(stage)]; if (f) { any = true; thrown.emplace_back(stage, id); sim::count_fault(stage == 0 ? "throw_in_produce" : stage == 1 ? "throw_in_compute" : "throw_in_retire"); } }
        if (f) throw StageError(stage, id);
    };
    auto enter = [&](int stage, std::size_t id) {
        sim::Quiet q; ++running;
        if (returned) sim::violation("late-call", "a stage is called after the loop ended");
        if (id >= c.size) sim::violation("bad-id", "stage called with a wrong id");
        if (sim::self() == caller) return;
        int& n = stage == 0 ? log[id].produced : stage == 1 ? log[id].computed : log[id].retired;
        if (n++) sim::violation("stage-twice", "stage " + S(stage) + " of job " + S(id) + " runs twice");
        if (stage == 1 && !log[id].produced) sim::violation("compute-input", "computing a job which was not produced");
        if (stage == 2 && !log[id].compute_done) sim::violation("retired-uncomputed", "job " + S(id) + " is retired although its computation did not finish");
    };
    Counted::alive = 0; bool reported = false; int rs = -1; std::size_t rid = 0;
    res.guard([&] { try {
        cpb::parallel_for(c.size, c.threads, c.queue,
            [&](std::size_t id) { enter(0, id); dp[id](); maybe_fail(0, id); return Counted(id); },
            [&](Counted& v) { enter(1, v.id); dc[v.id](); maybe_fail(1, v.id); sim::Quiet q; log[v.id].compute_done = true; },
            [&](Counted v, std::size_t id) { if (v.id != id) { sim::Quiet q; sim::violation("retire-id", "wrong value"); } enter(2, id); dr[id](); maybe_fail(2, id); });
    } catch (StageError const& e) { reported = true; rs = e.stage; rid = e.id; } });
    auto const after = sim::live_blocks();
    sim::Quiet q; returned = true;
    if (running) sim::violation("returned-early", "the loop ended while a stage was still running");
    if (any && !reported && !res.reported) sim::violation("error-lost", "a stage failed but the caller was not told");
    if (!any && reported) sim::violation("error-invented", "an error was reported although no stage failed");
    if (reported && std::find(thrown.begin(), thrown.end(), std::make_pair(rs, rid)) == thrown.end()) sim::violation("wrong-error", "the reported error was not thrown by any stage");
    if (!any && !res.reported) for (auto& l : log) if (l.retired != 1) sim::violation("job-lost", "no error was reported, but a job was not retired" + res.text());
    if (Counted::alive) sim::violation("job-leak", S(Counted::alive) + " job values still exist after the loop ended");
    if (after != blocks) sim::violation("memory-leak", S(after - blocks) + " memory blocks are not freed after the loop ended");
    if (any || res.fired) sim::nontrivial();
    if (res.fired && res.mode == 1 && res.at > 1 && res.at <= c.threads) sim::probe("some_workers_only");
    if (thrown.size() > 1) sim::probe("several_errors");
    if (any && c.size > c.bound()) sim::probe("error_with_waiting_producer");
    dp = {}; dc = {}; dr = {}; fails = {}; log = {}; thrown = {};
}
SCENARIO(C17, pool_errors, 2) {
    auto const workers = 1 + sim::draw(4), tasks = sim::draw(8), how = sim::draw(3); std::vector<int> fails; bool any = false; std::vector<int> runs; std::vector<Delay> delay;
    { sim::Quiet q; for (std::size_t i = 0; i < tasks; ++i) { fails.push_back(sim::draw(5) == 4); delay.push_back(Delay::make(2)); } runs.assign(tasks, 0); }
    sim::describe("pool workers=" + S(workers) + " tasks=" + S(tasks) + " with failing tasks, end=" + S(how));
    std::size_t reported = 0, reported_id = 0; bool ended = false; std::size_t running = 0;
    auto res = Resources::make(workers); if (res.mode) sim::describe("pool workers=" + S(workers) + " tasks=" + S(tasks) + " with failing tasks, end=" + S(how) + res.text());
    auto const blocks = sim::live_blocks();
    res.guard([&] { try {
        cpb::ThreadPool pool(static_cast<cpb::idx_t>(workers));
        for (std::size_t i = 0; i < tasks; ++i)
            pool.add([&, i] {
                { sim::Quiet q; if (ended) sim::violation("late-call", "task runs after the pool ended"); if (runs[i]++) sim::violation("task-twice", "task runs twice"); ++running; }
                delay[i]();
                bool f; { sim::Quiet q; f = fails[i]; --running; if (f) { any = true; sim::count_fault("throw_in_task"); } }
                if (f) throw StageError(3, i);
            });
        if (how > 0) {
            try { pool.join(); } catch (StageError const& e) { ++reported; reported_id = e.id; }
            { sim::Quiet q; if (running) sim::violation("returned-early", "join ended while a task was running"); }
            if (how > 1) { try { pool.join(); } catch (StageError const&) { ++reported; } }
        }
    } catch (StageError const&) { sim::Quiet q; sim::violation("wrong-error", "the error escaped from somewhere else than join"); } });
    auto const after = sim::live_blocks();
    sim::Quiet q; ended = true;
    if (running) sim::violation("returned-early", "the pool ended while a task was running");
    if (how > 0 && any && !reported && !res.reported) sim::violation("error-lost", "a task failed but join did not tell");
    if (!any && reported) sim::violation("error-invented", "join failed although no task did");
    if (reported && (reported_id >= tasks || !fails[reported_id])) sim::violation("wrong-error", "join reports the error of another task");
    if (!any && !res.reported) for (auto r : runs) if (r != 1) sim::violation("task-lost", "no error, but a task did not run" + res.text());
    if (after != blocks) sim::violation("memory-leak", S(after - blocks) + " memory blocks are not freed after the pool ended");
    if (any || res.fired) sim::nontrivial();
    fails = {}; delay = {}; runs = {};
}
