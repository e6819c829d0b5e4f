// Shared between the runtime (rt.cpp) and the driver (driver.cpp).
#pragma once
#include "sim.hpp"
#include <cstring>

namespace simi {

enum Status : int { st_none = 0, st_ok = 1, st_violation = 2, st_harness_error = 3, st_crash = 4 };

constexpr int max_draws = 1 << 16;
constexpr int max_sched = 1 << 18;
constexpr int max_faultlog = 1 << 14;
constexpr int max_names = 48;
constexpr int max_findings = 8;

struct SchedEntry { std::uint64_t key; std::uint32_t value; std::uint32_t pad; };

struct NamedCount { char name[40]; std::uint64_t count; };

// Result of one run, in memory shared with the parent
struct Result {
    int status;
    bool nontrivial;
    char cls[96];
    char message[4000];
    char describe[1000];
    std::uint64_t hash;       // of the whole event log
    std::uint64_t sync_hash;  // of the order of synchronisation events only
    std::uint64_t steps, syncs, switches, preemptions, sim_ns, threads, allocs;
    NamedCount faults[max_names];
    NamedCount probes[max_names];
    struct { char id[48]; char message[512]; } findings[max_findings];
    int num_findings;
    std::uint32_t num_draws, num_sched, num_fault_ops, num_faultlog;
    bool overflow;
    std::uint32_t draw_n[max_draws];
    std::uint32_t draws[max_draws];
    SchedEntry sched[max_sched];
    std::uint32_t faultlog[max_faultlog];
};

// Input of one run
struct Plan {
    std::uint64_t seed = 0;
    bool replay = false;           // take everything from the lists below
    std::uint32_t const* draws = nullptr; std::uint32_t num_draws = 0;
    SchedEntry const* sched = nullptr; std::uint32_t num_sched = 0;
    std::uint32_t const* faults = nullptr; std::uint32_t num_faults = 0;
    bool trace = false;            // write the event log to trace_fd
    int trace_fd = -1;
    bool thorough = false;
    std::uint64_t step_limit = 400ull * 1000 * 1000;
};

void rt_init();                                        // once, in the zygote
[[noreturn]] void run_child(Plan const& plan, Result* result, void (*fn)());

inline std::uint64_t splitmix(std::uint64_t& s) {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    std::uint64_t s[2];
    void seed(std::uint64_t a, std::uint64_t b) {
        std::uint64_t x = a * 0xd1342543de82ef95ull + b * 0x2545f4914f6cdd1dull + 0x1234567;
        s[0] = splitmix(x); s[1] = splitmix(x);
    }
    std::uint64_t next() {
        std::uint64_t a = s[0], b = s[1];
        s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
    std::uint64_t below(std::uint64_t n) { return n <= 1 ? 0 : next() % n; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
};

} // namespace simi
