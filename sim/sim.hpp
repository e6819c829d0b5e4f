// Public interface of the simulator used by the harnesses.
//
// Everything nondeterministic in a run is decided by three pseudo-random streams derived from
// one seed: the workload (draw), the schedule (which thread runs next, who is woken, spurious
// wake-ups) and the faults. All three are recorded, so that a run can be replayed and minimised.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace sim {

// ---- workload -------------------------------------------------------------------------------
std::uint64_t draw(std::uint64_t n);                 // uniform in [0, n), recorded
inline std::uint64_t draw(std::uint64_t lo, std::uint64_t hi) { return lo + draw(hi - lo + 1); }
inline bool flip(unsigned num = 1, unsigned den = 2) { return draw(den) >= den - num; }
// ---- faults ---------------------------------------------------------------------------------
bool fault(char const* kind, unsigned num, unsigned den); // recorded fault opportunity
void count_fault(char const* kind);                       // a fault fired some other way
// the k-th (0 = next) allocation from now on by the system under test fails;
// persistent: all following ones too, until fail_alloc_off()
void fail_alloc_in(std::uint64_t k, bool persistent = false);
bool fail_alloc_off();                                    // true if it had fired
void fail_thread_in(std::uint64_t k, bool persistent = false);   // likewise, the k-th start of a thread
bool fail_thread_off();
std::uint64_t alloc_seq();                                // allocations by the system under test
std::uint64_t live_blocks();                              // live blocks allocated by the system
std::uint64_t live_bytes();
std::uint64_t live_new_blocks();                          // those from operator new (Eigen's sparse matrices leak malloc'ed blocks when an allocation fails)
// ---- clock ----------------------------------------------------------------------------------
std::uint64_t now_ns();                                   // simulated monotonic time
void advance_ns(std::uint64_t ns);                        // real time passes
void jump_wall_ns(std::int64_t ns);                       // wall clock is set
std::int64_t wall_ns();
// ---- schedule -------------------------------------------------------------------------------
void yield_point();                                       // explicit preemption opportunity
void sleep_ns(std::uint64_t ns);                          // block in simulated time
int self();                                               // index of the calling thread
int num_threads_alive();
std::uint64_t step();                                     // global event sequence number
void set_cpus(int n);                                     // what hardware_concurrency reports
void only_default_schedule(bool on);                      // no preemptions (reference runs)
// ---- reporting ------------------------------------------------------------------------------
[[noreturn]] void violation(char const* cls, std::string const& message);
[[noreturn]] void harness_error(std::string const& message);
void soft_finding(char const* id, std::string const& message); // a listed known finding occurred
void event(std::string const& text);                      // appended to the trace, hashed
void mix(std::uint64_t v);                                // hashed only
void probe(char const* name);                             // "this rare condition was hit"
void nontrivial();                                        // marks this run as non-trivial
void describe(std::string const& text);                   // short description of the workload
bool thorough();
bool tracing();

// Oracle code: not preempted, not checked for races, its allocations do not fail.
struct Quiet { Quiet(); ~Quiet(); Quiet(Quiet const&) = delete; Quiet& operator=(Quiet const&) = delete; };
// The reverse, to call back into the system under test from a quiet section
struct Loud { Loud(); ~Loud(); int saved; Loud(Loud const&) = delete; Loud& operator=(Loud const&) = delete; };

struct Scenario {
    Scenario(char const* property, char const* name, int weight, void (*fn)());
    char const* property; char const* name; int weight; void (*fn)(); Scenario* next;
};
#define SCENARIO(prop, name, weight)                                             \
    static void scenario_##prop##_##name();                                      \
    static ::sim::Scenario reg_##prop##_##name{#prop, #name, weight, &scenario_##prop##_##name}; \
    static void scenario_##prop##_##name()

#define SIM_CHECK(cond, cls, msg) do { if (!(cond)) { ::sim::Quiet q_; ::sim::violation(cls, msg); } } while (0)

} // namespace sim
