// Runs simulations: one forked child per run, several workers, determinism audit, minimisation,
// replay. Compiled without instrumentation.
#include "internal.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sched.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <atomic>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace sim { Scenario* first_scenario(); }
using namespace simi;
using u64 = std::uint64_t; using u32 = std::uint32_t;

namespace {

struct Options {
    std::string property, out, replay_dir = "/verif/replays", replay, trace_out, only;
    u64 seed = 1, runs = 1000; double seconds = 60; int workers = 8; bool thorough = false; bool expect = false; u64 hashes = 0;
    u64 one = ~0ull;
} opt;

double mono() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

template<class T> T* shared(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap shared"); _exit(72); }
    return static_cast<T*>(p);
}

std::vector<sim::Scenario*> scenarios;
sim::Scenario* find_scenario(std::string const& name) {
    for (auto s : scenarios) if (name == s->name) return s;
    return nullptr;
}
sim::Scenario* pick(u64 index) {
    int total = 0; for (auto s : scenarios) total += s->weight;
    u64 x = opt.seed * 77777 + index; int k = (int)(splitmix(x) % total);
    for (auto s : scenarios) { if (k < s->weight) return s; k -= s->weight; }
    return scenarios[0];
}
u64 run_seed(u64 index) { u64 x = opt.seed * 1000003 + index; return splitmix(x) >> 16; }

void reset(Result* r) {
    size_t head = offsetof(Result, draw_n);
    memset(r, 0, head);
}

// the memory of exited runs may come back late: wait for it rather than run out
void wait_for_memory() {
    for (int i = 0; i < 200; ++i) {
        FILE* f = fopen("/proc/meminfo", "r"); if (!f) return;
        char line[128]; unsigned long long kb = ~0ull;
        while (fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
        fclose(f);
        if (kb > 5000000) return;
        usleep(50000);
    }
}

// one run in a forked child; returns false when the child died without a result
void run_once(Plan const& plan, sim::Scenario* sc, Result* r) {
    reset(r);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) run_child(plan, r, sc->fn);
    if (pid < 0) { perror("fork"); _exit(74); }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    if (r->status == st_none) {
        r->status = st_harness_error;
        snprintf(r->cls, sizeof r->cls, "child-died");
        snprintf(r->message, sizeof r->message, "run process ended without a result (wait status 0x%x)", st);
    }
}

struct Agg {
    u64 runs, nontrivial, steps, syncs, switches, preemptions, sim_ns, threads_max, audited, harness_errors, audit_mismatch;
    NamedCount faults[max_names], probes[max_names];
    u64 runs_with_fault;
    struct { char id[48]; char message[512]; u64 count; u64 seed_index; } findings[16];
    u64 num_hashes; 
    char error[1024];
    char samples[6][700]; int num_samples;
    std::map<int,int>* unused;
};
constexpr u64 max_hashes = 1 << 20;

void add(NamedCount* to, NamedCount const* from) {
    for (int i = 0; i < max_names && from[i].name[0]; ++i)
        for (int j = 0; j < max_names; ++j) {
            if (!to[j].name[0]) memcpy(to[j].name, from[i].name, sizeof to[j].name);
            if (!strcmp(to[j].name, from[i].name)) { to[j].count += from[i].count; break; }
        }
}

struct Trace { std::vector<u32> draws; std::vector<SchedEntry> sched; std::vector<u32> faults; };
Trace take(Result const* r) {
    return {{r->draws, r->draws + r->num_draws}, {r->sched, r->sched + r->num_sched}, {r->faultlog, r->faultlog + r->num_faultlog}};
}
Plan make_plan(Trace const& t) {
    Plan p; p.replay = true; p.thorough = opt.thorough;
    p.draws = t.draws.data(); p.num_draws = (u32)t.draws.size(); p.sched = t.sched.data(); p.num_sched = (u32)t.sched.size();
    p.faults = t.faults.data(); p.num_faults = (u32)t.faults.size();
    return p;
}

struct Minimiser {
    sim::Scenario* sc; std::string cls; Result* r; double deadline; u64 tried = 0;
    bool fails(Trace const& t) {
        if (mono() > deadline || tried > 6000) return false;
        ++tried; run_once(make_plan(t), sc, r);
        return r->status == st_violation && cls == r->cls;
    }
    template<class T> void ddmin(Trace& best, std::vector<T> Trace::* field) {
        { Trace t = best; (t.*field).clear(); if (!(best.*field).empty() && fails(t)) { best = t; return; } }
        size_t chunk = std::max<size_t>(1, (best.*field).size() / 2);
        for (;;) {
            bool changed = false;
            for (size_t i = 0; i < (best.*field).size();) {
                Trace t = best; auto& v = t.*field;
                v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + chunk));
                if (fails(t)) { best = t; changed = true; } else i += chunk;
                if (mono() > deadline) return;
            }
            if (chunk == 1) { if (!changed) return; } else chunk = std::max<size_t>(1, chunk / 2);
        }
    }
    void numbers(Trace& best) {
        bool changed = true;
        for (int round = 0; changed && round < 4; ++round) {
            changed = false;
            // remove runs of draws
            for (size_t len : {8, 4, 2, 1})
                for (size_t i = 0; i + len <= best.draws.size();) {
                    Trace t = best; t.draws.erase(t.draws.begin() + i, t.draws.begin() + i + len);
                    if (fails(t)) { best = t; best.draws.resize(std::min<size_t>(best.draws.size(), r->num_draws)); changed = true; } else ++i;
                    if (mono() > deadline) return;
                }
            for (size_t i = 0; i < best.draws.size(); ++i) {
                u32 v = best.draws[i];
                for (u32 c : {0u, v / 2, v ? v - 1 : 0u}) {
                    if (c >= best.draws[i]) continue;
                    Trace t = best; t.draws[i] = c;
                    if (fails(t)) { best = t; changed = true; break; }
                }
                if (mono() > deadline) return;
            }
        }
    }
    void run(Trace& best) {
        ddmin(best, &Trace::sched); ddmin(best, &Trace::faults); numbers(best); ddmin(best, &Trace::sched); ddmin(best, &Trace::faults);
    }
};

std::string json_str(std::string const& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

void write_replay(std::string const& path, sim::Scenario* sc, Trace const& t, Result const* r, u64 seed, u64 index) {
    std::ofstream f(path);
    f << "property " << opt.property << "\nscenario " << sc->name << "\ntier " << (opt.thorough ? "thorough" : "quick")
      << "\nseed " << opt.seed << " run " << index << " run_seed " << seed << "\nclass " << r->cls << "\nhash " << r->hash << "\n";
    f << "draws " << t.draws.size(); for (auto v : t.draws) f << " " << v; f << "\n";
    f << "sched " << t.sched.size(); for (auto& e : t.sched) f << " " << e.key << ":" << e.value; f << "\n";
    f << "faults " << t.faults.size(); for (auto v : t.faults) f << " " << v; f << "\n";
    auto line = [](char const* s) { std::string o; for (; *s; ++s) o += *s == '\n' ? ' ' : *s; return o; };
    f << "workload " << line(r->describe) << "\nmessage " << line(r->message) << "\n";
}

int replay_file() {
    std::ifstream f(opt.replay); if (!f) { fprintf(stderr, "cannot read %s\n", opt.replay.c_str()); return 2; }
    std::string line, scn, cls; u64 hash = 0; Trace t;
    while (std::getline(f, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "property") s >> opt.property; else if (k == "scenario") s >> scn;
        else if (k == "tier") { std::string v; s >> v; opt.thorough = v == "thorough"; }
        else if (k == "class") s >> cls; else if (k == "hash") s >> hash;
        else if (k == "draws") { size_t n; s >> n; t.draws.resize(n); for (auto& v : t.draws) s >> v; }
        else if (k == "faults") { size_t n; s >> n; t.faults.resize(n); for (auto& v : t.faults) s >> v; }
        else if (k == "sched") { size_t n; s >> n; t.sched.resize(n); char c; for (auto& e : t.sched) { s >> e.key >> c >> e.value; e.pad = 0; } }
        else if (k == "trace") break;
    }
    for (auto s = sim::first_scenario(); s; s = s->next) if (opt.property == s->property) scenarios.push_back(s);
    auto sc = find_scenario(scn); if (!sc) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 2; }
    Result* r = shared<Result>(); Plan p = make_plan(t);
    if (!opt.trace_out.empty()) { p.trace = true; p.trace_fd = open(opt.trace_out.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644); }
    run_once(p, sc, r);
    bool same = r->status == st_violation && cls == r->cls && hash == r->hash;
    printf("replay of %s/%s: %s [%s] %s\nhash %llu (recorded %llu): %s\n", opt.property.c_str(), scn.c_str(), r->status == st_violation ? "violation" : r->status == st_ok ? "no violation" : "error",
           r->cls, r->message, (unsigned long long)r->hash, (unsigned long long)hash, same ? "reproduced exactly" : "NOT reproduced");
    if (r->status == st_violation) printf("VIOLATION property=%s replay=%s\n", opt.property.c_str(), opt.replay.c_str());
    if (opt.expect) return same ? 0 : 2;
    return r->status == st_violation ? 1 : r->status == st_ok ? 0 : 2;
}

} // namespace

int main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") opt.property = val(); else if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--runs") opt.runs = strtoull(val().c_str(), nullptr, 10); else if (a == "--seconds") opt.seconds = atof(val().c_str());
        else if (a == "--workers") opt.workers = atoi(val().c_str()); else if (a == "--thorough") opt.thorough = true;
        else if (a == "--out") opt.out = val(); else if (a == "--replay-dir") opt.replay_dir = val(); else if (a == "--replay") opt.replay = val();
        else if (a == "--trace") opt.trace_out = val(); else if (a == "--expect") opt.expect = true; else if (a == "--only") opt.only = val();
        else if (a == "--hashes") opt.hashes = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--one") opt.one = strtoull(val().c_str(), nullptr, 10);
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    rt_init();
    if (!opt.replay.empty()) return replay_file();
    for (auto s = sim::first_scenario(); s; s = s->next)
        if (opt.property == s->property && (opt.only.empty() || opt.only == s->name)) scenarios.push_back(s);
    if (scenarios.empty()) { fprintf(stderr, "no scenario for %s\n", opt.property.c_str()); return 2; }
    std::sort(scenarios.begin(), scenarios.end(), [](auto a, auto b) { return strcmp(a->name, b->name) < 0; });

    if (opt.one != ~0ull) { // debugging aid: one run, traced
        Result* r = shared<Result>(); Plan p; p.seed = run_seed(opt.one); p.thorough = opt.thorough;
        if (!opt.trace_out.empty()) { p.trace = true; p.trace_fd = open(opt.trace_out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); }
        auto sc = pick(opt.one); run_once(p, sc, r);
        printf("%s status %d [%s] %s\n  %s\nsteps %llu syncs %llu\n", sc->name, r->status, r->cls, r->message, r->describe, (unsigned long long)r->steps, (unsigned long long)r->syncs);
        return 0;
    }
    if (opt.hashes) { // determinism audit in a fresh process: print the hashes of the first runs
        Result* r = shared<Result>();
        for (u64 i = 0; i < opt.hashes; ++i) { Plan p; p.seed = run_seed(i); p.thorough = opt.thorough; run_once(p, pick(i), r); printf("%llu\n", (unsigned long long)r->hash); }
        return 0;
    }

    double t0 = mono();
    struct Control { std::atomic<u64> limit; std::atomic<u64> done; };
    auto* ctl = shared<Control>(); ctl->limit = opt.runs;
    int W = std::max(1, opt.workers);
    auto* aggs = shared<Agg>(W); auto* hashes = shared<u64>(W * max_hashes); auto* first_hashes = shared<u64>(256);
    auto* viol_index = shared<std::atomic<u64>>(); viol_index->store(~0ull);
    struct FailureList { std::atomic<u32> n; struct { u64 index; char cls[96]; } f[64]; };
    auto* fl = shared<FailureList>();
    std::vector<pid_t> pids;
    for (int w = 0; w < W; ++w) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid) { pids.push_back(pid); continue; }
        cpu_set_t set, avail; CPU_ZERO(&avail); sched_getaffinity(0, sizeof avail, &avail);
        int want = w % std::max(1, CPU_COUNT(&avail)), cpu = -1;
        for (int c = 0, k = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &avail) && k++ == want) { cpu = c; break; }
        if (cpu >= 0) { CPU_ZERO(&set); CPU_SET(cpu, &set); sched_setaffinity(0, sizeof set, &set); }
        Result* r = shared<Result>(); Agg& a = aggs[w]; u64* hs = hashes + w * max_hashes;
        for (u64 i = w; i < ctl->limit.load() ; i += W) {
            if (mono() - t0 > opt.seconds) break;
            if (i / W % 64 == 0) wait_for_memory();
            Plan p; p.seed = run_seed(i); p.thorough = opt.thorough; auto sc = pick(i);
            run_once(p, sc, r);
            a.runs++; ctl->done++;
            a.nontrivial += r->nontrivial; a.steps += r->steps; a.syncs += r->syncs; a.switches += r->switches; a.preemptions += r->preemptions;
            a.sim_ns += r->sim_ns; a.threads_max = std::max(a.threads_max, r->threads);
            add(a.faults, r->faults); add(a.probes, r->probes); a.runs_with_fault += r->faults[0].name[0] != 0;
            if (i < 256) first_hashes[i] = r->hash;
            u64 sh = r->sync_hash; { // scenario and workload belong to the identity of an execution
                for (char const* c = sc->name; *c; ++c) sh = sh * 1099511628211ull ^ (unsigned char)*c;
                for (u32 k = 0; k < r->num_draws; ++k) sh = sh * 1099511628211ull ^ r->draws[k];
            }
            if (r->nontrivial && a.num_hashes < max_hashes) hs[a.num_hashes++] = sh;
            if (a.num_samples < 1 && r->nontrivial && r->describe[0]) {
                snprintf(a.samples[a.num_samples++], sizeof a.samples[0], "run %llu %s: %.400s | %llu sync events, %llu switches, %llu preemptions, %llu threads",
                         (unsigned long long)i, sc->name, r->describe, (unsigned long long)r->syncs, (unsigned long long)r->switches, (unsigned long long)r->preemptions, (unsigned long long)r->threads);
            }
            for (int k = 0; k < r->num_findings; ++k)
                for (auto& f : a.findings) {
                    if (!f.id[0]) { memcpy(f.id, r->findings[k].id, sizeof f.id); memcpy(f.message, r->findings[k].message, sizeof f.message); f.seed_index = i; }
                    if (!strcmp(f.id, r->findings[k].id)) { f.count++; break; }
                }
            if (r->status == st_harness_error) {
                a.harness_errors++; snprintf(a.error, sizeof a.error, "run %llu (%s): %s: %.700s | %.200s", (unsigned long long)i, sc->name, r->cls, r->message, r->describe);
                u64 cur = ctl->limit.load(); while (i < cur && !ctl->limit.compare_exchange_weak(cur, i)) {}
            }
            if (r->status == st_violation) {
                u64 cur = ctl->limit.load(); while (i < cur && !ctl->limit.compare_exchange_weak(cur, i)) {}
                u64 v = viol_index->load(); while (i < v && !viol_index->compare_exchange_weak(v, i)) {}
            }
            if (i % 13 == 5 && r->status == st_ok) { // determinism audit: the same seed again
                u64 h = r->hash; run_once(p, sc, r); a.audited++;
                if (r->hash != h || r->status != st_ok) { a.audit_mismatch++; snprintf(a.error, sizeof a.error, "run %llu (%s) is not deterministic: status %d [%s] %.500s", (unsigned long long)i, sc->name, r->status, r->cls, r->message);
                    u64 cur = ctl->limit.load(); while (i < cur && !ctl->limit.compare_exchange_weak(cur, i)) {} }
            }
        }
        _exit(0);
    }
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (st) { fprintf(stderr, "worker failed: 0x%x\n", st); return 2; } }
    double t_search = mono() - t0;

    Agg tot; memset(&tot, 0, sizeof tot); std::set<u64> distinct; std::string error; std::map<std::string, std::pair<u64, std::string>> findings;
    std::vector<std::string> samples;
    for (int w = 0; w < W; ++w) {
        Agg& a = aggs[w];
        tot.runs += a.runs; tot.nontrivial += a.nontrivial; tot.steps += a.steps; tot.syncs += a.syncs; tot.switches += a.switches; tot.preemptions += a.preemptions;
        tot.sim_ns += a.sim_ns; tot.audited += a.audited; tot.audit_mismatch += a.audit_mismatch; tot.harness_errors += a.harness_errors; tot.threads_max = std::max(tot.threads_max, a.threads_max);
        tot.runs_with_fault += a.runs_with_fault;
        add(tot.faults, a.faults); add(tot.probes, a.probes);
        distinct.insert(hashes + w * max_hashes, hashes + w * max_hashes + a.num_hashes);
        if (a.error[0]) error = a.error;
        for (int k = 0; k < a.num_samples; ++k) samples.push_back(a.samples[k]);
        for (auto& f : a.findings) if (f.id[0]) { auto& e = findings[f.id]; e.first += f.count; e.second = f.message; }
    }
    int exit_code = 0; std::string replay_path, vcls, vmsg; u64 min_tried = 0;
    if (viol_index->load() != ~0ull && viol_index->load() <= ctl->limit.load()) {
        u64 i = viol_index->load(); auto sc = pick(i); Result* r = shared<Result>();
        Plan p; p.seed = run_seed(i); p.thorough = opt.thorough;
        run_once(p, sc, r); u64 h = r->hash; std::string cls = r->cls; bool v1 = r->status == st_violation;
        run_once(p, sc, r);
        bool hang = cls == "hang";
        if (!v1 || r->status != st_violation || cls != r->cls || (h != r->hash && !hang)) {
            fprintf(stderr, "violation in run %llu does not repeat: [%s] vs [%s] %s\n", (unsigned long long)i, cls.c_str(), r->cls, r->message); return 2;
        }
        Trace best = take(r); bool overflow = r->overflow;
        if (!hang && !overflow) {
            Minimiser m{sc, cls, r, mono() + (opt.thorough ? 120 : 40)};
            Trace raw = best;
            if (m.fails(best)) m.run(best);
            else { fprintf(stderr, "recorded trace of run %llu does not replay: [%s] %s\n", (unsigned long long)i, r->cls, r->message); return 2; }
            min_tried = m.tried;
            run_once(make_plan(best), sc, r);
            if (r->status != st_violation || cls != r->cls) { fprintf(stderr, "minimised trace does not replay\n"); return 2; }
        }
        replay_path = opt.replay_dir + "/" + opt.property + "-" + sc->name + "-" + std::to_string(opt.seed) + "-" + std::to_string(i) + ".txt";
        write_replay(replay_path, sc, best, r, p.seed, i);
        vcls = r->cls; vmsg = r->message;
        // a fresh process must reproduce it, with the event log appended to the file
        if (!hang) {
            { std::ofstream f(replay_path, std::ios::app); f << "trace\n"; }
            std::string cmd = std::string("'") + argv[0] + "' --expect --replay '" + replay_path + "' --trace '" + replay_path + "' > /dev/null 2>&1";
            fflush(nullptr);
            int st = system(cmd.c_str());
            if (st != 0) { fprintf(stderr, "fresh-process replay of %s failed (0x%x)\n", replay_path.c_str(), st); return 2; }
        }
        exit_code = 1;
    } else if (!error.empty()) { fprintf(stderr, "error: %s\n", error.c_str()); exit_code = 2; }
    u64 fresh = 0;
    if (exit_code == 0) { // the first runs again, in a fresh process with one worker
        u64 n = std::min<u64>({(u64)48, opt.runs, tot.runs});
        std::string cmd = std::string("'") + argv[0] + "' --property " + opt.property + " --seed " + std::to_string(opt.seed) + " --hashes " + std::to_string(n) + (opt.thorough ? " --thorough" : "") + (opt.only.empty() ? "" : " --only " + opt.only);
        FILE* f = popen(cmd.c_str(), "r"); unsigned long long v; u64 k = 0;
        while (k < n && fscanf(f, "%llu", &v) == 1) { if (first_hashes[k] && v != first_hashes[k]) { fprintf(stderr, "run %llu differs in a fresh process\n", (unsigned long long)k); exit_code = 2; } ++k; }
        pclose(f); fresh = k;
    }
    double wall = mono() - t0;
    if (!opt.out.empty()) {
        std::ofstream f(opt.out);
        f << "{\"property\": " << json_str(opt.property) << ", \"runs\": " << tot.runs << ", \"nontrivial\": " << tot.nontrivial << ", \"distinct\": " << distinct.size()
          << ", \"steps\": " << tot.steps << ", \"syncs\": " << tot.syncs << ", \"switches\": " << tot.switches << ", \"preemptions\": " << tot.preemptions
          << ", \"sim_seconds\": " << tot.sim_ns * 1e-9 << ", \"max_threads\": " << tot.threads_max << ", \"audited_twice\": " << tot.audited << ", \"audited_fresh_process\": " << fresh
          << ", \"runs_with_fault\": " << tot.runs_with_fault << ", \"search_s\": " << t_search << ", \"wall_s\": " << wall << ", \"truncated\": " << (tot.runs < opt.runs && exit_code == 0 ? "true" : "false");
        auto counts = [&](char const* key, NamedCount const* t) { f << ", \"" << key << "\": {"; for (int i = 0; i < max_names && t[i].name[0]; ++i) f << (i ? ", " : "") << json_str(t[i].name) << ": " << t[i].count; f << "}"; };
        counts("faults", tot.faults); counts("probes", tot.probes);
        f << ", \"samples\": ["; for (size_t i = 0; i < samples.size() && i < 5; ++i) f << (i ? ", " : "") << json_str(samples[i]); f << "]";
        f << ", \"findings\": {"; { bool first = true; for (auto& e : findings) { f << (first ? "" : ", ") << json_str(e.first) << ": {\"count\": " << e.second.first << ", \"message\": " << json_str(e.second.second) << "}"; first = false; } } f << "}";
        f << ", \"minimiser_runs\": " << min_tried << ", \"violation\": " << (exit_code == 1 ? "{\"class\": " + json_str(vcls) + ", \"message\": " + json_str(vmsg) + ", \"replay\": " + json_str(replay_path) + "}" : std::string("null")) << "}\n";
    }
    if (exit_code == 1) printf("[%s] %s\nVIOLATION property=%s replay=%s\n", vcls.c_str(), vmsg.c_str(), opt.property.c_str(), replay_path.c_str());
    return exit_code;
}
