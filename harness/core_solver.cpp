// Solvers: C09 histories of one solver object, C10 failures, C15 solvers on several threads;
// C16 timers and reports under wall-clock jumps.
#include "core_common.hpp"
#include "dense_solver.hpp"
#include "solver/Solver.hpp"
#include "KPM.hpp"
#include "utils/Chrono.hpp"
#include <algorithm>
#include <cstdio>
#include <regex>
#include <thread>

using namespace core;

namespace {

template<class Ref> std::vector<cd> values(Ref const& r) {
    std::vector<cd> v;
    visit_scalar(r.tag, const_cast<void*>(r.data), [&](auto* p) { idx_t n = r.ndim == 1 ? r.shape[0] : r.shape[0] * r.shape[1]; for (idx_t i = 0; i < n; ++i) v.push_back(cd(p[i])); });
    return v;
}
struct Spectrum { std::vector<double> vals; DenseXcd vecs; double scale = 1; };
Spectrum solve_reference(HamSnap const& h) {
    Spectrum s; jacobi(dense(h), s.vals, s.vecs);
    for (double e : s.vals) s.scale = std::max(s.scale, std::abs(e));
    return s;
}
// what is wrong with the eigenpairs, or empty
std::string check_pairs(HamSnap const& h, Spectrum const& ref, std::vector<cd> const& vals, std::vector<cd> const& vecs, bool rows_cols_ok) {
    size_t n = static_cast<size_t>(h.rows);
    double tol = (h.scalar < 2 ? 2e-4 : 1e-9) * ref.scale;
    if (vals.size() != n) return S(static_cast<long long>(vals.size())) + " eigenvalues of a Hamiltonian of " + S(h.rows) + " orbitals";
    for (size_t i = 0; i < n; ++i) if (!(std::abs(vals[i] - ref.vals[i]) <= tol)) return "eigenvalue " + S(static_cast<long long>(i)) + " is " + F(vals[i].real()) + " instead of " + F(ref.vals[i]);
    if (vecs.size() != n * n || !rows_cols_ok) return "wrong number of eigenvectors";
    auto m = dense(h);
    for (size_t j = 0; j < n; ++j) {
        double norm = 0;
        for (size_t i = 0; i < n; ++i) {
            cd hv = 0; for (size_t k = 0; k < n; ++k) hv += m(static_cast<idx_t>(i), static_cast<idx_t>(k)) * vecs[j * n + k];
            norm += std::norm(vecs[j * n + i]);
            if (!(std::abs(hv - vals[j] * vecs[j * n + i]) <= 10 * tol)) return "H v != E v for eigenpair " + S(static_cast<long long>(j));
        }
        if (!(std::abs(norm - 1) < 1e-3)) return "eigenvector " + S(static_cast<long long>(j)) + " is not normalised";
    }
    return {};
}
double gauss(double en, double e, double b) { return std::exp(-0.5 * (en - e) * (en - e) / (b * b)) / (b * std::sqrt(2 * 3.14159265358979323846)); }

enum Access { a_values, a_vectors, a_dos, a_spatial, a_solve, a_report };
// one access; the violation text, or empty
std::string use(TestSolver& s, int what, HamSnap const& h, Spectrum const& ref) {
    std::vector<cd> vals, vecs; bool shape_ok = true;
    switch (what) {
        case a_values: { auto r = [&] { sim::Loud l; return s.eigenvalues(); }(); vals = values(r); if (vals.size() != ref.vals.size()) return "wrong number of eigenvalues";
            for (size_t i = 0; i < vals.size(); ++i) if (!(std::abs(vals[i] - ref.vals[i]) <= (h.scalar < 2 ? 2e-4 : 1e-9) * ref.scale)) return "eigenvalue " + S(static_cast<long long>(i)) + " is " + F(vals[i].real()) + " instead of " + F(ref.vals[i]);
            return {}; }
        case a_vectors: {
            auto v = [&] { sim::Loud l; return s.eigenvectors(); }(); vecs = values(v); shape_ok = v.ndim == 2 && v.shape[0] == h.rows && v.shape[1] == h.rows && (h.rows == 1 || !v.is_row_major);
            auto e = [&] { sim::Loud l; return s.eigenvalues(); }(); vals = values(e);
            return check_pairs(h, ref, vals, vecs, shape_ok);
        }
        case a_dos: {
            int n = 1 + static_cast<int>(sim::draw(3)); ArrayXf e(n); float b = 0.25f + 0.25f * static_cast<float>(sim::draw(3));
            for (int i = 0; i < n; ++i) e[i] = static_cast<float>(dyadic(-8, 8, 4));
            auto dos = [&] { sim::Loud l; return s.calc_dos(e, b); }();
            if (dos.size() != n) return "density of states of the wrong size";
            for (int i = 0; i < n; ++i) { double sum = 0; for (double en : ref.vals) sum += gauss(en, e[i], b); if (!(std::abs(dos[i] - sum) <= 1e-3 * (1 + sum) * ref.scale)) return "dos(" + F(e[i]) + ") is " + F(dos[i]) + " instead of " + F(sum); }
            return {};
        }
        case a_spatial: {
            float e = static_cast<float>(dyadic(-8, 8, 4)), b = 0.25f + 0.25f * static_cast<float>(sim::draw(3));
            auto ldos = [&] { sim::Loud l; return s.calc_spatial_ldos(e, b); }();
            if (ldos.size() != h.rows) return "spatial ldos of the wrong size";
            for (idx_t i = 0; i < h.rows; ++i) { double sum = 0; for (size_t k = 0; k < ref.vals.size(); ++k) sum += std::norm(ref.vecs(i, static_cast<idx_t>(k))) * gauss(ref.vals[k], e, b); if (!(std::abs(ldos[i] - sum) <= 2e-3 * (1 + sum) * ref.scale)) return "ldos of site " + S(i) + " is " + F(ldos[i]) + " instead of " + F(sum); }
            return {};
        }
        case a_solve: { sim::Loud l; s.solve(); return {}; }
        default: { sim::Loud l; s.report(sim::flip()); return {}; }
    }
}
char const* const access_name[] = {"eigenvalues", "eigenvectors", "dos", "spatial ldos", "solve", "report"};

// ---- C09 -------------------------------------------------------------------------------------------
SCENARIO(C09, history, 10) {
    sim::Quiet quiet;
    Faults faults;
    struct Item { KModel km; Recipe recipe; HamSnap ham; Spectrum ref; };
    std::vector<Item> pool; std::string history;
    auto refresh = [](Item& i) { i.ham = snap_ham(fresh_model(i.recipe)->hamiltonian()); i.ref = solve_reference(i.ham); };
    int npool = 1 + static_cast<int>(sim::draw(3));
    for (int i = 0; i < npool; ++i) { Item it; it.km = draw_kmodel(sim::flip(1, 4), 16); it.recipe = it.km.recipe; refresh(it); pool.push_back(it); }
    Item current = pool[0];
    std::unique_ptr<TestSolver> s;
    { auto m = fresh_model(current.recipe); if (sim::flip()) m->eval(); DenseConfig c; c.faults = &faults; sim::Loud l; s.reset(new TestSolver(*m, c)); }
    if (faults.solves) sim::violation("not-lazy", "the constructor solves");
    bool solved = false; int accesses = 0, changes = 0, failures = 0; long expected_solves = 0;
    auto context = [&] { return "; history: " + history; };
    int ops = 3 + static_cast<int>(sim::draw(sim::thorough() ? 16 : 9));
    for (int op = 0; op < ops; ++op) {
        switch (sim::draw(9)) {
            case 0: { // another model
                current = pool[sim::draw(pool.size())]; auto m = fresh_model(current.recipe); if (sim::flip()) m->eval();
                { sim::Loud l; s->set_model(*m); }
                if (sim::flip(1, 3)) { m->set_wave_vector({0.5f, 0.25f, 0}); if (sim::flip()) { m->hamiltonian(); } }  // the solver has its own copy
                history += "set model; "; solved = false; ++changes;
                break;
            }
            case 1: { sim::Loud l; s->clear(); history += "clear; "; solved = false; ++changes; break; }
            case 2: { // a model which can't be evaluated, or no memory to replace the model
                Item next = pool[sim::draw(pool.size())]; auto m = fresh_model(next.recipe);
                bool callback = sim::flip();
                if (!callback && sim::flip()) m->eval();
                if (callback) arm_callbacks(static_cast<long>(sim::draw(8))); else sim::fail_alloc_in(sim::draw(sim::flip() ? 6 : 120));
                auto error = attempt([&] { sim::Loud l; s->set_model(*m); });
                bool fired = callback ? disarm_callbacks() : sim::fail_alloc_off();
                history += std::string("set model") + (fired ? callback ? " (callback fails); " : " (allocation fails); " : "; ");
                if (!error.empty() && !fired) sim::violation("error-stays", "set_model fails although nothing fails: " + error + context());
                if (error.empty() && fired && callback) sim::violation("error-lost", "set_model: a callback failed, the caller got no error" + context());
                if (error.empty()) { current = next; solved = false; ++changes; } else ++failures;
                break;
            }
            case 3: case 4: { // the eigensolver or an allocation fails during an access
                int what = static_cast<int>(sim::draw(5)); bool eigen = sim::flip();
                if (eigen) { faults.fail_in = static_cast<long>(sim::draw(5)); faults.fired = false; } else sim::fail_alloc_in(sim::draw(12));
                auto before = faults.solves; std::string wrong;
                auto error = attempt([&] { wrong = use(*s, what, current.ham, current.ref); });
                bool fired = eigen ? faults.fired : sim::fail_alloc_off();
                faults.fail_in = -1; faults.fired = false;
                history += std::string(access_name[what]) + (fired ? eigen ? " (eigensolver fails); " : " (allocation fails); " : "; ");
                if (!error.empty() && !fired) sim::violation("error-stays", std::string(access_name[what]) + " fails although nothing fails: " + error + context());
                if (fired && eigen && error.empty()) sim::violation("error-lost", "the eigensolver failed, the caller of " + std::string(access_name[what]) + " got no error" + context());
                if (error.empty() && !wrong.empty()) sim::violation("stale", wrong + context());
                if (faults.solves - before > 1 && !eigen) sim::violation("solved-twice", S(faults.solves - before) + " solves in one access" + context());
                if (solved && faults.solves != before && error.empty()) sim::violation("solved-twice", "solved again although nothing changed" + context());
                if (error.empty() ? what != a_report : (faults.solves > before && !eigen)) solved = true;   // a failure after the solve does not undo it
                failures += fired;
                break;
            }
            case 5: { // the Python module hands out the model of a solver: solver.set_wave_vector clears, then changes it
                Cartesian k{static_cast<float>(dyadic(-8, 8, 8)), static_cast<float>(dyadic(-8, 8, 8)), 0};
                auto changed = current; changed.recipe.k = k;
                if (attempt([&] { refresh(changed); }).size()) break;
                { sim::Loud l; s->clear(); const_cast<Model&>(s->get_model()).set_wave_vector(k); }
                current = changed; history += "clear and set wave vector; "; solved = false; ++changes;
                break;
            }
            case 6: { // what is handed out with the model
                auto sys = [&] { sim::Loud l; return s->system(); }();
                auto expect = fresh_model(current.recipe);
                if (!(snap_system(*sys) == snap_system(*expect->system()))) sim::violation("stale", "system() is not that of the current model" + context());
                if (!(snap_ham(s->get_model().hamiltonian()) == current.ham)) sim::violation("stale", "get_model() is not the current model" + context());
                history += "model; ";
                break;
            }
            default: {
                int what = static_cast<int>(sim::draw(6)); auto before = faults.solves; std::string wrong;
                history += std::string(access_name[what]) + "; ";
                auto error = attempt([&] { wrong = use(*s, what, current.ham, current.ref); });
                if (!error.empty()) sim::violation("error-stays", std::string(access_name[what]) + " fails although nothing fails: " + error + context());
                if (!wrong.empty()) sim::violation("stale", wrong + context());
                if (what == a_report) { if (faults.solves != before) sim::violation("not-lazy", "report() solves" + context()); break; }
                if (solved && faults.solves != before) sim::violation("solved-twice", "solved again although nothing changed" + context());
                if (!solved && faults.solves - before > 1) sim::violation("solved-twice", S(faults.solves - before) + " solves in one access" + context());
                solved = true; ++accesses;
                if (changes || failures) sim::nontrivial();
            }
        }
    }
    for (int what : {a_vectors, a_dos, a_spatial}) { auto wrong = use(*s, what, current.ham, current.ref); if (!wrong.empty()) sim::violation("stale", wrong + " (at the end)" + context()); }
    sim::describe(history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    { sim::Loud l; s.reset(); }
}

// ---- C10 -------------------------------------------------------------------------------------------
SCENARIO(C10, solver, 3) {
    sim::Quiet quiet;
    Faults faults; auto km = draw_kmodel(sim::flip(1, 4), 14); auto m = fresh_model(km.recipe);
    auto h = snap_ham(m->hamiltonian()); auto ref = solve_reference(h);
    std::string history; int hits = 0;
    { DenseConfig c; c.faults = &faults; sim::Loud l; TestSolver warm(*m, c); sim::Quiet q; use(warm, a_dos, h, ref); use(warm, a_spatial, h, ref); }
    for (int round = 0; round < (sim::thorough() ? 8 : 4); ++round) {
        auto news = sim::live_new_blocks();
        {
            std::unique_ptr<TestSolver> s; DenseConfig c; c.faults = &faults;
            auto steps = 1 + sim::draw(5);
            for (std::uint64_t i = 0; i < steps; ++i) {
                auto at = sim::draw(40); bool persistent = sim::flip(1, 6); std::string what, wrong, error;
                sim::fail_alloc_in(at, persistent);
                int w = -1;
                if (!s) { what = "create"; error = attempt([&] { sim::Loud l; s.reset(new TestSolver(*m, c)); }); }
                else if (sim::flip(1, 4)) { what = "set model"; error = attempt([&] { sim::Loud l; s->set_model(*m); }); }
                else { w = static_cast<int>(sim::draw(6)); what = access_name[w]; error = attempt([&] { wrong = use(*s, w, h, ref); }); }
                bool fired = sim::fail_alloc_off(); hits += fired;
                history += what + (fired ? " (allocation " + S(static_cast<long long>(at)) + " fails); " : "; ");
                if (!error.empty() && !fired) sim::violation("error-stays", what + " fails although nothing fails: " + error + "; " + history);
                if (!error.empty() && error != "bad_alloc") sim::violation("wrong-error", "an allocation failed, the caller of " + what + " got: " + error + "; " + history);
                if (error.empty() && !wrong.empty()) sim::violation("retry-differs", wrong + "; " + history);
            }
            if (!s) { sim::Loud l; s.reset(new TestSolver(*m, c)); }
            for (int w : {a_vectors, a_dos, a_spatial}) { auto wrong = use(*s, w, h, ref); if (!wrong.empty()) sim::violation("retry-differs", wrong + "; " + history); }
            { sim::Loud l; s.reset(); }
        }
        if (sim::live_new_blocks() != news) sim::violation("leak", S(static_cast<long long>(sim::live_new_blocks() - news)) + " blocks leaked; " + history);
    }
    sim::describe(history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (hits) sim::nontrivial();
}

// ---- C15 -------------------------------------------------------------------------------------------
SCENARIO(C15, solvers, 3) {
    struct Job { std::unique_ptr<TestSolver> solver; HamSnap h; Spectrum ref; Faults faults; std::vector<int> uses; std::string wrong; std::unique_ptr<Model> next; HamSnap h2; Spectrum ref2; };
    std::vector<std::unique_ptr<Job>> jobs; std::string text;
    {
        sim::Quiet quiet;
        auto km = draw_kmodel(sim::flip(1, 4), 12); auto shared = fresh_model(km.recipe);
        if (sim::flip()) shared->eval();
        int n = 2 + static_cast<int>(sim::draw(3));
        for (int i = 0; i < n; ++i) {
            jobs.emplace_back(new Job); auto& j = *jobs.back();
            Recipe r = km.recipe; Model m(*shared);
            if (sim::flip()) { r.k = {static_cast<float>(dyadic(-8, 8, 8)), 0.25f, 0}; m.set_wave_vector(r.k); }
            j.h = snap_ham(fresh_model(r)->hamiltonian()); j.ref = solve_reference(j.h);
            DenseConfig c; c.faults = &j.faults;
            { sim::Loud l; j.solver.reset(new TestSolver(m, c)); }
            int u = 1 + static_cast<int>(sim::draw(3)); for (int k = 0; k < u; ++k) j.uses.push_back(static_cast<int>(sim::draw(6)));
            if (sim::flip(1, 3)) { Recipe r2 = km.recipe; r2.k = {0.5f, 0, 0}; j.next = fresh_model(r2); j.h2 = snap_ham(fresh_model(r2)->hamiltonian()); j.ref2 = solve_reference(j.h2); }
        }
        text = S(n) + " solvers, " + S(jobs[0]->h.rows) + " orbitals, " + scalar_name(jobs[0]->h.scalar);
        sim::describe(text); sim::nontrivial();
    }
    std::vector<std::thread> threads;
    for (auto& p : jobs) {
        auto* j = p.get();
        threads.emplace_back([j] {
            for (int w : j->uses) { sim::yield_point(); sim::Quiet q; auto wrong = use(*j->solver, w, j->h, j->ref); if (!wrong.empty() && j->wrong.empty()) j->wrong = wrong; }
            if (j->next) { j->solver->set_model(*j->next); sim::Quiet q; auto wrong = use(*j->solver, a_vectors, j->h2, j->ref2); if (!wrong.empty() && j->wrong.empty()) j->wrong = wrong + " after set_model"; }
        });
    }
    for (auto& t : threads) t.join();
    sim::Quiet quiet;
    for (auto& j : jobs) { if (!j->wrong.empty()) sim::violation("parallel-differs", j->wrong + "; " + text); if (j->faults.solves > 2) sim::violation("solved-twice", S(j->faults.solves) + " solves; " + text); }
}

// ---- C16 -------------------------------------------------------------------------------------------
// Durations as printed: the interval [lo, hi] of seconds they may stand for; false if not well formed
bool parse_duration(std::string const& t, double& lo, double& hi) {
    static std::regex const ms("(\\d+)(\\.(\\d+))?ms"), sec("(\\d+)(\\.(\\d+))?s"), min("(\\d+):(\\d\\d)"), hour("(\\d+):(\\d\\d):(\\d\\d)");
    std::smatch m; double v, unit;
    if (std::regex_match(t, m, ms) || std::regex_match(t, m, sec)) {
        unit = t.find("ms") != std::string::npos ? 1e-3 : 1;
        v = std::stod(m[1].str() + m[2].str()) * unit;
        unit *= std::pow(10.0, -static_cast<double>(m[3].length()));
        if (m[1].length() > 3) return false;
    } else if (std::regex_match(t, m, hour)) {
        if (std::stoi(m[2]) > 59 || std::stoi(m[3]) > 59) return false;
        v = std::stod(m[1]) * 3600 + std::stod(m[2]) * 60 + std::stod(m[3]); unit = 1;
    } else if (std::regex_match(t, m, min)) {
        if (std::stoi(m[1]) > 59 || std::stoi(m[2]) > 59) return false;
        v = std::stod(m[1]) * 60 + std::stod(m[2]); unit = 1;
    } else return false;
    lo = v - unit; hi = v + unit;
    return true;
}
std::int64_t draw_jump() {
    static std::int64_t const scale[] = {1000, 1000000, 1000000000ll, 3600ll * 1000000000ll, 86400ll * 1000000000ll};
    auto v = scale[sim::draw(5)] * static_cast<std::int64_t>(1 + sim::draw(900));
    return sim::flip() ? v : -v;
}
std::uint64_t draw_duration() {
    // around the borders between the formats, and anywhere
    static double const border[] = {1e3, 1e6, 1e7, 1e8, 1e9, 1e10, 2e10, 6e10, 119e9, 3600e9, 7199e9, 36000e9, 86400e9, 30 * 86400e9};
    double b = border[sim::draw(14)];
    if (sim::flip()) return static_cast<std::uint64_t>(b * static_cast<double>(sim::draw(2000)) / 1000.0);
    return static_cast<std::uint64_t>(b) + sim::draw(20000000) - std::min<std::uint64_t>(static_cast<std::uint64_t>(b), 10000000);
}

SCENARIO(C16, timers, 8) {
    sim::Quiet quiet;
    struct T { Chrono c; std::uint64_t tic_lo, tic_hi, lo = 0, hi = 0; };
    int n = 1 + static_cast<int>(sim::draw(3)); std::vector<T> timers;
    for (int i = 0; i < n; ++i) { auto a = sim::now_ns(); T t; auto b = sim::now_ns(); t.tic_lo = a; t.tic_hi = b; timers.push_back(t); }
    std::string history; int jumps = 0, reads = 0;
    int ops = 4 + static_cast<int>(sim::draw(sim::thorough() ? 30 : 14));
    for (int op = 0; op < ops; ++op) {
        auto i = sim::draw(timers.size()); auto& t = timers[i]; std::string tag = S(static_cast<long long>(i));
        switch (sim::draw(8)) {
            case 0: { t.tic_lo = sim::now_ns(); { sim::Loud l; t.c.tic(); } t.tic_hi = sim::now_ns(); history += tag + ".tic; "; break; }
            case 1: case 2: case 3: {
                bool acc = sim::flip(); auto a = sim::now_ns(); { sim::Loud l; if (acc) t.c.toc_accumulate(); else t.c.toc(); } auto b = sim::now_ns();
                if (!acc) t.lo = t.hi = 0;
                t.lo += a > t.tic_hi ? a - t.tic_hi : 0; t.hi += b - t.tic_lo;
                history += tag + (acc ? ".toc_accumulate; " : ".toc; ");
                break;
            }
            case 4: { // timeit
                auto d = draw_duration(); auto j = sim::flip() ? draw_jump() : 0; std::uint64_t a = sim::now_ns();
                { sim::Loud l; t.c.timeit([&] { sim::Quiet q; sim::advance_ns(d); if (j) { sim::jump_wall_ns(j); ++jumps; } }); }
                auto b = sim::now_ns();
                t.tic_lo = a; t.tic_hi = b - d; t.lo = d; t.hi = b - a; history += tag + ".timeit; ";
                break;
            }
            case 5: { auto j = draw_jump(); sim::jump_wall_ns(j); ++jumps; history += "clock set by " + F(static_cast<double>(j) * 1e-9) + " s; "; break; }
            default: { auto d = draw_duration(); sim::advance_ns(d); history += F(static_cast<double>(d) * 1e-9) + " s pass; "; break; }
        }
        double e; std::string text;
        { sim::Loud l; e = t.c.elapsed_seconds(); text = t.c.str(); }
        double lo = static_cast<double>(t.lo) * 1e-9, hi = static_cast<double>(t.hi) * 1e-9, eps = 1e-9 + 1e-12 * hi, plo, phi;
        if (e < lo - eps || e > hi + eps) sim::violation("wrong-duration", "elapsed " + F(e) + " s, really between " + F(lo) + " and " + F(hi) + " s; " + history);
        if (!parse_duration(text, plo, phi)) sim::violation("malformed", "a duration of " + F(e) + " s is printed as '" + text + "'; " + history);
        if (e < plo - 1e-6 * e || e > phi + 1e-6 * e) sim::violation("wrong-text", "a duration of " + F(e) + " s is printed as '" + text + "'; " + history);
        ++reads;
    }
    sim::describe(history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (jumps && reads) sim::nontrivial();
}

// every duration-like token of a report; the text of what is wrong, or empty
std::string check_report(std::string const& report, double real_seconds) {
    static std::regex const token("(-?\\d[\\d.:]*(ms|s)\\b|-?\\d+:\\d\\d(:\\d\\d)?|-?(nan|inf)(ms|s)\\b)");
    int found = 0;
    for (std::sregex_iterator it(report.begin(), report.end(), token), end; it != end; ++it) {
        std::string t = (*it)[1]; double lo, hi;
        if (!parse_duration(t, lo, hi)) return "'" + t + "' in: " + report;
        if (lo > real_seconds) return "'" + t + "' although only " + F(real_seconds) + " s passed, in: " + report;
        ++found;
    }
    return found ? std::string() : "no duration in: " + report;
}

// The real computation of moments, which takes its time
struct SlowCompute : public kpm::Compute::Interface {
    kpm::DefaultCompute inner; std::function<void()> work;
    SlowCompute(kpm::DefaultCompute c, std::function<void()> w) : inner(std::move(c)), work(std::move(w)) {}
    void moments(kpm::MomentsRef m, kpm::Starter const& s, kpm::AlgorithmConfig const& ac, kpm::OptimizedHamiltonian const& oh) const override {
        work(); inner.moments(std::move(m), s, ac, oh); work();
    }
};
char const* const kpm_name[] = {"dos", "greens", "greens vector", "spatial ldos", "ldos", "moments", "conductivity"};

SCENARIO(C16, reports, 5) {
    sim::Quiet quiet;
    auto km = draw_kmodel(false, 16); Recipe r = km.recipe;
    std::string history; int jumps = 0;
    auto disturb = [&] { if (sim::flip()) { sim::jump_wall_ns(draw_jump()); ++jumps; } if (sim::flip()) sim::advance_ns(draw_duration() % 5000000000ull); };
    // a callback during which the clock is set, as every evaluation calls it
    auto onsite = [&](ComplexArrayRef, CartesianArrayConstRef, string_view) { sim::Quiet q; disturb(); };
    std::unique_ptr<Model> m = fresh_model(r);
    m->add(OnsiteModifier([&](ComplexArrayRef e, CartesianArrayConstRef p, string_view s) { onsite(e, p, s); }, false, false));
    auto real = [&](std::uint64_t start) { return static_cast<double>(sim::now_ns() - start) * 1e-9; };
    auto fail = [&](std::string const& w) { sim::violation("report", w + "; " + history); };
    auto t0 = sim::now_ns();
    std::string text; double a, b;
    { sim::Loud l; m->system(); m->hamiltonian(); text = m->report(); a = m->system_build_seconds(); b = m->hamiltonian_build_seconds(); }
    history += "model; ";
    if (a < 0 || b < 0 || a + b > real(t0) + 1e-6) fail("the model reports build times of " + F(a) + " and " + F(b) + " s, really " + F(real(t0)));
    auto w = check_report(text, real(t0)); if (!w.empty()) fail(w);
    if (sim::flip()) { // solver
        Faults f; DenseConfig c; c.faults = &f; TestSolver s(*m, c);
        int n = 1 + static_cast<int>(sim::draw(3));
        for (int i = 0; i < n; ++i) {
            f.takes_ns = sim::flip() ? draw_duration() : 0; f.clock_jumps = sim::flip() ? draw_jump() : 0; jumps += f.clock_jumps != 0;
            auto t = sim::now_ns();
            { sim::Loud l; s.solve(); text = s.report(sim::flip()); s.clear(); }
            history += "solve; ";
            w = check_report(text, real(t)); if (!w.empty()) fail(w);
            double lo, hi; auto last = text.substr(text.rfind(' ') + 1);
            if (!parse_duration(last, lo, hi) || hi < static_cast<double>(f.takes_ns) * 1e-9) fail("the solver took " + F(static_cast<double>(f.takes_ns) * 1e-9) + " s, reported: " + text);
        }
    } else { // KPM: the clock is set by the progress callback
        auto h = snap_ham(m->hamiltonian()); double lo = 1e9, hi = -1e9;
        { std::vector<double> d(static_cast<size_t>(h.rows)), o(static_cast<size_t>(h.rows)); for (auto& t : h.nz) { if (std::get<0>(t) == std::get<1>(t)) d[static_cast<size_t>(std::get<0>(t))] += std::get<2>(t); else o[static_cast<size_t>(std::get<0>(t))] += std::hypot(std::get<2>(t), std::get<3>(t)); } for (size_t i = 0; i < d.size(); ++i) { lo = std::min(lo, d[i] - o[i]); hi = std::max(hi, d[i] + o[i]); } }
        kpm::Config config; config.min_energy = static_cast<float>(lo - 1); config.max_energy = static_cast<float>(hi + 1);
        config.algorithm.optimal_size = sim::flip(); config.algorithm.interleaved = sim::flip(); config.matrix_format = sim::flip() ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
        std::unique_ptr<KPM> k;
        std::uint64_t worked = 0;   // what the computation of moments certainly took
        auto work = [&] { sim::Quiet q; disturb(); if (sim::flip()) { auto d = draw_duration() % 5000000000ull; sim::advance_ns(d); worked += d; } };
        int threads = 1 + static_cast<int>(sim::draw(3));
        auto progress = [&](idx_t, idx_t) { sim::Quiet q; disturb(); };
        { sim::Loud l; k.reset(new KPM(*m, SlowCompute(kpm::DefaultCompute(threads, progress), work), config)); }
        ArrayXd energy(2); energy << lo, hi; double broad = (hi - lo + 2) * 0.1;
        int n = 1 + static_cast<int>(sim::draw(4));
        for (int i = 0; i < n; ++i) {
            int kind = static_cast<int>(sim::draw(7)); if (kind == 3 && m->is_multiorbital()) kind = 1;
            VectorXcd alpha = VectorXcd::Constant(h.rows, 1.0);
            disturb(); worked = 0;
            auto t = sim::now_ns();
            {
                sim::Loud l;
                switch (kind) {
                    case 0: k->calc_dos(energy, broad, 1 + static_cast<int>(sim::draw(4))); break;
                    case 1: k->calc_greens(0, h.rows - 1, energy, broad); break;
                    case 2: k->calc_greens_vector(0, {0, h.rows - 1}, energy, broad); break;
                    case 3: k->calc_spatial_ldos(energy, broad, FreeformShape([](CartesianArrayConstRef p) { return ArrayX<bool>::Constant(p.x().size(), true).eval(); }, {1000, 1000, 1000})); break;
                    case 4: k->calc_ldos(energy, broad, {0, 0, 0}); break;
                    case 5: k->moments(8, alpha); break;
                    default: k->calc_conductivity(energy, broad, 300, "xy", 1 + static_cast<int>(sim::draw(2)), 5); break;
                }
            }
            history += std::string(kpm_name[kind]) + "; ";
            auto passed = real(t), least = static_cast<double>(worked) * 1e-9;
            auto stats = k->get_core().get_stats(); double mt = stats.moments_timer.elapsed_seconds(), ht = stats.hamiltonian_timer.elapsed_seconds();
            if (mt < 0 || ht < 0 || mt > passed || mt < least - 1e-6) fail("the moments took " + F(least) + " of " + F(passed) + " s, reported: " + F(mt) + " s");
            if (!(stats.eps() >= 0)) fail("speed is " + F(stats.eps()));
            for (bool shortform : {true, false}) {
                { sim::Loud l; text = k->report(shortform); }
                w = check_report(text, real(t0)); if (!w.empty()) fail(w);
                double l2, h2; auto last = text.substr(text.rfind(' ') + 1);
                if (!parse_duration(last, l2, h2) || l2 > passed || h2 < least - 1e-6) fail(std::string(kpm_name[kind]) + " took " + F(passed) + " s, of which the moments " + F(least) + " s, reported: " + text);
            }
        }
    }
    sim::describe(history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (jumps) sim::nontrivial();
}

} // namespace
