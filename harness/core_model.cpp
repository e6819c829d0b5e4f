// C08: histories of changes and evaluations of models.
// C10: failures injected into evaluations. C15: models on several threads.
#include "core_common.hpp"
#include "../sim/sim.hpp"
#include <list>
#include <thread>

using namespace core;

namespace {

struct Tracked {
    std::unique_ptr<Model> model;
    Recipe recipe;
};
// things handed out by models, which must never change
struct HandedOut {
    std::vector<std::pair<std::shared_ptr<System const>, SysSnap>> systems;
    std::vector<std::pair<Hamiltonian, HamSnap>> hams;
    std::vector<std::pair<Lead, LeadSnap>> leads;
    void check() const {
        for (auto& s : systems) if (!(snap_system(*s.first) == s.second)) sim::violation("handed-out-changed", "a system which was handed out earlier changed");
        for (auto& h : hams) if (!(snap_ham(h.first) == h.second)) sim::violation("handed-out-changed", "a Hamiltonian which was handed out earlier changed");
        for (auto& l : leads) if (!(snap_lead(l.first) == l.second)) sim::violation("handed-out-changed", "a lead which was handed out earlier changed");
    }
};

Snap fresh_snap(Recipe const& r) { auto m = fresh_model(r); return take(*m); }

void check_model(Model const& m, Recipe const& r, std::string const& history, bool with_reference) {
    auto now = take(m);
    auto expect = fresh_snap(r);
    auto diff = difference(now, expect);
    if (!diff.empty()) sim::violation("model-history", diff + "; compared with a new model of the current ingredients [" + r.text() + "]; history: " + history);
    if (!with_reference || !now.sys_error.empty() || !now.ham_error.empty() || !now.lead_error.empty()) return;
    RefModel ref;
    if (!reference(r, ref, m)) return;
    auto d = compare_reference(*m.system(), now.ham, ref);
    if (d.empty()) { sim::probe("matched the reference model"); if (!r.leads.empty()) sim::probe("matched the reference model with leads"); if (r.shape && r.symmetry) sim::probe("matched the reference model with a periodic shape"); }
    else if (d != "skip") sim::violation("model-content", d + "; ingredients: " + r.lat->text() + ": " + r.text() + "; history: " + history);
}

// a request which the model has to reject
std::string reject(Model& m, Recipe const& r, int serial) {
    LatSpec const& l = *r.lat;
    std::string what;
    std::string error;
    switch (sim::draw(8)) {
        case 0: if (l.ndim() == 3) return {}; what = "primitive with too many dimensions"; error = attempt([&] { m.add(l.ndim() == 1 ? Primitive(1, 2, 1) : Primitive(2, 1, 3)); }); break;
        case 1: {
            what = "shape with too large an offset";
            auto s = FreeformShape([](CartesianArrayConstRef p) { return ArrayX<bool>::Constant(p.size(), true).eval(); }, {2, 2, 0});
            s.lattice_offset = {7, 0, 0};
            error = attempt([&] { m.add(s); });
            break;
        }
        case 2: what = "site generator without a name"; error = attempt([&] { m.add(SiteGenerator("", MatrixXcd::Zero(1, 1), [](System const&) { return CartesianArray(0); })); }); break;
        case 3: what = "site generator with a name in use"; error = attempt([&] { m.add(SiteGenerator("A", MatrixXcd::Zero(1, 1), [](System const&) { return CartesianArray(0); })); }); break;
        case 4: what = "site generator with an invalid energy"; error = attempt([&] { m.add(SiteGenerator("bad" + S(serial), MatrixXcd::Zero(1, 2), [](System const&) { return CartesianArray(0); })); }); break;
        case 5: if (l.families.empty()) return {}; what = "hopping generator with a name in use"; error = attempt([&] { m.add(HoppingGenerator("t0", cd(1), [](System const&) { return HoppingGenerator::Result{ArrayXi(0), ArrayXi(0)}; })); }); break;
        case 6: what = "hopping generator without a name"; error = attempt([&] { m.add(HoppingGenerator("", cd(1), [](System const&) { return HoppingGenerator::Result{ArrayXi(0), ArrayXi(0)}; })); }); break;
        default: what = "lead in an invalid direction"; error = attempt([&] { m.attach_lead(sim::flip() ? 0 : 3 + l.ndim(), Line({0, -1, 0}, {0, 1, 0})); }); break;
    }
    if (error.empty()) sim::violation("not-rejected", "accepted: " + what);
    sim::probe("rejected request");
    return "[rejected: " + what + "]";
}

void model_history(bool leads) {
    std::unique_ptr<sim::Quiet> quiet(new sim::Quiet); // single-threaded: the oracle and the system under test both run undisturbed
    LatOptions options; if (leads) { options.multiorbital_ok = false; options.force_ndim = sim::flip(1, 5) ? 3 : 2; }
    auto lat = std::make_shared<LatSpec const>(draw_lattice(options));
    std::list<Tracked> pool;
    HandedOut out;
    std::string history;
    int serial = 1;
    { Tracked t; t.recipe.lat = lat; t.model.reset(new Model(make_lattice(*lat))); pool.push_back(std::move(t)); }
    if (leads) for (int kind : {k_shape, k_lead}) {
        auto& t = pool.front(); auto g = draw_ingredient(*lat, t.recipe, kind, serial++);
        if (attempt([&] { sim::Loud l; apply_to(*t.model, *g); }).size()) continue;
        t.recipe.add(g); history += "add " + g->text() + "; ";
    }
    int evaluations = 0, changes_after = 0;
    auto loud = [&](std::function<void()> fn) { sim::Loud l; fn(); };
    int ops = (leads ? 1 : 3) + static_cast<int>(sim::draw((sim::thorough() ? 22 : 14) - (leads ? 6 : 0)));
    for (int op = 0; op < ops; ++op) {
        auto it = pool.begin(); std::advance(it, static_cast<long>(sim::draw(pool.size())));
        Tracked& t = *it;
        std::string tag = pool.size() > 1 ? S(std::distance(pool.begin(), it)) + ":" : "";
        switch (sim::draw(16)) {
            case 0: case 1: case 2: case 3: case 4: case 5: { // add
                auto g = draw_ingredient(*lat, t.recipe, draw_kind(*lat, t.recipe), serial++);
                auto error = attempt([&] { loud([&] { apply_to(*t.model, *g); }); });
                if (!error.empty()) { if (g->kind != k_shape) sim::violation("rejected", "adding " + g->text() + " failed: " + error); }
                history += tag + "add " + g->text() + (error.empty() ? "" : " (rejected)") + "; ";
                if (error.empty()) t.recipe.add(g);
                else {
                    // a new model must reject it as well
                    Recipe r = t.recipe; r.add(g);
                    if (attempt([&] { fresh_model(r); }).empty()) sim::violation("model-history", "adding " + g->text() + " failed: " + error + ", but a new model of the same ingredients accepts it; history: " + history);
                }
                if (evaluations) ++changes_after;
                break;
            }
            case 6: { // clear
                auto w = sim::draw(3);
                loud([&] { if (w == 0) t.model->clear_structure_modifiers(); else if (w == 1) t.model->clear_hamiltonian_modifiers(); else t.model->clear_all_modifiers(); });
                if (w != 1) t.recipe.structure.clear();
                if (w != 0) { t.recipe.onsite.clear(); t.recipe.hopping.clear(); }
                history += tag + (w == 0 ? "clear structure modifiers; " : w == 1 ? "clear hamiltonian modifiers; " : "clear all modifiers; ");
                if (evaluations) ++changes_after;
                break;
            }
            case 7: { // wave vector
                Cartesian k = {static_cast<float>(dyadic(-8, 8, 8)), static_cast<float>(dyadic(-4, 4, 8)), sim::flip() ? 0.0f : static_cast<float>(dyadic(-4, 4, 8))};
                switch (sim::draw(6)) {
                    case 0: k = Cartesian(0, 0, 0); break;
                    case 1: k = -t.recipe.k; break;
                    case 2: case 3: // close to the current one
                        if (sim::flip()) { attempt([&] { loud([&] { t.model->hamiltonian(); }); }); history += tag + "evaluate; "; ++evaluations; }
                        k = t.recipe.k;
                        for (int d = 0; d < lat->ndim(); ++d) k[d] = static_cast<float>(k[d] + dyadic(-2, 2, 1) * (sim::flip() ? 1.0 / 1024 : 1.0 / 65536));
                        break;
                    default: break;
                }
                loud([&] { t.model->set_wave_vector(k); });
                t.recipe.k = k; history += tag + "set wave vector; ";
                if (evaluations) ++changes_after;
                break;
            }
            case 8: { // copy or assign
                if (pool.size() < 3) {
                    Tracked c; c.recipe = t.recipe; loud([&] { c.model.reset(new Model(*t.model)); }); pool.push_back(std::move(c));
                    history += tag + "copy; ";
                } else {
                    auto other = pool.begin(); std::advance(other, static_cast<long>(sim::draw(pool.size())));
                    if (&*other != &t) { loud([&] { *other->model = *t.model; }); other->recipe = t.recipe; history += tag + "assign to " + S(std::distance(pool.begin(), other)) + "; "; }
                }
                break;
            }
            case 9: case 10: { // rejected request, sometimes on a model which had been evaluated
                std::string text; { sim::Loud l; text = reject(*t.model, t.recipe, serial++); }
                if (!text.empty()) history += tag + text + "; ";
                if (sim::flip()) check_model(*t.model, t.recipe, history, false);
                break;
            }
            case 11: { // evaluation during which a callback fails
                bool fired; std::string error;
                arm_callbacks(static_cast<long>(sim::draw(12)));
                auto w = sim::draw(3);
                error = attempt([&] { loud([&] { if (w == 0) t.model->system(); else if (w == 1) t.model->hamiltonian(); else t.model->eval(); }); });
                fired = disarm_callbacks();
                if (fired && error.compare(0, 9, "UserError")) sim::violation("error-lost", "a callback failed, but the caller of the evaluation got: " + (error.empty() ? "no error" : error));
                history += tag + (fired ? "evaluate (callback fails); " : "evaluate; ");
                ++evaluations;
                break;
            }
            case 12: { // hand out results
                attempt([&] { loud([&] {
                    auto s = t.model->system(); { sim::Quiet q; out.systems.push_back({s, snap_system(*s)}); }
                    if (sim::flip()) { auto h = t.model->hamiltonian(); { sim::Quiet q; out.hams.push_back({h, snap_ham(h)}); } }
                    if (sim::flip()) { auto const& ls = t.model->leads(); for (int i = 0; i < ls.size(); ++i) { auto l = ls[static_cast<size_t>(i)]; sim::Quiet q; out.leads.push_back({l, snap_lead(l)}); } }
                }); });
                history += tag + "hand out; "; ++evaluations;
                break;
            }
            default: { // evaluate and compare
                auto w = sim::draw(4);
                if (w == 0) attempt([&] { loud([&] { t.model->system(); }); });
                else if (w == 1) attempt([&] { loud([&] { t.model->hamiltonian(); }); });
                else if (w == 2) attempt([&] { loud([&] { t.model->leads(); }); });
                history += tag + "evaluate; ";
                if (w == 3) { history += "compare; "; check_model(*t.model, t.recipe, history, sim::flip(1, 3)); }
                ++evaluations;
            }
        }
    }
    sim::describe(lat->text() + ": " + history);
    for (auto& t : pool) check_model(*t.model, t.recipe, history, true);
    for (auto& t : pool) check_model(*t.model, t.recipe, history + "compare again; ", false);
    out.check();
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (evaluations && changes_after) sim::nontrivial();
}

SCENARIO(C08, history, 210) { model_history(false); }
SCENARIO(C08, lead_history, 80) { model_history(true); }

// Large enough for the hoppings to be modified in several portions
SCENARIO(C08, bulk, 1) {
    sim::Quiet quiet;
    int norb = 12 + static_cast<int>(sim::draw(4)), w = 18 + static_cast<int>(sim::draw(6)), h = 18 + static_cast<int>(sim::draw(6));
    MatrixXcd onsite = MatrixXcd::Zero(norb, norb), t(norb, norb);
    bool cplx = sim::flip(1, 3);
    for (int a = 0; a < norb; ++a) { onsite(a, a) = 0.25 * (a + 1); for (int b = 0; b < norb; ++b) t(a, b) = cd(1 + a - 0.25 * b, cplx ? 0.5 * b - a : 0.0) + 20.0; }
    auto lat = Lattice({1, 0, 0}, {0, 1, 0});
    lat.add_sublattice("A", {0, 0, 0}, onsite);
    lat.register_hopping_energy("t0", t);
    lat.add_hopping({1, 0, 0}, "A", "A", "t0"); lat.add_hopping({0, 1, 0}, "A", "A", "t0");
    sim::describe(S(norb) + " orbitals, " + S(w) + " x " + S(h) + " sites");
    std::unique_ptr<Model> m;
    { sim::Loud l; m.reset(new Model(lat, Primitive(w, h, 1))); if (sim::flip()) m->hamiltonian(); }
    std::vector<Ingr> modifiers;
    int rounds = 1 + static_cast<int>(sim::draw(2));
    for (int round = 0; round < rounds; ++round) {
        if (round && sim::flip()) { sim::Loud l; m->clear_hamiltonian_modifiers(); modifiers.clear(); }
        for (int i = 0, n = static_cast<int>(sim::draw(3)); i < n; ++i) {
            auto g = std::make_shared<Ingredient>(); g->kind = k_hopping; g->variant = sim::flip() ? 0 : 2; g->p[0] = dyadic(1, 6, 8); finish_ingredient(g);
            { sim::Loud l; m->add(*g->hopping); } modifiers.push_back(g);
        }
        { sim::Loud l; m->hamiltonian(); }
        auto ham = snap_ham(m->hamiltonian()); auto const& sys = *m->system();
        auto context = [&] { return "; " + S(norb) + " orbitals, " + S(w) + " x " + S(h) + " sites, " + S(static_cast<long long>(modifiers.size())) + " modifiers, round " + S(round); };
        if (sys.num_sites() != w * h || ham.rows != w * h * norb) sim::violation("model-content", "the system has " + S(sys.num_sites()) + " sites and " + S(ham.rows) + " orbitals" + context());
        long pairs = static_cast<long>(w - 1) * h + static_cast<long>(w) * (h - 1), zero = 0;
        for (idx_t i = 0; i < sys.num_sites(); ++i) for (Cartesian d : {Cartesian(1, 0, 0), Cartesian(0, 1, 0)}) {
            Cartesian p1 = sys.positions[i], p2 = p1 + d; cd f = 1; for (auto& g : modifiers) f *= hopping_factor(*g, p1, p2, "t0");
            bool inside = p2[0] < static_cast<float>((w - 1) / 2) + 0.5f && p2[1] < static_cast<float>((h - 1) / 2) + 0.5f;
            zero += inside && f == cd(0);
        }
        long expected = 2 * (pairs - zero) * norb * norb + static_cast<long>(w) * h * norb;
        if (static_cast<long>(ham.nz.size()) != expected) sim::violation("model-content", "the Hamiltonian has " + S(static_cast<long long>(ham.nz.size())) + " non-zeros, the ingredients define " + S(expected) + context());
        for (auto const& e : ham.nz) {
            int i = std::get<0>(e) / norb, j = std::get<1>(e) / norb, a = std::get<0>(e) % norb, b = std::get<1>(e) % norb;
            Cartesian p1 = sys.positions[i], p2 = sys.positions[j]; Cartesian d = p2 - p1; cd want = 0;
            if (i == j) want = onsite(a, b);
            else {
                bool forward = d[0] > 0.5f || d[1] > 0.5f;
                if (std::abs(std::abs(d[0]) + std::abs(d[1]) - 1) < 1e-3f) { want = forward ? t(a, b) : std::conj(t(b, a)); for (auto& g : modifiers) want *= forward ? hopping_factor(*g, p1, p2, "t0") : std::conj(hopping_factor(*g, p2, p1, "t0")); }
            }
            cd got(std::get<2>(e), std::get<3>(e));
            if (!(std::abs(got - want) <= 2e-4 * (1 + std::abs(want)))) { std::ostringstream o; o << "matrix element (" << std::get<0>(e) << "," << std::get<1>(e) << ") is " << got << ", the ingredients define " << want; sim::violation("model-content", o.str() + context()); }
        }
        if (modifiers.size() && pairs * norb * norb > 100000) { sim::nontrivial(); sim::probe("hoppings in several portions"); }
    }
}

// The hopping matrix from one lead cell to the next one, for a chain-like lattice with a complex hopping
SCENARIO(C08, lead_hopping, 6) {
    sim::Quiet quiet;
    bool complex_t = sim::flip();
    cd t(nonzero_dyadic(8, 4), complex_t ? nonzero_dyadic(8, 4) : 0.0);
    auto lat = Lattice({1, 0, 0}, {0, 1, 0});
    lat.add_sublattice("A", {0, 0, 0});
    lat.add_hopping({1, 0, 0}, "A", "A", t);
    lat.add_hopping({0, 1, 0}, "A", "A", cd(-1));
    int sign = sim::flip() ? 1 : -1;
    int n = 1 + static_cast<int>(sim::draw(3)); double w = 0.25 + n; // 2n + 1 sites
    Model m(lat, FreeformShape([w](CartesianArrayConstRef p) { ArrayX<bool> in(p.size()); for (idx_t i = 0; i < p.size(); ++i) in[i] = std::abs(p.x()[i]) < w && std::abs(p.y()[i]) < w; return in; }, {static_cast<float>(2 * w + 2), static_cast<float>(2 * w + 2), 0}));
    m.attach_lead(sign, Line({0, static_cast<float>(-w), 0}, {0, static_cast<float>(w), 0}));
    sim::describe("lead in direction " + S(sign) + " with hopping " + F(t.real()) + "+" + F(t.imag()) + "i");
    sim::nontrivial();
    auto h1 = dense(snap_ham(m.lead(0).h1()));
    // from the lead cell next to the system, displaced by `sign` along x, to the system: -sign along x
    cd expect = sign > 0 ? std::conj(t) : t;
    for (idx_t i = 0; i < h1.rows(); ++i) for (idx_t j = 0; j < h1.cols(); ++j) {
        cd e = i == j ? expect : cd(0);
        if (std::abs(h1(i, j) - e) < 1e-5) continue;
        if (i == j && sign > 0 && complex_t && std::abs(h1(i, j) - t) < 1e-5) { sim::soft_finding("lead-conjugate-hopping", "h1 of a lead holds t instead of conj(t)"); continue; }
        sim::violation("lead-content", "h1 of a lead in direction " + S(sign) + " differs from the lattice hoppings");
    }
}


char const* const targets[] = {"system", "hamiltonian", "leads", "everything", "report"};
void evaluate(Model& m, std::uint64_t target) {
    switch (target) {
        case 0: m.system(); break;
        case 1: m.hamiltonian(); break;
        case 2: m.leads(); break;
        case 3: m.eval(); break;
        default: m.report(); break;
    }
}

// Failures at points spread over a whole evaluation: callbacks and allocations
SCENARIO(C10, model, 10) {
    sim::Quiet quiet;
    auto lat = std::make_shared<LatSpec const>(draw_lattice());
    Recipe r = draw_recipe(lat, 4, true);
    if (attempt([&] { auto m = fresh_model(r); m->hamiltonian(); m->leads(); }).size()) return;
    auto expect = fresh_snap(r);
    { auto m = fresh_model(r); sim::Loud l; m->report(); }    // everything which is initialised once
    sim::describe(lat->text() + ": " + r.text());
    int rounds = sim::thorough() ? 12 : 6, hits = 0;
    for (int round = 0; round < rounds; ++round) {
        auto target = sim::draw(5);
        std::uint64_t callbacks, allocs;
        {
            std::unique_ptr<Model> m; { sim::Loud l; m = fresh_model(r); }
            auto a0 = sim::alloc_seq();
            arm_callbacks(-1);
            { sim::Loud l; evaluate(*m, target); }
            callbacks = static_cast<std::uint64_t>(callback_faults().calls); disarm_callbacks();
            allocs = sim::alloc_seq() - a0;
        }
        auto blocks = sim::live_blocks(), news = sim::live_new_blocks(); bool alloc_failed = false;
        std::string history = std::string("evaluate ") + targets[target];
        {
            std::unique_ptr<Model> m; { sim::Loud l; m = fresh_model(r); }
            int failures = 1 + static_cast<int>(sim::draw(3));
            for (int f = 0; f < failures; ++f) {
                bool use_callback = callbacks && sim::flip();
                bool persistent = sim::flip(1, 4);
                auto at = sim::draw(use_callback ? callbacks : std::max<std::uint64_t>(allocs, 1));
                if (use_callback) arm_callbacks(static_cast<long>(at), persistent); else sim::fail_alloc_in(at, persistent);
                auto error = attempt([&] { sim::Loud l; evaluate(*m, target); });
                bool fired = use_callback ? disarm_callbacks() : sim::fail_alloc_off();
                if (fired) { ++hits; if (!use_callback) alloc_failed = true; }
                history += (use_callback ? ", callback " : ", allocation ") + S(static_cast<long long>(at)) + (persistent ? " on" : "") + (fired ? " failed" : " would fail");
                if (fired && use_callback && error.compare(0, 9, "UserError")) sim::violation("error-lost", "a callback failed, but the caller got: " + (error.empty() ? "no error" : error) + "; " + history);
                if (!error.empty() && !fired) sim::violation("error-stays", "evaluation fails although nothing fails any more: " + error + "; " + history + "; ingredients: " + r.text());
                if (!error.empty() && !use_callback && error != "bad_alloc") sim::violation("wrong-error", "an allocation failed, the caller got: " + error + "; " + history);
                if (sim::flip(1, 3)) { // something else is asked for in between
                    auto e2 = attempt([&] { sim::Loud l; evaluate(*m, sim::draw(5)); });
                    if (!e2.empty()) sim::violation("error-stays", "evaluation fails although nothing fails any more: " + e2 + "; " + history);
                    history += ", evaluate something";
                }
            }
            auto error = attempt([&] { sim::Loud l; evaluate(*m, target); });
            if (!error.empty()) sim::violation("error-stays", "evaluation fails although nothing fails any more: " + error + "; " + history + "; ingredients: " + r.text());
            auto diff = difference(take(*m), expect);
            if (!diff.empty()) sim::violation("retry-differs", diff + " than without the failure; " + history + "; ingredients: " + r.text());
            { sim::Loud l; m.reset(); }
        }
        auto leaked = alloc_failed ? sim::live_new_blocks() - news : sim::live_blocks() - blocks;
        if (leaked) sim::violation("leak", S(static_cast<long long>(leaked)) + " blocks leaked; " + history + "; ingredients: " + r.text());
        sim::mix(target * 1000003 + callbacks * 1009 + allocs);
    }
    if (hits) sim::nontrivial();
}

// An evaluation fails, then the model is changed: nothing of the failed evaluation is left in the next one
SCENARIO(C10, changed_after, 6) {
    sim::Quiet quiet;
    LatOptions o; o.multiorbital_ok = sim::flip();
    if (sim::flip()) o.force_ndim = 2;
    auto lat = std::make_shared<LatSpec const>(draw_lattice(o));
    Recipe r = draw_recipe(lat, 4, true);
    int serial = 200, hits = 0;
    std::string history;
    std::unique_ptr<Model> m;
    { sim::Loud l; m = fresh_model(r); }
    auto context = [&] { return "; history: " + history + "; ingredients: " + r.text(); };
    int rounds = sim::thorough() ? 10 : 5;
    for (int round = 0; round < rounds; ++round) {
        auto target = sim::draw(5);
        bool use_callback = sim::flip(2, 3);
        std::uint64_t points = 0;
        {   // how many points of failure there are
            std::unique_ptr<Model> p; { sim::Loud l; p = fresh_model(r); }
            auto a0 = sim::alloc_seq(); arm_callbacks(-1);
            auto e = attempt([&] { sim::Loud l; evaluate(*p, target); });
            points = use_callback ? static_cast<std::uint64_t>(callback_faults().calls) : sim::alloc_seq() - a0; disarm_callbacks();
            if (!points) continue;
        }
        auto at = sim::flip() ? points - 1 - sim::draw(std::min<std::uint64_t>(points, 4)) : sim::draw(points); // often near the end: most has been built
        if (use_callback) arm_callbacks(static_cast<long>(at)); else sim::fail_alloc_in(at);
        auto error = attempt([&] { sim::Loud l; evaluate(*m, target); });
        bool fired = use_callback ? disarm_callbacks() : sim::fail_alloc_off(); hits += fired;
        history += std::string("evaluate ") + targets[target] + (fired ? use_callback ? " (callback fails); " : " (allocation fails); " : "; ");
        if (fired && use_callback && error.compare(0, 9, "UserError")) sim::violation("error-lost", "a callback failed, but the caller got: " + (error.empty() ? "no error" : error) + context());
        switch (sim::draw(8)) {
            case 0: { auto before = r; before.structure.clear(); { sim::Loud l; m->clear_structure_modifiers(); } r = before; history += "clear structure modifiers; "; break; }
            case 1: { auto before = r; before.onsite.clear(); before.hopping.clear(); { sim::Loud l; m->clear_hamiltonian_modifiers(); } r = before; history += "clear hamiltonian modifiers; "; break; }
            case 2: { Cartesian k{static_cast<float>(dyadic(-8, 8, 8)), 0.25f, 0}; { sim::Loud l; m->set_wave_vector(k); } r.k = k; history += "set wave vector; "; break; }
            case 3: { sim::Loud l; std::unique_ptr<Model> copy(new Model(*m)); m = std::move(copy); history += "copy; "; break; }
            case 4: break;
            default: {
                int kind = lat->ndim() > 1 && r.shape && sim::flip() ? k_shape : draw_kind(*lat, r);
                auto g = draw_ingredient(*lat, r, kind, serial++);
                auto e = attempt([&] { sim::Loud l; apply_to(*m, *g); });
                if (e.empty()) { r.add(g); history += "add " + g->text() + "; "; }
            }
        }
        if (sim::flip(2, 3)) {
            auto d = difference(take(*m), fresh_snap(r));
            if (!d.empty()) sim::violation("retry-differs", d + " than in a new model of the same ingredients" + context());
        }
    }
    auto d = difference(take(*m), fresh_snap(r));
    if (!d.empty()) sim::violation("retry-differs", d + " than in a new model of the same ingredients" + context());
    { sim::Loud l; m.reset(); }
    sim::describe(lat->text() + ": " + history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (hits) sim::nontrivial();
}

// Allocations which fail while a model is changed or copied: the change happened or it did not
SCENARIO(C10, changes, 5) {
    sim::Quiet quiet;
    auto lat = std::make_shared<LatSpec const>(draw_lattice());
    Recipe r = draw_recipe(lat, 3, true);
    std::string history; int serial = 100, hits = 0;
    { auto m = fresh_model(r); sim::Loud l; attempt([&] { m->report(); }); }
    auto blocks = sim::live_new_blocks();
    {
        std::unique_ptr<Model> m; { sim::Loud l; m = fresh_model(r); }
        int ops = 2 + static_cast<int>(sim::draw(6));
        for (int op = 0; op < ops; ++op) {
            if (sim::flip()) { attempt([&] { sim::Loud l; evaluate(*m, sim::draw(4)); }); history += "evaluate; "; }
            auto before = r; auto after = r;
            std::string what, error;
            auto at = sim::draw(12); bool fired;
            std::unique_ptr<Model> copy;
            if (sim::flip(1, 5)) {
                what = "copy"; sim::fail_alloc_in(at);
                error = attempt([&] { sim::Loud l; copy.reset(new Model(*m)); });
                fired = sim::fail_alloc_off();
            } else if (sim::flip(1, 5)) {
                what = "clear"; after.structure.clear(); after.onsite.clear(); after.hopping.clear();
                sim::fail_alloc_in(at);
                error = attempt([&] { sim::Loud l; m->clear_structure_modifiers(); });
                fired = sim::fail_alloc_off();
                if (error.empty()) m->clear_hamiltonian_modifiers();
            } else {
                auto g = draw_ingredient(*lat, r, draw_kind(*lat, r), serial++);
                what = "add " + g->text(); after.add(g);
                sim::fail_alloc_in(at);
                error = attempt([&] { sim::Loud l; apply_to(*m, *g); });
                fired = sim::fail_alloc_off();
                if (!error.empty() && !fired && g->kind == k_shape) continue;   // offset too large
            }
            history += what + (error.empty() ? "; " : " (allocation " + S(static_cast<long long>(at)) + " fails); ");
            if (!error.empty() && !fired) sim::violation("error-stays", what + " fails although nothing fails: " + error + "; " + history);
            hits += fired;
            if (error.empty()) r = after;
            if (copy) { auto d = difference(take(*copy), fresh_snap(r)); if (!d.empty()) sim::violation("retry-differs", "copy: " + d + "; " + history); }
            auto d = difference(take(*m), fresh_snap(r));
            if (!d.empty()) sim::violation("retry-differs", d + " than a new model of " + (error.empty() ? "the changed" : "the unchanged") + " ingredients [" + r.text() + "]; " + history);
            { sim::Loud l; copy.reset(); }
        }
        { sim::Loud l; m.reset(); }
    }
    sim::describe(lat->text() + ": " + history);
    if (sim::live_new_blocks() != blocks) sim::violation("leak", S(static_cast<long long>(sim::live_new_blocks() - blocks)) + " blocks leaked; " + history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (hits) sim::nontrivial();
}

// Different models, which share everything that may be shared, evaluated on several threads
SCENARIO(C15, models, 4) {
    struct Job { std::unique_ptr<Model> model; Recipe recipe; Snap expect, expect2; Snap got, got2; Cartesian k2; bool change_k; int stall; };
    std::vector<Job> jobs; std::string text;
    {
        sim::Quiet quiet;
        LatOptions o; o.multiorbital_ok = true;
        auto lat = std::make_shared<LatSpec const>(draw_lattice(o));
        Recipe base = draw_recipe(lat, 3, true);
        std::unique_ptr<Model> shared;
        { sim::Loud l; shared = fresh_model(base); auto e = sim::draw(4); if (e < 3) attempt([&] { evaluate(*shared, e); }); }
        auto lattice = make_lattice(*lat);
        int n = 2 + static_cast<int>(sim::draw(3));
        jobs.resize(static_cast<size_t>(n));
        int serial = 50;
        for (auto& j : jobs) {
            j.recipe = base;
            sim::Loud l;
            if (sim::flip()) j.model.reset(new Model(*shared));          // shares the evaluated system and Hamiltonian
            else { j.model.reset(new Model(lattice)); for (auto& g : base.all()) apply_to(*j.model, *g); j.model->set_wave_vector(base.k); }
            if (sim::flip()) {
                auto g = draw_ingredient(*lat, j.recipe, sim::flip() ? k_onsite : k_hopping, serial++);
                apply_to(*j.model, *g); j.recipe.add(g);
            }
            j.change_k = sim::flip(); j.k2 = {static_cast<float>(dyadic(1, 8, 8)), 0.25f, 0}; j.stall = static_cast<int>(sim::draw(4));
        }
        for (auto& j : jobs) {
            j.expect = fresh_snap(j.recipe);
            if (j.change_k) { auto r = j.recipe; r.k = j.k2; j.expect2 = fresh_snap(r); }
        }
        { sim::Loud l; if (sim::flip()) shared.reset(); }                // the copies keep what they share alive
        text = lat->text() + ": " + base.text() + ", " + S(n) + " threads";
        sim::describe(text);
        sim::nontrivial();
        sim::Loud l;
        std::vector<std::thread> threads;
        for (auto& j : jobs) threads.emplace_back([&j] {
            for (int i = 0; i < j.stall; ++i) sim::yield_point();
            auto run = [&j](Snap& out) {
                // evaluation is the code under test; the snapshot is the oracle's
                out.sys_error = attempt([&] { j.model->system(); });
                out.ham_error = attempt([&] { j.model->hamiltonian(); });
                out.lead_error = attempt([&] { j.model->leads(); });
                sim::Quiet q; out = take(*j.model);
            };
            run(j.got);
            if (j.change_k) { j.model->set_wave_vector(j.k2); run(j.got2); }
            if (j.stall & 1) j.model.reset();
        });
        for (auto& t : threads) t.join();
        for (auto& j : jobs) j.model.reset();
        shared.reset();
    }
    sim::Quiet quiet;
    for (size_t i = 0; i < jobs.size(); ++i) {
        auto d = difference(jobs[i].got, jobs[i].expect);
        if (d.empty() && jobs[i].change_k) d = difference(jobs[i].got2, jobs[i].expect2);
        if (!d.empty()) sim::violation("parallel-differs", "model " + S(static_cast<long long>(i)) + " evaluated in parallel: " + d + "; " + text);
    }
}

} // namespace
