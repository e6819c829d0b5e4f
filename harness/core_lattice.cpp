// C26: histories of accepted, rejected and failed definitions of a lattice.
#include "core_common.hpp"
#include "../sim/sim.hpp"

using namespace core;

namespace {

struct RefSub { std::string name; Cartesian pos; MatrixXcd energy; std::string root; };
struct RefTerm { Index3D rel; std::string from, to; MatrixXcd energy; std::string family; };    // family: empty for an energy without a name
struct RefLat {
    std::vector<Cartesian> vectors; std::vector<RefSub> subs; std::vector<std::pair<std::string, MatrixXcd>> families; std::vector<MatrixXcd> anonymous; std::vector<RefTerm> terms;
    Cartesian offset = {0, 0, 0}; int min_neighbors = 1;
    RefSub const* sub(std::string const& n) const { for (auto& s : subs) if (s.name == n) return &s; return nullptr; }
    MatrixXcd const* family(std::string const& n) const { for (auto& f : families) if (f.first == n) return &f.second; return nullptr; }
    bool has_energy(MatrixXcd const& e) const;
};
bool equal(MatrixXcd const& a, MatrixXcd const& b) { return a.rows() == b.rows() && a.cols() == b.cols() && a == b; }
bool RefLat::has_energy(MatrixXcd const& e) const {
    for (auto& f : families) if (equal(f.second, e)) return true;
    for (auto& f : anonymous) if (equal(f, e)) return true;
    return false;
}

struct Op {
    enum What { sublattice, alias, energy, hop_named, hop_energy, offset, neighbors } what;
    std::string name, other, family; Cartesian pos; MatrixXcd e; Index3D rel; int form = 0, n = 0;
};
std::string idx(Index3D const& v) { return "[" + S(v[0]) + "," + S(v[1]) + "," + S(v[2]) + "]"; }
std::string text(Op const& o) {
    std::ostringstream t;
    switch (o.what) {
        case Op::sublattice: t << "sublattice '" << o.name << "' with " << o.e.rows() << "x" << o.e.cols(); break;
        case Op::alias: t << "alias '" << o.name << "' of '" << o.other << "'"; break;
        case Op::energy: t << "energy '" << o.name << "' " << o.e.rows() << "x" << o.e.cols(); break;
        case Op::hop_named: t << "hopping " << idx(o.rel) << " " << o.name << "-" << o.other << " '" << o.family << "'"; break;
        case Op::hop_energy: t << "hopping " << idx(o.rel) << " " << o.name << "-" << o.other << " " << o.e.rows() << "x" << o.e.cols() << " " << (o.e.size() ? o.e(0, 0) : cd(0)); break;
        case Op::offset: t << "offset " << o.pos[0] << "," << o.pos[1]; break;
        default: t << "min_neighbors " << o.n;
    }
    return t.str();
}

void apply(Lattice& l, Op const& o) {
    switch (o.what) {
        case Op::sublattice:
            if (o.form == 1) l.add_sublattice(o.name, o.pos, o.e(0, 0).real());
            else if (o.form == 2) l.add_sublattice(o.name, o.pos, VectorXd(o.e.diagonal().real()));
            else l.add_sublattice(o.name, o.pos, o.e);
            break;
        case Op::alias: l.add_alias(o.name, o.other, o.pos); break;
        case Op::energy: if (o.form == 1) l.register_hopping_energy(o.name, o.e(0, 0)); else l.register_hopping_energy(o.name, o.e); break;
        case Op::hop_named: l.add_hopping(o.rel, o.name, o.other, o.family); break;
        case Op::hop_energy: if (o.form == 1) l.add_hopping(o.rel, o.name, o.other, o.e(0, 0)); else l.add_hopping(o.rel, o.name, o.other, o.e); break;
        case Op::offset: l.set_offset(o.pos); break;
        case Op::neighbors: l.set_min_neighbors(o.n);
    }
}

// why the definition must be rejected; empty: it has to be accepted
std::string rejected(RefLat const& r, Op const& o) {
    switch (o.what) {
        case Op::sublattice: {
            if (o.e.rows() != o.e.cols()) return "energy isn't square";
            if (o.e.rows() == 0) return "no orbitals";
            if (!o.e.diagonal().imag().isZero()) return "complex diagonal";
            bool upper = true; for (int i = 0; i < o.e.rows(); ++i) for (int j = 0; j < i; ++j) upper = upper && o.e(i, j) == cd(0);
            if (!upper && o.e != o.e.adjoint()) return "neither triangular nor Hermitian";
            if (o.name.empty()) return "blank name";
            return r.sub(o.name) ? "name in use" : "";
        }
        case Op::alias: if (!r.sub(o.other)) return "unknown original"; if (o.name.empty()) return "blank name"; return r.sub(o.name) ? "name in use" : "";
        case Op::energy: if (o.name.empty()) return "blank name"; if (!o.e.size()) return "no orbitals"; return r.family(o.name) ? "name in use" : "";
        case Op::hop_named: case Op::hop_energy: {
            if (o.what == Op::hop_energy && !o.e.size()) return "no orbitals";
            if (o.name == o.other && o.rel == Index3D::Zero()) return "an onsite energy";
            auto a = r.sub(o.name), b = r.sub(o.other); if (!a || !b) return "unknown sublattice";
            auto e = o.what == Op::hop_energy ? &o.e : r.family(o.family); if (!e) return "unknown energy";
            if (a->energy.rows() != e->rows() || b->energy.cols() != e->cols()) return "size mismatch";
            for (auto& t : r.terms) if ((t.rel == o.rel && t.from == o.name && t.to == o.other) || (t.rel == -o.rel && t.from == o.other && t.to == o.name)) return "existing hopping";
            return {};
        }
        case Op::offset: for (size_t d = 0; d < r.vectors.size(); ++d) if (std::abs(o.pos[static_cast<int>(d)]) > 0.6f * r.vectors[d].norm()) return "too far"; return {};
        default: return {};
    }
}

void accept(RefLat& r, Op const& o) {
    switch (o.what) {
        case Op::sublattice: {
            MatrixXcd e = o.e; for (int i = 0; i < e.rows(); ++i) for (int j = 0; j < i; ++j) e(i, j) = std::conj(e(j, i));
            r.subs.push_back({o.name, o.pos, e, o.name}); break;
        }
        case Op::alias: { auto original = *r.sub(o.other); r.subs.push_back({o.name, o.pos, original.energy, original.root}); break; }
        case Op::energy: r.families.push_back({o.name, o.e}); break;
        case Op::hop_named: r.terms.push_back({o.rel, o.name, o.other, *r.family(o.family), o.family}); break;
        case Op::hop_energy: if (!r.has_energy(o.e)) r.anonymous.push_back(o.e); r.terms.push_back({o.rel, o.name, o.other, o.e, ""}); break;
        case Op::offset: r.offset = o.pos; break;
        default: r.min_neighbors = o.n;
    }
}

// how the lattice differs from the reference
std::string compare(Lattice const& l, RefLat const& r) {
    if (l.get_vectors().size() != r.vectors.size() || !std::equal(r.vectors.begin(), r.vectors.end(), l.get_vectors().begin())) return "the primitive vectors changed";
    if (l.get_offset() != r.offset) return "the offset is not the accepted one";
    if (l.get_min_neighbors() != r.min_neighbors) return "min_neighbors is " + S(l.get_min_neighbors());
    auto const& subs = l.get_sublattices();
    if (subs.size() != r.subs.size() || l.nsub() != static_cast<int>(r.subs.size())) { std::string n; for (auto& s : subs) n += " '" + s.first + "'"; return "there are " + S(static_cast<long long>(subs.size())) + " sublattices (" + n + "), accepted were " + S(static_cast<long long>(r.subs.size())); }
    std::map<int, std::string> by_id;
    for (auto& s : subs) if (!by_id.insert({s.second.unique_id.value(), s.first}).second) return "two sublattices have the same ID";
    for (auto& s : r.subs) {
        auto it = subs.find(s.name);
        if (it == subs.end()) return "sublattice " + s.name + " is gone";
        if (it->second.position != s.pos) return "the position of sublattice " + s.name + " is not the accepted one";
        if (!equal(it->second.energy, s.energy)) return "the energy of sublattice " + s.name + " is not the accepted one";
        auto root = by_id.find(it->second.alias_id.value());
        if (root == by_id.end() || root->second != s.root) return "sublattice " + s.name + " stands for " + (root == by_id.end() ? "no sublattice" : root->second) + " instead of " + s.root;
    }
    auto const& hops = l.get_hoppings();
    size_t families = r.families.size() + r.anonymous.size();
    if (hops.size() != families || l.nhop() != static_cast<int>(families)) { std::string n; for (auto& h : hops) n += " '" + h.first + "'"; return "there are " + S(static_cast<long long>(hops.size())) + " hopping energies (" + n + "), accepted were " + S(static_cast<long long>(families)); }
    std::set<int> ids; size_t terms = 0;
    for (auto& h : hops) { ids.insert(h.second.family_id.value()); terms += h.second.terms.size(); }
    if (ids.size() != hops.size() || (!ids.empty() && (*ids.begin() != 0 || *ids.rbegin() != static_cast<int>(ids.size()) - 1))) return "the IDs of the hopping energies have gaps or repeat";
    for (auto& f : r.families) {
        auto it = hops.find(f.first);
        if (it == hops.end() || !equal(it->second.energy, f.second)) return "the hopping energy " + f.first + " is not the accepted one";
    }
    if (terms != r.terms.size()) return "there are " + S(static_cast<long long>(terms)) + " hoppings, accepted were " + S(static_cast<long long>(r.terms.size()));
    for (auto& t : r.terms) {
        int found = 0;
        for (auto& h : hops) for (auto& x : h.second.terms)
            if (x.relative_index == t.rel && by_id[x.from.value()] == t.from && by_id[x.to.value()] == t.to && equal(h.second.energy, t.energy) && (t.family.empty() || t.family == h.first)) ++found;
        if (found != 1) return "the hopping " + idx(t.rel) + " " + t.from + "-" + t.to + " is there " + S(found) + " times";
    }
    int most = 0;
    for (auto& s : r.subs) {
        int n = static_cast<int>(s.energy.cols()) - 1;
        for (auto& t : r.terms) { if (t.from == s.name) n += static_cast<int>(t.energy.cols()); if (t.to == s.name) n += static_cast<int>(t.energy.rows()); }
        most = std::max(most, n);
    }
    if (l.max_hoppings() != most) return "max_hoppings() is " + S(l.max_hoppings()) + " instead of " + S(most);
    auto registry = l.hopping_registry();
    if (registry.size() != static_cast<idx_t>(families)) return "the hopping registry has " + S(registry.size()) + " entries";
    for (auto& h : hops) if (registry.name(h.second.family_id) != h.first || !equal(registry.energy(h.second.family_id), h.second.energy)) return "the hopping registry differs from the hoppings";
    auto sites = l.site_registry();
    for (auto& s : r.subs) {
        auto id = SiteID(subs.find(s.name)->second.alias_id.value());
        if (sites.name(id) != s.root || !equal(sites.energy(id), s.energy)) return "the site registry doesn't know " + s.name;
    }
    return {};
}

LatSpec spec(RefLat const& r) {
    LatSpec l; l.vectors = r.vectors; l.offset = r.offset; l.min_neighbors = r.min_neighbors;
    for (auto& s : r.subs) l.subs.push_back({s.name, s.pos, s.energy, s.root, static_cast<int>(s.energy.rows())});
    auto position = [&](std::string const& n) { for (size_t i = 0; i < r.subs.size(); ++i) if (r.subs[i].name == n) return static_cast<int>(i); return -1; };
    for (auto& t : r.terms) { l.hops.push_back({t.rel, position(t.from), position(t.to), static_cast<int>(l.families.size())}); l.families.push_back(t.energy); }
    return l;
}

// the first matrix element, position ... which a model of the lattice gets wrong
std::string check_models(Lattice const& l, std::vector<Op> const& accepted, RefLat const& r) {
    if (r.subs.empty()) return {};
    Recipe recipe; recipe.lat = std::make_shared<LatSpec const>(spec(r));
    auto g = std::make_shared<Ingredient>(); g->kind = k_primitive;
    for (int d = 0; d < 3; ++d) g->i[d] = d < static_cast<int>(r.vectors.size()) ? 1 + static_cast<int>(sim::draw(3)) : 1;
    recipe.add(g);
    Snap now, expect;
    RefModel ref; bool known = false; std::string problem;
    auto error = attempt([&] {
        Model m(l, Primitive(g->i[0], g->i[1], g->i[2])); now = take(m);
        if (now.sys_error.empty() && now.ham_error.empty()) known = reference(recipe, ref, m);
        if (known) problem = compare_reference(*m.system(), now.ham, ref);
    });
    if (!error.empty()) return "a model of the lattice can't be made: " + error;
    if (!now.sys_error.empty()) return "a model of the lattice has no system: " + now.sys_error;
    if (!now.ham_error.empty()) return "a model of the lattice has no Hamiltonian: " + now.ham_error;
    if (!problem.empty() && problem != "skip") return "model: " + problem;
    if (known && problem.empty()) sim::probe("matched the reference model");
    // and the same definitions without the history
    auto vs = r.vectors; auto fresh = vs.size() == 1 ? Lattice(vs[0]) : vs.size() == 2 ? Lattice(vs[0], vs[1]) : Lattice(vs[0], vs[1], vs[2]);
    for (auto& o : accepted) apply(fresh, o);
    { Model m(fresh, Primitive(g->i[0], g->i[1], g->i[2])); expect = take(m); }
    auto d = difference(now, expect);
    return d.empty() ? d : d + " than in a model of a lattice with the accepted definitions only";
}

MatrixXcd draw_energy(int rows, int cols, bool cplx) {
    MatrixXcd e(rows, cols);
    for (int a = 0; a < rows; ++a) for (int b = 0; b < cols; ++b) e(a, b) = cd(nonzero_dyadic(4, 2), cplx ? dyadic(-2, 2, 2) : 0.0);
    return e;
}

Op draw_op(RefLat const& r, int& serial) {
    Op o; o.what = Op::sublattice; o.rel = Index3D::Zero(); o.pos = {0, 0, 0};
    int nd = static_cast<int>(r.vectors.size());
    auto names = [&](bool any) -> std::string {     // of a sublattice
        if (any && sim::flip(1, 10)) return sim::flip() ? "nobody" : "";
        return r.subs.empty() ? "A" : r.subs[sim::draw(r.subs.size())].name;
    };
    auto fresh = [&](char const* prefix) -> std::string {
        if (sim::flip(1, 12)) return "";
        if (sim::flip(1, 8) && !r.subs.empty()) return *prefix == 't' ? (r.families.empty() ? "t" : r.families[sim::draw(r.families.size())].first) : r.subs[sim::draw(r.subs.size())].name;
        return prefix + S(++serial);
    };
    auto kind = r.subs.empty() ? sim::draw(3) : sim::draw(16);
    if (kind < 3 || (kind < 5 && r.subs.size() < 2)) {
        o.name = fresh("S"); o.pos = {0.0625f * static_cast<float>(serial % 7), nd > 1 ? 0.0625f * static_cast<float>(serial % 5) : 0.f, nd > 2 ? 0.0625f * static_cast<float>(serial % 3) : 0.f};
        int n = sim::flip(1, 3) ? 2 : 1; bool cplx = n > 1 && sim::flip(1, 3);
        o.e = MatrixXcd::Zero(n, n); for (int a = 0; a < n; ++a) { o.e(a, a) = dyadic(-4, 4, 4); for (int b = a + 1; b < n; ++b) o.e(a, b) = cd(dyadic(-2, 2, 4), cplx ? 0.5 : 0.0); }
        switch (sim::draw(n > 1 ? 10 : 6)) {
            case 0: o.form = n == 1 ? 1 : 0; break;
            case 1: o.e = MatrixXcd(o.e.diagonal().asDiagonal()); o.form = 2; break;
            case 2: if (sim::flip(1, 3)) { if (sim::flip()) o.e.resize(0, 0); else o.e = MatrixXcd::Zero(1, 2); } break;
            case 3: if (sim::flip(1, 3)) o.e(0, 0) += cd(0, 1); break;
            case 6: case 7: o.e(1, 0) = std::conj(o.e(0, 1)); break;      // Hermitian
            case 8: o.e(1, 0) = o.e(0, 1) + cd(1); break;
            default: break;
        }
    } else if (kind < 6) { o.what = Op::alias; o.other = names(true); o.name = fresh("S"); o.pos = {0.0625f * static_cast<float>(serial % 7), nd > 1 ? 0.0625f * static_cast<float>(serial % 5) : 0.f, 0.f}; }
    else if (kind < 8) { o.what = Op::energy; o.name = fresh("t"); o.e = draw_energy(sim::flip(1, 3) ? 2 : 1, sim::flip(1, 3) ? 2 : 1, sim::flip(1, 3)); if (sim::flip(1, 12)) o.e.resize(0, 1); if (o.e.size() == 1 && sim::flip()) o.form = 1; }
    else if (kind < 14) {
        o.what = sim::flip() ? Op::hop_named : Op::hop_energy; o.name = names(true); o.other = names(true);
        for (int d = 0; d < nd; ++d) o.rel[d] = static_cast<int>(sim::draw(3)) - 1;
        if (o.what == Op::hop_named) {
            o.family = sim::flip(1, 12) || r.families.empty() ? "nothing" : r.families[sim::draw(r.families.size())].first;
            auto a = r.sub(o.name), b = r.sub(o.other);
            if (a && b && sim::flip(3, 4)) for (auto& f : r.families) if (f.second.rows() == a->energy.rows() && f.second.cols() == b->energy.rows()) { o.family = f.first; if (sim::flip()) break; }
        } else {
            auto a = r.sub(o.name), b = r.sub(o.other);
            int rows = a ? static_cast<int>(a->energy.rows()) : 1, cols = b ? static_cast<int>(b->energy.rows()) : 1;
            if (sim::flip(1, 6)) { rows = 1 + static_cast<int>(sim::draw(2)); cols = 1 + static_cast<int>(sim::draw(2)); }
            o.e = draw_energy(rows, cols, sim::flip(1, 3));
            if (sim::flip(1, 4)) { for (auto& f : r.families) if (f.second.rows() == rows && f.second.cols() == cols) o.e = f.second; if (sim::flip(1, 4)) o.e(0, 0) += cd(sim::flip() ? 1e-13 : 1e-9); }   // the same energy, or another one next to it
            if (sim::flip(1, 16)) o.e.resize(0, 0);
            if (o.e.size() == 1 && sim::flip()) o.form = 1;
        }
        if (!r.terms.empty() && sim::flip(1, 6)) { auto& t = r.terms[sim::draw(r.terms.size())]; bool c = sim::flip(); o.rel = c ? Index3D(-t.rel) : t.rel; o.name = c ? t.to : t.from; o.other = c ? t.from : t.to; }   // again, or its conjugate
    } else if (kind == 14) { o.what = Op::offset; float f = sim::flip(1, 3) ? 0.75f : 0.25f * static_cast<float>(sim::draw(2)); o.pos = {f, nd > 1 ? 0.125f : 0.f, 0.f}; }
    else { o.what = Op::neighbors; o.n = static_cast<int>(sim::draw(4)); }
    return o;
}

struct Earlier { std::unique_ptr<Lattice> copy; std::unique_ptr<Model> model; RefLat ref; Snap snap; };

void definitions(std::string& history, int& hits, int& refused, int nd) {
    RefLat r; 
    r.vectors.push_back({1, 0, 0}); if (nd > 1) r.vectors.push_back({0, 1, 0}); if (nd > 2) r.vectors.push_back({0, 0, 1});
    int serial = 0;
    std::vector<Op> accepted; std::vector<Earlier> earlier;
    {
        std::unique_ptr<Lattice> lat(nd == 1 ? new Lattice(r.vectors[0]) : nd == 2 ? new Lattice(r.vectors[0], r.vectors[1]) : new Lattice(r.vectors[0], r.vectors[1], r.vectors[2]));
        auto context = [&] { return "; history: " + history; };
        int ops = 4 + static_cast<int>(sim::draw(sim::thorough() ? 24 : 14));
        for (int n = 0; n < ops; ++n) {
            auto o = draw_op(r, serial);
            auto why = rejected(r, o);
            bool fail = sim::flip(1, 3), fired = false;
            if (fail) sim::fail_alloc_in(sim::draw(8), sim::flip(1, 4));
            auto error = attempt([&] { sim::Loud l; apply(*lat, o); });
            if (fail) fired = sim::fail_alloc_off();
            hits += fired;
            history += text(o) + (error.empty() ? "; " : fired ? " (allocation fails); " : " (" + error + "); ");
            if (error.empty()) {
                if (!why.empty()) sim::violation("accepted", "a definition was accepted which has to be rejected (" + why + ")" + context());
                accept(r, o); accepted.push_back(o);
            } else {
                if (why.empty() && !fired) sim::violation("rejected", "a valid definition was rejected" + context());
                refused += !fired;
            }
            auto d = compare(*lat, r);
            if (!d.empty()) sim::violation(error.empty() ? "lattice-content" : "rejected-left-trace", d + context());
            switch (sim::draw(12)) {
                case 0: {      // a copy; which one goes on is the scheduler's choice
                    std::unique_ptr<Lattice> copy; { sim::Loud l; copy.reset(new Lattice(*lat)); }
                    if (sim::flip()) std::swap(copy, lat);
                    Earlier e; e.copy = std::move(copy); e.ref = r; earlier.push_back(std::move(e)); history += "copy; "; break;
                }
                case 1: {
                    Cartesian p = {0.25f, nd > 1 ? 0.25f : 0.f, 0.f}; Earlier e; e.ref = r; int few = static_cast<int>(sim::draw(4));
                    bool far = sim::flip(1, 3); if (far) p[0] = 0.75f;
                    bool f2 = sim::flip(1, 3), fired2 = false; if (f2) sim::fail_alloc_in(sim::draw(6));
                    auto err = attempt([&] { sim::Loud l; e.copy.reset(new Lattice(sim::flip() || far ? (e.ref.offset = p, lat->with_offset(p)) : (e.ref.min_neighbors = few, lat->with_min_neighbors(few)))); });
                    if (f2) fired2 = sim::fail_alloc_off();
                    hits += fired2;
                    if (err.empty() == far && !fired2) sim::violation(far ? "accepted" : "rejected", "with_offset" + context());
                    if (err.empty()) earlier.push_back(std::move(e));
                    history += "changed copy; "; break;
                }
                case 2: if (!r.subs.empty()) {
                    Earlier e; e.ref = r;
                    auto err = attempt([&] { sim::Loud l; e.model.reset(new Model(*lat, Primitive(2, nd > 1 ? 2 : 1, 1))); });
                    if (!err.empty()) sim::violation("lattice-content", "a model of the lattice can't be made: " + err + context());
                    if (sim::flip()) e.snap = take(*e.model);
                    else { Model m(*lat, Primitive(2, nd > 1 ? 2 : 1, 1)); e.snap = take(m); }       // this model is evaluated later
                    earlier.push_back(std::move(e)); history += "model; ";
                } break;
                case 3: { auto m = check_models(*lat, accepted, r); if (!m.empty()) sim::violation("lattice-content", m + context()); break; }
                default: break;
            }
        }
        auto m = check_models(*lat, accepted, r);
        if (!m.empty()) sim::violation("lattice-content", m + context());
        for (auto& e : earlier) {
            if (e.copy) { auto d = compare(*e.copy, e.ref); if (!d.empty()) sim::violation("copy-changed", "an earlier copy of the lattice: " + d + context()); }
            if (e.model) { auto d = difference(take(*e.model), e.snap); if (!d.empty()) sim::violation("copy-changed", "a model of the earlier lattice: " + d + context()); }
        }
        earlier.clear();
    }
}

SCENARIO(C26, definitions, 10) {
    sim::Quiet quiet;
    int nd = sim::flip(1, 4) ? (sim::flip() ? 1 : 3) : 2, hits = 0, refused = 0;
    { Lattice w({1, 0, 0}); attempt([&] { w.add_hopping({1, 0, 0}, "x", "y", "z"); }); w.add_sublattice("A", {0, 0, 0}); Model m(w, Primitive(2, 1, 1)); take(m); }   // everything which is initialised once
    std::string history; history.reserve(100000);
    auto blocks = sim::live_new_blocks();
    definitions(history, hits, refused, nd);
    auto leaked = sim::live_new_blocks() - blocks;
    if (leaked) sim::violation("leak", S(static_cast<long long>(leaked)) + " blocks leaked; history: " + history);
    sim::describe(S(nd) + "D: " + history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (hits || refused) sim::nontrivial();
}

} // namespace
