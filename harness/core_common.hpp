// Models as data: lattices, ingredients and their callbacks, built from draws; snapshots of what
// a model evaluates to; and an independent reference for the sites and matrix elements.
#pragma once
#include "../sim/sim.hpp"
#include "Model.hpp"
#include <Eigen/LU>
#include <complex>
#include <cmath>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <typeinfo>
#include <utility>
#include <vector>

namespace core {
using namespace cpb;
using cd = std::complex<double>;
using DenseXcd = Eigen::Matrix<cd, Eigen::Dynamic, Eigen::Dynamic>;

inline std::string S(long long v) { return std::to_string(v); }
inline std::string F(double v) { char b[40]; snprintf(b, sizeof b, "%.6g", v); return b; }

// ---- injected callback failures --------------------------------------------------------------
struct UserError : std::runtime_error { using std::runtime_error::runtime_error; };
struct CallbackFaults { long countdown; bool persistent; bool fired; bool armed; long calls; };
inline CallbackFaults& callback_faults() { static CallbackFaults f{-1, false, false, false, 0}; return f; }
// called at the start of every user callback
inline void user_callback(char const* what) {
    auto& f = callback_faults();
    if (!f.armed) return;
    ++f.calls;
    if (f.countdown < 0) return;
    if (f.countdown == 0 || (f.persistent && f.fired)) {
        if (!f.persistent) f.countdown = -1;
        f.fired = true;
        sim::count_fault("callback_throws");
        throw UserError(std::string("injected: ") + what);
    }
    --f.countdown;
}
inline void arm_callbacks(long countdown, bool persistent = false) { auto& f = callback_faults(); f.armed = true; f.calls = 0; f.fired = false; f.countdown = countdown; f.persistent = persistent; }
inline bool disarm_callbacks() { auto& f = callback_faults(); bool fired = f.fired; f.armed = false; f.countdown = -1; f.fired = false; return fired; }

// ---- lattices ----------------------------------------------------------------------------------
struct SubSpec { std::string name; Cartesian pos; MatrixXcd energy; std::string base; int norb; };
struct HopSpec { Index3D rel; int from, to, family; };
struct LatSpec {
    std::vector<Cartesian> vectors;
    std::vector<SubSpec> subs;
    std::vector<MatrixXcd> families;
    std::vector<HopSpec> hops;
    int min_neighbors = 1;
    Cartesian offset = {0, 0, 0};
    int ndim() const { return static_cast<int>(vectors.size()); }
    int max_norb() const { int n = 1; for (auto& s : subs) n = std::max(n, s.norb); return n; }
    std::string text() const {
        std::ostringstream o;
        o << ndim() << "D lattice, " << subs.size() << " sublattices (orbitals";
        for (auto& s : subs) o << " " << s.norb << (s.base != s.name ? "a" : "");
        o << "), " << hops.size() << " hoppings in " << families.size() << " families, min_neighbors " << min_neighbors;
        if (!offset.isZero()) o << ", offset";
        return o.str();
    }
};

inline Lattice make_lattice(LatSpec const& l) {
    auto lat = l.ndim() == 1 ? Lattice(l.vectors[0]) : l.ndim() == 2 ? Lattice(l.vectors[0], l.vectors[1]) : Lattice(l.vectors[0], l.vectors[1], l.vectors[2]);
    for (auto& s : l.subs) {
        if (s.base == s.name) lat.add_sublattice(s.name, s.pos, s.energy);
        else lat.add_alias(s.name, s.base, s.pos);
    }
    for (size_t f = 0; f < l.families.size(); ++f) lat.register_hopping_energy("t" + S(f), l.families[f]);
    for (auto& h : l.hops) lat.add_hopping(h.rel, l.subs[h.from].name, l.subs[h.to].name, "t" + S(h.family));
    lat.set_min_neighbors(l.min_neighbors);
    if (!l.offset.isZero()) lat.set_offset(l.offset);
    return lat;
}

inline double dyadic(int lo, int hi, int den) { return static_cast<double>(lo + static_cast<int>(sim::draw(static_cast<std::uint64_t>(hi - lo + 1)))) / den; }
inline double nonzero_dyadic(int hi, int den) { double v = static_cast<double>(1 + static_cast<int>(sim::draw(static_cast<std::uint64_t>(hi)))) / den; return sim::flip() ? v : -v; }

struct LatOptions { bool complex_ok = true; bool multiorbital_ok = true; bool alias_ok = true; int force_ndim = 0; bool connected_only = false; };

inline LatSpec draw_lattice(LatOptions o = {}) {
    LatSpec l;
    int nd = o.force_ndim ? o.force_ndim : (sim::flip(1, 4) ? (sim::flip(1, 4) ? 3 : 1) : 2);
    float skew = static_cast<float>(sim::draw(3)) * 0.25f;
    l.vectors.push_back({1, 0, 0});
    if (nd > 1) l.vectors.push_back({skew, sim::flip() ? 1.f : 0.75f, 0});
    if (nd > 2) l.vectors.push_back({0, 0, 1.25f});
    int ns = 1 + static_cast<int>(sim::draw(3));
    bool cplx = o.complex_ok && sim::flip(1, 4);
    bool multi = o.multiorbital_ok && sim::flip(1, 3);
    bool has_onsite = sim::flip();
    int nbase = ns;
    if (o.alias_ok && ns > 1 && sim::flip(1, 5)) nbase = ns - 1;
    for (int i = 0; i < ns; ++i) {
        SubSpec s; s.name = std::string(1, static_cast<char>('A' + i));
        s.pos = {0.125f * static_cast<float>(2 * i), nd > 1 ? 0.125f * static_cast<float>(i == 1 ? 2 : i == 2 ? 3 : 0) : 0.f, nd > 2 ? 0.125f * static_cast<float>(i) : 0.f};
        if (i >= nbase) {
            int b = static_cast<int>(sim::draw(static_cast<std::uint64_t>(nbase)));
            s.base = l.subs[b].name; s.norb = l.subs[b].norb; s.energy = l.subs[b].energy;
        } else {
            s.base = s.name;
            s.norb = multi ? 1 + static_cast<int>(sim::draw(2)) : 1;
            MatrixXcd e = MatrixXcd::Zero(s.norb, s.norb);
            if (has_onsite) for (int a = 0; a < s.norb; ++a) {
                e(a, a) = dyadic(-4, 4, 4);
                for (int b = a + 1; b < s.norb; ++b) { e(a, b) = cd(dyadic(-2, 2, 4), cplx ? dyadic(-2, 2, 4) : 0.0); e(b, a) = std::conj(e(a, b)); }
            }
            s.energy = e;
        }
        l.subs.push_back(s);
    }
    std::set<std::tuple<int, int, int, int, int>> used;
    auto family = [&](int rows, int cols) {
        std::vector<int> fit;
        for (size_t f = 0; f < l.families.size(); ++f) if (l.families[f].rows() == rows && l.families[f].cols() == cols) fit.push_back(static_cast<int>(f));
        if (!fit.empty() && (l.families.size() >= 4 || sim::flip())) return fit[sim::draw(fit.size())];
        MatrixXcd e(rows, cols);
        for (int a = 0; a < rows; ++a) for (int b = 0; b < cols; ++b) e(a, b) = cd(nonzero_dyadic(8, 4), cplx ? dyadic(-4, 4, 4) : 0.0);
        l.families.push_back(e);
        return static_cast<int>(l.families.size()) - 1;
    };
    auto add = [&](Index3D rel, int from, int to) {
        if (from == to && rel == Index3D::Zero()) return;
        auto key = std::make_tuple(rel[0], rel[1], rel[2], from, to);
        auto con = std::make_tuple(-rel[0], -rel[1], -rel[2], to, from);
        if (used.count(key) || used.count(con)) return;
        used.insert(key);
        l.hops.push_back({rel, from, to, family(l.subs[from].norb, l.subs[to].norb)});
    };
    for (int i = 1; i < ns; ++i) add({0, 0, 0}, i - 1, i);
    for (int d = 0; d < nd; ++d) { Index3D r = Index3D::Zero(); r[d] = 1; int a = static_cast<int>(sim::draw(static_cast<std::uint64_t>(ns))), b = static_cast<int>(sim::draw(static_cast<std::uint64_t>(ns))); if (sim::flip(1, 3)) r[d] = -1; add(r, a, b); }
    int extra = static_cast<int>(sim::draw(4));
    for (int i = 0; i < extra; ++i) {
        Index3D r = Index3D::Zero();
        for (int d = 0; d < nd; ++d) r[d] = static_cast<int>(sim::draw(3)) - 1;
        add(r, static_cast<int>(sim::draw(static_cast<std::uint64_t>(ns))), static_cast<int>(sim::draw(static_cast<std::uint64_t>(ns))));
    }
    l.min_neighbors = sim::flip(3, 4) ? 1 : 2;
    if (sim::flip(1, 6)) { l.offset = {0.25f, nd > 1 ? -0.125f : 0.f, 0}; }
    return l;
}

// ---- ingredients -------------------------------------------------------------------------------
enum Kind { k_primitive, k_shape, k_symmetry, k_state, k_position, k_sitegen, k_hopgen, k_onsite, k_hopping, k_lead };
inline char const* kind_name(int k) { static char const* n[] = {"primitive", "shape", "symmetry", "site-state", "position", "site-generator", "hopping-generator", "onsite", "hopping", "lead"}; return n[k]; }

struct Ingredient {
    Kind kind; int variant = 0; int i[4] = {0, 0, 0, 0}; double p[6] = {0, 0, 0, 0, 0, 0};
    bool is_complex = false, is_double = false; std::string name, sub1, sub2; MatrixXcd energy;
    int serial = 0;
    // the object given to the model, created once, so that models share callbacks
    std::shared_ptr<Primitive> primitive; std::shared_ptr<Shape> shape; std::shared_ptr<TranslationalSymmetry> symmetry;
    std::shared_ptr<SiteStateModifier> state; std::shared_ptr<PositionModifier> position; std::shared_ptr<SiteGenerator> sitegen; std::shared_ptr<HoppingGenerator> hopgen;
    std::shared_ptr<OnsiteModifier> onsite; std::shared_ptr<HoppingModifier> hopping;
    std::string text() const {
        std::ostringstream o; o << kind_name(kind) << "/" << variant;
        if (kind == k_primitive) o << "(" << i[0] << "," << i[1] << "," << i[2] << ")";
        if (kind == k_symmetry) o << "(" << p[0] << "," << p[1] << "," << p[2] << ")";
        if (kind == k_lead) o << " direction " << i[0];
        if (kind == k_state) o << " min_neighbors " << i[2];
        if (is_complex) o << " complex";
        if (is_double) o << " double";
        if (!name.empty()) o << " " << name;
        return o.str();
    }
};
using Ingr = std::shared_ptr<Ingredient const>;

// pure functions of positions and names, used by the callbacks and by the reference
inline std::uint64_t poshash(double x, double y, double z, std::uint64_t salt) {
    std::uint64_t h = salt * 0x9e3779b97f4a7c15ull + 12345;
    for (double v : {x, y, z}) { h ^= static_cast<std::uint64_t>(std::llround(v * 64) + 100000); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
    return h;
}
inline bool in_shape(Ingredient const& g, double x, double y, double z) {
    double dx = std::abs(x - g.p[0]), dy = std::abs(y - g.p[2]), dz = std::abs(z - g.p[4]);
    switch (g.variant) {
        case 0: return dx <= g.p[1] && dy <= g.p[3] && dz <= g.p[5];
        case 1: return dx * dx + dy * dy + dz * dz <= g.p[1] * g.p[1];
        default: { double r2 = dx * dx + dy * dy + dz * dz; return r2 <= g.p[1] * g.p[1] && r2 >= 0.3; }
    }
}
// state callbacks see the name of the sublattice
inline bool removes(Ingredient const& g, double x, double y, double z, std::string const& sub) {
    switch (g.variant) {
        case 0: return poshash(x, y, z, static_cast<std::uint64_t>(g.i[0])) % 5 == 0;
        case 1: return (x - g.p[0]) * (x - g.p[0]) + (y - g.p[1]) * (y - g.p[1]) < 0.9;
        default: return sub[0] == 'A' && poshash(x, y, z, static_cast<std::uint64_t>(g.i[0])) % 4 == 1;
    }
}
inline Cartesian moved(Ingredient const& g, Cartesian r, std::string const& sub) {
    switch (g.variant) {
        case 0: return {r[0] + 0.125f * r[1], r[1], r[2]};
        case 1: return {r[0], r[1] + (sub[0] == 'A' ? 0.0625f : 0.f), r[2]};
        case 3: return {r[1], r[0], r[2]};
        case 4: return {-r[1], r[0], r[2]};
        default: return {r[0], r[1], r[2] + 0.25f * r[0]};
    }
}
inline double onsite_shift(Ingredient const& g, Cartesian const& r, std::string const& sub) { return g.p[0] * r[0] + g.p[1] * r[1] + (sub[0] == 'B' ? g.p[2] : 0.0); }
inline cd onsite_offdiag(Ingredient const& g) { return cd(0, g.is_complex || g.variant == 2 ? g.p[2] : 0.0); }
inline cd hopping_factor(Ingredient const& g, Cartesian const& a, Cartesian const& b, std::string const& family) {
    switch (g.variant) {
        case 0: return 1.0 + 0.25 * (a[0] + b[0]) + 0.125 * (a[1] + b[1]);
        case 1: case 3: { double phi = g.p[0] * (a[0] - b[0]) * 0.5 * (a[1] + b[1]) + g.p[1] * (a[0] - b[0]); return std::exp(cd(0, phi)); }
        default: return family == "t0" ? g.p[0] : 1.5;
    }
}
inline bool generates_site(Ingredient const& g, Cartesian const& r) { return poshash(r[0], r[1], r[2], static_cast<std::uint64_t>(g.i[0])) % 3 == 0; }
inline Cartesian generated_position(Ingredient const& g, Cartesian const& r) { return {r[0] + 0.0625f, r[1] + 0.03125f, r[2] + 3.f + static_cast<float>(g.i[1])}; }
inline bool before(Cartesian const& a, Cartesian const& b) { return std::make_tuple(a[0], a[1], a[2]) < std::make_tuple(b[0], b[1], b[2]); }
// is there a generated hopping from a site of family sub1 at a to a site of family sub2 at b?
inline bool generates_hopping(Ingredient const& g, Cartesian const& a, Cartesian const& b) {
    if (g.sub1 == g.sub2 && !before(a, b)) return false;
    if (std::abs(a[0] - b[0]) > 3 || std::abs(a[1] - b[1]) > 3) return false;
    return (poshash(a[0], a[1], a[2], static_cast<std::uint64_t>(g.i[0])) ^ poshash(b[0], b[1], b[2], 7)) % 5 == 0;
}

template<class Fn> void visit_scalar(num::Tag tag, void* data, Fn fn) {
    switch (tag) {
        case num::Tag::f32: fn(static_cast<float*>(data)); break;
        case num::Tag::f64: fn(static_cast<double*>(data)); break;
        case num::Tag::cf32: fn(static_cast<std::complex<float>*>(data)); break;
        case num::Tag::cf64: fn(static_cast<std::complex<double>*>(data)); break;
        default: sim::harness_error("unexpected array type");
    }
}
inline void add_to(float& a, cd v) { a += static_cast<float>(v.real()); }
inline void add_to(double& a, cd v) { a += v.real(); }
inline void add_to(std::complex<float>& a, cd v) { a += std::complex<float>(v); }
inline void add_to(std::complex<double>& a, cd v) { a += v; }
inline void mul_by(float& a, cd v) { a = static_cast<float>(a * v.real()); }
inline void mul_by(double& a, cd v) { a *= v.real(); }
inline void mul_by(std::complex<float>& a, cd v) { a = std::complex<float>(cd(a) * v); }
inline void mul_by(std::complex<double>& a, cd v) { a *= v; }
inline bool is_real(num::Tag t) { return t == num::Tag::f32 || t == num::Tag::f64; }

struct DimsOf { idx_t rows, cols, n; };
inline DimsOf dims(ComplexArrayRef const& e) { return e.ndim == 1 ? DimsOf{1, 1, e.shape[0]} : e.ndim == 3 ? DimsOf{e.shape[0], e.shape[1], e.shape[2]} : DimsOf{0, 0, 0}; }

inline void finish_ingredient(std::shared_ptr<Ingredient> const& g) {
    std::shared_ptr<Ingredient const> data = std::make_shared<Ingredient const>(*g); // what callbacks read
    switch (g->kind) {
        case k_primitive: g->primitive = std::make_shared<Primitive>(g->i[0], g->i[1], g->i[2]); break;
        case k_symmetry: g->symmetry = std::make_shared<TranslationalSymmetry>(static_cast<float>(g->p[0]), static_cast<float>(g->p[1]), static_cast<float>(g->p[2])); break;
        case k_shape: {
            auto contains = [data](CartesianArrayConstRef r) -> ArrayX<bool> {
                user_callback("contains");
                ArrayX<bool> in(r.size());
                for (idx_t n = 0; n < r.size(); ++n) in[n] = in_shape(*data, r.x()[n], r.y()[n], r.z()[n]);
                return in;
            };
            float w = static_cast<float>(2 * g->p[1] + 6), h = static_cast<float>(2 * std::max(g->p[3], g->variant ? g->p[1] : 0.0) + 6), d = static_cast<float>(2 * std::max(g->p[5], g->variant ? g->p[1] : 0.0) + 6);
            g->shape = std::make_shared<FreeformShape>(contains, Cartesian(w, g->i[0] > 1 ? h : 0.f, g->i[0] > 2 ? d : 0.f), Cartesian(static_cast<float>(g->p[0]), static_cast<float>(g->p[2]), static_cast<float>(g->p[4])));
            g->shape->lattice_offset = {0.0625f * static_cast<float>(g->i[1]), 0, 0};
            break;
        }
        case k_lead: {
            float w = static_cast<float>(g->p[0]); int dir = std::abs(g->i[0]);
            auto line = dir == 1 ? Line({0, -w, 0}, {0, w, 0}) : Line({-w, 0, 0}, {w, 0, 0});
            auto inner = line.contains;
            line.contains = [inner](CartesianArrayConstRef r) -> ArrayX<bool> { user_callback("lead contains"); return inner(r); };
            g->shape = std::make_shared<Shape>(line);
            break;
        }
        case k_state:
            g->state = std::make_shared<SiteStateModifier>([data](Eigen::Ref<ArrayX<bool>> state, CartesianArrayConstRef r, string_view sub) {
                user_callback("site state");
                for (idx_t n = 0; n < r.size(); ++n) if (removes(*data, r.x()[n], r.y()[n], r.z()[n], sub)) state[n] = false;
            }, g->i[2]);
            break;
        case k_position:
            g->position = std::make_shared<PositionModifier>([data](CartesianArrayRef r, string_view sub) {
                user_callback("position");
                for (idx_t n = 0; n < r.size(); ++n) { auto q = moved(*data, {r.x()[n], r.y()[n], r.z()[n]}, sub); r.x()[n] = q[0]; r.y()[n] = q[1]; r.z()[n] = q[2]; }
            });
            break;
        case k_sitegen:
            g->sitegen = std::make_shared<SiteGenerator>(g->name, g->energy, [data](System const& s) -> CartesianArray {
                user_callback("site generator");
                std::vector<Cartesian> out;
                for (idx_t n = 0; n < s.num_sites(); ++n) { auto r = s.positions[n]; if (generates_site(*data, r)) out.push_back(generated_position(*data, r)); }
                auto a = CartesianArray(static_cast<idx_t>(out.size()));
                for (size_t n = 0; n < out.size(); ++n) a[static_cast<idx_t>(n)] = out[n];
                return a;
            });
            break;
        case k_hopgen:
            g->hopgen = std::make_shared<HoppingGenerator>(g->name, g->energy, [data](System const& s) -> HoppingGenerator::Result {
                user_callback("hopping generator");
                std::vector<int> from, to;
                for (auto const& a : s.compressed_sublattices) {
                    if (s.site_registry.name(a.id()) != data->sub1) continue;
                    for (auto const& b : s.compressed_sublattices) {
                        if (s.site_registry.name(b.id()) != data->sub2) continue;
                        for (auto i = a.sys_start(); i < a.sys_end(); ++i)
                            for (auto j = b.sys_start(); j < b.sys_end(); ++j)
                                if (i != j && generates_hopping(*data, s.positions[i], s.positions[j])) { from.push_back(static_cast<int>(i)); to.push_back(static_cast<int>(j)); }
                    }
                }
                HoppingGenerator::Result r{ArrayXi(static_cast<idx_t>(from.size())), ArrayXi(static_cast<idx_t>(to.size()))};
                for (size_t n = 0; n < from.size(); ++n) { r.from[static_cast<idx_t>(n)] = from[n]; r.to[static_cast<idx_t>(n)] = to[n]; }
                return r;
            });
            break;
        case k_onsite:
            g->onsite = std::make_shared<OnsiteModifier>([data](ComplexArrayRef e, CartesianArrayConstRef r, string_view sub) {
                user_callback("onsite");
                if (data->variant == 2 && is_real(e.tag)) throw ComplexOverride();
                auto d = dims(e);
                std::string const name = sub;
                visit_scalar(e.tag, e.data, [&](auto* v) {
                    for (idx_t a = 0; a < d.rows; ++a) for (idx_t b = 0; b < d.cols; ++b) for (idx_t n = 0; n < d.n; ++n) {
                        auto& x = v[(a * d.cols + b) * d.n + n];
                        if (a == b) add_to(x, onsite_shift(*data, {r.x()[n], r.y()[n], r.z()[n]}, name));
                        else add_to(x, a < b ? onsite_offdiag(*data) : std::conj(onsite_offdiag(*data)));
                    }
                });
            }, g->is_complex, g->is_double);
            break;
        case k_hopping:
            g->hopping = std::make_shared<HoppingModifier>([data](ComplexArrayRef e, CartesianArrayConstRef r1, CartesianArrayConstRef r2, string_view family) {
                user_callback("hopping");
                if (data->variant == 3 && is_real(e.tag)) throw ComplexOverride();
                auto d = dims(e);
                std::string const name = family;
                visit_scalar(e.tag, e.data, [&](auto* v) {
                    for (idx_t n = 0; n < d.n; ++n) {
                        auto f = hopping_factor(*data, {r1.x()[n], r1.y()[n], r1.z()[n]}, {r2.x()[n], r2.y()[n], r2.z()[n]}, name);
                        for (idx_t k = 0; k < d.rows * d.cols; ++k) mul_by(v[k * d.n + n], f);
                    }
                });
            }, g->is_complex, g->is_double);
            break;
    }
}

inline void apply_to(Model& m, Ingredient const& g) {
    switch (g.kind) {
        case k_primitive: m.add(*g.primitive); break;
        case k_shape: m.add(*g.shape); break;
        case k_symmetry: m.add(*g.symmetry); break;
        case k_state: m.add(*g.state); break;
        case k_position: m.add(*g.position); break;
        case k_sitegen: m.add(*g.sitegen); break;
        case k_hopgen: m.add(*g.hopgen); break;
        case k_onsite: m.add(*g.onsite); break;
        case k_hopping: m.add(*g.hopping); break;
        case k_lead: m.attach_lead(g.i[0], *g.shape); break;
    }
}

// the current ingredients of a model
struct Recipe {
    std::shared_ptr<LatSpec const> lat;
    Ingr primitive, shape, symmetry;
    std::vector<Ingr> structure, onsite, hopping, leads;
    Cartesian k = {0, 0, 0};
    void add(Ingr g) {
        switch (g->kind) {
            case k_primitive: primitive = g; break;
            case k_shape: shape = g; break;
            case k_symmetry: symmetry = g; break;
            case k_onsite: onsite.push_back(g); break;
            case k_hopping: hopping.push_back(g); break;
            case k_lead: leads.push_back(g); break;
            default: structure.push_back(g);
        }
    }
    std::vector<Ingr> all() const {
        std::vector<Ingr> v;
        for (auto const& g : {primitive, shape, symmetry}) if (g) v.push_back(g);
        for (auto const& list : {structure, onsite, hopping, leads}) for (auto const& g : list) v.push_back(g);
        return v;
    }
    std::string text() const { std::string t; for (auto& g : all()) t += (t.empty() ? "" : ", ") + g->text(); return t; }
};
inline std::unique_ptr<Model> fresh_model(Recipe const& r) {
    std::unique_ptr<Model> m(new Model(make_lattice(*r.lat)));
    for (auto const& g : r.all()) apply_to(*m, *g);
    m->set_wave_vector(r.k);
    return m;
}

// draw one ingredient which the model accepts
inline Ingr draw_ingredient(LatSpec const& l, Recipe const& r, int kind, int serial) {
    auto g = std::make_shared<Ingredient>();
    g->kind = static_cast<Kind>(kind); g->serial = serial;
    int nd = l.ndim();
    switch (kind) {
        case k_primitive: for (int d = 0; d < 3; ++d) g->i[d] = d < nd ? 1 + static_cast<int>(sim::draw(nd == 3 ? 2 : nd == 2 ? 4 : 6)) : 1; break;
        case k_shape: {
            g->i[0] = nd; g->variant = static_cast<int>(sim::draw(3));
            g->p[0] = dyadic(-2, 2, 8); g->p[1] = dyadic(5, nd == 3 ? 7 : 11, 4) + 0.03;
            g->p[2] = nd > 1 ? dyadic(-2, 2, 8) : 0; g->p[3] = nd > 1 ? dyadic(5, nd == 3 ? 7 : 11, 4) + 0.03 : 0.5;
            g->p[5] = nd > 2 ? 1.3 : 0.5;
            g->i[1] = sim::flip(1, 3) ? static_cast<int>(sim::draw(1, 6)) : 0;
            if (!l.offset.isZero()) g->i[1] = std::min(g->i[1], 3);
            break;
        }
        case k_symmetry: {
            for (int d = 0; d < 3; ++d) {
                g->p[d] = -1;
                if (d >= nd || (d > 0 && !sim::flip())) continue;
                int size = r.primitive ? r.primitive->i[d] : 1;
                int n = static_cast<int>(sim::draw(static_cast<std::uint64_t>(size + 1)));
                g->p[d] = n * l.vectors[static_cast<size_t>(d)].norm();
            }
            break;
        }
        case k_state: g->variant = static_cast<int>(sim::draw(3)); g->i[0] = serial; g->p[0] = dyadic(-4, 4, 4); g->p[1] = nd > 1 ? dyadic(-4, 4, 4) : 0; g->i[2] = sim::flip(1, 3) ? static_cast<int>(sim::draw(1, 2)) : 0; break;
        case k_position: g->variant = static_cast<int>(sim::draw(3)); break;
        case k_sitegen: {
            g->i[0] = serial; g->i[1] = serial % 7; g->name = "G" + S(serial);
            int n = l.max_norb();
            g->energy = MatrixXcd::Zero(n, n); for (int a = 0; a < n; ++a) g->energy(a, a) = dyadic(-4, 4, 4);
            break;
        }
        case k_hopgen: {
            g->i[0] = serial; g->name = "h" + S(serial);
            std::vector<std::pair<std::string, int>> names;
            for (auto& s : l.subs) if (s.base == s.name) names.push_back({s.name, s.norb});
            for (auto& q : r.structure) if (q->kind == k_sitegen) names.push_back({q->name, l.max_norb()});
            auto a = names[sim::draw(names.size())], b = names[sim::draw(names.size())];
            if (a.second > b.second) std::swap(a, b);
            g->sub1 = a.first; g->sub2 = b.first;
            g->energy = MatrixXcd::Zero(a.second, b.second);
            for (int x = 0; x < a.second; ++x) for (int y = 0; y < b.second; ++y) g->energy(x, y) = 0.25 * (1 + x + y + static_cast<int>(sim::draw(2)) * (a.second == b.second ? 0 : 1));
            break;
        }
        case k_onsite:
            g->variant = static_cast<int>(sim::draw(8)); if (g->variant > 2) g->variant = 0; // 2: complex override
            g->p[0] = dyadic(-2, 2, 4); g->p[1] = dyadic(-2, 2, 4); g->p[2] = dyadic(1, 4, 4);
            g->is_complex = g->variant == 1; g->is_double = sim::flip(1, 4);
            break;
        case k_hopping:
            g->variant = static_cast<int>(sim::draw(4));
            g->p[0] = dyadic(1, 6, 8); g->p[1] = dyadic(0, 4, 8);
            g->is_complex = g->variant == 1; g->is_double = sim::flip(1, 4);
            break;
        case k_lead: { int d = 1 + static_cast<int>(sim::draw(2)); g->i[0] = sim::flip() ? d : -d; g->p[0] = dyadic(1, 8, 4); break; }
    }
    finish_ingredient(g);
    return g;
}

// ---- what a model evaluates to -------------------------------------------------------------------
struct SysSnap {
    std::vector<float> pos; std::vector<int> ids, counts, norbs; std::vector<std::vector<int>> blocks; std::vector<std::string> names;
    bool operator==(SysSnap const& o) const { return pos == o.pos && ids == o.ids && counts == o.counts && norbs == o.norbs && blocks == o.blocks && names == o.names; }
};
inline void snap_blocks(HoppingBlocks const& b, std::vector<std::vector<int>>& out) {
    for (auto const& blk : b) { std::vector<int> v; v.push_back(-7); for (auto const& c : blk.coordinates()) { v.push_back(c.row); v.push_back(c.col); } out.push_back(v); }
}
inline SysSnap snap_system(System const& s) {
    SysSnap r;
    for (idx_t i = 0; i < s.num_sites(); ++i) { r.pos.push_back(s.positions.x[i]); r.pos.push_back(s.positions.y[i]); r.pos.push_back(s.positions.z[i]); }
    for (auto const& c : s.compressed_sublattices) { r.ids.push_back(c.id().value()); r.counts.push_back(static_cast<int>(c.num_sites())); r.norbs.push_back(static_cast<int>(c.num_orbitals())); r.names.push_back(s.site_registry.name(c.id())); }
    snap_blocks(s.hopping_blocks, r.blocks);
    for (auto const& n : s.hopping_registry.get_names()) r.names.push_back(n);
    for (auto const& b : s.boundaries) { r.blocks.push_back({static_cast<int>(std::lround(b.shift[0] * 64)), static_cast<int>(std::lround(b.shift[1] * 64)), static_cast<int>(std::lround(b.shift[2] * 64))}); snap_blocks(b.hopping_blocks, r.blocks); }
    return r;
}
struct HamSnap {
    int scalar = -1; idx_t rows = 0; std::vector<std::tuple<int, int, double, double>> nz;
    bool operator==(HamSnap const& o) const { return scalar == o.scalar && rows == o.rows && nz == o.nz; }
};
template<class scalar_t> void snap_matrix(SparseMatrixX<scalar_t> const& m, HamSnap& r) {
    r.rows = m.rows();
    for (idx_t i = 0; i < m.outerSize(); ++i)
        for (typename SparseMatrixX<scalar_t>::InnerIterator it(m, i); it; ++it) r.nz.emplace_back(static_cast<int>(it.row()), static_cast<int>(it.col()), std::real(it.value()), std::imag(it.value()));
}
inline HamSnap snap_ham(Hamiltonian const& h) {
    HamSnap r;
    if (ham::is<float>(h)) { r.scalar = 0; snap_matrix(ham::get_reference<float>(h), r); }
    else if (ham::is<std::complex<float>>(h)) { r.scalar = 1; snap_matrix(ham::get_reference<std::complex<float>>(h), r); }
    else if (ham::is<double>(h)) { r.scalar = 2; snap_matrix(ham::get_reference<double>(h), r); }
    else { r.scalar = 3; snap_matrix(ham::get_reference<std::complex<double>>(h), r); }
    return r;
}
inline DenseXcd dense(HamSnap const& h) { DenseXcd m = DenseXcd::Zero(h.rows, h.rows); for (auto& t : h.nz) m(std::get<0>(t), std::get<1>(t)) += cd(std::get<2>(t), std::get<3>(t)); return m; }

struct LeadSnap { std::vector<int> indices; SysSnap sys; HamSnap h0, h1; bool operator==(LeadSnap const& o) const { return indices == o.indices && sys == o.sys && h0 == o.h0 && h1 == o.h1; } };
struct Snap {
    std::string sys_error, ham_error, lead_error; // empty: evaluated
    SysSnap sys; HamSnap ham; std::vector<LeadSnap> leads; bool is_double = false, is_complex = false;
};
inline LeadSnap snap_lead(Lead const& l) { LeadSnap s; s.indices = l.indices(); s.sys = snap_system(l.system()); s.h0 = snap_ham(l.h0()); s.h1 = snap_ham(l.h1()); return s; }

// runs fn; the error text, or empty
template<class Fn> std::string attempt(Fn fn) {
    try { fn(); return {}; }
    catch (UserError const& e) { return std::string("UserError ") + e.what(); }
    catch (std::bad_alloc const&) { return "bad_alloc"; }
    catch (std::exception const& e) { return std::string(typeid(e).name()) + ": " + e.what(); }
}

inline Snap take(Model const& m) {
    Snap s;
    s.sys_error = attempt([&] { { sim::Loud l; m.system(); } s.sys = snap_system(*m.system()); });
    s.ham_error = attempt([&] { { sim::Loud l; m.hamiltonian(); } s.ham = snap_ham(m.hamiltonian()); });
    s.lead_error = attempt([&] { { sim::Loud l; m.leads(); } auto const& ls = m.leads(); for (int i = 0; i < ls.size(); ++i) s.leads.push_back(snap_lead(ls[static_cast<size_t>(i)])); });
    s.is_double = m.is_double(); s.is_complex = m.is_complex();
    return s;
}
inline std::string scalar_name(int s) { static char const* n[] = {"float", "complex float", "double", "complex double"}; return s < 0 ? "none" : n[s]; }
// empty when equal
inline std::string difference(Snap const& a, Snap const& b) {
    if (a.sys_error != b.sys_error) return "system: '" + a.sys_error + "' instead of '" + b.sys_error + "'";
    if (!(a.sys == b.sys)) {
        if (a.sys.pos.size() != b.sys.pos.size()) return "system has " + S(static_cast<long long>(a.sys.pos.size() / 3)) + " sites instead of " + S(static_cast<long long>(b.sys.pos.size() / 3));
        if (a.sys.pos != b.sys.pos) return "site positions differ";
        if (a.sys.names != b.sys.names) return "site or hopping families differ";
        if (a.sys.counts != b.sys.counts || a.sys.ids != b.sys.ids) return "sublattices differ";
        return "hoppings or boundaries of the system differ";
    }
    if (a.ham_error != b.ham_error) return "Hamiltonian: '" + a.ham_error + "' instead of '" + b.ham_error + "'";
    if (a.ham.scalar != b.ham.scalar) return "Hamiltonian is " + scalar_name(a.ham.scalar) + " instead of " + scalar_name(b.ham.scalar);
    if (!(a.ham == b.ham)) {
        std::ostringstream o; o << "Hamiltonian differs";
        if (a.ham.rows != b.ham.rows) o << " in size: " << a.ham.rows << " instead of " << b.ham.rows;
        else if (a.ham.nz.size() != b.ham.nz.size()) o << ": " << a.ham.nz.size() << " non-zeros instead of " << b.ham.nz.size();
        else for (size_t i = 0; i < a.ham.nz.size(); ++i) if (a.ham.nz[i] != b.ham.nz[i]) { o << " at (" << std::get<0>(a.ham.nz[i]) << "," << std::get<1>(a.ham.nz[i]) << "): " << cd(std::get<2>(a.ham.nz[i]), std::get<3>(a.ham.nz[i])) << " instead of (" << std::get<0>(b.ham.nz[i]) << "," << std::get<1>(b.ham.nz[i]) << ") " << cd(std::get<2>(b.ham.nz[i]), std::get<3>(b.ham.nz[i])); break; }
        return o.str();
    }
    if (a.lead_error != b.lead_error) return "leads: '" + a.lead_error + "' instead of '" + b.lead_error + "'";
    if (a.leads.size() != b.leads.size()) return "number of leads differs";
    for (size_t i = 0; i < a.leads.size(); ++i) if (!(a.leads[i] == b.leads[i])) return "lead " + S(static_cast<long long>(i)) + " differs";
    if (a.is_double != b.is_double || a.is_complex != b.is_complex) return "is_double/is_complex differ";
    return {};
}

inline int draw_kind(LatSpec const& l, Recipe const& r) {
    static int const kinds[] = {k_primitive, k_primitive, k_shape, k_shape, k_symmetry, k_state, k_position, k_sitegen, k_hopgen, k_onsite, k_onsite, k_hopping, k_hopping, k_lead};
    for (;;) {
        int k = kinds[sim::draw(14)];
        if (k == k_lead && (l.ndim() < 2 || l.max_norb() > 1 || !r.shape || r.leads.size() >= 2)) continue; // multi-orbital leads: see the finding lead-conjugate-hopping
        if ((k == k_sitegen || k == k_hopgen) && r.structure.size() >= 4) continue;
        return k;
    }
}

// a model which evaluates without an error
inline Recipe draw_recipe(std::shared_ptr<LatSpec const> lat, int max_ingredients, bool leads) {
    for (int tries = 0; tries < 20; ++tries) {
        Recipe r; r.lat = lat; int serial = 1;
        int n = 1 + static_cast<int>(sim::draw(static_cast<std::uint64_t>(max_ingredients)));
        bool bad = false;
        if (leads && lat->ndim() > 1 && lat->max_norb() == 1 && sim::flip()) { r.add(draw_ingredient(*lat, r, k_shape, serial++)); r.add(draw_ingredient(*lat, r, k_lead, serial++)); }
        for (int i = 0; i < n; ++i) { auto g = draw_ingredient(*lat, r, draw_kind(*lat, r), serial++); if (g->kind == k_lead && !leads) continue; r.add(g); }
        if (sim::flip(1, 3)) r.k = {static_cast<float>(dyadic(-8, 8, 8)), static_cast<float>(dyadic(-4, 4, 8)), 0};
        auto error = attempt([&] { auto m = fresh_model(r); auto s = take(*m); bad = !s.sys_error.empty() || !s.ham_error.empty() || !s.lead_error.empty(); });
        if (!bad && error.empty()) return r;
    }
    Recipe r; r.lat = lat; return r;
}

// small models for calculations
struct KModel { std::shared_ptr<LatSpec const> lat; Recipe recipe; };

inline KModel draw_kmodel(bool leads = false, int max_sites = 70) {
    for (int tries = 0; tries < 8; ++tries) {
        KModel k; k.lat = std::make_shared<LatSpec const>(draw_lattice());
        k.recipe = draw_recipe(k.lat, 4, leads);
        auto m = fresh_model(k.recipe);
        if (m->system()->num_sites() > 0 && m->hamiltonian().rows() <= max_sites) return k;
    }
    LatSpec l; l.vectors = {{1, 0, 0}};
    SubSpec s; s.name = s.base = "A"; s.pos = {0, 0, 0}; s.energy = MatrixXcd::Constant(1, 1, cd(0.25)); s.norb = 1;
    l.subs.push_back(s); l.families.push_back(MatrixXcd::Constant(1, 1, cd(-1))); l.hops.push_back({{1, 0, 0}, 0, 0, 0});
    KModel k; k.lat = std::make_shared<LatSpec const>(l); k.recipe.lat = k.lat;
    int serial = 1;
    k.recipe.add(draw_ingredient(*k.lat, k.recipe, k_primitive, serial++));
    return k;
}

// ---- reference: the sites and matrix elements the ingredients define ---------------------------------
struct RefSite { int sub; Index3D cell; Cartesian pos; std::string sub_name, base; int norb; bool valid; };
struct RefModel {
    std::vector<RefSite> sites; struct Term { int i, j; MatrixXcd m; }; std::vector<Term> terms;
    std::string problem;    // found while the reference was made: what is wrong with the leads
};

inline void ref_dangling(LatSpec const& l, std::vector<RefSite>& sites, std::map<std::tuple<int, int, int, int>, int> const& index, int min_neighbors) {
    auto neighbours = [&](int s) {
        std::vector<int> out;
        for (auto& h : l.hops) for (int dir = 0; dir < 2; ++dir) {
            if ((dir ? h.to : h.from) != sites[static_cast<size_t>(s)].sub) continue;
            Index3D c = sites[static_cast<size_t>(s)].cell + (dir ? Index3D(-h.rel) : h.rel);
            auto it = index.find(std::make_tuple(dir ? h.from : h.to, c[0], c[1], c[2]));
            if (it != index.end()) out.push_back(it->second);
        }
        return out;
    };
    std::vector<std::vector<int>> nb; for (size_t s = 0; s < sites.size(); ++s) nb.push_back(neighbours(static_cast<int>(s)));
    for (bool again = true; again;) {
        again = false;
        for (size_t s = 0; s < sites.size(); ++s) {
            if (!sites[s].valid) continue;
            int good = 0, bad = 0;
            for (int n : nb[s]) (sites[static_cast<size_t>(n)].valid ? good : bad)++;
            if (bad && good < min_neighbors) { sites[s].valid = false; again = true; }
        }
    }
}

inline std::tuple<std::string, long, long, long> site_key(std::string const& n, Cartesian const& r) { return std::make_tuple(n, std::lround(r[0] * 4096), std::lround(r[1] * 4096), std::lround(r[2] * 4096)); }

// The cells which a shape may reach; false: too close to call
inline bool shape_cells(LatSpec const& l, Shape const& shape, Index3D& lo, Index3D& hi) {
    int nd = l.ndim();
    Eigen::MatrixXd v(nd, nd); for (int d = 0; d < nd; ++d) for (int c = 0; c < nd; ++c) v(c, d) = l.vectors[static_cast<size_t>(d)][c];
    Eigen::MatrixXd inv = v.inverse();
    for (int d = 0; d < nd; ++d) { lo[d] = 1000; hi[d] = -1000; }
    for (auto const& p : shape.vertices) for (int d = 0; d < nd; ++d) {
        double c = 0; for (int e = 0; e < nd; ++e) c += inv(d, e) * p[e];
        if (std::abs(c - std::round(c)) < 1e-3) return false;
        lo[d] = std::min(lo[d], static_cast<int>(c)); hi[d] = std::max(hi[d], static_cast<int>(c));
    }
    for (int d = 0; d < nd; ++d) { --lo[d]; ++hi[d]; }
    return true;
}

// A lead of a model: its sites are those of one row of cells of the system, moved one cell outwards. Fills the sites
// between the lead and the system into `sites` and checks the lead itself. Single-orbital lattices only.
// Returns false if it can't be decided (ambiguous positions).
inline bool ref_lead(Recipe const& r, Ingredient const& spec, Lead const& lead, System const& sys, std::vector<RefSite>& sites, std::map<std::tuple<int, int, int, int>, int> const& index, std::string& problem) {
    LatSpec const& l = *r.lat;
    int axis = std::abs(spec.i[0]) - 1, sign = spec.i[0] > 0 ? 1 : -1;
    Cartesian shift = static_cast<float>(sign) * l.vectors[static_cast<size_t>(axis)];
    std::map<std::tuple<std::string, long, long, long>, int> where;
    for (size_t s = 0; s < sites.size(); ++s) if (!where.insert({site_key(sites[s].base, sites[s].pos), static_cast<int>(s)}).second) return false;
    auto const& idx = lead.indices(); auto n = idx.size();
    if (n == 0 || lead.system().num_sites() != static_cast<idx_t>(n)) { problem = "a lead with " + S(static_cast<long long>(n)) + " indices and " + S(lead.system().num_sites()) + " sites"; return true; }
    auto base = [](System const& s, idx_t i) { for (auto const& c : s.compressed_sublattices) if (i >= c.sys_start() && i < c.sys_end()) return s.site_registry.name(c.id()); return std::string(); };
    std::vector<int> at; std::set<int> seen;
    for (size_t j = 0; j < n; ++j) {
        if (idx[j] < 0 || idx[j] >= sys.num_sites() || !seen.insert(idx[j]).second) { problem = "a lead is attached to site " + S(idx[j]) + " of " + S(sys.num_sites()) + " (or twice)"; return true; }
        auto b = base(sys, idx[j]); Cartesian pos = sys.positions[idx[j]];
        auto it = where.find(site_key(b, pos));
        if (it == where.end()) { problem = "a lead is attached to a site at (" + F(pos[0]) + "," + F(pos[1]) + "," + F(pos[2]) + ") which is none of the lattice"; return true; }
        at.push_back(it->second);
        Cartesian lp = lead.system().positions[static_cast<idx_t>(j)];
        if ((lp - pos - shift).norm() > 1e-4f) { problem = "site " + S(static_cast<long long>(j)) + " of a lead is not one cell outwards of the site it continues"; return true; }
        if (base(lead.system(), static_cast<idx_t>(j)) != b) { problem = "site " + S(static_cast<long long>(j)) + " of a lead is of another sublattice than the site it continues"; return true; }
        if (sites[static_cast<size_t>(at[j])].cell[axis] != sites[static_cast<size_t>(at[0])].cell[axis]) { problem = "the sites of a lead are not of one row of cells"; return true; }
    }
    for (int s : at) {
        Index3D c = sites[static_cast<size_t>(s)].cell;
        for (;; c[axis] -= sign) {
            auto it = index.find(std::make_tuple(sites[static_cast<size_t>(s)].sub, c[0], c[1], c[2]));
            if (it == index.end()) { problem = "a lead partially misses the system"; return true; }
            auto& q = sites[static_cast<size_t>(it->second)];
            if (q.valid) break;
            q.valid = true;
        }
    }
    // its matrices
    DenseXcd h0 = DenseXcd::Zero(static_cast<idx_t>(n), static_cast<idx_t>(n)), h1 = h0, h1_known = h0;
    std::map<std::tuple<int, int, int, int>, int> member; for (size_t j = 0; j < n; ++j) { auto const& q = sites[static_cast<size_t>(at[j])]; member[std::make_tuple(q.sub, q.cell[0], q.cell[1], q.cell[2])] = static_cast<int>(j); }
    auto factor = [&](Cartesian a, Cartesian b, int family) { cd f(1); for (auto& g : r.hopping) f *= hopping_factor(*g, a, b, "t" + S(family)); return f; };
    for (size_t i = 0; i < n; ++i) {
        auto const& q = sites[static_cast<size_t>(at[i])]; Cartesian p1 = lead.system().positions[static_cast<idx_t>(i)];
        for (auto& sub : l.subs) if (sub.name == q.base) h0(static_cast<idx_t>(i), static_cast<idx_t>(i)) += sub.energy(0, 0);
        for (auto& g : r.onsite) h0(static_cast<idx_t>(i), static_cast<idx_t>(i)) += onsite_shift(*g, p1, q.base);
        for (auto& h : l.hops) {
            cd e = l.families[static_cast<size_t>(h.family)](0, 0);
            auto find = [&](int sub, Index3D const& c) { auto it = member.find(std::make_tuple(sub, c[0], c[1], c[2])); return it == member.end() ? -1 : it->second; };
            if (h.from == q.sub) {
                int j = find(h.to, q.cell + h.rel);
                if (j >= 0) { cd v = e * factor(p1, lead.system().positions[j], h.family); h0(static_cast<idx_t>(i), j) += v; h0(j, static_cast<idx_t>(i)) += std::conj(v); }
            }
            Index3D out = q.cell; out[axis] += sign;   // the next cell, further from the system
            if (h.from == q.sub) { int j = find(h.to, out + h.rel); if (j >= 0) { cd f = factor(p1, lead.system().positions[j] - shift, h.family); h1(static_cast<idx_t>(i), j) += e * f; h1_known(static_cast<idx_t>(i), j) += e * f; } }
            if (h.to == q.sub) { int j = find(h.from, out - h.rel); if (j >= 0) { cd f = factor(p1, lead.system().positions[j] - shift, h.family); h1(static_cast<idx_t>(i), j) += std::conj(e) * f; h1_known(static_cast<idx_t>(i), j) += e * f; } }
        }
    }
    auto check = [&](char const* name, DenseXcd const& got, DenseXcd const& want, DenseXcd const* known) {
        if (got.rows() != want.rows() || got.cols() != want.cols()) { problem = std::string(name) + " of a lead has the wrong size"; return; }
        for (idx_t i = 0; i < got.rows(); ++i) for (idx_t j = 0; j < got.cols(); ++j) {
            auto tol = 2e-4 * (1 + std::abs(want(i, j)));
            if (std::abs(got(i, j) - want(i, j)) <= tol) continue;
            if (known && std::abs(got(i, j) - (*known)(i, j)) <= tol) { sim::soft_finding("lead-conjugate-hopping", "h1 of a lead holds t instead of conj(t)"); continue; }
            std::ostringstream o; o << name << " of a lead in direction " << spec.i[0] << " is " << got(i, j) << " at (" << i << "," << j << "), the ingredients define " << want(i, j); problem = o.str(); return;
        }
    };
    check("h0", dense(snap_ham(lead.h0())), h0, nullptr);
    if (problem.empty()) check("h1", dense(snap_ham(lead.h1())), h1, &h1_known);
    return true;
}

// false: not covered by the reference. The evaluated model tells to which sites its leads are attached.
inline bool reference(Recipe const& r, RefModel& out, Model const& model) {
    LatSpec const& l = *r.lat;
    if (!r.leads.empty() && (!r.shape || r.symmetry || l.max_norb() > 1)) return false;
    int nd = l.ndim();
    Index3D lo = Index3D::Zero(), hi = Index3D::Zero(), first = Index3D::Zero(), last = Index3D::Zero();
    Cartesian offset = l.offset;
    if (r.shape) {
        offset += r.shape->shape->lattice_offset;
        for (int d = 0; d < nd; ++d) { lo[d] = d == 2 ? -4 : d == 0 ? -11 : -9; hi[d] = -lo[d]; }
    } else for (int d = 0; d < nd; ++d) { int s = r.primitive ? r.primitive->i[d] : 1; lo[d] = -(s / 2); hi[d] = (s - 1) / 2; }
    std::vector<RefSite> sites; std::map<std::tuple<int, int, int, int>, int> index;
    for (int s = 0; s < static_cast<int>(l.subs.size()); ++s)
        for (int c = lo[2]; c <= hi[2]; ++c) for (int b = lo[1]; b <= hi[1]; ++b) for (int a = lo[0]; a <= hi[0]; ++a) {
            RefSite q; q.sub = s; q.cell = {a, b, c};
            q.pos = offset + l.subs[static_cast<size_t>(s)].pos;
            for (int d = 0; d < nd; ++d) q.pos += static_cast<float>(q.cell[d]) * l.vectors[static_cast<size_t>(d)];
            q.sub_name = l.subs[static_cast<size_t>(s)].name; q.base = l.subs[static_cast<size_t>(s)].base; q.norb = l.subs[static_cast<size_t>(s)].norb;
            q.valid = !r.shape || in_shape(*r.shape, q.pos[0], q.pos[1], q.pos[2]);
            index[std::make_tuple(s, a, b, c)] = static_cast<int>(sites.size());
            sites.push_back(q);
        }
    if (r.shape) ref_dangling(l, sites, index, l.min_neighbors);
    Index3D period = Index3D::Zero(); // 0: not periodic
    first = lo; last = hi;   // the cells which periodicity is relative to
    if (r.shape && r.symmetry && !shape_cells(l, *r.shape->shape, first, last)) return false;
    if (r.symmetry) {
        Index3D left = lo, right = hi;
        for (int d = 0; d < nd; ++d) {
            if (r.symmetry->p[d] < 0) continue;
            int n = std::max(1, static_cast<int>(std::lround(r.symmetry->p[d] / l.vectors[static_cast<size_t>(d)].norm())));
            int size = last[d] - first[d] + 1;
            left[d] = first[d] + (size - n) / 2; right[d] = left[d] + n - 1; period[d] = n;
        }
        for (auto& q : sites) for (int d = 0; d < 3; ++d) if (q.cell[d] < left[d] || q.cell[d] > right[d]) q.valid = false;
    }
    size_t m = 0;
    for (; m < r.structure.size(); ++m) {
        auto const& g = *r.structure[m];
        if (g.kind == k_sitegen || g.kind == k_hopgen) break;
        if (g.kind == k_position) for (auto& q : sites) q.pos = moved(g, q.pos, q.sub_name);
        if (g.kind == k_state) {
            for (auto& q : sites) if (removes(g, q.pos[0], q.pos[1], q.pos[2], q.sub_name)) q.valid = false;
            if (g.i[2] > 0) ref_dangling(l, sites, index, g.i[2]);
        }
    }
    if (!r.leads.empty()) {
        if (m < r.structure.size()) return false;
        auto const& leads = model.leads();
        for (size_t i = 0; i < r.leads.size(); ++i) {
            auto lead = leads[i];
            if (!ref_lead(r, *r.leads[i], lead, *model.system(), sites, index, out.problem)) return false;
            if (!out.problem.empty()) return true;
        }
    }
    // lattice hoppings, with the translation of the target for periodic ones
    struct Bond { int i, j; std::string family; MatrixXcd e; Cartesian shift; bool boundary; };
    std::vector<Bond> bonds;
    for (size_t s = 0; s < sites.size(); ++s) {
        if (!sites[s].valid) continue;
        for (auto& h : l.hops) {
            if (h.from != sites[s].sub) continue;
            Index3D c = sites[s].cell + h.rel; Cartesian shift = {0, 0, 0}; bool wrapped = false;
            auto it = index.find(std::make_tuple(h.to, c[0], c[1], c[2]));
            bool direct = it != index.end() && sites[static_cast<size_t>(it->second)].valid;
            if (!direct && r.symmetry) {
                // wrap into the periodic cell
                Index3D left = lo;
                for (int d = 0; d < nd; ++d) {
                    if (!period[d]) continue;
                    left[d] = first[d] + ((last[d] - first[d] + 1) - period[d]) / 2;
                    while (c[d] < left[d]) { c[d] += period[d]; shift -= static_cast<float>(period[d]) * l.vectors[static_cast<size_t>(d)]; wrapped = true; }
                    while (c[d] > left[d] + period[d] - 1) { c[d] -= period[d]; shift += static_cast<float>(period[d]) * l.vectors[static_cast<size_t>(d)]; wrapped = true; }
                }
                if (!wrapped) continue;
                it = index.find(std::make_tuple(h.to, c[0], c[1], c[2]));
                direct = it != index.end() && sites[static_cast<size_t>(it->second)].valid;
            }
            if (!direct) continue;
            bonds.push_back({static_cast<int>(s), it->second, "t" + S(h.family), l.families[static_cast<size_t>(h.family)], shift, wrapped});
        }
    }
    std::map<std::string, MatrixXcd> site_energy; for (auto& s : l.subs) site_energy[s.name] = s.energy;
    for (auto& g : r.structure) if (g->kind == k_sitegen) site_energy[g->name] = g->energy;
    // modifiers of the finished system; generators act on the sites which are left at that moment
    for (; m < r.structure.size(); ++m) {
        auto const& g = *r.structure[m];
        if (g.kind == k_position) for (auto& q : sites) if (q.valid) q.pos = moved(g, q.pos, q.base);
        if (g.kind == k_state) {
            if (g.i[2] > 0) return false; // an error
            for (auto& q : sites) if (q.valid && removes(g, q.pos[0], q.pos[1], q.pos[2], q.base)) q.valid = false;
        }
        if (g.kind == k_sitegen) {
            size_t n = sites.size();
            for (size_t s = 0; s < n; ++s) if (sites[s].valid && generates_site(g, sites[s].pos)) {
                RefSite q; q.sub = -1; q.cell = Index3D::Zero(); q.pos = generated_position(g, sites[s].pos); q.sub_name = q.base = g.name; q.norb = static_cast<int>(g.energy.rows()); q.valid = true;
                sites.push_back(q);
            }
        }
        if (g.kind == k_hopgen)
            for (size_t a = 0; a < sites.size(); ++a) for (size_t b = 0; b < sites.size(); ++b)
                if (a != b && sites[a].valid && sites[b].valid && sites[a].base == g.sub1 && sites[b].base == g.sub2 && generates_hopping(g, sites[a].pos, sites[b].pos))
                    bonds.push_back({static_cast<int>(a), static_cast<int>(b), g.name, g.energy, {0, 0, 0}, false});
    }
    std::vector<int> id(sites.size(), -1);
    for (size_t s = 0; s < sites.size(); ++s) if (sites[s].valid) { id[s] = static_cast<int>(out.sites.size()); out.sites.push_back(sites[s]); }
    if (out.sites.empty()) return false;
    // matrix elements
    for (size_t s = 0; s < out.sites.size(); ++s) {
        MatrixXcd e = site_energy[out.sites[s].base];
        for (auto& g : r.onsite) {
            for (int a = 0; a < e.rows(); ++a) for (int b = 0; b < e.cols(); ++b)
                e(a, b) += a == b ? cd(onsite_shift(*g, out.sites[s].pos, out.sites[s].base)) : a < b ? onsite_offdiag(*g) : std::conj(onsite_offdiag(*g));
        }
        out.terms.push_back({static_cast<int>(s), static_cast<int>(s), e});
    }
    for (auto& b : bonds) {
        if (id[static_cast<size_t>(b.i)] < 0 || id[static_cast<size_t>(b.j)] < 0) continue;
        MatrixXcd e = b.e; auto p1 = sites[static_cast<size_t>(b.i)].pos; Cartesian p2 = sites[static_cast<size_t>(b.j)].pos + b.shift;
        for (auto& g : r.hopping) e = e * hopping_factor(*g, p1, p2, b.family);
        if (b.boundary) e = e * std::exp(cd(0, -static_cast<double>(r.k.dot(b.shift))));
        out.terms.push_back({id[static_cast<size_t>(b.i)], id[static_cast<size_t>(b.j)], e});
        out.terms.push_back({id[static_cast<size_t>(b.j)], id[static_cast<size_t>(b.i)], e.adjoint()});
    }
    return true;
}

// empty when the evaluated model is what the reference says; "skip" when positions are ambiguous
inline std::string compare_reference(System const& sys, HamSnap const& ham, RefModel const& ref) {
    if (!ref.problem.empty()) return ref.problem;
    if (sys.num_sites() != static_cast<idx_t>(ref.sites.size())) return "the system has " + S(sys.num_sites()) + " sites, the ingredients define " + S(static_cast<long long>(ref.sites.size()));
    std::map<std::tuple<std::string, long, long, long>, std::pair<int, int>> where; // -> (ham start, norb)
    auto key = site_key;
    for (auto const& sub : sys.compressed_sublattices)
        for (auto i = sub.sys_start(); i < sub.sys_end(); ++i)
            if (!where.insert({key(sys.site_registry.name(sub.id()), sys.positions[i]), {static_cast<int>(sub.ham_start() + (i - sub.sys_start()) * sub.num_orbitals()), static_cast<int>(sub.num_orbitals())}}).second) return "skip";
    std::vector<int> start;
    for (auto const& q : ref.sites) {
        auto it = where.find(key(q.base, q.pos));
        if (it == where.end()) { std::ostringstream o; o << "no site of sublattice " << q.base << " at (" << q.pos[0] << "," << q.pos[1] << "," << q.pos[2] << ")"; return o.str(); }
        if (it->second.second != q.norb) return "wrong number of orbitals";
        start.push_back(it->second.first);
        where.erase(it);
    }
    int orbitals = 0; for (auto const& q : ref.sites) orbitals += q.norb;
    if (ham.rows != orbitals) return "the Hamiltonian has " + S(ham.rows) + " rows for " + S(orbitals) + " orbitals";
    DenseXcd expect = DenseXcd::Zero(ham.rows, ham.rows);
    for (auto const& t : ref.terms) {
        int a = start[static_cast<size_t>(t.i)], b = start[static_cast<size_t>(t.j)];
        if (a + t.m.rows() > ham.rows || b + t.m.cols() > ham.rows) return "the Hamiltonian has " + S(ham.rows) + " rows: too few";
        expect.block(a, b, t.m.rows(), t.m.cols()) += t.m;
    }
    DenseXcd h = dense(ham);
    double tol = 2e-4;
    for (idx_t i = 0; i < h.rows(); ++i) for (idx_t j = 0; j < h.cols(); ++j)
        if (!(std::abs(h(i, j) - expect(i, j)) <= tol * (1 + std::abs(expect(i, j))))) { std::ostringstream o; o << "matrix element (" << i << "," << j << ") is " << h(i, j) << ", the ingredients define " << expect(i, j); return o.str(); }
    return {};
}

} // namespace core
