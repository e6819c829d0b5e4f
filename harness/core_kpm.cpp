// KPM: C05 results for every schedule, C06 progress reports, C07 histories of one KPM object,
// C10 failures during KPM calculations, C15 KPM objects on several threads.
#include "core_common.hpp"
#include "KPM.hpp"
#include "compute/lanczos.hpp"
#include <deque>
#include <random>
#include <thread>

using namespace core;

namespace {

using Flat = std::vector<cd>;

struct KConfig {
    kpm::Config config; int kernel = 0; double lambda = 4; bool manual = true; int threads = 1;
    std::string text() const {
        return std::string(config.matrix_format == kpm::MatrixFormat::ELL ? "ELL" : "CSR") + (config.algorithm.optimal_size ? " optimal_size" : "") + (config.algorithm.interleaved ? " interleaved" : "")
               + (kernel == 0 ? " jackson" : kernel == 1 ? " lorentz" : " dirichlet") + (manual ? "" : " automatic bounds") + " threads=" + S(threads);
    }
};
struct Range { double lo, hi; };
Range gershgorin(HamSnap const& h) {
    std::vector<double> d(static_cast<size_t>(h.rows)), r(static_cast<size_t>(h.rows));
    for (auto& t : h.nz) { if (std::get<0>(t) == std::get<1>(t)) d[static_cast<size_t>(std::get<0>(t))] += std::get<2>(t); else r[static_cast<size_t>(std::get<0>(t))] += std::hypot(std::get<2>(t), std::get<3>(t)); }
    Range g{1e9, -1e9};
    for (size_t i = 0; i < d.size(); ++i) { g.lo = std::min(g.lo, d[i] - r[i]); g.hi = std::max(g.hi, d[i] + r[i]); }
    return g;
}
// Is it safe to ask for automatic bounds? The Lanczos procedure doesn't converge if the lowest or highest energy
// is zero or if its start vector spans an invariant subspace (highly degenerate systems).
template<class scalar_t> bool lanczos_converges(HamSnap const& h) {
    SparseMatrixX<scalar_t> m(h.rows, h.rows);
    std::vector<Eigen::Triplet<scalar_t>> t;
    for (auto& e : h.nz) { scalar_t v(0); add_to(v, cd(std::get<2>(e), std::get<3>(e))); t.emplace_back(std::get<0>(e), std::get<1>(e), v); }
    m.setFromTriplets(t.begin(), t.end());
    try { auto b = compute::minmax_eigenvalues(m, kpm::Config().lanczos_precision); return b.loops < 60 && std::isfinite(b.min) && std::isfinite(b.max) && b.max - b.min > 0.1; }
    catch (std::exception const&) { return false; }
}
bool lanczos_ok(HamSnap const& h) {
    int off = 0; for (auto& t : h.nz) off += std::get<0>(t) != std::get<1>(t);
    if (h.rows < 8 || off < 2 * h.rows) return false;
    return h.scalar == 0 ? lanczos_converges<float>(h) : h.scalar == 1 ? lanczos_converges<std::complex<float>>(h) : h.scalar == 2 ? lanczos_converges<double>(h) : lanczos_converges<std::complex<double>>(h);
}
KConfig draw_config(std::vector<HamSnap> const& hams) {
    KConfig k;
    k.config.matrix_format = sim::flip() ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
    k.config.algorithm.optimal_size = sim::flip(); k.config.algorithm.interleaved = sim::flip();
    k.kernel = static_cast<int>(sim::draw(3));
    k.lambda = 3.0 + static_cast<double>(sim::draw(5)) * 0.5;
    k.config.kernel = k.kernel == 0 ? kpm::jackson_kernel() : k.kernel == 1 ? kpm::lorentz_kernel(k.lambda) : kpm::dirichlet_kernel();
    Range all{1e9, -1e9}; bool auto_ok = sim::flip(1, 4);
    for (auto& h : hams) { auto r = gershgorin(h); all.lo = std::min(all.lo, r.lo); all.hi = std::max(all.hi, r.hi); auto_ok = auto_ok && lanczos_ok(h); }
    k.manual = !auto_ok;
    if (k.manual) {
        double slack = 0.25 * (1 + static_cast<double>(sim::draw(4)));
        k.config.min_energy = static_cast<float>(all.lo - slack); k.config.max_energy = static_cast<float>(all.hi + (sim::flip() ? slack : 0.25));
    }
    return k;
}

// ---- requests ------------------------------------------------------------------------------------
enum Req { r_dos, r_ldos, r_spatial, r_greens, r_greens_vector, r_moments, r_conductivity };
struct Request {
    int kind = r_dos; int num_random = 1; ArrayXd energy; double broadening = 0.2;
    int site = 0; Cartesian offset{0, 0, 0}; std::string sublattice; bool reduce = true; std::shared_ptr<Ingredient> shape;
    std::vector<idx_t> cols; idx_t row = 0; idx_t col = 0;
    idx_t num_moments = 0; VectorXcd alpha, beta; SparseMatrixXcd op; bool with_beta = false, with_op = false;
    std::string direction = "xx"; double temperature = 300; int num_points = 20;
    std::string text() const {
        switch (kind) {
            case r_dos: return "dos(" + S(num_random) + " vectors)";
            case r_ldos: return "ldos(site " + S(site) + (sublattice.empty() ? "" : " of " + sublattice) + (reduce ? "" : ", not reduced") + ")";
            case r_spatial: return "spatial_ldos(" + shape->text() + (sublattice.empty() ? "" : " of " + sublattice) + ")";
            case r_greens: return "greens(" + S(row) + "," + S(col) + ")";
            case r_greens_vector: { std::string t = "greens(" + S(row) + ",["; for (auto c : cols) t += S(c) + " "; return t + "])"; }
            case r_moments: return "moments(" + S(num_moments) + (with_beta ? ", beta" : "") + (with_op ? ", op" : "") + ")";
            default: return "conductivity(" + direction + ", " + S(num_random) + " vectors)";
        }
    }
};
int batch_of(int scalar) { return scalar == 0 ? 8 : scalar == 1 || scalar == 2 ? 4 : 2; }

// the orbitals of the site nearest to a position (the first of several at the same position); false: it's a tie
bool nearest(System const& sys, Cartesian at, std::string const& sublattice, std::vector<idx_t>& v) {
    double best = 1e300, second = 1e300;
    for (auto const& c : sys.compressed_sublattices) {
        if (!sublattice.empty() && sys.site_registry.name(c.id()) != sublattice) continue;
        for (idx_t i = c.sys_start(); i < c.sys_end(); ++i) {
            double d = std::hypot(std::hypot(sys.positions.x[i] - at[0], sys.positions.y[i] - at[1]), sys.positions.z[i] - at[2]);
            if (d >= best) { second = std::min(second, d); continue; }
            second = best; best = d; v.clear();
            for (idx_t o = 0; o < c.num_orbitals(); ++o) v.push_back(c.ham_start() + (i - c.sys_start()) * c.num_orbitals() + o);
        }
    }
    return second - best >= 1e-4 * (1 + best);
}

// a, b: the scaling factors
Request draw_request(int kind, Model const& m, HamSnap const& h, double a, double b, int max_moments = 40) {
    Request q; q.kind = kind;
    auto const& sys = *m.system();
    // now and then one quantity is large
    int const large = sim::flip(1, 32) ? 1 + static_cast<int>(sim::draw(4)) : 0; if (large) sim::probe("large_request");
    int n = 1 + static_cast<int>(sim::draw(large == 1 ? 200 : 4));
    if (large == 2 && max_moments >= 40) max_moments = h.scalar < 2 ? 120 : 320;
    q.energy = ArrayXd(n);
    for (int i = 0; i < n; ++i) q.energy[i] = b + a * (static_cast<double>(sim::draw(1793)) - 896) / 1024.0;
    // lambda or pi over the number of moments
    q.broadening = a * 3.3 / (3 + static_cast<double>(sim::draw(static_cast<std::uint64_t>(max_moments - 3))));
    int batch = batch_of(h.scalar);
    q.num_random = 1 + static_cast<int>(sim::draw(static_cast<std::uint64_t>((large == 3 ? 12 : 2) * batch + 3)));
    switch (kind) {
        case r_ldos: {
            q.site = static_cast<int>(sim::draw(static_cast<std::uint64_t>(sys.num_sites()))); q.reduce = sim::flip();
            if (sim::flip(1, 3)) for (auto const& c : sys.compressed_sublattices) if (q.site >= c.sys_start() && q.site < c.sys_end()) q.sublattice = sys.site_registry.name(c.id());
            if (sim::flip(1, 3)) {                   // somewhere, and the nearest site of any sublattice
                q.offset = {static_cast<float>(dyadic(-8, 8, 8)), static_cast<float>(dyadic(-8, 8, 8)), static_cast<float>(dyadic(-2, 2, 8))};
                std::vector<std::string> names; for (auto const& c : sys.compressed_sublattices) if (c.num_sites() > 0) names.push_back(sys.site_registry.name(c.id()));
                if (sim::flip()) q.sublattice = names[sim::draw(names.size())];
                std::vector<idx_t> v;
                if (!nearest(sys, sys.positions[q.site] + q.offset, q.sublattice, v)) { q.offset = {0, 0, 0}; q.sublattice.clear(); }
            }
            break;
        }
        case r_spatial: {
            auto g = std::make_shared<Ingredient>(); g->kind = k_shape; g->i[0] = 2; g->variant = 0;
            g->p[0] = dyadic(-4, 4, 8); g->p[1] = dyadic(2, 16, 4); g->p[2] = dyadic(-4, 4, 8); g->p[3] = dyadic(2, 12, 4); g->p[5] = 50;
            finish_ingredient(g);
            q.shape = g;
            if (sim::flip(1, 3)) { std::vector<std::string> names; for (auto const& c : sys.compressed_sublattices) names.push_back(sys.site_registry.name(c.id())); q.sublattice = names[sim::draw(names.size())]; }
            break;
        }
        case r_greens: case r_greens_vector: {
            auto index = [&] { return static_cast<idx_t>(sim::draw(static_cast<std::uint64_t>(h.rows))); };
            q.row = index(); q.col = sim::flip(1, 4) ? q.row : index();
            int k = 1 + static_cast<int>(sim::draw(large == 4 ? 60 : 5));
            for (int i = 0; i < k; ++i) q.cols.push_back(sim::flip(1, 5) ? q.row : index());
            break;
        }
        case r_moments: {
            bool cplx = h.scalar == 1 || h.scalar == 3;
            auto vec = [&] { VectorXcd v(h.rows); for (idx_t i = 0; i < h.rows; ++i) v[i] = cd(dyadic(-8, 8, 8), cplx ? dyadic(-8, 8, 8) : 0.0); return v; };
            q.num_moments = 2 + static_cast<idx_t>(sim::draw(static_cast<std::uint64_t>(max_moments)));
            q.alpha = vec(); q.with_beta = sim::flip(); if (q.with_beta) q.beta = vec();
            q.with_op = sim::flip(1, 3);
            if (q.with_op) {
                q.op = SparseMatrixXcd(h.rows, h.rows);
                std::vector<Eigen::Triplet<cd>> t;
                for (idx_t i = 0; i < h.rows; ++i) { t.push_back({static_cast<int>(i), static_cast<int>(i), cd(dyadic(1, 8, 8))}); if (i + 1 < h.rows) t.push_back({static_cast<int>(i), static_cast<int>(i + 1), cd(0.5, cplx ? 0.25 : 0.0)}); }
                q.op.setFromTriplets(t.begin(), t.end());
            }
            break;
        }
        case r_conductivity: {
            char const* dirs[] = {"xx", "xy", "yx", "yy", "zz", "xz"};
            q.direction = dirs[sim::draw(6)]; q.num_random = 1 + static_cast<int>(sim::draw(large == 3 ? 20 : 3)); q.num_points = 5 + static_cast<int>(sim::draw(large == 4 ? 120 : 10));
            q.broadening = a * 3.3 / (3 + static_cast<double>(sim::draw(8)));
            break;
        }
        default: break;
    }
    return q;
}

template<class A> void append(Flat& f, A const& a) { for (idx_t i = 0; i < a.size(); ++i) f.push_back(cd(a.data()[i])); }
Flat run(KPM const& kpm, Request const& q) {
    Flat f;
    switch (q.kind) {
        case r_dos: { auto r = kpm.calc_dos(q.energy, q.broadening, q.num_random); append(f, r); break; }
        case r_ldos: { Cartesian pos; { sim::Quiet s; pos = kpm.get_model().system()->positions[q.site] + q.offset; } auto r = kpm.calc_ldos(q.energy, q.broadening, pos, q.sublattice, q.reduce); f.push_back(cd(static_cast<double>(r.cols()))); append(f, r); break; }
        case r_spatial: { auto r = kpm.calc_spatial_ldos(q.energy, q.broadening, *q.shape->shape, q.sublattice); f.push_back(cd(static_cast<double>(r.cols()))); append(f, r); break; }
        case r_greens: { auto r = kpm.calc_greens(q.row, q.col, q.energy, q.broadening); append(f, r); break; }
        case r_greens_vector: { auto r = kpm.calc_greens_vector(q.row, q.cols, q.energy, q.broadening); for (auto& x : r) append(f, x); break; }
        case r_moments: { auto r = kpm.moments(q.num_moments, q.alpha, q.beta, q.op); append(f, r); break; }
        default: { auto r = kpm.calc_conductivity(q.energy, q.broadening, q.temperature, q.direction, q.num_random, q.num_points); append(f, r); }
    }
    return f;
}

// ---- reference: the vectors one after another, with a textbook recursion in double precision ----------
struct Reference {
    HamSnap const& h; double a, b; kpm::Config const& config;
    using V = std::vector<cd>;
    V mul(V const& x) const { // (H - b) / a
        V y(x.size());
        for (auto& t : h.nz) y[static_cast<size_t>(std::get<0>(t))] += cd(std::get<2>(t), std::get<3>(t)) * x[static_cast<size_t>(std::get<1>(t))];
        for (size_t i = 0; i < x.size(); ++i) y[i] = (y[i] - b * x[i]) / a;
        return y;
    }
    // calls out(n, T_n v) for n < N
    template<class Out> void chebyshev(V v, idx_t N, Out out) const {
        V t0 = v, t1 = mul(v);
        for (idx_t n = 0; n < N; ++n) {
            out(n, t0);
            V t2 = mul(t1);
            for (size_t i = 0; i < t2.size(); ++i) t2[i] = 2.0 * t2[i] - t0[i];
            t0.swap(t1); t1.swap(t2);
        }
    }
    idx_t num_moments(double broadening) const { return config.kernel.required_num_moments(broadening / a); }
    ArrayXd damping(idx_t N) const { auto g = config.kernel.damping_coefficients(N); g[0] *= 0.5; return g; }
    double scaled(double e) const { return (e - b) / a; }
    double density_prefactor(double e) const { return 2.0 / 3.14159265358979323846 / a / std::sqrt(1 - e * e); }
    // magnitude: what rounding errors are relative to
    void density(V const& v, Request const& q, std::vector<double>& out, std::vector<double>& magnitude) const {
        auto N = num_moments(q.broadening); auto g = damping(N);
        std::vector<double> mu(static_cast<size_t>(N));
        chebyshev(v, N, [&](idx_t n, V const& t) { cd s = 0; for (size_t i = 0; i < t.size(); ++i) s += std::conj(v[i]) * t[i]; mu[static_cast<size_t>(n)] = s.real(); });
        for (idx_t k = 0; k < q.energy.size(); ++k) {
            double e = scaled(q.energy[k]), s = 0, m = 0;
            for (idx_t n = 0; n < N; ++n) { s += mu[static_cast<size_t>(n)] * g[n] * std::cos(static_cast<double>(n) * std::acos(e)); m += std::abs(g[n] * mu[0]); }
            out[static_cast<size_t>(k)] += density_prefactor(e) * s; magnitude[static_cast<size_t>(k)] += std::abs(density_prefactor(e) * m);
        }
    }
    V unit(idx_t i) const { V v(static_cast<size_t>(h.rows)); v[static_cast<size_t>(i)] = 1; return v; }
    // random vectors are drawn in a fixed order from a default generator
    template<class real> V random(std::mt19937& gen, bool cplx) const {
        V v(static_cast<size_t>(h.rows));
        std::uniform_real_distribution<real> d;
        for (auto& x : v) { real u = d(gen); x = cplx ? cd(std::polar(1.0, 2 * 3.14159265358979323846 * static_cast<double>(u))) : cd(u < 0.5f ? -1.0 : 1.0); }
        return v;
    }
    // the random vectors of dos() are summed up in any order: what the rounding errors of the sum are relative to
    std::vector<double> dos_magnitude(Request const& q) const {
        std::vector<double> r;
        auto N = num_moments(q.broadening); auto g = damping(N);
        for (idx_t k = 0; k < q.energy.size(); ++k) r.push_back(std::abs(density_prefactor(scaled(q.energy[k]))) * g.abs().sum() * static_cast<double>(h.rows));
        return r;
    }
    // false: not covered
    bool expect(Model const& m, Request const& q, Flat& out, std::vector<double>& mag) const {
        size_t ne = static_cast<size_t>(q.energy.size());
        auto columns = [&](std::vector<idx_t> const& idx, bool reduce) {
            std::vector<std::vector<double>> cols, mags;
            for (auto i : idx) { cols.emplace_back(ne); mags.emplace_back(ne); density(unit(i), q, cols.back(), mags.back()); }
            if (reduce && cols.size() > 1) {
                for (size_t c = 1; c < cols.size(); ++c) for (size_t k = 0; k < ne; ++k) { cols[0][k] += cols[c][k]; mags[0][k] += mags[c][k]; }
                cols.resize(1); mags.resize(1);
            }
            out.push_back(cd(static_cast<double>(cols.size()))); mag.push_back(0);
            for (size_t c = 0; c < cols.size(); ++c) for (size_t k = 0; k < ne; ++k) { out.push_back(cols[c][k]); mag.push_back(mags[c][k]); }
        };
        auto greens = [&](idx_t row, idx_t col) {
            auto N = num_moments(q.broadening); auto g = damping(N);
            std::vector<cd> mu(static_cast<size_t>(N));
            chebyshev(unit(row), N, [&](idx_t n, V const& t) { mu[static_cast<size_t>(n)] = t[static_cast<size_t>(col)]; });
            for (size_t k = 0; k < ne; ++k) {
                double e = scaled(q.energy[static_cast<idx_t>(k)]); cd s = 0; double w = 0; auto pre = cd(0, -2.0) / a / std::sqrt(1 - e * e);
                for (idx_t n = 0; n < N; ++n) { s += mu[static_cast<size_t>(n)] * g[n] * std::exp(cd(0, -static_cast<double>(n) * std::acos(e))); w += std::abs(g[n]); }
                out.push_back(pre * s); mag.push_back(std::abs(pre) * w);
            }
        };
        switch (q.kind) {
            case r_dos: {
                std::vector<double> sum(ne), ms(ne); std::mt19937 gen;
                bool cplx = h.scalar == 1 || h.scalar == 3;
                for (int i = 0; i < q.num_random; ++i) density(h.scalar < 2 ? random<float>(gen, cplx) : random<double>(gen, cplx), q, sum, ms);
                for (size_t k = 0; k < ne; ++k) { out.push_back(sum[k] / q.num_random); mag.push_back(ms[k] / q.num_random); }
                return true;
            }
            case r_ldos: {
                auto const& sys = *m.system();
                std::vector<idx_t> v; nearest(sys, sys.positions[q.site] + q.offset, q.sublattice, v);
                columns(v, q.reduce);
                return true;
            }
            case r_spatial: {
                std::vector<idx_t> v; auto const& sys = *m.system();
                idx_t from = 0, to = sys.num_sites();
                if (!q.sublattice.empty()) for (auto const& c : sys.compressed_sublattices) if (sys.site_registry.name(c.id()) == q.sublattice) { from = c.sys_start(); to = c.sys_end(); }
                for (idx_t i = from; i < to; ++i) if (in_shape(*q.shape, sys.positions.x[i], sys.positions.y[i], sys.positions.z[i])) v.push_back(i);
                columns(v, false);
                return true;
            }
            case r_greens: greens(q.row, q.col); return true;
            case r_greens_vector: for (auto c : q.cols) greens(q.row, c); return true;
            case r_moments: {
                idx_t N = kpm::round_num_moments(q.num_moments); auto g = damping(N);
                V al(static_cast<size_t>(h.rows)), be(al.size()); double norm_a = 0, norm_b = 0;
                for (size_t i = 0; i < al.size(); ++i) { al[i] = q.alpha[static_cast<idx_t>(i)]; be[i] = q.with_beta ? q.beta[static_cast<idx_t>(i)] : al[i]; norm_a += std::norm(al[i]); norm_b += std::norm(be[i]); }
                chebyshev(al, N, [&](idx_t n, V const& t) {
                    if (n >= q.num_moments) return;
                    V u = t;
                    if (q.with_op) { std::fill(u.begin(), u.end(), cd(0)); for (idx_t i = 0; i < q.op.outerSize(); ++i) for (SparseMatrixXcd::InnerIterator it(q.op, i); it; ++it) u[static_cast<size_t>(it.row())] += it.value() * t[static_cast<size_t>(it.col())]; }
                    cd s = 0; for (size_t i = 0; i < u.size(); ++i) s += std::conj(be[i]) * u[i];
                    out.push_back(s * g[n]); mag.push_back(2 * std::sqrt(norm_a * norm_b) * std::max(std::abs(g[n]), 0.05));
                });
                return true;
            }
            case r_conductivity: return conductivity(m, q, out, mag);
            default: return false;
        }
    }
    // the Kubo-Bastin formula
    bool conductivity(Model const& m, Request const& q, Flat& out, std::vector<double>& mag) const {
        double lo = config.min_energy, hi = config.max_energy;
        if (lo == hi) { if (b == 0) return false; lo = b - a / (1 + static_cast<double>(0.01f)); hi = b + a / (1 + static_cast<double>(0.01f)); }
        auto const& sys = *m.system(); auto size = static_cast<size_t>(h.rows);
        std::vector<double> coords[2];
        for (int d = 0; d < 2; ++d) for (auto const& c : sys.compressed_sublattices) for (idx_t i = c.sys_start(); i < c.sys_end(); ++i) for (idx_t o = 0; o < c.num_orbitals(); ++o) {
            char axis = q.direction[static_cast<size_t>(d)];
            coords[d].push_back(axis == 'x' ? sys.positions.x[i] : axis == 'y' ? sys.positions.y[i] : sys.positions.z[i]);
        }
        auto velocity = [&](int d, V const& x) {
            V y(size);
            for (auto& t : h.nz) { auto r = static_cast<size_t>(std::get<0>(t)), c = static_cast<size_t>(std::get<1>(t)); y[r] += cd(std::get<2>(t), std::get<3>(t)) * (coords[d][r] - coords[d][c]) * x[c]; }
            return y;
        };
        auto N = num_moments(q.broadening); auto g = damping(N); auto n = static_cast<size_t>(N);
        std::vector<cd> mu(n * n); double norm = 0; std::mt19937 gen;
        bool cplx = h.scalar == 1 || h.scalar == 3;
        for (int i = 0; i < q.num_random; ++i) {
            V r0 = h.scalar < 2 ? random<float>(gen, cplx) : random<double>(gen, cplx);
            std::vector<V> left, right;
            chebyshev(velocity(0, r0), N, [&](idx_t, V const& t) { left.push_back(t); });
            chebyshev(r0, N, [&](idx_t, V const& t) { right.push_back(velocity(1, t)); });
            double l = 0, r = 0;
            for (size_t k = 0; k < size; ++k) { l += std::norm(left[0][k]); r = std::max(r, std::abs(right[0][k])); }
            for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < n; ++y) {
                cd s = 0; for (size_t k = 0; k < size; ++k) s += left[x][k] * std::conj(right[y][k]);
                mu[x * n + y] += s / static_cast<double>(q.num_random);
            }
            double rr = 0; for (auto const& v : right) { double t = 0; for (auto z : v) t += std::norm(z); rr = std::max(rr, t); }
            norm = std::max(norm, std::sqrt(l * rr));
        }
        std::vector<cd> sum_nm; std::vector<double> en, weight;
        for (int p = 0; p < q.num_points; ++p) {
            double e = scaled(lo + (hi - lo) * p / (q.num_points - 1)), ac = std::acos(e), root = std::sqrt(1 - e * e); en.push_back(e);
            auto gp = [&](size_t r, size_t c) { return cd(e, -static_cast<double>(c) * root) * std::polar(1.0, static_cast<double>(c) * ac) * std::cos(static_cast<double>(r) * ac); };
            cd s = 0; double w = 0;
            for (size_t x = 0; x < n; ++x) for (size_t y = 0; y < n; ++y) {
                auto f = g[static_cast<idx_t>(x)] * g[static_cast<idx_t>(y)] * (gp(x, y) + std::conj(gp(y, x)));
                s += mu[x * n + y] * f; w += norm * std::abs(g[static_cast<idx_t>(x)] * g[static_cast<idx_t>(y)]) * (2 + static_cast<double>(x + y));
            }
            double k = 1 / ((1 - e * e) * (1 - e * e));
            sum_nm.push_back(k * s); weight.push_back(k * w);
        }
        double kbt = constant::kb * q.temperature / a, coeff = (en.back() - en.front()) / (2 * q.num_points);
        for (idx_t i = 0; i < q.energy.size(); ++i) {
            double u = scaled(q.energy[i]), w = 0; cd s = 0;
            for (size_t p = 0; p < en.size(); ++p) {
                double fd = 1 / (1 + std::exp((en[p] - u) / kbt)), end = p == 0 || p + 1 == en.size() ? 1 : 2;
                // the step of the Fermi function is steep: a rounding error of the energy counts
                double slack = 1e-6 / kbt * fd * (1 - fd) + fd;
                s += end * fd * sum_nm[p]; w += end * slack * weight[p];
            }
            out.push_back(cd((4 / (a * a) * coeff * s).real(), 0)); mag.push_back(4 / (a * a) * coeff * w);
        }
        return true;
    }
};

bool close(cd x, cd y, double m, double tol) {
    auto part = [&](double p, double r) { return (std::isnan(p) && std::isnan(r)) || p == r || std::abs(p - r) <= tol * (m + std::abs(r)); };
    return part(x.real(), y.real()) && part(x.imag(), y.imag());
}
std::string compare(Flat const& got, Flat const& want, std::vector<double> const* mag, double tol) {
    if (got.size() != want.size()) return S(static_cast<long long>(got.size())) + " values instead of " + S(static_cast<long long>(want.size()));
    double scale = 0; for (auto& w : want) if (std::isfinite(std::abs(w))) scale = std::max(scale, std::abs(w));
    for (size_t i = 0; i < got.size(); ++i)
        if (!close(got[i], want[i], mag ? (*mag)[i] : scale, tol)) { std::ostringstream o; o << "value " << i << " is " << got[i] << " instead of " << want[i]; return o.str(); }
    return {};
}
// of two calculations of the same thing
std::string compare_runs(Flat const& got, Flat const& want, Request const& q, Reference const& ref) {
    auto mag = q.kind == r_dos ? ref.dos_magnitude(q) : std::vector<double>();
    return compare(got, want, q.kind == r_dos ? &mag : nullptr, ref.h.scalar < 2 ? 2e-4 : 1e-9);
}
double tolerance(int scalar) { return scalar < 2 ? 2e-3 : 1e-7; }

struct ThreadDraw { int threads; bool automatic; };
ThreadDraw draw_threads(int max) {
    ThreadDraw t; t.threads = 1 + static_cast<int>(sim::draw(static_cast<std::uint64_t>(max))); t.automatic = sim::flip(1, 6);
    if (sim::flip(1, 48)) t.threads = 6 + static_cast<int>(sim::draw(15));
    if (t.automatic) sim::set_cpus(t.threads);
    return t;
}

// ---- C05 -------------------------------------------------------------------------------------------
void schedules(int kind) {
    KModel km; KConfig kc; HamSnap h; std::unique_ptr<Model> m; Request q; Flat want; std::vector<double> mag; std::string text; bool many;
    ThreadDraw td;
    std::unique_ptr<KPM> k;
    {
        sim::Quiet quiet;
        km = draw_kmodel(); m = fresh_model(km.recipe); h = snap_ham(m->hamiltonian());
        kc = draw_config({h}); td = draw_threads(5); kc.threads = td.threads;
        k.reset(new KPM(*m, kpm::DefaultCompute(td.automatic ? -1 : td.threads), kc.config));
        auto s = k->get_core().scaling_factors();
        q = draw_request(kind, *m, h, s.a, s.b);
        if (kind == r_spatial && m->is_multiorbital()) q = draw_request(kind = r_ldos, *m, h, s.a, s.b);
        text = scalar_name(h.scalar) + ", " + S(h.rows) + " orbitals, " + kc.text() + ": " + q.text();
        Reference ref{h, s.a, s.b, kc.config};
        ref.expect(*m, q, want, mag);
        many = td.threads > 1 && (kind == r_dos ? q.num_random > 1 : want.size() > 1 && want[0].real() > 1);
        sim::describe(text);
        k.reset(new KPM(*m, kpm::DefaultCompute(td.automatic ? -1 : td.threads), kc.config));
    }
    if (many) sim::nontrivial();
    Flat got = run(*k, q);
    int again = static_cast<int>(sim::draw(2));
    Flat got2 = again ? run(*k, q) : Flat();
    sim::Quiet quiet;
    auto d = compare(got, want, &mag, tolerance(h.scalar));
    if (d.empty() && again) d = compare(got2, want, &mag, tolerance(h.scalar));
    if (!d.empty()) sim::violation(kind == r_dos ? "wrong-dos" : "wrong-ldos", d + " (computed one vector at a time); " + text);
    if (sim::num_threads_alive() != 1) sim::violation("thread-left", "threads are left after the calculation; " + text);
}
SCENARIO(C05, dos, 10) { schedules(r_dos); }
SCENARIO(C05, ldos, 3) { schedules(r_ldos); }
SCENARIO(C05, spatial_ldos, 10) { schedules(r_spatial); }

// ---- C06 -------------------------------------------------------------------------------------------
struct Progress {
    struct Event { idx_t delta, total; std::uint64_t enter, leave; };
    std::deque<Event> events; bool returned = false, late = false; int slow = 0; long throw_at = -1;
};
void record_progress(Progress& p, idx_t delta, idx_t total) {
    size_t i;
    { sim::Quiet q; if (p.returned) p.late = true; i = p.events.size(); p.events.push_back({delta, total, sim::step(), 0}); sim::event("progress " + S(delta) + "/" + S(total)); }
    if (p.slow == 1) sim::yield_point();
    if (p.slow == 2) sim::sleep_ns(1000 * static_cast<std::uint64_t>(1 + i));
    { sim::Quiet q; p.events[i].leave = sim::step(); if (p.returned) p.late = true; }
    if (p.throw_at == static_cast<long>(i)) { sim::count_fault("progress_callback_throws"); throw UserError("injected: progress"); }
}
std::string check_progress(Progress const& p, idx_t total, int batch) {
    auto const& e = p.events;
    std::string list; for (auto& x : e) list += " " + S(x.delta) + "/" + S(x.total);
    if (p.late) return "a report came after the calculation returned:" + list;
    if (e.size() < 3) return "only " + S(static_cast<long long>(e.size())) + " reports:" + list;
    idx_t sum = 0;
    for (size_t i = 0; i < e.size(); ++i) if (e[i].total != total) return "total is " + S(e[i].total) + " instead of " + S(total) + ":" + list;
    if (e[0].delta != -1) return "the first report is not the start:" + list;
    if (e.back().delta != total) return "the last report is not the finish:" + list;
    for (size_t i = 1; i < e.size(); ++i) {
        if (e[i].enter < e[0].leave) return "a report came before the start was done:" + list;
        if (i + 1 < e.size() && e[i].leave > e.back().enter) return "the finish came before an increment was done:" + list;
        if (i + 1 < e.size()) { if (e[i].delta <= 0) return "not an increment:" + list; sum += e[i].delta; }
    }
    if (sum < total) return "increments add up to " + S(sum) + " of " + S(total) + ":" + list;
    if (sum >= total + batch) return "increments add up to " + S(sum) + " of " + S(total) + ", more than the padding of a batch of " + S(batch) + ":" + list;
    return {};
}
void progress(int kind) {
    KModel km; KConfig kc; HamSnap h; std::unique_ptr<Model> m; Request q; Flat want; std::vector<double> mag; std::string text; ThreadDraw td; Progress p; idx_t total;
    std::unique_ptr<KPM> k; int rounds;
    {
        sim::Quiet quiet;
        km = draw_kmodel(false, 30); m = fresh_model(km.recipe); h = snap_ham(m->hamiltonian());
        kc = draw_config({h}); td = draw_threads(5); kc.threads = td.threads;
        p.slow = static_cast<int>(sim::draw(3));
        k.reset(new KPM(*m, kpm::DefaultCompute(td.automatic ? -1 : td.threads, [&p](idx_t d, idx_t t) { record_progress(p, d, t); }), kc.config));
        auto s = k->get_core().scaling_factors();
        if (kind == r_spatial && m->is_multiorbital()) kind = r_ldos;
        q = draw_request(kind, *m, h, s.a, s.b, 16);
        if (kind == r_dos && sim::flip()) q.num_random = 1 + static_cast<int>(sim::draw(30));
        if (kind == r_ldos) q.reduce = false;
        text = scalar_name(h.scalar) + ", " + S(h.rows) + " orbitals, " + kc.text() + ": " + q.text() + (p.slow ? ", slow callback" : "");
        sim::describe(text);
        Reference{h, s.a, s.b, kc.config}.expect(*m, q, want, mag);
        total = kind == r_dos ? q.num_random : static_cast<idx_t>(want[0].real());
        rounds = 1 + static_cast<int>(sim::draw(2));
    }
    if (total == 0) return;
    if (td.threads > 1 && total > 1) sim::nontrivial();
    for (int r = 0; r < rounds; ++r) {
        p.events.clear(); p.returned = false;
        Flat got = run(*k, q);
        sim::Quiet quiet;
        p.returned = true;
        auto d = check_progress(p, total, batch_of(h.scalar));
        if (!d.empty()) sim::violation("progress", d + "; " + text);
        d = compare(got, want, &mag, tolerance(h.scalar));
        if (!d.empty()) sim::violation("changed-result", d + "; " + text);
    }
    { sim::Loud l; k.reset(); for (int i = 0; i < 5; ++i) sim::yield_point(); }
    if (p.late) sim::violation("progress", "a report came after the calculation returned; " + text);
    if (sim::num_threads_alive() != 1) sim::violation("thread-left", "threads are left after the calculation; " + text);
}
SCENARIO(C06, dos, 10) { progress(r_dos); }
SCENARIO(C06, ldos, 2) { progress(r_ldos); }
SCENARIO(C06, spatial_ldos, 10) { progress(r_spatial); }

// a calculation fails after it has reported its start: its end is reported too (as 0), and nothing after that
std::string check_failed_progress(Progress const& p, idx_t total) {
    auto const& e = p.events;
    std::string list; for (auto& x : e) list += " " + S(x.delta) + "/" + S(x.total);
    if (p.late) return "a report came after the failed calculation returned:" + list;
    if (e.empty()) return {};
    for (size_t i = 0; i < e.size(); ++i) if (e[i].total != total) return "total is " + S(e[i].total) + " instead of " + S(total) + ":" + list;
    if (e[0].delta != -1) return "the first report is not the start:" + list;
    if (e.size() < 2 || e.back().delta != 0) return "a failed calculation did not report its end:" + list;
    for (size_t i = 1; i + 1 < e.size(); ++i) {
        if (e[i].enter < e[0].leave) return "a report came before the start was done:" + list;
        if (e[i].leave > e.back().enter) return "the end came before a report was done:" + list;
        if (e[i].delta <= 0) return "not an increment:" + list;
    }
    return {};
}
void failing_progress(int kind) {
    KModel km; KConfig kc; HamSnap h; std::unique_ptr<Model> m; Request q; std::string text; ThreadDraw td; Progress p; idx_t total; std::unique_ptr<KPM> k;
    {
        sim::Quiet quiet;
        km = draw_kmodel(false, 20); m = fresh_model(km.recipe); h = snap_ham(m->hamiltonian());
        kc = draw_config({h}); td = draw_threads(5); kc.threads = td.threads;
        k.reset(new KPM(*m, kpm::DefaultCompute(td.automatic ? -1 : td.threads, [&p](idx_t d, idx_t t) { record_progress(p, d, t); }), kc.config));
        auto s = k->get_core().scaling_factors();
        if (kind == r_spatial && m->is_multiorbital()) kind = r_ldos;
        q = draw_request(kind, *m, h, s.a, s.b, 16);
        if (kind == r_ldos) q.reduce = false;
        text = scalar_name(h.scalar) + ", " + S(h.rows) + " orbitals, " + kc.text() + ": " + q.text();
        sim::describe(text);
        Flat want; std::vector<double> mag;
        Reference{h, s.a, s.b, kc.config}.expect(*m, q, want, mag);
        total = kind == r_dos ? q.num_random : static_cast<idx_t>(want[0].real());
    }
    if (total == 0) return;
    for (int r = 0; r < 2; ++r) {
        std::string what, error; bool fired;
        { sim::Quiet quiet; p.events = {}; p.returned = false; p.throw_at = -1; p.slow = static_cast<int>(sim::draw(3)); }
        auto const mode = sim::draw(5);
        if (mode == 4) {
            sim::Quiet quiet; auto at = sim::draw(static_cast<std::uint64_t>(std::max(1, td.threads))); bool const persistent = sim::flip();
            sim::fail_thread_in(at, persistent);
            error = attempt([&] { sim::Loud l; run(*k, q); });
            fired = sim::fail_thread_off(); what = "thread " + S(static_cast<long long>(at)) + " cannot be started; ";
        } else if (mode < 2) {
            sim::Quiet quiet; p.throw_at = static_cast<long>(sim::draw(8));
            error = attempt([&] { sim::Loud l; run(*k, q); });
            fired = static_cast<long>(p.events.size()) > p.throw_at; what = "report " + S(p.throw_at) + " throws; ";
        } else {
            sim::Quiet quiet; auto at = sim::draw(sim::flip() ? 30 : 150);
            sim::fail_alloc_in(at);
            error = attempt([&] { sim::Loud l; run(*k, q); });
            fired = sim::fail_alloc_off(); what = "allocation " + S(static_cast<long long>(at)) + " fails; ";
        }
        sim::Quiet quiet;
        p.returned = true;
        if (error.empty()) { if (fired && what[0] != 'a') sim::violation("error-lost", what + text); continue; }
        if (!fired) sim::violation("error-stays", error + " although nothing fails; " + text);
        sim::nontrivial();
        auto d = check_progress(p, total, batch_of(h.scalar));      // it may fail after its moments are computed
        if (!d.empty()) d = check_failed_progress(p, total);
        if (!d.empty()) sim::violation("progress", d + "; " + what + text);
    }
    { sim::Loud l; k.reset(); for (int i = 0; i < 5; ++i) sim::yield_point(); }
    if (p.late) sim::violation("progress", "a report came after the calculation failed; " + text);
    if (sim::num_threads_alive() != 1) sim::violation("thread-left", "threads are left after the calculation; " + text);
}
SCENARIO(C06, failing_dos, 3) { failing_progress(r_dos); }
SCENARIO(C06, failing_spatial_ldos, 3) { failing_progress(r_spatial); }

// ---- C07 -------------------------------------------------------------------------------------------
struct StatsSnap { idx_t num_moments; size_t nnz, opt_nnz, vec, opt_vec, matrix, vector; };
StatsSnap snap_stats(KPM& k) { auto const& s = k.get_core().get_stats(); return {s.num_moments, s.nnz, s.opt_nnz, s.vec, s.opt_vec, s.matrix_memory, s.vector_memory}; }
bool same(StatsSnap const& a, StatsSnap const& b) { return a.num_moments == b.num_moments && a.nnz == b.nnz && a.opt_nnz == b.opt_nnz && a.vec == b.vec && a.opt_vec == b.opt_vec && a.matrix == b.matrix && a.vector == b.vector; }

int draw_req_kind(Model const& m) {
    static int const kinds[] = {r_dos, r_ldos, r_ldos, r_spatial, r_greens, r_greens, r_greens_vector, r_greens_vector, r_moments, r_moments, r_conductivity};
    for (;;) { int k = kinds[sim::draw(11)]; if (k == r_spatial && m.is_multiorbital()) continue; return k; }
}

// a request which has to be rejected
std::string reject(KPM& k, Request q, HamSnap const& h) {
    std::string what, error; auto n = h.rows;
    bool cplx = h.scalar == 1 || h.scalar == 3;
    auto op = [&](idx_t r, idx_t c, cd v) { SparseMatrixXcd o(r, c); for (idx_t i = 0; i < std::min(r, c); ++i) o.insert(i, i) = v; o.makeCompressed(); return o; };
    switch (sim::draw(15)) {
        case 0: what = "greens with a negative row"; error = attempt([&] { k.calc_greens(-1, 0, q.energy, q.broadening); }); break;
        case 1: what = "greens with row == size"; error = attempt([&] { k.calc_greens(n, 0, q.energy, q.broadening); }); break;
        case 2: what = "greens with col == size"; error = attempt([&] { k.calc_greens(0, n, q.energy, q.broadening); }); break;
        case 3: what = "greens with a col in the list too large"; error = attempt([&] { k.calc_greens_vector(0, {0, n + static_cast<idx_t>(sim::draw(2))}, q.energy, q.broadening); }); break;
        case 4: what = "moments with a wrong alpha"; error = attempt([&] { k.moments(10, VectorXcd::Zero(n + 1)); }); break;
        case 5: what = "moments with a wrong beta"; error = attempt([&] { k.moments(10, VectorXcd::Zero(n), VectorXcd::Zero(n + 1)); }); break;
        case 6: if (cplx) return {}; what = "moments with a complex vector for a real model"; error = attempt([&] { k.moments(10, VectorXcd::Constant(n, cd(0, 1))); }); break;
        case 8: what = "greens with the row of a list == size"; error = attempt([&] { k.calc_greens_vector(n, {0}, q.energy, q.broadening); }); break;
        case 9: what = "greens with a negative row of a list or col in it"; error = sim::flip() ? attempt([&] { k.calc_greens_vector(-1, {0, n - 1}, q.energy, q.broadening); }) : attempt([&] { k.calc_greens_vector(0, {0, -1}, q.energy, q.broadening); }); break;
        case 10: what = "greens with a negative col"; error = attempt([&] { k.calc_greens(0, -1, q.energy, q.broadening); }); break;
        case 11: { bool wide = sim::flip(); what = std::string("moments with an operator of the wrong ") + (wide ? "width" : "height"); error = attempt([&] { k.moments(10, VectorXcd::Zero(n), VectorXcd(), op(wide ? n : n + 1, wide ? n + 1 : n, 1.0)); }); break; }
        case 12: if (cplx) return {}; what = "moments with a complex beta for a real model"; error = attempt([&] { k.moments(10, VectorXcd::Constant(n, 1.0), VectorXcd::Constant(n, cd(0, 1))); }); break;
        case 13: if (cplx) return {}; what = "moments with a complex operator for a real model"; error = attempt([&] { k.moments(10, VectorXcd::Constant(n, 1.0), VectorXcd(), op(n, n, cd(0, 1))); }); break;
        case 14: {
            std::vector<std::string> empty; auto const& sys = *k.get_model().system();
            for (auto const& c : sys.compressed_sublattices) if (c.num_sites() == 0) empty.push_back(sys.site_registry.name(c.id()));
            if (!empty.empty() && sim::flip()) { what = "ldos of a sublattice which has lost all of its sites"; error = attempt([&] { k.calc_ldos(q.energy, q.broadening, sys.positions[0], empty[0]); }); break; }
            what = "ldos of an unknown sublattice"; error = attempt([&] { k.calc_ldos(q.energy, q.broadening, {0, 0, 0}, "no such sublattice"); }); break;
        }
        case 7: what = "conductivity with an invalid direction"; error = attempt([&] { k.calc_conductivity(q.energy, q.broadening, 300, sim::flip() ? "xxx" : "ab", 1, 10); }); break;
        default: what = "conductivity with a half valid direction"; error = attempt([&] { k.calc_conductivity(q.energy, q.broadening, 300, sim::flip() ? "xq" : "qx", 1, 10); }); break;
    }
    if (error.empty()) sim::violation("not-rejected", "accepted: " + what);
    sim::probe("rejected request");
    return "[rejected: " + what + "]";
}

SCENARIO(C07, history, 10) {
    std::unique_ptr<sim::Quiet> quiet(new sim::Quiet);
    std::vector<KModel> pool; std::vector<HamSnap> hams;
    int npool = 1 + static_cast<int>(sim::draw(3));
    for (int i = 0; i < npool; ++i) { pool.push_back(draw_kmodel(false, 40)); hams.push_back(snap_ham(fresh_model(pool.back().recipe)->hamiltonian())); }
    auto kc = draw_config(hams); kc.threads = 1 + static_cast<int>(sim::draw(3));
    Progress p;
    auto callback = [&p](idx_t d, idx_t t) { record_progress(p, d, t); };
    size_t current = 0;
    std::string history = kc.text() + "; ";
    std::unique_ptr<KPM> k;
    { sim::Loud l; k.reset(new KPM(*fresh_model(pool[0].recipe), kpm::DefaultCompute(kc.threads, callback), kc.config)); }
    int calcs = 0, past = 0, failures = 0;
    auto fresh_k = [&] { return std::unique_ptr<KPM>(new KPM(*fresh_model(pool[current].recipe), kpm::DefaultCompute(kc.threads), kc.config)); };
    auto check_calc = [&](bool with_reference) {
        auto fm = fresh_model(pool[current].recipe);
        kpm::Scale<> s; { sim::Loud l; s = fresh_k()->get_core().scaling_factors(); }
        auto q = draw_request(draw_req_kind(*fm), *fm, hams[current], s.a, s.b, 24);
        history += q.text() + "; ";
        p.events.clear(); p.throw_at = -1;
        Flat got, want; StatsSnap st, st2; kpm::Scale<> s2;
        auto error = attempt([&] { sim::Loud l; got = run(*k, q); s2 = k->get_core().scaling_factors(); });
        auto f = fresh_k();
        auto expect = attempt([&] { sim::Loud l; want = run(*f, q); });
        if (error != expect) sim::violation("history", "'" + error + "' instead of '" + expect + "' from a new KPM object; history: " + history);
        if (!error.empty()) return;
        st = snap_stats(*k); st2 = snap_stats(*f);
        auto d = compare_runs(got, want, q, Reference{hams[current], s.a, s.b, kc.config});
        if (!d.empty()) sim::violation("history", d + " (from a new KPM object); history: " + history);
        if (s.a != s2.a || s.b != s2.b) sim::violation("history", "scaling factors differ from those of a new KPM object; history: " + history);
        bool empty = got.size() == 1;   // no site in the shape: nothing calculated, nothing to report
        if (!empty && !same(st, st2)) sim::violation("history", "statistics differ from those of a new KPM object; history: " + history);
        if (with_reference) {
            Flat ref; std::vector<double> mag;
            if (Reference{hams[current], s.a, s.b, kc.config}.expect(*fm, q, ref, mag)) {
                d = compare(got, ref, &mag, tolerance(hams[current].scalar));
                if (!d.empty()) sim::violation("reference", d + " (computed one vector at a time); history: " + history);
            }
        }
        ++calcs; if (past) sim::nontrivial();
        ++past;
    };
    int ops = 2 + static_cast<int>(sim::draw(sim::thorough() ? 12 : 7));
    for (int op = 0; op < ops; ++op) {
        switch (sim::draw(8)) {
            case 0: { // another model, evaluated or not
                size_t next = sim::draw(pool.size());
                auto fm = fresh_model(pool[next].recipe);
                if (sim::flip()) fm->eval();
                { sim::Loud l; k->set_model(*fm); }
                current = next; history += "set model " + S(static_cast<long long>(next)) + "; ";
                break;
            }
            case 1: { // a model which fails to evaluate
                size_t next = sim::draw(pool.size());
                auto fm = fresh_model(pool[next].recipe);
                arm_callbacks(static_cast<long>(sim::draw(8)));
                auto error = attempt([&] { sim::Loud l; k->set_model(*fm); });
                bool fired = disarm_callbacks();
                history += "set model " + S(static_cast<long long>(next)) + (fired ? " (callback fails); " : "; ");
                if (fired != !error.empty()) sim::violation("error-lost", "set_model: a callback " + std::string(fired ? "failed" : "did not fail") + ", the caller got: '" + error + "'; history: " + history);
                if (error.empty()) current = next; else ++failures;
                break;
            }
            case 2: { // an allocation fails in set_model
                size_t next = sim::draw(pool.size());
                auto fm = fresh_model(pool[next].recipe); fm->eval();
                sim::fail_alloc_in(sim::draw(30));
                auto error = attempt([&] { sim::Loud l; k->set_model(*fm); });
                bool fired = sim::fail_alloc_off();
                history += "set model " + S(static_cast<long long>(next)) + (fired ? " (allocation fails); " : "; ");
                if (!error.empty() && !fired) sim::violation("error-stays", "set_model fails although nothing fails: " + error + "; history: " + history);
                if (error.empty()) current = next; else ++failures;
                break;
            }
            case 3: { // an allocation fails in a calculation
                auto fm = fresh_model(pool[current].recipe);
                kpm::Scale<> s; { sim::Loud l; s = fresh_k()->get_core().scaling_factors(); }
                auto q = draw_request(draw_req_kind(*fm), *fm, hams[current], s.a, s.b, 16);
                p.events.clear(); p.throw_at = -1;
                if (sim::flip(1, 4)) sim::fail_thread_in(sim::draw(5), sim::flip()); else sim::fail_alloc_in(sim::draw(sim::flip() ? 20 : 150));
                auto error = attempt([&] { sim::Loud l; run(*k, q); });
                bool const no_thread = sim::fail_thread_off(), fired = sim::fail_alloc_off() || no_thread;
                history += q.text() + (no_thread ? " (a thread cannot be started); " : fired ? " (allocation fails); " : "; ");
                if (!error.empty() && !fired) sim::violation("error-stays", q.text() + " fails although nothing fails: " + error + "; history: " + history);
                failures += fired; ++past;
                break;
            }
            case 4: { // the progress callback throws
                auto fm = fresh_model(pool[current].recipe);
                kpm::Scale<> s; { sim::Loud l; s = fresh_k()->get_core().scaling_factors(); }
                auto q = draw_request(fm->is_multiorbital() ? r_dos : sim::flip() ? r_dos : r_spatial, *fm, hams[current], s.a, s.b, 16);
                p.events.clear(); p.throw_at = static_cast<long>(sim::draw(6));
                auto error = attempt([&] { sim::Loud l; run(*k, q); });
                bool thrown = static_cast<long>(p.events.size()) > p.throw_at;
                p.throw_at = -1;
                history += q.text() + (thrown ? " (progress callback throws); " : "; ");
                if (thrown != !error.empty()) sim::violation("error-lost", "the progress callback " + std::string(thrown ? "threw" : "did not throw") + ", the caller got: '" + error + "'; history: " + history);
                failures += thrown; ++past;
                break;
            }
            case 5: { // a rejected request
                kpm::Scale<> s; { sim::Loud l; s = fresh_k()->get_core().scaling_factors(); }
                auto fm = fresh_model(pool[current].recipe);
                auto q = draw_request(r_dos, *fm, hams[current], s.a, s.b, 16);
                sim::Loud l; history += reject(*k, q, hams[current]) + "; ";
                ++past;
                break;
            }
            default: check_calc(sim::flip(1, 4));
        }
    }
    check_calc(true);
    sim::describe(history);
    for (size_t c = 0; c < history.size(); ++c) sim::mix(static_cast<unsigned char>(history[c]));
    if (failures) sim::nontrivial();
}

// ---- C10 -------------------------------------------------------------------------------------------
SCENARIO(C10, kpm, 4) {
    sim::Quiet quiet;
    auto km = draw_kmodel(false, 30); auto m = fresh_model(km.recipe); auto h = snap_ham(m->hamiltonian());
    auto kc = draw_config({h}); kc.threads = 1 + static_cast<int>(sim::draw(3));
    Progress p; auto callback = [&p](idx_t d, idx_t t) { { sim::Quiet q; user_callback("progress"); } record_progress(p, d, t); };
    kpm::Scale<> s; { sim::Loud l; s = KPM(*m, kpm::DefaultCompute(kc.threads), kc.config).get_core().scaling_factors(); }
    auto q = draw_request(draw_req_kind(*m), *m, h, s.a, s.b, 12);
    std::string text = scalar_name(h.scalar) + ", " + S(h.rows) + " orbitals, " + kc.text() + ": " + q.text();
    sim::describe(text);
    Flat want; std::uint64_t allocs, callbacks;
    {
        std::unique_ptr<KPM> k;
        { sim::Loud l; k.reset(new KPM(*m, kpm::DefaultCompute(kc.threads, callback), kc.config)); }
        auto a0 = sim::alloc_seq();
        arm_callbacks(-1);
        { sim::Loud l; want = run(*k, q); }
        callbacks = static_cast<std::uint64_t>(callback_faults().calls); disarm_callbacks();
        allocs = sim::alloc_seq() - a0;
    }
    int rounds = sim::thorough() ? 6 : 3, hits = 0;
    p.events = {};
    for (int round = 0; round < rounds; ++round) {
        p.events = {}; sim::Quiet q2;
        auto news = sim::live_new_blocks();
        std::string history;
        {
            std::unique_ptr<KPM> k;
            { sim::Loud l; k.reset(new KPM(*m, kpm::DefaultCompute(kc.threads, callback), kc.config)); }
            int failures = 1 + static_cast<int>(sim::draw(2));
            for (int f = 0; f < failures; ++f) {
                bool use_callback = callbacks && sim::flip(1, 4), use_thread = !use_callback && sim::flip(1, 5);
                bool persistent = sim::flip(1, 6); auto at = sim::draw(use_callback ? callbacks : use_thread ? 5 : std::max<std::uint64_t>(allocs, 1));
                if (use_callback) arm_callbacks(static_cast<long>(at), persistent); else if (use_thread) sim::fail_thread_in(at, persistent); else sim::fail_alloc_in(at, persistent);
                Flat r;
                auto error = attempt([&] { sim::Loud l; r = run(*k, q); });
                bool fired = use_callback ? disarm_callbacks() : use_thread ? sim::fail_thread_off() : sim::fail_alloc_off(); hits += fired;
                history += (use_callback ? "progress callback " : use_thread ? "start of thread " : "allocation ") + S(static_cast<long long>(at)) + (persistent ? " on" : "") + (fired ? " fails, " : " would fail, ");
                if (!error.empty() && !fired) sim::violation("error-stays", "fails although nothing fails: " + error + "; " + history + text);
                if (!error.empty() && !use_callback && !use_thread && error != "bad_alloc") sim::violation("wrong-error", "an allocation failed, the caller got: " + error + "; " + history + text);
                if (fired && use_callback && error.compare(0, 9, "UserError")) sim::violation("error-lost", "the progress callback failed, the caller got: " + (error.empty() ? "no error" : error) + "; " + history + text);
                if (error.empty()) { // no error: the result has to be complete
                    auto d = compare_runs(r, want, q, Reference{h, s.a, s.b, kc.config});
                    if (!d.empty()) sim::violation("error-lost", "no error, but " + d + "; " + history + text);
                }
            }
            Flat got;
            auto error = attempt([&] { sim::Loud l; got = run(*k, q); });
            if (!error.empty()) sim::violation("error-stays", "fails although nothing fails any more: " + error + "; " + history + text);
            auto d = compare_runs(got, want, q, Reference{h, s.a, s.b, kc.config});
            if (!d.empty()) sim::violation("retry-differs", d + "; " + history + text);
            { sim::Loud l; k.reset(); }
        }
        p.events = {};
        if (sim::num_threads_alive() != 1) sim::violation("thread-left", "threads are left after the calculation; " + history + text);
        if (sim::live_new_blocks() != news) sim::violation("leak", S(static_cast<long long>(sim::live_new_blocks() - news)) + " blocks leaked; " + history + text);
    }
    if (hits) sim::nontrivial();
}

// ---- C15 -------------------------------------------------------------------------------------------
SCENARIO(C15, kpm, 3) {
    struct Job { std::unique_ptr<KPM> kpm; std::vector<Request> reqs; std::vector<Flat> want, got; };
    std::vector<Job> jobs; std::string text; HamSnap h; KConfig kc; kpm::Scale<> s;
    {
        sim::Quiet quiet;
        auto km = draw_kmodel(false, 25); auto m = fresh_model(km.recipe); h = snap_ham(m->hamiltonian());
        kc = draw_config({h});
        int n = 2 + static_cast<int>(sim::draw(2)); jobs.resize(static_cast<size_t>(n));
        kpm::Compute shared = kpm::DefaultCompute(1 + static_cast<int>(sim::draw(2)));   // used by several KPM objects
        { sim::Loud l; s = KPM(*m, kpm::DefaultCompute(1), kc.config).get_core().scaling_factors(); }
        text = scalar_name(h.scalar) + ", " + S(h.rows) + " orbitals, " + kc.text() + ": ";
        for (auto& j : jobs) {
            sim::Loud l;
            auto config = kc.config;
            config.algorithm.optimal_size = sim::flip(); config.algorithm.interleaved = sim::flip(); config.matrix_format = sim::flip() ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR;
            j.kpm.reset(new KPM(*m, sim::flip() ? shared : kpm::Compute(kpm::DefaultCompute(1)), config));
            int r = 1 + static_cast<int>(sim::draw(2));
            for (int i = 0; i < r; ++i) {
                j.reqs.push_back(draw_request(draw_req_kind(*m), *m, h, s.a, s.b, 10)); if (j.reqs.back().kind == r_dos) j.reqs.back().num_random = 1 + j.reqs.back().num_random % 3;
                KPM alone(*m, kpm::DefaultCompute(1), config); j.want.push_back(run(alone, j.reqs.back()));
                text += j.reqs.back().text() + ", ";
            }
        }
        sim::describe(text); sim::nontrivial();
        sim::Loud l;
        if (sim::flip()) m.reset();
        std::vector<std::thread> threads;
        for (auto& j : jobs) threads.emplace_back([&j] { for (auto& q : j.reqs) { auto r = run(*j.kpm, q); sim::Quiet s; j.got.push_back(r); } });
        for (auto& t : threads) t.join();
        for (auto& j : jobs) j.kpm.reset();
    }
    sim::Quiet quiet;
    for (auto& j : jobs) for (size_t i = 0; i < j.got.size(); ++i) {
        auto d = compare_runs(j.got[i], j.want[i], j.reqs[i], Reference{h, s.a, s.b, kc.config});
        if (!d.empty()) sim::violation("parallel-differs", j.reqs[i].text() + " in parallel: " + d + "; " + text);
    }
}

} // namespace
