// A stand-in for the eigensolver of the solvers under test.
#pragma once
#include "core_common.hpp"
#include "solver/Solver.hpp"
#include <algorithm>

namespace core {

// ---- an eigensolver -------------------------------------------------------------------------------
// A stand-in for FEAST (which needs MKL): dense, keeps its data until the next solve, may fail at any stage.
struct Faults { long fail_in = -1; bool fired = false; long solves = 0, made = 0; std::uint64_t takes_ns = 0; std::int64_t clock_jumps = 0; };
struct DenseConfig { Faults* faults = nullptr; bool clears = false; /* a new Hamiltonian releases the results, like FEAST does */ };
struct EigenError : std::runtime_error { using std::runtime_error::runtime_error; };

// Jacobi rotations for Hermitian matrices: accurate, no allocation surprises
inline void jacobi(DenseXcd a, std::vector<double>& vals, DenseXcd& vecs) {
    auto n = a.rows(); vecs = DenseXcd::Identity(n, n);
    for (int sweep = 0; sweep < 60; ++sweep) {
        double off = 0, all = 1e-300;
        for (idx_t i = 0; i < n; ++i) for (idx_t j = 0; j < n; ++j) { (i == j ? all : off) += std::norm(a(i, j)); }
        if (off <= 1e-30 * all || off < 1e-280) break;
        for (idx_t p = 0; p < n; ++p) for (idx_t q = p + 1; q < n; ++q) {
            double g = std::abs(a(p, q));
            if (g < 1e-300) continue;
            cd phase = a(p, q) / g;
            double theta = (a(q, q).real() - a(p, p).real()) / (2 * g);
            double t = (theta >= 0 ? 1.0 : -1.0) / (std::abs(theta) + std::sqrt(theta * theta + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (idx_t k = 0; k < n; ++k) { cd x = a(k, p), y = a(k, q); a(k, p) = c * x - s * std::conj(phase) * y; a(k, q) = s * phase * x + c * y; }
            for (idx_t k = 0; k < n; ++k) { cd x = a(p, k), y = a(q, k); a(p, k) = c * x - s * phase * y; a(q, k) = s * std::conj(phase) * x + c * y; }
            for (idx_t k = 0; k < n; ++k) { cd x = vecs(k, p), y = vecs(k, q); vecs(k, p) = c * x - s * std::conj(phase) * y; vecs(k, q) = s * phase * x + c * y; }
        }
    }
    std::vector<std::pair<double, idx_t>> order;
    for (idx_t i = 0; i < n; ++i) order.push_back({a(i, i).real(), i});
    std::sort(order.begin(), order.end());
    DenseXcd v(n, n); vals.clear();
    for (idx_t i = 0; i < n; ++i) { vals.push_back(order[static_cast<size_t>(i)].first); v.col(i) = vecs.col(order[static_cast<size_t>(i)].second); }
    vecs = v;
}

template<class scalar_t>
class Dense : public SolverStrategy {
    using real_t = num::get_real_t<scalar_t>;
public:
    using Config = DenseConfig;
    Dense(SparseMatrixRC<scalar_t> h, Config const& c) : hamiltonian(std::move(h)), config(c) { if (config.faults) config.faults->made++; }
    bool change_hamiltonian(Hamiltonian const& h) override {
        if (!ham::is<scalar_t>(h)) return false;
        hamiltonian = ham::get_shared_ptr<scalar_t>(h);
        if (config.clears) { vals.resize(0); vecs.resize(0, 0); }
        return true;
    }
    void solve() override {
        sim::Quiet q;
        auto& f = *config.faults;
        f.solves++;
        auto stage = [&] { if (f.fail_in >= 0 && f.fail_in-- == 0) { f.fired = true; sim::count_fault("eigensolver_throws"); throw EigenError("injected"); } };
        if (f.takes_ns) { sim::advance_ns(f.takes_ns); }
        if (f.clock_jumps) sim::jump_wall_ns(f.clock_jumps);
        stage();
        HamSnap snap; snap_matrix(*hamiltonian, snap);
        std::vector<double> e; DenseXcd v; jacobi(dense(snap), e, v);
        vals = ArrayX<real_t>(v.rows());
        for (idx_t i = 0; i < v.rows(); ++i) vals[i] = static_cast<real_t>(e[static_cast<size_t>(i)]);
        stage();                                     // eigenvalues are new, eigenvectors are not
        vecs = ColMajorArrayXX<scalar_t>::Zero(v.rows(), v.cols());
        for (idx_t i = 0; i < v.rows(); ++i) for (idx_t j = 0; j < v.cols(); ++j) { if (i == v.rows() / 2 && j == 0) stage(); add_to(vecs(i, j), v(i, j)); }
        stage();
    }
    std::string report(bool) const override { return "dense"; }
    RealArrayConstRef eigenvalues() const override { return arrayref(Eigen::Map<ArrayX<real_t> const>(vals.data(), vals.size())); }
    ComplexArrayConstRef eigenvectors() const override { return arrayref(Eigen::Map<ColMajorArrayXX<scalar_t> const>(vecs.data(), vecs.rows(), vecs.cols())); }
private:
    SparseMatrixRC<scalar_t> hamiltonian; Config config; ArrayX<real_t> vals; ColMajorArrayXX<scalar_t> vecs;
};
using TestSolver = Solver<Dense>;

} // namespace core
