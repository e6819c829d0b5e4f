// C11: the Python bindings of the parallel sweeps and of KPM (cppmodule), on simulated threads, with a stand-in
// for pybind11 and the interpreter (support/fakepy) which knows who holds the interpreter lock.
#include "core_common.hpp"
#include "dense_solver.hpp"
#include "KPM.hpp"
#include "wrappers.hpp"
#include "thread.hpp"
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <thread>

using namespace core;
namespace fake = py::fake;

// ---- the interpreter ---------------------------------------------------------------------------------
namespace {
struct Interpreter {
    std::mutex lock; int owner = -1;
    long alive = 0, created = 0;
    std::map<fake::Object*, long> objects;     // alive: serial number
    std::uint64_t switches = 0, step = 0;      // where Python code lets other threads run
};
Interpreter& interpreter() { static auto* i = new Interpreter; return *i; }
}
namespace pybind11 { namespace fake {
void misuse(char const* what) { sim::Quiet q; sim::violation("interpreter-lock", std::string(what) + " by a thread which does not hold the interpreter lock, or after its destruction"); }
bool have_gil() { sim::Quiet q; return interpreter().owner == sim::self(); }
void take_gil() {
    if (have_gil()) { sim::Quiet q; sim::violation("interpreter-lock", "a thread which holds the interpreter lock waits for it"); }
    interpreter().lock.lock();
    sim::Quiet q; interpreter().owner = sim::self();
}
void drop_gil() { { sim::Quiet q; interpreter().owner = -1; } interpreter().lock.unlock(); }
void registered(Object* o, bool alive) {
    sim::Quiet q;
    auto& i = interpreter();
    if (alive) { ++i.alive; i.objects[o] = i.created++; } else { --i.alive; i.objects.erase(o); }
}
}
struct CsrObject { object data, indices, indptr; long rows, cols; };     // scipy.sparse.csr_matrix
object fake_import(std::string const& module, std::string const& name) {
    auto o = object::make(fake::Object::Function);
    if (module == "scipy.sparse" && name == "csr_matrix") {
        o.ptr()->fn = [](fake::Args const& a) {
            auto const& parts = a.at(0).ptr()->items; auto const& shape = a.at(1).ptr()->items;
            auto m = object::make(fake::Object::Instance);
            m.ptr()->type = typeid(CsrObject);
            m.ptr()->ptr = std::make_shared<CsrObject>(CsrObject{parts.at(0), parts.at(1), parts.at(2), static_cast<long>(shape.at(0).ptr()->number), static_cast<long>(shape.at(1).ptr()->number)});
            return m;
        };
        return o;
    }
    if (name != "System") sim::harness_error("unknown name " + module + "." + name);
    o.ptr()->fn = [](fake::Args const& a) { return a.at(0); };      // System(impl) of pybinding.system: passes the implementation on
    return o;
}
} // namespace pybind11

// numpy arrays: views of the memory of C++ objects, and copies of them
struct ArrayCopy { num::Tag tag; int ndim; std::vector<idx_t> shape; bool row_major; std::vector<unsigned char> bytes; };
static std::size_t size_of(num::Tag t) {
    using num::Tag;
    switch (t) { case Tag::f32: return 4; case Tag::cf32: return 8; case Tag::f64: return 8; case Tag::cf64: return 16; case Tag::b: case Tag::i8: case Tag::u8: return 1; case Tag::i16: case Tag::u16: return 2; case Tag::i32: case Tag::u32: return 4; default: return 8; }
}
static num::Tag tag_of(std::type_index t) {
    using num::Tag;
    if (t == typeid(float)) return Tag::f32;
    if (t == typeid(double)) return Tag::f64;
    if (t == typeid(std::complex<float>)) return Tag::cf32;
    if (t == typeid(std::complex<double>)) return Tag::cf64;
    if (t == typeid(bool)) return Tag::b;
    if (t == typeid(std::int32_t)) return Tag::i32;
    if (t == typeid(std::int64_t)) return Tag::i64;
    sim::harness_error(std::string("unexpected type of an array: ") + t.name());
}
template<class A> static ArrayCopy copy_elements(num::Tag tag, std::vector<idx_t> shape, A at) {     // in C order
    ArrayCopy c{tag, static_cast<int>(shape.size()), shape, true, {}};
    auto const item = size_of(tag); std::size_t n = 1; for (auto d : shape) n *= static_cast<std::size_t>(d);
    for (std::size_t i = 0; i < n; ++i) { auto* d = at(i); for (std::size_t k = 0; k < item; ++k) c.bytes.push_back(d[k]); }
    return c;
}
static ArrayCopy copy_array(fake::NdArray const& a) { return copy_elements(tag_of(a.scalar), {a.shape.begin(), a.shape.end()}, [&](std::size_t i) { return reinterpret_cast<unsigned char const*>(a.at(i)); }); }
static ArrayCopy copy_array(num::ArrayConstRef const& a) {      // what the C++ reference refers to
    auto* d = static_cast<unsigned char const*>(a.data); auto const item = size_of(a.tag);
    auto const rows = static_cast<std::size_t>(a.shape[0]), cols = static_cast<std::size_t>(a.shape[1]);
    if (a.ndim > 2 && !a.is_row_major) sim::harness_error("unexpected layout of an array");
    return copy_elements(a.tag, {a.shape.begin(), a.shape.begin() + a.ndim}, [&](std::size_t i) { return d + item * (a.ndim == 2 && !a.is_row_major ? i / cols + i % cols * rows : i); });
}
namespace pybind11 {
object fake_array_attr(object const& o, std::string const& name) {
    if (o.ptr()->type == std::type_index(typeid(CsrObject))) {
        auto const& m = *static_cast<CsrObject*>(o.ptr()->ptr.get());
        return name == "data" ? m.data : name == "indices" ? m.indices : name == "indptr" ? m.indptr : object();
    }
    if (name != "copy" || !fake::array_of(o)) return {};
    auto f = object::make(fake::Object::Function);
    f.ptr()->fn = [o](fake::Args const&) {
        auto const& from = *fake::array_of(o);
        auto c = copy_array(from);
        auto a = std::make_shared<fake::NdArray>(from);
        std::shared_ptr<char> memory(new char[c.bytes.size() + 1](), std::default_delete<char[]>());
        for (std::size_t i = 0; i < c.bytes.size(); ++i) memory.get()[i] = static_cast<char>(c.bytes[i]);
        a->data = memory.get(); a->memory = std::move(memory); a->writable = true;
        auto step = static_cast<std::ptrdiff_t>(a->item); for (auto d = a->shape.size(); d-- > 0;) { a->strides[d] = step; step *= a->shape[d]; }
        auto r = object::make(fake::Object::Instance);
        r.ptr()->type = typeid(fake::NdArray); r.ptr()->ptr = std::move(a);
        return r;
    };
    return f;
}
} // namespace pybind11

namespace {

using Args = fake::Args;

struct Gil {        // a Python thread runs
    Gil() { fake::take_gil(); }
    ~Gil() { fake::drop_gil(); }
};
struct NoGil {      // it lets others run
    NoGil() { fake::drop_gil(); }
    ~NoGil() { fake::take_gil(); }
};
// between two bytecodes, another thread may run
void bytecode() {
    bool other; { sim::Quiet q; auto& i = interpreter(); other = i.switches >> (i.step++ % 64) & 1; }
    if (other) { NoGil n; sim::yield_point(); }
}
py::object make_function(char const* label, std::function<py::object(Args const&)> fn) {
    auto o = py::object::make(fake::Object::Function);
    o.ptr()->label = label;
    o.ptr()->fn = std::move(fn);
    return o;
}
py::object make_tuple_of(std::vector<py::object> items) { py::tuple t; t.ptr()->items = std::move(items); return py::object(std::move(t)); }
[[noreturn]] void raise(std::string const& what) {
    auto value = py::object::make(fake::Object::String);
    value.ptr()->str = what;
    throw py::error_already_set(std::move(value), what);
}
struct Latch {
    std::mutex m; std::condition_variable cv; std::size_t count = 0;
    void arrive() { { std::lock_guard<std::mutex> lk(m); ++count; } cv.notify_all(); }
    void wait_for(std::size_t n) { std::unique_lock<std::mutex> lk(m); cv.wait(lk, [&] { return count >= n; }); }
};

void import_module() {
    static py::module m;
    sim::Quiet q;
    wrap_greens(m); wrap_lattice(m); wrap_model(m); wrap_modifiers(m); wrap_parallel(m); wrap_shape(m); wrap_solver(m); wrap_system(m); wrap_leads(m);
    py::class_<TestSolver, BaseSolver>(m, "Dense");
}
struct Session {    // the module was imported; the main thread runs Python code
    long baseline;
    Session() { interpreter().switches = sim::draw(3) ? sim::draw(~0ull) & sim::draw(~0ull) : sim::draw(2) ? 0 : ~0ull; fake::take_gil(); import_module(); baseline = interpreter().alive; }
    // all references were returned
    void finish() {
        sim::Quiet q;
        if (!fake::have_gil()) sim::violation("interpreter-lock", "a call returned to Python without the interpreter lock");
        auto& i = interpreter();
        if (i.alive == baseline) return;
        std::vector<std::pair<long, fake::Object*>> left;
        for (auto& o : i.objects) if (o.second >= baseline) left.push_back({o.second, o.first});
        std::sort(left.begin(), left.end());
        std::string t;
        for (auto& l : left) { auto* o = l.second; t += " [" + (o->label.empty() ? std::string(o->kind == fake::Object::Number ? "number " + F(o->number) : o->kind == fake::Object::String ? "string " + o->str : o->kind == fake::Object::Tuple ? "tuple" : o->kind == fake::Object::None ? "None" : "instance") : o->label) + ", " + S(o->refs) + " references]"; if (t.size() > 600) break; }
        sim::violation("reference-leak", S(i.alive - baseline) + " Python objects were not released:" + t);
    }
};
// the result of a call: an error of Python or C++, or none
template<class Fn> std::string call(Fn fn) {
    std::string error;
    try { fn(); }
    catch (py::error_already_set const& e) { error = std::string("python: ") + e.what(); }
    catch (std::logic_error const& e) { error = std::string("logic: ") + e.what(); }
    catch (std::exception const& e) { error = std::string("c++: ") + e.what(); }
    if (!fake::have_gil()) { sim::Quiet q; sim::violation("interpreter-lock", "a call returned to Python without the interpreter lock"); }
    return error;
}

// other Python threads, which have work of their own
struct Others {
    std::vector<std::thread> threads; std::atomic<bool> stop{false}; std::atomic<int> rounds{0};
    void start(int n, Latch* latch = nullptr) {
        for (int i = 0; i < n; ++i) {
            threads.emplace_back([this, latch] {
                for (int k = 0; k < 3 || (!stop && k < 30); ++k) {
                    {   Gil gil;
                        auto a = make_tuple_of({py::cast(1.0), py::cast(2.0)});
                        bytecode();
                        auto b = a;
                    }
                    ++rounds;
                    if (k == 0 && latch) latch->arrive();
                    sim::yield_point();
                }
            });
        }
    }
    void join() { stop = true; NoGil n; for (auto& t : threads) t.join(); }
};

// ---- jobs of the workload itself -----------------------------------------------------------------------
struct Job { int produced = 0, computed = 0, retired = 0; bool running = false; };
enum Fault { no_fault, produce_raises, produce_wrong_type, compute_throws, retire_raises, item_raises, thread_fails, n_faults };

double value_of(std::size_t id, int i) { return static_cast<double>(id) * 10 + i + 1; }

SCENARIO(C11, sweep, 4) {
    Session session;
    std::size_t const size = sim::draw(5) ? 1 + sim::draw(7) : 0, threads = 1 + sim::draw(4), queue = sim::draw(4);
    int const others = static_cast<int>(sim::draw(3));
    bool const rendezvous = others > 0 && sim::flip();
    auto fault = sim::flip(1, 3) && size ? static_cast<Fault>(1 + sim::draw(n_faults - 1)) : no_fault;
    auto fault_at = fault == thread_fails ? sim::draw(threads + 2) : size ? sim::draw(size) : 0;
    bool const keep_results = sim::flip(), again = sim::flip(), twice = sim::flip();
    std::vector<unsigned> work(size); for (auto& w : work) w = static_cast<unsigned>(sim::draw(4));
    { sim::Quiet q; sim::describe("parallel_for size=" + S(size) + " threads=" + S(threads) + " queue=" + S(queue) + " other Python threads=" + S(others) + (fault ? " fault " + S(fault) + " at " + S(fault_at) : "")); }
    if (size > 1 && threads > 1) sim::nontrivial();

    std::vector<Job> log(size); std::size_t next = 0, retired = 0; int in_produce = 0, in_retire = 0;
    Latch latch; Others other;
    auto boom = [&](Fault f, std::size_t id) { if (fault == f && id == fault_at) { sim::count_fault(f == produce_raises ? "produce_raises" : f == retire_raises ? "retire_raises" : f == compute_throws ? "compute_throws" : f == item_raises ? "item_raises" : "wrong_type"); return true; } return false; };
    {
        std::vector<py::object> results;
        auto sequence = make_function("sequence", [&](Args const& a) {
            auto i = static_cast<std::size_t>(a.at(0).ptr()->number);
            bytecode();
            if (boom(item_raises, i)) raise("injected");
            return py::cast(1000.0 + static_cast<double>(i));
        });
        sequence.ptr()->number = static_cast<double>(size);
        auto produce = make_function("produce", [&](Args const& a) -> py::object {
            std::size_t id;
            {   sim::Quiet q;
                id = static_cast<std::size_t>(a.at(0).ptr()->number - 1000);
                if (a.size() != 1 || id != next++ || id >= size) sim::violation("produce-order", "produce called with the wrong item: " + F(a.at(0).ptr()->number));
                ++log[id].produced;
                if (in_produce++) sim::violation("produce-overlap", "two produce calls overlap");
                sim::event("produce " + S(static_cast<long long>(id)));
            }
            bytecode();
            { sim::Quiet q; --in_produce; }
            if (boom(produce_raises, id)) raise("injected");
            if (boom(produce_wrong_type, id)) return py::cast(std::string("no deferred"));
            auto solver = make_function("solver", [](Args const&) { return py::object(py::none()); });
            auto deferred = py::cast(Deferred<ArrayXXdCM>(solver, [&, id]() -> ArrayXXdCM {
                {   sim::Quiet q;
                    if (fake::have_gil()) sim::violation("lock-kept", "a job is computed with the interpreter lock: other threads cannot run");
                    if (log[id].computed++) sim::violation("computed-twice", "job " + S(static_cast<long long>(id)) + " was computed twice");
                    sim::event("compute " + S(static_cast<long long>(id)));
                }
                if (rendezvous) latch.wait_for(static_cast<std::size_t>(others));
                for (unsigned i = 0; i < work[id]; ++i) sim::yield_point();
                if (boom(compute_throws, id)) throw std::runtime_error("injected");
                ArrayXXdCM r(2, 1); r(0, 0) = value_of(id, 0); r(1, 0) = value_of(id, 1);
                return r;
            }));
            bytecode();
            return deferred;
        });
        auto retire = make_function("retire", [&](Args const& a) -> py::object {
            std::size_t id;
            {   sim::Quiet q;
                id = static_cast<std::size_t>(a.at(1).ptr()->number);
                if (a.size() != 2 || id >= size) sim::violation("retire-id", "retire called with id " + S(static_cast<long long>(id)));
                if (log[id].retired++) sim::violation("retired-twice", "job " + S(static_cast<long long>(id)) + " was retired twice");
                if (in_retire++) sim::violation("retire-overlap", "two retire calls overlap");
                ++retired;
                sim::event("retire " + S(static_cast<long long>(id)));
            }
            bytecode();
            {   auto r = fake::method(a.at(0), "result");
                if (twice) r = fake::method(a.at(0), "result");
                auto& m = *fake::pointer_of<ArrayXXdCM>(r);
                if (m.rows() != 2 || m.cols() != 1 || m(0, 0) != value_of(id, 0) || m(1, 0) != value_of(id, 1)) { sim::Quiet q; sim::violation("result", "the result of job " + S(static_cast<long long>(id)) + " is not what its computation returned"); }
                if (keep_results) results.push_back(r);
                if (again) results.push_back(a.at(0));
                auto s = fake::method(a.at(0), "solver");
            }
            bytecode();
            { sim::Quiet q; --in_retire; }
            if (boom(retire_raises, id)) raise("injected");
            return py::none();
        });
        if (others) other.start(others, &latch);
        if (fault == thread_fails) sim::fail_thread_in(fault_at, sim::flip());
        auto error = call([&] { fake::call("parallel_for", {sequence, produce, retire, py::cast(threads), py::cast(queue)}); });
        if (!sim::fail_thread_off() && fault == thread_fails) fault = no_fault;
        {   sim::Quiet q;
            if (fault == no_fault) {
                if (!error.empty()) sim::violation("error", "the sweep failed without a fault: " + error);
                for (std::size_t i = 0; i < size; ++i)
                    if (log[i].produced != 1 || log[i].computed != 1 || log[i].retired != 1) sim::violation("job-lost", "job " + S(static_cast<long long>(i)) + ": produced " + S(log[i].produced) + ", computed " + S(log[i].computed) + ", retired " + S(log[i].retired) + " times");
            } else {
                char const* expected = fault == compute_throws ? "c++: injected" : fault == produce_wrong_type ? "c++: " : fault == thread_fails ? "c++: Resource temporarily unavailable" : "python: injected";
                if (error.compare(0, std::strlen(expected), expected)) sim::violation("error", "the injected error was lost: '" + error + "'");
            }
        }
        // later uses of results which were kept
        for (auto& r : results) if (r.ptr()->type == std::type_index(typeid(Deferred<ArrayXXdCM>))) { auto v = fake::method(r, "result"); fake::method(r, "compute"); }
        if (others) other.join();
    }
    session.finish();
}

// ---- one deferred result, used by several Python threads ------------------------------------------------
SCENARIO(C11, shared, 2) {
    Session session;
    int const users = 1 + static_cast<int>(sim::draw(3)), failures = sim::flip(1, 3) ? 1 + static_cast<int>(sim::draw(2)) : 0;
    unsigned work = static_cast<unsigned>(sim::draw(4)); int const others = static_cast<int>(sim::draw(2));
    bool const rendezvous = others && sim::flip(), pool = sim::flip();
    std::vector<unsigned> ops(static_cast<std::size_t>(users)); for (auto& o : ops) o = static_cast<unsigned>(sim::draw(64));
    { sim::Quiet q; sim::describe(S(users) + " Python threads use one deferred result" + (failures ? ", " + S(failures) + " failures" : "")); }
    if (users > 1) sim::nontrivial();
    int computed = 0, succeeded = 0; Latch latch; Others other;
    {
        auto deferred = py::cast(Deferred<ArrayXXdCM>(py::cast(7.0), [&]() -> ArrayXXdCM {
            int n;
            {   sim::Quiet q;
                if (fake::have_gil()) sim::violation("lock-kept", "a deferred result is computed with the interpreter lock: other threads cannot run");
                if (succeeded) sim::violation("computed-twice", "a deferred result was computed again");
                n = computed++;
                sim::event("compute");
            }
            if (rendezvous) latch.wait_for(static_cast<std::size_t>(others));
            for (unsigned i = 0; i < work; ++i) sim::yield_point();
            if (pool) {     // what the calculations do: threads which report to Python
                std::exception_ptr e;
                std::thread t([&] { Gil gil; auto o = make_tuple_of({py::cast(1.0)}); bytecode(); });
                t.join();
            }
            { sim::Quiet q; if (computed != n + 1) sim::violation("computed-twice", "a deferred result is computed by two threads at a time"); }
            if (n < failures) { sim::count_fault("compute_throws"); throw std::runtime_error("injected"); }
            { sim::Quiet q; ++succeeded; }
            return ArrayXXdCM::Constant(2, 1, 5.0);
        }));
        if (others) other.start(others, &latch);
        std::vector<std::thread> threads; int errors = 0;
        auto use = [&](unsigned op) {
            for (int i = 0; i < 3; ++i, op >>= 2) {
                auto error = call([&] {
                    if (op % 4 == 0) { fake::method(deferred, "compute"); return; }
                    if (op % 4 == 1) { auto s = fake::method(deferred, "solver"); return; }
                    auto r = fake::method(deferred, "result");
                    auto& m = *fake::pointer_of<ArrayXXdCM>(r);
                    if (m.rows() != 2 || m.cols() != 1 || m(0, 0) != 5.0 || m(1, 0) != 5.0) { sim::Quiet q; sim::violation("result", "the deferred result is not what the computation returned"); }
                });
                sim::Quiet q;
                if (!error.empty()) { if (error != "c++: injected") sim::violation("error", "unexpected error: " + error); ++errors; }
            }
        };
        for (int i = 1; i < users; ++i) threads.emplace_back([&, i] { Gil gil; use(ops[static_cast<std::size_t>(i)]); });
        use(ops[0]);
        { NoGil n; for (auto& t : threads) t.join(); }
        { sim::Quiet q; if (errors != std::min(failures, computed)) sim::violation("error", S(errors) + " of " + S(std::min(failures, computed)) + " failures were reported"); }
        if (others) other.join();
    }
    session.finish();
}

// ---- KPM ----------------------------------------------------------------------------------------------
// Python modifiers: strengths which differ by job
py::object scale_function(double factor, long* calls) {
    return make_function("modifier", [factor, calls](Args const& a) -> py::object {
        bytecode();
        { sim::Quiet q; ++*calls; }
        auto& e = *fake::array_of(a.at(0));
        py::object result;
        visit_scalar(tag_of(e.scalar), e.data, [&](auto* p) {
            using T = std::remove_reference_t<decltype(*p)>;
            std::vector<T> v(p, p + e.size());
            for (auto& x : v) x *= static_cast<num::get_real_t<T>>(factor);
            result = py::array_t<T>(v.size(), v.data());
        });
        bytecode();
        return result;
    });
}
struct KpmSpec { double lo, hi; int kernel; bool ell, optimal, interleaved; int threads; };
double bound_of(HamSnap const& h) {
    std::vector<double> r(static_cast<std::size_t>(h.rows));
    for (auto& t : h.nz) r[static_cast<std::size_t>(std::get<0>(t))] += std::hypot(std::get<2>(t), std::get<3>(t));
    double m = 0; for (auto v : r) m = std::max(m, v);
    return m;
}
KpmSpec draw_spec(double bound) {
    KpmSpec s;
    s.hi = bound + 0.25 * (1 + static_cast<double>(sim::draw(3))); s.lo = -s.hi + (sim::flip() ? 0.125 : 0);
    s.kernel = static_cast<int>(sim::draw(3)); s.ell = sim::flip(); s.optimal = sim::flip(); s.interleaved = sim::flip(); s.threads = 1 + static_cast<int>(sim::draw(3));
    return s;
}
// the kernel is applied while a calculation is under way, which other Python threads must not wait for
py::object make_kernel(KpmSpec const& s) {
    auto k = s.kernel == 0 ? fake::call("jackson_kernel", {}) : s.kernel == 1 ? fake::call("lorentz_kernel", {py::cast(3.0)}) : fake::call("dirichlet_kernel", {});
    auto& f = fake::pointer_of<kpm::Kernel>(k)->damping_coefficients;
    auto damping = std::move(f);
    f = [damping](idx_t n) {
        { sim::Quiet q; if (fake::have_gil()) sim::violation("lock-kept", "a calculation runs with the interpreter lock: other threads cannot run"); }
        return damping(n);
    };
    return k;
}
py::object make_kpm(py::object const& model, KpmSpec const& s, py::object progress) {
    return fake::call("kpm", {model, make_tuple_of({py::cast(s.lo), py::cast(s.hi)}), make_kernel(s), py::cast(std::string(s.ell ? "ELL" : "CSR")), py::cast(s.optimal), py::cast(s.interleaved),
                              py::cast(0.002), py::cast(s.threads), progress});
}
KPM reference_kpm(Model const& model, KpmSpec const& s) {
    kpm::Config c; c.min_energy = static_cast<float>(s.lo); c.max_energy = static_cast<float>(s.hi);
    c.kernel = s.kernel == 0 ? kpm::jackson_kernel() : s.kernel == 1 ? kpm::lorentz_kernel(3.0) : kpm::dirichlet_kernel();
    c.matrix_format = s.ell ? kpm::MatrixFormat::ELL : kpm::MatrixFormat::CSR; c.algorithm.optimal_size = s.optimal; c.algorithm.interleaved = s.interleaved;
    return KPM(model, kpm::DefaultCompute(1, {}), c);
}
bool close(ArrayXXdCM const& a, ArrayXXdCM const& b, double scale, bool single) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    double tol = (single ? 2e-3 : 1e-7) * std::max(scale, 1e-6);
    for (idx_t i = 0; i < a.rows(); ++i) for (idx_t j = 0; j < a.cols(); ++j) if (!(std::abs(a(i, j) - b(i, j)) <= tol)) return false;
    return true;
}
py::object array_of(ArrayXd const& v) { return py::array_t<double>(static_cast<std::size_t>(v.size()), v.data()); }
py::object array_of(Cartesian const& v) { return py::array_t<float>(3, v.data()); }

// the model of a job: the recipe (C++ callbacks) and a modifier in Python
py::object python_model(Recipe const& r, double factor, bool onsite, long* calls) {
    std::unique_ptr<Model> m; { sim::Quiet q; m = fresh_model(r); }
    auto model = py::cast(*m);
    { sim::Quiet q; m.reset(); }
    auto f = scale_function(factor, calls);
    auto modifier = fake::construct(onsite ? "OnsiteModifier" : "HoppingModifier", {f});
    fake::method(model, "add", {modifier});
    return model;
}
std::unique_ptr<Model> reference_model(Recipe const& r, double factor, bool onsite) {
    auto m = fresh_model(r);
    auto scale = [factor](ComplexArrayRef e) { auto d = dims(e); visit_scalar(e.tag, e.data, [&](auto* p) { using T = std::remove_reference_t<decltype(*p)>; for (idx_t i = 0; i < d.rows * d.cols * d.n; ++i) p[i] *= static_cast<num::get_real_t<T>>(factor); }); };
    if (onsite) m->add(OnsiteModifier([scale](ComplexArrayRef e, CartesianArrayConstRef, string_view) { scale(e); }));
    else m->add(HoppingModifier([scale](ComplexArrayRef e, CartesianArrayConstRef, CartesianArrayConstRef, string_view) { scale(e); }));
    return m;
}

struct Report { int starts = 0, finishes = 0, cancels = 0; long sum = 0, total = 0; };
// a progress callback; raises at its k-th call
py::object progress_function(Report* r, int* countdown) {
    return make_function("progress", [r, countdown](Args const& a) -> py::object {
        bytecode();
        bool fails = false;
        {   sim::Quiet q;
            long delta = static_cast<long>(a.at(0).ptr()->number), total = static_cast<long>(a.at(1).ptr()->number);
            r->total = total;
            if (delta < 0) ++r->starts; else if (delta == 0) ++r->cancels; else if (delta == total && r->sum == total) ++r->finishes; else r->sum += delta;
            if (countdown && (*countdown)-- == 0 && delta != 0) fails = true;
        }
        bytecode();
        if (fails) { sim::count_fault("progress_raises"); raise("injected"); }
        return py::none();
    });
}

struct LdosJob { double factor, broadening; ArrayXd energy; Cartesian position; ArrayXXdCM expected; double magnitude = 0; Report report; };

struct KpmCase {
    KModel km; bool onsite, single = false; std::vector<LdosJob> jobs; KpmSpec spec; long calls = 0; bool ok = true;
    explicit KpmCase(std::size_t n) {
        sim::Quiet q;
        km = draw_kmodel(false, 40); onsite = sim::flip();
        double bound = 0;
        std::vector<std::unique_ptr<Model>> models;
        jobs.resize(n);
        for (auto& j : jobs) {
            j.factor = 0.5 + 0.125 * static_cast<double>(sim::draw(9));
            models.push_back(reference_model(km.recipe, j.factor, onsite));
            auto h = snap_ham(models.back()->hamiltonian());
            bound = std::max(bound, bound_of(h)); single = h.scalar < 2;
        }
        spec = draw_spec(bound);
        double const a = (spec.hi - spec.lo) / 2;
        for (std::size_t i = 0; i < n; ++i) {
            auto& j = jobs[i];
            auto const& sys = *models[i]->system();
            j.energy = ArrayXd(2); for (int k = 0; k < 2; ++k) j.energy[k] = (spec.hi + spec.lo) / 2 + a * (static_cast<double>(sim::draw(1793)) - 896) / 1024.0;
            j.broadening = a * 3.3 / (3 + static_cast<double>(sim::draw(12)));
            j.position = sys.positions[static_cast<idx_t>(sim::draw(static_cast<std::uint64_t>(sys.num_sites())))];
            auto error = attempt([&] { auto ref = reference_kpm(*models[i], spec); j.expected = ref.calc_ldos(j.energy, j.broadening, j.position); });
            if (!error.empty()) ok = false;
            for (idx_t k = 0; k < j.expected.size(); ++k) j.magnitude = std::max(j.magnitude, std::abs(j.expected(k)));
            if (!std::isfinite(j.magnitude)) ok = false;
            j.magnitude = std::max(j.magnitude, 1.0 / j.broadening);
        }
    }
    void check(std::size_t i, py::object const& result) {
        auto& m = *fake::pointer_of<ArrayXXdCM>(result);
        sim::Quiet q;
        if (!close(m, jobs[i].expected, jobs[i].magnitude, single)) sim::violation("result", "the local density of states of job " + S(static_cast<long long>(i)) + " differs from the sequential result");
        auto& r = jobs[i].report;
        if (r.starts != 1 || r.finishes != 1 || r.cancels != 0 || r.sum != r.total) sim::violation("progress", "progress of one calculation: " + S(r.starts) + " starts, " + S(r.sum) + " of " + S(r.total) + ", " + S(r.finishes) + " ends");
    }
};

SCENARIO(C11, kpm_sweep, 3) {
    std::size_t const size = 1 + sim::draw(4), threads = 1 + sim::draw(3), queue = sim::draw(3);
    KpmCase c(size);
    if (!c.ok) return;
    Session session;
    bool const silent = sim::flip(1, 4), compute_first = sim::flip(1, 4); int const others = static_cast<int>(sim::draw(2));
    bool const fails = !silent && sim::flip(1, 4), thread_fails = !fails && sim::flip(1, 4); std::size_t const fail_at = sim::draw(size); int countdown = static_cast<int>(sim::draw(3));
    { sim::Quiet q; sim::describe("sweep of " + S(static_cast<long long>(size)) + " local densities of states, threads=" + S(static_cast<long long>(threads)) + " and " + S(c.spec.threads) + " each" + (silent ? ", silent" : "")); }
    if (size > 1 && threads > 1) sim::nontrivial();
    {
        std::vector<py::object> solvers; Others other; std::vector<int> retired(size);
        std::vector<py::object> items; for (std::size_t i = 0; i < size; ++i) items.push_back(py::cast(static_cast<double>(i)));
        auto sequence = make_tuple_of(std::move(items));
        auto produce = make_function("produce", [&](Args const& a) {
            auto i = static_cast<std::size_t>(a.at(0).ptr()->number);
            auto& j = c.jobs[i];
            auto model = python_model(c.km.recipe, j.factor, c.onsite, &c.calls);
            bytecode();
            auto kpm = make_kpm(model, c.spec, silent ? py::object(py::none()) : progress_function(&j.report, fails && i == fail_at ? &countdown : nullptr));
            bytecode();
            auto deferred = fake::method(kpm, "deferred_ldos", {array_of(j.energy), py::cast(j.broadening), array_of(j.position), py::cast(std::string())});
            if (compute_first && i == 0 && !fails) fake::method(deferred, "compute");
            return deferred;
        });
        auto retire = make_function("retire", [&](Args const& a) -> py::object {
            auto i = static_cast<std::size_t>(a.at(1).ptr()->number);
            { sim::Quiet q; ++retired[i]; }
            auto r = fake::method(a.at(0), "result");
            if (silent) { sim::Quiet q; c.jobs[i].report.starts = c.jobs[i].report.finishes = 1; }
            c.check(i, r);
            solvers.push_back(fake::method(a.at(0), "solver"));
            bytecode();
            return py::none();
        });
        if (others) other.start(others);
        if (thread_fails) sim::fail_thread_in(sim::draw(threads + 2 + size * static_cast<std::size_t>(c.spec.threads)), sim::flip());
        auto error = call([&] { fake::call("parallel_for", {sequence, produce, retire, py::cast(threads), py::cast(queue)}); });
        bool const no_thread = sim::fail_thread_off();
        {   sim::Quiet q;
            if (no_thread) { if (error != "c++: Resource temporarily unavailable") sim::violation("error", "a thread could not be started, but the error is '" + error + "'"); error.clear(); for (auto& r : retired) r = 1; }
            bool const fired = fails && countdown < 0;
            if (!fired && !error.empty()) sim::violation("error", "the sweep failed without a fault: " + error);
            if (fired && error != "python: injected") sim::violation("error", "the error of the progress callback was lost: '" + error + "'");
            if (error.empty()) for (std::size_t i = 0; i < size; ++i) if (retired[i] != 1) sim::violation("job-lost", "job " + S(static_cast<long long>(i)) + " was retired " + S(retired[i]) + " times");
        }
        for (auto& s : solvers) { auto report = fake::method(s, "report"); auto m = fake::method(s, "model"); auto e = fake::method(s, "stats"); }
        if (others) other.join();
    }
    session.finish();
}

// Python threads which calculate, each with a KPM object of its own
enum CallKind { call_ldos, call_deferred, call_dos, call_greens, call_greens_vector, call_spatial, call_conductivity, n_call_kinds };
struct Call {
    int kind = call_ldos, num_random = 1, num_points = 5; idx_t row = 0, col = 0; std::vector<idx_t> cols; std::string direction, sublattice; std::shared_ptr<Ingredient> shape;
    double temperature = 300; bool reduce = true, again = false, ok = true; std::vector<std::complex<double>> expected;
};
template<class A> void flatten(std::vector<std::complex<double>>& f, A const& a) { f.push_back(static_cast<double>(a.rows())); for (idx_t i = 0; i < a.size(); ++i) f.push_back(a.data()[i]); }

SCENARIO(C11, kpm_calls, 3) {
    std::size_t const size = 1 + sim::draw(3);
    KpmCase c(size);
    if (!c.ok) return;
    std::vector<Call> calls(size);
    {   sim::Quiet q;
        for (std::size_t i = 0; i < size; ++i) {
            auto& k = calls[i]; auto& j = c.jobs[i];
            auto m = reference_model(c.km.recipe, j.factor, c.onsite);
            auto const n = m->hamiltonian().rows();
            do k.kind = static_cast<int>(sim::draw(n_call_kinds)); while (k.kind == call_spatial && m->is_multiorbital());
            k.num_random = 1 + static_cast<int>(sim::draw(9)); k.num_points = 3 + static_cast<int>(sim::draw(8)); k.temperature = sim::flip() ? 0 : 300; k.reduce = sim::flip();
            auto index = [&] { return static_cast<idx_t>(sim::draw(static_cast<std::uint64_t>(n))); };
            k.row = index(); k.col = index();
            for (auto t = 1 + sim::draw(4); t > 0; --t) k.cols.push_back(sim::flip(1, 5) ? k.row : index());
            char const* dirs[] = {"xx", "xy", "yx", "yy", "zz", "xz"};
            k.direction = dirs[sim::draw(6)]; k.again = sim::flip(1, 4);
            k.shape = std::make_shared<Ingredient>(); k.shape->kind = k_shape; k.shape->i[0] = 2; k.shape->variant = 0;
            k.shape->p[0] = dyadic(-4, 4, 8); k.shape->p[1] = dyadic(2, 16, 4); k.shape->p[2] = dyadic(-4, 4, 8); k.shape->p[3] = dyadic(2, 12, 4); k.shape->p[5] = 50;
            finish_ingredient(k.shape);
            auto ref = reference_kpm(*m, c.spec);
            auto& e = k.expected;
            for (int round = 0; round <= (k.again ? 1 : 0); ++round) {     // the random vectors of a second calculation are others
                auto error = attempt([&] { switch (k.kind) {
                    case call_ldos: flatten(e, ref.calc_ldos(j.energy, j.broadening, j.position, k.sublattice, k.reduce)); break;
                    case call_deferred: flatten(e, ref.calc_ldos(j.energy, j.broadening, j.position)); break;
                    case call_dos: flatten(e, ref.calc_dos(j.energy, j.broadening, k.num_random)); break;
                    case call_greens: flatten(e, ref.calc_greens(k.row, k.col, j.energy, j.broadening)); break;
                    case call_greens_vector: for (auto& v : ref.calc_greens_vector(k.row, k.cols, j.energy, j.broadening)) flatten(e, v); break;
                    case call_spatial: flatten(e, ref.calc_spatial_ldos(j.energy, j.broadening, *k.shape->shape)); break;
                    default: flatten(e, ref.calc_conductivity(j.energy, j.broadening, k.temperature, k.direction, k.num_random, k.num_points));
                } });
                if (!error.empty()) k.ok = false;
            }
            for (auto& v : e) if (!std::isfinite(std::abs(v))) k.ok = false;
            if (!k.ok) return;
        }
    }
    Session session;
    bool const silent = sim::flip(1, 5), own_evaluation = sim::flip();
    bool const fails = !silent && sim::flip(1, 3), thread_fails = !fails && sim::flip(1, 4); std::size_t const fail_at = sim::draw(size); int countdown = static_cast<int>(sim::draw(3)), failed = 0;
    { sim::Quiet q; std::string t; for (auto& k : calls) t += " " + S(k.kind); sim::describe(S(static_cast<long long>(size)) + " Python threads calculate with KPM: kinds" + t + (silent ? ", silent" : "")); }
    if (size > 1) sim::nontrivial();
    {
        auto work = [&](std::size_t i) {
            auto& j = c.jobs[i]; auto& k = calls[i];
            auto error = call([&] {
                auto model = python_model(c.km.recipe, j.factor, c.onsite, &c.calls);
                bytecode();
                if (own_evaluation) { auto h = fake::method(model, "hamiltonian"); }
                auto kpm = make_kpm(model, c.spec, silent ? py::object(py::none()) : progress_function(&j.report, fails && i == fail_at ? &countdown : nullptr));
                bytecode();
                std::vector<std::complex<double>> got;
                for (int round = 0; round <= (k.again ? 1 : 0); ++round) {
                    auto energy = array_of(j.energy), broadening = py::cast(j.broadening), none = py::cast(std::string());
                    auto matrix = [&](py::object const& r) { sim::Quiet q; flatten(got, *fake::pointer_of<ArrayXXdCM>(r)); };
                    switch (k.kind) {
                        case call_ldos: matrix(fake::method(kpm, "calc_ldos", {energy, broadening, array_of(j.position), none, py::cast(k.reduce)})); break;
                        case call_deferred: {
                            auto d = fake::method(kpm, "deferred_ldos", {energy, broadening, array_of(j.position), none});
                            bytecode();
                            auto r = fake::method(d, "result");
                            if (silent) { sim::Quiet q; j.report.starts = j.report.finishes = 1; }
                            if (round == 0) c.check(i, r);
                            matrix(r);
                            break;
                        }
                        case call_dos: { auto r = fake::method(kpm, "calc_dos", {energy, broadening, py::cast(k.num_random)}); sim::Quiet q; flatten(got, *fake::pointer_of<ArrayXd>(r)); break; }
                        case call_greens: { auto r = fake::method(kpm, "calc_greens", {py::cast(k.row), py::cast(k.col), energy, broadening}); sim::Quiet q; flatten(got, *fake::pointer_of<ArrayXcd>(r)); break; }
                        case call_greens_vector: {
                            auto r = fake::method(kpm, "calc_greens", {py::cast(k.row), py::cast(k.cols), energy, broadening});
                            sim::Quiet q; for (auto& v : *fake::pointer_of<std::vector<ArrayXcd>>(r)) flatten(got, v);
                            break;
                        }
                        case call_spatial: matrix(fake::method(kpm, "calc_spatial_ldos", {energy, broadening, py::cast(*k.shape->shape), none})); break;
                        default: {
                            auto r = fake::method(kpm, "calc_conductivity", {energy, broadening, py::cast(k.temperature), py::cast(k.direction), py::cast(k.num_random), py::cast(k.num_points)});
                            sim::Quiet q; flatten(got, *fake::pointer_of<ArrayXd>(r));
                        }
                    }
                    bytecode();
                }
                {   sim::Quiet q;
                    double scale = 1.0 / j.broadening; for (auto& v : k.expected) scale = std::max(scale, std::abs(v));
                    bool same = got.size() == k.expected.size();
                    for (std::size_t t = 0; same && t < got.size(); ++t) same = std::abs(got[t] - k.expected[t]) <= (c.single ? 4e-3 : 1e-7) * scale;
                    if (!same) sim::violation("result", "the result of call " + S(static_cast<long long>(i)) + " (kind " + S(k.kind) + ") differs from the sequential calculation in C++");
                }
                if (k.kind == call_greens) fake::method(kpm, "set_model", {model});
                auto t = fake::method(kpm, "report", {py::cast(true)});
            });
            sim::Quiet q;
            bool const fired = fails && i == fail_at && countdown < 0;
            if (thread_fails && error == "c++: Resource temporarily unavailable") { ++failed; return; }
            if (!fired && !error.empty()) sim::violation("error", "a calculation failed without a fault: " + error);
            if (fired && error != "python: injected") sim::violation("error", "the error of the progress callback was lost: '" + error + "'");
        };
        std::vector<std::thread> threads;
        for (std::size_t i = 1; i < size; ++i) threads.emplace_back([&, i] { Gil gil; work(i); });
        bool const persistent = thread_fails && sim::flip();
        if (thread_fails) sim::fail_thread_in(sim::draw(6), persistent);
        work(0);
        { NoGil n; for (auto& t : threads) t.join(); }
        bool const no_thread = sim::fail_thread_off();
        if (no_thread ? persistent ? failed < 1 : failed != 1 : failed > 0) { sim::Quiet q; sim::violation("error", "a thread could not be started, and " + S(failed) + " calculations failed"); }
    }
    session.finish();
}

// ---- C18: what was handed to Python keeps its contents ---------------------------------------------------
using Bytes = std::vector<unsigned char>;
// the contents of an object; memory which was freed is noticed while reading
bool contents(py::object const& o, Bytes& out) {
    auto put = [&](void const* p, std::size_t n) { auto* c = static_cast<unsigned char const*>(p); for (std::size_t i = 0; i < n; ++i) out.push_back(c[i]); };
    auto number = [&](long long v) { put(&v, sizeof v); };
    auto const type = o.ptr()->type; auto* p = o.ptr()->ptr.get();
    auto copy = [&](ArrayCopy const& c) { number(c.ndim); number(static_cast<int>(c.tag)); for (auto n : c.shape) number(n); put(c.bytes.data(), c.bytes.size()); };
    auto floats = [&](ArrayXf const& a) { put(a.data(), sizeof(float) * static_cast<std::size_t>(a.size())); };
    if (type == typeid(py::CsrObject)) { auto& m = *static_cast<py::CsrObject*>(p); number(m.rows); number(m.cols); return contents(m.data, out) && contents(m.indices, out) && contents(m.indptr, out); }
    if (auto* a = fake::array_of(o)) { copy(copy_array(*a)); return true; }
    if (type == typeid(ArrayXd)) { auto& m = *static_cast<ArrayXd*>(p); put(m.data(), sizeof(double) * static_cast<std::size_t>(m.size())); return true; }
    if (type == typeid(System)) {
        auto s = snap_system(*static_cast<System*>(p));
        auto& sys = *static_cast<System*>(p);
        floats(sys.positions.x); floats(sys.positions.y); floats(sys.positions.z);
        for (auto const* list : {&s.ids, &s.counts, &s.norbs}) for (auto v : *list) number(v);
        for (auto const& b : s.blocks) for (auto v : b) number(v);
        for (auto const& n : s.names) put(n.data(), n.size());
        number(sys.hamiltonian_size());
        return true;
    }
    if (type == typeid(CartesianArray)) { auto& c = *static_cast<CartesianArray*>(p); floats(c.x); floats(c.y); floats(c.z); return true; }
    if (type == typeid(ArrayXXdCM)) { auto& m = *static_cast<ArrayXXdCM*>(p); put(m.data(), sizeof(double) * static_cast<std::size_t>(m.size())); return true; }
    return false;
}

struct View { std::string what; py::object object; Bytes bytes; };
// a view must show what the C++ object holds, and must not let Python change it
void check_view(py::object const& o, num::ArrayConstRef const& direct, std::string const& what) {
    sim::Quiet q;
    auto* a = fake::array_of(o);
    if (!a) sim::violation("contents", what + " is no array");
    if (a->writable && !a->memory) sim::violation("writable", what + " can be changed in Python, although it is constant");
    Bytes x, y; auto c = copy_array(*a), d = copy_array(direct);
    if (c.tag != d.tag || c.shape != d.shape) sim::violation("contents", what + " has another type or shape in Python: " + S(c.ndim) + " dimensions instead of " + S(d.ndim));
    if (c.bytes != d.bytes) sim::violation("contents", what + " in Python differs from what the C++ object holds");
}
void check_view(py::object const& o, num::AnyCsrConstRef const& m, std::string const& what) {
    sim::Quiet q;
    if (o.ptr()->type != std::type_index(typeid(py::CsrObject))) sim::violation("contents", what + " is no sparse matrix");
    auto& c = *static_cast<py::CsrObject*>(o.ptr()->ptr.get());
    if (c.rows != m.rows || c.cols != m.cols) sim::violation("contents", what + " has another shape in Python");
    check_view(c.data, num::ArrayConstRef(m.void_data, m.tag, 1, true, m.nnz), what + " (data)");
    check_view(c.indices, num::arrayref(m.indices, m.nnz), what + " (indices)");
    check_view(c.indptr, num::arrayref(m.indptr, m.rows + 1), what + " (indptr)");
}
// what a program keeps: the matrix or one of its arrays
py::object part_of(py::object const& m) { switch (sim::draw(4)) { case 0: return m.attr("data"); case 1: return m.attr("indices"); case 2: return m.attr("indptr"); default: return m; } }

SCENARIO(C18, views, 1) {
    auto lat = std::make_shared<LatSpec const>(draw_lattice());
    Recipe recipe; { sim::Quiet q; recipe = draw_recipe(lat, 4, true); }
    Session session;
    int const steps = 4 + static_cast<int>(sim::draw(sim::thorough() ? 20 : 10));
    std::string text; int serial = 100, changes = 0;
    {
        std::vector<View> views;
        std::vector<py::object> models;
        auto make = [&] { std::unique_ptr<Model> m; { sim::Quiet q; m = fresh_model(recipe); } models.push_back(py::cast(*m)); };
        auto hold = [&](std::string what, py::object o) { View v{std::move(what), std::move(o), {}}; if (!contents(v.object, v.bytes)) sim::harness_error("unknown type of a view: " + v.what + " " + v.object.ptr()->type.name()); views.push_back(std::move(v)); };
        make();
        for (int i = 0; i < steps; ++i) {
            if (models.empty()) make();
            auto const which = sim::draw(models.size());
            py::object model = models[which];
            auto& cpp = *fake::pointer_of<Model>(model);
            auto const op = sim::draw(17);
            std::string name;
            auto error = call([&] {
                switch (op) {
                    case 0: case 1: case 2: { name = "hamiltonian"; auto h = fake::method(model, "hamiltonian"); check_view(h, cpp.hamiltonian().csrref(), "the Hamiltonian"); hold("the Hamiltonian", part_of(h)); break; }
                    case 3: name = "raw_hamiltonian"; hold("the raw Hamiltonian", part_of(fake::method(fake::method(model, "raw_hamiltonian"), "csrref"))); break;
                    case 4: name = "system"; hold("the system", fake::method(model, "system")); break;
                    case 5: { name = "positions"; auto p = fake::method(fake::method(model, "system"), "positions"); check_view(fake::method(p, "x"), cpb::arrayref(cpp.system()->positions.x), "the x positions"); check_view(fake::method(p, "y"), cpb::arrayref(cpp.system()->positions.y), "the y positions"); check_view(fake::method(p, "z"), cpb::arrayref(cpp.system()->positions.z), "the z positions"); hold("the y positions", fake::method(p, "y")); hold("the positions", p); break; }
                    case 6: {
                        auto leads = fake::method(model, "leads");
                        auto n = static_cast<int>(fake::method(leads, "__len__").ptr()->number);
                        if (!n) break;
                        model.cast<Model&>().eval();
                        auto lead = fake::method(leads, "__getitem__", {py::cast(static_cast<int>(sim::draw(static_cast<std::uint64_t>(n))))});
                        name = "leads"; auto& direct = *fake::pointer_of<Lead>(lead); auto h0 = fake::method(lead, "h0"), h1 = fake::method(lead, "h1"), indices = fake::method(lead, "indices");
                        check_view(h0, direct.h0().csrref(), "h0 of a lead"); check_view(h1, direct.h1().csrref(), "h1 of a lead"); check_view(indices, cpb::arrayref(direct.indices()), "the indices of a lead");
                        hold("h0 of a lead", part_of(h0)); hold("h1 of a lead", part_of(h1)); hold("the indices of a lead", indices); hold("the system of a lead", fake::method(lead, "system"));
                        break;
                    }
                    case 7: { name = "expanded_positions"; hold("the expanded positions", fake::method(fake::method(model, "system"), "expanded_positions")); break; }
                    case 8: case 9: {
                        Cartesian k = {static_cast<float>(dyadic(-8, 8, 8)), static_cast<float>(dyadic(-4, 4, 8)), 0};
                        name = "set_wave_vector"; ++changes;
                        fake::method(model, "set_wave_vector", {array_of(k)});
                        break;
                    }
                    case 10: case 11: {
                        Ingr g; { sim::Quiet q; g = draw_ingredient(*lat, recipe, draw_kind(*lat, recipe), serial++); }
                        name = "add " + g->text(); ++changes;
                        if (g->kind == k_lead && lat->max_norb() > 1) break;
                        apply_to(cpp, *g);
                        break;
                    }
                    case 12: name = "clear_structure_modifiers"; ++changes; cpp.clear_structure_modifiers(); break;
                    case 13: name = "clear_hamiltonian_modifiers"; ++changes; cpp.clear_hamiltonian_modifiers(); break;
                    case 14: name = "delete the model"; ++changes; model = py::object(); models.erase(models.begin() + static_cast<std::ptrdiff_t>(which)); break;
                    case 15: name = "copy the model"; models.push_back(py::cast(Model(cpp))); break;
                    default: {
                        name = "eval with a failing allocation";
                        sim::count_fault("allocation_fails");
                        sim::fail_alloc_in(sim::draw(40), sim::draw(2));
                        try { cpp.eval(); } catch (...) { sim::fail_alloc_off(); throw; }
                        sim::fail_alloc_off();
                    }
                }
            });
            if (!views.empty() && sim::draw(6) == 0) { auto k = sim::draw(views.size()); views.erase(views.begin() + static_cast<std::ptrdiff_t>(k)); name += ", drop a view"; }
            { sim::Quiet q; text += (text.empty() ? "" : "; ") + name + (error.empty() ? "" : " (error)"); sim::describe(text); sim::event(name + error); }
            for (auto const& v : views) {
                Bytes now; contents(v.object, now);
                if (now != v.bytes) { sim::Quiet q; sim::violation("changed", v.what + " which was read before has changed: " + text); }
            }
        }
        if (changes && views.size() > 1) sim::nontrivial();
    }
    session.finish();
}

// results of solvers
SCENARIO(C18, solver_views, 1) {
    auto lat = std::make_shared<LatSpec const>(draw_lattice());
    Recipe recipe; { sim::Quiet q; recipe = draw_recipe(lat, 4, false); }
    { sim::Quiet q; auto m = fresh_model(recipe); if (m->hamiltonian().rows() > 40) return; }
    Session session;
    int const steps = 4 + static_cast<int>(sim::draw(10));
    std::string text; int serial = 100, changes = 0;
    Faults faults;
    {
        std::vector<View> views; DenseConfig config; config.faults = &faults; config.clears = sim::flip();
        auto new_model = [&] { std::unique_ptr<Model> m; { sim::Quiet q; m = fresh_model(recipe); } return py::cast(*m); };
        py::object solver, model = new_model();
        auto make = [&] { solver = py::cast(std::make_shared<TestSolver>(model.cast<Model&>(), config)); };
        auto hold = [&](std::string what, py::object o) { View v{std::move(what), std::move(o), {}}; if (!contents(v.object, v.bytes)) sim::harness_error("unknown type of a view: " + v.what + " " + v.object.ptr()->type.name()); views.push_back(std::move(v)); };
        make();
        for (int i = 0; i < steps; ++i) {
            if (!solver) make();
            std::string name;
            auto error = call([&] {
                switch (sim::draw(12)) {
                    case 0: case 1: { name = "eigenvalues"; hold("the eigenvalues", fake::method(solver, "eigenvalues"));
                        check_view(views.back().object, solver.cast<BaseSolver&>().eigenvalues(), "the eigenvalues");
                        break; }
                    case 2: case 3: { name = "eigenvectors"; hold("the eigenvectors", fake::method(solver, "eigenvectors"));
                        check_view(views.back().object, solver.cast<BaseSolver&>().eigenvectors(), "the eigenvectors");
                        break; }
                    case 4: { name = "the densities"; ArrayXd e(3); e << -1, 0, 1.5; hold("the density of states", fake::method(solver, "calc_dos", {py::cast(ArrayXf(e.cast<float>())), py::cast(0.5)})); hold("the spatial density", fake::method(solver, "calc_spatial_ldos", {py::cast(0.25), py::cast(0.5)})); break; }
                    case 5: name = "the system"; hold("the system of the solver", fake::method(solver, "system")); break;
                    case 6: name = "the Hamiltonian"; hold("the Hamiltonian of the solver's model", fake::method(fake::method(solver, "model"), "hamiltonian")); break;
                    case 7: case 8: {        // Solver.set_wave_vector
                        Cartesian k = {static_cast<float>(dyadic(-8, 8, 8)), static_cast<float>(dyadic(-4, 4, 8)), 0};
                        name = "set_wave_vector"; ++changes;
                        fake::method(solver, "clear");
                        fake::method(fake::method(solver, "model"), "set_wave_vector", {array_of(k)});
                        break;
                    }
                    case 9: {
                        Ingr g; { sim::Quiet q; g = draw_ingredient(*lat, recipe, draw_kind(*lat, recipe), serial++); }
                        if (g->kind == k_lead) break;
                        name = "another model: " + g->text(); ++changes;
                        auto other = new_model();
                        apply_to(other.cast<Model&>(), *g);
                        fake::method(solver, "set_model", {other});
                        break;
                    }
                    case 10: name = "delete the solver"; ++changes; solver = py::object(); break;
                    default: {
                        name = "a solution fails"; ++changes;
                        fake::method(solver, "clear");
                        faults.fail_in = static_cast<long>(sim::draw(4));
                        try { fake::method(solver, "solve"); } catch (...) { faults.fail_in = -1; throw; }
                        faults.fail_in = -1;
                    }
                }
            });
            if (!views.empty() && sim::draw(8) == 0) { auto k = sim::draw(views.size()); views.erase(views.begin() + static_cast<std::ptrdiff_t>(k)); name += ", drop a view"; }
            { sim::Quiet q; text += (text.empty() ? "" : "; ") + name + (error.empty() ? "" : " (error)"); sim::describe(text); sim::event(name + error); }
            for (auto const& v : views) {
                Bytes now; contents(v.object, now);
                if (now != v.bytes) { sim::Quiet q; sim::violation("changed", v.what + " which were read before have changed: " + text); }
            }
        }
        if (changes && views.size() > 1) sim::nontrivial();
    }
    session.finish();
}

// ---- C14: what pickle makes of the objects of the extension module --------------------------------------
// The contents of a file, or a message: no references to the objects which were saved.
struct Pickled {
    enum Kind { plain, sequence, object, floats, integers, opaque } kind = plain;
    fake::Object::Kind py = fake::Object::None; double number = 0; std::string str;
    std::vector<Pickled> items; std::vector<std::string> keys;
    std::type_index type = typeid(void);
    std::vector<float> data; std::vector<std::int32_t> ints; std::shared_ptr<void> value;
    py::object view;        // a buffer which is sent separately (protocol 5): read later
};
template<class T> bool list_of(py::object const& o, std::vector<py::object>& items) {
    if (o.ptr()->type != typeid(std::vector<T>)) return false;
    for (auto const& v : *static_cast<std::vector<T>*>(o.ptr()->ptr.get())) items.push_back(py::cast(v));
    return true;
}
template<class T> bool map_of(py::object const& o, std::vector<py::object>& items, std::vector<std::string>& keys) {
    if (o.ptr()->type != typeid(std::unordered_map<std::string, T>)) return false;
    for (auto const& v : *static_cast<std::unordered_map<std::string, T>*>(o.ptr()->ptr.get())) { keys.push_back(v.first); items.push_back(py::cast(v.second)); }
    return true;
}
void read_buffer(Pickled& p, fake::NdArray const& a) {
    auto const n = a.size();
    if (a.scalar == typeid(float)) { p.kind = Pickled::floats; for (std::size_t i = 0; i < n; ++i) p.data.push_back(*reinterpret_cast<float const*>(a.at(i))); }
    else if (a.scalar == typeid(std::int32_t)) { p.kind = Pickled::integers; for (std::size_t i = 0; i < n; ++i) p.ints.push_back(*reinterpret_cast<std::int32_t const*>(a.at(i))); }
    else sim::harness_error("unknown type of a pickled array");
}
Pickled dump(py::object const& o, bool out_of_band) {
    Pickled p;
    o.check("an object was pickled");
    auto* x = o.ptr();
    switch (x->kind) {
        case fake::Object::None: case fake::Object::Number: case fake::Object::String: p.py = x->kind; p.number = x->number; p.str = x->str; return p;
        case fake::Object::Tuple: p.kind = Pickled::sequence; p.keys = x->keys; for (auto const& i : x->items) p.items.push_back(dump(i, out_of_band)); return p;
        case fake::Object::Function: throw std::runtime_error("cannot pickle a function");
        default: break;
    }
    p.type = x->type;
    if (fake::can_pickle(x->type)) { p.kind = Pickled::object; p.items.push_back(dump(fake::getstate(o), out_of_band)); return p; }
    if (auto* a = fake::array_of(o)) {
        if (out_of_band) { p.kind = Pickled::floats; p.view = o; } else read_buffer(p, *a);
        return p;
    }
    std::vector<py::object> items;
    if (list_of<System::Boundary>(o, items) || list_of<Lattice::HoppingTerm>(o, items) || map_of<Lattice::Sublattice>(o, items, p.keys) || map_of<Lattice::HoppingFamily>(o, items, p.keys)) {
        p.kind = Pickled::sequence;
        for (auto const& i : items) p.items.push_back(dump(i, out_of_band));
        return p;
    }
    p.kind = Pickled::opaque; p.value = x->ptr;     // values: arrays, lists and dictionaries of numbers and strings
    return p;
}
void send_buffers(Pickled& p) {
    if (p.view) { read_buffer(p, *fake::array_of(p.view)); p.view = py::object(); }
    for (auto& i : p.items) send_buffers(i);
}
py::object load(Pickled const& p) {
    switch (p.kind) {
        case Pickled::plain: { auto o = py::object::make(p.py); o.ptr()->number = p.number; o.ptr()->str = p.str; return o; }
        case Pickled::floats: return py::array_t<float>(p.data.size(), p.data.data());
        case Pickled::integers: return py::array_t<std::int32_t>(p.ints.size(), p.ints.data());
        case Pickled::object: return fake::setstate(p.type, load(p.items[0]));
        case Pickled::opaque: { auto o = py::object::make(fake::Object::Instance); o.ptr()->type = p.type; o.ptr()->ptr = p.value; return o; }
        default: break;
    }
    if (p.type == typeid(std::vector<System::Boundary>)) { std::vector<System::Boundary> v; for (auto const& i : p.items) v.push_back(load(i).cast<System::Boundary&>()); return py::cast(std::move(v)); }
    if (p.type == typeid(std::vector<Lattice::HoppingTerm>)) { std::vector<Lattice::HoppingTerm> v; for (auto const& i : p.items) v.push_back(load(i).cast<Lattice::HoppingTerm&>()); return py::cast(std::move(v)); }
    if (p.type == typeid(Lattice::Sublattices)) { Lattice::Sublattices v; for (std::size_t i = 0; i < p.items.size(); ++i) v.insert({p.keys[i], load(p.items[i]).cast<Lattice::Sublattice&>()}); return py::cast(std::move(v)); }
    if (p.type == typeid(Lattice::Hoppings)) { Lattice::Hoppings v; for (std::size_t i = 0; i < p.items.size(); ++i) v.insert({p.keys[i], load(p.items[i]).cast<Lattice::HoppingFamily&>()}); return py::cast(std::move(v)); }
    py::dict t;
    for (std::size_t i = 0; i < p.items.size(); ++i) { t.ptr()->items.push_back(load(p.items[i])); }
    t.ptr()->keys = p.keys;
    return py::object(std::move(t));
}

// everything which can be read from an object, as text
struct Facts {
    std::ostringstream o;
    Facts() { o.precision(17); }
    template<class M> void dense(char const* what, M const& m) { o << " " << what << "[" << m.rows() << "x" << m.cols() << ":"; for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) o << " " << m(i, j); o << "]"; }
    void names(NameMap const& m) { std::map<std::string, int> s(m.begin(), m.end()); for (auto const& n : s) o << " " << n.first << "=" << n.second; }
    template<class R> void add_registry(R const& r) { o << " registry " << r.size(); for (auto const& n : r.get_names()) o << " " << n; for (auto const& e : r.get_energies()) dense("energy", e); names(r.name_map()); o << " " << r.has_nonzero_energy() << r.any_complex_terms() << r.has_multiple_orbitals(); }
    void add(CartesianArray const& a) { dense("x", a.x); dense("y", a.y); dense("z", a.z); }
    void add(CompressedSublattices const& c) { dense("ids", c.alias_ids()); dense("sites", c.site_counts()); dense("orbitals", c.orbital_counts()); dense("decompressed", c.decompressed()); }
    void add(HoppingBlocks const& h) {
        o << " hoppings " << h.get_num_sites() << " " << h.nnz(); names(h.get_name_map());
        for (auto const& b : h) { o << " block"; for (auto const& c : b.coordinates()) o << " " << c.row << "," << c.col; }
        dense("neighbors", h.count_neighbors());
        auto csr = h.tocsr(); o << " csr";
        for (idx_t i = 0; i < csr.outerSize(); ++i) for (HoppingCSR::InnerIterator it(csr, i); it; ++it) o << " " << it.row() << "," << it.col() << ":" << it.value();
    }
    void add(System::Boundary const& b) { o << " boundary"; add(b.hopping_blocks); dense("shift", b.shift); }
    void add(System const& s) {
        o << "system " << s.num_sites() << " " << s.hamiltonian_size(); add_registry(s.site_registry); add_registry(s.hopping_registry); add(s.positions); add(s.compressed_sublattices); add(s.hopping_blocks);
        for (auto const& b : s.boundaries) add(b);
        add(s.expanded_positions());
        for (idx_t i = 0; i < s.num_sites(); i += 1 + s.num_sites() / 3) dense("orbitals of a site", s.to_hamiltonian_indices(i));
        if (s.num_sites()) for (int i = 0; i < 3; ++i) o << " nearest " << s.find_nearest({0.75f * static_cast<float>(i), 0.25f, 0});
        for (auto const& c : s.compressed_sublattices) if (c.num_sites()) o << " nearest of a family " << s.find_nearest({0.75f, 0.25f, 0}, s.site_registry.name(c.id()));
    }
    void add(Lattice::Sublattice const& s) { dense("position", s.position); dense("energy", s.energy); o << " ids " << s.unique_id.value() << " " << s.alias_id.value(); }
    void add(Lattice::HoppingTerm const& h) { dense("term", h.relative_index); o << " " << h.from.value() << "-" << h.to.value(); }
    void add(Lattice::HoppingFamily const& h) { dense("energy", h.energy); o << " family " << h.family_id.value(); for (auto const& t : h.terms) add(t); }
    void add(Lattice const& l) {
        o << "lattice " << l.ndim() << " " << l.nsub() << " " << l.nhop() << " min_neighbors " << l.get_min_neighbors(); dense("offset", l.get_offset());
        for (auto const& v : l.get_vectors()) dense("vector", v);
        std::map<std::string, Lattice::Sublattice> subs(l.get_sublattices().begin(), l.get_sublattices().end()); for (auto const& s : subs) { o << " " << s.first; add(s.second); }
        std::map<std::string, Lattice::HoppingFamily> hops(l.get_hoppings().begin(), l.get_hoppings().end()); for (auto const& h : hops) { o << " " << h.first; add(h.second); }
    }
    template<class T> bool try_add(py::object const& v) { if (v.ptr()->type != typeid(T)) return false; add(*static_cast<T*>(v.ptr()->ptr.get())); return true; }
    void add_object(py::object const& v) {
        if (v.ptr()->type == typeid(SiteRegistry)) return add_registry(*static_cast<SiteRegistry*>(v.ptr()->ptr.get()));
        if (v.ptr()->type == typeid(HoppingRegistry)) return add_registry(*static_cast<HoppingRegistry*>(v.ptr()->ptr.get()));
        if (!(try_add<CartesianArray>(v) || try_add<CompressedSublattices>(v) || try_add<HoppingBlocks>(v) || try_add<System::Boundary>(v) || try_add<System>(v) || try_add<Lattice::Sublattice>(v) || try_add<Lattice::HoppingTerm>(v) || try_add<Lattice::HoppingFamily>(v) || try_add<Lattice>(v)))
            sim::harness_error(std::string("unknown type: ") + v.ptr()->type.name());
    }
    static std::string of(py::object const& v) { Facts f; f.add_object(v); return f.o.str(); }
};
std::string first_difference(std::string const& a, std::string const& b) {
    std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    auto from = i > 60 ? i - 60 : 0;
    return "'..." + a.substr(from, 120) + "' became '..." + b.substr(from, 120) + "'";
}

// a new array: its elements lie side by side, apart, or in reverse
template<class T> py::object new_array(std::vector<T> const& v, int layout, std::vector<std::ptrdiff_t> shape = {}) {
    auto a = std::make_shared<fake::NdArray>();
    auto const n = v.size(), item = sizeof(T), step = layout == 1 ? std::size_t(2) : std::size_t(1);
    std::shared_ptr<char> memory(new char[n * step * item + item](), std::default_delete<char[]>());
    a->scalar = typeid(T); a->item = item; a->data = memory.get() + (layout == 2 && n ? (n - 1) * item : 0);
    a->shape = {static_cast<std::ptrdiff_t>(n)}; a->strides = {static_cast<std::ptrdiff_t>(step * item) * (layout == 2 ? -1 : 1)};
    for (std::size_t i = 0; i < n; ++i) { T x = v[i]; std::memcpy(a->at(i), &x, item); }
    if (!shape.empty() && layout == 0) {
        a->shape = shape; a->strides = shape;
        auto s = static_cast<std::ptrdiff_t>(item); for (auto d = shape.size(); d-- > 0;) { a->strides[d] = s; s *= shape[d]; }
    }
    a->memory = std::move(memory);
    auto o = py::object::make(fake::Object::Instance);
    o.ptr()->type = typeid(fake::NdArray); o.ptr()->ptr = std::move(a);
    return o;
}
// what functions accept as a vector: arrays of any real type and layout, sequences of numbers; zeros at the end may be left out
py::object vector_argument(Cartesian const& v) {
    std::size_t n = 3; if (sim::flip(1, 3)) while (n > 1 && v[static_cast<int>(n) - 1] == 0) --n;
    auto const form = sim::draw(6);
    if (form == 4) { std::vector<py::object> t; for (std::size_t i = 0; i < n; ++i) t.push_back(py::cast(static_cast<double>(v[static_cast<int>(i)]))); return make_tuple_of(std::move(t)); }
    if (form == 5) { std::vector<double> d(v.data(), v.data() + n); return new_array(d, 0); }
    return new_array(std::vector<float>(v.data(), v.data() + n), form < 3 ? static_cast<int>(form) : 0);
}

// the definition of a lattice, in Python
py::object python_lattice(LatSpec const& l, bool energies_inline) {
    std::vector<py::object> vectors; for (auto const& v : l.vectors) vectors.push_back(vector_argument(v));
    auto lat = fake::construct("Lattice", vectors);
    auto value = [](MatrixXcd const& e) { return e.size() == 1 && sim::flip() && e.imag().isZero() ? py::cast(e(0, 0).real()) : py::cast(e); };
    for (auto const& s : l.subs) {
        if (s.base == s.name) fake::method(lat, "add_sublattice", {py::cast(s.name), vector_argument(s.pos), value(s.energy)});
        else fake::method(lat, "add_alias", {py::cast(s.name), py::cast(s.base), vector_argument(s.pos)});
    }
    if (!energies_inline) for (std::size_t f = 0; f < l.families.size(); ++f) fake::method(lat, "register_hopping_energy", {py::cast("t" + S(static_cast<long long>(f))), py::cast(l.families[f])});
    for (auto const& h : l.hops) {
        auto from = py::cast(l.subs[static_cast<std::size_t>(h.from)].name), to = py::cast(l.subs[static_cast<std::size_t>(h.to)].name);
        auto rel = py::cast(Index3D(h.rel));
        fake::method(lat, "add_hopping", {rel, from, to, energies_inline ? py::cast(l.families[static_cast<std::size_t>(h.family)]) : py::cast("t" + S(h.family))});
    }
    fake::method(lat, "set_min_neighbors", {py::cast(l.min_neighbors)});
    if (!l.offset.isZero()) fake::method(lat, "set_offset", {vector_argument(l.offset)});
    return lat;
}

// the hash tables of a lattice which was loaded have another order: the same hoppings and boundaries are listed in another order
void sort_hoppings(SysSnap& s) {
    for (auto& b : s.blocks) {
        if (b.empty() || b[0] != -7) continue;
        std::vector<std::pair<int, int>> v; for (std::size_t i = 1; i + 1 < b.size(); i += 2) v.push_back({b[i], b[i + 1]});
        std::sort(v.begin(), v.end());
        for (std::size_t i = 0; i < v.size(); ++i) { b[2 * i + 1] = v[i].first; b[2 * i + 2] = v[i].second; }
    }
    std::vector<std::vector<std::vector<int>>> parts(1);     // the system, and its boundaries
    for (auto const& b : s.blocks) { if (!b.empty() && b[0] != -7) parts.emplace_back(); parts.back().push_back(b); }
    std::sort(parts.begin() + 1, parts.end());
    s.blocks.clear();
    for (auto const& p : parts) s.blocks.insert(s.blocks.end(), p.begin(), p.end());
}
bool close(HamSnap const& a, HamSnap const& b) {
    if (a.scalar != b.scalar || a.rows != b.rows || a.nz.size() != b.nz.size()) return false;
    if (!a.rows) return true;
    auto x = dense(a), y = dense(b);
    return (x - y).cwiseAbs().maxCoeff() <= 1e-4 * (1 + x.cwiseAbs().maxCoeff());
}
std::string model_difference(Snap a, Snap b) {
    if (a.sys_error != b.sys_error || a.ham_error != b.ham_error || a.lead_error != b.lead_error) return "'" + a.sys_error + a.ham_error + a.lead_error + "' instead of '" + b.sys_error + b.ham_error + b.lead_error + "'";
    sort_hoppings(a.sys); sort_hoppings(b.sys);
    if (!(a.sys == b.sys)) return "the systems are different";
    if (!close(a.ham, b.ham)) return "the Hamiltonians are different";
    if (a.leads.size() != b.leads.size()) return "number of leads";
    for (std::size_t i = 0; i < a.leads.size(); ++i) {
        sort_hoppings(a.leads[i].sys); sort_hoppings(b.leads[i].sys);
        if (!(a.leads[i].sys == b.leads[i].sys) || a.leads[i].indices != b.leads[i].indices || !close(a.leads[i].h0, b.leads[i].h0) || !close(a.leads[i].h1, b.leads[i].h1)) return "the leads are different";
    }
    return {};
}

SCENARIO(C14, extension_objects, 1) {
    auto lat = std::make_shared<LatSpec const>(draw_lattice());
    Recipe recipe; { sim::Quiet q; recipe = draw_recipe(lat, 4, true); }
    Session session;
    bool const of_lattice = sim::draw(3) == 0, inline_energies = sim::flip(1, 3);
    int const steps = 2 + static_cast<int>(sim::draw(5));
    std::string text; int serial = 100; bool changed = false;      // the model may be invalid
    {
        struct Saved { std::string what, facts; std::shared_ptr<Pickled> data; };
        std::vector<Saved> saved;
        std::vector<std::pair<std::string, py::object>> objects;
        py::object model, lattice;
        auto collect = [&] {
            objects.clear();
            if (of_lattice) {
                auto& l = lattice.cast<Lattice&>();
                objects.push_back({"the lattice", lattice}); objects.push_back({"the lattice", lattice});
                for (auto const& s : l.get_sublattices()) objects.push_back({"sublattice " + s.first, py::cast(s.second)});
                for (auto const& h : l.get_hoppings()) { objects.push_back({"hopping family " + h.first, py::cast(h.second)}); if (!h.second.terms.empty()) objects.push_back({"a hopping term", py::cast(h.second.terms[0])}); }
                return;
            }
            auto sys = fake::method(model, "system");
            for (int i = 0; i < 4; ++i) objects.push_back({"the system", sys});
            for (auto const* n : {"site_registry", "hopping_registry", "positions", "compressed_sublattices", "hopping_blocks"}) objects.push_back({n, fake::method(sys, n)});
            auto& s = sys.cast<System&>();
            for (auto const& b : s.boundaries) objects.push_back({"a boundary", py::cast(b)});
        };
        if (of_lattice) {
            lattice = python_lattice(*lat, inline_energies);
            if (!inline_energies) {
                auto expected = Facts(), got = Facts();
                expected.add(make_lattice(*lat)); got.add(lattice.cast<Lattice&>());
                if (expected.o.str() != got.o.str()) { sim::Quiet q; sim::violation("lattice", "a lattice which was defined in Python differs from the one defined in C++: " + first_difference(expected.o.str(), got.o.str())); }
            }
        } else {
            std::unique_ptr<Model> m; { sim::Quiet q; m = fresh_model(recipe); }
            model = py::cast(*m);
        }
        auto check = [&](Saved const& s, py::object const& loaded) {
            auto now = Facts::of(loaded);
            if (now != s.facts) { sim::Quiet q; sim::violation("loaded", s.what + " which was loaded differs from what was saved: " + first_difference(s.facts, now) + " after " + text); }
        };
        for (int i = 0; i < steps; ++i) {
            std::string name;
            auto error = call([&] {
                switch (saved.empty() && sim::flip(3, 4) ? 0 : sim::draw(8)) {
                    case 0: case 1: case 2: {       // save
                        collect();
                        auto& pick = objects[sim::draw(objects.size())];
                        bool const out_of_band = sim::flip(1, 3), failing = sim::flip(1, 4);
                        name = std::string("save ") + pick.first + (out_of_band ? " with separate buffers" : "");
                        Saved s{pick.first, Facts::of(pick.second), std::make_shared<Pickled>()};
                        auto object = pick.second; objects.clear();
                        if (failing) { name += " with a failing allocation"; sim::count_fault("allocation_fails"); sim::fail_alloc_in(sim::draw(60), sim::draw(2)); }
                        try { *s.data = dump(object, out_of_band); } catch (...) { sim::fail_alloc_off(); if (Facts::of(object) != s.facts) { sim::Quiet q; sim::violation("changed", s.what + " was changed by an attempt to save it"); } throw; }
                        sim::fail_alloc_off();
                        if (Facts::of(object) != s.facts) { sim::Quiet q; sim::violation("changed", s.what + " was changed by saving it"); }
                        send_buffers(*s.data);
                        saved.push_back(s);
                        break;
                    }
                    case 3: case 4: {       // load
                        if (saved.empty()) break;
                        auto& s = saved[sim::draw(saved.size())];
                        bool const failing = sim::flip(1, 4);
                        name = "load " + s.what;
                        if (failing) { name += " with a failing allocation"; sim::count_fault("allocation_fails"); sim::fail_alloc_in(sim::draw(120), sim::draw(2)); }
                        py::object loaded;
                        try { loaded = load(*s.data); } catch (...) { sim::fail_alloc_off(); throw; }
                        sim::fail_alloc_off();
                        check(s, loaded);
                        sim::nontrivial();
                        if (loaded.ptr()->type == typeid(Lattice)) {        // models of it
                            sim::Quiet q;
                            auto evaluate = [&](Lattice const& l) { Model m(l); for (auto const& g : recipe.all()) apply_to(m, *g); return take(m); };
                            std::string original_error, loaded_error; Snap a, b;
                            original_error = attempt([&] { a = evaluate(lattice.cast<Lattice&>()); }); loaded_error = attempt([&] { b = evaluate(loaded.cast<Lattice&>()); });
                            auto d = original_error != loaded_error ? "'" + loaded_error + "' instead of '" + original_error + "'" : model_difference(b, a);
                            if (original_error.empty() && loaded_error.empty() && !d.empty() && Facts::of(lattice) == s.facts) sim::violation("loaded", "a model of a lattice which was loaded differs: " + d);
                        } else if (sim::flip()) {       // saved again
                            auto again = load(dump(loaded, false));
                            loaded = py::object();
                            check(s, again);
                        }
                        break;
                    }
                    case 5: {       // a file of an older version, where a system contained the lattice
                        if (of_lattice) break;
                        auto sys = fake::method(model, "system");
                        name = "load a system of an older version";
                        auto state = fake::getstate(sys).cast<py::dict>();
                        py::dict old;
                        auto original = make_lattice(*lat);
                        old["lattice"] = py::cast(original);
                        for (auto const* n : {"positions", "compressed_sublattices", "hopping_blocks", "boundaries"}) if (state.contains(n)) old[n] = py::object(state[n]);
                        auto& s = sys.cast<System&>();
                        auto registries = Facts(), expected = Facts();
                        expected.add_registry(original.site_registry()); expected.add_registry(original.hopping_registry()); expected.add(s.positions); expected.add(s.hopping_blocks);
                        auto loaded = fake::setstate(typeid(System), old);
                        auto& l = loaded.cast<System&>();
                        registries.add_registry(l.site_registry); registries.add_registry(l.hopping_registry); registries.add(l.positions); registries.add(l.hopping_blocks);
                        if (registries.o.str() != expected.o.str()) { sim::Quiet q; sim::violation("older-version", "a system in the format of an older version was loaded wrongly: " + first_difference(expected.o.str(), registries.o.str())); }
                        break;
                    }
                    case 6:         // the original changes
                        if (of_lattice) {
                            name = "change the lattice"; auto sub = "X" + S(serial++);
                            fake::method(lattice, "add_sublattice", {py::cast(sub), array_of(Cartesian{0.1f, 0, 0}), py::cast(0.5)});
                            fake::method(lattice, "set_min_neighbors", {py::cast(static_cast<int>(sim::draw(3)))});
                        } else {
                            Ingr g; { sim::Quiet q; g = draw_ingredient(*lat, recipe, draw_kind(*lat, recipe), serial++); }
                            if (g->kind == k_lead && lat->max_norb() > 1) break;
                            name = "add " + g->text(); changed = true;
                            auto& cpp = model.cast<Model&>();
                            if (sim::flip(1, 4)) cpp.clear_structure_modifiers(); else apply_to(cpp, *g);
                        }
                        break;
                    default: {      // the original is deleted, and defined again
                        name = "delete the original";
                        if (of_lattice) { lattice = py::object(); lattice = python_lattice(*lat, inline_energies); }
                        else { model = py::object(); changed = false; std::unique_ptr<Model> m; { sim::Quiet q; m = fresh_model(recipe); } model = py::cast(*m); }
                    }
                }
            });
            { sim::Quiet q; text += (text.empty() ? "" : "; ") + name + (error.empty() ? "" : " (error)"); sim::describe(text); sim::event(name + error); }
            bool const expected_error = name.find("failing") != std::string::npos || (changed && name.compare(0, 4, "load"));
            if (!error.empty() && !expected_error) { sim::Quiet q; sim::violation("error", name + " failed: " + error); }
        }
        objects.clear();
        for (auto const& s : saved) {       // all of them are complete
            auto error = call([&] { check(s, load(*s.data)); });
            if (!error.empty()) { sim::Quiet q; sim::violation("error", "loading " + s.what + " failed: " + error); }
        }
    }
    session.finish();
}

} // namespace

// ---- C27: modifiers, shapes and generators which are written in Python -----------------------------------
namespace {
struct Script {     // what the Python functions of a run do
    long calls = 0, raise_in = -1, wrong_in = -1; int raised = 0, wrong = 0; bool layouts = true;
    std::string problem;
};
// one call: may raise, or return an array of the wrong size
bool enter(Script* s, bool sized = true) {
    bytecode();
    bool raises = false, wrong = false;
    { sim::Quiet q; ++s->calls; if (s->raise_in >= 0 && s->raise_in-- == 0) { raises = true; ++s->raised; } if (!raises && sized && s->wrong_in >= 0 && s->wrong_in-- == 0) { wrong = true; ++s->wrong; } }
    if (raises) { sim::count_fault("callback_raises"); raise("injected"); }
    if (wrong) sim::count_fault("wrong_size");
    return wrong;
}
std::vector<float> coordinates(py::object const& o, char const* what) {
    std::vector<float> v;
    if (auto* a = fake::array_of(o)) {
        if (a->scalar != typeid(float) || a->shape.size() != 1) { sim::Quiet q; sim::violation("argument", std::string(what) + " is no array of coordinates"); }
        for (std::size_t i = 0; i < a->size(); ++i) v.push_back(*reinterpret_cast<float const*>(a->at(i)));
    } else {
        auto& e = *fake::pointer_of<ArrayXf>(o);
        v.assign(e.data(), e.data() + e.size());
    }
    return v;
}
std::vector<Cartesian> points(Args const& a, std::size_t first) {
    auto x = coordinates(a.at(first), "x"), y = coordinates(a.at(first + 1), "y"), z = coordinates(a.at(first + 2), "z");
    if (x.size() != y.size() || x.size() != z.size()) { sim::Quiet q; sim::violation("argument", "x, y and z have different sizes"); }
    std::vector<Cartesian> p; for (std::size_t i = 0; i < x.size(); ++i) p.push_back({x[i], y[i], z[i]});
    return p;
}
std::string text_of(py::object const& o) { o.check("a string was read"); return o.ptr()->str; }
int layout(Script* s) { return s->layouts ? static_cast<int>(sim::draw(3)) : 0; }
template<class T> void enlarge(std::vector<T>& v, bool wrong) { if (wrong) v.push_back(T(1)); }

py::object python_contains(Ingr g, Script* s) {
    return make_function("contains", [g, s](Args const& a) -> py::object {
        enter(s, false);
        auto p = points(a, 0);
        std::vector<bool> in; for (auto const& r : p) in.push_back(in_shape(*g, r[0], r[1], r[2]));
        bytecode();
        return new_array(in, layout(s));
    });
}
py::object python_state(Ingr g, Script* s) {
    return make_function("site_state_modifier", [g, s](Args const& a) -> py::object {
        bool const wrong = enter(s);
        auto* state = fake::array_of(a.at(0)); auto p = points(a, 1); auto const name = text_of(a.at(4));
        if (!state || state->scalar != typeid(bool) || state->shape.size() != 1 || state->size() != p.size() || !state->writable) { sim::Quiet q; sim::violation("argument", "the state is no array of one truth value per site which can be changed"); }
        bytecode();
        bool const in_place = !wrong && sim::flip();
        std::vector<bool> result;
        for (std::size_t i = 0; i < p.size(); ++i) {
            auto& v = *reinterpret_cast<bool*>(state->at(i));
            bool const now = v && !removes(*g, p[i][0], p[i][1], p[i][2], name);
            if (in_place) v = now; else result.push_back(now);
        }
        enlarge(result, wrong);
        return in_place ? a.at(0) : new_array(result, layout(s));
    });
}
py::object python_position(Ingr g, Script* s) {
    return make_function("site_position_modifier", [g, s](Args const& a) -> py::object {
        bool const wrong = enter(s);
        auto p = points(a, 0); auto const name = text_of(a.at(3));
        bytecode();
        std::vector<float> r[3];
        for (auto const& v : p) { auto m = moved(*g, v, name); for (int d = 0; d < 3; ++d) r[d].push_back(m[d]); }
        // a component may be returned as it was given, or another component in its place
        std::vector<py::object> result;
        auto const style = sim::draw(3); auto const at = sim::draw(3);
        for (std::size_t d = 0; d < 3; ++d) {
            if (wrong && d == at) { enlarge(r[d], true); result.push_back(new_array(r[d], layout(s))); continue; }
            int from = -1;
            if (style == 0 && (g->variant == 0 || g->variant == 1)) from = d == (g->variant == 0 ? 0u : 1u) ? -1 : static_cast<int>(d);
            if (style == 0 && g->variant == 2) from = d == 2 ? -1 : static_cast<int>(d);
            if (style < 2 && g->variant == 3) from = d == 0 ? 1 : d == 1 ? 0 : 2;
            if (style < 2 && g->variant == 4) from = d == 0 ? -1 : d == 1 ? 0 : 2;
            if (from >= 0) { result.push_back(a.at(static_cast<std::size_t>(from))); continue; }
            if (style == 2 && g->variant < 3 && !wrong) {       // in place
                auto* x = fake::array_of(a.at(d));
                if (!x || !x->writable) { sim::Quiet q; sim::violation("argument", "the coordinates cannot be changed"); }
                for (std::size_t i = 0; i < r[d].size(); ++i) *reinterpret_cast<float*>(x->at(i)) = r[d][i];
                result.push_back(a.at(d));
                continue;
            }
            result.push_back(new_array(r[d], layout(s)));
        }
        return make_tuple_of(std::move(result));
    });
}
// energies of sites or hoppings: fn(element, row, column, number of the site)
template<class Fn> py::object python_energy(py::object const& given, bool wrong, bool upgrade, std::size_t sites, Script* s, Fn fn) {
    auto* e = fake::array_of(given);
    if (!e || (e->shape.size() != 1 && e->shape.size() != 3) || e->shape.back() != static_cast<std::ptrdiff_t>(sites) || !e->writable) { sim::Quiet q; sim::violation("argument", "the energies are no array with one value or matrix per site which can be changed"); }
    auto const rows = e->shape.size() == 3 ? static_cast<std::size_t>(e->shape[0]) : 1, cols = e->shape.size() == 3 ? static_cast<std::size_t>(e->shape[1]) : 1;
    bool const in_place = !wrong && !upgrade && sim::flip();
    py::object result;
    auto fill = [&](auto& v) { for (std::size_t i = 0; i < rows; ++i) for (std::size_t j = 0; j < cols; ++j) for (std::size_t n = 0; n < sites; ++n) fn(v[(i * cols + j) * sites + n], i, j, n); };
    visit_scalar(tag_of(e->scalar), nullptr, [&](auto* t) {
        using T = std::remove_pointer_t<decltype(t)>;
        std::vector<T> v; for (std::size_t i = 0; i < e->size(); ++i) v.push_back(*reinterpret_cast<T const*>(e->at(i)));
        if (upgrade) {
            std::vector<std::complex<num::get_real_t<T>>> c(v.begin(), v.end());
            fill(c); result = new_array(c, 0, e->shape);
            return;
        }
        fill(v);
        if (in_place) { for (std::size_t i = 0; i < v.size(); ++i) *reinterpret_cast<T*>(e->at(i)) = v[i]; result = given; return; }
        enlarge(v, wrong);
        result = wrong || e->shape.size() == 1 ? new_array(v, layout(s)) : new_array(v, 0, e->shape);
    });
    return result;
}
py::object python_onsite(Ingr g, Script* s) {
    return make_function("onsite_energy_modifier", [g, s](Args const& a) -> py::object {
        bool const wrong = enter(s);
        auto p = points(a, 1); auto const name = text_of(a.at(4));
        auto* e = fake::array_of(a.at(0));
        bool const upgrade = e && g->variant == 2 && is_real(tag_of(e->scalar));
        auto r = python_energy(a.at(0), wrong && !upgrade, upgrade, p.size(), s, [&](auto& x, std::size_t i, std::size_t j, std::size_t n) {
            if (i == j) add_to(x, onsite_shift(*g, p[n], name)); else add_to(x, i < j ? onsite_offdiag(*g) : std::conj(onsite_offdiag(*g)));
        });
        { sim::Quiet q; if (wrong && upgrade) --s->wrong; }
        bytecode();
        return r;
    });
}
py::object python_hopping(Ingr g, Script* s) {
    return make_function("hopping_energy_modifier", [g, s](Args const& a) -> py::object {
        bool const wrong = enter(s);
        auto p1 = points(a, 1), p2 = points(a, 4); auto const name = text_of(a.at(7));
        if (p1.size() != p2.size()) { sim::Quiet q; sim::violation("argument", "the two ends of the hoppings have different numbers"); }
        auto* e = fake::array_of(a.at(0));
        bool const upgrade = e && g->variant == 3 && is_real(tag_of(e->scalar));
        auto r = python_energy(a.at(0), wrong && !upgrade, upgrade, p1.size(), s, [&](auto& x, std::size_t, std::size_t, std::size_t n) { mul_by(x, hopping_factor(*g, p1[n], p2[n], name)); });
        { sim::Quiet q; if (wrong && upgrade) --s->wrong; }
        bytecode();
        return r;
    });
}
py::object python_site_generator(Ingr g, Script* s) {
    return make_function("site_generator", [g, s](Args const& a) -> py::object {
        enter(s, false);
        CartesianArray c; { sim::Quiet q; auto& system = *fake::pointer_of<System>(a.at(0)); auto f = g->sitegen->make; c = f(system); }
        bytecode();
        auto v = [&](ArrayXf const& x) { return new_array(std::vector<float>(x.data(), x.data() + x.size()), layout(s)); };
        return make_tuple_of({v(c.x), v(c.y), v(c.z)});
    });
}
py::object python_hopping_generator(Ingr g, Script* s) {
    return make_function("hopping_generator", [g, s](Args const& a) -> py::object {
        enter(s, false);
        HoppingGenerator::Result r; { sim::Quiet q; auto& system = *fake::pointer_of<System>(a.at(0)); auto f = g->hopgen->make; r = f(system); }
        bytecode();
        auto v = [&](ArrayXi const& x) { return new_array(std::vector<int>(x.data(), x.data() + x.size()), layout(s)); };
        return make_tuple_of({v(r.from), v(r.to)});
    });
}
py::object energy_argument(MatrixXcd const& e, bool diagonal_ok) {
    if (e.size() == 1 && sim::flip()) return py::cast(std::complex<double>(e(0, 0)));
    if (diagonal_ok && e.size() > 1 && e.isDiagonal() && e.imag().isZero() && sim::flip()) return py::cast(VectorXd(e.diagonal().real()));
    return py::cast(e);
}
// the object which is given to the model, made in Python
py::object python_ingredient(Ingr g, Script* s) {
    auto number = [](double v) { return py::cast(v); };
    auto flag = [](bool v) { return py::cast(v); };
    switch (g->kind) {
        case k_primitive: return fake::construct("Primitive", {number(g->i[0]), number(g->i[1]), number(g->i[2])});
        case k_symmetry: return fake::construct("TranslationalSymmetry", {number(g->p[0]), number(g->p[1]), number(g->p[2])});
        case k_shape: {
            auto const& c = *g->shape;
            py::object shape;
            if (sim::flip()) {
                float w = static_cast<float>(2 * g->p[1] + 6), h = static_cast<float>(2 * std::max(g->p[3], g->variant ? g->p[1] : 0.0) + 6), d = static_cast<float>(2 * std::max(g->p[5], g->variant ? g->p[1] : 0.0) + 6);
                shape = fake::construct("FreeformShape", {python_contains(g, s), vector_argument(Cartesian(w, g->i[0] > 1 ? h : 0.f, g->i[0] > 2 ? d : 0.f)), vector_argument(Cartesian(static_cast<float>(g->p[0]), static_cast<float>(g->p[2]), static_cast<float>(g->p[4])))});
            } else {
                shape = fake::construct("Shape", {py::cast(c.vertices), python_contains(g, s)});
            }
            fake::method(shape, "set_lattice_offset", {vector_argument(c.lattice_offset)});
            return shape;
        }
        case k_state: return g->i[2] || sim::flip() ? fake::construct("SiteStateModifier", {python_state(g, s), py::cast(g->i[2])}) : fake::construct("SiteStateModifier", {python_state(g, s)});
        case k_position: return fake::construct("PositionModifier", {python_position(g, s)});
        case k_sitegen: return fake::construct("SiteGenerator", {py::cast(g->name), energy_argument(g->energy, true), python_site_generator(g, s)});
        case k_hopgen: return fake::construct("HoppingGenerator", {py::cast(g->name), energy_argument(g->energy, false), python_hopping_generator(g, s)});
        case k_onsite: return fake::construct("OnsiteModifier", {python_onsite(g, s), flag(g->is_complex), flag(g->is_double)});
        case k_hopping: return fake::construct("HoppingModifier", {python_hopping(g, s), flag(g->is_complex), flag(g->is_double)});
        case k_lead: {
            float w = static_cast<float>(g->p[0]);
            return std::abs(g->i[0]) == 1 ? fake::construct("Line", {vector_argument({0, -w, 0}), vector_argument({0, w, 0})}) : fake::construct("Line", {vector_argument({-w, 0, 0}), vector_argument({w, 0, 0})});
        }
    }
    return {};
}

SCENARIO(C27, python_functions, 3) {
    auto lat = std::make_shared<LatSpec const>(draw_lattice());
    Recipe recipe; bool ok = true; Snap expected;
    {   sim::Quiet q;
        recipe = draw_recipe(lat, 5, true);
        if (sim::flip(1, 3)) {      // coordinates which are exchanged
            auto g = std::make_shared<Ingredient>();
            g->kind = k_position; g->variant = 3 + static_cast<int>(sim::draw(2)); g->serial = 77;
            finish_ingredient(g);
            recipe.add(g);
        }
        auto m = fresh_model(recipe);
        expected = take(*m);
        ok = expected.sys_error.empty() && expected.ham_error.empty() && expected.lead_error.empty();
    }
    if (!ok) return;
    std::size_t const size = 1 + sim::draw(3);
    bool const faults = sim::flip(), share = sim::flip();
    bool const memory = !faults && size == 1 && sim::flip();
    Script script; script.layouts = sim::flip(2, 3);
    if (faults && sim::flip(2, 3)) script.raise_in = static_cast<long>(sim::draw(20));
    if (faults && sim::flip()) script.wrong_in = static_cast<long>(sim::draw(20));
    sim::describe(S(static_cast<long long>(size)) + " Python threads build a model: " + recipe.lat->text() + "; " + recipe.text() + (share ? "; the same objects" : "") + (faults ? "; errors" : "") + (memory ? "; short of memory" : ""));
    Session session;
    int python_errors = 0, size_errors = 0;
    {
        std::vector<py::object> objects;
        auto const all = recipe.all();
        auto make = [&] { std::vector<py::object> v; for (auto const& g : all) { v.push_back(python_ingredient(g, &script)); bytecode(); } return v; };
        if (share) objects = make();
        auto work = [&] {
            py::object model;
            {
                auto own = share ? objects : make();
                auto lattice = python_lattice(*recipe.lat, false);
                model = fake::construct("Model", {lattice});
                for (std::size_t i = 0; i < all.size(); ++i) {
                    if (all[i]->kind == k_lead) fake::method(model, "attach_lead", {py::cast(all[i]->i[0]), own[i]});
                    else fake::method(model, "add", {own[i]});
                    bytecode();
                }
                fake::method(model, "set_wave_vector", {vector_argument(recipe.k)});
            }
            auto& cpp = *fake::pointer_of<Model>(model);
            for (int round = 0;; ++round) {
                bool const short_of_memory = memory && round < 3 && sim::flip(2, 3);
                auto const how = short_of_memory ? 2 : sim::draw(4);
                std::string error;
                if (short_of_memory) sim::count_fault("allocation_fails");
                bool no_memory = false;
                auto evaluate = [&] {
                    if (how % 2) { cpp.system(); cpp.hamiltonian(); cpp.leads(); return; }
                    if (short_of_memory) sim::fail_alloc_in(sim::draw(sim::flip() ? 30 : 200), sim::flip(1, 4));
                    try { cpp.eval(); } catch (...) { no_memory = short_of_memory && sim::fail_alloc_off(); throw; }
                    if (short_of_memory) sim::fail_alloc_off();
                };
                if (how == 0) error = call([&] { fake::method(model, "eval"); });
                else if (how == 1) error = call([&] { auto x = fake::method(model, "hamiltonian"); bytecode(); auto y = fake::method(model, "leads"); });
                else if (how == 2) error = call([&] { NoGil n; evaluate(); });       // as deferred calculations do
                else error = call([&] {
                    std::exception_ptr e;
                    { NoGil n; std::thread t([&] { try { evaluate(); } catch (...) { e = std::current_exception(); } }); t.join(); }
                    if (e) std::rethrow_exception(std::move(e));
                });
                { sim::Quiet q; sim::event("evaluation " + S(static_cast<long long>(how)) + error); }
                if (no_memory && !error.empty()) continue;
                if (error.empty()) break;
                sim::Quiet q;
                if (error == "python: injected") ++python_errors;
                else if (error == "c++: Unexpected modifier result size") ++size_errors;
                else sim::violation("error", "the evaluation failed without a fault: " + error);
                if (round > 40) sim::violation("error", "the evaluation fails again and again: " + error);
            }
            bytecode();
            Snap got = take(cpp);
            sim::Quiet q;
            auto d = difference(got, expected);
            if (!d.empty()) sim::violation("result", "a model with functions written in Python differs from the one with the same functions in C++: " + d);
        };
        std::vector<std::thread> threads;
        for (std::size_t i = 1; i < size; ++i) threads.emplace_back([&] { Gil gil; work(); });
        work();
        { NoGil n; for (auto& t : threads) t.join(); }
        if ((python_errors != script.raised || size_errors != script.wrong)) {
            sim::Quiet q; sim::violation("error", S(python_errors) + " of " + S(script.raised) + " errors of Python functions and " + S(size_errors) + " of " + S(script.wrong) + " results of the wrong size were reported");
        }
        if (script.calls > 1) sim::nontrivial();
    }
    session.finish();
}
} // namespace
