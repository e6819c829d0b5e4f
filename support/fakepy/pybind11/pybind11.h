// Stand-in for pybind11 and the Python interpreter, for the simulation of cppmodule (neither can be installed
// here). Python objects are counted references to C++ values or functions; the interpreter lock is a mutex of
// the simulated process; everything which touches an object checks that the calling thread holds the lock.
#pragma once
#include <array>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include <Eigen/Core>

using Py_intptr_t = std::ptrdiff_t;

namespace pybind11 {

class handle; class object; class module;

// ---- the interpreter -----------------------------------------------------------------------------
namespace fake {

struct Object;
using Args = std::vector<object>;

// provided by the harness
void misuse(char const* what);                    // reports a violation
bool have_gil();                                  // does the calling thread hold the lock?
void take_gil();
void drop_gil();
void registered(Object*, bool alive);             // bookkeeping of living objects

inline void need_gil(char const* what) { if (!have_gil()) misuse(what); }

struct Object {
    long refs = 1;
    bool dead = false;
    enum Kind { None, Number, String, Tuple, Function, Instance } kind = None;
    double number = 0; std::string str; std::vector<object> items;
    std::vector<std::string> keys;      // a dictionary: the names of its items
    std::function<object(Args const&)> fn;
    std::shared_ptr<void> ptr; std::type_index type = typeid(void);
    std::string label;
    std::vector<object> keep_alive;
    Object(Kind k);
    void destroy();
};

using Upcast = void* (*)(void*);
inline std::map<std::pair<std::type_index, std::type_index>, Upcast>& upcasts() { static std::map<std::pair<std::type_index, std::type_index>, Upcast> m; return m; }

inline void* find_cast(std::type_index from, std::type_index to, void* p) {
    if (from == to) return p;
    for (auto& u : upcasts())
        if (u.first.first == from)
            if (auto r = find_cast(u.first.second, to, u.second(p))) return r;
    return nullptr;
}

} // namespace fake

namespace fake {
template<class T, class... A> struct all_same : std::true_type {};
template<class T, class X, class... A> struct all_same<T, X, A...> : std::integral_constant<bool, std::is_same<T, X>::value && all_same<T, A...>::value> {};
}

class cast_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };

class gil_scoped_acquire {
    bool nested;
public:
    gil_scoped_acquire() : nested(fake::have_gil()) { if (!nested) fake::take_gil(); }
    gil_scoped_acquire(gil_scoped_acquire const&) = delete;
    ~gil_scoped_acquire() { if (!nested) fake::drop_gil(); }
};
class gil_scoped_release {
public:
    gil_scoped_release() { fake::need_gil("released"); fake::drop_gil(); }
    gil_scoped_release(gil_scoped_release const&) = delete;
    ~gil_scoped_release() { fake::take_gil(); }
};
template<std::size_t Nurse, std::size_t Patient> struct keep_alive {};
struct is_operator {}; struct is_method { template<class... A> is_method(A const&...) {} }; struct doc { doc(char const*) {} }; struct dynamic_attr {};
template<class... T> struct call_guard { using type = std::tuple<>; };
template<class T> struct call_guard<T> { using type = T; };

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

template<class T> object cast(T&& v);
template<class T> object cast(T&& v, return_value_policy, handle parent = handle());

// ---- references ----------------------------------------------------------------------------------
class handle {
protected:
    fake::Object* p = nullptr;
public:
    handle() = default;
    handle(fake::Object* p) : p(p) {}
    fake::Object* ptr() const { return p; }
    handle const& inc_ref() const { if (p) { check("a reference was counted"); ++p->refs; } return *this; }
    handle const& dec_ref() const {
        if (p) {
            check("a reference was dropped");
            if (--p->refs == 0) p->destroy();
        }
        return *this;
    }
    void check(char const* what) const { fake::need_gil(what); if (p && p->dead) fake::misuse("a destroyed object was used"); }
    explicit operator bool() const { return p != nullptr; }
    bool is(handle o) const { return p == o.p; }
    bool is_none() const { return p && p->kind == fake::Object::None; }
    int ref_count() const { return static_cast<int>(p->refs); }
    template<class... A> object operator()(A&&... a) const;
    template<class K> object operator[](K const& k) const;
    object attr(char const* name) const;
    template<class T> T cast() const;
};

class object : public handle {
public:
    struct borrowed_t {}; struct stolen_t {};
    object() = default;
    object(handle h, borrowed_t) : handle(h) { inc_ref(); }
    object(handle h, stolen_t) : handle(h) {}
    object(handle h, bool borrowed) : handle(h) { if (borrowed) inc_ref(); }
    object(object const& o) : handle(o) { inc_ref(); }
    object(object&& o) noexcept { p = o.p; o.p = nullptr; }
    object& operator=(object const& o) { o.inc_ref(); auto* old = p; p = o.p; handle(old).dec_ref(); return *this; }
    object& operator=(object&& o) noexcept { if (this != &o) { handle old(p); p = o.p; o.p = nullptr; old.dec_ref(); } return *this; }
    ~object() { dec_ref(); }
    handle release() { handle h(p); p = nullptr; return h; }
    static object make(fake::Object::Kind k) { return object(handle(new fake::Object(k)), stolen_t{}); }
    template<class T> T cast() const& { return handle::cast<T>(); }
    template<class T> T cast() && { return handle::cast<T>(); }
};

template<class T> T reinterpret_borrow(handle h) { return T(h, object::borrowed_t{}); }
template<class T> T reinterpret_steal(handle h) { return T(h, object::stolen_t{}); }

class none : public object { public: none() : object(object::make(fake::Object::None)) {} };
class tuple : public object {
public:
    tuple() : object(object::make(fake::Object::Tuple)) {}
    template<class N, class = std::enable_if_t<std::is_integral<N>::value>> explicit tuple(N n) : tuple() { p->items.resize(static_cast<std::size_t>(n)); }
    tuple(handle h, borrowed_t b) : object(h, b) {}
    tuple(handle h, stolen_t b) : object(h, b) {}
    tuple(object const& o) : object(o) {}
    tuple(object&& o) : object(std::move(o)) {}
    std::size_t size() const { check("a tuple was read"); return p->items.size(); }
    bool empty() const { return size() == 0; }
    std::vector<object>::const_iterator begin() const { check("a tuple was read"); return p->items.begin(); }
    std::vector<object>::const_iterator end() const { return p->items.end(); }
    template<class T> void append(T&& v) { check("a list was changed"); auto o = pybind11::cast(std::forward<T>(v)); p->items.push_back(std::move(o)); }
};
using list = tuple;
using sequence = tuple;
class float_ : public object { public: using object::object; float_(double v) : object(object::make(fake::Object::Number)) { p->number = v; } operator double() const { check("a number was read"); return p->number; } };
class bool_ : public object { public: using object::object; bool_(bool v) : object(object::make(fake::Object::Number)) { p->number = v; } operator bool() const { check("a number was read"); return p->number != 0; } };
class str : public object {
public:
    using object::object;
    str(object const& o) : object(o) {}
    str(char const* s) : object(object::make(fake::Object::String)) { p->str = s; }
    str(std::string const& s) : object(object::make(fake::Object::String)) { p->str = s; }
    operator std::string() const { check("a string was read"); return p->str; }
};
class int_ : public object {
public:
    using object::object;
    int_(long long v) : object(object::make(fake::Object::Number)) { p->number = static_cast<double>(v); }
    template<class T, class = std::enable_if_t<std::is_integral<T>::value>> operator T() const { check("a number was read"); return static_cast<T>(p->number); }
};
class function : public object { public: using object::object; function() = default; function(object const& o) : object(o) {} function(object&& o) : object(std::move(o)) {} };
class args : public tuple { public: using tuple::tuple; };

inline std::size_t len(handle h) { h.check("len() was called"); return h.ptr()->kind == fake::Object::Tuple ? h.ptr()->items.size() : static_cast<std::size_t>(h.ptr()->number); }

inline std::vector<object>::const_iterator begin(object const& o) { o.check("a sequence was read"); return o.ptr()->items.begin(); }
inline std::vector<object>::const_iterator end(object const& o) { return o.ptr()->items.end(); }

class error_already_set : public std::runtime_error {
    object value;
public:
    error_already_set(object v, std::string const& what) : std::runtime_error(what), value(std::move(v)) {}
    error_already_set() : std::runtime_error("an error of Python") {}
    error_already_set(error_already_set const&) = default;
    error_already_set(error_already_set&& e) : std::runtime_error(e), value(std::move(e.value)) {}
    ~error_already_set() override { if (value) { gil_scoped_acquire gil; object drop = std::move(value); } }
    bool matches(handle) const { return true; }
    object const& get() const { return value; }
};
class builtin_exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class value_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class type_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class index_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class key_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
[[noreturn]] inline void pybind11_fail(char const* s) { throw std::runtime_error(s); }

namespace fake {
inline Object::Object(Kind k) : kind(k) { need_gil("an object was created"); registered(this, true); }
inline void Object::destroy() {     // the memory stays until the run ends, so that a later use is seen
    dead = true;
    registered(this, false);
    fn = nullptr; ptr.reset(); items.clear(); keep_alive.clear();
}
} // namespace fake

// ---- numpy arrays --------------------------------------------------------------------------------
namespace fake {
struct NdArray {
    std::type_index scalar = typeid(void); std::size_t item = 0;
    std::vector<std::ptrdiff_t> shape, strides;     // in bytes
    char* data = nullptr; bool writable = true;
    std::shared_ptr<void> memory;                   // none: it is a view of memory of another object
    std::size_t size() const { std::size_t n = 1; for (auto d : shape) n *= static_cast<std::size_t>(d); return n; }
    // the address of an element in C order
    char* at(std::size_t i) const { auto* p = data; for (std::size_t d = shape.size(); d-- > 0;) { auto n = static_cast<std::size_t>(shape[d]); p += static_cast<std::ptrdiff_t>(i % n) * strides[d]; i /= n; } return p; }
};
struct DescrTag {};
template<class F> bool visit_real(std::type_index t, F f) {
    if (t == typeid(float)) return f(static_cast<float*>(nullptr)), true;
    if (t == typeid(double)) return f(static_cast<double*>(nullptr)), true;
    if (t == typeid(bool)) return f(static_cast<bool*>(nullptr)), true;
    if (t == typeid(std::int32_t)) return f(static_cast<std::int32_t*>(nullptr)), true;
    if (t == typeid(std::int64_t)) return f(static_cast<std::int64_t*>(nullptr)), true;
    return false;
}
} // namespace fake

class array : public object { public: using object::object; array(object const& o) : object(o) {} array(object&& o) : object(std::move(o)) {} std::size_t size() const; enum { c_style = 1, f_style = 2, forcecast = 16 }; };
template<class T, int Flags = 16>
class array_t : public array {
public:
    array_t() : array(object::make(fake::Object::Instance)) { init(0, nullptr); }
    template<class N, class = std::enable_if_t<std::is_integral<N>::value>> explicit array_t(N n) : array(object::make(fake::Object::Instance)) { std::unique_ptr<T[]> zero(new T[static_cast<std::size_t>(n) + 1]()); init(static_cast<std::size_t>(n), zero.get()); }
    array_t(handle h, borrowed_t b) : array(h, b) {}
    array_t(handle h, stolen_t b) : array(h, b) {}
    array_t(object const& o) : array(object(o)) {}
    template<class N, class = std::enable_if_t<std::is_integral<N>::value>> array_t(N n, T const* d) : array(object::make(fake::Object::Instance)) { init(static_cast<std::size_t>(n), d); }
    fake::NdArray& nd() const { check("an array was read"); return *static_cast<fake::NdArray*>(p->ptr.get()); }
    std::size_t size() const { return nd().size(); }
    T const* data() const { return reinterpret_cast<T const*>(nd().data); }
    template<class... I> T const* data(std::ptrdiff_t i, I... more) const {
        auto const& a = nd();
        std::ptrdiff_t const index[] = {i, static_cast<std::ptrdiff_t>(more)...}; auto* at = a.data;
        for (std::size_t d = 0; d <= sizeof...(I); ++d) { if (d >= a.shape.size() || index[d] < 0 || index[d] >= a.shape[d]) throw std::out_of_range("index out of bounds"); at += index[d] * a.strides[d]; }
        return reinterpret_cast<T const*>(at);
    }
    template<std::size_t D> struct accessor { fake::NdArray const& a; template<class... I> T const& operator()(I... i) const { std::ptrdiff_t const index[] = {static_cast<std::ptrdiff_t>(i)...}; auto* at = a.data; for (std::size_t d = 0; d < D; ++d) at += index[d] * a.strides[d]; return *reinterpret_cast<T const*>(at); } std::ptrdiff_t shape(std::size_t d) const { return a.shape.at(d); } };
    template<std::size_t D> accessor<D> unchecked() const { if (nd().shape.size() != D) throw std::domain_error("array has incorrect number of dimensions"); return {nd()}; }
    T* mutable_data() { if (!nd().writable) throw std::domain_error("array is not writeable"); return reinterpret_cast<T*>(nd().data); }
    T const& at(std::ptrdiff_t i) const { return *data(i); }
    T& mutable_at(std::ptrdiff_t i) { mutable_data(); return const_cast<T&>(*data(i)); }
    std::size_t itemsize() const { return sizeof(T); }
    std::size_t nbytes() const { return size() * sizeof(T); }
    std::ptrdiff_t ndim() const { return static_cast<std::ptrdiff_t>(nd().shape.size()); }
    std::ptrdiff_t const* shape() const { return nd().shape.data(); }
    std::ptrdiff_t shape(std::size_t d) const { return nd().shape.at(d); }
    std::ptrdiff_t const* strides() const { return nd().strides.data(); }
    std::ptrdiff_t strides(std::size_t d) const { return nd().strides.at(d); }
    static bool contiguous(fake::NdArray const& a) { std::ptrdiff_t n = sizeof(T); for (std::size_t d = a.shape.size(); d-- > 0;) { if (a.shape[d] != 1 && a.strides[d] != n) return false; n *= a.shape[d]; } return true; }
    // an array of this type: the object itself, or converted
    static array_t ensure(handle h) {
        h.check("an array was read");
        auto* o = h.ptr();
        auto none = array_t(handle(), stolen_t{});
        if (o->kind == fake::Object::Number) { T v = from(o->number, std::is_arithmetic<T>()); auto a = array_t(std::size_t(1), &v); a.nd().shape.clear(); a.nd().strides.clear(); return a; }
        if (o->kind == fake::Object::Tuple) {
            std::vector<T> v;
            for (auto const& i : o->items) { if (i.ptr()->kind != fake::Object::Number) return none; v.push_back(from(i.ptr()->number, std::is_arithmetic<T>())); }
            std::unique_ptr<T[]> copy(new T[v.size() + 1]()); for (std::size_t i = 0; i < v.size(); ++i) copy[i] = v[i];
            return array_t(v.size(), copy.get());
        }
        if (o->kind != fake::Object::Instance || o->type != std::type_index(typeid(fake::NdArray))) return none;
        auto const& a = *static_cast<fake::NdArray*>(o->ptr.get());
        if (a.scalar == std::type_index(typeid(T)) && ((Flags & array::c_style) == 0 || contiguous(a))) return array_t(h, borrowed_t{});
        if (a.scalar == std::type_index(typeid(T))) {
            std::unique_ptr<T[]> copy(new T[a.size() + 1]()); for (std::size_t i = 0; i < a.size(); ++i) copy[i] = *reinterpret_cast<T const*>(a.at(i));
            auto r = array_t(a.size(), copy.get()); auto& c = r.nd(); c.shape = a.shape; c.strides = a.shape;
            std::ptrdiff_t n = sizeof(T); for (std::size_t d = c.shape.size(); d-- > 0;) { c.strides[d] = n; n *= c.shape[d]; }
            return r;
        }
        if (a.shape.size() != 1) return none;
        std::unique_ptr<T[]> copy(new T[a.size() + 1]());
        bool ok = fake::visit_real(a.scalar, [&](auto* s) { using S = std::remove_pointer_t<decltype(s)>; for (std::size_t i = 0; i < a.size(); ++i) copy[i] = from(static_cast<double>(*reinterpret_cast<S const*>(a.at(i))), std::is_arithmetic<T>()); });
        return ok ? array_t(a.size(), copy.get()) : none;
    }
private:
    static T from(double v, std::true_type) { return static_cast<T>(v); }
    static T from(double v, std::false_type) { return T(static_cast<typename T::value_type>(v)); }
    void init(std::size_t n, T const* d) {
        auto a = std::make_shared<fake::NdArray>();
        std::shared_ptr<T> memory(new T[n ? n : 1](), std::default_delete<T[]>());
        for (std::size_t i = 0; i < n; ++i) memory.get()[i] = d[i];
        a->scalar = typeid(T); a->item = sizeof(T); a->shape = {static_cast<std::ptrdiff_t>(n)}; a->strides = {static_cast<std::ptrdiff_t>(sizeof(T))};
        a->data = reinterpret_cast<char*>(memory.get()); a->memory = std::move(memory);
        p->ptr = std::move(a); p->type = typeid(fake::NdArray);
    }
};

namespace fake {
inline NdArray* array_of(handle h) { return h.ptr()->kind == Object::Instance && h.ptr()->type == std::type_index(typeid(NdArray)) ? static_cast<NdArray*>(h.ptr()->ptr.get()) : nullptr; }
}

// types of arrays, and what makes views of memory (cast.hpp)
inline std::size_t array::size() const { check("an array was read"); return static_cast<fake::NdArray*>(p->ptr.get())->size(); }
class dtype : public object {
public:
    using object::object;
    template<class T> static dtype of() { auto o = object::make(fake::Object::Instance); o.ptr()->type = typeid(fake::DescrTag); o.ptr()->ptr = std::make_shared<std::pair<std::type_index, std::size_t>>(typeid(T), sizeof(T)); return dtype(o.release(), stolen_t{}); }
};
namespace detail {
template<class T, class = void> struct type_caster {};
template<template<class...> class V> struct visit_helper;
template<class V> struct variant_caster;
template<class... T, template<class...> class V> struct variant_caster<V<T...>> {};
constexpr char const* _(char const* s) { return s; }
inline void keep_alive_impl(handle nurse, handle patient) {
    if (!nurse || !patient) throw std::runtime_error("Could not activate keep_alive!");
    if (patient.is_none() || nurse.is_none()) return;
    nurse.ptr()->keep_alive.push_back(reinterpret_borrow<object>(patient));
}
struct npy_api {
    static constexpr int NPY_ARRAY_C_CONTIGUOUS_ = 1, NPY_ARRAY_F_CONTIGUOUS_ = 2, NPY_ARRAY_ALIGNED_ = 0x100, NPY_ARRAY_WRITEABLE_ = 0x400;
    static fake::Object* new_array(void*, fake::Object* descr, int ndim, std::ptrdiff_t const* shape, std::ptrdiff_t const* strides, void* data, int flags, fake::Object* base) {
        auto type = reinterpret_steal<object>(handle(descr));
        auto const& t = *static_cast<std::pair<std::type_index, std::size_t>*>(type.ptr()->ptr.get());
        auto a = std::make_shared<fake::NdArray>();
        a->scalar = t.first; a->item = t.second; a->data = static_cast<char*>(data); a->writable = (flags & NPY_ARRAY_WRITEABLE_) != 0;
        a->shape.assign(shape, shape + ndim); a->strides.resize(static_cast<std::size_t>(ndim));
        auto step = static_cast<std::ptrdiff_t>(t.second); bool const f = flags & NPY_ARRAY_F_CONTIGUOUS_;
        for (int i = 0; i < ndim; ++i) { auto d = static_cast<std::size_t>(f ? i : ndim - 1 - i); a->strides[d] = strides ? strides[d] : step; step *= shape[d]; }
        if (!data) { a->memory = std::shared_ptr<char>(new char[a->size() * a->item + 1](), std::default_delete<char[]>()); a->data = static_cast<char*>(a->memory.get()); a->writable = true; }
        auto o = object::make(fake::Object::Instance);
        o.ptr()->type = typeid(fake::NdArray); o.ptr()->ptr = std::move(a);
        if (base) o.ptr()->keep_alive.push_back(reinterpret_steal<object>(handle(base)));
        return o.release().ptr();
    }
    decltype(&new_array) PyArray_NewFromDescr_ = &new_array; void* PyArray_Type_ = nullptr;
    static npy_api& get() { static npy_api a; return a; }
};
} // namespace detail

template<class T> struct is_instance_of { static bool check(handle h) { return h.ptr()->kind == fake::Object::Instance && fake::find_cast(h.ptr()->type, typeid(T), h.ptr()->ptr.get()); } };
template<class T, int F> struct is_instance_of<array_t<T, F>> { static bool check(handle h) { auto* a = fake::array_of(h); return a && a->scalar == std::type_index(typeid(T)); } };
template<> struct is_instance_of<tuple> { static bool check(handle h) { return h.ptr()->kind == fake::Object::Tuple; } };
template<class T> bool isinstance(handle h) { h.check("isinstance() was called"); return is_instance_of<T>::check(h); }

// ---- C++ values to Python ------------------------------------------------------------------------
namespace fake {

template<class T> struct is_std_function : std::false_type {};
template<class R, class... A> struct is_std_function<std::function<R(A...)>> : std::true_type {};
template<class T> struct is_shared_ptr : std::false_type {};
template<class T> struct is_shared_ptr<std::shared_ptr<T>> : std::true_type {};
template<class T> using plain = std::remove_cv_t<std::remove_reference_t<T>>;
template<class T> using is_eigen = std::is_base_of<Eigen::DenseBase<T>, T>;

template<class T> object instance(std::shared_ptr<T> v) {
    auto o = object::make(Object::Instance);
    o.ptr()->type = typeid(std::remove_cv_t<T>);
    o.ptr()->ptr = std::const_pointer_cast<std::remove_cv_t<T>>(std::move(v));
    return o;
}
template<class T> object unowned(T const* v) { return instance(std::shared_ptr<T>(const_cast<T*>(v), [](T*) {})); }

template<class T, class = void>
struct to {     // any other class: a copy
    template<class U> static object make(U&& v) { return instance(std::make_shared<T>(std::forward<U>(v))); }
};
template<class T> struct to<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
    static object make(handle v) { return v.ptr() ? reinterpret_borrow<object>(v) : object(none()); }
};
template<class T> struct to<T, std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value>> {
    static object make(T v) { auto o = object::make(Object::Number); o.ptr()->number = static_cast<double>(v); return o; }
};
// integers of another name (SiteID, ...)
template<class T, class = void> struct int_like : std::false_type {};
template<class T> struct int_like<T, std::enable_if_t<std::is_class<T>::value && !is_eigen<T>::value && std::is_integral<plain<decltype(std::declval<T const&>().value())>>::value && std::is_constructible<T, decltype(std::declval<T const&>().value())>::value>> : std::true_type {};
template<class T> struct to<T, std::enable_if_t<int_like<T>::value>> {
    static object make(T const& v) { auto o = object::make(Object::Number); o.ptr()->number = static_cast<double>(v.value()); return o; }
};
template<> struct to<std::string> { static object make(std::string const& v) { auto o = object::make(Object::String); o.ptr()->str = v; return o; } };
template<> struct to<char const*> { static object make(char const* v) { return to<std::string>::make(v); } };
template<> struct to<char*> { static object make(char const* v) { return to<std::string>::make(v); } };
template<> struct to<std::nullptr_t> { static object make(std::nullptr_t) { return none(); } };
template<class T> struct to<std::shared_ptr<T>> { static object make(std::shared_ptr<T> v) { return instance(std::move(v)); } };
template<class T> struct to<T*, std::enable_if_t<std::is_class<T>::value>> { static object make(T* v) { return unowned<std::remove_cv_t<T>>(v); } };
template<class T> struct to<T, std::enable_if_t<is_eigen<T>::value>> {
    using Plain = typename T::PlainObject;
    template<class U> static object make(U const& v) { return instance(std::make_shared<Plain>(v)); }
};
template<class A, class B> struct to<std::pair<A, B>> {
    static object make(std::pair<A, B> const& v) { tuple t; t.ptr()->items.push_back(to<plain<A>>::make(v.first)); t.ptr()->items.push_back(to<plain<B>>::make(v.second)); return object(std::move(t)); }
};
template<std::size_t N> struct to<char[N]> { static object make(char const* v) { return to<std::string>::make(v); } };

// ---- Python values to C++ ------------------------------------------------------------------------
// A holder is filled while the lock is held; its get() is what the function is called with
template<class T> T* pointer_of(handle h) {
    h.check("an object was converted to C++");
    if (h.ptr()->kind != Object::Instance) throw cast_error("not an instance");
    auto* r = find_cast(h.ptr()->type, typeid(T), h.ptr()->ptr.get());
    if (!r) throw cast_error(std::string("instance of another class: ") + h.ptr()->type.name() + " is no " + typeid(T).name());
    return static_cast<T*>(r);
}
inline double number_of(handle h) {
    h.check("an object was converted to C++");
    if (h.ptr()->kind != Object::Number) throw cast_error("not a number");
    return h.ptr()->number;
}

template<class T, class = void>
struct holder {     // class by value, reference or const reference
    plain<T>* v;
    void load(handle h) { v = pointer_of<plain<T>>(h); }
    plain<T>& get() { return *v; }
};
template<class T> struct holder<T*, std::enable_if_t<std::is_class<T>::value>> {
    T* v;
    void load(handle h) { v = h.is_none() ? nullptr : pointer_of<std::remove_cv_t<T>>(h); }
    T* get() { return v; }
};
template<class T> struct holder<T, std::enable_if_t<std::is_base_of<handle, plain<T>>::value>> {
    plain<T> v;
    void load(handle h) { h.check("an object was passed on"); v = reinterpret_borrow<plain<T>>(h); }
    plain<T>&& get() { return std::move(v); }
};
template<class T> struct holder<T, std::enable_if_t<std::is_arithmetic<plain<T>>::value>> {
    plain<T> v;
    void load(handle h) { v = static_cast<plain<T>>(number_of(h)); }
    plain<T>& get() { return v; }
};
template<class T> struct holder<T, std::enable_if_t<int_like<plain<T>>::value>> {
    plain<T> v{0};
    void load(handle h) { v = plain<T>(static_cast<plain<decltype(std::declval<plain<T> const&>().value())>>(number_of(h))); }
    plain<T>& get() { return v; }
};
template<class T> struct holder<T, std::enable_if_t<std::is_same<plain<T>, std::string>::value>> {
    std::string v;
    void load(handle h) { h.check("a string was read"); if (h.ptr()->kind != Object::String) throw cast_error("not a string"); v = h.ptr()->str; }
    std::string&& get() { return std::move(v); }
};
template<class T> struct holder<T, std::enable_if_t<!std::is_same<plain<T>, std::string>::value && std::is_class<plain<T>>::value && std::is_convertible<std::string, plain<T>>::value
                                                    && !std::is_base_of<handle, plain<T>>::value && !is_std_function<plain<T>>::value>> {    // string_view
    std::string v;
    void load(handle h) { h.check("a string was read"); if (h.ptr()->kind != Object::String) throw cast_error("not a string"); v = h.ptr()->str; }
    plain<T> get() { return plain<T>(v); }
};
template<class A, class B> struct holder<std::pair<A, B>> {
    holder<plain<A>> a; holder<plain<B>> b; 
    void load(handle h) { h.check("a tuple was read"); if (h.ptr()->kind != Object::Tuple || h.ptr()->items.size() != 2) throw cast_error("not a pair"); a.load(h.ptr()->items[0]); b.load(h.ptr()->items[1]); }
    std::pair<A, B> get() { return {a.get(), b.get()}; }
};
template<class T> struct holder<std::shared_ptr<T>> {
    std::shared_ptr<T> v;
    void load(handle h) { auto* q = pointer_of<std::remove_cv_t<T>>(h); v = std::shared_ptr<T>(h.ptr()->ptr, q); }
    std::shared_ptr<T>&& get() { return std::move(v); }
};
// vectors which cast.hpp converts
template<class T, class = void> struct has_load : std::false_type {};
template<class T> struct has_load<T, std::enable_if_t<is_eigen<T>::value && std::is_same<bool, decltype(std::declval<::pybind11::detail::type_caster<T>&>().load(handle(), true))>::value>> : std::true_type {};
template<class T> struct holder<T, std::enable_if_t<has_load<plain<T>>::value>> {
    ::pybind11::detail::type_caster<plain<T>> v;
    void load(handle h) { h.check("an array was read"); if (!v.load(h, true)) throw cast_error("not a vector"); }
    plain<T>& get() { return v.value; }
};
template<class T> struct holder<T, std::enable_if_t<is_eigen<plain<T>>::value && !has_load<plain<T>>::value>> {     // any vector of the right scalar type, a copy
    using Scalar = typename plain<T>::Scalar;
    using Plain = typename plain<T>::PlainObject;
    Plain* v; Plain copy;
    void load(handle h) {
        h.check("an array was read");
        auto* a = fake::array_of(h);
        if (!a) { v = pointer_of<Plain>(h); return; }
        if (a->scalar != std::type_index(typeid(Scalar)) || a->shape.size() != 1) throw cast_error("an array of another type");
        copy = assign<Plain>(*a, std::integral_constant<bool, Plain::SizeAtCompileTime != Eigen::Dynamic>());
        v = &copy;
    }
    static Scalar item(NdArray const& a, std::size_t i) { return *reinterpret_cast<Scalar const*>(a.at(i)); }
    template<class P> static P assign(NdArray const& a, std::true_type) { P p = P::Zero(); for (std::size_t i = 0; i < a.size() && i < static_cast<std::size_t>(p.size()); ++i) p(static_cast<Eigen::Index>(i)) = item(a, i); return p; }
    template<class P> static P assign(NdArray const& a, std::false_type) { P p; p.resize(static_cast<Eigen::Index>(a.size()), 1); for (std::size_t i = 0; i < a.size(); ++i) p(static_cast<Eigen::Index>(i)) = item(a, i); return p; }
    plain<T> get() { return plain<T>(*v); }
};
template<class R> struct function_result { static R of(object&& o) { return std::move(o).template cast<R>(); } };
template<> struct function_result<void> { static void of(object&&) {} };
template<class R, class... A> struct holder<std::function<R(A...)>> {     // functional.h
    std::function<R(A...)> v;
    void load(handle h) {
        h.check("a function was converted to C++");
        v = nullptr;
        if (h.is_none()) return;
        if (h.ptr()->kind != Object::Function) throw cast_error("not a function");
        auto func = reinterpret_borrow<function>(h);
        v = [func](A... a) -> R {
            gil_scoped_acquire gil;
            object retval(func(std::forward<A>(a)...));
            return function_result<R>::of(std::move(retval));
        };
    }
    std::function<R(A...)>&& get() { return std::move(v); }
};

} // namespace fake

// casters of cast.hpp: views of memory of the parent, and short vectors
namespace fake {
template<class T> std::integral_constant<bool, !int_like<T>::value> test_caster(decltype(::pybind11::detail::type_caster<T>::cast(std::declval<T const&>(), return_value_policy::automatic, handle()))*);
template<class T> std::false_type test_caster(...);
template<class T> struct has_caster : decltype(test_caster<T>(nullptr)) {};
template<class T> object cast_with(T const& v, return_value_policy how, handle parent, std::true_type) { return reinterpret_steal<object>(::pybind11::detail::type_caster<T>::cast(v, how, parent)); }
template<class T, class V> object cast_plain(V&& v, std::true_type) { return cast_with<T>(v, return_value_policy::automatic_reference, handle(), std::true_type()); }
template<class T, class V> object cast_plain(V&& v, std::false_type) { return to<T>::make(std::forward<V>(v)); }
template<class T, class V> object cast_parent(V&& v, return_value_policy how, handle parent, std::true_type) { return cast_with<T>(v, how, parent, std::true_type()); }
template<class T, class V> object cast_parent(V&& v, return_value_policy, handle parent, std::false_type) { auto o = to<T>::make(std::forward<V>(v)); if (parent) o.ptr()->keep_alive.push_back(reinterpret_borrow<object>(parent)); return o; }
}
template<class T> object cast(T&& v) { fake::need_gil("an object was created"); return fake::cast_plain<fake::plain<T>>(std::forward<T>(v), typename fake::has_caster<fake::plain<T>>::type()); }
template<class T> object cast(T&& v, return_value_policy how, handle parent) { fake::need_gil("an object was created"); return fake::cast_parent<fake::plain<T>>(std::forward<T>(v), how, parent, typename fake::has_caster<fake::plain<T>>::type()); }
template<class T> T cast(handle h) { return h.cast<T>(); }

namespace fake {
template<class T, class = void> struct cast_to { static T of(handle h) { holder<plain<T>> x; x.load(h); return static_cast<T>(x.get()); } };
template<> struct cast_to<void> { static void of(handle) {} };
}
template<class T> T handle::cast() const { return fake::cast_to<T>::of(*this); }

template<class... A> object handle::operator()(A&&... a) const {
    check("a Python function was called");
    fake::Args v;
    int dummy[] = {0, (v.push_back(pybind11::cast(std::forward<A>(a))), 0)...};
    (void)dummy;
    if (p->kind != fake::Object::Function) throw cast_error("not callable: " + p->label);
    object keep = reinterpret_borrow<object>(*this);
    return p->fn(v);
}
template<class K> object handle::operator[](K const& k) const {
    check("an item was read");
    auto key = pybind11::cast(k);
    if (p->kind == fake::Object::Function) return (*this)(key);     // an object with __getitem__
    if (p->kind != fake::Object::Tuple) throw cast_error("no items");
    return p->items.at(static_cast<std::size_t>(key.ptr()->number));
}

template<return_value_policy = return_value_policy::automatic, class... A> tuple make_tuple(A&&... a) {
    tuple t;
    int dummy[] = {0, (t.ptr()->items.push_back(cast(std::forward<A>(a))), 0)...};
    (void)dummy;
    return t;
}

// dictionaries with names as keys
struct arg_v;
class dict : public object {
public:
    dict() : object(object::make(fake::Object::Tuple)) {}
    dict(handle h, borrowed_t b) : object(h, b) {}
    dict(handle h, stolen_t b) : object(h, b) {}
    template<class... A, class = std::enable_if_t<(sizeof...(A) > 0) && fake::all_same<arg_v, A...>::value>>
    explicit dict(A const&... a) : object(object::make(fake::Object::Tuple)) { int dummy[] = {0, (put(a.name, a.value), 0)...}; (void)dummy; }
    dict(object const& o) : object(o) {}
    dict(object&& o) : object(std::move(o)) {}
    std::size_t size() const { check("a dictionary was read"); return p->items.size(); }
    bool contains(std::string const& name) const { check("a dictionary was read"); return find(name) < p->items.size(); }
    struct item {
        dict const& d; std::string name;
        operator object() const { return d.get(name); }
        template<class T> T cast() const { return d.get(name).template cast<T>(); }
        template<class V> item const& operator=(V&& v) const { const_cast<dict&>(d).put(name, pybind11::cast(std::forward<V>(v))); return *this; }
    };
    item operator[](std::string const& name) const { return {*this, name}; }
    object get(std::string const& name) const {
        check("a dictionary was read");
        auto i = find(name);
        if (i == p->items.size()) throw std::out_of_range("KeyError: " + name);
        return p->items[i];
    }
    void put(std::string const& name, object value) {
        check("a dictionary was changed");
        auto i = find(name);
        if (i < p->items.size()) { p->items[i] = std::move(value); return; }
        p->items.push_back(std::move(value)); p->keys.push_back(name);
    }
private:
    std::size_t find(std::string const& name) const { std::size_t i = 0; while (i < p->keys.size() && p->keys[i] != name) ++i; return i; }
};

#define PYBIND11_TYPE_CASTER(T, n) T value; static constexpr auto name = n; operator T&() { return value; }

// ---- binding -------------------------------------------------------------------------------------
struct arg { char const* name; explicit arg(char const* n) : name(n) {} template<class T> struct arg_v_t; template<class T> auto operator=(T&& v) const; };
struct arg_v { char const* name; object value; };
template<class T> auto arg::operator=(T&& v) const { return arg_v{name, pybind11::cast(std::forward<T>(v))}; }
namespace literals { inline arg operator"" _a(char const* s, std::size_t) { return arg(s); } }

namespace fake {

template<class F> struct signature : signature<decltype(&F::operator())> {};
template<class R, class... A> struct signature<R (*)(A...)> { using ret = R; using args = std::tuple<A...>; };
template<class R, class... A> struct signature<R (A...)> { using ret = R; using args = std::tuple<A...>; };
template<class C, class R, class... A> struct signature<R (C::*)(A...)> { using ret = R; using args = std::tuple<A...>; };
template<class C, class R, class... A> struct signature<R (C::*)(A...) const> { using ret = R; using args = std::tuple<A...>; };

template<class... E> struct find_guard { using type = std::tuple<>; };
template<class G, class... E> struct find_guard<call_guard<G>, E...> { using type = G; };
template<class X, class... E> struct find_guard<X, E...> : find_guard<E...> {};

template<class X> void collect_default(std::vector<object>&, X const&) {}
inline void collect_default(std::vector<object>& d, arg_v const& a) { d.push_back(a.value); }
template<class... E> void collect_defaults(std::vector<object>& d, E const&... e) { int dummy[] = {0, (collect_default(d, e), 0)...}; (void)dummy; }

inline object keep(object o, handle parent) { if (parent && parent.ptr()->kind == Object::Instance) o.ptr()->keep_alive.push_back(reinterpret_borrow<object>(parent)); return o; }
template<class T> struct is_container : std::false_type {};     // classes which pybind11 converts to lists, dicts, ...
template<class... A> struct is_container<std::vector<A...>> : std::true_type {};
template<class... A> struct is_container<std::map<A...>> : std::true_type {};
template<class... A> struct is_container<std::unordered_map<A...>> : std::true_type {};
template<class... A> struct is_container<std::pair<A...>> : std::true_type {};
template<class... A> struct is_container<std::tuple<A...>> : std::true_type {};
template<> struct is_container<std::string> : std::true_type {};
template<class T> struct is_container<std::shared_ptr<T>> : std::true_type {};
template<class T, class = void> struct is_fixed_size : std::false_type {};
template<class T> struct is_fixed_size<T, std::enable_if_t<is_eigen<T>::value>> : std::integral_constant<bool, T::SizeAtCompileTime != Eigen::Dynamic> {};
template<class R, class = void> struct result {
    template<class U> static object make(U&& v, return_value_policy how, handle parent) { return make(std::forward<U>(v), how, parent, typename has_caster<plain<R>>::type()); }
    template<class U> static object make(U&& v, return_value_policy how, handle parent, std::true_type) { return cast_with<plain<R>>(v, how, parent, std::true_type()); }
    template<class U> static object make(U&& v, return_value_policy, handle, std::false_type) { return cast(std::forward<U>(v)); }
};
// references: into what belongs to the parent
template<class T> struct result<T&, std::enable_if_t<std::is_class<plain<T>>::value && !is_container<plain<T>>::value && !is_fixed_size<plain<T>>::value && !has_caster<plain<T>>::value && !std::is_base_of<handle, plain<T>>::value>> {
    static object make(T& v, return_value_policy how, handle parent) {
        if (how == return_value_policy::reference_internal) return keep(unowned<plain<T>>(&v), parent);
        if (how == return_value_policy::reference) return unowned<plain<T>>(&v);
        if (how == return_value_policy::take_ownership) return instance(std::shared_ptr<plain<T>>(const_cast<plain<T>*>(&v)));
        return copy(v, std::is_copy_constructible<plain<T>>());
    }
    static object copy(T& v, std::true_type) { return cast(plain<T>(v)); }
    static object copy(T&, std::false_type) { throw cast_error("cannot be copied"); }
};
template<class T> struct result<T*, std::enable_if_t<std::is_class<T>::value>> {
    static object make(T* v, return_value_policy how, handle parent) {
        if (!v) return none();
        if (how == return_value_policy::automatic) how = return_value_policy::take_ownership;
        return result<T&>::make(*v, how, parent);
    }
};

struct Overload { std::function<object(Args const&)> fn; };
struct internal {};     // def_property and the like: references are kept as references
using Methods = std::map<std::string, std::vector<Overload>>;
inline std::map<std::type_index, Methods>& classes() { static std::map<std::type_index, Methods> m; return m; }
inline std::map<std::type_index, std::vector<std::type_index>>& bases() { static std::map<std::type_index, std::vector<std::type_index>> m; return m; }
inline std::map<std::string, std::type_index>& class_names() { static std::map<std::string, std::type_index> m; return m; }
inline Methods& functions() { static Methods m; return m; }

struct no_match { std::string why; };
template<class H> void load_argument(H& h, handle a) { try { h.load(a); } catch (cast_error const& e) { throw no_match{e.what()}; } }

template<class Guard, class R, class F, class... A, std::size_t... I>
std::enable_if_t<!std::is_void<R>::value, object> invoke(F& f, Args const& a, return_value_policy how, std::tuple<A...>*, std::index_sequence<I...>) {
    std::tuple<holder<plain<A>>...> h;
    int dummy[] = {0, (load_argument(std::get<I>(h), a[I]), 0)...};
    (void)dummy; (void)a;
    auto inner = [&]() -> R { Guard guard; (void)guard; return f(std::get<I>(h).get()...); };
    return result<R>::make(inner(), how, a.empty() ? handle() : handle(a[0]));
}
template<class Guard, class R, class F, class... A, std::size_t... I>
std::enable_if_t<std::is_void<R>::value, object> invoke(F& f, Args const& a, return_value_policy how, std::tuple<A...>*, std::index_sequence<I...>) {
    std::tuple<holder<plain<A>>...> h;
    int dummy[] = {0, (load_argument(std::get<I>(h), a[I]), 0)...};
    (void)dummy; (void)a;
    { Guard guard; (void)guard; f(std::get<I>(h).get()...); }
    return none();
}

// what the extra arguments of a definition ask for
inline void collect_extra(return_value_policy& how, std::vector<std::pair<std::size_t, std::size_t>>&, return_value_policy const& x) { how = x; }
inline void collect_extra(return_value_policy& how, std::vector<std::pair<std::size_t, std::size_t>>&, internal const&) { how = return_value_policy::reference_internal; }
template<std::size_t N, std::size_t P> void collect_extra(return_value_policy&, std::vector<std::pair<std::size_t, std::size_t>>& alive, keep_alive<N, P> const&) { alive.emplace_back(N, P); }
template<class X> void collect_extra(return_value_policy&, std::vector<std::pair<std::size_t, std::size_t>>&, X const&) {}

template<class R, class ArgTuple, class F, class... E> Overload overload(F f, E const&... e) {
    std::vector<object> defaults;
    collect_defaults(defaults, e...);
    using Guard = typename find_guard<E...>::type;
    constexpr auto n = std::tuple_size<ArgTuple>::value;
    // defaults belong to the module and live as long as the process
    auto* d = new std::vector<object>(std::move(defaults));
    auto how = return_value_policy::automatic;
    std::vector<std::pair<std::size_t, std::size_t>> alive;
    int dummy[] = {0, (collect_extra(how, alive, e), 0)...};
    (void)dummy;
    return {[f, d, how, alive](Args const& given) mutable -> object {
        need_gil("a function of the module was called");
        Args a = given;
        if (a.size() > n || a.size() + d->size() < n) throw no_match{"wrong number of arguments"};
        while (a.size() < n) a.push_back((*d)[d->size() - (n - a.size())]);
        auto r = invoke<Guard, R>(f, a, how, static_cast<ArgTuple*>(nullptr), std::make_index_sequence<n>{});
        for (auto& x : alive) {
            auto at = [&](std::size_t i) { return i == 0 ? handle(r) : i <= a.size() ? handle(a[i - 1]) : handle(); };
            auto nurse = at(x.first), patient = at(x.second);
            if (nurse && patient && nurse.ptr()->kind == Object::Instance) nurse.ptr()->keep_alive.push_back(reinterpret_borrow<object>(patient));
        }
        return r;
    }};
}
template<class F, class... E> Overload from_function(F&& f, E const&... e) { using S = signature<std::decay_t<F>>; return overload<typename S::ret, typename S::args>(std::decay_t<F>(std::forward<F>(f)), e...); }

template<class Self, class R, class... A> auto self_first(R (*f)(Self, A...)) { return f; }

inline object run(std::vector<Overload> const& v, Args const& a, std::string const& what) {
    std::string why;
    for (auto& o : v) {
        try { return o.fn(a); }
        catch (no_match const& e) { why += " / " + e.why; }
    }
    throw std::logic_error("no overload of " + what + why);
}
inline object call(std::string const& name, Args const& a) {
    auto i = functions().find(name);
    if (i == functions().end()) throw std::logic_error("no function " + name);
    return run(i->second, a, name);
}
inline std::vector<Overload>* find_method(std::type_index t, std::string const& name) {
    auto c = classes().find(t);
    if (c != classes().end()) { auto m = c->second.find(name); if (m != c->second.end()) return &m->second; }
    for (auto b : bases()[t]) if (auto m = find_method(b, name)) return m;
    return nullptr;
}
inline object method(object const& self, std::string const& name, Args a = {}) {
    self.check("a method was called");
    auto m = find_method(self.ptr()->type, name);
    if (!m) throw std::logic_error(std::string("no method ") + name + " of " + self.ptr()->type.name());
    a.insert(a.begin(), self);
    return run(*m, a, name);
}
inline object construct(std::string const& cls, Args const& a) {
    auto i = class_names().find(cls);
    if (i == class_names().end()) throw std::logic_error("no class " + cls);
    return run(classes()[i->second]["__init__"], a, cls);
}

// what pickle does: the state of an object, and a new object of the class from a state
inline bool can_pickle(std::type_index t) { auto c = classes().find(t); return c != classes().end() && c->second.count("__setstate__"); }
inline object getstate(object const& self) { return method(self, "__getstate__"); }
inline object setstate(std::type_index t, object const& state) { return run(classes()[t]["__setstate__"], {state}, "__setstate__"); }

} // namespace fake

object fake_array_attr(object const& array, std::string const& name);     // of views of memory (cast.hpp): provided by the harness; null: there is none
inline object handle::attr(char const* name) const {
    check("an attribute was read");
    if (p->kind == fake::Object::Instance) if (auto a = fake_array_attr(reinterpret_borrow<object>(*this), name)) return a;
    if (p->kind == fake::Object::Instance && fake::find_method(p->type, name)) return fake::method(reinterpret_borrow<object>(*this), name);
    throw cast_error(std::string("no attribute ") + name);
}

inline bool hasattr(handle o, char const* name) { try { o.attr(name); return true; } catch (cast_error const&) { return false; } }
inline object getattr(handle o, char const* name) { return o.attr(name); }
inline object getattr(handle o, char const* name, object const& other) { try { return o.attr(name); } catch (cast_error const&) { return other; } }

// what modules of Python code contain: provided by the harness
object fake_import(std::string const& module, std::string const& name);
struct imported { std::string name; object attr(char const* n) const { fake::need_gil("a module was imported"); return fake_import(name, n); } };

class module : public object {
public:
    module() = default;
    static imported import(char const* name) { return {name}; }
    template<class F, class... E> module& def(char const* name, F&& f, E const&... e) { fake::functions()[name].push_back(fake::from_function(std::forward<F>(f), e...)); return *this; }
};
using module_ = module;

template<class G, class S> struct pickle_factory { G get; S set; };
template<class G, class S> pickle_factory<G, S> pickle(G g, S s) { return {std::move(g), std::move(s)}; }
template<class... A> struct init_args {};
template<class F> struct init_factory { F f; };
template<class... A> init_args<A...> init() { return {}; }
template<class F> init_factory<std::decay_t<F>> init(F&& f) { return {std::forward<F>(f)}; }
template<class F> struct init_factory_of { using type = F; };

template<class T, class... Options>
class class_ : public object {
    fake::Methods& methods() { return fake::classes()[typeid(T)]; }
    template<class B> static std::enable_if_t<std::is_base_of<B, T>::value && !std::is_same<B, T>::value> base() {
        fake::upcasts()[{typeid(T), typeid(B)}] = [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); };
        fake::bases()[typeid(T)].push_back(typeid(B));
    }
    template<class B> static std::enable_if_t<!(std::is_base_of<B, T>::value && !std::is_same<B, T>::value)> base() {}

    template<class R, class C, class... A, class... E> fake::Overload member(R (C::*f)(A...), E const&... e) {
        return fake::overload<R, std::tuple<T&, A...>>([f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, e...);
    }
    template<class R, class C, class... A, class... E> fake::Overload member(R (C::*f)(A...) const, E const&... e) {
        return fake::overload<R, std::tuple<T const&, A...>>([f](T const& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, e...);
    }
    template<class F, class... E> std::enable_if_t<std::is_member_function_pointer<std::decay_t<F>>::value, fake::Overload> make(F f, E const&... e) { return member(f, e...); }
    template<class F, class... E> std::enable_if_t<!std::is_member_function_pointer<std::decay_t<F>>::value, fake::Overload> make(F&& f, E const&... e) { return fake::from_function(std::forward<F>(f), e...); }
public:
    template<class... E> class_(module&, char const* name, E const&...) {
        fake::class_names().insert({name, typeid(T)});
        methods();
        int dummy[] = {0, (base<Options>(), 0)...};
        (void)dummy;
    }
    template<class F, class... E> class_& def(char const* name, F&& f, E const&... e) { methods()[name].push_back(make(std::forward<F>(f), e...)); return *this; }
    template<class... A, class... E> class_& def(init_args<A...>, E const&... e) {
        methods()["__init__"].push_back(fake::overload<std::shared_ptr<T>, std::tuple<A...>>([](A... a) { return std::shared_ptr<T>(new T(std::forward<A>(a)...)); }, e...));
        return *this;
    }
    template<class F, class... E> class_& def(init_factory<F> i, E const&... e) { add_factory(i.f, static_cast<typename fake::signature<F>::args*>(nullptr), e...); return *this; }
    template<class G, class S, class... E> class_& def(pickle_factory<G, S> p, E const&... e) {
        methods()["__getstate__"].push_back(fake::from_function(std::move(p.get), e...));
        add_setstate(std::move(p.set), static_cast<typename fake::signature<S>::args*>(nullptr), e...);
        return *this;
    }
    template<class F, class... A, class... E> void add_setstate(F f, std::tuple<A...>*, E const&... e) {
        methods()["__setstate__"].push_back(fake::overload<std::shared_ptr<T>, std::tuple<A...>>([f](A... a) mutable { return owned(f(std::forward<A>(a)...)); }, e...));
    }
    static std::shared_ptr<T> owned(T* p) { return std::shared_ptr<T>(p); }
    static std::shared_ptr<T> owned(T v) { return std::make_shared<T>(std::move(v)); }
    template<class U> static std::shared_ptr<T> owned(std::unique_ptr<U> p) { return std::shared_ptr<T>(std::move(p)); }
    template<class U> static std::shared_ptr<T> owned(std::shared_ptr<U> p) { return p; }
    template<class F, class... A, class... E> void add_factory(F f, std::tuple<A...>*, E const&... e) {
        methods()["__init__"].push_back(fake::overload<std::shared_ptr<T>, std::tuple<A...>>([f](A... a) mutable { return std::shared_ptr<T>(f(std::forward<A>(a)...)); }, e...));
    }
    template<class F, class... E> class_& def_property_readonly(char const* name, F&& f, E const&... e) { return def(name, std::forward<F>(f), fake::internal{}, e...); }
    template<class F, class G, class... E> class_& def_property(char const* name, F&& get, G&& set, E const&... e) { def(name, std::forward<F>(get), fake::internal{}, e...); return def((std::string("set_") + name).c_str(), std::forward<G>(set)); }
    template<class M, class C, class... E> class_& def_readonly(char const* name, M C::*m, E const&... e) { return def(name, [m](T const& self) -> M const& { return self.*m; }, fake::internal{}, e...); }
    template<class M, class C, class... E> class_& def_readwrite(char const* name, M C::*m, E const&...) { def_readonly(name, m); return def((std::string("set_") + name).c_str(), [m](T& self, M const& v) { self.*m = v; }); }
    template<class F, class... E> class_& def_static(char const* name, F&& f, E const&... e) { methods()[name].push_back(fake::from_function(std::forward<F>(f), e...)); return *this; }
};

} // namespace pybind11
using PyObject = pybind11::fake::Object;
inline int PyGILState_Check() { return pybind11::fake::have_gil(); }
inline void PyErr_Clear() {}
