// Stand-in for pybind11 and xtensor-python: compiles the Python bindings of the library (/repo/python)
// without Python, and calls them as the interpreter would: by position and by keyword, with overload
// resolution in two passes (without and with conversion), default arguments, base classes, properties, and
// NumPy arrays that are modified in place.
#pragma once
#include <array>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

#include <Eigen/Eigen>
#include <xtensor/xarray.hpp>
#include <xtensor/xtensor.hpp>

namespace xt {

template <class T, std::size_t N, layout_type L = layout_type::row_major>
using pytensor = xtensor<T, N>;

template <class T, layout_type L = layout_type::row_major>
using pyarray = xarray<T>;

inline void import_numpy()
{
}

} // namespace xt

namespace pybind11 {

struct TypeError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct AttributeError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

enum class DType { Float64, Int64, UInt64, Int32, Bool };

template <class T>
constexpr DType dtype()
{
    if (std::is_same<T, bool>::value) {
        return DType::Bool;
    }
    if (std::is_floating_point<T>::value) {
        return DType::Float64;
    }
    if (std::is_signed<T>::value) {
        return sizeof(T) == 4 ? DType::Int32 : DType::Int64;
    }
    return DType::UInt64;
}

// Python's values
struct Array {
    DType type = DType::Float64;
    std::vector<size_t> shape;
    std::vector<double> f; // Float64
    std::vector<long long> i; // other types
    size_t size() const
    {
        size_t n = 1;
        for (auto s : shape) {
            n *= s;
        }
        return n;
    }
};

struct Value {
    enum Kind { None, Bool, Int, Float, Str, List, Nd, Object } kind = None;
    long long i = 0;
    double f = 0.0;
    std::string s;
    std::vector<Value> list;
    std::shared_ptr<Array> nd; // shared: as a NumPy array
    std::shared_ptr<void> obj;
    std::type_index type = typeid(void);
};

inline bool same_double(double a, double b)
{
    return std::memcmp(&a, &b, sizeof(double)) == 0 || (a == b) || (a != a && b != b);
}

inline bool operator==(const Value& a, const Value& b)
{
    if (a.kind != b.kind) {
        return false;
    }
    switch (a.kind) {
    case Value::None:
        return true;
    case Value::Bool:
    case Value::Int:
        return a.i == b.i;
    case Value::Float:
        return same_double(a.f, b.f);
    case Value::Str:
        return a.s == b.s;
    case Value::List:
        return a.list == b.list;
    case Value::Nd: {
        const Array &x = *a.nd, &y = *b.nd;
        if (x.type != y.type || x.shape != y.shape || x.i != y.i || x.f.size() != y.f.size()) {
            return false;
        }
        for (size_t i = 0; i < x.f.size(); ++i) {
            if (!same_double(x.f[i], y.f[i])) {
                return false;
            }
        }
        return true;
    }
    case Value::Object:
        return a.obj == b.obj;
    }
    return false;
}

inline std::string repr(const Value& v)
{
    std::ostringstream os;
    os.precision(17);
    switch (v.kind) {
    case Value::None:
        return "None";
    case Value::Bool:
        return v.i ? "True" : "False";
    case Value::Int:
        return std::to_string(v.i);
    case Value::Float:
        os << v.f;
        return os.str();
    case Value::Str:
        return "'" + v.s + "'";
    case Value::List:
        os << "[";
        for (size_t i = 0; i < v.list.size() && i < 30; ++i) {
            os << (i ? ", " : "") << repr(v.list[i]);
        }
        os << "]";
        return os.str();
    case Value::Nd: {
        const char* names[] = {"float64", "int64", "uint64", "int32", "bool"};
        os << names[static_cast<int>(v.nd->type)] << "(";
        for (auto s : v.nd->shape) {
            os << s << ",";
        }
        os << ")[";
        for (size_t i = 0; i < v.nd->size() && i < 60; ++i) {
            os << (i ? ", " : "");
            if (v.nd->type == DType::Float64) {
                os << v.nd->f[i];
            }
            else {
                os << v.nd->i[i];
            }
        }
        os << "]";
        return os.str();
    }
    case Value::Object:
        return std::string("<object ") + v.type.name() + ">";
    }
    return "";
}

// ---------------------------------------------------------------- registry

struct ArgSpec {
    std::string name;
    bool has_default = false;
    Value value;
};

using Kwargs = std::vector<std::pair<std::string, Value>>;

struct Overload {
    std::vector<ArgSpec> args; // without "self"; empty: positional only
    size_t nargs = 0; // without "self"
    bool has_self = false;
    std::function<Value(std::vector<Value>&, bool, bool&)> call;
};

struct Function {
    std::string name;
    std::vector<Overload> overloads;

    Value operator()(const Value* self, const std::vector<Value>& positional, const Kwargs& keywords) const
    {
        for (int pass = overloads.size() > 1 ? 0 : 1; pass < 2; ++pass) {
            for (auto& o : overloads) {
                std::vector<Value> args;
                if (positional.size() > o.nargs) {
                    continue;
                }
                if (o.args.empty() && !keywords.empty()) {
                    continue;
                }
                args = positional;
                bool ok = true;
                size_t used = 0;
                for (size_t i = positional.size(); i < o.nargs && ok; ++i) {
                    if (o.args.empty()) {
                        ok = false;
                        break;
                    }
                    bool found = false;
                    for (auto& k : keywords) {
                        if (k.first == o.args[i].name) {
                            args.push_back(k.second);
                            found = true;
                            ++used;
                        }
                    }
                    if (!found && o.args[i].has_default) {
                        args.push_back(o.args[i].value);
                        found = true;
                    }
                    ok = found;
                }
                if (!ok || used != keywords.size()) {
                    continue;
                }
                if (o.has_self) {
                    if (self == nullptr) {
                        continue;
                    }
                    args.insert(args.begin(), *self);
                }
                bool loaded = true;
                Value ret = o.call(args, pass == 1, loaded);
                if (loaded) {
                    return ret;
                }
            }
        }
        std::string m = name + "(";
        for (auto& p : positional) {
            m += repr(p).substr(0, 40) + ", ";
        }
        for (auto& k : keywords) {
            m += k.first + "=" + repr(k.second).substr(0, 40) + ", ";
        }
        throw TypeError(m + "): incompatible function arguments");
    }
};

struct ClassInfo {
    std::string name;
    std::type_index type = typeid(void);
    std::vector<std::pair<std::type_index, std::function<void*(void*)>>> bases;
    std::map<std::string, Function> methods;
    std::map<std::string, Function> getters;
    std::map<std::string, Function> setters;
};

inline std::map<std::type_index, std::shared_ptr<ClassInfo>>& classes()
{
    static std::map<std::type_index, std::shared_ptr<ClassInfo>> r;
    return r;
}

inline void* upcast(const Value& v, std::type_index to, void* p, std::type_index from)
{
    if (from == to) {
        return p;
    }
    auto c = classes().find(from);
    if (c == classes().end()) {
        return nullptr;
    }
    for (auto& b : c->second->bases) {
        void* r = upcast(v, to, b.second(p), b.first);
        if (r) {
            return r;
        }
    }
    return nullptr;
}

// ---------------------------------------------------------------- conversion

template <class T, class = void>
struct caster {
    T* p = nullptr;
    std::shared_ptr<void> keep;
    bool load(const Value& v, bool)
    {
        if (v.kind != Value::Object) {
            return false;
        }
        keep = v.obj;
        p = static_cast<T*>(upcast(v, typeid(T), v.obj.get(), v.type));
        return p != nullptr;
    }
    T& get()
    {
        return *p;
    }
    void back(Value&)
    {
    }
    static Value cast(const T& t)
    {
        Value v;
        v.kind = Value::Object;
        v.type = typeid(T);
        v.obj = std::make_shared<T>(t);
        return v;
    }
};

template <>
struct caster<bool> {
    bool value = false;
    bool load(const Value& v, bool)
    {
        value = v.i != 0;
        return v.kind == Value::Bool;
    }
    bool& get()
    {
        return value;
    }
    void back(Value&)
    {
    }
    static Value cast(bool t)
    {
        Value v;
        v.kind = Value::Bool;
        v.i = t;
        return v;
    }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    T value = 0;
    bool load(const Value& v, bool)
    {
        if (v.kind != Value::Int && v.kind != Value::Bool) {
            return false;
        }
        if (std::is_unsigned<T>::value && v.i < 0) {
            return false;
        }
        value = static_cast<T>(v.i);
        return static_cast<long long>(value) == v.i;
    }
    T& get()
    {
        return value;
    }
    void back(Value&)
    {
    }
    static Value cast(T t)
    {
        Value v;
        v.kind = Value::Int;
        v.i = static_cast<long long>(t);
        return v;
    }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    T value = 0;
    bool load(const Value& v, bool convert)
    {
        if (v.kind == Value::Float) {
            value = v.f;
            return true;
        }
        if (convert && v.kind == Value::Int) {
            value = static_cast<T>(v.i);
            return true;
        }
        return false;
    }
    T& get()
    {
        return value;
    }
    void back(Value&)
    {
    }
    static Value cast(T t)
    {
        Value v;
        v.kind = Value::Float;
        v.f = t;
        return v;
    }
};

template <>
struct caster<std::string> {
    std::string value;
    bool load(const Value& v, bool)
    {
        value = v.s;
        return v.kind == Value::Str;
    }
    std::string& get()
    {
        return value;
    }
    void back(Value&)
    {
    }
    static Value cast(const std::string& t)
    {
        Value v;
        v.kind = Value::Str;
        v.s = t;
        return v;
    }
};

template <>
struct caster<const char*> {
    static Value cast(const char* t)
    {
        return caster<std::string>::cast(t);
    }
};

template <class T>
struct list_caster {
    template <class C>
    static Value cast_list(const C& c)
    {
        Value v;
        v.kind = Value::List;
        for (const auto& i : c) {
            v.list.push_back(caster<T>::cast(i));
        }
        return v;
    }
};

template <class T>
struct caster<std::vector<T>> {
    std::vector<T> value;
    bool load(const Value& v, bool convert)
    {
        std::vector<Value> items;
        if (v.kind == Value::List) {
            items = v.list;
        }
        else if (v.kind == Value::Nd && v.nd->shape.size() == 1) {
            for (size_t i = 0; i < v.nd->size(); ++i) {
                Value j;
                j.kind = v.nd->type == DType::Float64 ? Value::Float : Value::Int;
                j.i = v.nd->type == DType::Float64 ? 0 : v.nd->i[i];
                j.f = v.nd->type == DType::Float64 ? v.nd->f[i] : 0.0;
                items.push_back(j);
            }
        }
        else {
            return false;
        }
        value.clear();
        for (auto& i : items) {
            caster<T> c;
            if (!c.load(i, convert)) {
                return false;
            }
            value.push_back(c.get());
        }
        return true;
    }
    std::vector<T>& get()
    {
        return value;
    }
    void back(Value&)
    {
    }
    static Value cast(const std::vector<T>& t)
    {
        return list_caster<T>::cast_list(t);
    }
};

template <class T, size_t N>
struct caster<std::array<T, N>> {
    static Value cast(const std::array<T, N>& t)
    {
        return list_caster<T>::cast_list(t);
    }
};

// NumPy arrays
template <class A, class T, size_t N> // N == 0: any rank
struct array_caster {
    A value;
    bool exact = false;
    const void* data = nullptr;

    bool load(const Value& v, bool convert)
    {
        Array tmp;
        const Array* nd = v.nd.get();
        if (v.kind == Value::List && convert) {
            // nested lists are converted to an array: only lists of numbers are used here
            tmp.type = DType::Int64;
            tmp.shape = {v.list.size()};
            for (auto& i : v.list) {
                if (i.kind == Value::Float) {
                    tmp.type = DType::Float64;
                }
                else if (i.kind != Value::Int) {
                    return false;
                }
            }
            for (auto& i : v.list) {
                double d = i.kind == Value::Float ? i.f : static_cast<double>(i.i);
                tmp.type == DType::Float64 ? tmp.f.push_back(d) : tmp.i.push_back(i.i);
            }
            nd = &tmp;
        }
        else if (v.kind != Value::Nd) {
            return false;
        }
        exact = nd->type == dtype<T>() && nd != &tmp;
        if (!exact && !convert) {
            return false;
        }
        if (N > 0 && nd->shape.size() != N) {
            return false;
        }
        typename A::shape_type shape = xtl::make_sequence<typename A::shape_type>(nd->shape.size(), 0);
        std::copy(nd->shape.begin(), nd->shape.end(), shape.begin());
        value = A::from_shape(shape);
        for (size_t i = 0; i < nd->size(); ++i) {
            value.data()[i] = nd->type == DType::Float64 ? static_cast<T>(nd->f[i]) : static_cast<T>(nd->i[i]);
        }
        data = value.data();
        return true;
    }
    A& get()
    {
        return value;
    }
    // The array that was passed is modified in place, unless the function received a converted copy, or
    // binds the argument to new memory (assignment of an expression).
    void back(Value& v)
    {
        if (!exact || value.data() != data || !std::equal(value.shape().begin(), value.shape().end(), v.nd->shape.begin(), v.nd->shape.end())) {
            return;
        }
        fill(*v.nd);
    }
    void fill(Array& nd) const
    {
        for (size_t i = 0; i < nd.size(); ++i) {
            if (dtype<T>() == DType::Float64) {
                nd.f[i] = static_cast<double>(value.data()[i]);
            }
            else {
                nd.i[i] = static_cast<long long>(value.data()[i]);
            }
        }
    }
    static Value cast(const A& t)
    {
        Value v;
        v.kind = Value::Nd;
        v.nd = std::make_shared<Array>();
        v.nd->type = dtype<T>();
        v.nd->shape.assign(t.shape().begin(), t.shape().end());
        if (dtype<T>() == DType::Float64) {
            v.nd->f.assign(t.begin(), t.end());
        }
        else {
            v.nd->i.assign(t.begin(), t.end());
        }
        return v;
    }
};

template <class T, size_t N>
struct caster<xt::xtensor<T, N>> : array_caster<xt::xtensor<T, N>, T, N> {
};

template <class T>
struct caster<xt::xarray<T>> : array_caster<xt::xarray<T>, T, 0> {
};

template <class T>
Value cast(const T& t)
{
    return caster<std::decay_t<T>>::cast(t);
}

inline Value cast(const char* t)
{
    return caster<std::string>::cast(t);
}

// ---------------------------------------------------------------- functions

struct arg {
    ArgSpec spec;
    explicit arg(const char* name)
    {
        spec.name = name;
    }
    template <class T>
    arg operator=(const T& t) &&
    {
        arg r = *this;
        r.spec.has_default = true;
        r.spec.value = pybind11::cast(t);
        return r;
    }
    arg& none(bool = true)
    {
        return *this;
    }
    arg& noconvert(bool = true)
    {
        return *this;
    }
};

inline void process(Overload& o, const arg& a)
{
    o.args.push_back(a.spec);
}
inline void process(Overload&, const char*)
{
}

// annotations that do not change what is called
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct is_operator {
};
struct is_method {
};
struct prepend {
};
struct dynamic_attr {
};
struct arithmetic {
};
struct module_local {
    explicit module_local(bool = true)
    {
    }
};
struct doc {
    const char* value;
    explicit doc(const char* v) : value(v)
    {
    }
};
struct gil_scoped_release {
};
struct gil_scoped_acquire {
};
struct scoped_ostream_redirect {
};
template <size_t, size_t>
struct keep_alive {
};
template <class...>
struct call_guard {
};

template <class T>
struct is_annotation : std::false_type {
};
template <>
struct is_annotation<return_value_policy> : std::true_type {
};
template <>
struct is_annotation<is_operator> : std::true_type {
};
template <>
struct is_annotation<is_method> : std::true_type {
};
template <>
struct is_annotation<prepend> : std::true_type {
};
template <>
struct is_annotation<doc> : std::true_type {
};
template <size_t A, size_t B>
struct is_annotation<keep_alive<A, B>> : std::true_type {
};
template <class... A>
struct is_annotation<call_guard<A...>> : std::true_type {
};

template <class T, std::enable_if_t<is_annotation<T>::value, int> = 0>
void process(Overload&, const T&)
{
}

namespace literals {
inline arg operator"" _a(const char* name, size_t)
{
    return arg(name);
}
} // namespace literals

using type_error = TypeError;
using attribute_error = AttributeError;
struct value_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct index_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct key_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};
using str = std::string;

template <class... Args>
struct overload_cast_impl {
    template <class R>
    constexpr auto operator()(R (*pf)(Args...)) const -> decltype(pf)
    {
        return pf;
    }
    template <class R, class C>
    constexpr auto operator()(R (C::*pmf)(Args...), std::false_type = {}) const -> decltype(pmf)
    {
        return pmf;
    }
    template <class R, class C>
    constexpr auto operator()(R (C::*pmf)(Args...) const, std::true_type) const -> decltype(pmf)
    {
        return pmf;
    }
};

template <class... Args>
static constexpr overload_cast_impl<Args...> overload_cast{};

static constexpr auto const_ = std::true_type{};

template <class A>
decltype(auto) pass(caster<std::decay_t<A>>& c)
{
    if constexpr (std::is_lvalue_reference<A>::value) {
        return (c.get());
    }
    else {
        return std::decay_t<A>(c.get());
    }
}

template <class A>
void write_back(caster<std::decay_t<A>>& c, Value& v)
{
    if constexpr (std::is_lvalue_reference<A>::value && !std::is_const<std::remove_reference_t<A>>::value) {
        c.back(v);
    }
}

template <class R, class... A, class F, size_t... I>
Overload wrap(F f, std::index_sequence<I...>)
{
    Overload o;
    o.nargs = sizeof...(A);
    o.call = [f](std::vector<Value>& args, bool convert, bool& loaded) -> Value {
        std::tuple<caster<std::decay_t<A>>...> cs;
        loaded = args.size() == sizeof...(A) && (std::get<I>(cs).load(args[I], convert) && ...);
        if (!loaded) {
            return Value();
        }
        if constexpr (std::is_void<R>::value) {
            f(pass<A>(std::get<I>(cs))...);
            (write_back<A>(std::get<I>(cs), args[I]), ...);
            return Value();
        }
        else {
            Value ret = pybind11::cast(f(pass<A>(std::get<I>(cs))...));
            (write_back<A>(std::get<I>(cs), args[I]), ...);
            return ret;
        }
    };
    return o;
}

// free functions
template <class R, class... A>
Overload make_free(R (*f)(A...))
{
    return wrap<R, A...>(f, std::index_sequence_for<A...>{});
}

template <class L>
struct lambda_traits : lambda_traits<decltype(&L::operator())> {
};

template <class C, class R, class... A>
struct lambda_traits<R (C::*)(A...) const> {
    template <class F>
    static Overload make(F f)
    {
        return wrap<R, A...>(f, std::index_sequence_for<A...>{});
    }
};

template <class L, std::enable_if_t<std::is_class<L>::value, int> = 0>
Overload make_free(L f)
{
    return lambda_traits<L>::make(f);
}

// member functions: the first argument is the object
template <class T, class R, class C, class... A>
Overload make_method(R (C::*f)(A...))
{
    auto g = [f](T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); };
    return wrap<R, T&, A...>(g, std::index_sequence_for<T, A...>{});
}

template <class T, class R, class C, class... A>
Overload make_method(R (C::*f)(A...) const)
{
    auto g = [f](const T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); };
    return wrap<R, const T&, A...>(g, std::index_sequence_for<T, A...>{});
}

template <class T, class L, std::enable_if_t<std::is_class<L>::value, int> = 0>
Overload make_method(L f)
{
    return make_free(f);
}

template <class T, class R, class... A>
Overload make_method(R (*f)(A...))
{
    return make_free(f);
}

// constructors
template <class... A>
struct init_tag {
};

template <class F>
struct factory_tag {
    F f;
};

template <class... A>
init_tag<A...> init()
{
    return {};
}

template <class F>
factory_tag<F> init(F f)
{
    return {f};
}

template <class T, class... A, size_t... I>
Overload make_init(std::index_sequence<I...>)
{
    Overload o;
    o.nargs = sizeof...(A);
    o.call = [](std::vector<Value>& args, bool convert, bool& loaded) -> Value {
        [[maybe_unused]] std::tuple<caster<std::decay_t<A>>...> cs;
        loaded = args.size() == sizeof...(A) && (std::get<I>(cs).load(args[I], convert) && ... && true);
        Value v;
        if (loaded) {
            v.kind = Value::Object;
            v.type = typeid(T);
            v.obj = std::shared_ptr<T>(new T(pass<A>(std::get<I>(cs))...));
            (write_back<A>(std::get<I>(cs), args[I]), ...);
        }
        return v;
    };
    return o;
}

template <class T, class F, class R, class C, class... A, size_t... I>
Overload make_factory(F f, R (C::*)(A...) const, std::index_sequence<I...>)
{
    Overload o;
    o.nargs = sizeof...(A);
    o.call = [f](std::vector<Value>& args, bool convert, bool& loaded) -> Value {
        std::tuple<caster<std::decay_t<A>>...> cs;
        loaded = args.size() == sizeof...(A) && (std::get<I>(cs).load(args[I], convert) && ... && true);
        Value v;
        if (loaded) {
            v.kind = Value::Object;
            v.type = typeid(T);
            v.obj = std::shared_ptr<T>(f(pass<A>(std::get<I>(cs))...));
            (write_back<A>(std::get<I>(cs), args[I]), ...);
        }
        return v;
    };
    return o;
}

template <class F>
struct nargs_of : nargs_of<decltype(&F::operator())> {
};
template <class C, class R, class... A>
struct nargs_of<R (C::*)(A...) const> {
    static constexpr size_t value = sizeof...(A);
};

inline void finish(Overload& o, bool has_self, const std::string& name)
{
    if (has_self) {
        o.has_self = true;
        o.nargs -= 1;
    }
    if (!o.args.empty() && o.args.size() != o.nargs) {
        throw std::logic_error(name + ": the number of named arguments is not the number of arguments");
    }
}

// ---------------------------------------------------------------- modules and classes

struct ModuleData {
    std::string name;
    std::map<std::string, Function> functions;
    std::map<std::string, std::shared_ptr<ModuleData>> modules;
    std::map<std::string, std::shared_ptr<ClassInfo>> cls;
    std::map<std::string, Value> constants;
};

class object {
};

struct accessor {
    operator object() const
    {
        return object();
    }
    template <class T>
    void operator=(const T&)
    {
    }
};

class module_ {
public:
    std::shared_ptr<ModuleData> d = std::make_shared<ModuleData>();

    std::string& doc()
    {
        static std::string s;
        return s;
    }

    accessor attr(const char*)
    {
        return accessor();
    }

    module_ def_submodule(const char* name, const char* = nullptr)
    {
        module_ r;
        r.d->name = d->name + "." + name;
        d->modules[name] = r.d;
        return r;
    }

    template <class F, class... Extra>
    module_& def(const char* name, F f, const Extra&... extra)
    {
        Overload o = make_free(f);
        (process(o, extra), ...);
        finish(o, false, name);
        auto& fn = d->functions[name];
        fn.name = d->name + "." + name;
        fn.overloads.push_back(o);
        return *this;
    }
};

using module = module_;

template <class T, class... Bases>
class class_ {
public:
    std::shared_ptr<ClassInfo> d = std::make_shared<ClassInfo>();

    template <class... Extra>
    class_(module_& m, const char* name, const Extra&...)
    {
        d->name = m.d->name + "." + name;
        d->type = typeid(T);
        (base<Bases>(), ...);
        m.d->cls[name] = d;
        classes()[typeid(T)] = d;
    }

    template <class F, class... Extra>
    class_& def(const char* name, F f, const Extra&... extra)
    {
        Overload o = make_method<T>(f);
        add(d->methods, name, o, true, extra...);
        return *this;
    }

    template <class... A, class... Extra>
    class_& def(init_tag<A...>, const Extra&... extra)
    {
        Overload o = make_init<T, A...>(std::index_sequence_for<A...>{});
        add(d->methods, "__init__", o, false, extra...);
        return *this;
    }

    template <class F, class... Extra>
    class_& def(factory_tag<F> t, const Extra&... extra)
    {
        Overload o = make_factory<T>(t.f, &F::operator(), std::make_index_sequence<nargs_of<F>::value>{});
        add(d->methods, "__init__", o, false, extra...);
        return *this;
    }

    template <class F, class... Extra>
    class_& def_static(const char* name, F f, const Extra&... extra)
    {
        Overload o = make_free(f);
        add(d->methods, name, o, false, extra...);
        return *this;
    }

    template <class F, class... Extra>
    class_& def_property_readonly(const char* name, F f, const Extra&...)
    {
        d->getters.erase(name);
        Overload o = make_method<T>(f);
        add(d->getters, name, o, true);
        return *this;
    }

    template <class F, class G, class... Extra>
    class_& def_property(const char* name, F f, G g, const Extra&...)
    {
        d->getters.erase(name);
        d->setters.erase(name);
        Overload o = make_method<T>(f);
        add(d->getters, name, o, true);
        Overload s = make_method<T>(g);
        add(d->setters, name, s, true);
        return *this;
    }

    template <class F, class... Extra>
    class_& def_property_readonly_static(const char* name, F f, const Extra&...)
    {
        return def_property_readonly(name, f);
    }

    template <class C, class D, class... Extra>
    class_& def_readonly(const char* name, D C::*p, const Extra&...)
    {
        return def_property_readonly(name, [p](const T& t) -> D { return t.*p; });
    }

    template <class C, class D, class... Extra>
    class_& def_readwrite(const char* name, D C::*p, const Extra&...)
    {
        return def_property(name, [p](const T& t) -> D { return t.*p; }, [p](T& t, const D& v) -> void { t.*p = v; });
    }

    accessor attr(const char*)
    {
        return accessor();
    }

private:
    // a base class (not: a holder)
    template <class B>
    void base()
    {
        if constexpr (std::is_base_of<B, T>::value) {
            d->bases.emplace_back(typeid(B), [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); });
        }
    }

    template <class... Extra>
    void add(std::map<std::string, Function>& m, const char* name, Overload& o, bool self, const Extra&... extra)
    {
        (process(o, extra), ...);
        finish(o, self, name);
        auto& fn = m[name];
        fn.name = d->name + "." + name;
        fn.overloads.push_back(o);
    }
};

template <class T>
class enum_ {
public:
    std::shared_ptr<ModuleData> m;
    std::shared_ptr<ModuleData> d = std::make_shared<ModuleData>();

    template <class... Extra>
    enum_(module_& mod, const char* name, const Extra&...) : m(mod.d)
    {
        d->name = m->name + "." + name;
        m->modules[name] = d;
    }
    enum_& value(const char* name, T t, const char* = nullptr)
    {
        d->constants[name] = pybind11::cast(t);
        return *this;
    }
    enum_& export_values()
    {
        for (auto& i : d->constants) {
            m->constants[i.first] = i.second;
        }
        return *this;
    }
};

// ---------------------------------------------------------------- the interpreter's side

inline const Function* find(const std::shared_ptr<ClassInfo>& c, const std::string& name, std::map<std::string, Function> ClassInfo::*m)
{
    auto i = ((*c).*m).find(name);
    if (i != ((*c).*m).end()) {
        return &i->second;
    }
    for (auto& b : c->bases) {
        auto r = find(classes().at(b.first), name, m);
        if (r) {
            return r;
        }
    }
    return nullptr;
}

} // namespace pybind11

#define PYBIND11_MODULE(name, variable) inline void pybind11_init_##name(pybind11::module_& variable)
