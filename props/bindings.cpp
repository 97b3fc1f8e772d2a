// C28: the Python bindings (/repo/python) give every user of Python the C++ function of that name.
//
// The bindings are compiled as they are against a stand-in for pybind11 and xtensor-python
// (harness/pyfake), and called as the Python interpreter would call them.
#define GOOSEFEM_USE_XTENSOR_PYTHON
#include <main.cpp>

#include "dense.hpp"
#include "meshes.hpp"
using namespace gen;
using py::Value;
using Sparse = Eigen::SparseMatrix<double>;

// ------------------------------------------------------------------------------- the interpreter

static py::ModuleData& root()
{
    static py::module m = [] {
        py::module r;
        r.d->name = "GooseFEM";
        pybind11_init__GooseFEM(r);
        return r;
    }();
    return *m.d;
}

// "Mesh.Quad4.Regular" -> module "GooseFEM.Mesh.Quad4", "Regular"
static py::ModuleData& module_of(Case& c, const std::string& path, std::string& last)
{
    py::ModuleData* m = &root();
    size_t from = 0;
    for (size_t dot = path.find('.'); dot != std::string::npos; dot = path.find('.', from)) {
        auto i = m->modules.find(path.substr(from, dot - from));
        REQUIRE(c, i != m->modules.end(), "GooseFEM." << path << " does not exist");
        m = i->second.get();
        from = dot + 1;
    }
    last = path.substr(from);
    return *m;
}

struct Arg {
    std::string name; // empty: only by position
    Value v;
    bool inout = false;
};

template <class T>
static Arg in(const char* name, const T& t)
{
    return {name, py::cast(t), false};
}
static Arg in(const char* name, const Value& v)
{
    return {name, v, false};
}
static Arg out(const char* name, const Value& v)
{
    return {name, v, true};
}

static bool integers(const py::Array& a)
{
    for (double v : a.f) {
        if (!(std::abs(v) < 1e9) || v != std::floor(v) || (v == 0 && std::signbit(v))) {
            return false;
        }
    }
    return true;
}

// The same value, as users could have it: integers of the default type of NumPy, lists, integers for floats.
static Value vary(Case& c, const Value& v)
{
    Value r = v;
    if (!c.rare(4)) {
        return r;
    }
    if (v.kind == Value::Nd) {
        r.nd = std::make_shared<py::Array>(*v.nd);
        auto& a = *r.nd;
        if (a.type == py::DType::UInt64) {
            if (a.shape.size() == 1 && c.flip()) {
                c.label("list");
                Value list;
                list.kind = Value::List;
                for (auto i : a.i) {
                    list.list.push_back(py::cast(i));
                }
                return list;
            }
            else {
                c.label("int64 for uint64");
                a.type = py::DType::Int64;
            }
        }
        else if (a.type == py::DType::Float64 && integers(a)) {
            c.label("integers for floats");
            a.type = py::DType::Int64;
            a.i.assign(a.f.begin(), a.f.end());
            a.f.clear();
        }
    }
    else if (v.kind == Value::Float && std::abs(v.f) < 1e9 && v.f == std::floor(v.f)) {
        c.label("integer for float");
        r = py::cast(static_cast<long long>(v.f));
    }
    return r;
}

// Call by position and by keyword.
static Value call(Case& c, const py::Function& f, const Value* self, const std::vector<Arg>& args)
{
    size_t npos = args.size();
    bool named = true;
    for (auto& a : args) {
        named = named && !a.name.empty();
    }
    if (named) {
        npos = c.in(0, args.size());
    }
    std::vector<Value> pos;
    py::Kwargs kw;
    for (size_t i = 0; i < npos; ++i) {
        pos.push_back(args[i].inout ? args[i].v : vary(c, args[i].v));
    }
    if (npos < args.size()) {
        c.label("keywords");
        for (auto i : c.perm(args.size() - npos)) {
            auto& a = args[npos + i];
            kw.emplace_back(a.name, a.inout ? a.v : vary(c, a.v));
        }
    }
    try {
        return f(self, pos, kw);
    }
    catch (const py::TypeError& e) {
        throw pbt::Failure(std::string("TypeError: ") + e.what());
    }
}

static Value call(Case& c, const std::string& path, const std::vector<Arg>& args)
{
    std::string name;
    auto& m = module_of(c, path, name);
    auto i = m.functions.find(name);
    REQUIRE(c, i != m.functions.end(), "GooseFEM." << path << " does not exist");
    return call(c, i->second, nullptr, args);
}

static Value make(Case& c, const std::string& path, const std::vector<Arg>& args)
{
    std::string name;
    auto& m = module_of(c, path, name);
    auto i = m.cls.find(name);
    REQUIRE(c, i != m.cls.end(), "GooseFEM." << path << " does not exist");
    Value r = call(c, i->second->methods.at("__init__"), nullptr, args);
    REQUIRE(c, r.type == i->second->type, "GooseFEM." << path << " gives an object of another type");
    // "repr" names the class
    Value s = call(c, i->second->methods.at("__repr__"), &r, {});
    REQUIRE(c, s.kind == Value::Str && s.s == "<GooseFEM." + path + ">", "repr of GooseFEM." << path << ": " << s.s);
    return r;
}

static const py::Function& member(Case& c, const Value& self, const char* name, std::map<std::string, py::Function> py::ClassInfo::*m)
{
    auto& cls = py::classes().at(self.type);
    auto f = py::find(cls, name, m);
    REQUIRE(c, f, cls->name << "." << name << " does not exist");
    return *f;
}

static Value method(Case& c, const Value& self, const char* name, const std::vector<Arg>& args = {})
{
    return call(c, member(c, self, name, &py::ClassInfo::methods), &self, args);
}

static Value get(Case& c, const Value& self, const char* name)
{
    return call(c, member(c, self, name, &py::ClassInfo::getters), &self, {});
}

static void set(Case& c, const Value& self, const char* name, const Value& v)
{
    call(c, member(c, self, name, &py::ClassInfo::setters), &self, {{"", v, false}});
}

template <class T>
static T& object(const Value& v)
{
    return *static_cast<T*>(v.obj.get());
}

static bool alike(const Value& a, const Value& b, double scale = 1.0);

template <class T>
static bool alike_mesh(const Value& a, const Value& b)
{
    auto& x = object<T>(a);
    auto& y = object<T>(b);
    return x.nelem() == y.nelem() && x.h() == y.h() && eq(x.coor(), y.coor()) && eq(x.conn(), y.conn());
}

// Same type and value: floats up to round-off.
static bool alike(const Value& a, const Value& b, double scale)
{
    if (a.kind != b.kind) {
        return false;
    }
    if (a.kind == Value::Float) {
        return (a.f != a.f && b.f != b.f) || a.f == b.f || close(a.f, b.f, scale, 1e-11);
    }
    if (a.kind == Value::List) {
        if (a.list.size() != b.list.size()) {
            return false;
        }
        for (size_t i = 0; i < a.list.size(); ++i) {
            if (!alike(a.list[i], b.list[i], scale)) {
                return false;
            }
        }
        return true;
    }
    if (a.kind == Value::Nd) {
        auto &x = *a.nd, &y = *b.nd;
        if (x.type != y.type || x.shape != y.shape || x.i != y.i || x.f.size() != y.f.size()) {
            return false;
        }
        double m = scale;
        for (auto v : y.f) {
            m = std::max(m, std::isfinite(v) ? std::abs(v) : 0.0);
        }
        for (size_t i = 0; i < x.f.size(); ++i) {
            if (!(x.f[i] == y.f[i] || (x.f[i] != x.f[i] && y.f[i] != y.f[i]) || close(x.f[i], y.f[i], m, 1e-11))) {
                return false;
            }
        }
        return true;
    }
    if (a.kind == Value::Object) {
        if (a.type != b.type) {
            return false;
        }
        if (a.type == typeid(M::ElementType)) {
            return object<M::ElementType>(a) == object<M::ElementType>(b);
        }
        if (a.type == typeid(Sparse)) {
            Dense x = dense(object<Sparse>(a)), y = dense(object<Sparse>(b));
            if (x.n != y.n || x.m != y.m) {
                return false;
            }
            for (size_t i = 0; i < x.a.size(); ++i) {
                if (!close(x.a[i], y.a[i], scale, 1e-11)) {
                    return false;
                }
            }
            return true;
        }
        if (a.type == typeid(M::Quad4::Regular)) {
            return alike_mesh<M::Quad4::Regular>(a, b);
        }
        if (a.type == typeid(M::Quad4::FineLayer)) {
            return alike_mesh<M::Quad4::FineLayer>(a, b);
        }
        return false;
    }
    return a == b;
}

// SAME(value from Python, value from C++)
#define SAME(p, ...) \
    do { \
        Value same_p = (p); \
        Value same_c = py::cast(__VA_ARGS__); \
        REQUIRE(c, alike(same_p, same_c), #p << " = " << py::repr(same_p) << " expected " << #__VA_ARGS__ << " = " << py::repr(same_c)); \
    } while (0)

#define GET(o, x, name) SAME(get(c, o, #name), x.name())

static bool none(const Value& v)
{
    return v.kind == Value::None;
}

// ------------------------------------------------------------------------------- vectors

static void vector_common(Case& c, const Value& o, const GooseFEM::Vector& v, const Topo& t)
{
    GET(o, v, nelem);
    GET(o, v, nne);
    GET(o, v, nnode);
    GET(o, v, ndim);
    GET(o, v, ndof);
    GET(o, v, conn);
    GET(o, v, dofs);
    GET(o, v, shape_dofval);
    GET(o, v, shape_nodevec);
    GET(o, v, shape_elemvec);
    GET(o, v, shape_elemmat);

    double val = c.real(-2.0, 2.0);
    if (c.flip()) {
        val = std::floor(val);
    }
    SAME(method(c, o, "allocate_dofval", {in("", val)}), v.allocate_dofval(val));
    SAME(method(c, o, "allocate_nodevec", {in("", val)}), v.allocate_nodevec(val));
    SAME(method(c, o, "allocate_elemvec", {in("", val)}), v.allocate_elemvec(val));
    SAME(method(c, o, "allocate_elemmat", {in("", val)}), v.allocate_elemmat(val));
    // content is not specified
    REQUIRE(c, method(c, o, "allocate_dofval").nd->shape.size() == 1, "allocate_dofval");
    REQUIRE(c, method(c, o, "allocate_nodevec").nd->shape.size() == 2, "allocate_nodevec");
    REQUIRE(c, method(c, o, "allocate_elemvec").nd->shape == py::cast(v.allocate_elemvec(0)).nd->shape, "allocate_elemvec");
    REQUIRE(c, method(c, o, "allocate_elemmat").nd->shape == py::cast(v.allocate_elemmat(0)).nd->shape, "allocate_elemmat");

    // consistent: also elemvec, so that it is irrelevant which entry is used
    D1 dofval = field<1>(c, v.shape_dofval());
    D2 nodevec = field<2>(c, v.shape_nodevec());
    D3 elemvec = field<3>(c, v.shape_elemvec());
    D1 d = junk<1>(v.shape_dofval());
    D2 n = junk<2>(v.shape_nodevec());
    D3 e = junk<3>(v.shape_elemvec());

    SAME(method(c, o, "AsDofs", {in("arg", nodevec)}), v.AsDofs(nodevec));
    SAME(method(c, o, "AsDofs", {in("arg", elemvec)}), v.AsDofs(elemvec));
    SAME(method(c, o, "AsNode", {in("arg", dofval)}), v.AsNode(dofval));
    SAME(method(c, o, "AsNode", {in("arg", elemvec)}), v.AsNode(elemvec));
    SAME(method(c, o, "AsElement", {in("arg", dofval)}), v.AsElement(dofval));
    SAME(method(c, o, "AsElement", {in("arg", nodevec)}), v.AsElement(nodevec));
    SAME(method(c, o, "AssembleDofs", {in("arg", nodevec)}), v.AssembleDofs(nodevec));
    SAME(method(c, o, "AssembleDofs", {in("arg", elemvec)}), v.AssembleDofs(elemvec));
    SAME(method(c, o, "AssembleNode", {in("arg", elemvec)}), v.AssembleNode(elemvec));
    SAME(method(c, o, "Copy", {in("nodevec_src", nodevec), in("nodevec_dest", n)}), v.Copy(nodevec, n));

    Value pd = py::cast(d), pn = py::cast(n), pe = py::cast(e);
    auto check = [&](const char* name) {
        REQUIRE(c, alike(pd, py::cast(d)) && alike(pn, py::cast(n)) && alike(pe, py::cast(e)), name << " does not write the output of the C++ function: " << py::repr(pd) << py::repr(pn) << py::repr(pe));
    };
    for (size_t i = 0; i < 4; ++i) {
        switch (c.in(0, 7)) {
        case 0:
            REQUIRE(c, none(method(c, o, "asDofs", {in("arg", nodevec), out("ret", pd)})), "");
            v.asDofs(nodevec, d);
            check("asDofs");
            break;
        case 1:
            method(c, o, "asDofs", {in("arg", elemvec), out("ret", pd)});
            v.asDofs(elemvec, d);
            check("asDofs");
            break;
        case 2:
            method(c, o, "asNode", {in("arg", dofval), out("ret", pn)});
            v.asNode(dofval, n);
            check("asNode");
            break;
        case 3:
            method(c, o, "asNode", {in("arg", elemvec), out("ret", pn)});
            v.asNode(elemvec, n);
            check("asNode");
            break;
        case 4:
            method(c, o, "asElement", {in("arg", dofval), out("ret", pe)});
            v.asElement(dofval, e);
            check("asElement");
            break;
        case 5:
            method(c, o, "asElement", {in("arg", nodevec), out("ret", pe)});
            v.asElement(nodevec, e);
            check("asElement");
            break;
        case 6:
            if (c.flip()) {
                method(c, o, "assembleDofs", {in("arg", nodevec), out("ret", pd)});
                v.assembleDofs(nodevec, d);
            }
            else {
                method(c, o, "assembleDofs", {in("arg", elemvec), out("ret", pd)});
                v.assembleDofs(elemvec, d);
            }
            check("assembleDofs");
            break;
        default:
            if (c.flip()) {
                method(c, o, "assembleNode", {in("arg", elemvec), out("ret", pn)});
                v.assembleNode(elemvec, n);
                check("assembleNode");
            }
            else {
                method(c, o, "copy", {in("nodevec_src", nodevec), out("nodevec_dest", pn)});
                v.copy(nodevec, n);
                check("copy");
            }
        }
    }
}

PROP(vectors, 200, 800)
{
    auto t = topo(c);
    c.nontrivial(t.conn.shape(0) > 1);
    if (c.flip()) {
        GooseFEM::Vector v(t.conn, t.dofs);
        Value o = make(c, "Vector", {in("conn", t.conn), in("dofs", t.dofs)});
        vector_common(c, o, v, t);
        return;
    }
    auto iip = prescribed(c, gen::amax(t.dofs) + 1);
    GooseFEM::VectorPartitioned v(t.conn, t.dofs, iip);
    Value o = make(c, "VectorPartitioned", {in("conn", t.conn), in("dofs", t.dofs), in("iip", iip)});
    vector_common(c, o, v, t);
    GET(o, v, nnu);
    GET(o, v, nnp);
    GET(o, v, iiu);
    GET(o, v, iip);
    GET(o, v, dofs_is_u);
    GET(o, v, dofs_is_p);
    D1 u = field<1>(c, {v.nnu()}), p = field<1>(c, {v.nnp()});
    D2 nodevec = field<2>(c, v.shape_nodevec());
    D3 elemvec = field<3>(c, v.shape_elemvec());
    SAME(method(c, o, "DofsFromParitioned", {in("dofval_u", u), in("dofval_p", p)}), v.DofsFromParitioned(u, p));
    SAME(method(c, o, "NodeFromPartitioned", {in("dofval_u", u), in("dofval_p", p)}), v.NodeFromPartitioned(u, p));
    SAME(method(c, o, "ElementFromPartitioned", {in("dofval_u", u), in("dofval_p", p)}), v.ElementFromPartitioned(u, p));
    SAME(method(c, o, "AsDofs_u", {in("nodevec", nodevec)}), v.AsDofs_u(nodevec));
    SAME(method(c, o, "AsDofs_u", {in("elemvec", elemvec)}), v.AsDofs_u(elemvec));
    SAME(method(c, o, "AsDofs_p", {in("nodevec", nodevec)}), v.AsDofs_p(nodevec));
    SAME(method(c, o, "AsDofs_p", {in("elemvec", elemvec)}), v.AsDofs_p(elemvec));
    D2 n = junk<2>(v.shape_nodevec());
    SAME(method(c, o, "Copy_u", {in("nodevec_src", nodevec), in("nodevec_dest", n)}), v.Copy_u(nodevec, n));
    SAME(method(c, o, "Copy_p", {in("nodevec_src", nodevec), in("nodevec_dest", n)}), v.Copy_p(nodevec, n));
    Value pn = py::cast(n);
    D2 other = field<2>(c, v.shape_nodevec());
    method(c, o, "copy_u", {in("nodevec_src", nodevec), out("nodevec_dest", pn)});
    v.copy_u(nodevec, n);
    SAME(pn, n);
    method(c, o, "copy_p", {in("nodevec_src", other), out("nodevec_dest", pn)});
    v.copy_p(other, n);
    SAME(pn, n);
}

// ------------------------------------------------------------------------------- matrices

template <class T>
static void matrix_common(Case& c, const Value& o, T& A)
{
    GET(o, A, nelem);
    GET(o, A, nne);
    GET(o, A, nnode);
    GET(o, A, ndim);
    GET(o, A, ndof);
    GET(o, A, dofs);
    GET(o, A, conn);
    SAME(method(c, o, "Todense"), A.Todense());
    size_t n = A.ndof();
    D2 r = junk<2>({n, n});
    Value pr = py::cast(r);
    REQUIRE(c, none(method(c, o, "todense", {out("ret", pr)})), "");
    A.todense(r);
    SAME(pr, r);
    D1 x = field<1>(c, {n}), b = junk<1>({n});
    D2 y = field<2>(c, {A.nnode(), A.ndim()}), d = junk<2>({A.nnode(), A.ndim()});
    SAME(method(c, o, "Dot", {in("x", x)}), A.Dot(x));
    SAME(method(c, o, "Dot", {in("x", y)}), A.Dot(y));
    Value pb = py::cast(b), pd = py::cast(d);
    method(c, o, "dot", {in("x", x), out("b", pb)});
    method(c, o, "dot", {in("x", y), out("b", pd)});
    A.dot(x, b);
    A.dot(y, d);
    SAME(pb, b);
    SAME(pd, d);
}

template <class T>
static void matrix_partitioned(Case& c, const Value& o, T& A)
{
    GET(o, A, nnu);
    GET(o, A, nnp);
    GET(o, A, iiu);
    GET(o, A, iip);
    D1 x = field<1>(c, {A.ndof()}), b = field<1>(c, {A.ndof()});
    D2 y = field<2>(c, {A.nnode(), A.ndim()}), d = field<2>(c, {A.nnode(), A.ndim()});
    D1 xu = field<1>(c, {A.nnu()}), xp = field<1>(c, {A.nnp()});
    SAME(method(c, o, "Reaction", {in("x", x), in("b", b)}), A.Reaction(x, b));
    SAME(method(c, o, "Reaction", {in("x", y), in("b", d)}), A.Reaction(y, d));
    SAME(method(c, o, "Reaction_p", {in("x_u", xu), in("x_p", xp)}), A.Reaction_p(xu, xp));
    Value pb = py::cast(b), pd = py::cast(d);
    method(c, o, "reaction", {in("x", x), out("b", pb)});
    method(c, o, "reaction", {in("x", y), out("b", pd)});
    A.reaction(x, b);
    A.reaction(y, d);
    SAME(pb, b);
    SAME(pd, d);
}

// Element matrices with a contribution to the diagonal of all DOFs that are used by elements.
static D3 stiffness(Case& c, size_t nelem, size_t n, bool diagonal)
{
    D3 e = elemmat_spd(c, nelem, n);
    if (diagonal) {
        for (size_t i = 0; i < nelem; ++i) {
            for (size_t j = 0; j < n; ++j) {
                for (size_t k = 0; k < n; ++k) {
                    if (j != k) {
                        e(i, j, k) = 0.0;
                    }
                }
            }
        }
    }
    return e;
}

// All nodes are part of an element
static Topo connected(Case& c)
{
    auto t = topo(c);
    size_t n = t.nnode, m = t.conn.shape(1), k = t.conn.shape(0), add = (n + m - 1) / m;
    I2 conn = xt::zeros<size_t>({k + add, m});
    std::copy(t.conn.begin(), t.conn.end(), conn.begin());
    for (size_t i = 0; i < add; ++i) {
        for (size_t j = 0; j < m; ++j) {
            conn(k + i, j) = std::min(i * m, n - m) + j;
        }
    }
    t.conn = conn;
    return t;
}

PROP(matrix, 120, 480)
{
    auto t = connected(c);
    GooseFEM::Matrix A(t.conn, t.dofs);
    GooseFEM::MatrixSolver<> S;
    Value o = make(c, "Matrix", {in("conn", t.conn), in("dofs", t.dofs)});
    Value s = make(c, "MatrixSolver", {});
    size_t nstep = c.in(1, 3);
    c.nontrivial(nstep > 1);
    for (size_t i = 0; i < nstep; ++i) {
        D3 e = stiffness(c, t.conn.shape(0), t.conn.shape(1) * t.ndim, false);
        REQUIRE(c, none(method(c, o, "assemble", {in("elemmat", e)})), "");
        A.assemble(e);
        if (c.flip()) {
            size_t n = c.in(1, std::min<size_t>(A.ndof(), 4));
            I1 rows = vec(c.subset(A.ndof(), n));
            I1 cols = vec(c.subset(A.ndof(), c.in(1, A.ndof())));
            bool ok = c.flip();
            if (ok) {
                cols = rows; // keep it regular
            }
            D2 m = field<2>(c, {rows.size(), cols.size()}, 1e-2);
            method(c, o, "add", {in("rows", rows), in("cols", cols), in("matrix", m)});
            A.add(rows, cols, m);
        }
        matrix_common(c, o, A);
        GET(o, A, data);
        D1 b = field<1>(c, {A.ndof()}), x = junk<1>({A.ndof()});
        D2 f = field<2>(c, {t.nnode, t.ndim}), u = junk<2>({t.nnode, t.ndim});
        Value px = py::cast(x), pu = py::cast(u);
        SAME(method(c, s, "Solve", {in("A", o), in("b", b)}), S.Solve(A, b));
        SAME(method(c, s, "Solve", {in("A", o), in("b", f)}), S.Solve(A, f));
        REQUIRE(c, none(method(c, s, "solve", {in("A", o), in("b", b), out("x", px)})), "");
        method(c, s, "solve", {in("A", o), in("b", f), out("x", pu)});
        S.solve(A, b, x);
        S.solve(A, f, u);
        SAME(px, x);
        SAME(pu, u);
    }
    // "set": everything
    I1 all = vec(c.perm(A.ndof()));
    D2 m = field<2>(c, {A.ndof(), A.ndof()});
    method(c, o, "set", {in("rows", all), in("cols", all), in("matrix", m)});
    A.set(all, all, m);
    matrix_common(c, o, A);
    GET(o, A, data);
}

PROP(matrix_partitioned, 120, 480)
{
    auto t = connected(c);
    auto iip = prescribed(c, gen::amax(t.dofs) + 1);
    if (iip.size() == gen::amax(t.dofs) + 1) {
        iip = vec({0});
        if (gen::amax(t.dofs) == 0) {
            iip = vec({});
        }
    }
    GooseFEM::MatrixPartitioned A(t.conn, t.dofs, iip);
    GooseFEM::MatrixPartitionedSolver<> S;
    Value o = make(c, "MatrixPartitioned", {in("conn", t.conn), in("dofs", t.dofs), in("iip", iip)});
    Value s = make(c, "MatrixPartitionedSolver", {});
    c.nontrivial(iip.size() > 0);
    size_t nstep = c.in(1, 3);
    for (size_t i = 0; i < nstep; ++i) {
        D3 e = stiffness(c, t.conn.shape(0), t.conn.shape(1) * t.ndim, false);
        method(c, o, "assemble", {in("elemmat", e)});
        A.assemble(e);
        matrix_common(c, o, A);
        matrix_partitioned(c, o, A);
        GET(o, A, data_uu);
        GET(o, A, data_up);
        GET(o, A, data_pu);
        GET(o, A, data_pp);
        D1 b = field<1>(c, {A.ndof()}), x = field<1>(c, {A.ndof()});
        D2 f = field<2>(c, {t.nnode, t.ndim}), u = field<2>(c, {t.nnode, t.ndim});
        D1 bu = field<1>(c, {A.nnu()}), xp = field<1>(c, {A.nnp()}), xu = junk<1>({A.nnu()});
        SAME(method(c, s, "Solve", {in("A", o), in("b", b), in("x", x)}), S.Solve(A, b, x));
        SAME(method(c, s, "Solve", {in("A", o), in("b", f), in("x", u)}), S.Solve(A, f, u));
        SAME(method(c, s, "Solve_u", {in("A", o), in("b_u", bu), in("x_p", xp)}), S.Solve_u(A, bu, xp));
        Value px = py::cast(x), pu = py::cast(u), pxu = py::cast(xu);
        method(c, s, "solve", {in("A", o), in("b", b), out("x", px)});
        method(c, s, "solve", {in("A", o), in("b", f), out("x", pu)});
        method(c, s, "solve_u", {in("A", o), in("b_u", bu), in("x_p", xp), out("x_u", pxu)});
        S.solve(A, b, x);
        S.solve(A, f, u);
        S.solve_u(A, bu, xp, xu);
        SAME(px, x);
        SAME(pu, u);
        SAME(pxu, xu);
    }
}

template <class T>
static void diagonal_solve(Case& c, const Value& o, T& A)
{
    D1 b = field<1>(c, {A.ndof()}), x = field<1>(c, {A.ndof()});
    D2 f = field<2>(c, {A.nnode(), A.ndim()}), u = field<2>(c, {A.nnode(), A.ndim()});
    Value px = py::cast(x), pu = py::cast(u);
    SAME(method(c, o, "Solve", {in("b", b)}), A.Solve(b));
    SAME(method(c, o, "Solve", {in("b", f)}), A.Solve(f));
    method(c, o, "solve", {in("b", b), out("x", px)});
    method(c, o, "solve", {in("b", f), out("x", pu)});
    A.solve(b, x);
    A.solve(f, u);
    SAME(px, x);
    SAME(pu, u);
}

PROP(matrix_diagonal, 120, 480)
{
    auto t = connected(c);
    size_t nstep = c.in(1, 3);
    c.nontrivial(nstep > 1);
    size_t n = t.conn.shape(1) * t.ndim;
    if (c.flip()) {
        GooseFEM::MatrixDiagonal A(t.conn, t.dofs);
        Value o = make(c, "MatrixDiagonal", {in("conn", t.conn), in("dofs", t.dofs)});
        for (size_t i = 0; i < nstep; ++i) {
            if (c.flip()) {
                D1 a = field<1>(c, {A.ndof()});
                for (auto& v : a) {
                    v = 1.0 + std::abs(v);
                }
                set(c, o, "data", py::cast(a));
                A.set(a);
            }
            else {
                D3 e = stiffness(c, t.conn.shape(0), n, true);
                method(c, o, "assemble", {in("elemmat", e)});
                A.assemble(e);
            }
            matrix_common(c, o, A);
            GET(o, A, data);
            diagonal_solve(c, o, A);
        }
        return;
    }
    auto iip = prescribed(c, gen::amax(t.dofs) + 1);
    GooseFEM::MatrixDiagonalPartitioned A(t.conn, t.dofs, iip);
    Value o = make(c, "MatrixDiagonalPartitioned", {in("conn", t.conn), in("dofs", t.dofs), in("iip", iip)});
    for (size_t i = 0; i < nstep; ++i) {
        D3 e = stiffness(c, t.conn.shape(0), n, true);
        method(c, o, "assemble", {in("elemmat", e)});
        A.assemble(e);
        matrix_common(c, o, A);
        matrix_partitioned(c, o, A);
        GET(o, A, data);
        GET(o, A, data_uu);
        GET(o, A, data_pp);
        D1 xu = field<1>(c, {A.nnu()}), xp = field<1>(c, {A.nnp()});
        SAME(method(c, o, "Dot_u", {in("x_u", xu), in("x_p", xp)}), A.Dot_u(xu, xp));
        SAME(method(c, o, "Dot_p", {in("x_u", xu), in("x_p", xp)}), A.Dot_p(xu, xp));
        SAME(method(c, o, "Solve_u", {in("b_u", xu), in("x_p", xp)}), A.Solve_u(xu, xp));
    }
}

// ------------------------------------------------------------------------------- tyings

PROP(tyings, 120, 480)
{
    // periodic mesh, nodes displaced
    size_t nx = c.in(1, 4), ny = c.in(1, 4);
    D2 coor;
    I2 conn, dofs, ties;
    if (c.rare(4)) {
        M::Hex8::Regular m(nx, c.in(1, 2), c.in(1, 2));
        coor = m.coor(), conn = m.conn(), dofs = m.dofs(), ties = m.nodesPeriodic();
    }
    else {
        M::Quad4::Regular m(nx, ny);
        coor = m.coor(), conn = m.conn(), dofs = m.dofs(), ties = m.nodesPeriodic();
    }
    size_t nd = coor.shape(1);
    GooseFEM::Tyings::Control C(coor, dofs);
    Value pc = make(c, "Tyings.Control", {in("coor", coor), in("dofs", dofs)});
    GET(pc, C, coor);
    GET(pc, C, dofs);
    GET(pc, C, controlDofs);
    GET(pc, C, controlNodes);

    // prescribe: control, and one corner
    std::set<size_t> dep;
    for (size_t i = 0; i < ties.shape(0); ++i) {
        for (size_t j = 0; j < nd; ++j) {
            dep.insert(dofs(ties(i, 1), j));
        }
    }
    std::vector<size_t> iip(C.controlDofs().begin(), C.controlDofs().end());
    for (auto d : c.subset(dofs.size(), c.in(0, nd))) {
        if (!dep.count(d)) {
            iip.push_back(d);
        }
    }
    bool all = c.rare(6); // nothing prescribed: another constructor
    std::vector<Arg> args = {in("coor", C.coor()), in("dofs", C.dofs()), in("control_dofs", C.controlDofs()), in("nodal_tyings", ties)};
    if (!all) {
        args.push_back(in("iip", vec(iip)));
    }
    Value pp = make(c, "Tyings.Periodic", args);
    GooseFEM::Tyings::Periodic P = all ? GooseFEM::Tyings::Periodic(C.coor(), C.dofs(), C.controlDofs(), ties) : GooseFEM::Tyings::Periodic(C.coor(), C.dofs(), C.controlDofs(), ties, vec(iip));
    c.nontrivial(!all && ties.shape(0) > 0);
    GET(pp, P, nnd);
    GET(pp, P, nni);
    GET(pp, P, nnu);
    GET(pp, P, nnp);
    GET(pp, P, dofs);
    GET(pp, P, control);
    GET(pp, P, nodal_tyings);
    GET(pp, P, iid);
    GET(pp, P, iii);
    GET(pp, P, iiu);
    GET(pp, P, iip);
    GET(pp, P, Cdi);
    GET(pp, P, Cdu);
    GET(pp, P, Cdp);

    {
        GooseFEM::VectorPartitionedTyings v(conn, P.dofs(), P.Cdu(), P.Cdp(), P.Cdi());
        Value o = make(c, "VectorPartitionedTyings", {in("conn", conn), in("dofs", P.dofs()), in("Cdu", P.Cdu()), in("Cdp", P.Cdp()), in("Cdi", P.Cdi())});
        GET(o, v, nnu);
        GET(o, v, nnp);
        GET(o, v, nni);
        GET(o, v, nnd);
        GET(o, v, iiu);
        GET(o, v, iip);
        GET(o, v, iii);
        GET(o, v, iid);
        GET(o, v, ndof);
        GET(o, v, dofs);
        D2 nodevec = field<2>(c, v.shape_nodevec());
        SAME(method(c, o, "AsDofs_i", {in("nodevec", nodevec)}), v.AsDofs_i(nodevec));
        D1 d = junk<1>({v.nni()});
        Value pd = py::cast(d);
        std::vector<Arg> a = {in("nodevec", nodevec), out("dofval_i", pd)};
        bool given = c.flip(), apply = c.flip();
        if (given) {
            a.push_back(in("apply_tyings", apply));
        }
        method(c, o, "asDofs_i", a);
        given ? v.asDofs_i(nodevec, d, apply) : v.asDofs_i(nodevec, d);
        SAME(pd, d);
        D1 src = field<1>(c, {v.ndof()}), dest = junk<1>({v.ndof()});
        Value pdest = py::cast(dest);
        method(c, o, "copy_p", {in("dofval_src", src), out("dofval_dest", pdest)});
        v.copy_p(src, dest);
        SAME(pdest, dest);
        SAME(method(c, o, "AsDofs", {in("arg", nodevec)}), v.AsDofs(nodevec));
    }

    GooseFEM::MatrixPartitionedTyings A(conn, P.dofs(), P.Cdu(), P.Cdp());
    Value o = make(c, "MatrixPartitionedTyings", {in("conn", conn), in("dofs", P.dofs()), in("Cdu", P.Cdu()), in("Cdp", P.Cdp())});
    GET(o, A, nelem);
    GET(o, A, nne);
    GET(o, A, nnode);
    GET(o, A, ndim);
    GET(o, A, ndof);
    GET(o, A, dofs);
    GET(o, A, conn);
    GET(o, A, nnu);
    GET(o, A, nnp);
    GET(o, A, nni);
    GET(o, A, nnd);
    GET(o, A, iiu);
    GET(o, A, iip);
    GET(o, A, iii);
    GET(o, A, iid);
    D3 e = stiffness(c, conn.shape(0), conn.shape(1) * nd, false);
    method(c, o, "assemble", {in("elemmat", e)});
    A.assemble(e);
    GET(o, A, data_uu);
    GET(o, A, data_up);
    GET(o, A, data_pu);
    GET(o, A, data_pp);
    GET(o, A, data_ud);
    GET(o, A, data_pd);
    GET(o, A, data_du);
    GET(o, A, data_dp);
    GET(o, A, data_dd);
    if (all || A.nnu() == 0) {
        return; // the control nodes are in no element: singular
    }
    GooseFEM::MatrixPartitionedTyingsSolver<> S;
    Value s = make(c, "MatrixPartitionedTyingsSolver", {});
    D1 b = field<1>(c, {A.ndof()}), x = field<1>(c, {A.ndof()});
    D2 f = field<2>(c, {A.nnode(), nd}), u = field<2>(c, {A.nnode(), nd});
    D1 bu = field<1>(c, {A.nnu()}), bd = field<1>(c, {A.nnd()}), xp = field<1>(c, {A.nnp()}), xu = junk<1>({A.nnu()});
    SAME(method(c, s, "Solve", {in("A", o), in("b", b), in("x", x)}), S.Solve(A, b, x));
    SAME(method(c, s, "Solve", {in("A", o), in("b", f), in("x", u)}), S.Solve(A, f, u));
    SAME(method(c, s, "Solve_u", {in("matrix", o), in("b_u", bu), in("b_d", bd), in("x_p", xp)}), S.Solve_u(A, bu, bd, xp));
    Value px = py::cast(x), pu = py::cast(u), pxu = py::cast(xu);
    method(c, s, "solve", {in("A", o), in("b", b), out("x", px)});
    method(c, s, "solve", {in("A", o), in("b", f), out("x", pu)});
    method(c, s, "solve_u", {in("matrix", o), in("b_u", bu), in("b_d", bd), in("x_p", xp), out("x_u", pxu)});
    S.solve(A, b, x);
    S.solve(A, f, u);
    S.solve_u(A, bu, bd, xp, xu);
    SAME(px, x);
    SAME(pu, u);
    SAME(pxu, xu);
}

// ------------------------------------------------------------------------------- elements

template <class T>
static void quadrature_common(Case& c, const Value& o, T& q, Kind kind)
{
    GET(o, q, nelem);
    GET(o, q, nne);
    GET(o, q, ndim);
    GET(o, q, tdim);
    GET(o, q, nip);
    GET(o, q, dV);
    size_t ne = q.nelem(), nn = q.nne(), nd = q.ndim(), td = q.tdim(), ni = q.nip();
    size_t rank = c.in(0, 4), arb = c.in(1, 4);
    SAME(method(c, o, "shape_elemvec"), q.shape_elemvec());
    SAME(method(c, o, "shape_elemvec", {in("tdim", arb)}), q.shape_elemvec(arb));
    SAME(method(c, o, "shape_elemmat"), q.shape_elemmat());
    SAME(method(c, o, "shape_qtensor", {in("rank", rank)}), q.shape_qtensor(rank));
    SAME(method(c, o, "shape_qtensor", {in("rank", rank), in("tdim", arb)}), q.shape_qtensor(rank, arb));
    SAME(method(c, o, "shape_qscalar"), q.shape_qscalar());
    SAME(method(c, o, "shape_qvector"), q.shape_qvector());
    SAME(method(c, o, "shape_qvector", {in("tdim", arb)}), q.shape_qvector(arb));

    D2 s = field<2>(c, {ne, ni});
    SAME(method(c, o, "AsTensor", {in("rank", rank), in("qscalar", s)}), q.AsTensor(rank, xt::xarray<double>(s)));

    D3 x = elements(c, kind, ne);
    REQUIRE(c, none(method(c, o, "update_x", {in("x", x)})), "");
    q.update_x(x);
    GET(o, q, dV);

    D3 u = field<3>(c, {ne, nn, nd});
    D3 v = field<3>(c, {ne, ni, nd});
    D4 t = field<4>(c, {ne, ni, td, td});
    D6 g = field<6>(c, {ne, ni, td, td, td, td});
    SAME(method(c, o, "InterpQuad_vector", {in("elemvec", u)}), q.InterpQuad_vector(u));
    SAME(method(c, o, "GradN_vector", {in("elemvec", u)}), q.GradN_vector(u));
    SAME(method(c, o, "GradN_vector_T", {in("elemvec", u)}), q.GradN_vector_T(u));
    SAME(method(c, o, "SymGradN_vector", {in("elemvec", u)}), q.SymGradN_vector(u));
    SAME(method(c, o, "Int_N_scalar_NT_dV", {in("qscalar", s)}), q.Int_N_scalar_NT_dV(s));
    SAME(method(c, o, "Int_gradN_dot_tensor2_dV", {in("qtensor", t)}), q.Int_gradN_dot_tensor2_dV(t));
    SAME(method(c, o, "Int_gradN_dot_tensor4_dot_gradNT_dV", {in("qtensor", g)}), q.Int_gradN_dot_tensor4_dot_gradNT_dV(g));

    D3 qv = junk<3>({ne, ni, nd}), ev = junk<3>({ne, nn, nd}), em = junk<3>({ne, nn * nd, nn * nd});
    D4 qt = junk<4>({ne, ni, td, td});
    Value pqv = py::cast(qv), pev = py::cast(ev), pem = py::cast(em), pqt = py::cast(qt);
    method(c, o, "interpQuad_vector", {in("elemvec", u), out("qvector", pqv)});
    q.interpQuad_vector(u, qv);
    SAME(pqv, qv);
    method(c, o, "gradN_vector", {in("elemvec", u), out("qtensor", pqt)});
    q.gradN_vector(u, qt);
    SAME(pqt, qt);
    method(c, o, "gradN_vector_T", {in("elemvec", u), out("qtensor", pqt)});
    q.gradN_vector_T(u, qt);
    SAME(pqt, qt);
    method(c, o, "symGradN_vector", {in("elemvec", u), out("qtensor", pqt)});
    q.symGradN_vector(u, qt);
    SAME(pqt, qt);
    method(c, o, "int_N_scalar_NT_dV", {in("qscalar", s), out("elemmat", pem)});
    q.int_N_scalar_NT_dV(s, em);
    SAME(pem, em);
    method(c, o, "int_gradN_dot_tensor2_dV", {in("qtensor", t), out("elemvec", pev)});
    q.int_gradN_dot_tensor2_dV(t, ev);
    SAME(pev, ev);
    method(c, o, "int_gradN_dot_tensor4_dot_gradNT_dV", {in("qtensor", g), out("elemmat", pem)});
    q.int_gradN_dot_tensor4_dot_gradNT_dV(g, em);
    SAME(pem, em);
    if (nd == q.tdim() || kind == Kind::planar) {
        SAME(method(c, o, "Int_N_vector_dV", {in("qvector", v)}), q.Int_N_vector_dV(v));
        method(c, o, "int_N_vector_dV", {in("qvector", v), out("elemvec", pev)});
        q.int_N_vector_dV(v, ev);
        SAME(pev, ev);
    }
}

PROP(quadrature, 150, 600)
{
    Kind kind = static_cast<Kind>(c.in(0, 3));
    c.desc << name(kind) << "; ";
    size_t nelem = c.in(1, 5);
    c.nontrivial(nelem > 1);
    D3 x = elements(c, kind, nelem);
    Scheme s = scheme(c, kind);
    std::vector<Arg> args = {in("x", x)};
    if (s.kind != 0) {
        args.push_back(in("xi", s.xi));
        args.push_back(in("w", s.w));
    }
    if (kind == Kind::quad4) {
        auto q = Quad<Kind::quad4>::make(x, s, 1.0);
        Value o = make(c, "Element.Quad4.Quadrature", args);
        quadrature_common(c, o, q, kind);
        GET(o, q, GradN);
    }
    else if (kind == Kind::planar) {
        double thick = 1.0;
        if (c.flip()) {
            thick = c.real(0.5, 2.0);
            args.push_back(in("thick", thick));
        }
        auto q = Quad<Kind::planar>::make(x, s, thick);
        Value o = make(c, "Element.Quad4.QuadraturePlanar", args);
        quadrature_common(c, o, q, kind);
        GET(o, q, GradN);
    }
    else if (kind == Kind::axisym) {
        auto q = Quad<Kind::axisym>::make(x, s, 1.0);
        Value o = make(c, "Element.Quad4.QuadratureAxisymmetric", args);
        quadrature_common(c, o, q, kind);
        GET(o, q, B);
    }
    else {
        auto q = Quad<Kind::hex8>::make(x, s, 1.0);
        Value o = make(c, "Element.Hex8.Quadrature", args);
        quadrature_common(c, o, q, kind);
        GET(o, q, GradN);
    }
}

#define POINTS(path, ns) \
    SAME(call(c, path ".nip", {}), ns::nip()); \
    SAME(call(c, path ".xi", {}), ns::xi()); \
    SAME(call(c, path ".w", {}), ns::w())

PROP(element, 100, 400)
{
    namespace E = GooseFEM::Element;
    POINTS("Element.Quad4.Gauss", E::Quad4::Gauss);
    POINTS("Element.Quad4.Nodal", E::Quad4::Nodal);
    POINTS("Element.Quad4.MidPoint", E::Quad4::MidPoint);
    POINTS("Element.Hex8.Gauss", E::Hex8::Gauss);
    POINTS("Element.Hex8.Nodal", E::Hex8::Nodal);
    SAME(call(c, "version", {}), GooseFEM::version());
    SAME(call(c, "version_dependencies", {}), GooseFEM::version_dependencies());
    auto t = topo(c);
    D2 n = field<2>(c, {t.nnode, t.ndim});
    SAME(call(c, "Element.asElementVector", {in("conn", t.conn), in("nodevec", n)}), E::asElementVector(t.conn, n));
    D3 e = field<3>(c, {t.conn.shape(0), t.conn.shape(1), t.ndim});
    SAME(call(c, "Element.assembleElementVector", {in("conn", t.conn), in("elemvec", e)}), E::assembleNodeVector(t.conn, e));
    c.nontrivial(t.conn.shape(0) > 1);
}

PROP(allocate, 100, 400)
{
    std::vector<size_t> shape;
    size_t rank = c.in(1, 3);
    for (size_t i = 0; i < rank; ++i) {
        shape.push_back(c.in(1, 3));
    }
    xt::xarray<double> a = xt::zeros<double>(shape);
    auto s = c.stream();
    for (auto& v : a) {
        v = s();
    }
    size_t r = c.in(1, 2), n = c.in(1, 3);
    SAME(call(c, "AsTensor", {in("rank", r), in("arg", a), in("n", n)}), GooseFEM::AsTensor(r, a, n));
    std::vector<size_t> more(r, n);
    std::vector<size_t> full = shape;
    full.insert(full.end(), more.begin(), more.end());
    SAME(call(c, "AsTensor", {in("arg", a), in("shape", full)}), GooseFEM::AsTensor(a, full));
    D2 v = field<2>(c, {c.in(1, 4), c.in(1, 3)});
    SAME(call(c, "as3d", {in("arg", v)}), GooseFEM::as3d(xt::xarray<double>(v)));
    xt::xarray<long> l = xt::zeros<long>(shape);
    for (auto& i : l) {
        i = static_cast<long>(c.in(0, 12)) - 6;
    }
    SAME(call(c, "is_unique", {in("a", l)}), GooseFEM::is_unique(l));
    c.nontrivial(rank > 1);
}

PROP(iterate, 150, 600)
{
    bool given = c.flip();
    size_t n = c.in(1, 5);
    GooseFEM::Iterate::StopList L = given ? GooseFEM::Iterate::StopList(n) : GooseFEM::Iterate::StopList();
    Value o = make(c, "Iterate.StopList", given ? std::vector<Arg>{in("n", n)} : std::vector<Arg>{});
    size_t steps = c.in(1, 8);
    c.nontrivial(steps > n);
    for (size_t i = 0; i < steps; ++i) {
        if (c.rare(6)) {
            method(c, o, "reset");
            L.reset();
        }
        else {
            double r = c.real(0.0, 2.0);
            method(c, o, "roll_insert", {in("res", r)});
            L.roll_insert(r);
        }
        double tol = c.real(0.0, 2.0);
        GET(o, L, data);
        SAME(method(c, o, "descending"), L.descending());
        SAME(method(c, o, "all_less", {in("tol", tol)}), L.all_less(tol));
    }
}

// ------------------------------------------------------------------------------- meshes

template <class T>
static void regular(Case& c, const Value& o, T& m)
{
    GET(o, m, nelem);
    GET(o, m, nnode);
    GET(o, m, nne);
    GET(o, m, ndim);
    GET(o, m, nelx);
    GET(o, m, nely);
    GET(o, m, h);
    GET(o, m, elementType);
    GET(o, m, coor);
    GET(o, m, conn);
    GET(o, m, dofs);
    GET(o, m, dofsPeriodic);
    GET(o, m, nodesPeriodic);
    GET(o, m, nodesOrigin);
}

template <class T>
static void regular2d(Case& c, const Value& o, T& m)
{
    regular(c, o, m);
#define N(name) GET(o, m, nodes##name);
    N(BottomEdge) N(TopEdge) N(LeftEdge) N(RightEdge)
    N(BottomOpenEdge) N(TopOpenEdge) N(LeftOpenEdge) N(RightOpenEdge)
    N(BottomLeftCorner) N(BottomRightCorner) N(TopLeftCorner) N(TopRightCorner)
    N(LeftBottomCorner) N(LeftTopCorner) N(RightBottomCorner) N(RightTopCorner)
}

template <class T>
static void regular3d(Case& c, const Value& o, T& m)
{
    regular(c, o, m);
    N(Front) N(Back) N(Left) N(Right) N(Bottom) N(Top)
    N(FrontFace) N(BackFace) N(LeftFace) N(RightFace) N(BottomFace) N(TopFace)
#define EDGE(a, b) N(a##b##Edge) N(b##a##Edge) N(a##b##OpenEdge) N(b##a##OpenEdge)
    EDGE(Front, Bottom) EDGE(Front, Top) EDGE(Front, Left) EDGE(Front, Right)
    EDGE(Back, Bottom) EDGE(Back, Top) EDGE(Back, Left) EDGE(Back, Right)
    EDGE(Bottom, Left) EDGE(Bottom, Right) EDGE(Top, Left) EDGE(Top, Right)
#define CORNER(a, b, d) N(a##b##d##Corner) N(a##d##b##Corner) N(b##a##d##Corner) N(b##d##a##Corner) N(d##a##b##Corner) N(d##b##a##Corner)
    CORNER(Front, Bottom, Left) CORNER(Front, Bottom, Right) CORNER(Front, Top, Left) CORNER(Front, Top, Right)
    CORNER(Back, Bottom, Left) CORNER(Back, Bottom, Right) CORNER(Back, Top, Left) CORNER(Back, Top, Right)
}

// arguments of the constructor: drop optional ones
static std::vector<Arg> optional(Case& c, std::vector<Arg> args, size_t nopt, size_t& given)
{
    given = c.in(0, nopt);
    args.resize(args.size() - nopt + given);
    return args;
}

PROP(meshes, 120, 480)
{
    size_t nx = c.in(1, 5), ny = c.in(1, 5), nz = c.in(1, 3), given;
    double h = edge_length(c);
    size_t kind = c.in(0, 4);
    c.nontrivial(nx != ny);
    c.desc << "kind " << kind << " " << nx << "x" << ny << "x" << nz << " h=" << h;
    if (kind == 0) {
        Value o = make(c, "Mesh.Quad4.Regular", optional(c, {in("nx", nx), in("ny", ny), in("h", h)}, 1, given));
        M::Quad4::Regular m(nx, ny, given ? h : 1.0);
        regular2d(c, o, m);
        GET(o, m, elementgrid);
    }
    else if (kind == 1) {
        Value o = make(c, "Mesh.Tri3.Regular", optional(c, {in("nx", nx), in("ny", ny), in("h", h)}, 1, given));
        M::Tri3::Regular m(nx, ny, given ? h : 1.0);
        regular2d(c, o, m);
    }
    else if (kind == 2) {
        Value o = make(c, "Mesh.Hex8.Regular", optional(c, {in("nx", nx), in("ny", ny), in("nz", nz), in("h", h)}, 1, given));
        M::Hex8::Regular m(nx, ny, nz, given ? h : 1.0);
        regular3d(c, o, m);
    }
    else if (kind == 3) {
        size_t nfine = c.in(1, 4);
        nx *= 3;
        Value o = make(c, "Mesh.Hex8.FineLayer", optional(c, {in("nx", nx), in("ny", ny), in("nz", nz), in("h", h), in("nfine", nfine)}, 2, given));
        M::Hex8::FineLayer m(nx, ny, nz, given > 0 ? h : 1.0, given > 1 ? nfine : 1);
        SAME(method(c, o, "elementsMiddleLayer"), m.elementsMiddleLayer());
        regular3d(c, o, m);
    }
    else {
        size_t nfine = c.in(1, 4);
        nx *= 3;
        ny = c.in(1, 20);
        Value o = make(c, "Mesh.Quad4.FineLayer", optional(c, {in("nx", nx), in("ny", ny), in("h", h), in("nfine", nfine)}, 2, given));
        M::Quad4::FineLayer m(nx, ny, given > 0 ? h : 1.0, given > 1 ? nfine : 1);
        if (c.flip()) {
            Value q = make(c, "Mesh.Quad4.FineLayer", {in("coor", m.coor()), in("conn", m.conn())});
            M::Quad4::FineLayer n(D2(m.coor()), I2(m.conn()));
            m = n;
            o = q;
            c.label("from mesh");
        }
        regular2d(c, o, m);
        GET(o, m, elemrow_nhx);
        GET(o, m, elemrow_nhy);
        GET(o, m, elemrow_type);
        GET(o, m, elemrow_nelem);
        GET(o, m, elementsMiddleLayer);
        size_t layer = c.in(0, m.elemrow_nhx().size() - 1);
        SAME(method(c, o, "elementsLayer", {in("layer", layer)}), m.elementsLayer(layer));
        size_t H = 0, step = 1;
        for (size_t i = 0; i < m.elemrow_nhy().size(); ++i) {
            H += m.elemrow_nhy()(i);
            step = std::max(step, m.elemrow_nhx()(i));
        }
        std::vector<size_t> rows, cols;
        if (c.flip()) {
            size_t a = c.in(0, H);
            rows = {a, c.in(a, H)};
        }
        if (c.flip()) {
            size_t a = c.in(0, nx);
            cols = {a, c.in(a, nx)};
        }
        SAME(method(c, o, "elementgrid_ravel", {in("rows_range", rows), in("cols_range", cols)}), m.elementgrid_ravel(rows, cols));
        I1 mid = m.elementsMiddleLayer();
        size_t e = mid(c.in(0, mid.size() - 1)), size = c.in(0, 4), left = c.in(0, 3), right = c.in(0, 3), n = c.in(0, 3);
        bool per = true; // "false" is not implemented
        std::vector<Arg> args = {in("element", e), in("size", size)};
        bool pass = c.flip();
        if (pass) {
            args.push_back(in("periodic", per));
        }
        SAME(method(c, o, "elementgrid_around_ravel", args), pass ? m.elementgrid_around_ravel(e, size, per) : m.elementgrid_around_ravel(e, size));
        args = {in("element", e), in("left", left), in("right", right)};
        if (pass) {
            args.push_back(in("periodic", per));
        }
        SAME(method(c, o, "elementgrid_leftright", args), pass ? m.elementgrid_leftright(e, left, right, per) : m.elementgrid_leftright(e, left, right));
        SAME(method(c, o, "roll", {in("", n)}), m.roll(n));
    }
}

template <size_t R>
static Arr<double, R> elemvar(Case& c, size_t nelem)
{
    std::array<size_t, R> shape;
    shape[0] = nelem;
    for (size_t i = 1; i < R; ++i) {
        shape[i] = c.in(1, 2);
    }
    return field<R>(c, shape);
}

template <size_t R, class T>
static void refine_fields(Case& c, const Value& o, const T& r)
{
    auto a = elemvar<R>(c, r.map().shape(0));
    Arr<double, R> f = r.mapToFine(a);
    SAME(method(c, o, "mapToFine", {in("", a)}), f);
    auto s = c.stream();
    Arr<double, R> w = f;
    fill(f, s);
    for (auto& v : w) {
        v = 1.0 + std::abs(s());
    }
    SAME(method(c, o, "meanToCoarse", {in("", f)}), r.meanToCoarse(f));
    SAME(method(c, o, "averageToCoarse", {in("", f), in("", w)}), r.averageToCoarse(f, w));
}

PROP(maps, 120, 480)
{
    namespace Q = M::Quad4;
    size_t rank = c.in(1, 4);
    if (c.flip()) {
        size_t nx = c.in(1, 4), ny = c.in(1, 4), fx = c.in(1, 3), fy = c.in(1, 3);
        double h = edge_length(c);
        Q::Regular mesh(nx, ny, h);
        Value pm = make(c, "Mesh.Quad4.Regular", {in("nx", nx), in("ny", ny), in("h", h)});
        Value o = make(c, "Mesh.Quad4.Map.RefineRegular", {in("mesh", pm), in("nx", fx), in("ny", fy)});
        Q::Map::RefineRegular r(mesh, fx, fy);
        GET(o, r, map);
        GET(o, r, coarseMesh);
        GET(o, r, fineMesh);
        c.nontrivial(fx != fy);
        rank == 1 ? refine_fields<1>(c, o, r) : rank == 2 ? refine_fields<2>(c, o, r) : rank == 3 ? refine_fields<3>(c, o, r) : refine_fields<4>(c, o, r);
        return;
    }
    size_t nx = 3 * c.in(1, 3), ny = c.in(1, 12);
    Q::FineLayer mesh(nx, ny);
    Value pm = make(c, "Mesh.Quad4.FineLayer", {in("nx", nx), in("ny", ny)});
    Value o = make(c, "Mesh.Quad4.Map.FineLayer2Regular", {in("mesh", pm)});
    Q::Map::FineLayer2Regular r(mesh);
    GET(o, r, map);
    GET(o, r, mapFraction);
    GET(o, r, regularMesh);
    GET(o, r, fineLayerMesh);
    c.nontrivial(mesh.nelem() != r.regularMesh().nelem());
    size_t n = mesh.nelem();
    auto f1 = elemvar<1>(c, n);
    auto f2 = elemvar<2>(c, n);
    auto f3 = elemvar<3>(c, n);
    auto f4 = elemvar<4>(c, n);
    SAME(method(c, o, "mapToRegular", {in("", f1)}), r.mapToRegular(f1));
    SAME(method(c, o, "mapToRegular", {in("", f2)}), r.mapToRegular(f2));
    SAME(method(c, o, "mapToRegular", {in("", f3)}), r.mapToRegular(f3));
    SAME(method(c, o, "mapToRegular", {in("", f4)}), r.mapToRegular(f4));
}

// ------------------------------------------------------------------------------- Mesh

template <class T>
static void stitched(Case& c, const Value& o, const T& s, const std::vector<size_t>& nnode, const std::vector<size_t>& nelem)
{
    GET(o, s, nmesh);
    GET(o, s, nnode);
    GET(o, s, nelem);
    GET(o, s, ndim);
    GET(o, s, nne);
    GET(o, s, coor);
    GET(o, s, conn);
    GET(o, s, dofs);
    SAME(method(c, o, "nodemap"), s.nodemap());
    SAME(method(c, o, "elemmap"), s.elemmap());
    size_t i = c.in(0, nnode.size() - 1);
    SAME(method(c, o, "nodemap", {in("mesh_index", i)}), s.nodemap(i));
    SAME(method(c, o, "elemmap", {in("mesh_index", i)}), s.elemmap(i));
    I1 ns = vec(c.subset(nnode[i], c.in(0, nnode[i]))), es = vec(c.subset(nelem[i], c.in(0, nelem[i])));
    SAME(method(c, o, "nodeset", {in("set", ns), in("mesh_index", i)}), s.nodeset(ns, i));
    SAME(method(c, o, "elemset", {in("set", es), in("mesh_index", i)}), s.elemset(es, i));
}

PROP(stitch, 150, 600)
{
    size_t kind = c.in(0, 2);
    double h = c.pick({1.0, 0.5, 3.0});
    size_t nmesh = kind == 0 ? 2 : c.in(1, 4);
    size_t nx = c.in(1, 4);
    std::vector<D2> coor;
    std::vector<I2> conn;
    std::vector<I1> bot, top;
    std::vector<size_t> nnode, nelem;
    double y = 0.0;
    for (size_t i = 0; i < nmesh; ++i) {
        size_t ny = c.in(1, 3);
        M::Quad4::Regular m(nx, ny, h);
        D2 x = m.coor();
        if (kind < 2) {
            for (size_t j = 0; j < x.shape(0); ++j) {
                x(j, 1) += y;
            }
            y += h * ny;
        }
        coor.push_back(x);
        conn.push_back(m.conn());
        bot.push_back(m.nodesBottomEdge());
        top.push_back(m.nodesTopEdge());
        nnode.push_back(m.nnode());
        nelem.push_back(m.nelem());
    }
    double rtol = c.pick({1e-5, 1e-3}), atol = c.pick({1e-8, 1e-6});
    size_t given;
    c.nontrivial(nmesh > 1);
    if (kind == 0) {
        SAME(call(c, "Mesh.overlapping", optional(c, {in("coor_a", coor[0]), in("coor_b", coor[1]), in("rtol", rtol), in("atol", atol)}, 2, given)), M::overlapping(coor[0], coor[1]));
        bool check = c.flip();
        auto args = optional(c, {in("coor_a", coor[0]), in("conn_a", conn[0]), in("overlapping_nodes_a", top[0]), in("coor_b", coor[1]), in("conn_b", conn[1]), in("overlapping_nodes_b", bot[1]), in("check_position", check), in("rtol", rtol), in("atol", atol)}, 3, given);
        Value o = make(c, "Mesh.ManualStitch", args);
        M::ManualStitch s(coor[0], conn[0], top[0], coor[1], conn[1], bot[1]);
        stitched(c, o, s, nnode, nelem);
        return;
    }
    Value o;
    std::shared_ptr<M::Stitch> s;
    M::Vstack* stack = nullptr;
    if (kind == 1) {
        o = make(c, "Mesh.Stitch", optional(c, {in("rtol", rtol), in("atol", atol)}, 2, given));
        s = std::make_shared<M::Stitch>();
    }
    else {
        bool check = true;
        o = make(c, "Mesh.Vstack", optional(c, {in("check_overlap", check), in("rtol", rtol), in("atol", atol)}, 3, given));
        auto v = std::make_shared<M::Vstack>();
        stack = v.get();
        s = v;
    }
    std::vector<I1> ns, es;
    Value pns, pes;
    pns.kind = pes.kind = Value::List;
    for (size_t i = 0; i < nmesh; ++i) {
        if (kind == 1) {
            REQUIRE(c, none(method(c, o, "push_back", {in("coor", coor[i]), in("conn", conn[i])})), "");
            s->push_back(coor[i], conn[i]);
        }
        else {
            method(c, o, "push_back", {in("coor", coor[i]), in("conn", conn[i]), in("nodes_bottom", bot[i]), in("nodes_top", top[i])});
            stack->push_back(coor[i], conn[i], bot[i], top[i]);
        }
        ns.push_back(vec(c.subset(nnode[i], c.in(0, nnode[i]))));
        es.push_back(vec(c.subset(nelem[i], c.in(0, nelem[i]))));
        pns.list.push_back(py::cast(ns[i]));
        pes.list.push_back(py::cast(es[i]));
    }
    stitched(c, o, *s, nnode, nelem);
    SAME(method(c, o, "nodeset", {in("set", pns)}), s->nodeset(ns));
    SAME(method(c, o, "elemset", {in("set", pes)}), s->elemset(es));
}

// The tolerances are those that are given.
PROP(tolerance, 80, 320)
{
    M::Quad4::Regular m(c.in(1, 3), c.in(1, 3), 1.0);
    D2 a = m.coor(), b = m.coor();
    double x0 = c.pick({0.0, 1.0, 10.0});
    double shift = std::pow(10.0, -static_cast<double>(c.in(1, 9)));
    for (size_t i = 0; i < a.shape(0); ++i) {
        for (size_t j = 0; j < 2; ++j) {
            a(i, j) += x0;
            b(i, j) += x0 + (j == 0 ? shift : 0.0);
        }
    }
    double rtol = std::pow(10.0, -static_cast<double>(c.in(2, 9))), atol = std::pow(10.0, -static_cast<double>(c.in(2, 9)));
    size_t given;
    c.nontrivial();
    auto args = optional(c, {in("coor_a", a), in("coor_b", b), in("rtol", rtol), in("atol", atol)}, 2, given);
    SAME(call(c, "Mesh.overlapping", args), given == 0 ? M::overlapping(a, b) : given == 1 ? M::overlapping(a, b, rtol) : M::overlapping(a, b, rtol, atol));
    Value o = make(c, "Mesh.Stitch", {in("rtol", rtol), in("atol", atol)});
    M::Stitch s(rtol, atol);
    for (auto& x : {a, b}) {
        method(c, o, "push_back", {in("coor", x), in("conn", m.conn())});
        s.push_back(x, m.conn());
    }
    GET(o, s, nnode);
    GET(o, s, conn);
    // ManualStitch: check or not
    bool check = c.flip();
    std::vector<Arg> arg = {in("coor_a", a), in("conn_a", m.conn()), in("overlapping_nodes_a", m.nodesTopEdge()), in("coor_b", b), in("conn_b", m.conn()), in("overlapping_nodes_b", m.nodesTopEdge()), in("check_position", check), in("rtol", rtol), in("atol", atol)};
    bool thrown[2] = {false, false};
    Value q;
    std::unique_ptr<M::ManualStitch> t;
    try {
        t.reset(new M::ManualStitch(a, m.conn(), m.nodesTopEdge(), b, m.conn(), m.nodesTopEdge(), check, rtol, atol));
    }
    catch (const std::runtime_error&) {
        thrown[0] = true;
    }
    try {
        q = make(c, "Mesh.ManualStitch", arg);
    }
    catch (const pbt::Failure&) {
        throw;
    }
    catch (const std::runtime_error&) {
        thrown[1] = true;
    }
    c.label(thrown[0], "rejected");
    REQUIRE(c, thrown[0] == thrown[1], "ManualStitch: rejected in C++ " << thrown[0] << " in Python " << thrown[1]);
    if (!thrown[0]) {
        GET(q, (*t), conn);
        GET(q, (*t), coor);
    }
}

PROP(mesh_functions, 200, 800)
{
    auto t = topo(c);
    c.nontrivial(t.conn.shape(0) > 1);
    size_t n = c.in(1, 5), d = c.in(1, 3), given;
    SAME(call(c, "Mesh.dofs", {in("nnode", n), in("ndim", d)}), M::dofs(n, d));
    SAME(call(c, "Mesh.coordination", {in("conn", t.conn)}), M::coordination(t.conn));
    bool sorted = c.flip();
    {
        auto args = optional(c, {in("conn", t.conn), in("sorted", sorted)}, 1, given);
        SAME(call(c, "Mesh.elem2node", args), M::elem2node(t.conn, given ? sorted : true));
        args = optional(c, {in("dofs", t.dofs), in("sorted", sorted)}, 1, given);
        SAME(call(c, "Mesh.node2dof", args), M::node2dof(t.dofs, given ? sorted : true));
    }
    // numbers with gaps
    I2 gaps = t.dofs;
    for (auto& i : gaps) {
        i = 2 * i + 3;
    }
    SAME(call(c, "Mesh.renumber", {in("dofs", gaps)}), M::renumber(gaps));
    xt::xarray<size_t> any = gaps;
    M::Renumber R(any);
    Value r = make(c, "Mesh.Renumber", {in("dofs", any)});
    SAME(method(c, r, "apply", {in("", any)}), R.apply(any));
    GET(r, R, index);
    // reorder: a partition of the numbers in up to four lists
    size_t total = c.in(1, 12), nlist = c.in(1, 4);
    std::vector<std::vector<size_t>> lists(nlist);
    for (auto i : c.perm(total)) {
        lists[c.in(0, nlist - 1)].push_back(i);
    }
    std::vector<Arg> args;
    std::vector<I1> l;
    for (auto& i : lists) {
        args.push_back(in("", vec(i)));
        l.push_back(vec(i));
    }
    Value o = make(c, "Mesh.Reorder", args);
    M::Reorder O = nlist == 1 ? M::Reorder({l[0]}) : nlist == 2 ? M::Reorder({l[0], l[1]}) : nlist == 3 ? M::Reorder({l[0], l[1], l[2]}) : M::Reorder({l[0], l[1], l[2], l[3]});
    GET(o, O, index);
    xt::xarray<size_t> q = xt::zeros<size_t>({size_t(2), size_t(3)});
    for (auto& i : q) {
        i = c.in(0, total - 1);
    }
    SAME(method(c, o, "apply", {in("", q)}), O.apply(q));
}

template <class T>
static void mesh_geometry(Case& c, T&& m, M::ElementType type)
{
    D2 x = m.coor();
    I2 conn = m.conn();
    I2 dofs = m.dofsPeriodic();
    auto s = c.stream();
    for (auto& v : x) {
        v += 0.1 * m.h() * s() / 3.0;
    }
    bool sorted = c.flip();
    std::vector<Arg> args = {in("conn", conn), in("dofs", dofs)};
    if (c.flip()) {
        sorted = true;
    }
    else {
        args.push_back(in("sorted", sorted));
    }
    SAME(call(c, "Mesh.elem2node", args), M::elem2node(conn, dofs, sorted));
    SAME(call(c, "Mesh.nodaltyings", {in("dofs", dofs)}), M::nodaltyings(dofs));
    std::vector<Arg> a = {in("coor", x), in("conn", conn)};
    if (c.flip()) {
        a.push_back(in("type", type));
        c.label("type");
    }
    if (type == M::ElementType::Quad4) {
        SAME(call(c, "Mesh.edgesize", a), M::edgesize(x, conn, type));
        SAME(call(c, "Mesh.centers", a), M::centers(x, conn, type));
    }
    if (type == M::ElementType::Quad4) {
        SAME(call(c, "Mesh.nodal_mass", a), M::nodal_mass(x, conn, type));
        SAME(call(c, "Mesh.center_of_gravity", a), M::center_of_gravity(x, conn, type));
    }
}

PROP(geometry, 120, 480)
{
    size_t nx = c.in(1, 4), ny = c.in(1, 4), kind = c.in(0, 2);
    double h = edge_length(c);
    c.nontrivial(nx != ny);
    if (kind == 0) {
        M::Quad4::Regular m(nx, ny, h);
        mesh_geometry(c, m, M::ElementType::Quad4);
        // periodic translation by a number of elements
        I1 map = xt::zeros<size_t>({m.nelem()});
        size_t sx = c.in(0, nx - 1);
        for (size_t e = 0; e < map.size(); ++e) {
            map(e) = (e / nx) * nx + (e % nx + sx) % nx;
        }
        std::vector<Arg> a = {in("elem_map", map), in("coor", m.coor()), in("conn", m.conn())};
        if (c.flip()) {
            a.push_back(in("type", M::ElementType::Quad4));
        }
        SAME(call(c, "Mesh.elemmap2nodemap", a), M::elemmap2nodemap(map, D2(m.coor()), I2(m.conn())));
    }
    else if (kind == 1) {
        mesh_geometry(c, M::Tri3::Regular(nx, ny, h), M::ElementType::Tri3);
    }
    else {
        mesh_geometry(c, M::Hex8::Regular(nx, ny, c.in(1, 2), h), M::ElementType::Hex8);
    }
}

PROP(triangle, 100, 400)
{
    M::Tri3::Regular m(c.in(1, 4), c.in(1, 4), edge_length(c));
    D2 x = m.coor();
    I2 conn = m.conn();
    bool flipped = false;
    for (size_t e = 0; e < conn.shape(0); ++e) {
        if (c.flip()) {
            std::swap(conn(e, 1), conn(e, 2));
            flipped = true;
        }
    }
    c.nontrivial(flipped);
    auto val = M::Tri3::getOrientation(x, conn);
    SAME(call(c, "Mesh.Tri3.getOrientation", {in("coor", x), in("conn", conn)}), val);
    int o = c.flip() ? 1 : -1;
    SAME(call(c, "Mesh.Tri3.setOrientation", {in("coor", x), in("conn", conn), in("orientation", o)}), M::Tri3::setOrientation(x, conn, o));
    SAME(call(c, "Mesh.Tri3.setOrientation", {in("coor", x), in("conn", conn), in("val", val), in("orientation", o)}), M::Tri3::setOrientation(x, conn, val, o));
}

// names of the element types
PROP(names, 20, 80)
{
    auto& e = *root().modules.at("Mesh")->modules.at("ElementType");
    auto& m = *root().modules.at("Mesh");
    c.nontrivial();
    for (auto i : {&e.constants, &m.constants}) {
        REQUIRE(c, i->size() == 4, "ElementType");
        SAME(i->at("Unknown"), M::ElementType::Unknown);
        SAME(i->at("Tri3"), M::ElementType::Tri3);
        SAME(i->at("Quad4"), M::ElementType::Quad4);
        SAME(i->at("Hex8"), M::ElementType::Hex8);
    }
}

PBT_MAIN("C28")
