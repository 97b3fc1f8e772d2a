// C25: input of the wrong shape or content is rejected, objects remain usable.
//
// Oracle: two identical objects see the same history of valid calls, one of them sees additional invalid calls:
// each of those has to end in an exception (without any memory error: the check is compiled with AddressSanitizer),
// and all results of the valid calls have to be bitwise identical.
#include "element.hpp"
#include "meshes.hpp"
using namespace gen;

using Flat = std::vector<uint64_t>;

static uint64_t bits(double v)
{
    uint64_t r;
    static_assert(sizeof(r) == sizeof(v), "");
    std::memcpy(&r, &v, sizeof(r));
    return v != v ? 1 : r;
}

template <class A>
static Flat flat(const A& a)
{
    Flat r;
    for (size_t i = 0; i < a.dimension(); ++i) {
        r.push_back(a.shape(i));
    }
    for (const auto& v : a) {
        r.push_back(bits(static_cast<double>(v)));
    }
    return r;
}

// ---------------------------------------------------------------- wrong shapes

// Change the length of one of the axes (that are selected by the bits of "axes")
template <class T, size_t N>
static void misshape(Case& c, Arr<T, N>& a, unsigned axes, size_t kind)
{
    std::array<size_t, N> shape;
    std::copy(a.shape().begin(), a.shape().end(), shape.begin());
    std::vector<size_t> ax;
    for (size_t i = 0; i < N; ++i) {
        if (axes & (1u << i)) {
            ax.push_back(i);
        }
    }
    size_t i = ax[c.in(0, ax.size() - 1)];
    size_t n = shape[i];
    if (kind == 4 && N >= 2) { // other order
        size_t j = ax[c.in(0, ax.size() - 1)];
        std::swap(shape[i], shape[j]);
    }
    else if (kind == 3) {
        shape[i] = 2 * n;
    }
    else if (kind == 2) {
        shape[i] = 0;
    }
    else if (kind == 1 && n > 0) {
        shape[i] = n - 1;
    }
    if (std::equal(shape.begin(), shape.end(), a.shape().begin())) {
        shape[i] = n + 1;
    }
    Arr<T, N> b = xt::zeros<T>(shape);
    if (a.size() > 0) {
        for (size_t k = 0; k < b.size(); ++k) {
            b.data()[k] = a.data()[k % a.size()];
        }
    }
    c.desc << " shape {";
    for (size_t k = 0; k < N; ++k) {
        c.desc << (k ? "," : "") << a.shape(k);
    }
    c.desc << "}->{";
    for (size_t k = 0; k < N; ++k) {
        c.desc << (k ? "," : "") << shape[k];
    }
    c.desc << "}";
    a = b;
}

template <class O>
struct Ops {
    struct Op {
        std::string name;
        std::function<Flat(O&)> good; // empty: there is no valid call
        std::function<void(O&, Case&)> bad; // empty: all calls are valid
    };
    std::vector<Op> v;
    static constexpr unsigned all = ~0u;

    // "f" is called with the object, and the arguments; "axes": axes of which the length is fixed, per argument
    template <class F, class... A>
    void add(const std::string& name, std::vector<unsigned> axes, F f, A... args)
    {
        Op op;
        op.name = name;
        op.good = [=](O& o) {
            std::tuple<A...> t(args...);
            return std::apply([&](auto&... a) { return f(o, a...); }, t);
        };
        op.bad = [=](O& o, Case& c) {
            std::tuple<A...> t(args...);
            size_t n = sizeof...(A);
            size_t which = c.in(0, n); // last: all of them
            if (n == 1) {
                which = 0;
            }
            size_t kind = c.in(0, 4);
            size_t k = 0;
            auto change = [&](auto& a) {
                unsigned m = axes.empty() ? all : axes[k];
                if ((which == k || which == n) && m != 0) {
                    c.desc << " argument " << k << ":";
                    misshape(c, a, m, kind);
                }
                ++k;
            };
            if (which < n && !axes.empty() && axes[which] == 0) {
                which = n;
            }
            std::apply([&](auto&... a) { (change(a), ...); }, t);
            c.label("rejected: " + name);
            REQUIRE_THROWS(c, std::exception, std::apply([&](auto&... a) { f(o, a...); }, t), name);
        };
        v.push_back(op);
    }
    template <class F, class... A>
    void add(const std::string& name, F f, A... args)
    {
        this->add(name, std::vector<unsigned>{}, f, args...);
    }
    // calls that are always invalid
    template <class F>
    void never(const std::string& name, F f)
    {
        Op op;
        op.name = name;
        op.bad = [=](O& o, Case& c) {
            c.label("rejected: " + name);
            REQUIRE_THROWS(c, std::exception, f(o, c), name);
        };
        v.push_back(op);
    }

    void run(Case& c, O& object, O& twin)
    {
        size_t n = 1 + c.small(0, 12);
        bool rejected = false, used = false;
        for (size_t i = 0; i < n; ++i) {
            const Op& op = v[c.in(0, v.size() - 1)];
            if (!op.good || c.flip()) {
                c.desc << "reject " << op.name << ":";
                op.bad(object, c);
                c.desc << "; ";
                rejected = true;
            }
            else {
                c.desc << op.name << "; ";
                Flat a = op.good(object);
                Flat b = op.good(twin);
                REQUIRE(c, a == b, op.name << ": result depends on calls that were rejected");
                used = used || rejected;
            }
        }
        // all functions are still usable
        if (c.rare(2)) {
            for (auto& op : v) {
                if (op.good) {
                    REQUIRE(c, op.good(object) == op.good(twin), op.name << ": result depends on calls that were rejected (end)");
                }
            }
            used = rejected;
        }
        c.nontrivial(rejected && used);
    }
};

#define OP(name, ...) ops.add(name, __VA_ARGS__)

// ---------------------------------------------------------------- vectors

// functions of the base class Vector
template <class V>
static void vector_ops(Ops<V>& ops, Case& c, const V& v)
{
    D1 d = field<1>(c, v.shape_dofval());
    D2 n = field<2>(c, v.shape_nodevec());
    D3 e = field<3>(c, v.shape_elemvec());
    D1 d0 = junk<1>(v.shape_dofval());
    D2 n0 = junk<2>(v.shape_nodevec());
    D3 e0 = junk<3>(v.shape_elemvec());
    using X = xt::xarray<double>;
    OP("Copy", [](V& v, D2& a, D2& b) { return flat(v.Copy(a, b)); }, n, n0);
    OP("copy", [](V& v, D2& a, D2& b) { v.copy(a, b); return flat(b); }, n, n0);
    OP("AsDofs(nodevec)", [](V& v, D2& a) { return flat(v.GooseFEM::Vector::AsDofs(a)); }, n);
    OP("AsDofs(elemvec)", [](V& v, D3& a) { return flat(v.GooseFEM::Vector::AsDofs(a)); }, e);
    OP("AsNode(dofval)", [](V& v, D1& a) { return flat(v.AsNode(a)); }, d);
    OP("AsNode(elemvec)", [](V& v, D3& a) { return flat(v.AsNode(a)); }, e);
    OP("AsElement(dofval)", [](V& v, D1& a) { return flat(v.AsElement(a)); }, d);
    OP("AsElement(nodevec)", [](V& v, D2& a) { return flat(v.AsElement(a)); }, n);
    OP("AssembleDofs(nodevec)", [](V& v, D2& a) { return flat(v.AssembleDofs(a)); }, n);
    OP("AssembleDofs(elemvec)", [](V& v, D3& a) { return flat(v.AssembleDofs(a)); }, e);
    OP("AssembleNode(elemvec)", [](V& v, D3& a) { return flat(v.AssembleNode(a)); }, e);
    OP("asDofs(nodevec)", [](V& v, D2& a, D1& r) { v.asDofs(a, r); return flat(r); }, n, d0);
    OP("asDofs(elemvec)", [](V& v, D3& a, D1& r) { v.asDofs(a, r); return flat(r); }, e, d0);
    OP("asNode(dofval)", [](V& v, D1& a, D2& r) { v.asNode(a, r); return flat(r); }, d, n0);
    OP("asNode(elemvec)", [](V& v, D3& a, D2& r) { v.asNode(a, r); return flat(r); }, e, n0);
    OP("asElement(dofval)", [](V& v, D1& a, D3& r) { v.asElement(a, r); return flat(r); }, d, e0);
    OP("asElement(nodevec)", [](V& v, D2& a, D3& r) { v.asElement(a, r); return flat(r); }, n, e0);
    OP("assembleDofs(nodevec)", [](V& v, D2& a, D1& r) { v.assembleDofs(a, r); return flat(r); }, n, d0);
    OP("assembleDofs(elemvec)", [](V& v, D3& a, D1& r) { v.assembleDofs(a, r); return flat(r); }, e, d0);
    OP("assembleNode(elemvec)", [](V& v, D3& a, D2& r) { v.assembleNode(a, r); return flat(r); }, e, n0);
    // dynamic rank
    OP("AsDofs(xarray nodevec)", [](V& v, D2& a) { X x = a; return flat(v.AsDofs(x)); }, n);
    OP("AsDofs(xarray elemvec)", [](V& v, D3& a) { X x = a; return flat(v.AsDofs(x)); }, e);
    OP("AsNode(xarray dofval)", [](V& v, D1& a) { X x = a; return flat(v.AsNode(x)); }, d);
    OP("AsNode(xarray elemvec)", [](V& v, D3& a) { X x = a; return flat(v.AsNode(x)); }, e);
    OP("AsElement(xarray dofval)", [](V& v, D1& a) { X x = a; return flat(v.AsElement(x)); }, d);
    OP("AsElement(xarray nodevec)", [](V& v, D2& a) { X x = a; return flat(v.AsElement(x)); }, n);
    OP("AssembleDofs(xarray nodevec)", [](V& v, D2& a) { X x = a; return flat(v.AssembleDofs(x)); }, n);
    OP("AssembleDofs(xarray elemvec)", [](V& v, D3& a) { X x = a; return flat(v.AssembleDofs(x)); }, e);
    OP("AssembleNode(xarray elemvec)", [](V& v, D3& a) { X x = a; return flat(v.AssembleNode(x)); }, e);
    // an array of a rank that cannot be converted
    auto rank = [](V& v, Case& c) {
        X x = xt::ones<double>(std::vector<size_t>(c.in(4, 5), 2));
        X y = xt::ones<double>(std::vector<size_t>{v.ndof()});
        X z = xt::ones<double>(std::vector<size_t>{v.nnode(), v.ndim()});
        X w = xt::ones<double>(std::vector<size_t>{v.nelem(), v.nne(), v.ndim()});
        switch (c.in(0, 10)) {
        case 0:
            v.GooseFEM::Vector::AsDofs(x);
            break;
        case 1:
            v.AsNode(x);
            break;
        case 2:
            v.AsElement(x);
            break;
        case 3:
            v.AssembleDofs(x);
            break;
        case 4:
            v.AssembleNode(x);
            break;
        case 5:
            v.GooseFEM::Vector::AsDofs(y);
            break;
        case 6:
            v.AsNode(z);
            break;
        case 7:
            v.AsElement(w);
            break;
        case 8:
            v.AssembleDofs(y);
            break;
        case 9:
            v.AssembleNode(y);
            break;
        default:
            v.AssembleNode(z);
            break;
        }
    };
    ops.never("rank", rank);
}

PROP(vector, 3000, 30000)
{
    using V = GooseFEM::Vector;
    auto t = topo(c);
    V v(t.conn, t.dofs);
    V w(t.conn, t.dofs);
    Ops<V> ops;
    vector_ops(ops, c, v);
    ops.run(c, v, w);
}

PROP(vector_partitioned, 4000, 40000)
{
    using V = GooseFEM::VectorPartitioned;
    auto t = topo(c);
    size_t ndof = gen::amax(t.dofs) + 1;
    I1 iip = prescribed(c, ndof);
    V v(t.conn, t.dofs, iip);
    V w(t.conn, t.dofs, iip);
    Ops<V> ops;
    if (c.rare(4)) {
        vector_ops(ops, c, v);
    }
    D1 d = field<1>(c, v.shape_dofval());
    D2 n = field<2>(c, v.shape_nodevec());
    D3 e = field<3>(c, v.shape_elemvec());
    D1 u = field<1>(c, {v.nnu()});
    D1 p = field<1>(c, {v.nnp()});
    D1 d0 = junk<1>(v.shape_dofval());
    D2 n0 = junk<2>(v.shape_nodevec());
    D3 e0 = junk<3>(v.shape_elemvec());
    D1 u0 = junk<1>({v.nnu()});
    D1 p0 = junk<1>({v.nnp()});
    OP("Copy_u", [](V& v, D2& a, D2& b) { return flat(v.Copy_u(a, b)); }, n, n0);
    OP("Copy_p", [](V& v, D2& a, D2& b) { return flat(v.Copy_p(a, b)); }, n, n0);
    OP("copy_u", [](V& v, D2& a, D2& b) { v.copy_u(a, b); return flat(b); }, n, n0);
    OP("copy_p", [](V& v, D2& a, D2& b) { v.copy_p(a, b); return flat(b); }, n, n0);
    OP("DofsFromParitioned", [](V& v, D1& a, D1& b) { return flat(v.DofsFromParitioned(a, b)); }, u, p);
    OP("NodeFromPartitioned", [](V& v, D1& a, D1& b) { return flat(v.NodeFromPartitioned(a, b)); }, u, p);
    OP("ElementFromPartitioned", [](V& v, D1& a, D1& b) { return flat(v.ElementFromPartitioned(a, b)); }, u, p);
    OP("dofsFromParitioned", [](V& v, D1& a, D1& b, D1& r) { v.dofsFromParitioned(a, b, r); return flat(r); }, u, p, d0);
    OP("nodeFromPartitioned", [](V& v, D1& a, D1& b, D2& r) { v.nodeFromPartitioned(a, b, r); return flat(r); }, u, p, n0);
    OP("elementFromPartitioned", [](V& v, D1& a, D1& b, D3& r) { v.elementFromPartitioned(a, b, r); return flat(r); }, u, p, e0);
    OP("AsDofs_u(dofval)", [](V& v, D1& a) { return flat(v.AsDofs_u(a)); }, d);
    OP("AsDofs_u(nodevec)", [](V& v, D2& a) { return flat(v.AsDofs_u(a)); }, n);
    OP("AsDofs_u(elemvec)", [](V& v, D3& a) { return flat(v.AsDofs_u(a)); }, e);
    OP("AsDofs_p(dofval)", [](V& v, D1& a) { return flat(v.AsDofs_p(a)); }, d);
    OP("AsDofs_p(nodevec)", [](V& v, D2& a) { return flat(v.AsDofs_p(a)); }, n);
    OP("AsDofs_p(elemvec)", [](V& v, D3& a) { return flat(v.AsDofs_p(a)); }, e);
    OP("asDofs_u(dofval)", [](V& v, D1& a, D1& r) { v.asDofs_u(a, r); return flat(r); }, d, u0);
    OP("asDofs_u(nodevec)", [](V& v, D2& a, D1& r) { v.asDofs_u(a, r); return flat(r); }, n, u0);
    OP("asDofs_u(elemvec)", [](V& v, D3& a, D1& r) { v.asDofs_u(a, r); return flat(r); }, e, u0);
    OP("asDofs_p(dofval)", [](V& v, D1& a, D1& r) { v.asDofs_p(a, r); return flat(r); }, d, p0);
    OP("asDofs_p(nodevec)", [](V& v, D2& a, D1& r) { v.asDofs_p(a, r); return flat(r); }, n, p0);
    OP("asDofs_p(elemvec)", [](V& v, D3& a, D1& r) { v.asDofs_p(a, r); return flat(r); }, e, p0);
    ops.run(c, v, w);
}

// ---------------------------------------------------------------- matrices

// A mesh of which all nodes are connected, positive definite element matrices.
struct Sys {
    I2 conn, dofs;
    I1 iip;
    size_t nnode, ndim, nelem, nne, ndof;
    D3 elemmat, elemmat2;
};

static Sys sys(Case& c, bool diagonal)
{
    Sys s;
    auto t = topo(c);
    s.conn = t.conn;
    s.dofs = t.dofs;
    s.nnode = t.nnode;
    s.ndim = t.ndim;
    s.nelem = t.conn.shape(0);
    s.nne = t.conn.shape(1);
    std::set<size_t> used;
    for (auto m : s.conn) {
        for (size_t i = 0; i < s.ndim; ++i) {
            used.insert(s.dofs(m, i));
        }
    }
    s.ndof = gen::amax(s.dofs) + 1;
    if (used.size() < s.ndof && !diagonal) { // all DOFs have to be connected, to be able to solve
        I2 conn = xt::zeros<size_t>({s.nelem + s.nnode, s.nne});
        for (size_t e = 0; e < s.nelem + s.nnode; ++e) {
            for (size_t m = 0; m < s.nne; ++m) {
                conn(e, m) = e < s.nelem ? s.conn(e, m) : (e - s.nelem + m) % s.nnode;
            }
        }
        s.nelem += s.nnode;
        s.conn = conn;
    }
    size_t n = s.nne * s.ndim;
    for (auto* a : {&s.elemmat, &s.elemmat2}) {
        *a = xt::zeros<double>({s.nelem, n, n});
        auto st = c.stream();
        for (size_t e = 0; e < s.nelem; ++e) {
            for (size_t i = 0; i < n; ++i) {
                if (!diagonal) {
                    for (size_t j = 0; j < i; ++j) {
                        (*a)(e, i, j) = (*a)(e, j, i) = st();
                    }
                }
                (*a)(e, i, i) = 3.0 * static_cast<double>(n) + st();
            }
        }
    }
    s.iip = prescribed(c, s.ndof);
    return s;
}

// functions of MatrixBase; "get": get the matrix from the object
template <class O, class G>
static void matrix_ops(Ops<O>& ops, Case& c, const Sys& s, G get, bool dot = true)
{
    std::array<size_t, 1> sd{s.ndof};
    std::array<size_t, 2> sn{s.nnode, s.ndim};
    D1 d = field<1>(c, sd);
    D2 n = field<2>(c, sn);
    D1 d0 = junk<1>(sd);
    D2 n0 = junk<2>(sn);
    D2 K0 = junk<2>({s.ndof, s.ndof});
    OP("assemble", [=](O& o, D3& a) { get(o).assemble(a); return flat(get(o).Todense()); }, s.elemmat);
    OP("assemble", [=](O& o, D3& a) { get(o).assemble(a); return flat(get(o).Todense()); }, s.elemmat2);
    OP("todense", [=](O& o, D2& r) { get(o).todense(r); return flat(r); }, K0);
    if (!dot) {
        return;
    }
    OP("Dot(dofval)", [=](O& o, D1& a) { return flat(get(o).Dot(a)); }, d);
    OP("Dot(nodevec)", [=](O& o, D2& a) { return flat(get(o).Dot(a)); }, n);
    OP("dot(dofval)", [=](O& o, D1& a, D1& r) { get(o).dot(a, r); return flat(r); }, d, d0);
    OP("dot(nodevec)", [=](O& o, D2& a, D2& r) { get(o).dot(a, r); return flat(r); }, n, n0);
}

// set/add of a block
template <class O, class G>
static void block_ops(Ops<O>& ops, Case& c, const Sys& s, G get)
{
    auto rows = c.subset(s.ndof, c.in(1, s.ndof));
    auto cols = c.subset(s.ndof, c.in(1, s.ndof));
    I1 r = vec(rows), q = vec(cols);
    D2 m = field<2>(c, {rows.size(), cols.size()}, 1e-9); // the matrix stays invertible
    size_t ndof = s.ndof;
    auto call = [=](O& o, Case& c, const I1& i, const I1& j, const D2& a) {
        c.desc << " rows=" << str(i) << " cols=" << str(j) << " matrix: " << a.shape(0) << "x" << a.shape(1);
        if (c.flip()) {
            get(o).set(i, j, a);
        }
        else {
            get(o).add(i, j, a);
        }
    };
    typename Ops<O>::Op op;
    op.name = "add";
    op.good = [=](O& o) {
        get(o).add(r, q, m);
        return flat(get(o).Todense());
    };
    op.bad = [=](O& o, Case& c) { // the size of one of the arguments is not that of the others
        I1 i = r, j = q;
        D2 a = m;
        size_t k = c.in(0, 2);
        size_t how = c.in(0, 3);
        if (k == 0) {
            misshape(c, i, ~0u, how);
        }
        else if (k == 1) {
            misshape(c, j, ~0u, how);
        }
        else {
            misshape(c, a, ~0u, how);
        }
        REQUIRE_THROWS(c, std::exception, call(o, c, i, j, a), "set/add");
    };
    ops.v.push_back(op);
    ops.never("set/add: rows/cols out of range", [=](O& o, Case& c) {
        I1 i = r, j = q;
        I1& w = c.flip() ? i : j;
        w(c.in(0, w.size() - 1)) = c.flip() ? ndof : ndof + c.draw(0xFFFF);
        call(o, c, i, j, m);
    });
}

template <class O, class G>
static void reaction_ops(Ops<O>& ops, Case& c, const Sys& s, G get)
{
    std::array<size_t, 1> sd{s.ndof};
    std::array<size_t, 2> sn{s.nnode, s.ndim};
    size_t np = s.iip.size();
    size_t nu = s.ndof - np;
    D1 d = field<1>(c, sd);
    D2 n = field<2>(c, sn);
    D1 d0 = junk<1>(sd);
    D2 n0 = junk<2>(sn);
    D1 u = field<1>(c, {nu});
    D1 p = field<1>(c, {np});
    D1 p0 = junk<1>({np});
    OP("Reaction(dofval)", [=](O& o, D1& a, D1& b) { return flat(get(o).Reaction(a, b)); }, d, d0);
    OP("Reaction(nodevec)", [=](O& o, D2& a, D2& b) { return flat(get(o).Reaction(a, b)); }, n, n0);
    OP("reaction(dofval)", [=](O& o, D1& a, D1& r) { get(o).reaction(a, r); return flat(r); }, d, d0);
    OP("reaction(nodevec)", [=](O& o, D2& a, D2& r) { get(o).reaction(a, r); return flat(r); }, n, n0);
    OP("Reaction_p", [=](O& o, D1& a, D1& b) { return flat(get(o).Reaction_p(a, b)); }, u, p);
    OP("reaction_p", [=](O& o, D1& a, D1& b, D1& r) { get(o).reaction_p(a, b, r); return flat(r); }, u, p, p0);
}

PROP(matrix, 3000, 30000)
{
    struct O {
        GooseFEM::Matrix A;
        GooseFEM::MatrixSolver<> solver;
    };
    auto s = sys(c, false);
    O a{GooseFEM::Matrix(s.conn, s.dofs), {}};
    O b{GooseFEM::Matrix(s.conn, s.dofs), {}};
    a.A.assemble(s.elemmat);
    b.A.assemble(s.elemmat);
    Ops<O> ops;
    auto get = [](O& o) -> GooseFEM::Matrix& { return o.A; };
    matrix_ops(ops, c, s, get);
    block_ops(ops, c, s, get);
    D1 d = field<1>(c, {s.ndof});
    D2 n = field<2>(c, {s.nnode, s.ndim});
    OP("Solve(dofval)", [](O& o, D1& a) { return flat(o.solver.Solve(o.A, a)); }, d);
    OP("Solve(nodevec)", [](O& o, D2& a) { return flat(o.solver.Solve(o.A, a)); }, n);
    OP("solve(dofval)", [](O& o, D1& a, D1& r) { o.solver.solve(o.A, a, r); return flat(r); }, d, d);
    OP("solve(nodevec)", [](O& o, D2& a, D2& r) { o.solver.solve(o.A, a, r); return flat(r); }, n, n);
    ops.run(c, a, b);
}

PROP(matrix_partitioned, 4000, 40000)
{
    using K = GooseFEM::MatrixPartitioned;
    struct O {
        K A;
        GooseFEM::MatrixPartitionedSolver<> solver;
    };
    auto s = sys(c, false);
    O a{K(s.conn, s.dofs, s.iip), {}};
    O b{K(s.conn, s.dofs, s.iip), {}};
    a.A.assemble(s.elemmat);
    b.A.assemble(s.elemmat);
    Ops<O> ops;
    auto get = [](O& o) -> K& { return o.A; };
    matrix_ops(ops, c, s, get);
    block_ops(ops, c, s, get);
    reaction_ops(ops, c, s, get);
    size_t np = s.iip.size();
    size_t nu = s.ndof - np;
    D1 d = field<1>(c, {s.ndof});
    D2 n = field<2>(c, {s.nnode, s.ndim});
    D1 u = field<1>(c, {nu});
    D1 p = field<1>(c, {np});
    if (nu > 0) {
        OP("Solve(dofval)", [](O& o, D1& a, D1& x) { return flat(o.solver.Solve(o.A, a, x)); }, d, d);
        OP("Solve(nodevec)", [](O& o, D2& a, D2& x) { return flat(o.solver.Solve(o.A, a, x)); }, n, n);
        OP("solve(dofval)", [](O& o, D1& a, D1& x) { o.solver.solve(o.A, a, x); return flat(x); }, d, d);
        OP("solve(nodevec)", [](O& o, D2& a, D2& x) { o.solver.solve(o.A, a, x); return flat(x); }, n, n);
        OP("Solve_u", [](O& o, D1& a, D1& x) { return flat(o.solver.Solve_u(o.A, a, x)); }, u, p);
        OP("solve_u", [](O& o, D1& a, D1& x, D1& r) { o.solver.solve_u(o.A, a, x, r); return flat(r); }, u, p, u);
    }
    ops.run(c, a, b);
}

template <class O>
static void diagonal_ops(Ops<O>& ops, Case& c, const Sys& s)
{
    auto get = [](O& o) -> O& { return o; };
    matrix_ops(ops, c, s, get);
    D1 d = field<1>(c, {s.ndof});
    D2 n = field<2>(c, {s.nnode, s.ndim});
    D1 K = field<1>(c, {s.ndof});
    for (auto& v : K) {
        v = 3.0 + v;
    }
    OP("set", [](O& o, D1& a) { o.set(a); return flat(o.data()); }, K);
    OP("Solve(dofval)", [](O& o, D1& a) { return flat(o.Solve(a)); }, d);
    OP("Solve(nodevec)", [](O& o, D2& a) { return flat(o.Solve(a)); }, n);
    OP("solve(dofval)", [](O& o, D1& a, D1& r) { o.solve(a, r); return flat(r); }, d, d);
    OP("solve(nodevec)", [](O& o, D2& a, D2& r) { o.solve(a, r); return flat(r); }, n, n);
    D3 e = s.elemmat;
    auto content = [=](O& o, Case& c) {
        if (e.shape(1) < 2) {
            throw std::runtime_error("there are no off-diagonal terms");
        }
        D3 a = e;
        size_t i = c.in(0, a.shape(1) - 1);
        size_t j = c.in(0, a.shape(1) - 2);
        j += j >= i ? 1 : 0;
        size_t q = c.in(0, a.shape(0) - 1);
        a(q, i, j) = c.flip() ? 1.0 : -0.001;
        c.desc << " (" << q << "," << i << "," << j << ")=" << a(q, i, j);
        o.assemble(a);
    };
    ops.never("assemble: not diagonal", content);
}

PROP(matrix_diagonal, 3000, 30000)
{
    using O = GooseFEM::MatrixDiagonal;
    auto s = sys(c, true);
    O a(s.conn, s.dofs), b(s.conn, s.dofs);
    a.assemble(s.elemmat);
    b.assemble(s.elemmat);
    Ops<O> ops;
    diagonal_ops(ops, c, s);
    ops.run(c, a, b);
}

PROP(matrix_diagonal_partitioned, 4000, 40000)
{
    using O = GooseFEM::MatrixDiagonalPartitioned;
    auto s = sys(c, true);
    O a(s.conn, s.dofs, s.iip), b(s.conn, s.dofs, s.iip);
    a.assemble(s.elemmat);
    b.assemble(s.elemmat);
    Ops<O> ops;
    diagonal_ops(ops, c, s);
    auto get = [](O& o) -> O& { return o; };
    reaction_ops(ops, c, s, get);
    size_t np = s.iip.size();
    size_t nu = s.ndof - np;
    D1 u = field<1>(c, {nu});
    D1 p = field<1>(c, {np});
    OP("Dot_u", [](O& o, D1& a, D1& b) { return flat(o.Dot_u(a, b)); }, u, p);
    OP("Dot_p", [](O& o, D1& a, D1& b) { return flat(o.Dot_p(a, b)); }, u, p);
    OP("dot_u", [](O& o, D1& a, D1& b, D1& r) { o.dot_u(a, b, r); return flat(r); }, u, p, u);
    OP("dot_p", [](O& o, D1& a, D1& b, D1& r) { o.dot_p(a, b, r); return flat(r); }, u, p, p);
    OP("Solve_u", [](O& o, D1& a, D1& b) { return flat(o.Solve_u(a, b)); }, u, p);
    OP("solve_u", [](O& o, D1& a, D1& b, D1& r) { o.solve_u(a, b, r); return flat(r); }, u, p, u);
    ops.run(c, a, b);
}

// ---------------------------------------------------------------- tyings

struct Tied {
    D2 coor;
    I2 conn, dofs, control, ties;
    I1 iip;
    size_t nnode, ndim, nelem, nne, ndof;
};

// nodes, of which some are tied to another one, and control nodes; all DOFs are connected
static Tied tied(Case& c)
{
    Tied t;
    size_t n = 2 + c.small(0, 6);
    t.ndim = c.in(1, 3);
    size_t nd = c.in(0, n - 1);
    D2 coor = field<2>(c, {n, t.ndim});
    I2 dofs = xt::zeros<size_t>({n, t.ndim});
    for (size_t i = 0; i < dofs.size(); ++i) {
        dofs.flat(i) = i;
    }
    GooseFEM::Tyings::Control control(coor, dofs);
    t.coor = control.coor();
    t.dofs = control.dofs();
    t.control = control.controlDofs();
    t.nnode = n + t.ndim;
    t.ndof = t.nnode * t.ndim;
    auto p = c.perm(n);
    t.ties = xt::zeros<size_t>({nd, size_t(2)});
    for (size_t i = 0; i < nd; ++i) {
        t.ties(i, 0) = p[nd + c.in(0, n - nd - 1)];
        t.ties(i, 1) = p[i];
    }
    std::vector<size_t> iip;
    for (size_t i = nd; i < n; ++i) {
        for (size_t j = 0; j < t.ndim; ++j) {
            if (c.rare(3)) {
                iip.push_back(t.dofs(p[i], j));
            }
        }
    }
    for (auto d : t.control) {
        if (c.flip()) {
            iip.push_back(d);
        }
    }
    t.iip = vec(iip);
    t.nelem = t.nnode;
    t.nne = std::min<size_t>(c.in(1, 3), t.nnode);
    t.conn = xt::zeros<size_t>({t.nelem, t.nne});
    for (size_t e = 0; e < t.nelem; ++e) {
        for (size_t m = 0; m < t.nne; ++m) {
            t.conn(e, m) = (e + m) % t.nnode;
        }
    }
    c.desc << "ndim=" << t.ndim << " nodes=" << n << " ties=" << str(t.ties) << " iip=" << str(t.iip) << "; ";
    return t;
}

PROP(vector_tyings, 3000, 30000)
{
    using V = GooseFEM::VectorPartitionedTyings;
    auto t = tied(c);
    GooseFEM::Tyings::Periodic P(t.coor, t.dofs, t.control, t.ties, t.iip);
    I2 dofs = P.dofs();
    V v(t.conn, dofs, P.Cdu(), P.Cdp(), P.Cdi());
    V w(t.conn, dofs, P.Cdu(), P.Cdp(), P.Cdi());
    Ops<V> ops;
    D2 n = field<2>(c, v.shape_nodevec());
    D1 d = field<1>(c, v.shape_dofval());
    D1 i0 = junk<1>({v.nni()});
    D1 d0 = junk<1>(v.shape_dofval());
    OP("AsDofs_i", [](V& v, D2& a) { return flat(v.AsDofs_i(a)); }, n);
    OP("asDofs_i", [](V& v, D2& a, D1& r) { v.asDofs_i(a, r); return flat(r); }, n, i0);
    OP("asDofs_i(false)", [](V& v, D2& a, D1& r) { v.asDofs_i(a, r, false); return flat(r); }, n, i0);
    OP("AsDofs", [](V& v, D2& a) { return flat(v.AsDofs(a)); }, n);
    OP("AsNode", [](V& v, D1& a) { return flat(v.AsNode(a)); }, d);
    OP("AsElement", [](V& v, D2& a) { return flat(v.AsElement(a)); }, n);
    typename Ops<V>::Op op;
    op.name = "copy_p";
    op.good = [=](V& v) {
        D1 r = d0;
        v.copy_p(d, r);
        return flat(r);
    };
    op.bad = [=](V& v, Case& c) { // all or only the independent DOFs
        D1 a = d, r = d0;
        size_t n = c.in(0, 2 * v.ndof());
        if (n == v.ndof() || n == v.nni()) {
            n = v.ndof() + 1;
        }
        (c.flip() ? a : r) = xt::ones<double>({n});
        c.desc << " sizes " << a.size() << "," << r.size();
        REQUIRE_THROWS(c, std::exception, v.copy_p(a, r), "copy_p");
    };
    ops.v.push_back(op);
    ops.run(c, v, w);
}

PROP(matrix_tyings, 3000, 30000)
{
    using K = GooseFEM::MatrixPartitionedTyings;
    struct O {
        K A;
        GooseFEM::MatrixPartitionedTyingsSolver<> solver;
    };
    auto t = tied(c);
    GooseFEM::Tyings::Periodic P(t.coor, t.dofs, t.control, t.ties, t.iip);
    Sys s;
    s.conn = t.conn;
    s.dofs = P.dofs();
    s.nnode = t.nnode;
    s.ndim = t.ndim;
    s.ndof = t.ndof;
    size_t n = t.nne * t.ndim;
    for (auto* a : {&s.elemmat, &s.elemmat2}) {
        *a = xt::zeros<double>({t.nelem, n, n});
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t i = 0; i < n; ++i) {
                (*a)(e, i, i) = c.real(1, 5);
            }
        }
    }
    O a{K(s.conn, s.dofs, P.Cdu(), P.Cdp()), {}};
    O b{K(s.conn, s.dofs, P.Cdu(), P.Cdp()), {}};
    a.A.assemble(s.elemmat);
    b.A.assemble(s.elemmat);
    Ops<O> ops;
    matrix_ops(ops, c, s, [](O& o) -> K& { return o.A; }, false);
    D1 d = field<1>(c, {s.ndof});
    D2 v = field<2>(c, {s.nnode, s.ndim});
    D1 u = field<1>(c, {P.nnu()});
    D1 p = field<1>(c, {P.nnp()});
    D1 q = field<1>(c, {P.nnd()});
    if (P.nnu() > 0) {
        OP("Solve(dofval)", [](O& o, D1& a, D1& x) { return flat(o.solver.Solve(o.A, a, x)); }, d, d);
        OP("Solve(nodevec)", [](O& o, D2& a, D2& x) { return flat(o.solver.Solve(o.A, a, x)); }, v, v);
        OP("solve(dofval)", [](O& o, D1& a, D1& x) { o.solver.solve(o.A, a, x); return flat(x); }, d, d);
        OP("solve(nodevec)", [](O& o, D2& a, D2& x) { o.solver.solve(o.A, a, x); return flat(x); }, v, v);
        OP("Solve_u", [](O& o, D1& a, D1& b, D1& x) { return flat(o.solver.Solve_u(o.A, a, b, x)); }, u, q, p);
        OP("solve_u", [](O& o, D1& a, D1& b, D1& x, D1& r) { o.solver.solve_u(o.A, a, b, x, r); return flat(r); }, u, q, p, u);
    }
    ops.run(c, a, b);
}

// ---------------------------------------------------------------- numerical integration

template <Kind K>
static void quadrature(Case& c)
{
    using QT = typename Quad<K>::type;
    size_t nelem = c.small(1, 4);
    D3 x = elements(c, K, nelem);
    if (K == Kind::axisym) {
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t m = 0; m < 4; ++m) {
                x(e, m, 1) += 100.0;
            }
        }
    }
    Scheme s = scheme(c, K);
    QT q = Quad<K>::make(x, s, 1.0);
    QT w = Quad<K>::make(x, s, 1.0);
    Ops<QT> ops;
    size_t nn = q.nne(), nd = q.ndim(), td = q.tdim(), nip = q.nip();
    D3 ev = field<3>(c, {nelem, nn, nd});
    D3 ev0 = junk<3>({nelem, nn, nd});
    D3 em0 = junk<3>({nelem, nn * nd, nn * nd});
    D2 qs = field<2>(c, {nelem, nip});
    D4 qt = field<4>(c, {nelem, nip, td, td});
    D4 qt0 = junk<4>({nelem, nip, td, td});
    D6 qc = field<6>(c, {nelem, nip, td, td, td, td});
    size_t n = c.in(1, 4);
    D3 en = ev;
    D3 qn0 = junk<3>({nelem, nip, nd});
    const unsigned all = ~0u, lead = 3;
    D3 y = x;
    for (auto& v : y) {
        v *= 1.5;
    }
    OP("update_x", [](QT& q, D3& a) { q.update_x(a); return flat(q.dV()); }, x);
    OP("update_x", [](QT& q, D3& a) { q.update_x(a); return flat(q.dV()); }, y);
    ops.add("InterpQuad_vector", std::vector<unsigned>{lead}, [](QT& q, D3& a) { return flat(q.InterpQuad_vector(a)); }, en);
    OP("interpQuad_vector", [](QT& q, D3& a, D3& r) { q.interpQuad_vector(a, r); return flat(r); }, en, qn0);
    ops.v.back().bad = nullptr; // consistently changing the last axis is allowed
    ops.add("interpQuad_vector", std::vector<unsigned>{lead, lead}, [](QT& q, D3& a, D3& r) { q.interpQuad_vector(a, r); return flat(r); }, en, qn0);
    OP("GradN_vector", [](QT& q, D3& a) { return flat(q.GradN_vector(a)); }, ev);
    OP("GradN_vector_T", [](QT& q, D3& a) { return flat(q.GradN_vector_T(a)); }, ev);
    OP("SymGradN_vector", [](QT& q, D3& a) { return flat(q.SymGradN_vector(a)); }, ev);
    OP("gradN_vector", [](QT& q, D3& a, D4& r) { q.gradN_vector(a, r); return flat(r); }, ev, qt0);
    OP("gradN_vector_T", [](QT& q, D3& a, D4& r) { q.gradN_vector_T(a, r); return flat(r); }, ev, qt0);
    OP("symGradN_vector", [](QT& q, D3& a, D4& r) { q.symGradN_vector(a, r); return flat(r); }, ev, qt0);
    OP("Int_N_scalar_NT_dV", [](QT& q, D2& a) { return flat(q.Int_N_scalar_NT_dV(a)); }, qs);
    OP("int_N_scalar_NT_dV", [](QT& q, D2& a, D3& r) { q.int_N_scalar_NT_dV(a, r); return flat(r); }, qs, em0);
    OP("Int_gradN_dot_tensor2_dV", [](QT& q, D4& a) { return flat(q.Int_gradN_dot_tensor2_dV(a)); }, qt);
    OP("int_gradN_dot_tensor2_dV", [](QT& q, D4& a, D3& r) { q.int_gradN_dot_tensor2_dV(a, r); return flat(r); }, qt, ev0);
    D3 qn = field<3>(c, {nelem, nip, n});
    D3 en0 = junk<3>({nelem, nn, n});
    ops.add("Int_N_vector_dV", std::vector<unsigned>{lead}, [](QT& q, D3& a) { return flat(q.Int_N_vector_dV(a)); }, qn);
    ops.add("int_N_vector_dV", std::vector<unsigned>{lead, lead}, [](QT& q, D3& a, D3& r) { q.int_N_vector_dV(a, r); return flat(r); }, qn, en0);
    OP("Int_gradN_dot_tensor4_dot_gradNT_dV", [](QT& q, D6& a) { return flat(q.Int_gradN_dot_tensor4_dot_gradNT_dV(a)); }, qc);
    OP("int_gradN_dot_tensor4_dot_gradNT_dV", [](QT& q, D6& a, D3& r) { q.int_gradN_dot_tensor4_dot_gradNT_dV(a, r); return flat(r); }, qc, em0);
    OP("asTensor", [](QT& q, D2& a, D4& r) { q.asTensor(a, r); return flat(r); }, qs, qt0);
    ops.v.back().bad = nullptr;
    ops.add("asTensor", std::vector<unsigned>{all, lead}, [](QT& q, D2& a, D4& r) { q.asTensor(a, r); return flat(r); }, qs, qt0);
    OP("AsTensor<2>", [](QT& q, D2& a) { return flat(q.template AsTensor<2>(a)); }, qs);
    OP("AsTensor(2)", [](QT& q, D2& a) { return flat(q.AsTensor(2, a)); }, qs);
    // drop calls that have no invalid form, above
    ops.v.erase(std::remove_if(ops.v.begin(), ops.v.end(), [](auto& o) { return !o.bad; }), ops.v.end());
    ops.run(c, q, w);

    // construction
    D3 bx = x;
    D2 xi = s.xi;
    D1 wt = s.w;
    size_t kind = c.in(0, 4);
    switch (c.in(0, 2)) {
    case 0:
        misshape(c, bx, 6u, kind); // number of nodes, or number of dimensions
        break;
    case 1:
        misshape(c, xi, ~0u, kind);
        break;
    default:
        misshape(c, wt, ~0u, kind);
        break;
    }
    REQUIRE_THROWS(c, std::exception, QT(bx, xi, wt), "constructor");
}

PROP(quadrature, 3000, 30000)
{
    switch (c.in(0, 3)) {
    case 0:
        quadrature<Kind::quad4>(c);
        break;
    case 1:
        quadrature<Kind::planar>(c);
        break;
    case 2:
        quadrature<Kind::axisym>(c);
        break;
    default:
        quadrature<Kind::hex8>(c);
        break;
    }
}

// ---------------------------------------------------------------- construction

// refer to a node that does not exist
static void bad_index(Case& c, I2& conn, size_t n)
{
    size_t i = c.in(0, conn.size() - 1);
    conn.flat(i) = n + c.pick({size_t(0), size_t(0), size_t(1), n, size_t(100000)});
    c.desc << " entry " << i << "->" << conn.flat(i) << " (of " << n << ")";
}

static void bad_index(Case& c, I1& list, size_t n)
{
    size_t i = c.in(0, list.size() - 1);
    list(i) = n + c.pick({size_t(0), size_t(0), size_t(1), n, size_t(100000)});
    c.desc << " entry " << i << "->" << list(i) << " (of " << n << ")";
}

static void duplicate(Case& c, I1& list)
{
    size_t n = list.size();
    I1 r = xt::empty<size_t>({n + 1});
    size_t i = c.in(0, n - 1), j = c.in(0, n);
    for (size_t k = 0; k <= n; ++k) {
        r(k) = k < j ? list(k) : (k == j ? list(i) : list(k - 1));
    }
    list = r;
    c.desc << " duplicate " << list(j);
}

template <class F>
static void rejects(Case& c, const std::string& name, F f)
{
    c.label("rejected: " + name);
    REQUIRE_THROWS(c, std::exception, f(), name);
}

PROP(construct, 4000, 40000)
{
    auto t = topo(c);
    size_t ndof = gen::amax(t.dofs) + 1;
    I1 iip = prescribed(c, ndof);
    I2 conn = t.conn;
    size_t what = c.in(0, 2);
    if (iip.size() == 0) {
        what = 0;
    }
    if (what == 0) {
        bad_index(c, conn, t.nnode);
    }
    else if (what == 1) {
        duplicate(c, iip);
    }
    else {
        bad_index(c, iip, ndof);
    }
    c.nontrivial(true);
    switch (c.in(what == 0 ? 0 : 3, 5)) {
    case 0:
        return rejects(c, "Vector", [&] { GooseFEM::Vector(conn, t.dofs); });
    case 1:
        return rejects(c, "Matrix", [&] { GooseFEM::Matrix(conn, t.dofs); });
    case 2:
        return rejects(c, "MatrixDiagonal", [&] { GooseFEM::MatrixDiagonal(conn, t.dofs); });
    case 3:
        return rejects(c, "VectorPartitioned", [&] { GooseFEM::VectorPartitioned(conn, t.dofs, iip); });
    case 4:
        return rejects(c, "MatrixPartitioned", [&] { GooseFEM::MatrixPartitioned(conn, t.dofs, iip); });
    default:
        return rejects(c, "MatrixDiagonalPartitioned", [&] { GooseFEM::MatrixDiagonalPartitioned(conn, t.dofs, iip); });
    }
}

// change the size of a matrix
static Eigen::SparseMatrix<double> resized(Case& c, const Eigen::SparseMatrix<double>& a, bool rows, bool cols)
{
    Eigen::Index n = a.rows(), m = a.cols();
    bool r = rows && (!cols || c.flip());
    Eigen::Index& k = r ? n : m;
    k = k > 0 && c.flip() ? k - 1 : k + 1;
    c.desc << " " << (r ? "rows " : "cols ") << (r ? a.rows() : a.cols()) << "->" << k;
    std::vector<Eigen::Triplet<double>> data;
    for (Eigen::Index i = 0; i < a.outerSize(); ++i) {
        for (Eigen::SparseMatrix<double>::InnerIterator it(a, i); it; ++it) {
            if (it.row() < n && it.col() < m) {
                data.push_back(Eigen::Triplet<double>(it.row(), it.col(), it.value()));
            }
        }
    }
    Eigen::SparseMatrix<double> b(n, m);
    b.setFromTriplets(data.begin(), data.end());
    return b;
}

PROP(construct_tyings, 4000, 40000)
{
    auto t = tied(c);
    GooseFEM::Tyings::Periodic P(t.coor, t.dofs, t.control, t.ties, t.iip);
    I2 dofs = P.dofs();
    I2 conn = t.conn;
    using S = Eigen::SparseMatrix<double>;
    S du = P.Cdu(), dp = P.Cdp(), di = P.Cdi();
    size_t what = c.in(0, 8);
    c.nontrivial(true);
    switch (what) {
    case 0:
        bad_index(c, conn, t.nnode);
        return rejects(c, "VectorPartitionedTyings: conn", [&] { GooseFEM::VectorPartitionedTyings(conn, dofs, du, dp, di); });
    case 1:
        bad_index(c, conn, t.nnode);
        return rejects(c, "MatrixPartitionedTyings: conn", [&] { GooseFEM::MatrixPartitionedTyings(conn, dofs, du, dp); });
    case 2: {
        S& a = *std::vector<S*>{&du, &dp, &di}[c.in(0, 2)];
        a = resized(c, a, true, true);
        return rejects(c, "VectorPartitionedTyings: tyings", [&] { GooseFEM::VectorPartitionedTyings(conn, dofs, du, dp, di); });
    }
    case 3: {
        S& a = c.flip() ? du : dp;
        a = resized(c, a, true, true);
        return rejects(c, "MatrixPartitionedTyings: tyings", [&] { GooseFEM::MatrixPartitionedTyings(conn, dofs, du, dp); });
    }
    case 4: { // consistent with each other, not with the DOFs
        bool more = t.nnode * t.ndim < 2 || c.flip();
        auto f = [&](S& a) {
            S b(a.rows() + (more ? 1 : -1), a.cols());
            a = b;
        };
        if (!more && du.rows() == 0) {
            throw pbt::Discard();
        }
        f(du);
        f(dp);
        f(di);
        if (c.flip()) {
            return rejects(c, "MatrixPartitionedTyings: tyings and DOFs", [&] { GooseFEM::MatrixPartitionedTyings(conn, dofs, du, dp); });
        }
        return rejects(c, "VectorPartitionedTyings: tyings and DOFs", [&] { GooseFEM::VectorPartitionedTyings(conn, dofs, du, dp, di); });
    }
    case 5: {
        I2 ties = t.ties;
        if (ties.shape(0) > 0 && c.flip()) {
            bad_index(c, ties, t.nnode);
        }
        else {
            misshape(c, ties, 2u, c.in(0, 3));
            if (ties.shape(1) == 2) {
                throw pbt::Discard();
            }
        }
        return rejects(c, "Periodic: ties", [&] { GooseFEM::Tyings::Periodic(t.coor, t.dofs, t.control, ties, t.iip); });
    }
    case 6: {
        I1 iip = t.iip;
        if (iip.size() == 0) {
            throw pbt::Discard();
        }
        if (c.flip()) {
            duplicate(c, iip);
        }
        else {
            bad_index(c, iip, t.ndof);
        }
        return rejects(c, "Periodic: iip", [&] { GooseFEM::Tyings::Periodic(t.coor, t.dofs, t.control, t.ties, iip); });
    }
    case 7: {
        I2 control = t.control;
        if (c.flip()) {
            misshape(c, control, ~0u, c.in(0, 3));
        }
        else {
            bad_index(c, control, t.ndof);
        }
        return rejects(c, "Periodic: control", [&] { GooseFEM::Tyings::Periodic(t.coor, t.dofs, control, t.ties, t.iip); });
    }
    default: {
        D2 coor = t.coor;
        I2 d = t.dofs;
        if (c.flip()) {
            misshape(c, coor, ~0u, c.in(0, 4));
        }
        else {
            misshape(c, d, ~0u, c.in(0, 4));
        }
        if (c.flip()) {
            return rejects(c, "Control: shape", [&] { GooseFEM::Tyings::Control(coor, d); });
        }
        return rejects(c, "Periodic: shape", [&] { GooseFEM::Tyings::Periodic(coor, d, t.control, t.ties, t.iip); });
    }
    }
}

// ---------------------------------------------------------------- stitching

struct Piece {
    D2 coor;
    I2 conn;
    I1 bot, top;
    size_t nelem() const { return conn.shape(0); }
    size_t nnode() const { return coor.shape(0); }
};

static Piece piece(Case& c, size_t nx)
{
    M::Quad4::Regular m(nx, c.in(1, 3));
    return {m.coor(), m.conn(), m.nodesBottomEdge(), m.nodesTopEdge()};
}

// the second on top of the first
static D2 shifted(const Piece& a, const Piece& b)
{
    D2 x = b.coor;
    for (size_t i = 0; i < x.shape(0); ++i) {
        x(i, 1) += a.coor(a.top(0), 1);
    }
    return x;
}

static Flat flat(const GooseFEM::Mesh::ManualStitch& s)
{
    Flat r = flat(s.coor());
    for (const auto& a : {flat(s.conn()), flat(s.nodemap(0)), flat(s.nodemap(1)), flat(s.elemmap(1))}) {
        r.insert(r.end(), a.begin(), a.end());
    }
    return r;
}

static Flat flat(const GooseFEM::Mesh::Stitch& s)
{
    Flat r = flat(s.coor());
    Flat b = flat(s.conn());
    r.insert(r.end(), b.begin(), b.end());
    for (size_t i = 0; i < s.nmesh(); ++i) {
        for (const auto& a : {flat(s.nodemap(i)), flat(s.elemmap(i))}) {
            r.insert(r.end(), a.begin(), a.end());
        }
    }
    return r;
}

PROP(manual_stitch, 3000, 30000)
{
    using S = GooseFEM::Mesh::ManualStitch;
    size_t nx = c.in(1, 4);
    Piece a = piece(c, nx), b = piece(c, nx);
    D2 ca = a.coor, cb = shifted(a, b);
    I2 ea = a.conn, eb = b.conn;
    I1 na = a.top, nb = b.bot;
    bool check = c.flip();
    S valid(ca, ea, na, cb, eb, nb, check);
    Flat before = flat(valid);
    c.nontrivial(true);
    switch (c.in(0, 9)) {
    case 0:
        c.desc << "position";
        cb(nb(c.in(0, nb.size() - 1)), c.in(0, 1)) += c.pick({0.01, -0.01, 1.0, -1.0});
        check = true;
        break;
    case 1:
        c.desc << "overlapping_nodes_a";
        misshape(c, na, ~0u, c.in(0, 3));
        break;
    case 2:
        c.desc << "overlapping_nodes_b";
        misshape(c, nb, ~0u, c.in(0, 3));
        break;
    case 3:
        c.desc << "overlapping_nodes_a";
        bad_index(c, na, a.nnode());
        break;
    case 4:
        c.desc << "overlapping_nodes_b";
        bad_index(c, nb, b.nnode());
        break;
    case 5:
        c.desc << "overlapping_nodes_b";
        duplicate(c, nb);
        {
            I1 r = xt::empty<size_t>({nb.size()});
            for (size_t i = 0; i < r.size(); ++i) {
                r(i) = i < na.size() ? na(i) : na(0);
            }
            na = r;
        }
        check = false;
        break;
    case 6:
        c.desc << "conn_a";
        bad_index(c, ea, a.nnode());
        break;
    case 7:
        c.desc << "conn_b";
        bad_index(c, eb, b.nnode());
        break;
    case 8:
        c.desc << "coordinates";
        misshape(c, c.flip() ? ca : cb, 2u, c.in(0, 3));
        break;
    default:
        c.desc << "number of nodes per element";
        misshape(c, c.flip() ? ea : eb, 2u, c.in(0, 3));
        break;
    }
    c.desc << " check=" << check;
    rejects(c, "ManualStitch", [&] { S(ca, ea, na, cb, eb, nb, check); });
    // queries
    size_t which = c.in(0, 1);
    I1 n = xt::arange<size_t>(which == 0 ? a.nnode() : b.nnode());
    I1 e = xt::arange<size_t>(which == 0 ? a.nelem() : b.nelem());
    c.desc << " sets";
    bad_index(c, n, n.size());
    bad_index(c, e, e.size());
    rejects(c, "nodeset", [&] { valid.nodeset(n, which); });
    rejects(c, "elemset", [&] { valid.elemset(e, which); });
    rejects(c, "nodemap", [&] { valid.nodemap(2 + c.in(0, 2)); });
    rejects(c, "elemmap", [&] { valid.elemmap(2 + c.in(0, 2)); });
    I1 empty = xt::arange<size_t>(1);
    rejects(c, "nodeset(index)", [&] { valid.nodeset(empty, 2 + c.in(0, 2)); });
    rejects(c, "elemset(index)", [&] { valid.elemset(empty, 2 + c.in(0, 2)); });
    REQUIRE(c, flat(valid) == before, "changed");
}

// histories of Stitch, Vstack
template <class S, class F>
static void stitch_history(Case& c, S& s, S& twin, F push, bool vstack)
{
    size_t nx = c.in(1, 3);
    size_t n = 1 + c.small(0, 5);
    std::vector<size_t> nn, ne;
    double y = 0;
    size_t rejected = 0;
    for (size_t i = 0; i < n; ++i) {
        Piece p = piece(c, nx);
        if (!vstack) {
            double t = 0;
            for (size_t k = 0; k < p.nnode(); ++k) {
                t = std::max(t, p.coor(k, 1));
                p.coor(k, 1) += y;
            }
            y += t;
        }
        if (c.flip()) {
            Piece q = p;
            c.desc << "push: ";
            switch (c.in(0, vstack ? 4 : 2)) {
            case 0:
                c.desc << "conn";
                bad_index(c, q.conn, q.nnode());
                break;
            case 1:
                if (nn.empty()) {
                    continue;
                }
                c.desc << "nne";
                misshape(c, q.conn, 2u, c.in(0, 3));
                break;
            case 2:
                if (nn.empty()) {
                    continue;
                }
                c.desc << "ndim";
                misshape(c, q.coor, 2u, c.in(0, 3));
                break;
            case 3:
                if (nn.empty()) {
                    continue;
                }
                c.desc << "bottom nodes";
                misshape(c, q.bot, ~0u, c.in(0, 3));
                break;
            default:
                c.desc << "index of nodes";
                bad_index(c, c.flip() ? q.bot : q.top, q.nnode());
                break;
            }
            c.desc << "; ";
            rejects(c, "push_back", [&] { push(s, q); });
            ++rejected;
        }
        push(s, p);
        push(twin, p);
        nn.push_back(p.nnode());
        ne.push_back(p.nelem());
        if (c.flip()) {
            size_t k = c.in(0, nn.size() - 1);
            I1 a = xt::arange<size_t>(nn[k]);
            I1 b = xt::arange<size_t>(ne[k]);
            I1 one = xt::arange<size_t>(1);
            bad_index(c, a, nn[k]);
            bad_index(c, b, ne[k]);
            size_t m = nn.size() + c.in(0, 2);
            rejects(c, "nodeset", [&] { s.nodeset(a, k); });
            rejects(c, "elemset", [&] { s.elemset(b, k); });
            rejects(c, "nodemap", [&] { s.nodemap(m); });
            rejects(c, "elemmap", [&] { s.elemmap(m); });
            rejects(c, "nodeset(index)", [&] { s.nodeset(one, m); });
            rejects(c, "elemset(index)", [&] { s.elemset(one, m); });
            std::vector<I1> list(m + 1, one);
            if (c.flip()) {
                list.resize(nn.size() - 1);
            }
            rejects(c, "nodeset(list)", [&] { s.nodeset(list); });
            rejects(c, "elemset(list)", [&] { s.elemset(list); });
            ++rejected;
        }
        REQUIRE(c, flat(static_cast<const GooseFEM::Mesh::Stitch&>(s)) == flat(static_cast<const GooseFEM::Mesh::Stitch&>(twin)), "result depends on calls that were rejected");
    }
    c.nontrivial(rejected > 0);
}

PROP(stitch, 2000, 20000)
{
    GooseFEM::Mesh::Stitch a, b;
    stitch_history(c, a, b, [](auto& s, const Piece& p) { s.push_back(p.coor, p.conn); }, false);
}

PROP(vstack, 2000, 20000)
{
    GooseFEM::Mesh::Vstack a, b;
    stitch_history(c, a, b, [](auto& s, const Piece& p) { s.push_back(p.coor, p.conn, p.bot, p.top); }, true);
}

// ---------------------------------------------------------------- functions on meshes

PROP(mesh_functions, 4000, 40000)
{
    using GooseFEM::Mesh::ElementType;
    M::Quad4::Regular mesh(c.in(1, 4), c.in(1, 4));
    D2 coor = mesh.coor();
    I2 conn = mesh.conn();
    size_t nnode = coor.shape(0), nelem = conn.shape(0);
    auto type = ElementType::Quad4;
    I1 map = xt::arange<size_t>(nelem);
    c.nontrivial(true);
    size_t what = c.in(0, 7);
    size_t how = c.in(0, 2);
    if (what == 7) {
        how = c.in(1, 3);
    }
    if (how == 0) {
        c.desc << "conn";
        bad_index(c, conn, nnode);
    }
    else if (how == 1) {
        c.desc << "coor";
        misshape(c, coor, 2u, c.in(0, 3));
    }
    else if (how == 2) {
        c.desc << "conn";
        misshape(c, conn, 2u, c.in(0, 3));
    }
    else if (c.flip()) {
        c.desc << "map";
        misshape(c, map, ~0u, c.in(0, 3));
    }
    else {
        c.desc << "map";
        bad_index(c, map, nelem);
    }
    bool automatic = c.flip();
    if (automatic && coor.shape(1) == 2 && conn.shape(1) == 3) {
        automatic = false; // triangle: another type
    }
    c.desc << " function " << what << (automatic ? " automatic" : "");
    switch (what) {
    case 0:
        return rejects(c, "centers", [&] { automatic ? M::centers(coor, conn) : M::centers(coor, conn, type); });
    case 1:
        return rejects(c, "edgesize", [&] { automatic ? M::edgesize(coor, conn) : M::edgesize(coor, conn, type); });
    case 2:
        return rejects(c, "nodal_mass", [&] { automatic ? M::nodal_mass(coor, conn) : M::nodal_mass(coor, conn, type); });
    case 3:
        return rejects(c, "center_of_gravity", [&] { automatic ? M::center_of_gravity(coor, conn) : M::center_of_gravity(coor, conn, type); });
    case 4:
        if (how == 0) {
            return rejects(c, "asElementVector", [&] { GooseFEM::Element::asElementVector(conn, coor); });
        }
        else {
            D3 e = xt::zeros<double>({nelem, size_t(4), size_t(2)});
            misshape(c, e, 3u, c.in(0, 3));
            return rejects(c, "assembleNodeVector", [&] { GooseFEM::Element::assembleNodeVector(mesh.conn(), e); });
        }
    case 5:
        if (coor.shape(1) == 2 && conn.shape(1) == 3) {
            throw pbt::Discard();
        }
        if (how == 0) {
            return rejects(c, "elem2node", [&] { M::elem2node(conn, mesh.dofs()); });
        }
        return rejects(c, "defaultElementType", [&] { M::defaultElementType(coor, conn); });
    case 6:
        return rejects(c, "FineLayer", [&] { M::Quad4::FineLayer m(coor, conn); });
    default:
        return rejects(c, "elemmap2nodemap", [&] { automatic ? M::elemmap2nodemap(map, coor, conn) : M::elemmap2nodemap(map, coor, conn, type); });
    }
}

PROP(triangles, 3000, 30000)
{
    M::Tri3::Regular mesh(c.in(1, 4), c.in(1, 4));
    D2 coor = mesh.coor();
    I2 conn = mesh.conn();
    size_t nnode = coor.shape(0), nelem = conn.shape(0);
    auto val = M::Tri3::getOrientation(coor, conn);
    int o = c.flip() ? 1 : -1;
    c.nontrivial(true);
    size_t how = c.in(0, 4);
    switch (how) {
    case 0:
        bad_index(c, conn, nnode);
        break;
    case 1:
        misshape(c, coor, 2u, c.in(0, 3));
        break;
    case 2:
        misshape(c, conn, 2u, c.in(0, 3));
        break;
    case 3:
        misshape(c, val, ~0u, c.in(0, 3));
        break;
    default:
        o = c.pick({0, 2, -2, 100});
        break;
    }
    c.desc << " how=" << how;
    (void)nelem;
    if (how < 3 && c.flip()) {
        return rejects(c, "getOrientation", [&] { M::Tri3::getOrientation(coor, conn); });
    }
    if (how >= 3 || c.flip()) {
        if (how == 3 || how == 4 || how == 2 || how == 1) {
            return rejects(c, "setOrientation(val)", [&] { M::Tri3::setOrientation(coor, conn, val, o); });
        }
    }
    return rejects(c, "setOrientation", [&] { M::Tri3::setOrientation(coor, conn, o); });
}

PROP(maps, 3000, 30000)
{
    c.nontrivial(true);
    size_t n = c.in(1, 3);
    if (c.flip()) {
        size_t nx = c.in(1, 3), ny = c.in(1, 3);
        M::Quad4::Regular coarse(c.in(1, 3), c.in(1, 3));
        M::Quad4::Map::RefineRegular map(coarse, nx, ny);
        size_t nc = coarse.nelem(), nf = nc * nx * ny;
        D2 f = field<2>(c, {nf, n});
        D2 w = xt::ones<double>({nf, n});
        D2 k = field<2>(c, {nc, n});
        switch (c.in(0, 3)) {
        case 0:
            misshape(c, f, 1u, c.in(0, 3));
            return rejects(c, "meanToCoarse", [&] { map.meanToCoarse(f); });
        case 1:
            misshape(c, f, 3u, c.in(0, 3));
            return rejects(c, "averageToCoarse: data", [&] { map.averageToCoarse(f, w); });
        case 2:
            misshape(c, w, 3u, c.in(0, 3));
            return rejects(c, "averageToCoarse: weights", [&] { map.averageToCoarse(f, w); });
        default:
            misshape(c, k, 1u, c.in(0, 3));
            return rejects(c, "mapToFine", [&] { map.mapToFine(k); });
        }
    }
    size_t nx = c.in(1, 3) * c.pick({size_t(1), size_t(3), size_t(9)});
    M::Quad4::FineLayer mesh(nx, c.in(1, 30));
    size_t nelem = mesh.nelem();
    if (c.flip()) {
        M::Quad4::Map::FineLayer2Regular map(mesh);
        D2 d = field<2>(c, {nelem, n});
        misshape(c, d, 1u, c.in(0, 3));
        return rejects(c, "mapToRegular", [&] { map.mapToRegular(d); });
    }
    size_t e = nelem + c.pick({size_t(0), size_t(1), nelem});
    size_t layer = mesh.elemrow_nhx().size() + c.in(0, 2);
    c.desc << "nelx=" << nx << " nelem=" << nelem << " e=" << e << " layer=" << layer;
    switch (c.in(0, 3)) {
    case 0:
        return rejects(c, "elementsLayer", [&] { mesh.elementsLayer(layer); });
    case 1:
        return rejects(c, "elementgrid_around_ravel", [&] { mesh.elementgrid_around_ravel(e, c.in(0, 2)); });
    case 2:
        return rejects(c, "elementgrid_leftright", [&] { mesh.elementgrid_leftright(e, c.in(0, 2), c.in(0, 2)); });
    default: {
        std::vector<size_t> rows{0, mesh.nely()}, cols{0, mesh.nelx()};
        (c.flip() ? rows : cols)[1] += c.in(1, 3);
        return rejects(c, "elementgrid_ravel", [&] { mesh.elementgrid_ravel(rows, cols); });
    }
    }
}

// ---------------------------------------------------------------- what does not exist, is not implemented

// a mesh of at least one element
PROP(empty_mesh, 500, 5000)
{
    size_t kind = c.in(0, 4);
    size_t nx = c.in(1, 30), ny = c.in(1, 30), nz = c.in(1, 4), nfine = c.in(1, 3);
    bool three = kind >= 3;
    unsigned zero = static_cast<unsigned>(c.in(1, three ? 7 : 3));
    nx = zero & 1u ? 0 : nx;
    ny = zero & 2u ? 0 : ny;
    nz = zero & 4u ? 0 : nz;
    c.nontrivial(true);
    c.desc << nx << "x" << ny << "x" << nz << " nfine=" << nfine;
    switch (kind) {
    case 0:
        return rejects(c, "Quad4::Regular", [&] { M::Quad4::Regular(nx, ny); });
    case 1:
        return rejects(c, "Quad4::FineLayer", [&] { M::Quad4::FineLayer(nx, ny, 1.0, nfine); });
    case 2:
        return rejects(c, "Tri3::Regular", [&] { M::Tri3::Regular(nx, ny); });
    case 3:
        return rejects(c, "Hex8::Regular", [&] { M::Hex8::Regular(nx, ny, nz); });
    default:
        return rejects(c, "Hex8::FineLayer", [&] { M::Hex8::FineLayer(nx, ny, nz, 1.0, nfine); });
    }
}

// Arrays of which the rank is not known at compile time: only the ranks of "dofval", "nodevec", "elemvec"
PROP(rank, 1000, 10000)
{
    auto t = topo(c);
    GooseFEM::Vector vector(t.conn, t.dofs);
    size_t ndof = gen::amax(t.dofs) + 1, nelem = t.conn.shape(0), nne = t.conn.shape(1);
    size_t rank = c.in(0, 5);
    std::vector<size_t> shape;
    if (rank == 1) {
        shape = {ndof};
    }
    else if (rank == 2) {
        shape = {t.nnode, t.ndim};
    }
    else if (rank == 3) {
        shape = {nelem, nne, t.ndim};
    }
    else {
        shape = {nelem, nne, t.ndim, size_t(1), size_t(1)};
        shape.resize(rank);
    }
    xt::xarray<double> arg = xt::zeros<double>(shape);
    auto s = c.stream();
    for (auto& i : arg) {
        i = s();
    }
    size_t to = c.in(0, 4);
    bool valid = false;
    xt::xarray<double> expect, ret;
    D1 a1 = rank == 1 ? D1(arg) : D1(xt::zeros<double>({ndof}));
    D2 a2 = rank == 2 ? D2(arg) : D2(xt::zeros<double>({t.nnode, t.ndim}));
    D3 a3 = rank == 3 ? D3(arg) : D3(xt::zeros<double>({nelem, nne, t.ndim}));
    D1 d = xt::zeros<double>({ndof});
    D2 n = xt::zeros<double>({t.nnode, t.ndim});
    D3 e = xt::zeros<double>({nelem, nne, t.ndim});
    c.desc << " rank " << rank << " function " << to;
    c.nontrivial(true);
    auto run = [&] {
        switch (to) {
        case 0:
            return vector.asDofs(arg, d);
        case 1:
            return vector.asNode(arg, n);
        case 2:
            return vector.asElement(arg, e);
        case 3:
            return vector.assembleDofs(arg, d);
        default:
            return vector.assembleNode(arg, n);
        }
    };
    switch (to) {
    case 0:
        valid = rank == 2 || rank == 3;
        break;
    case 1:
        valid = rank == 1 || rank == 3;
        break;
    case 2:
        valid = rank == 1 || rank == 2;
        break;
    case 3:
        valid = rank == 2 || rank == 3;
        break;
    default:
        valid = rank == 3;
        break;
    }
    if (!valid) {
        return rejects(c, "rank", run);
    }
    run();
    c.label("accepted");
    switch (to) {
    case 0:
        REQUIRE(c, flat(d) == flat(rank == 2 ? vector.AsDofs(a2) : vector.AsDofs(a3)), "asDofs");
        return;
    case 1:
        REQUIRE(c, flat(n) == flat(rank == 1 ? vector.AsNode(a1) : vector.AsNode(a3)), "asNode");
        return;
    case 2:
        REQUIRE(c, flat(e) == flat(rank == 1 ? vector.AsElement(a1) : vector.AsElement(a2)), "asElement");
        return;
    case 3:
        REQUIRE(c, flat(d) == flat(rank == 2 ? vector.AssembleDofs(a2) : vector.AssembleDofs(a3)), "assembleDofs");
        return;
    default:
        REQUIRE(c, flat(n) == flat(vector.AssembleNode(a3)), "assembleNode");
        return;
    }
}

// Functions of the mesh for types of elements for which they are not implemented
PROP(element_type, 500, 5000)
{
    using GooseFEM::Mesh::ElementType;
    size_t mesh = c.in(0, 1);
    D2 coor;
    I2 conn;
    if (mesh == 0) {
        M::Tri3::Regular m(c.in(1, 4), c.in(1, 4));
        coor = m.coor();
        conn = m.conn();
    }
    else {
        M::Hex8::Regular m(c.in(1, 3), c.in(1, 3), c.in(1, 3));
        coor = m.coor();
        conn = m.conn();
    }
    bool automatic = c.flip();
    auto own = mesh == 0 ? ElementType::Tri3 : ElementType::Hex8;
    auto type = c.pick({own, own, ElementType::Unknown, ElementType::Quad4});
    I1 map = xt::arange<size_t>(conn.shape(0));
    D2 rho = xt::ones<double>(conn.shape());
    c.nontrivial(true);
    c.desc << "mesh " << mesh << " type " << static_cast<int>(type) << " " << automatic;
    switch (c.in(0, 4)) {
    case 0:
        return rejects(c, "centers: type", [&] { automatic ? M::centers(coor, conn) : M::centers(coor, conn, type); });
    case 1:
        return rejects(c, "edgesize: type", [&] { automatic ? M::edgesize(coor, conn) : M::edgesize(coor, conn, type); });
    case 2:
        return rejects(c, "nodal_mass: type", [&] { automatic ? M::nodal_mass(coor, conn) : M::nodal_mass(coor, conn, type); });
    case 3:
        return rejects(c, "center_of_gravity: type", [&] { automatic ? M::center_of_gravity(coor, conn) : M::center_of_gravity(coor, conn, type); });
    default:
        return rejects(c, "elemmap2nodemap: type", [&] { automatic ? M::elemmap2nodemap(map, coor, conn) : M::elemmap2nodemap(map, coor, conn, type); });
    }
}

PBT_MAIN("C25")
