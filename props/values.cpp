// C29: objects are values: they own their data, and copies, moves, and assignments are independent of each other;
// what an object returns follows from its own construction and its own changes only.
#include "element.hpp"
#include "dense.hpp"
#include "meshes.hpp"
#include <GooseFEM/Iterate.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <GooseFEM/VectorPartitioned.h>
#include <GooseFEM/VectorPartitionedTyings.h>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace gen;
namespace G = GooseFEM;

using Flat = std::vector<double>;

template <class A>
static std::enable_if_t<std::is_arithmetic_v<A> || std::is_enum_v<A>> put(Flat& r, const A& a)
{
    r.push_back(static_cast<double>(a));
}

template <class A>
static auto put(Flat& r, const A& a) -> decltype(a.dimension(), void())
{
    r.push_back(static_cast<double>(a.dimension()));
    for (auto n : a.shape()) {
        r.push_back(static_cast<double>(n));
    }
    for (auto v : a) {
        r.push_back(static_cast<double>(v));
    }
}

static void put(Flat& r, const Eigen::SparseMatrix<double>& a)
{
    r.push_back(static_cast<double>(a.rows()));
    r.push_back(static_cast<double>(a.cols()));
    auto d = dense(a);
    for (long i = 0; i < a.rows(); ++i) {
        for (long j = 0; j < a.cols(); ++j) {
            r.push_back(d(i, j));
        }
    }
}

template <class T, size_t N>
static void put(Flat& r, const std::array<T, N>& a)
{
    for (auto& v : a) {
        put(r, v);
    }
}

template <class T>
static void put(Flat& r, const std::vector<T>& a)
{
    r.push_back(static_cast<double>(a.size()));
    for (const T& v : a) {
        put(r, v);
    }
}

static bool same_flat(const Flat& a, const Flat& b)
{
    if (a.size() != b.size()) {
        return false;
    }
    double m = 0.0;
    for (double v : a) {
        m = std::isfinite(v) ? std::max(m, std::abs(v)) : m;
    }
    for (size_t i = 0; i < a.size(); ++i) {
        bool e = a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::abs(a[i] - b[i]) <= 1e-13 * m;
        if (!e) {
            return false;
        }
    }
    return true;
}

// Arguments that live just long enough: overwritten, then destroyed.
template <class A>
class Arg {
public:
    explicit Arg(const A& a) : m(new A(a))
    {
    }
    ~Arg()
    {
        wreck(*m);
    }
    const A& operator()() const
    {
        return *m;
    }

private:
    template <class T, size_t N>
    static void wreck(Arr<T, N>& a)
    {
        for (auto& v : a) {
            v = static_cast<T>(12345677);
        }
    }
    static void wreck(Eigen::SparseMatrix<double>& a)
    {
        a *= 12345677.0;
    }
    template <class T>
    static void wreck(T&)
    {
    }
    std::unique_ptr<A> m;
};

template <class S>
struct Observer {
    const char* name;
    std::function<Flat(const S&, typename S::type&)> f;
};

#define OBS(expr) \
    Observer<Self>{#expr, [](const Self& s, type& x) { \
        (void)s; \
        Flat r; \
        put(r, expr); \
        return r; \
    }}

// ---- classes: how to make, change, and observe an object ----

struct VectorS {
    using Self = VectorS;
    using type = G::Vector;
    static constexpr bool dflt = true;
    Topo t;
    D1 d;
    D2 n;
    D3 e;
    explicit VectorS(Case& c) : t(topo(c, 400))
    {
        d = anyfield<1>(c, {gen::amax(t.dofs) + 1});
        n = anyfield<2>(c, {t.nnode, t.ndim});
        e = anyfield<3>(c, {t.conn.shape(0), t.conn.shape(1), t.ndim});
    }
    void vary(Case& c) // another object of the same size
    {
        size_t k = c.in(0, 2);
        if (k == 0) {
            std::reverse(t.conn.begin(), t.conn.end());
        }
        else if (k == 1) {
            std::reverse(t.dofs.begin(), t.dofs.end());
        }
        std::reverse(n.begin(), n.end());
    }
    type make() const
    {
        Arg<I2> conn(t.conn), dofs(t.dofs);
        return type(conn(), dofs());
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nelem()), OBS(x.nne()), OBS(x.nnode()), OBS(x.ndim()), OBS(x.ndof()), OBS(x.conn()), OBS(x.dofs()),
                OBS(x.Copy(s.n, s.n)), OBS(x.AsDofs(s.n)), OBS(x.AsDofs(s.e)), OBS(x.AsNode(s.d)), OBS(x.AsNode(s.e)),
                OBS(x.AsElement(s.d)), OBS(x.AsElement(s.n)), OBS(x.AssembleDofs(s.n)), OBS(x.AssembleDofs(s.e)),
                OBS(x.AssembleNode(s.e)), OBS(x.shape_dofval()), OBS(x.shape_nodevec()), OBS(x.shape_elemvec()),
                OBS(x.shape_elemmat()), OBS(x.allocate_nodevec(1.0)), OBS(x.allocate_elemmat(2.0))};
    }
};

struct PartS : VectorS { // adds prescribed DOFs
    I1 iip;
    D1 u, p;
    explicit PartS(Case& c) : VectorS(c)
    {
        iip = prescribed(c, d.size());
        p = anyfield<1>(c, {iip.size()});
        u = anyfield<1>(c, {d.size() - iip.size()});
    }
    void vary(Case& c)
    {
        VectorS::vary(c);
        for (auto& i : iip) {
            i = d.size() - 1 - i;
        }
    }
};

struct VectorPartitionedS : PartS {
    using Self = VectorPartitionedS;
    using type = G::VectorPartitioned;
    using PartS::PartS;
    type make() const
    {
        Arg<I2> conn(t.conn), dofs(t.dofs);
        Arg<I1> pp(iip);
        return type(conn(), dofs(), pp());
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nnu()), OBS(x.nnp()), OBS(x.iiu()), OBS(x.iip()), OBS(x.dofs_is_u()), OBS(x.dofs_is_p()),
                OBS(x.Copy_u(s.n, xt::eval(2.0 * s.n))), OBS(x.Copy_p(s.n, xt::eval(2.0 * s.n))),
                OBS(x.DofsFromParitioned(s.u, s.p)), OBS(x.NodeFromPartitioned(s.u, s.p)),
                OBS(x.ElementFromPartitioned(s.u, s.p)), OBS(x.AsDofs_u(s.d)), OBS(x.AsDofs_u(s.n)), OBS(x.AsDofs_u(s.e)),
                OBS(x.AsDofs_p(s.d)), OBS(x.AsDofs_p(s.n)), OBS(x.AsDofs_p(s.e)), OBS(x.conn()), OBS(x.dofs()),
                OBS(x.AsNode(s.d)), OBS(x.AsElement(s.n)), OBS(x.AssembleDofs(s.e)), OBS(x.AssembleNode(s.e))};
    }
};

template <class T, bool addset>
static std::function<void(T&)> change_matrix(Case& c, const PartS& s)
{
    size_t op = c.in(0, addset ? 2 : 0);
    if (op == 0) {
        size_t n = s.t.conn.shape(1) * s.t.ndim;
        D3 m = anyfield<3>(c, {s.t.conn.shape(0), n, n});
        c.desc << "assemble ";
        return [m](T& x) {
            Arg<D3> a(m);
            x.assemble(a());
        };
    }
    if constexpr (addset) {
        I1 r = vec(c.subset(s.d.size(), c.in(1, std::min<size_t>(4, s.d.size()))));
        I1 q = vec(c.subset(s.d.size(), c.in(1, std::min<size_t>(4, s.d.size()))));
        D2 m = anyfield<2>(c, {r.size(), q.size()});
        c.desc << (op == 1 ? "add " : "set ");
        return [m, r, q, op](T& x) {
            Arg<D2> a(m);
            Arg<I1> b(r), d(q);
            if (op == 1) {
                x.add(b(), d(), a());
            }
            else {
                x.set(b(), d(), a());
            }
        };
    }
    return nullptr;
}

struct MatrixS : PartS {
    using Self = MatrixS;
    using type = G::Matrix;
    using PartS::PartS;
    type make() const
    {
        Arg<I2> conn(t.conn), dofs(t.dofs);
        return type(conn(), dofs());
    }
    std::function<void(type&)> change(Case& c) const
    {
        return change_matrix<type, true>(c, *this);
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nelem()), OBS(x.ndof()), OBS(x.conn()), OBS(x.dofs()), OBS(x.shape_elemmat()), OBS(x.Todense()),
                OBS(x.data()), OBS(x.Dot(s.n)), OBS(x.Dot(s.d))};
    }
};

struct MatrixPartitionedS : PartS {
    using Self = MatrixPartitionedS;
    using type = G::MatrixPartitioned;
    using PartS::PartS;
    type make() const
    {
        Arg<I2> conn(t.conn), dofs(t.dofs);
        Arg<I1> pp(iip);
        return type(conn(), dofs(), pp());
    }
    std::function<void(type&)> change(Case& c) const
    {
        return change_matrix<type, true>(c, *this);
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nnu()), OBS(x.nnp()), OBS(x.iiu()), OBS(x.iip()), OBS(x.conn()), OBS(x.dofs()), OBS(x.Todense()),
                OBS(x.data_uu()), OBS(x.data_up()), OBS(x.data_pu()), OBS(x.data_pp()), OBS(x.Dot(s.n)), OBS(x.Dot(s.d)),
                OBS(x.Reaction(s.n, s.n)), OBS(x.Reaction(s.d, s.d)), OBS(x.Reaction_p(s.u, s.p))};
    }
};

struct MatrixDiagonalS : PartS {
    using Self = MatrixDiagonalS;
    using type = G::MatrixDiagonal;
    using PartS::PartS;
    type make() const
    {
        Arg<I2> conn(t.conn), dofs(t.dofs);
        return type(conn(), dofs());
    }
    template <class T>
    static std::function<void(T&)> change_diagonal(Case& c, const PartS& s)
    {
        if (c.flip()) {
            c.desc << "set ";
            D1 m = anyfield<1>(c, {s.d.size()});
            return [m](T& x) {
                Arg<D1> a(m);
                x.set(a());
            };
        }
        size_t n = s.t.conn.shape(1) * s.t.ndim;
        D3 m = xt::zeros<double>({s.t.conn.shape(0), n, n});
        D2 f = anyfield<2>(c, {s.t.conn.shape(0), n});
        for (size_t e = 0; e < m.shape(0); ++e) {
            for (size_t i = 0; i < n; ++i) {
                m(e, i, i) = f(e, i);
            }
        }
        c.desc << "assemble ";
        return [m](T& x) {
            Arg<D3> a(m);
            x.assemble(a());
        };
    }
    std::function<void(type&)> change(Case& c) const
    {
        return change_diagonal<type>(c, *this);
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nelem()), OBS(x.ndof()), OBS(x.conn()), OBS(x.dofs()), OBS(x.Todense()), OBS(x.Todiagonal()),
                OBS(x.data()), OBS(x.Dot(s.n)), OBS(x.Dot(s.d)), OBS(x.Solve(s.n)), OBS(x.Solve(s.d))};
    }
};

struct MatrixDiagonalPartitionedS : PartS {
    using Self = MatrixDiagonalPartitionedS;
    using type = G::MatrixDiagonalPartitioned;
    using PartS::PartS;
    type make() const
    {
        Arg<I2> conn(t.conn), dofs(t.dofs);
        Arg<I1> pp(iip);
        return type(conn(), dofs(), pp());
    }
    std::function<void(type&)> change(Case& c) const
    {
        return MatrixDiagonalS::change_diagonal<type>(c, *this);
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nnu()), OBS(x.nnp()), OBS(x.iiu()), OBS(x.iip()), OBS(x.conn()), OBS(x.dofs()), OBS(x.Todense()),
                OBS(x.Todiagonal()), OBS(x.data()), OBS(x.data_uu()), OBS(x.data_pp()), OBS(x.Dot(s.n)), OBS(x.Dot(s.d)),
                OBS(x.Dot_u(s.u, s.p)), OBS(x.Dot_p(s.u, s.p)), OBS(x.Reaction(s.n, s.n)), OBS(x.Reaction_p(s.u, s.p)),
                OBS(x.Solve(s.n)), OBS(x.Solve(s.d)), OBS(x.Solve_u(s.u, s.p))};
    }
};

// nodes tied to other nodes, with control nodes
struct TiedS {
    D2 coor0;
    I2 dofs0;
    size_t nnode, ndim;
    D2 coor;
    I2 dofs, control, ties, conn;
    I1 iip;
    bool with_iip;
    D2 n;
    D1 d;
    D3 e;
    explicit TiedS(Case& c)
    {
        ndim = c.in(1, 3);
        size_t m = c.in(2, 6);
        coor0 = field<2>(c, {m, ndim});
        dofs0 = xt::zeros<size_t>({m, ndim});
        for (size_t i = 0; i < dofs0.size(); ++i) {
            dofs0.flat(i) = i;
        }
        G::Tyings::Control ctl(coor0, dofs0);
        coor = ctl.coor();
        dofs = ctl.dofs();
        control = ctl.controlDofs();
        nnode = m + ndim;
        size_t nd = c.in(0, m - 1);
        ties = xt::zeros<size_t>({nd, size_t(2)});
        for (size_t i = 0; i < nd; ++i) {
            ties(i, 1) = m - nd + i;
            ties(i, 0) = c.in(0, m - nd - 1);
        }
        with_iip = c.flip();
        std::vector<size_t> pp;
        if (with_iip) {
            for (size_t i : c.subset(m - nd, c.in(0, m - nd))) {
                pp.push_back(dofs0(i, 0));
            }
        }
        iip = vec(pp);
        size_t nelem = c.in(1, 5), nne = c.in(1, std::min<size_t>(m, 4));
        conn = xt::zeros<size_t>({nelem, nne});
        for (size_t k = 0; k < nelem; ++k) {
            auto r = c.subset(m, nne);
            std::copy(r.begin(), r.end(), conn.begin() + static_cast<long>(k * nne));
        }
        n = anyfield<2>(c, {nnode, ndim});
        d = anyfield<1>(c, {nnode * ndim});
        e = anyfield<3>(c, {nelem, nne, ndim});
    }
    void vary(Case& c)
    {
        size_t k = c.in(0, 2);
        if (k == 0) {
            coor *= 2.0;
            coor0 *= 2.0;
        }
        else if (k == 1) {
            std::reverse(conn.begin(), conn.end());
        }
        else if (ties.shape(0) > 0) {
            ties(0, 0) = c.in(0, coor0.shape(0) - ties.shape(0) - 1);
        }
    }
    G::Tyings::Periodic periodic() const
    {
        Arg<D2> x(coor);
        Arg<I2> dd(dofs), cc(control), tt(ties);
        Arg<I1> pp(iip);
        return with_iip ? G::Tyings::Periodic(x(), dd(), cc(), tt(), pp()) : G::Tyings::Periodic(x(), dd(), cc(), tt());
    }
};

struct ControlS : TiedS {
    using Self = ControlS;
    using type = G::Tyings::Control;
    static constexpr bool dflt = true;
    using TiedS::TiedS;
    type make() const
    {
        Arg<D2> x(coor0);
        Arg<I2> dd(dofs0);
        return type(x(), dd());
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.coor()), OBS(x.dofs()), OBS(x.controlDofs()), OBS(x.controlNodes())};
    }
};

struct PeriodicS : TiedS {
    using Self = PeriodicS;
    using type = G::Tyings::Periodic;
    static constexpr bool dflt = true;
    using TiedS::TiedS;
    type make() const
    {
        return periodic();
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nnd()), OBS(x.nni()), OBS(x.nnu()), OBS(x.nnp()), OBS(x.dofs()), OBS(x.control()), OBS(x.nodal_tyings()),
                OBS(x.iid()), OBS(x.iii()), OBS(x.iiu()), OBS(x.iip()), OBS(x.Cdi()), OBS(x.Cdu()), OBS(x.Cdp())};
    }
};

struct VectorTyingsS : TiedS {
    using Self = VectorTyingsS;
    using type = G::VectorPartitionedTyings;
    static constexpr bool dflt = true;
    using TiedS::TiedS;
    type make() const
    {
        auto p = periodic();
        Arg<I2> cc(conn), dd(p.dofs());
        Arg<Eigen::SparseMatrix<double>> a(p.Cdu()), b(p.Cdp()), i(p.Cdi());
        return type(cc(), dd(), a(), b(), i());
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static D1 copied(const type& x, const D1& d)
    {
        D1 r = 2.0 * d;
        x.copy_p(d, r);
        return r;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nnd()), OBS(x.nni()), OBS(x.nnu()), OBS(x.nnp()), OBS(x.iid()), OBS(x.iii()), OBS(x.iiu()), OBS(x.iip()),
                OBS(x.conn()), OBS(x.dofs()), OBS(x.AsDofs_i(s.n)), OBS(copied(x, s.d)), OBS(x.AsNode(s.d)),
                OBS(x.AssembleDofs(s.e)), OBS(x.AsElement(s.n))};
    }
};

struct MatrixTyingsS : TiedS {
    using Self = MatrixTyingsS;
    using type = G::MatrixPartitionedTyings;
    static constexpr bool dflt = true;
    using TiedS::TiedS;
    type make() const
    {
        auto p = periodic();
        Arg<I2> cc(conn), dd(p.dofs());
        Arg<Eigen::SparseMatrix<double>> a(p.Cdu()), b(p.Cdp());
        return type(cc(), dd(), a(), b());
    }
    std::function<void(type&)> change(Case& c) const
    {
        size_t m = conn.shape(1) * ndim;
        D3 k = anyfield<3>(c, {conn.shape(0), m, m});
        c.desc << "assemble ";
        return [k](type& x) {
            Arg<D3> a(k);
            x.assemble(a());
        };
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nnd()), OBS(x.nni()), OBS(x.nnu()), OBS(x.nnp()), OBS(x.iid()), OBS(x.iii()), OBS(x.iiu()), OBS(x.iip()),
                OBS(x.conn()), OBS(x.dofs()), OBS(x.Todense()), OBS(x.data_uu()), OBS(x.data_up()), OBS(x.data_pu()),
                OBS(x.data_pp()), OBS(x.data_ud()), OBS(x.data_pd()), OBS(x.data_du()), OBS(x.data_dp()), OBS(x.data_dd())};
    }
};

template <Kind K>
struct QuadratureS {
    using Self = QuadratureS<K>;
    using type = typename Quad<K>::type;
    static constexpr bool dflt = true;
    D3 x0, u, g;
    D2 sc;
    D4 t2;
    D6 t4;
    Scheme sch;
    double thick;
    explicit QuadratureS(Case& c)
    {
        size_t nelem = c.in(1, 4);
        x0 = elements(c, K, nelem);
        sch = scheme(c, K);
        thick = K == Kind::planar && c.flip() ? 0.5 : 1.0;
        size_t nip = sch.w.size(), td = tdim(K);
        u = anyfield<3>(c, {nelem, nne(K), dim(K)});
        g = anyfield<3>(c, {nelem, nip, dim(K)});
        sc = anyfield<2>(c, {nelem, nip});
        t2 = anyfield<4>(c, {nelem, nip, td, td});
        t4 = anyfield<6>(c, {nelem, nip, td, td, td, td});
    }
    void vary(Case& c)
    {
        if (c.flip()) {
            x0 *= 1.25;
        }
        if (c.flip()) {
            size_t k = sch.kind;
            sch.xi *= 0.5;
            sch.w *= 2.0;
            sch.kind = k == 0 ? 1 : k;
        }
        if (K == Kind::planar) {
            thick = 1.5 - thick;
        }
    }
    type make() const
    {
        Arg<D3> x(x0);
        std::unique_ptr<Scheme> s(new Scheme(sch));
        type r = Quad<K>::make(x(), *s, thick);
        s->xi.fill(12345677.0);
        s->w.fill(12345677.0);
        return r;
    }
    std::function<void(type&)> change(Case& c) const
    {
        D3 y = x0;
        double f = c.real(0.5, 2.0);
        size_t e = c.in(0, y.shape(0) - 1);
        for (size_t m = 0; m < y.shape(1); ++m) {
            for (size_t i = 0; i < y.shape(2); ++i) {
                y(e, m, i) *= f;
            }
        }
        c.desc << "update_x ";
        return [y](type& x) {
            Arg<D3> a(y);
            x.update_x(a());
        };
    }
    static auto gradn(const type& x)
    {
        if constexpr (K == Kind::axisym) {
            return x.dV();
        }
        else {
            return x.GradN();
        }
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nelem()), OBS(x.nne()), OBS(x.ndim()), OBS(x.tdim()), OBS(x.nip()), OBS(x.shape_elemvec()), OBS(x.shape_elemmat()),
                OBS(x.shape_qscalar()), OBS(x.shape_qvector()), OBS(x.dV()), OBS(gradn(x)), OBS(x.AsTensor(2, s.sc)),
                OBS(x.InterpQuad_vector(s.u)), OBS(x.GradN_vector(s.u)), OBS(x.GradN_vector_T(s.u)), OBS(x.SymGradN_vector(s.u)),
                OBS(x.Int_N_vector_dV(s.g)), OBS(x.Int_N_scalar_NT_dV(s.sc)), OBS(x.Int_gradN_dot_tensor2_dV(s.t2)),
                OBS(x.Int_gradN_dot_tensor4_dot_gradNT_dV(s.t4))};
    }
};

template <class T>
static void put_nodes2(Flat& r, const T& x)
{
    put(r, x.nodesBottomEdge());
    put(r, x.nodesTopEdge());
    put(r, x.nodesLeftEdge());
    put(r, x.nodesRightEdge());
    put(r, x.nodesBottomOpenEdge());
    put(r, x.nodesTopOpenEdge());
    put(r, x.nodesLeftOpenEdge());
    put(r, x.nodesRightOpenEdge());
    put(r, x.nodesBottomLeftCorner());
    put(r, x.nodesTopRightCorner());
}

template <class T>
static void put_nodes3(Flat& r, const T& x)
{
    put(r, x.nodesBottom());
    put(r, x.nodesTop());
    put(r, x.nodesLeft());
    put(r, x.nodesRight());
    put(r, x.nodesFront());
    put(r, x.nodesBack());
    put(r, x.nodesFrontFace());
    put(r, x.nodesFrontBottomEdge());
    put(r, x.nodesBackTopOpenEdge());
    put(r, x.nodesFrontBottomLeftCorner());
}

template <class T>
struct Wrap { // argument of "put": a set of nodes per side
    const T& x;
};

template <class T>
static auto put(Flat& r, const Wrap<T>& w)
{
    if constexpr (std::is_same_v<T, M::Hex8::Regular> || std::is_same_v<T, M::Hex8::FineLayer>) {
        put_nodes3(r, w.x);
    }
    else {
        put_nodes2(r, w.x);
    }
}

#define OBS_MESH \
    OBS(x.nelem()), OBS(x.nnode()), OBS(x.nne()), OBS(x.ndim()), OBS(x.nelx()), OBS(x.nely()), OBS(x.h()), OBS(x.elementType()), \
        OBS(x.coor()), OBS(x.conn()), OBS(x.dofs()), OBS(x.dofsPeriodic()), OBS(x.nodesPeriodic()), OBS(x.nodesOrigin()), \
        OBS((Wrap<type>{x}))

template <class T>
struct MeshS {
    using Self = MeshS<T>;
    using type = T;
    static constexpr bool hex = std::is_same_v<T, M::Hex8::Regular> || std::is_same_v<T, M::Hex8::FineLayer>;
    static constexpr bool fine = std::is_same_v<T, M::Hex8::FineLayer> || std::is_same_v<T, M::Quad4::FineLayer>;
    static constexpr bool dflt = std::is_default_constructible_v<T>;
    size_t nx, ny, nz, nf;
    double h;
    bool rebuild = false;
    explicit MeshS(Case& c)
    {
        nx = c.in(1, hex ? 4 : 10);
        ny = c.in(1, hex && !fine ? 4 : 10);
        nz = c.in(1, 4);
        nf = c.in(1, 2);
        if (fine && c.flip()) {
            nx = (nx % 3 + 1) * 3;
            nz = 3;
        }
        h = edge_length(c);
        rebuild = fine && !hex && c.flip() && nx >= 3 && ny >= 3;
        c.desc << nx << "x" << ny << "x" << nz << " h=" << h << "; ";
    }
    void vary(Case& c)
    {
        size_t k = c.in(0, 4);
        if (k == 0) {
            std::swap(nx, ny);
        }
        else if (k == 1) {
            std::swap(ny, nz);
        }
        else if (k == 2) {
            std::swap(nx, nz);
        }
        else if (k == 3) {
            h *= 2.0;
        }
        else {
            nf = 3 - nf;
        }
        rebuild = false;
    }
    type make() const
    {
        if constexpr (hex && fine) {
            return type(nx, ny, nz, h, nf);
        }
        else if constexpr (hex) {
            return type(nx, ny, nz, h);
        }
        else if constexpr (fine) {
            type m(nx, ny, h, nf);
            if (rebuild) {
                Arg<D2> coor(m.coor());
                Arg<I2> conn(m.conn());
                return type(coor(), conn());
            }
            return m;
        }
        else {
            return type(nx, ny, h);
        }
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        if constexpr (hex) {
            return {OBS_MESH, OBS(x.nelz())};
        }
        else if constexpr (fine) {
            return {OBS_MESH, OBS(x.elemrow_nhx()), OBS(x.elemrow_nhy()), OBS(x.elemrow_type()), OBS(x.elemrow_nelem()),
                    OBS(x.elementsMiddleLayer()), OBS(x.elementsLayer(0)), OBS(x.elementgrid_ravel({0, 1}, {0, 1}))};
        }
        else if constexpr (std::is_same_v<T, M::Quad4::Regular>) {
            return {OBS_MESH, OBS(x.elementgrid())};
        }
        else {
            return {OBS_MESH};
        }
    }
};

struct RefineS {
    using Self = RefineS;
    using type = M::Quad4::Map::RefineRegular;
    static constexpr bool dflt = true;
    size_t nx, ny, rx, ry;
    D2 a, f;
    explicit RefineS(Case& c)
    {
        nx = c.in(1, 4);
        ny = c.in(1, 4);
        rx = c.in(1, 3);
        ry = c.in(1, 3);
        a = anyfield<2>(c, {nx * ny, 2});
        f = anyfield<2>(c, {nx * ny * rx * ry, 2});
        c.desc << nx << "x" << ny << " refined " << rx << "x" << ry << "; ";
    }
    void vary(Case& c)
    {
        if (c.flip()) {
            std::swap(nx, ny);
        }
        else {
            std::swap(rx, ry);
        }
    }
    type make() const
    {
        std::unique_ptr<M::Quad4::Regular> m(new M::Quad4::Regular(nx, ny, 2.0));
        type r(*m, rx, ry);
        *m = M::Quad4::Regular(9, 9, 7.0);
        return r;
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.nx()), OBS(x.ny()), OBS(x.coarseMesh().coor()), OBS(x.coarseMesh().conn()), OBS(x.fineMesh().coor()),
                OBS(x.fineMesh().conn()), OBS(x.map()), OBS(x.meanToCoarse(s.f)), OBS(x.mapToFine(s.a))};
    }
};

struct FineMapS {
    using Self = FineMapS;
    using type = M::Quad4::Map::FineLayer2Regular;
    static constexpr bool dflt = true;
    size_t nx, ny;
    double h;
    D2 f;
    explicit FineMapS(Case& c)
    {
        nx = c.flip() ? 9 : c.in(1, 9);
        ny = c.in(1, 15);
        h = edge_length(c);
        f = anyfield<2>(c, {M::Quad4::FineLayer(nx, ny, h).nelem(), 2});
        c.desc << nx << "x" << ny << "; ";
    }
    void vary(Case&)
    {
        h *= 2.0;
    }
    type make() const
    {
        std::unique_ptr<M::Quad4::FineLayer> m(new M::Quad4::FineLayer(nx, ny, h));
        type r(*m);
        *m = M::Quad4::FineLayer(3, 3, 7.0);
        return r;
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.regularMesh().coor()), OBS(x.regularMesh().conn()), OBS(x.fineLayerMesh().coor()),
                OBS(x.fineLayerMesh().conn()), OBS(x.map()), OBS(x.mapFraction()), OBS(x.mapToRegular(s.f))};
    }
};

#define OBS_STITCH \
    OBS(x.nmesh()), OBS(x.nelem()), OBS(x.nnode()), OBS(x.nne()), OBS(x.ndim()), OBS(x.coor()), OBS(x.conn()), OBS(x.dofs()), \
        OBS(x.nodemap()), OBS(x.elemmap()), OBS(x.nodemap(0)), OBS(x.elemmap(0)), OBS(x.nodeset(s.set, 0)), OBS(x.elemset(s.set, 0))

template <bool V>
struct StitchS {
    using Self = StitchS<V>;
    using type = std::conditional_t<V, M::Vstack, M::Stitch>;
    static constexpr bool dflt = false;
    size_t nx;
    I1 set;
    bool check = true;
    explicit StitchS(Case& c)
    {
        nx = c.in(1, 4);
        set = xt::zeros<size_t>({size_t(1)});
        check = c.flip();
    }
    void vary(Case&)
    {
        check = !check;
    }
    static void push(type& x, const M::Quad4::Regular& m, double up)
    {
        Arg<D2> coor(m.coor());
        Arg<I2> conn(m.conn());
        if constexpr (V) {
            Arg<I1> a(m.nodesBottomEdge()), b(m.nodesTopEdge());
            x.push_back(coor(), conn(), a(), b());
        }
        else {
            D2 y = m.coor();
            for (size_t i = 0; i < y.shape(0); ++i) {
                y(i, 1) += up;
            }
            Arg<D2> yy(y);
            x.push_back(yy(), conn());
        }
    }
    type make() const
    {
        std::unique_ptr<type> r;
        if constexpr (V) {
            r.reset(new type(check));
        }
        else {
            r.reset(new type(1e-6, 1e-9));
        }
        push(*r, M::Quad4::Regular(nx, 1), 0.0);
        return *r;
    }
    std::function<void(type&)> change(Case& c) const
    {
        size_t ny = c.in(1, 2);
        double up = static_cast<double>(c.in(0, 4));
        c.desc << "push_back(ny=" << ny << "," << up << ") ";
        M::Quad4::Regular m(nx, ny);
        return [m, up](type& x) { push(x, m, up); };
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS_STITCH};
    }
};

struct ManualS {
    using Self = ManualS;
    using type = M::ManualStitch;
    static constexpr bool dflt = true;
    size_t nx, ny;
    bool check;
    I1 set;
    explicit ManualS(Case& c)
    {
        nx = c.in(1, 4);
        ny = c.in(1, 3);
        check = c.flip();
        set = xt::zeros<size_t>({size_t(1)});
    }
    void vary(Case&)
    {
        std::swap(nx, ny);
    }
    type make() const
    {
        M::Quad4::Regular a(nx, 1), b(nx, ny);
        D2 y = b.coor();
        for (size_t i = 0; i < y.shape(0); ++i) {
            y(i, 1) += 1.0;
        }
        Arg<D2> xa(a.coor()), xb(y);
        Arg<I2> ca(a.conn()), cb(b.conn());
        Arg<I1> na(a.nodesTopEdge()), nb(b.nodesBottomEdge());
        return type(xa(), ca(), na(), xb(), cb(), nb(), check);
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS_STITCH};
    }
};

template <class T>
struct NumberS {
    using Self = NumberS<T>;
    using type = T;
    static constexpr bool dflt = true;
    I2 a;
    std::vector<I1> parts;
    explicit NumberS(Case& c)
    {
        size_t n = c.in(1, 8);
        auto p = c.perm(2 * n);
        a = xt::zeros<size_t>({n, size_t(2)});
        std::copy(p.begin(), p.end(), a.begin());
        size_t k = c.in(0, 2 * n);
        parts.push_back(vec(std::vector<size_t>(p.begin(), p.begin() + static_cast<long>(k))));
        parts.push_back(vec(std::vector<size_t>(p.begin() + static_cast<long>(k), p.end())));
        if constexpr (std::is_same_v<T, M::Renumber>) {
            for (auto& v : a) {
                v = 3 * v / 2;
            }
        }
        c.desc << str(a) << " split " << k << "; ";
    }
    void vary(Case&)
    {
        if constexpr (std::is_same_v<T, M::Reorder>) {
            std::swap(parts[0], parts[1]);
        }
        else {
            std::reverse(a.begin(), a.end());
        }
    }
    type make() const
    {
        if constexpr (std::is_same_v<T, M::Renumber>) {
            Arg<I2> b(a);
            return type(b());
        }
        else {
            Arg<I1> p(parts[0]), q(parts[1]);
            return type({p(), q()});
        }
    }
    std::function<void(type&)> change(Case&) const
    {
        return nullptr;
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.apply(s.a)), OBS(x.index())};
    }
};

struct StopListS {
    using Self = StopListS;
    using type = G::Iterate::StopList;
    static constexpr bool dflt = true;
    size_t n;
    explicit StopListS(Case& c) : n(c.in(1, 5))
    {
        c.desc << "n=" << n << "; ";
    }
    void vary(Case&)
    {
        n = 6 - n;
    }
    type make() const
    {
        return type(n);
    }
    std::function<void(type&)> change(Case& c) const
    {
        size_t op = c.in(0, 6);
        size_t m = c.in(1, 5);
        double v = static_cast<double>(c.in(0, 6));
        if (op <= 4) {
            c.desc << "insert " << v << " ";
            return [v](type& x) { x.roll_insert(v); };
        }
        if (op == 5) {
            c.desc << "reset ";
            return [](type& x) { x.reset(); };
        }
        c.desc << "reset(" << m << ") ";
        return [m](type& x) { x.reset(m); };
    }
    static std::vector<Observer<Self>> observers()
    {
        return {OBS(x.data()), OBS(x.get()), OBS(x.descending()), OBS(x.all_less(3.0))};
    }
};

// ---- history ----

// What the object in a slot should be: made by the "spec", followed by changes.
template <class S>
struct Model {
    std::shared_ptr<const S> spec; // null: nothing is specified (default constructed, moved from)
    std::vector<std::function<void(typename S::type&)>> log;
};

template <class S>
static typename S::type replay(const Model<S>& m)
{
    typename S::type r = m.spec->make();
    for (auto& f : m.log) {
        f(r);
    }
    return r;
}

// Evaluate "f" in a process of its own: what it leaves behind (e.g. in a static variable) is not seen by later cases. Returns what "f"
// returns. Failures are passed on; if that process dies, so does this one.
static std::vector<Flat> isolated(const std::function<std::vector<Flat>()>& f)
{
#ifdef PBT_FUZZ
    return f();
#else
    int fd[2];
    if (pipe(fd) != 0) {
        throw std::runtime_error("pipe");
    }
    pid_t pid = fork();
    if (pid < 0) {
        throw std::runtime_error("fork");
    }
    if (pid == 0) {
        close(fd[0]);
        pbt::arm(pbt::CPU_LIMIT / 2);
        auto send = [&](const void* p, size_t n) {
            const char* q = static_cast<const char*>(p);
            while (n > 0) {
                ssize_t k = write(fd[1], q, n);
                if (k <= 0) {
                    _exit(97);
                }
                q += k;
                n -= static_cast<size_t>(k);
            }
        };
        auto number = [&](size_t n) { send(&n, sizeof(n)); };
        std::string msg;
        try {
            auto r = f();
            number(0);
            number(r.size());
            for (auto& v : r) {
                number(v.size());
                send(v.data(), v.size() * sizeof(double));
            }
            _exit(0);
        }
        catch (const pbt::Failure& e) {
            msg = e.what();
        }
        catch (const std::exception& e) {
            msg = std::string("unexpected exception: ") + e.what();
        }
        number(1);
        number(msg.size());
        send(msg.data(), msg.size());
        _exit(0);
    }
    close(fd[1]);
    bool ok = true;
    auto receive = [&](void* p, size_t n) {
        char* q = static_cast<char*>(p);
        while (n > 0 && ok) {
            ssize_t k = read(fd[0], q, n);
            if (k <= 0) {
                ok = false;
                return;
            }
            q += k;
            n -= static_cast<size_t>(k);
        }
    };
    auto number = [&]() {
        size_t n = 0;
        receive(&n, sizeof(n));
        return ok ? n : 0;
    };
    std::vector<Flat> ret;
    std::string msg;
    bool failed = number() == 1;
    if (failed) {
        msg.resize(number());
        receive(&msg[0], msg.size());
    }
    else {
        ret.resize(number());
        for (auto& v : ret) {
            v.resize(number());
            receive(v.data(), v.size() * sizeof(double));
        }
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) {
        signal(SIGPROF, SIG_DFL);
        raise(SIGPROF);
    }
    if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0 || !ok) {
        throw pbt::Failure("crash: a process ended with status " + std::to_string(st));
    }
    if (failed) {
        throw pbt::Failure(msg);
    }
    return ret;
#endif
}

template <class S>
static const std::vector<Observer<S>>& observers()
{
    static const std::vector<Observer<S>> obs = S::observers();
    return obs;
}

// The objects, and what happens to them.
template <class S>
struct World {
    explicit World(size_t n) : x(n)
    {
    }
    std::vector<std::unique_ptr<typename S::type>> x;
    std::unique_ptr<S> args; // arguments of methods: at the same position in memory for every call
};

// Compare methods (indices) of the object in slot "p" to those of a new object with the same history.
template <class S>
static std::function<void(World<S>&)> observe(Case& c, const Model<S>& m, size_t p)
{
    auto& obs = observers<S>();
    size_t n = c.rare(4) ? c.in(1, 6) : obs.size();
    size_t shift = c.in(0, obs.size() - 1);
    std::vector<size_t> index;
    for (size_t q = 0; q < n; ++q) {
        index.push_back(n == obs.size() ? (q + shift) % n : c.in(0, obs.size() - 1));
    }
    c.checks += index.size();
    return [m, p, index](World<S>& w) {
        auto& obs = observers<S>();
        if (w.args) {
            *w.args = *m.spec;
        }
        else {
            w.args.reset(new S(*m.spec));
        }
        auto fresh = std::make_unique<typename S::type>(replay(m));
        for (auto i : index) {
            Flat b = obs[i].f(*w.args, *w.x[p]);
            Flat a = obs[i].f(*m.spec, *fresh);
            if (!same_flat(a, b)) {
                throw pbt::Failure("slot " + std::to_string(p) + ": " + obs[i].name + " differs from a new object with the same history");
            }
        }
    };
}

template <class S>
static void history(Case& c)
{
    using T = typename S::type;
    using Action = std::function<void(World<S>&)>;
    size_t n = c.in(1, 3);
    std::vector<Model<S>> model(n);
    std::vector<bool> alive(n, false);
    std::vector<Action> action;
    std::vector<std::shared_ptr<const S>> specs;
    size_t nspec = c.in(1, 2);
    for (size_t i = 0; i < nspec; ++i) {
        if (i > 0 && c.flip()) {
            auto other = std::make_shared<S>(*specs[0]);
            other->vary(c);
            specs.push_back(other);
            c.label("similar specifications");
        }
        else {
            specs.push_back(std::make_shared<const S>(c));
        }
    }
    auto construct = [&](size_t i) {
        auto s = specs[c.in(0, nspec - 1)];
        model[i].spec = s;
        model[i].log.clear();
        alive[i] = true;
        action.push_back([s, i](World<S>& w) { w.x[i] = std::make_unique<T>(s->make()); });
    };
    construct(0);

    // plan
    size_t nstep = c.rare(30) ? c.in(1, 40) : c.in(1, 10);
    size_t transfer = 0, changes = 0;
    for (size_t q = 0; q < nstep; ++q) {
        size_t i = c.in(0, n - 1), j = c.in(0, n - 1);
        size_t op = c.in(0, 9);
        c.desc << "[" << i << j << "] ";
        if (op == 0 || !alive[j]) {
            c.desc << "construct ";
            construct(j);
        }
        else if (op == 1) {
            if (model[j].spec) {
                auto f = model[j].spec->change(c);
                if (f) {
                    action.push_back([f, j](World<S>& w) { f(*w.x[j]); });
                    model[j].log.push_back(f);
                    ++changes;
                }
            }
        }
        else if (op == 2) {
            c.desc << "copy construct ";
            action.push_back([i, j](World<S>& w) {
                const T& src = *w.x[j];
                w.x[i] = std::make_unique<T>(src); // i == j: replaced by a copy of itself
            });
            if (i != j) {
                model[i] = model[j];
            }
            alive[i] = true;
            ++transfer;
        }
        else if (op == 3) {
            c.desc << "move construct ";
            bool destroy = i != j && c.flip();
            action.push_back([i, j, destroy](World<S>& w) {
                w.x[i] = std::make_unique<T>(std::move(*w.x[j]));
                if (destroy) {
                    w.x[j].reset();
                }
            });
            alive[i] = true;
            if (i != j) {
                model[i] = model[j];
                model[j] = Model<S>();
                alive[j] = !destroy;
            }
            ++transfer;
        }
        else if (op == 4 && alive[i]) {
            c.desc << "copy assign ";
            action.push_back([i, j](World<S>& w) {
                const T& src = *w.x[j];
                *w.x[i] = src;
            });
            if (i != j) {
                model[i] = model[j];
            }
            ++transfer;
        }
        else if (op == 5 && alive[i] && i != j) {
            c.desc << "move assign ";
            bool destroy = c.flip();
            action.push_back([i, j, destroy](World<S>& w) {
                *w.x[i] = std::move(*w.x[j]);
                if (destroy) {
                    w.x[j].reset();
                }
            });
            model[i] = model[j];
            model[j] = Model<S>();
            alive[j] = !destroy;
            ++transfer;
        }
        else if (op == 6 && alive[i] && i != j) {
            c.desc << "swap ";
            action.push_back([i, j](World<S>& w) { std::swap(*w.x[i], *w.x[j]); });
            std::swap(model[i], model[j]);
            ++transfer;
        }
        else if (op == 7) {
            c.desc << "destroy ";
            action.push_back([j](World<S>& w) { w.x[j].reset(); });
            model[j] = Model<S>();
            alive[j] = false;
        }
        else if (op == 8) {
            c.desc << "vector ";
            bool move = c.flip();
            action.push_back([move](World<S>& w) {
                std::vector<T> v;
                for (auto& x : w.x) {
                    if (x) {
                        v.push_back(*x); // (reallocates)
                    }
                }
                size_t k = 0;
                for (auto& x : w.x) {
                    if (x) {
                        if (move) {
                            *x = std::move(v[k]);
                        }
                        else {
                            *x = v[k];
                        }
                        ++k;
                    }
                }
            });
            ++transfer;
        }
        else if (op == 9) {
            if constexpr (S::dflt) {
                c.desc << "default ";
                action.push_back([j](World<S>& w) { w.x[j] = std::make_unique<T>(); });
                model[j] = Model<S>();
            }
        }
        if (c.rare(3)) {
            size_t p = c.in(0, n - 1);
            if (model[p].spec) {
                action.push_back(observe(c, model[p], p));
            }
        }
    }
    std::vector<size_t> left;
    for (size_t p = 0; p < n; ++p) {
        if (model[p].spec) {
            action.push_back(observe(c, model[p], p));
            left.push_back(p);
        }
    }
    c.label(changes > 0, "changed");
    c.label(nspec > 1, "two specifications");
    c.nontrivial(transfer > 0);

    // in processes in which nothing was evaluated before: the history, and one object as if it were the only one
    auto evaluate = [&](const Model<S>& m, T& x) {
        std::vector<Flat> r;
        for (auto& o : observers<S>()) {
            r.push_back(o.f(*m.spec, x));
        }
        return r;
    };
    // (REQUIRE: comparisons in a process of its own are counted when they are planned)
    bool alone = left.size() > 0 && c.rare(2);
    size_t p = alone ? left[c.in(0, left.size() - 1)] : 0;
    auto last = isolated([&]() {
        World<S> w(n);
        for (auto& f : action) {
            f(w);
        }
        return alone ? evaluate(model[p], *w.x[p]) : std::vector<Flat>();
    });
    if (alone) {
        auto first = isolated([&]() {
            T x = replay(model[p]);
            return evaluate(model[p], x);
        });
        c.label("compared to an object that is alone");
        REQUIRE(c, first.size() == last.size(), "number of results");
        for (size_t i = 0; i < first.size(); ++i) {
            REQUIRE(c, same_flat(first[i], last[i]), "slot " << p << ": " << observers<S>()[i].name << " differs from an object that is the only one with the same history");
        }
    }
}

#define HISTORY(name, ...) \
    PROP(name, 400, 4000) \
    { \
        history<__VA_ARGS__>(c); \
    }

HISTORY(vector, VectorS)
HISTORY(vector_partitioned, VectorPartitionedS)
HISTORY(vector_tyings, VectorTyingsS)
HISTORY(matrix, MatrixS)
HISTORY(matrix_partitioned, MatrixPartitionedS)
HISTORY(matrix_tyings, MatrixTyingsS)
HISTORY(diagonal, MatrixDiagonalS)
HISTORY(diagonal_partitioned, MatrixDiagonalPartitionedS)
HISTORY(control, ControlS)
HISTORY(periodic, PeriodicS)
HISTORY(quad4, QuadratureS<Kind::quad4>)
HISTORY(planar, QuadratureS<Kind::planar>)
HISTORY(axisymmetric, QuadratureS<Kind::axisym>)
HISTORY(hex8, QuadratureS<Kind::hex8>)
HISTORY(mesh_quad4, MeshS<M::Quad4::Regular>)
HISTORY(mesh_quad4_finelayer, MeshS<M::Quad4::FineLayer>)
HISTORY(mesh_tri3, MeshS<M::Tri3::Regular>)
HISTORY(mesh_hex8, MeshS<M::Hex8::Regular>)
HISTORY(mesh_hex8_finelayer, MeshS<M::Hex8::FineLayer>)
HISTORY(refine, RefineS)
HISTORY(finelayer_map, FineMapS)
HISTORY(stitch, StitchS<false>)
HISTORY(vstack, StitchS<true>)
HISTORY(manual_stitch, ManualS)
HISTORY(renumber, NumberS<M::Renumber>)
HISTORY(reorder, NumberS<M::Reorder>)
HISTORY(stoplist, StopListS)

// ---- functions ----

struct Input {
    D2 coor;
    I2 conn, dofs, tri;
    I1 map;
    D2 n;
    D3 e, k;
    D2 q;
    bool hex = false;
};

static const std::vector<std::pair<const char*, std::function<Flat(const Input&)>>>& functions()
{
#define FUN(expr) \
    { \
        #expr, [](const Input& a) { \
            Flat r; \
            try { \
                put(r, expr); \
            } \
            catch (const std::runtime_error&) { /* not implemented for this type of element */ \
                r = {-1.0}; \
            } \
            return r; \
        } \
    }
    static const std::vector<std::pair<const char*, std::function<Flat(const Input&)>>> f = {
        FUN(M::coordination(a.conn)),
        FUN(M::elem2node(a.conn)),
        FUN(M::elem2node(a.conn, a.dofs)),
        FUN(M::node2dof(a.dofs)),
        FUN(M::nodaltyings(a.dofs)),
        FUN(M::edgesize(a.coor, a.conn)),
        FUN(M::centers(a.coor, a.conn)),
        FUN(M::elemmap2nodemap(a.map, a.coor, a.conn)),
        FUN(M::nodal_mass(a.coor, a.conn)),
        FUN(M::center_of_gravity(a.coor, a.conn)),
        FUN(M::Tri3::getOrientation(a.coor, a.tri)),
        FUN(M::Tri3::setOrientation(a.coor, a.tri, 1)),
        FUN(M::Tri3::setOrientation(a.coor, a.tri, -1)),
        FUN(M::defaultElementType(a.coor, a.conn)),
        FUN(M::dofs(a.coor.shape(0), a.coor.shape(1))),
        FUN(M::renumber(a.dofs)),
        FUN(M::overlapping(a.coor, a.n)),
        FUN(G::Element::asElementVector(a.conn, a.n)),
        FUN(G::Element::assembleNodeVector(a.conn, a.e)),
        FUN(G::Element::isSequential(a.dofs)),
        FUN(G::Element::isDiagonal(a.k)),
        FUN(G::AsTensor(a.q, std::array<size_t, 2>{2, 3})),
        FUN(G::Element::Quad4::Gauss::xi()),
        FUN(G::Element::Quad4::Gauss::w()),
        FUN(G::Element::Quad4::Nodal::xi()),
        FUN(G::Element::Quad4::Nodal::w()),
        FUN(G::Element::Quad4::MidPoint::xi()),
        FUN(G::Element::Quad4::MidPoint::w()),
        FUN(G::Element::Hex8::Gauss::xi()),
        FUN(G::Element::Hex8::Gauss::w()),
        FUN(G::Element::Hex8::Nodal::xi()),
        FUN(G::Element::Hex8::Nodal::w()),
    };
    return f;
}

static Input input(Case& c, const Input* like)
{
    Input a;
    a.hex = like ? like->hex : c.rare(3);
    if (like && c.flip()) {
        a = *like; // same shape, other coordinates
    }
    else if (a.hex) {
        M::Hex8::Regular m(c.in(1, 3), c.in(1, 3), c.in(1, 2));
        a.coor = m.coor();
        a.conn = m.conn();
        a.dofs = c.flip() ? m.dofs() : m.dofsPeriodic();
    }
    else {
        M::Quad4::Regular m(c.in(1, 4), c.in(1, 4));
        a.coor = m.coor();
        a.conn = m.conn();
        a.dofs = c.flip() ? m.dofs() : m.dofsPeriodic();
    }
    if (c.flip()) {
        D2 u = field<2>(c, {a.coor.shape(0), a.coor.shape(1)}, 0.1);
        double mx = std::max(1.0, 6.0 * maxabs(u));
        a.coor += u / mx;
    }
    a.tri = xt::zeros<size_t>({a.conn.shape(0), size_t(3)});
    for (size_t e = 0; e < a.conn.shape(0); ++e) {
        size_t o = a.hex ? 0 : c.in(0, 1);
        for (size_t m = 0; m < 3; ++m) {
            a.tri(e, m) = a.conn(e, o ? 2 - m : m);
        }
    }
    auto p = c.perm(a.conn.shape(0));
    a.map = vec(p);
    a.n = anyfield<2>(c, {a.coor.shape(0), a.coor.shape(1)});
    a.e = anyfield<3>(c, {a.conn.shape(0), a.conn.shape(1), a.coor.shape(1)});
    a.k = anyfield<3>(c, {a.conn.shape(0), a.conn.shape(1), a.conn.shape(1)});
    a.q = anyfield<2>(c, {a.conn.shape(0), 2});
    if (c.flip()) {
        for (size_t e = 0; e < a.k.shape(0); ++e) {
            for (size_t i = 0; i < a.k.shape(1); ++i) {
                for (size_t j = 0; j < a.k.shape(2); ++j) {
                    a.k(e, i, j) *= i == j;
                }
            }
        }
    }
    return a;
}

PROP(functions, 400, 4000)
{
    auto& f = functions();
    std::vector<Input> a;
    size_t n = c.in(2, 3);
    for (size_t i = 0; i < n; ++i) {
        a.push_back(input(c, i > 0 ? &a[0] : nullptr));
        c.desc << "coor=" << str(a.back().coor) << "; ";
    }
    struct Round {
        size_t shift;
        bool reverse;
    };
    std::vector<Round> rounds(c.in(2, 3));
    for (auto& r : rounds) {
        r.shift = c.in(0, n - 1);
        r.reverse = c.flip();
    }
    c.nontrivial();
    // all functions, several times
    auto all = isolated([&]() {
        std::vector<Flat> first(n * f.size());
        Input b;
        for (auto& r : rounds) {
            for (size_t k = 0; k < n; ++k) {
                size_t i = (k + r.shift) % n;
                for (size_t m = 0; m < f.size(); ++m) {
                    size_t j = r.reverse ? f.size() - 1 - m : m;
                    b = a[i]; // at the same position in memory as other arguments
                    Flat v = f[j].second(b);
                    Flat& w = first[i * f.size() + j];
                    if (w.empty()) {
                        w = v;
                    }
                    else {
                        REQUIRE(c, same_flat(w, v), f[j].first << ": differs from an earlier call with the same arguments, input " << i);
                    }
                }
            }
        }
        return first;
    });
    // one function, not preceded by other calls
    for (size_t k = 0; k < 2; ++k) {
        size_t i = c.in(0, n - 1), j = c.in(0, f.size() - 1);
        auto one = isolated([&]() { return std::vector<Flat>{f[j].second(a[i])}; });
        REQUIRE(c, one.size() == 1 && same_flat(one[0], all[i * f.size() + j]), f[j].first << ": depends on calls before, input " << i);
    }
}

PBT_MAIN("C29")
