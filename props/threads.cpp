// C27: results do not depend on the number of (OpenMP) threads, and there are no data races.
// Compiled with -fopenmp and ThreadSanitizer; the OpenMP runtime is harness/gomp.hpp.
#define EIGEN_DONT_PARALLELIZE
#include "dense.hpp"
#include "meshes.hpp"
#include "gomp.hpp"
#include <GooseFEM/MatrixDiagonalPartitioned.h>
using namespace gen;

// All results, of any shape
struct Results {
    std::vector<std::pair<const char*, std::vector<double>>> data;

    template <class A>
    void add(const char* name, const A& a)
    {
        std::vector<double> v;
        for (const auto& i : a) {
            v.push_back(static_cast<double>(i));
        }
        data.emplace_back(name, v);
    }
};

static void compare(Case& c, const Results& a, const Results& b, unsigned n)
{
    REQUIRE(c, a.data.size() == b.data.size(), "");
    for (size_t k = 0; k < a.data.size(); ++k) {
        const auto& u = a.data[k].second;
        const auto& v = b.data[k].second;
        REQUIRE(c, u.size() == v.size(), a.data[k].first << ": shape");
        double s = maxabs(u);
        for (size_t i = 0; i < u.size(); ++i) {
            REQUIRE(c, close(u[i], v[i], s, 1e-12), a.data[k].first << "[" << i << "]: one thread " << u[i] << ", " << n << " threads " << v[i]);
        }
    }
}

// Evaluate with one thread, then with several
template <class F>
static void twice(Case& c, bool races, F f)
{
    unsigned n = static_cast<unsigned>(c.in(2, 5));
    gomp::threads = 1;
    Results one, many;
    f(one);
    gomp::threads = n;
    gomp::ignore = !races;
    gomp::regions = 0;
    f(many);
    gomp::threads = 1;
    gomp::ignore = false;
    compare(c, one, many, n);
    c.label(std::to_string(n) + " threads");
    c.label(gomp::regions > 0, "parallel regions");
    c.nontrivial(gomp::regions > 0);
}

template <Kind K>
static void element(Case& c)
{
    c.label(name(K));
    size_t nelem = c.in(1, 12);
    auto s = scheme(c, K);
    double thick = K == Kind::planar && c.flip() ? c.real(0.1, 4.0) : 1.0;
    D3 x = elements(c, K, nelem);
    D3 x2 = elements(c, K, nelem);
    constexpr size_t nd = K == Kind::hex8 ? 3 : 2;
    constexpr size_t ne = K == Kind::hex8 ? 8 : 4;
    constexpr size_t td = K == Kind::quad4 ? 2 : 3;
    size_t nip = s.w.size();
    D3 u = field<3>(c, {nelem, ne, nd});
    D2 qs = field<2>(c, {nelem, nip});
    D3 qv = field<3>(c, {nelem, nip, nd});
    D4 q2 = field<4>(c, {nelem, nip, td, td});
    D6 q4 = field<6>(c, {nelem, nip, td, td, td, td});
    size_t ndof = ne * nd;
    bool update = c.flip();
    c.desc << name(K) << " nelem=" << nelem << " nip=" << nip << " update=" << update << "; ";
    twice(c, true, [&](Results& r) {
        auto q = Quad<K>::make(x, s, thick);
        r.add("dV", q.dV());
        if constexpr (K != Kind::axisym) {
            r.add("GradN", q.GradN());
        }
        if (update) {
            q.update_x(x2);
            r.add("dV (updated)", q.dV());
            if constexpr (K != Kind::axisym) {
                r.add("GradN (updated)", q.GradN());
            }
        }
        r.add("InterpQuad_vector", q.InterpQuad_vector(u));
        r.add("GradN_vector", q.GradN_vector(u));
        r.add("GradN_vector_T", q.GradN_vector_T(u));
        r.add("SymGradN_vector", q.SymGradN_vector(u));
        r.add("Int_N_vector_dV", q.Int_N_vector_dV(qv));
        r.add("Int_N_scalar_NT_dV", q.Int_N_scalar_NT_dV(qs));
        r.add("Int_gradN_dot_tensor2_dV", q.Int_gradN_dot_tensor2_dV(q2));
        r.add("Int_gradN_dot_tensor4_dot_gradNT_dV", q.Int_gradN_dot_tensor4_dot_gradNT_dV(q4));
        // in place
        D3 a = junk<3>({nelem, nip, nd});
        q.interpQuad_vector(u, a);
        r.add("interpQuad_vector", a);
        D4 b = junk<4>({nelem, nip, td, td});
        q.gradN_vector(u, b);
        r.add("gradN_vector", b);
        q.gradN_vector_T(u, b);
        r.add("gradN_vector_T", b);
        q.symGradN_vector(u, b);
        r.add("symGradN_vector", b);
        D3 e = junk<3>({nelem, ne, nd});
        q.int_N_vector_dV(qv, e);
        r.add("int_N_vector_dV", e);
        q.int_gradN_dot_tensor2_dV(q2, e);
        r.add("int_gradN_dot_tensor2_dV", e);
        D3 m = junk<3>({nelem, ndof, ndof});
        q.int_N_scalar_NT_dV(qs, m);
        r.add("int_N_scalar_NT_dV", m);
        q.int_gradN_dot_tensor4_dot_gradNT_dV(q4, m);
        r.add("int_gradN_dot_tensor4_dot_gradNT_dV", m);
    });
}

PROP(quadrature, 200, 2000)
{
    switch (c.in(0, 3)) {
    case 0:
        return element<Kind::quad4>(c);
    case 1:
        return element<Kind::planar>(c);
    case 2:
        return element<Kind::hex8>(c);
    default:
        return element<Kind::axisym>(c);
    }
}

// Connectivity where every node is in at most one element, and every DOF at one node: no entry is written
// more than once
static Topo disjoint(Case& c)
{
    Topo t;
    t.ndim = c.in(1, 3);
    size_t nne = c.in(1, 8);
    size_t nelem = c.small(1, 12);
    t.nnode = nelem * nne + c.small(0, 3);
    auto p = c.perm(t.nnode);
    t.conn = xt::zeros<size_t>({nelem, nne});
    for (size_t i = 0; i < t.conn.size(); ++i) {
        t.conn.flat(i) = p[i];
    }
    t.dofs = xt::zeros<size_t>({t.nnode, t.ndim});
    auto q = c.perm(t.dofs.size());
    for (size_t i = 0; i < t.dofs.size(); ++i) {
        t.dofs.flat(i) = q[i];
    }
    t.unconnected = t.nnode > nelem * nne;
    c.desc << "disjoint nelem=" << nelem << " nne=" << nne << " nnode=" << t.nnode << " ndim=" << t.ndim << "; ";
    c.label("disjoint elements");
    return t;
}

// 0: disjoint elements; 1: unique DOFs; 2: anything (the same value is written more than once)
static Topo any(Case& c, size_t kind)
{
    Topo t = kind == 0 ? disjoint(c) : topo(c);
    if (kind == 1) {
        for (size_t i = 0; i < t.dofs.size(); ++i) {
            t.dofs.flat(i) = i;
        }
        c.label("unique DOFs");
    }
    return t;
}

PROP(vector, 400, 4000)
{
    size_t kind = c.in(0, 2);
    Topo t = any(c, kind);
    size_t ndof = gen::amax(t.dofs) + 1;
    size_t nelem = t.conn.shape(0), nne = t.conn.shape(1);
    I1 iip = prescribed(c, ndof);
    // consistent values everywhere
    D1 d = field<1>(c, {ndof}), d2 = field<1>(c, {ndof});
    D2 n = xt::zeros<double>({t.nnode, t.ndim}), n2 = n;
    D3 e = xt::zeros<double>({nelem, nne, t.ndim});
    for (size_t i = 0; i < n.size(); ++i) {
        n.flat(i) = d(t.dofs.flat(i));
        n2.flat(i) = d2(t.dofs.flat(i));
    }
    for (size_t i = 0; i < nelem; ++i) {
        for (size_t m = 0; m < nne; ++m) {
            for (size_t j = 0; j < t.ndim; ++j) {
                e(i, m, j) = n(t.conn(i, m), j);
            }
        }
    }
    D3 f = field<3>(c, {nelem, nne, t.ndim});
    GooseFEM::VectorPartitioned V(t.conn, t.dofs, iip);
    const GooseFEM::Vector& B = V;
    auto all = [&](Results& r, bool node_to_dof, bool elem_to) {
        r.add("AsNode(dofval)", B.AsNode(d));
        r.add("AsElement(dofval)", B.AsElement(d));
        r.add("AsElement(nodevec)", B.AsElement(n));
        r.add("AssembleDofs(elemvec)", B.AssembleDofs(f));
        r.add("AssembleDofs(nodevec)", B.AssembleDofs(n));
        r.add("AssembleNode(elemvec)", B.AssembleNode(f));
        r.add("dofs_is_u", V.dofs_is_u());
        r.add("dofs_is_p", V.dofs_is_p());
        r.add("Copy_u", V.Copy_u(n, n2));
        r.add("Copy_p", V.Copy_p(n, n2));
        D1 du = V.AsDofs_u(d), dp = V.AsDofs_p(d);
        r.add("AsDofs_u(dofval)", du);
        r.add("AsDofs_p(dofval)", dp);
        r.add("DofsFromParitioned", V.DofsFromParitioned(du, dp));
        r.add("NodeFromPartitioned", V.NodeFromPartitioned(du, dp));
        r.add("ElementFromPartitioned", V.ElementFromPartitioned(du, dp));
        if (node_to_dof) {
            r.add("AsDofs(nodevec)", B.AsDofs(n));
            r.add("AsDofs_u(nodevec)", V.AsDofs_u(n));
            r.add("AsDofs_p(nodevec)", V.AsDofs_p(n));
        }
        if (elem_to) {
            r.add("AsDofs(elemvec)", B.AsDofs(e));
            r.add("AsNode(elemvec)", B.AsNode(e));
            r.add("AsDofs_u(elemvec)", V.AsDofs_u(e));
            r.add("AsDofs_p(elemvec)", V.AsDofs_p(e));
        }
    };
    c.label(kind == 2 ? "entries written more than once: same value" : "races reported");
    twice(c, kind < 2, [&](Results& r) { all(r, kind != 2, kind == 0); });
    if (kind > 0) {
        // writing the same value more than once is no problem
        twice(c, false, [&](Results& r) { all(r, true, true); });
    }
}

PROP(matrix, 400, 4000)
{
    size_t kind = c.in(0, 2);
    Topo t = any(c, kind);
    size_t ndof = gen::amax(t.dofs) + 1;
    size_t nelem = t.conn.shape(0), nne = t.conn.shape(1);
    I1 iip = prescribed(c, ndof);
    std::set<size_t> isp(iip.begin(), iip.end());
    size_t n = nne * t.ndim;
    D3 m = elemmat_spd(c, nelem, n);
    D3 diag = xt::zeros<double>(m.shape());
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t i = 0; i < n; ++i) {
            diag(e, i, i) = m(e, i, i);
        }
    }
    // DOFs without element: not in the system
    std::vector<char> used(ndof, 0);
    for (auto k : t.conn) {
        for (size_t i = 0; i < t.ndim; ++i) {
            used[t.dofs(k, i)] = 1;
        }
    }
    bool regular = true;
    for (size_t i = 0; i < ndof; ++i) {
        regular = regular && (used[i] || isp.count(i));
    }
    bool regular_full = std::all_of(used.begin(), used.end(), [](char v) { return v != 0; });
    D1 d = field<1>(c, {ndof}), d2 = field<1>(c, {ndof});
    D2 nv = xt::zeros<double>({t.nnode, t.ndim}), nw = nv;
    for (size_t i = 0; i < nv.size(); ++i) {
        nv.flat(i) = d(t.dofs.flat(i));
        nw.flat(i) = d2(t.dofs.flat(i));
    }
    D1 full = field<1>(c, {ndof});
    for (auto& v : full) {
        v = 1.0 + std::abs(v);
    }
    bool sparse = c.flip();
    c.label(regular, "solve");
    twice(c, kind < 2, [&](Results& r) {
        if (sparse) {
            GooseFEM::Matrix A(t.conn, t.dofs);
            A.assemble(m);
            r.add("Matrix::Dot(nodevec)", A.Dot(nv));
            r.add("Matrix::Dot(dofval)", A.Dot(d));
            r.add("Matrix::Todense", A.Todense());
            if (regular_full) {
                GooseFEM::MatrixSolver<> s;
                r.add("MatrixSolver::Solve(nodevec)", s.Solve(A, nv));
                r.add("MatrixSolver::Solve(dofval)", s.Solve(A, d));
            }
            GooseFEM::MatrixPartitioned P(t.conn, t.dofs, iip);
            P.assemble(m);
            r.add("MatrixPartitioned::Todense", P.Todense());
            r.add("MatrixPartitioned::Dot(nodevec)", P.Dot(nv));
            r.add("MatrixPartitioned::Dot(dofval)", P.Dot(d));
            r.add("MatrixPartitioned::Reaction(nodevec)", P.Reaction(nv, nw));
            r.add("MatrixPartitioned::Reaction(dofval)", P.Reaction(d, d2));
            if (regular && iip.size() < ndof) {
                GooseFEM::MatrixPartitionedSolver<> s;
                r.add("MatrixPartitionedSolver::Solve(nodevec)", s.Solve(P, nv, nw));
                r.add("MatrixPartitionedSolver::Solve(dofval)", s.Solve(P, d, d2));
            }
        }
        else {
            GooseFEM::MatrixDiagonal A(t.conn, t.dofs);
            A.assemble(diag);
            r.add("MatrixDiagonal::Todiagonal", A.Todiagonal());
            r.add("MatrixDiagonal::Todense", A.Todense());
            r.add("MatrixDiagonal::Dot(nodevec)", A.Dot(nv));
            r.add("MatrixDiagonal::Dot(dofval)", A.Dot(d));
            if (regular_full) {
                r.add("MatrixDiagonal::Solve(nodevec)", A.Solve(nv));
                r.add("MatrixDiagonal::Solve(dofval)", A.Solve(d));
            }
            GooseFEM::MatrixDiagonalPartitioned P(t.conn, t.dofs, iip);
            P.assemble(diag);
            if (!regular_full) {
                P.set(full);
            }
            r.add("MatrixDiagonalPartitioned::Todiagonal", P.Todiagonal());
            r.add("MatrixDiagonalPartitioned::Todense", P.Todense());
            r.add("MatrixDiagonalPartitioned::Dot(nodevec)", P.Dot(nv));
            r.add("MatrixDiagonalPartitioned::Dot(dofval)", P.Dot(d));
            r.add("MatrixDiagonalPartitioned::Reaction(nodevec)", P.Reaction(nv, nw));
            r.add("MatrixDiagonalPartitioned::Reaction(dofval)", P.Reaction(d, d2));
            GooseFEM::VectorPartitioned V(t.conn, t.dofs, iip);
            D1 du = V.AsDofs_u(d), dp = V.AsDofs_p(d);
            r.add("MatrixDiagonalPartitioned::Dot_u", P.Dot_u(du, dp));
            r.add("MatrixDiagonalPartitioned::Dot_p", P.Dot_p(du, dp));
            r.add("MatrixDiagonalPartitioned::Reaction_p", P.Reaction_p(du, dp));
            D2 xn = nw;
            P.solve(nv, xn);
            r.add("MatrixDiagonalPartitioned::solve(nodevec)", xn);
            D1 xd = d2;
            P.solve(d, xd);
            r.add("MatrixDiagonalPartitioned::solve(dofval)", xd);
            r.add("MatrixDiagonalPartitioned::Solve_u", P.Solve_u(du, dp));
            P.set(d);
            r.add("MatrixDiagonalPartitioned::set", P.Todiagonal());
        }
    });
    c.label(sparse ? "sparse" : "diagonal");
}

// Periodic meshes: every DOF at one node
PROP(tyings, 100, 1000)
{
    size_t nx = c.in(1, 5), ny = c.in(1, 5), nz = c.in(1, 3);
    bool three = c.rare(3);
    D2 coor;
    I2 conn, dofs, ties;
    size_t origin;
    c.desc << (three ? "Hex8 " : "Quad4 ") << nx << "x" << ny << "x" << nz << "; ";
    if (three) {
        M::Hex8::Regular m(nx, ny, nz);
        coor = m.coor();
        conn = m.conn();
        dofs = m.dofs();
        ties = m.nodesPeriodic();
        origin = m.nodesOrigin();
    }
    else {
        M::Quad4::Regular m(nx, ny);
        coor = m.coor();
        conn = m.conn();
        dofs = m.dofs();
        ties = m.nodesPeriodic();
        origin = m.nodesOrigin();
    }
    size_t nd = coor.shape(1);
    GooseFEM::Tyings::Control control(coor, dofs);
    I2 cd = control.controlDofs();
    std::vector<size_t> p(cd.begin(), cd.end());
    for (size_t i = 0; i < nd; ++i) {
        p.push_back(dofs(origin, i));
    }
    GooseFEM::Tyings::Periodic t(control.coor(), control.dofs(), cd, ties, vec(p));
    size_t nnode = control.coor().shape(0);
    D3 m = elemmat_spd(c, conn.shape(0), conn.shape(1) * nd);
    D2 a = field<2>(c, {nnode, nd}), b = field<2>(c, {nnode, nd});
    D1 da = field<1>(c, {nnode * nd}), db = field<1>(c, {nnode * nd});
    twice(c, true, [&](Results& r) {
        GooseFEM::VectorPartitionedTyings V(conn, t.dofs(), t.Cdu(), t.Cdp(), t.Cdi());
        r.add("AsDofs_i", V.AsDofs_i(a));
        D1 i = xt::zeros<double>({V.nni()});
        V.asDofs_i(a, i, false);
        r.add("asDofs_i (not applied)", i);
        D1 d = da;
        V.copy_p(db, d);
        r.add("copy_p", d);
        GooseFEM::MatrixPartitionedTyings A(conn, t.dofs(), t.Cdu(), t.Cdp());
        A.assemble(m);
        if (t.nnu() > 0) {
            GooseFEM::MatrixPartitionedTyingsSolver<> s;
            r.add("Solve(nodevec)", s.Solve(A, a, b));
            r.add("Solve(dofval)", s.Solve(A, da, db));
        }
    });
}

PBT_MAIN("C27")
