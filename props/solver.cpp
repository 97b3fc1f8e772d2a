// C08: solving is a function of the current matrix and right-hand-side only: histories of (re)assembly and
// solves, with several solvers and several matrices, against a dense model.
#include "dense.hpp"
using namespace gen;

struct Sys {
    Topo t;
    size_t ndof, nelem, nne;
    Dense A;
    std::vector<bool> isp;
    std::vector<size_t> u, p;
    I1 iip;
    bool symmetric;
    double f; // magnitude of the matrix
    // with tyings: DOFs are numbered (unknown, prescribed, dependent)
    size_t nnu = 0, nnp = 0, nnd = 0;
    Dense C; // dependent DOFs in terms of the independent ones
    Eigen::SparseMatrix<double> Cdu, Cdp;
};

// keep: there must be an unknown DOF (Eigen::SparseLU does not accept an empty matrix)
static Sys sys(Case& c, bool symmetric, bool keep)
{
    Sys s;
    s.symmetric = symmetric;
    s.f = magnitude(c);
    c.label(s.f != 1.0, "matrix of other magnitude");
    s.t = topo(c);
    s.ndof = gen::amax(s.t.dofs) + 1;
    s.nelem = s.t.conn.shape(0);
    s.nne = s.t.conn.shape(1);
    s.A = Dense(s.ndof, s.ndof);
    s.iip = prescribed(c, s.ndof);
    if (keep && s.iip.size() == s.ndof) {
        s.iip = vec(std::vector<size_t>(s.iip.begin(), s.iip.begin() + s.ndof - 1));
    }
    s.p = stdvec(s.iip);
    s.isp.assign(s.ndof, false);
    for (auto i : s.p) {
        s.isp[i] = true;
    }
    for (size_t i = 0; i < s.ndof; ++i) {
        if (!s.isp[i]) {
            s.u.push_back(i);
        }
    }
    return s;
}

// System of which DOFs depend on others: any tying matrix.
static Sys tied(Case& c, bool symmetric)
{
    Sys s;
    s.symmetric = symmetric;
    s.f = magnitude(c);
    s.t = topo(c);
    s.ndof = gen::amax(s.t.dofs) + 1;
    s.nelem = s.t.conn.shape(0);
    s.nne = s.t.conn.shape(1);
    s.A = Dense(s.ndof, s.ndof);

    // only DOFs with stiffness can be unknown
    std::set<size_t> stiff;
    for (auto m : s.t.conn) {
        for (size_t i = 0; i < s.t.ndim; ++i) {
            stiff.insert(s.t.dofs(m, i));
        }
    }
    std::vector<size_t> order(stiff.begin(), stiff.end());
    s.nnu = c.in(1, order.size());
    auto p = c.perm(order.size());
    std::vector<size_t> num(s.ndof, s.ndof);
    for (size_t i = 0; i < s.nnu; ++i) {
        num[order[p[i]]] = i;
    }
    std::vector<size_t> rest;
    for (size_t i = 0; i < s.ndof; ++i) {
        if (num[i] == s.ndof) {
            rest.push_back(i);
        }
    }
    auto q = c.perm(rest.size());
    for (size_t i = 0; i < rest.size(); ++i) {
        num[rest[i]] = s.nnu + q[i];
    }
    for (auto& d : s.t.dofs) {
        d = num[d];
    }
    s.nnp = c.in(0, rest.size());
    s.nnd = rest.size() - s.nnp;

    size_t nni = s.nnu + s.nnp;
    size_t kind = c.in(0, 4); // 3: on unknown DOFs only, 4: on prescribed DOFs only
    s.C = Dense(s.nnd, nni);
    std::vector<Eigen::Triplet<double>> tu, tp;
    auto st = c.stream();
    for (size_t i = 0; i < s.nnd; ++i) {
        size_t nnz = c.in(0, 3);
        std::set<size_t> done;
        for (size_t k = 0; k < nnz; ++k) {
            size_t j = c.in(0, nni - 1);
            if ((kind == 3 && j >= s.nnu) || (kind == 4 && j < s.nnu) || !done.insert(j).second) {
                continue;
            }
            double v = c.flip() ? 1.0 : st();
            s.C(i, j) = v;
            if (j < s.nnu) {
                tu.emplace_back(i, j, v);
            }
            else {
                tp.emplace_back(i, j - s.nnu, v);
            }
        }
    }
    s.Cdu.resize(s.nnd, s.nnu);
    s.Cdp.resize(s.nnd, s.nnp);
    s.Cdu.setFromTriplets(tu.begin(), tu.end());
    s.Cdp.setFromTriplets(tp.begin(), tp.end());
    c.desc << "renumbered dofs=" << str(s.t.dofs) << " nnu=" << s.nnu << " nnp=" << s.nnp << " nnd=" << s.nnd << "; ";
    c.label(tu.empty() && tp.empty(), "no tyings");
    c.label(tp.empty() && s.nnp > 0 && !tu.empty(), "no tyings to prescribed DOFs");
    c.label(s.f != 1.0, "matrix of other magnitude");
    return s;
}

// Change the matrix, it stays (positive definite / diagonally dominant).
template <class M>
static void change(Case& c, M& K, Sys& s, bool first)
{
    size_t n = s.nne * s.t.ndim;
    size_t op = c.in(0, first ? 1 : 2);
    std::vector<size_t> rows;
    if (op == 0) {
        c.desc << "assemble ";
        auto e = elemmat_spd(c, s.nelem, n, s.symmetric, s.f);
        K.assemble(e);
        s.A.assemble(s.t.conn, s.t.dofs, e);
        // DOFs without element
        for (size_t i = 0; i < s.ndof; ++i) {
            if (s.A(i, i) == 0.0) {
                rows.push_back(i);
            }
        }
        if (rows.empty()) {
            return;
        }
    }
    else if (op == 1) {
        c.desc << "set ";
        rows.resize(s.ndof);
        for (size_t i = 0; i < s.ndof; ++i) {
            rows[i] = i;
        }
    }
    else {
        rows = c.subset(s.ndof, c.in(1, std::min<size_t>(s.ndof, 4)));
        c.desc << "add ";
    }
    auto e = elemmat_spd(c, 1, rows.size(), s.symmetric, s.f);
    D2 b = xt::zeros<double>({rows.size(), rows.size()});
    if (op == 1) {
        s.A = Dense(s.ndof, s.ndof);
    }
    for (size_t i = 0; i < rows.size(); ++i) {
        for (size_t j = 0; j < rows.size(); ++j) {
            b(i, j) = e(0, i, j);
            s.A(rows[i], rows[j]) += b(i, j);
        }
    }
    auto r = vec(rows);
    if (op == 1) {
        K.set(r, r, b);
    }
    else {
        K.add(r, r, b);
    }
    c.label(op == 0 ? "assemble+add" : (op == 1 ? "set" : "add"));
}

static D2 node(const Sys& s, const D1& x)
{
    D2 r = xt::zeros<double>({s.t.nnode, s.t.ndim});
    for (size_t i = 0; i < r.size(); ++i) {
        r.flat(i) = x(s.t.dofs.flat(i));
    }
    return r;
}

template <class M, class S>
static void solve(Case& c, M& K, S& solver, const Sys& s)
{
    D1 b = anyfield<1>(c, {s.ndof});
    size_t api = c.in(0, 3);
    D1 x = junk<1>({s.ndof});
    D2 bn = node(s, b);
    D2 xn = node(s, x);
    if (api == 0) {
        x = solver.Solve(K, b);
    }
    else if (api == 1) {
        solver.solve(K, b, x);
    }
    else {
        if (api == 2) {
            xn = solver.Solve(K, bn);
        }
        else {
            solver.solve(K, bn, xn);
        }
        for (size_t i = 0; i < xn.size(); ++i) {
            x(s.t.dofs.flat(i)) = xn.flat(i);
        }
        REQUIRE(c, same(node(s, x), xn, 0.0, 1e-14), "not a function of the DOFs");
    }
    D1 r = s.A.dot(x);
    double scale = s.A.norm() * maxabs(x) + maxabs(b);
    REQUIRE(c, same(r, b, scale, 1e-8), "residual: A x = " << str(r) << " b = " << str(b) << " api=" << api);
}

template <class M, class S>
static void solve_p(Case& c, M& K, S& solver, const Sys& s)
{
    D1 b = anyfield<1>(c, {s.ndof});
    D1 x0 = anyfield<1>(c, {s.ndof});
    size_t api = c.in(0, 5);
    D1 x = x0;
    D2 bn = node(s, b);
    D2 xn = node(s, x0);
    auto sub = [](const D1& d, const std::vector<size_t>& ii) {
        D1 r = xt::zeros<double>({ii.size()});
        for (size_t i = 0; i < ii.size(); ++i) {
            r(i) = d(ii[i]);
        }
        return r;
    };
    if (api == 0) {
        x = solver.Solve(K, b, x0);
    }
    else if (api == 1) {
        solver.solve(K, b, x);
    }
    else if (api <= 3) {
        D2 xn0 = xn;
        if (api == 2) {
            D2 a = solver.Solve(K, bn, xn);
            REQUIRE(c, eq(xn, xn0), "Solve: argument modified");
            xn = a;
        }
        else {
            solver.solve(K, bn, xn);
        }
        for (size_t i = 0; i < xn.size(); ++i) {
            x(s.t.dofs.flat(i)) = xn.flat(i);
        }
        REQUIRE(c, same(node(s, x), xn, 0.0, 1e-14), "not a function of the DOFs");
    }
    else {
        D1 bu = sub(b, s.u);
        D1 xp = sub(x0, s.p);
        D1 xu = junk<1>({s.u.size()});
        if (api == 4) {
            xu = solver.Solve_u(K, bu, xp);
        }
        else {
            solver.solve_u(K, bu, xp, xu);
        }
        REQUIRE(c, xu.size() == s.u.size(), "");
        for (size_t i = 0; i < s.u.size(); ++i) {
            x(s.u[i]) = xu(i);
        }
    }
    for (auto i : s.p) {
        REQUIRE(c, x(i) == x0(i), "prescribed DOF modified: " << i << " api=" << api);
    }
    D1 r = s.A.dot(x);
    double scale = s.A.norm() * maxabs(x) + maxabs(b);
    for (auto i : s.u) {
        REQUIRE(c, close(r(i), b(i), scale, 1e-8), "residual at unknown DOF " << i << ": " << r(i) << " " << b(i) << " api=" << api);
    }
}

static void change_tied(Case& c, GooseFEM::MatrixPartitionedTyings& K, Sys& s)
{
    c.desc << "assemble ";
    auto e = elemmat_spd(c, s.nelem, s.nne * s.t.ndim, s.symmetric, s.f);
    K.assemble(e);
    s.A.assemble(s.t.conn, s.t.dofs, e);
}

template <class S>
static void solve_tied(Case& c, GooseFEM::MatrixPartitionedTyings& K, S& solver, const Sys& s)
{
    size_t nni = s.nnu + s.nnp;
    D1 b = anyfield<1>(c, {s.ndof});
    D1 x0 = anyfield<1>(c, {s.ndof});
    size_t api = c.in(0, 5);
    D1 x = x0;
    D2 bn = node(s, b);
    D2 xn = node(s, x0);
    if (api == 0) {
        x = solver.Solve(K, b, x0);
    }
    else if (api == 1) {
        solver.solve(K, b, x);
    }
    else if (api <= 3) {
        if (api == 2) {
            D2 xn0 = xn;
            D2 a = solver.Solve(K, bn, xn);
            REQUIRE(c, eq(xn, xn0), "Solve: argument modified");
            xn = a;
        }
        else {
            solver.solve(K, bn, xn);
        }
        for (size_t i = 0; i < xn.size(); ++i) {
            x(s.t.dofs.flat(i)) = xn.flat(i);
        }
        REQUIRE(c, same(node(s, x), xn, 0.0, 1e-14), "not a function of the DOFs");
    }
    else {
        D1 bu = xt::view(b, xt::range(size_t(0), s.nnu));
        D1 bd = xt::view(b, xt::range(nni, s.ndof));
        D1 xp = xt::view(x0, xt::range(s.nnu, nni));
        D1 xu = junk<1>({s.nnu});
        if (api == 4) {
            xu = solver.Solve_u(K, bu, bd, xp);
        }
        else {
            solver.solve_u(K, bu, bd, xp, xu);
        }
        REQUIRE(c, xu.size() == s.nnu, "");
        for (size_t i = 0; i < s.nnu; ++i) {
            x(i) = xu(i);
        }
    }
    for (size_t i = s.nnu; i < nni; ++i) {
        REQUIRE(c, x(i) == x0(i), "prescribed DOF modified: " << i << " api=" << api);
    }
    D1 xi = xt::view(x, xt::range(size_t(0), nni));
    D1 xd = s.C.dot(xi);
    double ci = 1.0 + s.C.norm();
    for (size_t i = 0; i < s.nnd; ++i) {
        if (api <= 3) {
            REQUIRE(c, close(x(nni + i), xd(i), s.C.norm() * maxabs(xi), 1e-12), "dependent DOF " << nni + i << ": " << x(nni + i) << " " << xd(i) << " api=" << api);
        }
        x(nni + i) = xd(i);
    }
    // residual, of which the dependent part acts on the DOFs that they depend on
    D1 r = s.A.dot(x);
    r -= b;
    double scale = ci * (s.A.norm() * maxabs(x) + maxabs(b));
    for (size_t i = 0; i < s.nnu; ++i) {
        double v = r(i);
        for (size_t d = 0; d < s.nnd; ++d) {
            v += s.C(d, i) * r(nni + d);
        }
        REQUIRE(c, close(v, 0.0, scale, 1e-8), "residual at unknown DOF " << i << ": " << v << " api=" << api);
    }
}

// nsys matrices, nsol solvers
template <class M, class S, class Y, class MK, class U, class F>
static void histories(Case& c, Y system, MK mk, U update, F f)
{
    size_t nsys = c.in(1, 2);
    size_t nsol = c.in(1, 2);
    std::vector<Sys> s;
    std::vector<M> K;
    std::vector<S> solver(nsol);
    for (size_t i = 0; i < nsys; ++i) {
        if (i == 0 || c.flip()) {
            s.push_back(system(c));
        }
        else {
            s.push_back(s[0]);
        }
        K.push_back(mk(s[i]));
        c.desc << "K" << i << ": ";
        update(c, K[i], s[i], true);
    }
    size_t nstep = c.rare(30) ? c.in(1, 25) : c.in(1, 8);
    size_t nchange = 0, nsolve = 0;
    bool resolve = false;
    for (size_t q = 0; q < nstep; ++q) {
        size_t i = c.in(0, nsys - 1);
        size_t op = c.in(0, 4);
        if (op <= 2) {
            size_t j = c.in(0, nsol - 1);
            c.desc << "solve(K" << i << ",S" << j << ") ";
            f(c, K[i], solver[j], s[i]);
            ++nsolve;
            resolve = resolve || nchange > 0;
        }
        else if (op == 3) {
            c.desc << "K" << i << ": ";
            update(c, K[i], s[i], false);
            ++nchange;
        }
        else {
            size_t j = c.in(0, nsys - 1);
            c.desc << "K" << i << "=K" << j << " ";
            K[i] = K[j];
            s[i] = s[j];
            ++nchange;
        }
    }
    c.nontrivial(nsolve > 1);
    c.label(nsys > 1, "two matrices");
    c.label(nsol > 1, "two solvers");
    c.label(resolve, "solve after change");
}

template <class M, class S, class MK, class F>
static void run(Case& c, bool symmetric, MK mk, F f)
{
    histories<M, S>(
        c, [=](Case& cc) { return sys(cc, symmetric, !symmetric); }, mk,
        [](Case& cc, auto& K, Sys& s, bool first) { change(cc, K, s, first); }, f);
}

template <class S>
static void run_tied(Case& c, bool symmetric)
{
    histories<GooseFEM::MatrixPartitionedTyings, S>(
        c, [=](Case& cc) { return tied(cc, symmetric); },
        [](const Sys& s) { return GooseFEM::MatrixPartitionedTyings(s.t.conn, s.t.dofs, s.Cdu, s.Cdp); },
        [](Case& cc, auto& K, Sys& s, bool) { change_tied(cc, K, s); },
        [](Case& cc, auto& K, auto& solver, const Sys& s) { solve_tied(cc, K, solver, s); });
}

using LU = Eigen::SparseLU<Eigen::SparseMatrix<double>>;

PROP(matrix, 5000, 50000)
{
    run<GooseFEM::Matrix, GooseFEM::MatrixSolver<>>(
        c, true, [](const Sys& s) { return GooseFEM::Matrix(s.t.conn, s.t.dofs); },
        [](Case& cc, auto& K, auto& S, const Sys& s) { solve(cc, K, S, s); });
}

PROP(matrix_lu, 3000, 30000)
{
    run<GooseFEM::Matrix, GooseFEM::MatrixSolver<LU>>(
        c, false, [](const Sys& s) { return GooseFEM::Matrix(s.t.conn, s.t.dofs); },
        [](Case& cc, auto& K, auto& S, const Sys& s) { solve(cc, K, S, s); });
}

PROP(partitioned, 5000, 50000)
{
    run<GooseFEM::MatrixPartitioned, GooseFEM::MatrixPartitionedSolver<>>(
        c, true, [](const Sys& s) { return GooseFEM::MatrixPartitioned(s.t.conn, s.t.dofs, s.iip); },
        [](Case& cc, auto& K, auto& S, const Sys& s) { solve_p(cc, K, S, s); });
}

PROP(partitioned_lu, 3000, 30000)
{
    run<GooseFEM::MatrixPartitioned, GooseFEM::MatrixPartitionedSolver<LU>>(
        c, false, [](const Sys& s) { return GooseFEM::MatrixPartitioned(s.t.conn, s.t.dofs, s.iip); },
        [](Case& cc, auto& K, auto& S, const Sys& s) { solve_p(cc, K, S, s); });
}

PROP(tied, 4000, 40000)
{
    run_tied<GooseFEM::MatrixPartitionedTyingsSolver<>>(c, true);
}

PROP(tied_lu, 3000, 30000)
{
    run_tied<GooseFEM::MatrixPartitionedTyingsSolver<LU>>(c, false);
}

PBT_MAIN("C08")
