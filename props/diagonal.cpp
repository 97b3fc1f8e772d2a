// C09: diagonal matrices (MatrixDiagonal, MatrixDiagonalPartitioned): histories of assemble / set / solve,
// against a model (a vector of diagonal components).
#include "dense.hpp"
using namespace gen;

struct Sys {
    Topo t;
    size_t ndof, nelem, nne;
    D1 A;
    double scale = 0.0; // (no cancellation: all comparisons are relative)
    double f = 1.0; // magnitude
    std::vector<bool> isp;
    std::vector<size_t> u, p;
    I1 iip;
};

static Sys sys(Case& c)
{
    Sys s;
    s.t = topo(c);
    s.ndof = gen::amax(s.t.dofs) + 1;
    s.nelem = s.t.conn.shape(0);
    s.nne = s.t.conn.shape(1);
    s.A = xt::zeros<double>({s.ndof});
    s.f = magnitude(c);
    s.isp.assign(s.ndof, false);
    return s;
}

static void part(Case& c, Sys& s)
{
    s.iip = prescribed(c, s.ndof);
    s.p = stdvec(s.iip);
    for (auto i : s.p) {
        s.isp[i] = true;
    }
    for (size_t i = 0; i < s.ndof; ++i) {
        if (!s.isp[i]) {
            s.u.push_back(i);
        }
    }
    c.desc << "iip=" << str(s.iip) << "; ";
}

// Change the matrix; afterwards all components are non-zero.
template <class M>
static void change(Case& c, M& K, Sys& s)
{
    bool do_assemble = c.flip();
    bool complete = true;
    if (do_assemble) {
        c.desc << "assemble ";
        c.label("assemble");
        size_t n = s.nne * s.t.ndim;
        D3 e = xt::zeros<double>({s.nelem, n, n});
        auto st = c.stream();
        s.A.fill(0.0);
        for (size_t i = 0; i < s.nelem; ++i) {
            for (size_t j = 0; j < n; ++j) {
                e(i, j, j) = s.f * (4.0 + st());
                s.A(s.t.dofs(s.t.conn(i, j / s.t.ndim), j % s.t.ndim)) += e(i, j, j);
            }
        }
        K.assemble(e);
        for (auto v : s.A) {
            complete = complete && v != 0.0;
        }
        for (size_t i = 0; i < s.ndof; ++i) {
            REQUIRE(c, close(K.data()(i), s.A(i), 0.0, 1e-12), "assemble, dof=" << i);
        }
    }
    if (!do_assemble || !complete) {
        c.desc << "set ";
        c.label("set");
        auto st = c.stream();
        for (auto& v : s.A) {
            v = s.f * (4.0 + st());
            if (st() < 0.0) {
                v *= -1.0;
            }
        }
        K.set(s.A);
    }
}

template <class M>
static void observe(Case& c, M& K, const Sys& s)
{
    double tol = 1e-12;
    REQUIRE(c, same(K.data(), s.A, s.scale, tol), "data");
    Dense D(s.ndof, s.ndof);
    for (size_t i = 0; i < s.ndof; ++i) {
        D(i, i) = s.A(i);
    }
    REQUIRE(c, same_dense(K.Todense(), D, s.scale, tol), "Todense");
    D2 d2 = junk<2>({s.ndof, s.ndof});
    K.todense(d2);
    REQUIRE(c, same_dense(d2, D, s.scale, tol), "todense");

    D1 x = anyfield<1>(c, {s.ndof});
    D1 b = x;
    for (size_t i = 0; i < s.ndof; ++i) {
        b(i) = x(i) * s.A(i);
    }
    REQUIRE(c, same(K.Dot(x), b, s.scale, tol), "Dot(dofval)");
    D1 r = junk<1>({s.ndof});
    K.dot(x, r);
    REQUIRE(c, same(r, b, s.scale, tol), "dot(dofval)");

    D2 xn = anyfield<2>(c, {s.t.nnode, s.t.ndim});
    D2 bn = xn;
    for (size_t i = 0; i < xn.size(); ++i) {
        bn.flat(i) = xn.flat(i) * s.A(s.t.dofs.flat(i));
    }
    REQUIRE(c, same(K.Dot(xn), bn, s.scale, tol), "Dot(nodevec)");
    D2 rn = junk<2>({s.t.nnode, s.t.ndim});
    K.dot(xn, rn);
    REQUIRE(c, same(rn, bn, s.scale, tol), "dot(nodevec)");
}

// Solve; prescribed components are not modified.
template <class M>
static void solve(Case& c, M& K, const Sys& s)
{
    c.desc << "solve ";
    double tol = 1e-11;
    size_t how = c.in(0, 3);
    c.label("solve");
    if (how <= 1) {
        D1 b = anyfield<1>(c, {s.ndof});
        D1 x = junk<1>({s.ndof});
        D1 x0 = x;
        if (how == 0) {
            x = K.Solve(b);
        }
        else {
            K.solve(b, x);
        }
        REQUIRE(c, x.size() == s.ndof, "solve(dofval): shape");
        for (size_t i = 0; i < s.ndof; ++i) {
            if (!s.isp[i]) {
                REQUIRE(c, close(x(i), b(i) / s.A(i), 0.0, tol), "solve(dofval) dof=" << i << " " << x(i) << " != " << b(i) / s.A(i));
            }
            else if (how == 1) {
                REQUIRE(c, x(i) == x0(i), "solve(dofval): prescribed dof modified " << i);
            }
        }
    }
    else {
        D2 b = anyfield<2>(c, {s.t.nnode, s.t.ndim});
        D2 x = junk<2>({s.t.nnode, s.t.ndim});
        D2 x0 = x;
        if (how == 2) {
            x = K.Solve(b);
        }
        else {
            K.solve(b, x);
        }
        REQUIRE(c, is_shape(x, b.shape()), "solve(nodevec): shape");
        for (size_t i = 0; i < b.size(); ++i) {
            size_t d = s.t.dofs.flat(i);
            if (!s.isp[d]) {
                REQUIRE(c, close(x.flat(i), b.flat(i) / s.A(d), 0.0, tol), "solve(nodevec) dof=" << d);
            }
            else if (how == 3) {
                REQUIRE(c, x.flat(i) == x0.flat(i), "solve(nodevec): prescribed dof modified " << d);
            }
        }
    }
}

PROP(diagonal, 4000, 60000)
{
    auto s = sys(c);
    GooseFEM::MatrixDiagonal K(s.t.conn, s.t.dofs);
    REQUIRE(c, K.nelem() == s.nelem && K.nne() == s.nne && K.nnode() == s.t.nnode && K.ndim() == s.t.ndim && K.ndof() == s.ndof, "");
    REQUIRE(c, eq(K.conn(), s.t.conn) && eq(K.dofs(), s.t.dofs), "");
    change(c, K, s);
    size_t nstep = c.rare(30) ? c.in(1, 25) : c.in(1, 7);
    c.nontrivial(nstep > 2);
    for (size_t i = 0; i < nstep; ++i) {
        switch (c.in(0, 3)) {
        case 0:
            change(c, K, s);
            break;
        case 1:
            observe(c, K, s);
            break;
        case 2:
            solve(c, K, s);
            break;
        default: {
            // a copy that goes its own way
            auto L = K;
            auto t = s;
            change(c, L, t);
            solve(c, L, t);
            solve(c, K, s);
            c.label("copy");
        }
        }
    }
    observe(c, K, s);
    solve(c, K, s);
}

PROP(partitioned, 4000, 60000)
{
    auto s = sys(c);
    part(c, s);
    GooseFEM::MatrixDiagonalPartitioned K(s.t.conn, s.t.dofs, s.iip);
    REQUIRE(c, K.nelem() == s.nelem && K.nne() == s.nne && K.nnode() == s.t.nnode && K.ndim() == s.t.ndim && K.ndof() == s.ndof, "");
    REQUIRE(c, K.nnu() == s.u.size() && K.nnp() == s.p.size(), "nnu, nnp");
    REQUIRE(c, eq(K.iiu(), vec(s.u)) && eq(K.iip(), s.iip), "iiu, iip");
    c.nontrivial(!s.u.empty() && !s.p.empty());
    change(c, K, s);
    size_t nstep = c.rare(30) ? c.in(1, 25) : c.in(1, 7);
    for (size_t i = 0; i < nstep; ++i) {
        switch (c.in(0, 3)) {
        case 0:
            change(c, K, s);
            break;
        case 1:
            observe(c, K, s);
            break;
        case 2:
            solve(c, K, s);
            break;
        default: {
            auto L = K;
            auto t = s;
            change(c, L, t);
            solve(c, L, t);
            solve(c, K, s);
            c.label("copy");
        }
        }
    }
    observe(c, K, s);
    solve(c, K, s);

    // partitioned views
    auto take = [](const D1& a, const std::vector<size_t>& i) {
        D1 r = xt::zeros<double>({i.size()});
        for (size_t k = 0; k < i.size(); ++k) {
            r(k) = a(i[k]);
        }
        return r;
    };
    double tol = 1e-11;
    D1 x = anyfield<1>(c, {s.ndof});
    D1 b = anyfield<1>(c, {s.ndof});
    D1 f = x;
    D1 y = x;
    for (size_t i = 0; i < s.ndof; ++i) {
        f(i) = s.A(i) * x(i);
        y(i) = b(i) / s.A(i);
    }
    D1 xu = take(x, s.u), xp = take(x, s.p), bu = take(b, s.u);
    D1 fu = take(f, s.u), fp = take(f, s.p), yu = take(y, s.u);
    REQUIRE(c, same(K.data_uu(), take(s.A, s.u), s.scale, tol), "data_uu");
    REQUIRE(c, same(K.data_pp(), take(s.A, s.p), s.scale, tol), "data_pp");
    REQUIRE(c, same(K.Dot_u(xu, xp), fu, s.scale, tol), "Dot_u");
    REQUIRE(c, same(K.Dot_p(xu, xp), fp, s.scale, tol), "Dot_p");
    REQUIRE(c, same(K.Solve_u(bu, xp), yu, 0.0, tol), "Solve_u");
    D1 ru = junk<1>({s.u.size()});
    D1 rp = junk<1>({s.p.size()});
    K.dot_u(xu, xp, ru);
    K.dot_p(xu, xp, rp);
    REQUIRE(c, same(ru, fu, s.scale, tol), "dot_u");
    REQUIRE(c, same(rp, fp, s.scale, tol), "dot_p");
    K.solve_u(bu, xp, ru);
    REQUIRE(c, same(ru, yu, 0.0, tol), "solve_u");

    // reaction forces
    REQUIRE(c, same(K.Reaction_p(xu, xp), fp, s.scale, tol), "Reaction_p");
    rp = junk<1>({s.p.size()});
    K.reaction_p(xu, xp, rp);
    REQUIRE(c, same(rp, fp, s.scale, tol), "reaction_p");
    D1 r = K.Reaction(x, b);
    D1 r2 = b;
    K.reaction(x, r2);
    D2 xn = anyfield<2>(c, {s.t.nnode, s.t.ndim});
    D2 bn = anyfield<2>(c, {s.t.nnode, s.t.ndim});
    D2 rn = K.Reaction(xn, bn);
    D2 rn2 = bn;
    K.reaction(xn, rn2);
    for (size_t i = 0; i < s.ndof; ++i) {
        double e = s.isp[i] ? f(i) : b(i);
        REQUIRE(c, close(r(i), e, s.scale, tol) && close(r2(i), e, s.scale, tol), "Reaction(dofval) dof=" << i);
    }
    for (size_t i = 0; i < xn.size(); ++i) {
        size_t d = s.t.dofs.flat(i);
        double e = s.isp[d] ? s.A(d) * xn.flat(i) : bn.flat(i);
        REQUIRE(c, close(rn.flat(i), e, s.scale, tol) && close(rn2.flat(i), e, s.scale, tol), "Reaction(nodevec) dof=" << d);
    }
}

PBT_MAIN("C09")
