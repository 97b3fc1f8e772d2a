// C06: sparse matrix (class Matrix): histories of assemble / set / add, against a dense model.
// C07: partitioned sparse matrix (class MatrixPartitioned), idem, with reaction forces.
#include "dense.hpp"
using namespace gen;

struct Sys {
    Topo t;
    size_t ndof, nelem, nne;
    Dense A;
    double scale = 0.0;
    D3 elemmat;
    I1 rows, cols;
    D2 block;
};

static Sys sys(Case& c)
{
    Sys s;
    s.t = topo(c);
    s.ndof = gen::amax(s.t.dofs) + 1;
    s.nelem = s.t.conn.shape(0);
    s.nne = s.t.conn.shape(1);
    s.A = Dense(s.ndof, s.ndof);
    return s;
}

// Generate one operation, and apply it to the model. The caller applies it to the matrix.
static size_t step(Case& c, Sys& s)
{
    size_t op = c.in(0, 2);
    size_t n = s.nne * s.t.ndim;
    if (op == 0) {
        c.desc << "assemble, ";
        s.elemmat = anyfield<3>(c, {s.nelem, n, n});
        s.A.assemble(s.t.conn, s.t.dofs, s.elemmat);
        s.scale = maxabs(s.elemmat) * static_cast<double>(s.nelem * n);
        c.label("assemble");
        return op;
    }
    auto rows = c.subset(s.ndof, c.rare(10) ? c.in(1, s.ndof) : c.in(1, std::min<size_t>(s.ndof, 5)));
    auto cols = c.subset(s.ndof, c.rare(10) ? c.in(1, s.ndof) : c.in(1, std::min<size_t>(s.ndof, 5)));
    if (op == 2 && c.rare(5)) { // adding accumulates, also for a row or column that is listed more than once
        c.label("add duplicates");
        for (auto* v : {&rows, &cols}) {
            for (size_t i = c.in(0, 3); i > 0; --i) {
                v->push_back((*v)[c.in(0, v->size() - 1)]);
            }
        }
    }
    s.rows = vec(rows);
    s.cols = vec(cols);
    s.block = anyfield<2>(c, {s.rows.size(), s.cols.size()});
    if (op == 1) {
        c.desc << "set(" << str(s.rows) << "," << str(s.cols) << "), ";
        s.A = Dense(s.ndof, s.ndof);
        s.scale = maxabs(s.block);
        c.label("set");
    }
    else {
        c.desc << "add(" << str(s.rows) << "," << str(s.cols) << "), ";
        s.scale += maxabs(s.block) * static_cast<double>(s.block.size());
        c.label("add");
    }
    for (size_t i = 0; i < s.rows.size(); ++i) {
        for (size_t j = 0; j < s.cols.size(); ++j) {
            s.A(s.rows(i), s.cols(j)) += s.block(i, j);
        }
    }
    return op;
}

template <class M>
static void apply(M& K, const Sys& s, size_t op)
{
    if (op == 0) {
        K.assemble(s.elemmat);
    }
    else if (op == 1) {
        K.set(s.rows, s.cols, s.block);
    }
    else {
        K.add(s.rows, s.cols, s.block);
    }
}

// Observe the matrix: Todense, dot
template <class M>
static void observe(Case& c, const M& K, const Sys& s)
{
    D2 d = K.Todense();
    REQUIRE(c, same_dense(d, s.A, s.scale), "Todense");
    D2 d2 = junk<2>({s.ndof, s.ndof});
    K.todense(d2);
    REQUIRE(c, same_dense(d2, s.A, s.scale), "todense");

    D1 x = anyfield<1>(c, {s.ndof});
    D1 b = s.A.dot(x);
    double scale = maxabs(x) * s.scale * static_cast<double>(s.ndof);
    REQUIRE(c, same(K.Dot(x), b, scale, 1e-12), "Dot(dofval)");
    D1 r = junk<1>({s.ndof});
    K.dot(x, r);
    REQUIRE(c, same(r, b, scale, 1e-12), "dot(dofval)");
    D2 xn = xt::zeros<double>({s.t.nnode, s.t.ndim});
    D2 bn = xn;
    for (size_t i = 0; i < xn.size(); ++i) {
        xn.flat(i) = x(s.t.dofs.flat(i));
        bn.flat(i) = b(s.t.dofs.flat(i));
    }
    REQUIRE(c, same(K.Dot(xn), bn, scale, 1e-12), "Dot(nodevec)");
    D2 rn = junk<2>({s.t.nnode, s.t.ndim});
    K.dot(xn, rn);
    REQUIRE(c, same(rn, bn, scale, 1e-12), "dot(nodevec)");
}

template <class M>
static void meta(Case& c, const M& K, const Sys& s)
{
    size_t n = s.nne * s.t.ndim;
    REQUIRE(c, K.nelem() == s.nelem, "");
    REQUIRE(c, K.nne() == s.nne, "");
    REQUIRE(c, K.nnode() == s.t.nnode, "");
    REQUIRE(c, K.ndim() == s.t.ndim, "");
    REQUIRE(c, K.ndof() == s.ndof, "");
    REQUIRE(c, eq(K.conn(), s.t.conn), "");
    REQUIRE(c, eq(K.dofs(), s.t.dofs), "");
    REQUIRE(c, (K.shape_dofval() == std::array<size_t, 1>{s.ndof}), "");
    REQUIRE(c, (K.shape_nodevec() == std::array<size_t, 2>{s.t.nnode, s.t.ndim}), "");
    REQUIRE(c, (K.shape_elemmat() == std::array<size_t, 3>{s.nelem, n, n}), "");
}

static bool same_sparse(const Eigen::SparseMatrix<double>& a, const Dense& A, const std::vector<size_t>& rows, const std::vector<size_t>& cols, double scale)
{
    Dense d = dense(a);
    if (d.n != rows.size() || d.m != cols.size()) {
        return false;
    }
    for (size_t i = 0; i < rows.size(); ++i) {
        for (size_t j = 0; j < cols.size(); ++j) {
            if (!close(d(i, j), A(rows[i], cols[j]), scale, 1e-12)) {
                return false;
            }
        }
    }
    return true;
}

#ifdef CHECK_PARTITIONED

struct Part {
    I1 iip;
    std::vector<size_t> p, u;
    std::vector<bool> isp;
};

static Part part(Case& c, size_t ndof)
{
    Part r;
    r.iip = prescribed(c, ndof);
    r.p = stdvec(r.iip);
    r.isp.assign(ndof, false);
    for (auto i : r.p) {
        r.isp[i] = true;
    }
    for (size_t i = 0; i < ndof; ++i) {
        if (!r.isp[i]) {
            r.u.push_back(i);
        }
    }
    c.desc << "iip=" << str(r.iip) << "; ";
    c.nontrivial(!r.p.empty() && !r.u.empty());
    return r;
}

PROP(history, 4000, 40000)
{
    auto s = sys(c);
    auto p = part(c, s.ndof);
    GooseFEM::MatrixPartitioned K(s.t.conn, s.t.dofs, p.iip);
    meta(c, K, s);
    REQUIRE(c, K.nnu() == p.u.size(), "");
    REQUIRE(c, K.nnp() == p.p.size(), "");
    REQUIRE(c, eq(K.iiu(), vec(p.u)), "");
    REQUIRE(c, eq(K.iip(), p.iip), "");
    size_t nstep = c.rare(30) ? c.in(1, 25) : c.in(1, 5);
    for (size_t i = 0; i < nstep; ++i) {
        size_t op = step(c, s);
        apply(K, s, op);
        observe(c, K, s);
        REQUIRE(c, same_sparse(K.data_uu(), s.A, p.u, p.u, s.scale), "data_uu");
        REQUIRE(c, same_sparse(K.data_up(), s.A, p.u, p.p, s.scale), "data_up");
        REQUIRE(c, same_sparse(K.data_pu(), s.A, p.p, p.u, s.scale), "data_pu");
        REQUIRE(c, same_sparse(K.data_pp(), s.A, p.p, p.p, s.scale), "data_pp");
    }
}

PROP(reaction, 4000, 40000)
{
    auto s = sys(c);
    auto p = part(c, s.ndof);
    GooseFEM::MatrixPartitioned K(s.t.conn, s.t.dofs, p.iip);
    size_t nstep = c.in(1, 3);
    for (size_t i = 0; i < nstep; ++i) {
        size_t op = step(c, s);
        apply(K, s, op);
    }
    D1 x = anyfield<1>(c, {s.ndof});
    double scale = maxabs(x) * s.scale * static_cast<double>(s.ndof);
    D1 b = junk<1>({s.ndof});
    D1 f = s.A.dot(x);
    D1 r = K.Reaction(x, b);
    D1 r2 = b;
    K.reaction(x, r2);
    D2 xn = xt::zeros<double>({s.t.nnode, s.t.ndim});
    D2 bn = junk<2>({s.t.nnode, s.t.ndim});
    for (size_t i = 0; i < xn.size(); ++i) {
        xn.flat(i) = x(s.t.dofs.flat(i));
    }
    D2 bn0 = bn;
    D2 rn = K.Reaction(xn, bn);
    REQUIRE(c, eq(bn, bn0), "Reaction: argument modified");
    K.reaction(xn, bn);
    for (size_t i = 0; i < s.ndof; ++i) {
        if (p.isp[i]) {
            REQUIRE(c, close(r(i), f(i), scale, 1e-12), "Reaction(dofval) dof=" << i << " " << r(i) << " expected " << f(i));
            REQUIRE(c, close(r2(i), f(i), scale, 1e-12), "reaction(dofval) dof=" << i);
        }
        else {
            REQUIRE(c, r(i) == b(i), "Reaction(dofval) unknown dof modified: " << i);
            REQUIRE(c, r2(i) == b(i), "reaction(dofval) unknown dof modified: " << i);
        }
    }
    for (size_t i = 0; i < xn.size(); ++i) {
        size_t d = s.t.dofs.flat(i);
        if (p.isp[d]) {
            REQUIRE(c, close(rn.flat(i), f(d), scale, 1e-12), "Reaction(nodevec) dof=" << d);
            REQUIRE(c, close(bn.flat(i), f(d), scale, 1e-12), "reaction(nodevec) dof=" << d);
        }
        else {
            REQUIRE(c, rn.flat(i) == bn0.flat(i), "Reaction(nodevec) unknown dof modified: " << d);
            REQUIRE(c, bn.flat(i) == bn0.flat(i), "reaction(nodevec) unknown dof modified: " << d);
        }
    }
    D1 xu = xt::zeros<double>({p.u.size()});
    D1 xp = xt::zeros<double>({p.p.size()});
    D1 fp = xt::zeros<double>({p.p.size()});
    for (size_t i = 0; i < p.u.size(); ++i) {
        xu(i) = x(p.u[i]);
    }
    for (size_t i = 0; i < p.p.size(); ++i) {
        xp(i) = x(p.p[i]);
        fp(i) = f(p.p[i]);
    }
    D1 rp = K.Reaction_p(xu, xp);
    REQUIRE(c, same(rp, fp, scale, 1e-12), "Reaction_p");
    D1 rp2 = junk<1>({p.p.size()});
    K.reaction_p(xu, xp, rp2);
    REQUIRE(c, same(rp2, fp, scale, 1e-12), "reaction_p");
}

PBT_MAIN("C07")

#else

PROP(history, 6000, 60000)
{
    auto s = sys(c);
    GooseFEM::Matrix K(s.t.conn, s.t.dofs);
    meta(c, K, s);
    std::vector<size_t> all(s.ndof);
    for (size_t i = 0; i < s.ndof; ++i) {
        all[i] = i;
    }
    size_t nstep = c.rare(30) ? c.in(1, 25) : c.in(1, 6);
    c.nontrivial(nstep > 1);
    for (size_t i = 0; i < nstep; ++i) {
        size_t op = step(c, s);
        apply(K, s, op);
        observe(c, K, s);
        REQUIRE(c, same_sparse(K.data(), s.A, all, all, s.scale), "data");
    }
}

// A copy is independent of the original.
PROP(copy, 2000, 20000)
{
    auto s = sys(c);
    GooseFEM::Matrix K(s.t.conn, s.t.dofs);
    apply(K, s, step(c, s));
    auto s2 = s;
    GooseFEM::Matrix L = K;
    apply(L, s2, step(c, s2));
    c.nontrivial();
    observe(c, K, s);
    observe(c, L, s2);
    K = L;
    observe(c, K, s2);
}

PBT_MAIN("C06")

#endif
