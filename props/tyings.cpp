// C10: periodic tyings (Tyings::Control, Tyings::Periodic): renumbering and tying matrices.
// C11: (-DCHECK_MATRIX) VectorPartitionedTyings, MatrixPartitionedTyings and its solver, against dense elimination.
#include "dense.hpp"
using namespace gen;

struct Sys {
    size_t nnode, ndim, ndof; // including the control nodes
    D2 coor;
    I2 conn, dofs, control;
    I2 ties;
    I1 iip;
    std::vector<size_t> dep; // dependent DOFs: node by node
    size_t nelem, nne;
    bool with_iip;
};

// range: coordinates of magnitude 2^-range ... 2^range
static Sys sys(Case& c, size_t range = 10)
{
    Sys s;
    s.ndim = c.in(1, 3);
    size_t n = 2 + (c.rare(40) ? c.in(10, 50) : c.small(0, 9));
    s.nne = c.in(1, std::min<size_t>(n, 4));
    s.nelem = c.rare(40) ? c.in(9, 80) : c.small(1, 8);
    D2 coor = field<2>(c, {n, s.ndim}, magnitude(c, range));

    // roles: some nodes are dependent
    size_t nd = c.in(0, n - 1);
    auto p = c.perm(n);
    std::vector<size_t> dependent(p.begin(), p.begin() + nd);
    std::vector<size_t> independent(p.begin() + nd, p.end());
    s.ties = xt::zeros<size_t>({nd, size_t(2)});
    for (size_t i = 0; i < nd; ++i) {
        s.ties(i, 0) = independent[c.in(0, independent.size() - 1)];
        s.ties(i, 1) = dependent[i];
    }

    // DOFs: independent nodes may share
    I2 dofs = xt::zeros<size_t>({n, s.ndim});
    for (size_t i = 0; i < dofs.size(); ++i) {
        dofs.flat(i) = i;
    }
    bool share = c.rare(3);
    if (share) {
        for (size_t k = 1; k < independent.size(); ++k) {
            if (c.flip()) {
                size_t o = independent[c.in(0, k - 1)];
                for (size_t j = 0; j < s.ndim; ++j) {
                    dofs(independent[k], j) = dofs(o, j);
                }
            }
        }
    }
    std::set<size_t> used(dofs.begin(), dofs.end());
    std::vector<size_t> num(n * s.ndim);
    auto q = c.perm(used.size());
    size_t k = 0;
    for (auto d : used) {
        num[d] = q[k++];
    }
    for (auto& d : dofs) {
        d = num[d];
    }
    size_t ndof = used.size();

    // control nodes
    GooseFEM::Tyings::Control control(coor, dofs);
    s.nnode = n + s.ndim;
    s.ndof = ndof + s.ndim * s.ndim;
    REQUIRE(c, is_shape(control.coor(), std::array<size_t, 2>{s.nnode, s.ndim}), "Control: coor shape");
    REQUIRE(c, is_shape(control.dofs(), std::array<size_t, 2>{s.nnode, s.ndim}), "Control: dofs shape");
    REQUIRE(c, is_shape(control.controlDofs(), std::array<size_t, 2>{s.ndim, s.ndim}), "Control: controlDofs shape");
    REQUIRE(c, control.controlNodes().size() == s.ndim, "Control: controlNodes shape");
    std::set<size_t> fresh;
    for (size_t i = 0; i < s.nnode; ++i) {
        for (size_t j = 0; j < s.ndim; ++j) {
            if (i < n) {
                REQUIRE(c, control.coor()(i, j) == coor(i, j), "Control: coor");
                REQUIRE(c, control.dofs()(i, j) == dofs(i, j), "Control: dofs");
            }
            else {
                size_t d = control.dofs()(i, j);
                REQUIRE(c, d >= ndof && d < s.ndof, "Control: new dofs are consecutive");
                fresh.insert(d);
            }
        }
    }
    REQUIRE(c, fresh.size() == s.ndim * s.ndim, "Control: new dofs are unique");
    for (size_t i = 0; i < s.ndim; ++i) {
        REQUIRE(c, control.controlNodes()(i) == n + i, "Control: nodes");
        for (size_t j = 0; j < s.ndim; ++j) {
            REQUIRE(c, control.controlDofs()(i, j) == control.dofs()(control.controlNodes()(i), j), "Control: controlDofs");
        }
    }
    s.coor = control.coor();
    s.dofs = control.dofs();
    s.control = control.controlDofs();

    for (auto m : dependent) {
        for (size_t j = 0; j < s.ndim; ++j) {
            s.dep.push_back(s.dofs(m, j));
        }
    }
    for (size_t i = 0; i < nd; ++i) {
        for (size_t j = 0; j < s.ndim; ++j) {
            s.dep[i * s.ndim + j] = s.dofs(s.ties(i, 1), j);
        }
    }

    // prescribed DOFs, independent
    std::set<size_t> isdep(s.dep.begin(), s.dep.end());
    std::vector<size_t> ind;
    for (size_t d = 0; d < s.ndof; ++d) {
        if (isdep.count(d) == 0) {
            ind.push_back(d);
        }
    }
    std::vector<size_t> iip;
    s.with_iip = !c.rare(4);
    if (s.with_iip) {
        if (c.flip()) {
            for (auto d : s.control) {
                iip.push_back(d);
            }
        }
        for (auto i : c.subset(ind.size(), c.in(0, ind.size()))) {
            if (std::find(iip.begin(), iip.end(), ind[i]) == iip.end()) {
                iip.push_back(ind[i]);
            }
        }
    }
    s.iip = vec(iip);

    // elements
    size_t top = c.rare(3) ? s.nnode : n;
    s.conn = xt::zeros<size_t>({s.nelem, s.nne});
    for (size_t e = 0; e < s.nelem; ++e) {
        auto r = c.subset(top, s.nne);
        for (size_t m = 0; m < s.nne; ++m) {
            s.conn(e, m) = r[m];
        }
    }
    c.desc << "ndim=" << s.ndim << " coor=" << str(s.coor) << " dofs=" << str(s.dofs) << " ties=" << str(s.ties)
           << " iip=" << str(s.iip) << " conn=" << str(s.conn) << "; ";
    c.label(share, "shared dofs");
    c.label(nd == 0, "no ties");
    c.label(iip.empty(), "nothing prescribed");
    c.label("ndim=" + std::to_string(s.ndim));
    c.nontrivial(nd > 0 && !iip.empty());
    return s;
}

static GooseFEM::Tyings::Periodic periodic(const Sys& s)
{
    if (s.with_iip) {
        return GooseFEM::Tyings::Periodic(s.coor, s.dofs, s.control, s.ties, s.iip);
    }
    return GooseFEM::Tyings::Periodic(s.coor, s.dofs, s.control, s.ties);
}

// Reference: tying matrix in the numbering of "dofs" (after renumbering)
static Dense reference(const Sys& s, const I2& dofs, const I2& control, size_t nni)
{
    Dense C(s.dep.size(), nni);
    for (size_t i = 0; i < s.ties.shape(0); ++i) {
        size_t ni = s.ties(i, 0);
        size_t nd = s.ties(i, 1);
        for (size_t j = 0; j < s.ndim; ++j) {
            C(i * s.ndim + j, dofs(ni, j)) += 1.0;
            for (size_t k = 0; k < s.ndim; ++k) {
                C(i * s.ndim + j, control(j, k)) += s.coor(nd, k) - s.coor(ni, k);
            }
        }
    }
    return C;
}

template <class A, class B>
static bool is_range(const A& a, size_t from, B to)
{
    if (a.size() != to - from) {
        return false;
    }
    for (size_t i = 0; i < a.size(); ++i) {
        if (a(i) != from + i) {
            return false;
        }
    }
    return true;
}

#ifndef CHECK_MATRIX

PROP(periodic, 3000, 40000)
{
    auto s = sys(c, 60);
    auto P = periodic(s);
    size_t nnd = s.dep.size();
    size_t nni = s.ndof - nnd;
    size_t nnp = s.iip.size();
    size_t nnu = nni - nnp;
    REQUIRE(c, P.nnd() == nnd && P.nni() == nni && P.nnp() == nnp && P.nnu() == nnu, "sizes: " << P.nnd() << "," << P.nni() << "," << P.nnp() << "," << P.nnu());
    REQUIRE(c, is_range(P.iiu(), 0, nnu) && is_range(P.iip(), nnu, nni) && is_range(P.iii(), 0, nni) && is_range(P.iid(), nni, s.ndof), "iiu, iip, iii, iid");
    REQUIRE(c, eq(P.nodal_tyings(), s.ties), "nodal_tyings");

    // renumbering: a permutation, (unknown, prescribed, dependent)
    REQUIRE(c, is_shape(P.dofs(), s.dofs.shape()), "dofs: shape");
    std::map<size_t, size_t> fwd;
    std::set<size_t> image;
    for (size_t i = 0; i < s.dofs.size(); ++i) {
        size_t o = s.dofs.flat(i);
        size_t d = P.dofs().flat(i);
        REQUIRE(c, fwd.count(o) == 0 || fwd[o] == d, "dofs: inconsistent");
        fwd[o] = d;
        image.insert(d);
        REQUIRE(c, d < s.ndof, "dofs: range");
    }
    REQUIRE(c, image.size() == s.ndof, "dofs: not a permutation");
    for (size_t i = 0; i < nnp; ++i) {
        REQUIRE(c, fwd[s.iip(i)] == nnu + i, "prescribed dof " << s.iip(i) << " -> " << fwd[s.iip(i)]);
    }
    for (size_t i = 0; i < nnd; ++i) {
        REQUIRE(c, fwd[s.dep[i]] == nni + i, "dependent dof " << s.dep[i] << " -> " << fwd[s.dep[i]]);
    }
    for (size_t i = 0; i < s.control.size(); ++i) {
        REQUIRE(c, P.control().flat(i) == fwd[s.control.flat(i)], "control");
    }

    // tying matrices
    Dense ref = reference(s, P.dofs(), P.control(), nni);
    Dense Cdi = dense(P.Cdi()), Cdu = dense(P.Cdu()), Cdp = dense(P.Cdp());
    REQUIRE(c, Cdi.n == nnd && Cdi.m == nni, "Cdi: shape");
    REQUIRE(c, Cdu.n == nnd && Cdu.m == nnu, "Cdu: shape");
    REQUIRE(c, Cdp.n == nnd && Cdp.m == nnp, "Cdp: shape");
    for (size_t i = 0; i < nnd; ++i) {
        for (size_t j = 0; j < nni; ++j) {
            REQUIRE(c, close(Cdi(i, j), ref(i, j), 0.0, 1e-13), "Cdi(" << i << "," << j << ")=" << Cdi(i, j) << " expected " << ref(i, j));
            double v = j < nnu ? Cdu(i, j) : Cdp(i, j - nnu);
            REQUIRE(c, close(v, ref(i, j), 0.0, 1e-13), "Cdu/Cdp(" << i << "," << j << ")=" << v << " expected " << ref(i, j));
        }
    }

    // physically: an affine displacement u = F . x satisfies the tyings if "F" is applied to the control nodes
    // (all nodes that share a DOF have to be at one point: only checked without shared DOFs)
    D2 F = anyfield<2>(c, {s.ndim, s.ndim});
    if (image.size() == s.dofs.size()) {
        D1 u = xt::zeros<double>({s.ndof});
        for (size_t m = 0; m < s.nnode - s.ndim; ++m) {
            for (size_t i = 0; i < s.ndim; ++i) {
                for (size_t j = 0; j < s.ndim; ++j) {
                    u(P.dofs()(m, i)) += F(i, j) * s.coor(m, j);
                }
            }
        }
        for (size_t i = 0; i < s.ndim; ++i) {
            for (size_t j = 0; j < s.ndim; ++j) {
                u(P.control()(i, j)) = F(i, j);
            }
        }
        for (size_t i = 0; i < nnd; ++i) {
            double v = 0.0;
            for (size_t j = 0; j < nni; ++j) {
                v += Cdi(i, j) * u(j);
            }
            REQUIRE(c, close(v, u(nni + i), 8.0 * maxabs(F) * maxabs(s.coor), 1e-12), "affine displacement: " << v << " != " << u(nni + i));
        }
        c.label("affine displacement");
    }
}

// The tyings of an actual mesh.
template <class M>
static void on_mesh(Case& c, const M& mesh)
{
    I2 ties = mesh.nodesPeriodic();
    D2 coor = mesh.coor();
    I2 dofs = mesh.dofs();
    size_t ndim = coor.shape(1);
    GooseFEM::Tyings::Control control(coor, dofs);
    I1 iip = vec(std::vector<size_t>(control.controlDofs().begin(), control.controlDofs().end()));
    GooseFEM::Tyings::Periodic P(control.coor(), control.dofs(), control.controlDofs(), ties, iip);
    Dense Cdu = dense(P.Cdu()), Cdp = dense(P.Cdp());
    D2 F = anyfield<2>(c, {ndim, ndim});
    // displacement: affine + periodic fluctuation
    auto st = c.stream();
    D2 u = xt::zeros<double>(coor.shape());
    fill(u, st, maxabs(F) * maxabs(coor));
    for (size_t i = 0; i < ties.shape(0); ++i) {
        for (size_t j = 0; j < ndim; ++j) {
            u(ties(i, 1), j) = u(ties(i, 0), j);
        }
    }
    for (size_t m = 0; m < coor.shape(0); ++m) {
        for (size_t i = 0; i < ndim; ++i) {
            for (size_t j = 0; j < ndim; ++j) {
                u(m, i) += F(i, j) * coor(m, j);
            }
        }
    }
    D1 v = xt::zeros<double>({P.nni() + P.nnd()});
    for (size_t m = 0; m < coor.shape(0); ++m) {
        for (size_t i = 0; i < ndim; ++i) {
            v(P.dofs()(m, i)) = u(m, i);
        }
    }
    for (size_t i = 0; i < ndim; ++i) {
        for (size_t j = 0; j < ndim; ++j) {
            v(P.control()(i, j)) = F(i, j);
        }
    }
    D1 vu = xt::view(v, xt::range(size_t(0), P.nnu()));
    D1 vp = xt::view(v, xt::range(P.nnu(), P.nni()));
    D1 du = Cdu.dot(vu), dp = Cdp.dot(vp);
    for (size_t i = 0; i < P.nnd(); ++i) {
        REQUIRE(c, close(du(i) + dp(i), v(P.nni() + i), maxabs(F) * maxabs(coor), 1e-11), "dependent dof " << i);
    }
    c.nontrivial();
}

PROP(periodic_mesh, 500, 5000)
{
    size_t kind = c.in(0, 4);
    double h = c.real(0.25, 4.0) * magnitude(c, 40);
    if (kind == 0) {
        size_t nx = c.amount(1, 6, 30), ny = c.amount(1, 6, 30);
        c.desc << "Quad4::Regular(" << nx << "," << ny << "," << h << ")";
        on_mesh(c, GooseFEM::Mesh::Quad4::Regular(nx, ny, h));
    }
    else if (kind == 1) {
        size_t nx = c.amount(1, 6, 30), ny = c.amount(1, 6, 30);
        c.desc << "Tri3::Regular(" << nx << "," << ny << "," << h << ")";
        on_mesh(c, GooseFEM::Mesh::Tri3::Regular(nx, ny, h));
    }
    else if (kind == 2) {
        size_t nx = c.amount(1, 4, 9), ny = c.amount(1, 4, 9), nz = c.amount(1, 4, 9);
        c.desc << "Hex8::Regular(" << nx << "," << ny << "," << nz << "," << h << ")";
        on_mesh(c, GooseFEM::Mesh::Hex8::Regular(nx, ny, nz, h));
    }
    else if (kind == 4) {
        size_t nx = c.in(1, 9), ny = c.in(1, 18), nz = c.in(1, 9);
        c.desc << "Hex8::FineLayer(" << nx << "," << ny << "," << nz << "," << h << ")";
        on_mesh(c, GooseFEM::Mesh::Hex8::FineLayer(nx, ny, nz, h));
    }
    else {
        size_t nx = c.in(3, 18), ny = c.in(3, 18);
        c.desc << "Quad4::FineLayer(" << nx << "," << ny << "," << h << ")";
        on_mesh(c, GooseFEM::Mesh::Quad4::FineLayer(nx, ny, h));
    }
}

PBT_MAIN("C10")

#else

// The system is solvable: all DOFs without stiffness are prescribed.
struct Full {
    Sys s;
    GooseFEM::Tyings::Periodic P;
    Eigen::SparseMatrix<double> Cdu, Cdp, Cdi;
    Dense C;
    size_t nnu, nnp, nni, nnd;
};

static Full full(Case& c)
{
    Full f;
    f.s = sys(c);
    f.P = periodic(f.s);
    f.Cdu = f.P.Cdu();
    f.Cdp = f.P.Cdp();
    f.Cdi = f.P.Cdi();
    f.nnu = f.P.nnu();
    f.nnp = f.P.nnp();
    f.nni = f.P.nni();
    f.nnd = f.P.nnd();
    f.C = reference(f.s, f.P.dofs(), f.P.control(), f.nni);
    return f;
}

PROP(vector, 3000, 40000)
{
    auto f = full(c);
    const auto& dofs = f.P.dofs();
    GooseFEM::VectorPartitionedTyings V(f.s.conn, dofs, f.Cdu, f.Cdp, f.Cdi);
    REQUIRE(c, V.nnu() == f.nnu && V.nnp() == f.nnp && V.nni() == f.nni && V.nnd() == f.nnd, "sizes");
    REQUIRE(c, is_range(V.iiu(), 0, f.nnu) && is_range(V.iip(), f.nnu, f.nni) && is_range(V.iii(), 0, f.nni) && is_range(V.iid(), f.nni, f.s.ndof), "iiu, iip, iii, iid");
    REQUIRE(c, V.ndof() == f.s.ndof && V.nnode() == f.s.nnode && V.ndim() == f.s.ndim && V.nelem() == f.s.nelem && V.nne() == f.s.nne, "meta-data");

    // nodal forces -> independent DOFs
    D1 b = anyfield<1>(c, {f.s.ndof});
    D2 bn = xt::zeros<double>(dofs.shape());
    for (size_t i = 0; i < dofs.size(); ++i) {
        bn.flat(i) = b(dofs.flat(i));
    }
    D1 bi = xt::zeros<double>({f.nni});
    for (size_t i = 0; i < f.nni; ++i) {
        bi(i) = b(i);
        for (size_t d = 0; d < f.nnd; ++d) {
            bi(i) += f.C(d, i) * b(f.nni + d);
        }
    }
    double scale = maxabs(b) * (1.0 + maxabs(f.C.a) * static_cast<double>(f.nnd));
    REQUIRE(c, same(V.AsDofs_i(bn), bi, scale, 1e-13), "AsDofs_i");
    D1 r = junk<1>({f.nni});
    V.asDofs_i(bn, r);
    REQUIRE(c, same(r, bi, scale, 1e-13), "asDofs_i");
    r = junk<1>({f.nni});
    V.asDofs_i(bn, r, false);
    for (size_t i = 0; i < f.nni; ++i) {
        REQUIRE(c, r(i) == b(i), "asDofs_i, without applying the tyings, dof=" << i);
    }

    // copy_p, also to/from the independent DOFs only
    D1 src = anyfield<1>(c, {f.s.ndof});
    D1 dst = junk<1>({f.s.ndof});
    D1 exp = dst;
    for (size_t i = f.nnu; i < f.nni; ++i) {
        exp(i) = src(i);
    }
    V.copy_p(src, dst);
    REQUIRE(c, eq(dst, exp), "copy_p");
    D1 srci = xt::view(src, xt::range(size_t(0), f.nni));
    D1 dsti = junk<1>({f.nni});
    D1 expi = dsti;
    for (size_t i = f.nnu; i < f.nni; ++i) {
        expi(i) = src(i);
    }
    V.copy_p(srci, dsti);
    REQUIRE(c, eq(dsti, expi), "copy_p (independent)");

    // inherited conversions
    D1 v = anyfield<1>(c, {f.s.ndof});
    D2 vn = V.AsNode(v);
    for (size_t i = 0; i < dofs.size(); ++i) {
        REQUIRE(c, vn.flat(i) == v(dofs.flat(i)), "AsNode");
    }
    REQUIRE(c, eq(V.AsDofs(vn), v), "AsDofs");
}

template <class Solver>
static void matrix(Case& c, bool symmetric)
{
    auto f = full(c);
    const auto& s = f.s;
    const I2 dofs = f.P.dofs();
    GooseFEM::MatrixPartitionedTyings K(s.conn, dofs, f.Cdu, f.Cdp);
    Solver solver, other;
    REQUIRE(c, K.nnu() == f.nnu && K.nnp() == f.nnp && K.nni() == f.nni && K.nnd() == f.nnd, "sizes");
    REQUIRE(c, is_range(K.iiu(), 0, f.nnu) && is_range(K.iip(), f.nnu, f.nni) && is_range(K.iii(), 0, f.nni) && is_range(K.iid(), f.nni, f.s.ndof), "iiu, iip, iii, iid");
    REQUIRE(c, K.ndof() == s.ndof && K.nnode() == s.nnode && K.ndim() == s.ndim && K.nelem() == s.nelem && K.nne() == s.nne, "meta-data");
    if (f.nnu == 0) {
        throw pbt::Discard(); // nothing to solve
    }

    Dense A(s.ndof, s.ndof), Cd(f.nnd, f.nni);
    Cd = f.C;
    Dense T(s.ndof, f.nni); // u = T u_i
    for (size_t i = 0; i < f.nni; ++i) {
        T(i, i) = 1.0;
    }
    for (size_t i = 0; i < f.nnd; ++i) {
        for (size_t j = 0; j < f.nni; ++j) {
            T(f.nni + i, j) = Cd(i, j);
        }
    }

    double mag = magnitude(c);
    size_t nstep = c.in(1, 3);
    for (size_t step = 0; step < nstep; ++step) {
        size_t n = s.nne * s.ndim;
        D3 e = elemmat_spd(c, s.nelem, n, symmetric, mag);
        c.desc << "assemble ";
        K.assemble(e);
        A.assemble(s.conn, dofs, e);
        double sa = A.norm();
        REQUIRE(c, same_dense(K.Todense(), A, sa), "Todense");
        D2 d2 = junk<2>({s.ndof, s.ndof});
        K.todense(d2);
        REQUIRE(c, same_dense(d2, A, sa), "todense");
        auto block = [&](const Eigen::SparseMatrix<double>& B, size_t r0, size_t r1, size_t c0, size_t c1, const char* name) {
            Dense d = dense(B);
            REQUIRE(c, d.n == r1 - r0 && d.m == c1 - c0, name << ": shape");
            for (size_t i = r0; i < r1; ++i) {
                for (size_t j = c0; j < c1; ++j) {
                    REQUIRE(c, close(d(i - r0, j - c0), A(i, j), sa, 1e-12), name << "(" << i - r0 << "," << j - c0 << ")");
                }
            }
        };
        size_t u = 0, p = f.nnu, d = f.nni, z = s.ndof;
        block(K.data_uu(), u, p, u, p, "data_uu");
        block(K.data_up(), u, p, p, d, "data_up");
        block(K.data_pu(), p, d, u, p, "data_pu");
        block(K.data_pp(), p, d, p, d, "data_pp");
        block(K.data_ud(), u, p, d, z, "data_ud");
        block(K.data_pd(), p, d, d, z, "data_pd");
        block(K.data_du(), d, z, u, p, "data_du");
        block(K.data_dp(), d, z, p, d, "data_dp");
        block(K.data_dd(), d, z, d, z, "data_dd");

        // condensed system
        Dense AC = mul(transpose(T), mul(A, T));
        Eigen::MatrixXd M(f.nnu, f.nnu);
        for (size_t i = 0; i < f.nnu; ++i) {
            for (size_t j = 0; j < f.nnu; ++j) {
                M(i, j) = AC(i, j);
            }
        }
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(M);
        double smax = svd.singularValues()(0), smin = svd.singularValues()(f.nnu - 1);
        if (!(smin > 1e-5 * smax)) {
            throw pbt::Discard(); // (almost) singular: control DOFs, or nodes without elements, that are free
        }

        size_t nsolve = c.in(1, 3);
        for (size_t k = 0; k < nsolve; ++k) {
            D1 b = anyfield<1>(c, {s.ndof});
            D1 x0 = anyfield<1>(c, {s.ndof});
            D1 bi = transpose(T).dot(b);
            Eigen::VectorXd rhs(f.nnu);
            for (size_t i = 0; i < f.nnu; ++i) {
                rhs(i) = bi(i);
                for (size_t j = f.nnu; j < f.nni; ++j) {
                    rhs(i) -= AC(i, j) * x0(j);
                }
            }
            Eigen::VectorXd xu = M.fullPivLu().solve(rhs);
            D1 xi = xt::zeros<double>({f.nni});
            for (size_t i = 0; i < f.nnu; ++i) {
                xi(i) = xu(i);
            }
            for (size_t i = f.nnu; i < f.nni; ++i) {
                xi(i) = x0(i);
            }
            D1 x = T.dot(xi);
            double scale = T.norm() * (maxabs(xi) + (maxabs(bi) + AC.norm() * maxabs(x0)) / smin);
            double tol = 1e-10;

            Solver& S = c.rare(3) ? other : solver;
            size_t how = c.in(0, 4);
            c.desc << "solve" << how << " ";
            D2 bn = xt::zeros<double>(dofs.shape()), xn = bn;
            for (size_t i = 0; i < dofs.size(); ++i) {
                bn.flat(i) = b(dofs.flat(i));
                xn.flat(i) = dofs.flat(i) >= f.nnu && dofs.flat(i) < f.nni ? x0(dofs.flat(i)) : 77.0;
            }
            D1 xd = x0;
            for (size_t i = 0; i < s.ndof; ++i) {
                if (i < f.nnu || i >= f.nni) {
                    xd(i) = 77.0;
                }
            }
            if (how == 0 || how == 1) {
                D2 in = xn;
                D2 r = xn;
                if (how == 0) {
                    r = S.Solve(K, bn, xn);
                    REQUIRE(c, eq(xn, in), "Solve modified its argument");
                }
                else {
                    S.solve(K, bn, r);
                }
                for (size_t i = 0; i < dofs.size(); ++i) {
                    REQUIRE(c, close(r.flat(i), x(dofs.flat(i)), scale, tol), "solve(nodevec): dof=" << dofs.flat(i) << " " << r.flat(i) << " expected " << x(dofs.flat(i)));
                }
                c.label("solve nodevec");
            }
            else if (how == 2 || how == 3) {
                D1 r = xd;
                if (how == 2) {
                    r = S.Solve(K, b, xd);
                }
                else {
                    S.solve(K, b, r);
                }
                for (size_t i = 0; i < s.ndof; ++i) {
                    REQUIRE(c, close(r(i), x(i), scale, tol), "solve(dofval): dof=" << i << " " << r(i) << " expected " << x(i));
                }
                c.label("solve dofval");
            }
            else {
                D1 bu = xt::view(b, xt::range(size_t(0), f.nnu));
                D1 bd = xt::view(b, xt::range(f.nni, s.ndof));
                D1 xp = xt::view(x0, xt::range(f.nnu, f.nni));
                D1 r = S.Solve_u(K, bu, bd, xp);
                D1 r2 = junk<1>({f.nnu});
                S.solve_u(K, bu, bd, xp, r2);
                REQUIRE(c, r.size() == f.nnu, "Solve_u: shape");
                for (size_t i = 0; i < f.nnu; ++i) {
                    REQUIRE(c, close(r(i), x(i), scale, tol), "Solve_u: dof=" << i << " " << r(i) << " expected " << x(i));
                    REQUIRE(c, close(r2(i), x(i), scale, tol), "solve_u: dof=" << i);
                }
                c.label("solve_u");
            }
        }
    }
}

PROP(matrix_symmetric, 6000, 60000)
{
    matrix<GooseFEM::MatrixPartitionedTyingsSolver<>>(c, true);
}

PROP(matrix_unsymmetric, 3000, 40000)
{
    matrix<GooseFEM::MatrixPartitionedTyingsSolver<Eigen::SparseLU<Eigen::SparseMatrix<double>>>>(c, false);
}

PBT_MAIN("C11")

#endif
