// C26: complete elastic computations (mesh, quadrature, vectors, assembly, solver) against exact solutions.
#include "meshes.hpp"
#include <GooseFEM/MatrixDiagonalPartitioned.h>
using namespace gen;

struct Domain {
    D2 x;
    I2 conn;
    I2 ties; // periodic ties (independent, dependent)
    size_t origin = 0;
    std::vector<char> boundary, left; // per node
    size_t nnode, nelem, nne, nd;
    bool distorted = false;

    void sizes()
    {
        nnode = x.shape(0);
        nd = x.shape(1);
        nelem = conn.shape(0);
        nne = conn.shape(1);
    }

    // boundary of the (undeformed) box
    void detect(double h)
    {
        sizes();
        boundary.assign(nnode, 0);
        left.assign(nnode, 0);
        for (size_t i = 0; i < nd; ++i) {
            double lo = x(0, i), hi = x(0, i);
            for (size_t n = 0; n < nnode; ++n) {
                lo = std::min(lo, x(n, i));
                hi = std::max(hi, x(n, i));
            }
            for (size_t n = 0; n < nnode; ++n) {
                if (std::abs(x(n, i) - lo) < 1e-6 * h || std::abs(x(n, i) - hi) < 1e-6 * h) {
                    boundary[n] = 1;
                }
                if (i == 0 && std::abs(x(n, i) - lo) < 1e-6 * h) {
                    left[n] = 1;
                }
            }
        }
    }

    double quality() const
    {
        double q = 1e300;
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t m = 0; m < nne; ++m) {
                q = std::min(q, corner_jacobian(x, conn, e, m));
            }
        }
        return q;
    }

    // new number of every node and element
    void renumber(const std::vector<size_t>& q, const std::vector<size_t>& f)
    {
        Domain o = *this;
        for (size_t n = 0; n < nnode; ++n) {
            for (size_t i = 0; i < nd; ++i) {
                x(q[n], i) = o.x(n, i);
            }
            boundary[q[n]] = o.boundary[n];
            left[q[n]] = o.left[n];
        }
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t m = 0; m < nne; ++m) {
                conn(f[e], m) = q[o.conn(e, m)];
            }
        }
        for (auto& n : ties) {
            n = q[n];
        }
        origin = q[origin];
    }
};

static std::vector<size_t> shuffled(Case& c, size_t n)
{
    uint64_t s = c.draw(0xFFFF);
    auto r = pbt::Rng{pbt::mix(s)};
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) {
        p[i] = i;
    }
    if (s > 0) {
        for (size_t i = n; i-- > 1;) {
            std::swap(p[i], p[r.next() % (i + 1)]);
        }
    }
    return p;
}

static Domain domain(Case& c, Kind kind, bool periodic)
{
    Domain d;
    double h = c.flip() ? 1.0 : c.real(0.3, 3.0);
    auto load = [&](auto& m) {
        d.x = m.coor();
        d.conn = m.conn();
        d.ties = m.nodesPeriodic();
        d.origin = m.nodesOrigin();
    };
    if (kind == Kind::hex8) {
        if (c.in(0, 3) == 3) {
            size_t nx = 3 * c.in(1, 2), ny = c.in(3, 9);
            M::Hex8::FineLayer m(nx, ny, 3, h, 1);
            load(m);
            c.label("Hex8::FineLayer");
            c.desc << "Hex8::FineLayer(" << nx << ", " << ny << ", 3, " << h << ", 1)";
        }
        else {
            size_t nx = c.in(1, 4), ny = c.in(1, 4), nz = c.in(1, 3);
            M::Hex8::Regular m(nx, ny, nz, h);
            load(m);
            c.label("Hex8::Regular");
            c.desc << "Hex8::Regular(" << nx << ", " << ny << ", " << nz << ", " << h << ")";
        }
    }
    else {
        size_t k = c.in(0, periodic ? 1 : 4);
        size_t nx = c.in(1, 6), ny = c.in(1, 6);
        if (k == 0) {
            M::Quad4::Regular m(nx, ny, h);
            load(m);
            c.label("Quad4::Regular");
        }
        else if (k == 1) {
            nx *= 3;
            ny *= 3;
            M::Quad4::FineLayer m(nx, ny, h, 1);
            load(m);
            c.label("Quad4::FineLayer");
        }
        else if (k == 2) {
            nx = std::min<size_t>(nx, 3);
            ny = std::min<size_t>(ny, 3);
            M::Quad4::Regular coarse(nx, ny, h);
            M::Quad4::Map::RefineRegular r(coarse, c.in(1, 3), c.in(1, 3));
            auto m = r.fineMesh();
            load(m);
            c.label("RefineRegular");
        }
        else if (k == 3) {
            M::Vstack s;
            size_t n = c.in(1, 3);
            for (size_t i = 0; i < n; ++i) {
                M::Quad4::Regular m(nx, c.in(1, 3), h);
                s.push_back(m.coor(), m.conn(), m.nodesBottomEdge(), m.nodesTopEdge());
            }
            d.x = s.coor();
            d.conn = s.conn();
            c.label("Vstack");
        }
        else {
            // a grid of meshes
            M::Stitch s;
            size_t na = c.in(1, 2), nb = c.in(1, 2);
            for (size_t i = 0; i < na; ++i) {
                for (size_t j = 0; j < nb; ++j) {
                    M::Quad4::Regular m(nx, ny, h);
                    D2 x = m.coor();
                    for (size_t n = 0; n < x.shape(0); ++n) {
                        x(n, 0) += h * static_cast<double>(nx * i);
                        x(n, 1) += h * static_cast<double>(ny * j);
                    }
                    s.push_back(x, m.conn());
                }
            }
            d.x = s.coor();
            d.conn = s.conn();
            c.label("Stitch");
        }
        c.desc << "mesh " << k << " " << nx << "x" << ny << " h=" << h;
    }
    d.detect(h);

    // distort
    double eps = c.real(0.0, 0.15);
    bool move_boundary = !periodic && c.flip();
    auto s = c.stream();
    if (eps > 1e-3) {
        D2 x0 = d.x;
        double q0 = d.quality();
        for (size_t n = 0; n < d.nnode; ++n) {
            for (size_t i = 0; i < d.nd; ++i) {
                double v = h * eps * std::max(-1.0, std::min(1.0, s()));
                if (!d.boundary[n] || move_boundary) {
                    d.x(n, i) += v;
                    d.distorted = true;
                }
            }
        }
        if (d.quality() < 0.2 * q0) {
            d.x = x0;
            d.distorted = false;
        }
    }
    c.label(d.distorted, "distorted");
    c.desc << (d.distorted ? " distorted" : "") << "; ";

    // map
    double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    double t[3] = {0, 0, 0};
    if (kind == Kind::axisym) {
        A[0][0] = c.real(1.0, 2.0);
        A[1][1] = c.real(1.0, 2.0);
        double lo = 1e300;
        for (size_t n = 0; n < d.nnode; ++n) {
            lo = std::min(lo, d.x(n, 1));
        }
        t[1] = A[1][1] * -lo + (c.flip() ? 0.0 : c.real(0.5, 5.0));
        t[0] = c.real(0, 5);
    }
    else if (c.flip()) {
        for (size_t i = 0; i < d.nd; ++i) {
            t[i] = c.real(0.0, 10.0);
            for (size_t j = 0; j < d.nd; ++j) {
                A[i][j] += c.real(0.0, 0.3) * (c.flip() ? -1.0 : 1.0);
            }
        }
        c.label("mapped");
    }
    D2 x = d.x;
    for (size_t n = 0; n < d.nnode; ++n) {
        for (size_t i = 0; i < d.nd; ++i) {
            d.x(n, i) = t[i];
            for (size_t j = 0; j < d.nd; ++j) {
                d.x(n, i) += A[i][j] * x(n, j);
            }
        }
    }
    if (d.quality() <= 0) {
        throw pbt::Discard();
    }
    if (c.flip()) {
        auto q = shuffled(c, d.nnode);
        auto f = shuffled(c, d.nelem);
        d.renumber(q, f);
        c.label("renumbered");
    }
    return d;
}

// stiffness: symmetric positive definite, all minor symmetries
struct Stiffness {
    size_t td;
    double C[3][3][3][3];
};

static Stiffness stiffness(Case& c, size_t td, bool axisym)
{
    Stiffness r;
    r.td = td;
    double lam = c.real(0.5, 3), mu = c.real(0.5, 3);
    auto I = [](size_t i, size_t j) { return i == j ? 1.0 : 0.0; };
    for (size_t i = 0; i < 3; ++i) {
        for (size_t j = 0; j < 3; ++j) {
            for (size_t k = 0; k < 3; ++k) {
                for (size_t l = 0; l < 3; ++l) {
                    r.C[i][j][k][l] = lam * I(i, j) * I(k, l) + mu * (I(i, k) * I(j, l) + I(i, l) * I(j, k));
                }
            }
        }
    }
    size_t n = c.in(0, 2);
    for (size_t a = 0; a < n; ++a) {
        double S[3][3] = {};
        if (axisym) {
            S[0][0] = S[1][1] = c.real(0, 2);
            S[2][2] = c.real(0, 2);
        }
        else {
            for (size_t i = 0; i < td; ++i) {
                for (size_t j = i; j < td; ++j) {
                    S[i][j] = S[j][i] = c.real(0, 2) * (c.flip() ? -1.0 : 1.0);
                }
            }
        }
        for (size_t i = 0; i < 3; ++i) {
            for (size_t j = 0; j < 3; ++j) {
                for (size_t k = 0; k < 3; ++k) {
                    for (size_t l = 0; l < 3; ++l) {
                        r.C[i][j][k][l] += S[i][j] * S[k][l];
                    }
                }
            }
        }
        c.label("anisotropic");
    }
    return r;
}

static D6 tangent(const std::vector<Stiffness>& mat, size_t nelem, size_t nip)
{
    size_t td = mat[0].td;
    D6 C = xt::zeros<double>({nelem, nip, td, td, td, td});
    for (size_t e = 0; e < nelem; ++e) {
        const auto& m = mat[e % mat.size()];
        for (size_t q = 0; q < nip; ++q) {
            for (size_t i = 0; i < td; ++i) {
                for (size_t j = 0; j < td; ++j) {
                    for (size_t k = 0; k < td; ++k) {
                        for (size_t l = 0; l < td; ++l) {
                            C(e, q, i, j, k, l) = m.C[i][j][k][l];
                        }
                    }
                }
            }
        }
    }
    return C;
}

static D4 stress(const D6& C, const D4& eps)
{
    D4 sig = xt::zeros<double>(eps.shape());
    size_t td = eps.shape(2);
    for (size_t e = 0; e < eps.shape(0); ++e) {
        for (size_t q = 0; q < eps.shape(1); ++q) {
            for (size_t i = 0; i < td; ++i) {
                for (size_t j = 0; j < td; ++j) {
                    for (size_t k = 0; k < td; ++k) {
                        for (size_t l = 0; l < td; ++l) {
                            sig(e, q, i, j) += C(e, q, i, j, k, l) * eps(e, q, k, l);
                        }
                    }
                }
            }
        }
    }
    return sig;
}

// integral of (a : b) over the domain
static double work(const D4& a, const D4& b, const D2& dV)
{
    double r = 0.0;
    for (size_t e = 0; e < a.shape(0); ++e) {
        for (size_t q = 0; q < a.shape(1); ++q) {
            for (size_t i = 0; i < a.shape(2); ++i) {
                for (size_t j = 0; j < a.shape(3); ++j) {
                    r += a(e, q, i, j) * b(e, q, i, j) * dV(e, q);
                }
            }
        }
    }
    return r;
}

static double inner(const D2& a, const D2& b)
{
    double r = 0.0;
    for (size_t i = 0; i < a.size(); ++i) {
        r += a.flat(i) * b.flat(i);
    }
    return r;
}

static D3 coordinates(const Domain& d)
{
    D3 x = xt::zeros<double>({d.nelem, d.nne, d.nd});
    for (size_t e = 0; e < d.nelem; ++e) {
        for (size_t m = 0; m < d.nne; ++m) {
            for (size_t i = 0; i < d.nd; ++i) {
                x(e, m, i) = d.x(d.conn(e, m), i);
            }
        }
    }
    return x;
}

// DOFs: one per node and direction, in a random order
static I2 numbers(Case& c, const Domain& d)
{
    I2 dofs = M::dofs(d.nnode, d.nd);
    if (c.flip()) {
        auto p = shuffled(c, dofs.size());
        for (auto& v : dofs) {
            v = p[v];
        }
        c.label("dofs renumbered");
    }
    return dofs;
}

template <class F>
static void each(Case& c, F f)
{
    switch (c.in(0, 3)) {
    case 0:
        return f(std::integral_constant<Kind, Kind::quad4>());
    case 1:
        return f(std::integral_constant<Kind, Kind::planar>());
    case 2:
        return f(std::integral_constant<Kind, Kind::hex8>());
    default:
        return f(std::integral_constant<Kind, Kind::axisym>());
    }
}

template <Kind K>
static auto quadrature(Case& c, const D3& x, double& thick)
{
    Scheme s;
    thick = K == Kind::planar && c.flip() ? c.real(0.2, 4.0) : 1.0;
    return Quad<K>::make(x, s, thick);
}

// Solve with unknown and prescribed DOFs, in any of the ways that are available
template <class Solver>
static D2 solve(Case& c, const GooseFEM::VectorPartitioned& V, GooseFEM::MatrixPartitioned& A, const D2& f, const D2& u)
{
    Solver s;
    switch (c.in(0, 3)) {
    case 0:
        c.label("solve nodevec");
        return s.Solve(A, f, u);
    case 1: {
        c.label("solve nodevec in place");
        D2 r = u;
        s.solve(A, f, r);
        return r;
    }
    case 2: {
        c.label("solve dofval");
        D1 r = s.Solve(A, V.AsDofs(f), V.AsDofs(u));
        return V.AsNode(r);
    }
    default: {
        c.label("solve partitioned");
        D1 r = s.Solve_u(A, V.AsDofs_u(f), V.AsDofs_p(u));
        return V.NodeFromPartitioned(r, V.AsDofs_p(u));
    }
    }
}

static D2 any_solve(Case& c, const GooseFEM::VectorPartitioned& V, GooseFEM::MatrixPartitioned& A, const D2& f, const D2& u)
{
    using S = Eigen::SparseMatrix<double>;
    if (c.flip()) {
        return solve<GooseFEM::MatrixPartitionedSolver<Eigen::SparseLU<S>>>(c, V, A, f, u);
    }
    return solve<GooseFEM::MatrixPartitionedSolver<>>(c, V, A, f, u);
}

static void residual(Case& c, const D2& f, const std::vector<std::vector<char>>& fixed, double tol)
{
    for (size_t n = 0; n < f.shape(0); ++n) {
        for (size_t i = 0; i < f.shape(1); ++i) {
            REQUIRE(c, fixed[n][i] || std::abs(f(n, i)) <= tol, "residual force at node " << n << " direction " << i << ": " << f(n, i) << " tol=" << tol);
        }
    }
}

// The displacement of the boundary is affine, the material homogeneous: everything is affine/uniform.
PROP(affine, 500, 5000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        constexpr size_t td = K == Kind::quad4 ? 2 : 3;
        c.label(name(K));
        auto d = domain(c, K, false);
        double thick;
        auto quad = quadrature<K>(c, coordinates(d), thick);
        size_t nip = quad.nip();
        std::vector<Stiffness> mat = {stiffness(c, td, K == Kind::axisym)};
        D6 C = tangent(mat, d.nelem, nip);

        // imposed displacement gradient
        double F[3][3] = {}, t[3] = {};
        double E[3][3] = {}; // expected strain
        if (K == Kind::axisym) {
            F[0][0] = c.real(0.1, 1);
            F[1][1] = c.real(-0.2, 1);
            t[0] = c.real(0, 1);
            E[0][0] = E[1][1] = F[1][1];
            E[2][2] = F[0][0];
        }
        else {
            for (size_t i = 0; i < d.nd; ++i) {
                t[i] = c.real(0, 1);
                for (size_t j = 0; j < d.nd; ++j) {
                    F[i][j] = c.real(0, 1) * (c.flip() ? -1.0 : 1.0);
                }
            }
            for (size_t i = 0; i < d.nd; ++i) {
                for (size_t j = 0; j < d.nd; ++j) {
                    E[i][j] = 0.5 * (F[i][j] + F[j][i]);
                }
            }
        }
        D2 exact = xt::zeros<double>(d.x.shape());
        for (size_t n = 0; n < d.nnode; ++n) {
            for (size_t i = 0; i < d.nd; ++i) {
                exact(n, i) = t[i];
                for (size_t j = 0; j < d.nd; ++j) {
                    exact(n, i) += F[i][j] * d.x(n, j);
                }
            }
        }

        // prescribed: the boundary and some more, in random order
        I2 dofs = numbers(c, d);
        std::vector<std::vector<char>> fixed(d.nnode, std::vector<char>(d.nd, 0));
        bool more = c.rare(3);
        std::vector<size_t> p;
        D2 u = xt::zeros<double>(d.x.shape());
        size_t nfree = 0;
        for (size_t n = 0; n < d.nnode; ++n) {
            for (size_t i = 0; i < d.nd; ++i) {
                u(n, i) = 99.0;
                if (d.boundary[n] || (more && c.rare(4))) {
                    fixed[n][i] = 1;
                    p.push_back(dofs(n, i));
                    u(n, i) = exact(n, i);
                }
                else {
                    ++nfree;
                }
            }
        }
        auto order = shuffled(c, p.size());
        I1 iip = xt::zeros<size_t>({p.size()});
        for (size_t i = 0; i < p.size(); ++i) {
            iip(i) = p[order[i]];
        }
        c.nontrivial(nfree > d.nd);
        c.label(nfree == 0, "nothing to solve");
        if (nfree == 0) {
            return;
        }

        GooseFEM::VectorPartitioned V(d.conn, dofs, iip);
        GooseFEM::MatrixPartitioned A(d.conn, dofs, iip);
        A.assemble(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
        D2 zero = xt::zeros<double>(d.x.shape());
        D2 disp = any_solve(c, V, A, zero, u);
        double su = maxabs(exact) + 1e-10;
        REQUIRE(c, same(disp, exact, su, 1e-8), "displacement");

        D4 eps = quad.SymGradN_vector(V.AsElement(disp));
        double se = 1e-10;
        for (size_t i = 0; i < td; ++i) {
            for (size_t j = 0; j < td; ++j) {
                se = std::max(se, std::abs(E[i][j]));
            }
        }
        for (size_t e = 0; e < d.nelem; ++e) {
            for (size_t q = 0; q < nip; ++q) {
                for (size_t i = 0; i < td; ++i) {
                    for (size_t j = 0; j < td; ++j) {
                        REQUIRE(c, std::abs(eps(e, q, i, j) - E[i][j]) <= 1e-7 * (se + su), "strain (" << i << "," << j << ") e=" << e << " q=" << q << ": " << eps(e, q, i, j) << " expected " << E[i][j]);
                    }
                }
            }
        }

        // forces: equilibrium, reactions
        D4 sig = stress(C, eps);
        D2 fint = V.AssembleNode(quad.Int_gradN_dot_tensor2_dV(sig));
        double sf = maxabs(fint) + A.data_uu().coeffs().cwiseAbs().maxCoeff() * su;
        residual(c, fint, fixed, 1e-7 * sf);
        D2 fext = A.Reaction(disp, zero);
        REQUIRE(c, same(fext, fint, sf, 1e-7), "reaction forces");
        for (size_t i = 0; i < d.nd; ++i) {
            if (K == Kind::axisym && i == 1) {
                continue; // radial forces act in all directions
            }
            double tot = 0.0;
            for (size_t n = 0; n < d.nnode; ++n) {
                tot += fext(n, i);
            }
            REQUIRE(c, std::abs(tot) <= 1e-7 * sf * static_cast<double>(d.nnode), "resulting force in direction " << i << ": " << tot);
        }
        if (K != Kind::axisym) {
            double sx = maxabs(d.x);
            for (size_t i = 0; i < d.nd; ++i) {
                for (size_t j = i + 1; j < d.nd; ++j) {
                    double tot = 0.0;
                    for (size_t n = 0; n < d.nnode; ++n) {
                        tot += d.x(n, i) * fext(n, j) - d.x(n, j) * fext(n, i);
                    }
                    REQUIRE(c, std::abs(tot) <= 1e-7 * sf * sx * static_cast<double>(d.nnode), "resulting moment " << i << j << ": " << tot);
                }
            }
        }
        double energy = work(sig, eps, quad.dV());
        REQUIRE(c, close(inner(fext, disp), energy, sf * su * static_cast<double>(d.nnode), 1e-7), "work " << inner(fext, disp) << " energy " << energy);

        // the same energy from the geometry
        double vol = 0.0, dens = 0.0;
        D3 x = coordinates(d);
        for (size_t e = 0; e < d.nelem; ++e) {
            vol += exact_volume(K, x, e, thick);
        }
        for (size_t i = 0; i < td; ++i) {
            for (size_t j = 0; j < td; ++j) {
                for (size_t a = 0; a < td; ++a) {
                    for (size_t b = 0; b < td; ++b) {
                        dens += E[i][j] * mat[0].C[i][j][a][b] * E[a][b];
                    }
                }
            }
        }
        REQUIRE(c, close(energy, vol * dens, sf * su, 1e-6), "energy " << energy << " expected " << vol * dens);
    });
}

// Heterogeneous material, arbitrary displacement: the forces it causes give that displacement back,
// whatever the numbering of nodes, elements, and DOFs.
PROP(forces, 400, 4000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        constexpr size_t td = K == Kind::quad4 ? 2 : 3;
        c.label(name(K));
        auto d = domain(c, K, false);
        size_t nmat = c.in(1, 3);
        std::vector<Stiffness> mat;
        for (size_t i = 0; i < nmat; ++i) {
            mat.push_back(stiffness(c, td, K == Kind::axisym));
        }
        D2 exact = field<2>(c, {d.nnode, d.nd});
        if (K == Kind::axisym) {
            for (size_t n = 0; n < d.nnode; ++n) {
                if (d.x(n, 1) < 1e-6) {
                    exact(n, 1) = 0.0; // on the axis
                }
            }
        }
        D2 prev;
        std::vector<size_t> qprev(d.nnode), fprev(d.nelem); // composition of all numberings
        for (size_t i = 0; i < d.nnode; ++i) {
            qprev[i] = i;
        }
        for (size_t i = 0; i < d.nelem; ++i) {
            fprev[i] = i;
        }
        for (size_t variant = 0; variant < 2; ++variant) {
            if (variant > 0) {
                auto q = shuffled(c, d.nnode);
                auto f = shuffled(c, d.nelem);
                d.renumber(q, f);
                D2 o = exact;
                for (size_t n = 0; n < d.nnode; ++n) {
                    for (size_t i = 0; i < d.nd; ++i) {
                        exact(q[n], i) = o(n, i);
                    }
                }
                qprev = q;
                for (auto& e : fprev) {
                    e = f[e];
                }
            }
            double thick;
            auto quad = quadrature<K>(c, coordinates(d), thick);
            size_t nip = quad.nip();
            // the material belongs to the element: keep it
            std::vector<Stiffness> m(d.nelem);
            for (size_t e = 0; e < d.nelem; ++e) {
                m[fprev[e]] = mat[e % nmat];
            }
            D6 C = tangent(m, d.nelem, nip);

            I2 dofs = numbers(c, d);
            std::vector<size_t> p;
            for (size_t n = 0; n < d.nnode; ++n) {
                for (size_t i = 0; i < d.nd; ++i) {
                    if (d.left[n] || (K == Kind::axisym && i == 1 && d.x(n, 1) < 1e-6)) {
                        p.push_back(dofs(n, i));
                    }
                }
            }
            I1 iip = vec(p);
            bool reorder = c.flip();
            if (reorder) { // partition the DOFs manually: unknown first
                std::set<size_t> isp(p.begin(), p.end());
                std::vector<size_t> un;
                for (size_t i = 0; i < dofs.size(); ++i) {
                    if (!isp.count(i)) {
                        un.push_back(i);
                    }
                }
                M::Reorder r({vec(un), iip});
                dofs = r.apply(dofs);
                for (size_t i = 0; i < iip.size(); ++i) {
                    iip(i) = un.size() + i;
                }
                c.label("manual partition");
            }
            GooseFEM::VectorPartitioned V(d.conn, dofs, iip);
            D3 Ke = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
            D4 eps = quad.SymGradN_vector(V.AsElement(exact));
            D4 sig = stress(C, eps);
            D2 f = V.AssembleNode(quad.Int_gradN_dot_tensor2_dV(sig));
            double su = 10.0;
            double sf = maxabs(f) + maxabs(Ke) * su;

            // stiffness is the derivative of the internal force
            GooseFEM::Matrix full(d.conn, dofs);
            full.assemble(Ke);
            REQUIRE(c, same(full.Dot(exact), f, sf, 1e-9), "K u != internal force");

            // the internal work is the external work, twice the energy
            REQUIRE(c, close(inner(f, exact), work(sig, eps, quad.dV()), sf * su, 1e-8), "work");

            GooseFEM::MatrixPartitioned A(d.conn, dofs, iip);
            A.assemble(Ke);
            REQUIRE(c, same(A.Reaction(exact, f), f, sf, 1e-9), "reaction to the exact solution");
            D2 u = exact, b = f;
            for (size_t i = 0; i < u.size(); ++i) {
                bool isp = one_of(iip, dofs.flat(i));
                if (isp) {
                    b.flat(i) = -55.0; // unknown reaction
                }
                else {
                    u.flat(i) = 55.0; // unknown displacement
                }
            }
            D2 r = any_solve(c, V, A, b, u);
            REQUIRE(c, same(r, exact, su, 1e-6), "displacement");
            REQUIRE(c, same(A.Reaction(r, b), f, sf, 1e-6), "reaction");
            if (variant > 0) {
                for (size_t n = 0; n < d.nnode; ++n) {
                    for (size_t i = 0; i < d.nd; ++i) {
                        REQUIRE(c, close(r(qprev[n], i), prev(n, i), su, 1e-6), "displacement depends on the numbering");
                    }
                }
            }
            prev = r;

            // in one go: all DOFs unknown is singular, a foundation of springs makes it regular
            if (c.rare(3)) {
                D3 Ks = Ke;
                for (size_t e = 0; e < d.nelem; ++e) {
                    for (size_t i = 0; i < d.nne * d.nd; ++i) {
                        Ks(e, i, i) += 1.0;
                    }
                }
                GooseFEM::Matrix B(d.conn, dofs);
                B.assemble(Ks);
                GooseFEM::MatrixSolver<> s;
                D2 fb = B.Dot(exact);
                REQUIRE(c, same(s.Solve(B, fb), exact, su, 1e-7), "full matrix");
                c.label("full matrix");
            }
        }
        c.nontrivial(nmat > 1 && d.nelem > 1);
    });
}

// Periodic boundary conditions, mean displacement gradient imposed on control nodes
PROP(periodic, 250, 2500)
{
    auto run = [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        constexpr size_t td = K == Kind::quad4 ? 2 : 3;
        c.label(name(K));
        auto d = domain(c, K, true);
        double thick;
        auto quad = quadrature<K>(c, coordinates(d), thick);
        size_t nip = quad.nip();
        size_t nmat = c.in(1, 3);
        std::vector<Stiffness> mat;
        for (size_t i = 0; i < nmat; ++i) {
            mat.push_back(stiffness(c, td, false));
        }
        D6 C = tangent(mat, d.nelem, nip);
        bool homogeneous = nmat == 1 || d.nelem == 1;
        c.label(homogeneous ? "homogeneous" : "heterogeneous");

        I2 dofs0 = numbers(c, d);
        GooseFEM::Tyings::Control control(d.x, dofs0);
        I2 control_dofs = control.controlDofs();
        std::vector<size_t> p(control_dofs.begin(), control_dofs.end());
        size_t fix = d.origin;
        if (c.flip()) { // any independent node
            std::set<size_t> dep;
            for (size_t i = 0; i < d.ties.shape(0); ++i) {
                dep.insert(d.ties(i, 1));
            }
            fix = c.in(0, d.nnode - 1);
            while (dep.count(fix)) {
                fix = (fix + 1) % d.nnode;
            }
        }
        for (size_t i = 0; i < d.nd; ++i) {
            p.push_back(dofs0(fix, i));
        }
        GooseFEM::Tyings::Periodic tyings(control.coor(), control.dofs(), control_dofs, d.ties, vec(p));
        I2 dofs = tyings.dofs();
        GooseFEM::VectorPartitionedTyings V(d.conn, dofs, tyings.Cdu(), tyings.Cdp(), tyings.Cdi());
        GooseFEM::MatrixPartitionedTyings A(d.conn, dofs, tyings.Cdu(), tyings.Cdp());
        D3 Ke = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
        A.assemble(Ke);

        double F[3][3] = {}, sF = 1e-10;
        D2 u = xt::zeros<double>(control.coor().shape());
        for (size_t i = 0; i < d.nd; ++i) {
            for (size_t j = 0; j < d.nd; ++j) {
                F[i][j] = c.real(0, 1) * (c.flip() ? -1.0 : 1.0);
                sF = std::max(sF, std::abs(F[i][j]));
                u(control.controlNodes()(i), j) = F[i][j];
            }
        }
        bool unknown = tyings.nnu() > 0;
        c.nontrivial(unknown && sF > 1e-3);
        if (!unknown) {
            c.label("nothing to solve");
            return;
        }
        D2 zero = xt::zeros<double>(u.shape());
        GooseFEM::MatrixPartitionedTyingsSolver<> solver;
        D2 disp = u;
        if (c.flip()) {
            disp = solver.Solve(A, zero, u);
        }
        else {
            D1 r = V.AsDofs(u);
            solver.solve(A, V.AsDofs(zero), r);
            disp = V.AsNode(r);
            c.label("solve dofval");
        }
        double su = sF * (1.0 + maxabs(d.x));
        for (size_t i = 0; i < d.nd; ++i) {
            REQUIRE(c, std::abs(disp(fix, i)) <= 1e-10 * su, "the fixed node moves");
            for (size_t j = 0; j < d.nd; ++j) {
                REQUIRE(c, close(disp(control.controlNodes()(i), j), F[i][j], 0, 1e-12), "control node");
            }
        }
        // periodicity of the fluctuation
        auto affine = [&](size_t n, size_t i) {
            double r = 0.0;
            for (size_t j = 0; j < d.nd; ++j) {
                r += F[i][j] * (d.x(n, j) - d.x(fix, j));
            }
            return r;
        };
        for (size_t t = 0; t < d.ties.shape(0); ++t) {
            for (size_t i = 0; i < d.nd; ++i) {
                double a = disp(d.ties(t, 0), i) - affine(d.ties(t, 0), i);
                double b = disp(d.ties(t, 1), i) - affine(d.ties(t, 1), i);
                REQUIRE(c, std::abs(a - b) <= 1e-8 * su, "fluctuation is not periodic: nodes " << d.ties(t, 0) << " " << d.ties(t, 1));
            }
        }
        if (homogeneous) {
            for (size_t n = 0; n < d.nnode; ++n) {
                for (size_t i = 0; i < d.nd; ++i) {
                    REQUIRE(c, std::abs(disp(n, i) - affine(n, i)) <= 1e-7 * su, "node " << n << " " << disp(n, i) << " expected " << affine(n, i));
                }
            }
        }
        // mean gradient, mean stress
        D3 ue = V.AsElement(disp);
        D4 grad = quad.GradN_vector(ue); // (i, j): d u_j / d x_i
        D4 eps = quad.SymGradN_vector(ue);
        D4 sig = stress(C, eps);
        double vol = 0.0, G[3][3] = {}, S[3][3] = {};
        for (size_t e = 0; e < d.nelem; ++e) {
            for (size_t q = 0; q < nip; ++q) {
                vol += quad.dV()(e, q);
                for (size_t i = 0; i < d.nd; ++i) {
                    for (size_t j = 0; j < d.nd; ++j) {
                        G[j][i] += grad(e, q, i, j) * quad.dV()(e, q);
                        S[i][j] += sig(e, q, i, j) * quad.dV()(e, q);
                    }
                }
            }
        }
        double ss = maxabs(sig) + 1e-10;
        for (size_t i = 0; i < d.nd; ++i) {
            for (size_t j = 0; j < d.nd; ++j) {
                REQUIRE(c, std::abs(G[i][j] / vol - F[i][j]) <= 1e-7 * (sF + maxabs(grad)), "mean gradient " << i << j << ": " << G[i][j] / vol << " imposed " << F[i][j]);
            }
        }
        // forces: in equilibrium on the independent DOFs, and the control nodes carry the mean stress
        D2 fint = V.AssembleNode(quad.Int_gradN_dot_tensor2_dV(sig));
        D1 fi = V.AsDofs_i(fint);
        double sf = maxabs(fint) + 1e-10;
        for (auto i : tyings.iiu()) {
            REQUIRE(c, std::abs(fi(i)) <= 1e-7 * (sf + ss), "residual at unknown DOF " << i << ": " << fi(i));
        }
        for (size_t i = 0; i < d.nd; ++i) {
            REQUIRE(c, std::abs(fi(dofs(fix, i))) <= 1e-7 * (sf + ss) * static_cast<double>(d.nnode), "the fixed node carries a force");
            for (size_t j = 0; j < d.nd; ++j) {
                double f = fi(tyings.control()(i, j));
                REQUIRE(c, std::abs(f - S[i][j]) <= 1e-7 * (std::abs(S[i][j]) + ss * vol), "force on control DOF " << i << j << ": " << f << " mean stress * volume: " << S[i][j]);
            }
        }

        // Differential: the same computation with DOFs shared by periodic nodes, and the mean gradient as a
        // prescribed strain
        I2 pd = dofs0;
        for (size_t t = 0; t < d.ties.shape(0); ++t) {
            for (size_t i = 0; i < d.nd; ++i) {
                pd(d.ties(t, 1), i) = pd(d.ties(t, 0), i);
            }
        }
        pd = M::renumber(pd);
        I1 pf = xt::zeros<size_t>({d.nd});
        for (size_t i = 0; i < d.nd; ++i) {
            pf(i) = pd(fix, i);
        }
        D4 bar = xt::zeros<double>(eps.shape());
        for (size_t e = 0; e < d.nelem; ++e) {
            for (size_t q = 0; q < nip; ++q) {
                for (size_t i = 0; i < d.nd; ++i) {
                    for (size_t j = 0; j < d.nd; ++j) {
                        bar(e, q, i, j) = 0.5 * (F[i][j] + F[j][i]);
                    }
                }
            }
        }
        GooseFEM::VectorPartitioned W(d.conn, pd, pf);
        GooseFEM::MatrixPartitioned B(d.conn, pd, pf);
        B.assemble(Ke);
        D1 load = W.AssembleDofs(quad.Int_gradN_dot_tensor2_dV(stress(C, bar)));
        for (auto& v : load) {
            v *= -1.0;
        }
        GooseFEM::MatrixPartitionedSolver<> ps;
        D1 start = xt::zeros<double>({W.ndof()});
        D2 w = W.AsNode(D1(ps.Solve(B, load, start)));
        for (size_t n = 0; n < d.nnode; ++n) {
            for (size_t i = 0; i < d.nd; ++i) {
                REQUIRE(c, std::abs(w(n, i) + affine(n, i) - disp(n, i)) <= 1e-6 * su, "tyings and shared DOFs differ at node " << n << ": " << w(n, i) + affine(n, i) << " " << disp(n, i));
            }
        }
    };
    switch (c.in(0, 2)) {
    case 0:
        return run(std::integral_constant<Kind, Kind::quad4>());
    case 1:
        return run(std::integral_constant<Kind, Kind::planar>());
    default:
        return run(std::integral_constant<Kind, Kind::hex8>());
    }
}

// Explicit dynamics: lumped mass, momentum is conserved without external forces, a uniform body force
// gives a uniform acceleration.
PROP(dynamics, 300, 3000)
{
    auto run = [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        constexpr size_t td = K == Kind::quad4 ? 2 : 3;
        c.label(name(K));
        auto d = domain(c, K, false);
        D3 x = coordinates(d);
        auto quad = Quad<K>::make(x, Scheme(), 1.0);
        Scheme sn;
        sn.kind = 2;
        sn.xi = d.nd == 2 ? D2(GooseFEM::Element::Quad4::Nodal::xi()) : D2(GooseFEM::Element::Hex8::Nodal::xi());
        sn.w = d.nd == 2 ? D1(GooseFEM::Element::Quad4::Nodal::w()) : D1(GooseFEM::Element::Hex8::Nodal::w());
        auto nodal = Quad<K>::make(x, sn, 1.0);
        D6 C = tangent({stiffness(c, td, false), stiffness(c, td, false)}, d.nelem, quad.nip());

        // density per element
        D2 rho = xt::zeros<double>({d.nelem, nodal.nip()});
        double total = 0.0;
        for (size_t e = 0; e < d.nelem; ++e) {
            double r = c.real(1.0, 3.0);
            for (size_t q = 0; q < nodal.nip(); ++q) {
                rho(e, q) = r;
                total += r * nodal.dV()(e, q);
            }
        }
        I2 dofs = numbers(c, d);
        GooseFEM::Vector V(d.conn, dofs);
        GooseFEM::MatrixDiagonal mass(d.conn, dofs);
        mass.assemble(nodal.Int_N_scalar_NT_dV(rho));
        D1 m = mass.Todiagonal();
        double tot = 0.0;
        for (auto v : m) {
            REQUIRE(c, v > 0, "mass is not positive");
            tot += v;
        }
        REQUIRE(c, close(tot, total * static_cast<double>(d.nd), 0, 1e-10), "total mass " << tot << " expected " << total * static_cast<double>(d.nd));

        // uniform acceleration
        D2 g = xt::zeros<double>(d.x.shape());
        for (size_t i = 0; i < d.nd; ++i) {
            double v = c.real(1, 10);
            for (size_t n = 0; n < d.nnode; ++n) {
                g(n, i) = v;
            }
        }
        D2 f = mass.Dot(g);
        REQUIRE(c, same(mass.Solve(f), g, 10.0, 1e-12), "uniform acceleration");

        // central differences
        double kmax = 0.0;
        D3 Ke = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
        GooseFEM::Matrix K_(d.conn, dofs);
        K_.assemble(Ke);
        D2 dense = K_.Todense();
        for (size_t i = 0; i < dense.shape(0); ++i) {
            double s = 0.0;
            for (size_t j = 0; j < dense.shape(1); ++j) {
                s += std::abs(dense(i, j));
            }
            kmax = std::max(kmax, s / m(i));
        }
        double dt = 0.2 / std::sqrt(kmax);
        D2 u = field<2>(c, {d.nnode, d.nd}), v = field<2>(c, {d.nnode, d.nd}, std::sqrt(kmax));
        D2 a = xt::zeros<double>(u.shape());
        auto momentum = [&](size_t i) {
            double r = 0.0;
            D2 p = mass.Dot(v);
            for (size_t n = 0; n < d.nnode; ++n) {
                r += p(n, i);
            }
            return r;
        };
        auto acceleration = [&]() {
            D4 eps = quad.SymGradN_vector(V.AsElement(u));
            D2 fint = V.AssembleNode(quad.Int_gradN_dot_tensor2_dV(stress(C, eps)));
            for (auto& i : fint) {
                i *= -1.0;
            }
            mass.solve(fint, a);
        };
        auto energy = [&]() { return 0.5 * inner(mass.Dot(v), v) + 0.5 * inner(K_.Dot(u), u); };
        double unit = maxabs(m) * static_cast<double>(d.nnode); // u ~ 1, v ~ sqrt(kmax)
        double p0[3] = {}, scale = unit * std::sqrt(kmax);
        for (size_t i = 0; i < d.nd; ++i) {
            p0[i] = momentum(i);
        }
        acceleration();
        double e0 = energy();
        size_t nstep = c.in(1, 8);
        for (size_t step = 0; step < nstep; ++step) {
            for (size_t i = 0; i < u.size(); ++i) {
                v.flat(i) += 0.5 * dt * a.flat(i);
                u.flat(i) += dt * v.flat(i);
            }
            acceleration();
            for (size_t i = 0; i < u.size(); ++i) {
                v.flat(i) += 0.5 * dt * a.flat(i);
            }
            for (size_t i = 0; i < d.nd; ++i) {
                REQUIRE(c, std::abs(momentum(i) - p0[i]) <= 1e-9 * scale, "momentum is not conserved: step " << step << " direction " << i << " " << momentum(i) << " " << p0[i]);
            }
            double e = energy();
            REQUIRE(c, std::abs(e - e0) <= 0.05 * e0 + 1e-12 * unit * kmax, "energy " << e << " initially " << e0);
        }
        c.nontrivial(nstep > 1 && d.nelem > 1);
    };
    switch (c.in(0, 2)) {
    case 0:
        return run(std::integral_constant<Kind, Kind::quad4>());
    case 1:
        return run(std::integral_constant<Kind, Kind::planar>());
    default:
        return run(std::integral_constant<Kind, Kind::hex8>());
    }
}

// Units: coordinates, moduli, and loading of any magnitude. The whole computation, repeated in other units, gives
// the same answer in these units: there is no hidden length, force, or tolerance.
struct Answer {
    D2 disp, react;
    D4 eps;
    double energy;
};

PROP(units, 200, 2000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        constexpr size_t td = K == Kind::quad4 ? 2 : 3;
        c.label(name(K));
        bool periodic = K != Kind::axisym && c.rare(3);
        auto d = domain(c, K, periodic);
        size_t nmat = c.in(1, 2);
        std::vector<Stiffness> mat;
        for (size_t i = 0; i < nmat; ++i) {
            mat.push_back(stiffness(c, td, K == Kind::axisym));
        }
        double thick = K == Kind::planar && c.flip() ? c.real(0.2, 4.0) : 1.0;
        I2 dofs = numbers(c, d);
        auto unit = [&]() { return std::ldexp(1.0, static_cast<int>(c.in(0, 80)) - 40); };
        double L = unit(), E = unit(), a = unit();
        c.desc << "length " << L << " modulus " << E << " amplitude " << a << " ";

        std::vector<size_t> p;
        D2 load = field<2>(c, {d.nnode, d.nd});
        D2 strain = field<2>(c, {d.nd, d.nd});
        bool lu = c.flip();
        size_t nfree = 0;
        if (!periodic) {
            for (size_t n = 0; n < d.nnode; ++n) {
                for (size_t i = 0; i < d.nd; ++i) {
                    if (d.boundary[n]) {
                        p.push_back(dofs(n, i));
                    }
                    else {
                        ++nfree;
                    }
                }
            }
            if (nfree == 0) {
                throw pbt::Discard();
            }
        }
        size_t dim = K == Kind::quad4 || K == Kind::planar ? 2 : 3; // volume ~ length ^ dim

        auto run = [&](double l, double e, double s) {
            Answer r;
            D3 xe = coordinates(d) * l;
            D2 x = d.x * l;
            auto quad = Quad<K>::make(xe, Scheme(), thick);
            D6 C = tangent(mat, d.nelem, quad.nip()) * e;
            D3 Ke = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
            if (periodic) {
                GooseFEM::Tyings::Control control(x, dofs);
                I2 cd = control.controlDofs();
                std::vector<size_t> q(cd.begin(), cd.end());
                for (size_t i = 0; i < d.nd; ++i) {
                    q.push_back(dofs(d.origin, i));
                }
                GooseFEM::Tyings::Periodic tyings(control.coor(), control.dofs(), cd, d.ties, vec(q));
                if (tyings.nnu() == 0) {
                    throw pbt::Discard();
                }
                GooseFEM::VectorPartitionedTyings V(d.conn, tyings.dofs(), tyings.Cdu(), tyings.Cdp(), tyings.Cdi());
                GooseFEM::MatrixPartitionedTyings A(d.conn, tyings.dofs(), tyings.Cdu(), tyings.Cdp());
                A.assemble(Ke);
                D2 u = xt::zeros<double>(control.coor().shape()), f = u;
                for (size_t n = 0; n < d.nnode; ++n) {
                    for (size_t i = 0; i < d.nd; ++i) {
                        f(n, i) = load(n, i) * e * s * std::pow(l, static_cast<double>(dim - 1));
                    }
                }
                for (size_t i = 0; i < d.nd; ++i) {
                    for (size_t j = 0; j < d.nd; ++j) {
                        u(control.controlNodes()(i), j) = strain(i, j) * s;
                    }
                }
                GooseFEM::MatrixPartitionedTyingsSolver<> solver;
                D2 w = solver.Solve(A, f, u);
                r.eps = quad.SymGradN_vector(V.AsElement(w));
                D4 sig = stress(C, r.eps);
                r.disp = xt::view(w, xt::range(size_t(0), d.nnode), xt::all());
                r.react = V.AssembleNode(quad.Int_gradN_dot_tensor2_dV(sig));
                r.react = D2(xt::view(r.react, xt::range(size_t(0), d.nnode), xt::all()));
                r.energy = work(sig, r.eps, quad.dV());
                return r;
            }
            GooseFEM::VectorPartitioned V(d.conn, dofs, vec(p));
            GooseFEM::MatrixPartitioned A(d.conn, dofs, vec(p));
            A.assemble(Ke);
            D2 u = load * (l * s), f = load * (e * s * std::pow(l, static_cast<double>(dim - 1)));
            using S = Eigen::SparseMatrix<double>;
            if (lu) {
                GooseFEM::MatrixPartitionedSolver<Eigen::SparseLU<S>> solver;
                r.disp = solver.Solve(A, f, u);
            }
            else {
                GooseFEM::MatrixPartitionedSolver<> solver;
                r.disp = solver.Solve(A, f, u);
            }
            r.eps = quad.SymGradN_vector(V.AsElement(r.disp));
            r.react = A.Reaction(r.disp, f);
            r.energy = work(stress(C, r.eps), r.eps, quad.dV());
            return r;
        };
        auto r = run(1.0, 1.0, 1.0);
        auto t = run(L, E, a);
        c.nontrivial(nfree > d.nd || periodic);
        c.label(periodic, "periodic");
        auto scaled = [&](const auto& b, const auto& o, double f) {
            double m = maxabs(o);
            for (size_t i = 0; i < o.size(); ++i) {
                if (!(std::abs(b.flat(i) / f - o.flat(i)) <= 1e-8 * m)) {
                    return false;
                }
            }
            return b.size() == o.size();
        };
        double fr = E * a * std::pow(L, static_cast<double>(dim - 1));
        REQUIRE(c, scaled(t.disp, r.disp, L * a), "displacement");
        REQUIRE(c, scaled(t.eps, r.eps, a), "strain");
        REQUIRE(c, scaled(t.react, r.react, fr), "reaction");
        REQUIRE(c, close(t.energy / (fr * a * L), r.energy, 0, 1e-8), "energy");
    });
}

PBT_MAIN("C26")
