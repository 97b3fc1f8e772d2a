// C01 (default): volumes and positions; C02 (-DCHECK_GRAD): gradients; C03 (-DCHECK_INT): integrals.
#include "element.hpp"
using namespace gen;

// equal up to the order of summation
template <class A, class B>
bool eqf(const A& a, const B& b)
{
    return same(a, b, maxabs(b), 1e-12);
}

// Elements + quadrature, possibly obtained through a history of coordinates, copies and assignments.
template <Kind K>
struct Setup {
    using Q = typename Quad<K>::type;
    static constexpr size_t nd = K == Kind::hex8 ? 3 : 2;
    static constexpr size_t ne = K == Kind::hex8 ? 8 : 4;
    static constexpr size_t td = K == Kind::quad4 ? 2 : 3;
    size_t nelem, nip;
    double thick = 1.0;
    Scheme s;
    D3 x;
    Q quad;
    bool distorted = false;
    bool updated = false;
    std::vector<std::vector<Point>> ref; // [nelem, nip]
    double size; // typical element size (smallest)

    Setup(Case& c)
    {
        c.label(name(K));
        nelem = c.amount(1, 9, K == Kind::hex8 ? 70 : 140, 60);
        s = scheme(c, K);
        nip = s.w.size();
        if (K == Kind::planar && c.flip()) {
            thick = c.real(0.1, 4.0);
        }
        bool on_axis = s.kind != 2 && s.kind != 4;
        size_t history = c.in(0, 3);
        auto draw = [&](bool* d = nullptr) {
            D3 ret = elements(c, K, nelem, on_axis, d);
            double f = magnitude(c);
            for (auto& v : ret) {
                v *= f;
            }
            return ret;
        };
        x = draw(&distorted);
        c.desc << name(K) << " nelem=" << nelem << " scheme=" << s.kind << " xi=" << str(s.xi) << " w=" << str(s.w)
               << " thick=" << thick << " history=" << history << " x=" << str(x) << "; ";
        if (history == 0) {
            quad = Quad<K>::make(x, s, thick);
        }
        else {
            // other coordinates first
            D3 x0 = draw();
            auto q = Quad<K>::make(x0, s, thick);
            if (history == 1) {
                q.update_x(x);
                quad = q;
            }
            else if (history == 2) {
                quad = q;
                quad.update_x(draw());
                quad.update_x(x);
            }
            else {
                // a copy is independent of its original
                auto q2 = q;
                q2.update_x(x);
                q.update_x(draw());
                quad = q2;
                c.label("copied");
            }
            updated = true;
            c.label("coordinates updated");
        }
        c.nontrivial(distorted);
        size = 1e300;
        for (size_t e = 0; e < nelem; ++e) {
            ref.emplace_back();
            for (size_t q = 0; q < nip; ++q) {
                ref[e].emplace_back(K, x, e, &s.xi(q, 0), s.w(q), thick);
                for (size_t m = 0; m < ne; ++m) {
                    for (size_t i = 0; i < nd; ++i) {
                        size = std::min(size, 1.0 / (1e-300 + std::abs(ref[e][q].dN[m][i])));
                    }
                }
                if (!(ref[e][q].det > 0)) {
                    throw pbt::Discard();
                }
            }
        }
    }
};

template <class F>
void each(Case& c, F f)
{
    switch (c.in(0, 3)) {
    case 0:
        return f(std::integral_constant<Kind, Kind::quad4>());
    case 1:
        return f(std::integral_constant<Kind, Kind::hex8>());
    case 2:
        return f(std::integral_constant<Kind, Kind::planar>());
    default:
        return f(std::integral_constant<Kind, Kind::axisym>());
    }
}

#if !defined(CHECK_GRAD) && !defined(CHECK_INT)

PROP(volume, 1500, 15000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        REQUIRE(c, is_shape(t.quad.dV(), std::array<size_t, 2>{t.nelem, t.nip}), "");
        REQUIRE(c, t.quad.nelem() == t.nelem && t.quad.nip() == t.nip, "");
        for (size_t e = 0; e < t.nelem; ++e) {
            double tot = 0.0;
            double mag = 0.0;
            for (size_t q = 0; q < t.nip; ++q) {
                double v = t.quad.dV()(e, q);
                REQUIRE(c, close(v, t.ref[e][q].vol, 0, 1e-9), "e=" << e << " q=" << q << " " << v << " " << t.ref[e][q].vol);
                REQUIRE(c, v > 0, "e=" << e << " q=" << q << " " << v);
                tot += v;
                mag += std::abs(v);
            }
            if (t.s.kind <= 1) {
                double V = exact_volume(K, t.x, e, t.thick);
                REQUIRE(c, close(tot, V, 0, 1e-9), "e=" << e << " " << tot << " " << V);
                c.label("exact volume");
            }
            if (t.s.kind == 2 && (K == Kind::quad4 || K == Kind::planar)) {
                // the Jacobian is linear: the nodal scheme is exact too
                double V = exact_volume(K, t.x, e, t.thick);
                REQUIRE(c, close(tot, V, 0, 1e-9), "e=" << e << " " << tot << " " << V);
            }
        }
    });
}

// volumes of scaled, translated and renumbered (cyclic permutation of the local nodes) elements
PROP(volume_metamorphic, 800, 8000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        double f = c.pick({2.0, 0.5, 3.0, 1e-3});
        D3 y = t.x;
        for (auto& v : y) {
            v *= f;
        }
        double p = std::pow(f, K == Kind::quad4 || K == Kind::planar ? 2 : 3);
        auto q = t.quad;
        q.update_x(y);
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t i = 0; i < t.nip; ++i) {
                REQUIRE(c, close(q.dV()(e, i), p * t.quad.dV()(e, i), 0, 1e-9), "scale " << f);
            }
        }
        // order of the elements
        auto perm = c.perm(t.nelem);
        D3 z = t.x;
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t m = 0; m < t.ne; ++m) {
                for (size_t i = 0; i < t.nd; ++i) {
                    z(e, m, i) = t.x(perm[e], m, i);
                }
            }
        }
        auto r = Quad<K>::make(z, t.s, t.thick);
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t i = 0; i < t.nip; ++i) {
                REQUIRE(c, close(r.dV()(e, i), t.quad.dV()(perm[e], i), 0, 1e-12), "order of the elements");
            }
        }
    });
}

PROP(interpolation, 1000, 10000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        const auto& q = t.quad;
        D3 pos = K == Kind::planar ? q.InterpQuad_vector(t.x) : q.InterpQuad_vector(t.x);
        REQUIRE(c, is_shape(pos, std::array<size_t, 3>{t.nelem, t.nip, t.nd}), "");
        D3 one = xt::ones<double>({t.nelem, t.ne, t.nd});
        D3 u1 = q.InterpQuad_vector(one);
        D3 u = anyfield<3>(c, {t.nelem, t.ne, t.nd});
        D3 ui = q.InterpQuad_vector(u);
        D3 uj = junk<3>({t.nelem, t.nip, t.nd});
        q.interpQuad_vector(u, uj);
        REQUIRE(c, eqf(ui, uj), "in-place");
        double sx = maxabs(t.x);
        double su = maxabs(u);
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t p = 0; p < t.nip; ++p) {
                for (size_t i = 0; i < t.nd; ++i) {
                    double ref = 0.0;
                    double lo = t.x(e, 0, i), hi = lo;
                    for (size_t m = 0; m < t.ne; ++m) {
                        ref += t.ref[e][p].N[m] * u(e, m, i);
                        lo = std::min(lo, t.x(e, m, i));
                        hi = std::max(hi, t.x(e, m, i));
                    }
                    REQUIRE(c, close(pos(e, p, i), t.ref[e][p].pos[i], sx, 1e-12), "position e=" << e << " q=" << p << " i=" << i);
                    REQUIRE(c, pos(e, p, i) >= lo - 1e-12 * sx && pos(e, p, i) <= hi + 1e-12 * sx, "outside the element");
                    REQUIRE(c, close(u1(e, p, i), 1.0, 0, 1e-12), "partition of unity");
                    REQUIRE(c, close(ui(e, p, i), ref, su, 1e-12), "field e=" << e << " q=" << p << " i=" << i);
                    if (t.s.kind == 2) {
                        REQUIRE(c, close(ui(e, p, i), u(e, p, i), su, 1e-12), "nodal scheme: point q coincides with node q");
                    }
                }
            }
        }
        if (K != Kind::quad4) {
            // any number of components
            size_t n = c.in(1, 4);
            D3 v = anyfield<3>(c, {t.nelem, t.ne, n});
            if constexpr (K != Kind::quad4) {
                D3 vi = q.InterpQuad_vector(v);
                REQUIRE(c, is_shape(vi, std::array<size_t, 3>{t.nelem, t.nip, n}), "");
                for (size_t e = 0; e < t.nelem; ++e) {
                    for (size_t p = 0; p < t.nip; ++p) {
                        for (size_t i = 0; i < n; ++i) {
                            double ref = 0.0;
                            for (size_t m = 0; m < t.ne; ++m) {
                                ref += t.ref[e][p].N[m] * v(e, m, i);
                            }
                            REQUIRE(c, close(vi(e, p, i), ref, maxabs(v), 1e-12), "e=" << e << " q=" << p << " i=" << i);
                        }
                    }
                }
            }
        }
    });
}

// The same after any history of updates as a newly constructed quadrature: bit by bit.
PROP(history, 1000, 10000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        auto f = Quad<K>::make(t.x, t.s, t.thick);
        REQUIRE(c, eqf(f.dV(), t.quad.dV()), "dV");
        D3 u = anyfield<3>(c, {t.nelem, t.ne, t.nd});
        REQUIRE(c, eqf(f.InterpQuad_vector(u), t.quad.InterpQuad_vector(u)), "interpolation");
        REQUIRE(c, eqf(f.GradN_vector(u), t.quad.GradN_vector(u)), "gradient");
        if constexpr (K == Kind::axisym) {
            REQUIRE(c, eqf(f.B(), t.quad.B()), "B");
        }
        else {
            REQUIRE(c, eqf(f.GradN(), t.quad.GradN()), "GradN");
        }
        c.nontrivial(t.updated);
        // update with the same coordinates: nothing changes
        auto g = t.quad;
        g.update_x(t.x);
        REQUIRE(c, eqf(g.dV(), f.dV()), "dV, same coordinates");
        REQUIRE(c, eqf(g.GradN_vector(u), f.GradN_vector(u)), "gradient, same coordinates");
    });
}

// The built-in schemes integrate polynomials exactly: up to degree 3 (Gauss) or 1 (Nodal) per direction.
PROP(tables, 300, 3000)
{
    namespace Q = GooseFEM::Element::Quad4;
    namespace H = GooseFEM::Element::Hex8;
    size_t nd = c.in(2, 3);
    size_t which = c.in(0, 1);
    D2 xi = which == 0 ? (nd == 2 ? Q::Gauss::xi() : H::Gauss::xi()) : (nd == 2 ? Q::Nodal::xi() : H::Nodal::xi());
    D1 w = which == 0 ? (nd == 2 ? Q::Gauss::w() : H::Gauss::w()) : (nd == 2 ? Q::Nodal::w() : H::Nodal::w());
    size_t nip = which == 0 ? (nd == 2 ? Q::Gauss::nip() : H::Gauss::nip()) : (nd == 2 ? Q::Nodal::nip() : H::Nodal::nip());
    size_t deg = which == 0 ? 3 : 1;
    REQUIRE(c, is_shape(xi, std::array<size_t, 2>{nip, nd}), "");
    REQUIRE(c, is_shape(w, std::array<size_t, 1>{nip}), "");
    size_t p[3];
    double exact = 1.0;
    for (size_t i = 0; i < nd; ++i) {
        p[i] = c.in(0, deg);
        exact *= p[i] % 2 ? 0.0 : 2.0 / static_cast<double>(p[i] + 1);
    }
    double num = 0.0;
    for (size_t q = 0; q < nip; ++q) {
        double v = w(q);
        for (size_t i = 0; i < nd; ++i) {
            v *= std::pow(xi(q, i), static_cast<double>(p[i]));
            // point q is in the quadrant/octant of node q
            REQUIRE(c, xi(q, i) * corner(q, i) > 0, "order of the points q=" << q << " i=" << i);
        }
        num += v;
    }
    c.desc << "ndim=" << nd << " scheme=" << which << " powers=" << p[0] << "," << p[1];
    c.nontrivial();
    REQUIRE(c, close(num, exact, 1.0, 1e-12), num << " " << exact);
    REQUIRE(c, Q::MidPoint::nip() == 1 && Q::MidPoint::xi()(0, 0) == 0 && Q::MidPoint::xi()(0, 1) == 0, "MidPoint");
}

PBT_MAIN("C01")

#elif defined(CHECK_GRAD)

// arbitrary nodal vectors: the gradient of the interpolated field
PROP(gradient, 1500, 15000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        const auto& q = t.quad;
        D3 u = anyfield<3>(c, {t.nelem, t.ne, t.nd});
        D4 g = q.GradN_vector(u);
        D4 gt = q.GradN_vector_T(u);
        D4 gs = q.SymGradN_vector(u);
        std::array<size_t, 4> shape{t.nelem, t.nip, t.td, t.td};
        REQUIRE(c, is_shape(g, shape) && is_shape(gt, shape) && is_shape(gs, shape), "");
        D4 a = junk<4>(shape), b = junk<4>(shape), d = junk<4>(shape);
        q.gradN_vector(u, a);
        q.gradN_vector_T(u, b);
        q.symGradN_vector(u, d);
        REQUIRE(c, eqf(a, g), "in-place gradient");
        REQUIRE(c, eqf(b, gt), "in-place transposed gradient");
        REQUIRE(c, eqf(d, gs), "in-place symmetric gradient");
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t p = 0; p < t.nip; ++p) {
                const auto& r = t.ref[e][p];
                for (size_t i = 0; i < t.td; ++i) {
                    for (size_t j = 0; j < t.td; ++j) {
                        double v = 0.0, w = 0.0, mag = 0.0;
                        for (size_t m = 0; m < t.ne; ++m) {
                            for (size_t n = 0; n < t.nd; ++n) {
                                v += r.B[m][i][j][n] * u(e, m, n);
                                w += r.B[m][j][i][n] * u(e, m, n);
                                mag += (r.mB[i][j][n] + r.mB[j][i][n]) * std::abs(u(e, m, n));
                            }
                        }
                        REQUIRE(c, close(g(e, p, i, j), v, mag), "gradient e=" << e << " q=" << p << " i=" << i << " j=" << j << " " << g(e, p, i, j) << " " << v);
                        REQUIRE(c, close(gt(e, p, j, i), v, mag), "transposed e=" << e << " q=" << p << " i=" << i << " j=" << j << " " << gt(e, p, j, i) << " " << v);
                        REQUIRE(c, close(gs(e, p, i, j), 0.5 * (v + w), mag), "symmetric e=" << e << " q=" << p << " i=" << i << " j=" << j);
                    }
                }
            }
        }
    });
}

// the shape function gradients that are exposed
PROP(shape_functions, 800, 8000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t p = 0; p < t.nip; ++p) {
                const auto& r = t.ref[e][p];
                double mag = 0.0;
                for (size_t m = 0; m < t.ne; ++m) {
                    for (size_t i = 0; i < t.nd; ++i) {
                        mag = std::max(mag, std::abs(r.dN[m][i]));
                    }
                }
                if constexpr (K == Kind::axisym) {
                    // components (r, theta, z), also for the last index
                    static const size_t comp[3] = {1, 9, 0};
                    for (size_t m = 0; m < t.ne; ++m) {
                        for (size_t i = 0; i < 3; ++i) {
                            for (size_t j = 0; j < 3; ++j) {
                                for (size_t n = 0; n < 3; ++n) {
                                    double v = comp[n] == 9 ? 0.0 : r.B[m][i][j][comp[n]];
                                    REQUIRE(c, close(t.quad.B()(e, p, m, i, j, n), v, mag), "B e=" << e << " q=" << p << " m=" << m << i << j << n);
                                }
                            }
                        }
                    }
                }
                else {
                    for (size_t i = 0; i < t.nd; ++i) {
                        double sum = 0.0;
                        for (size_t m = 0; m < t.ne; ++m) {
                            REQUIRE(c, close(t.quad.GradN()(e, p, m, i), r.dN[m][i], mag), "e=" << e << " q=" << p << " m=" << m << " i=" << i << " " << t.quad.GradN()(e, p, m, i) << " " << r.dN[m][i]);
                            sum += t.quad.GradN()(e, p, m, i);
                        }
                        REQUIRE(c, close(sum, 0, mag), "a constant field has no gradient");
                    }
                }
            }
        }
    });
}

// patch test: a field that is linear in the coordinates
PROP(patch, 1000, 10000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        D2 F = anyfield<2>(c, {t.nd, t.nd}); // du_j / dx_i
        D1 u0 = field<1>(c, {t.nd}, maxabs(t.x) * maxabs(F));
        D3 u = xt::zeros<double>({t.nelem, t.ne, t.nd});
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t m = 0; m < t.ne; ++m) {
                for (size_t j = 0; j < t.nd; ++j) {
                    u(e, m, j) = u0(j);
                    for (size_t i = 0; i < t.nd; ++i) {
                        u(e, m, j) += F(i, j) * t.x(e, m, i);
                    }
                }
            }
        }
        D4 g = t.quad.GradN_vector(u);
        D4 gt = t.quad.GradN_vector_T(u);
        D4 gs = t.quad.SymGradN_vector(u);
        double mag = maxabs(u) / t.size + maxabs(F);
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t p = 0; p < t.nip; ++p) {
                double G[3][3] = {};
                if (K == Kind::axisym) {
                    double r = t.ref[e][p].pos[1];
                    double z = t.ref[e][p].pos[0];
                    G[0][0] = F(1, 1);
                    G[2][2] = F(0, 0);
                    G[0][2] = F(1, 0);
                    G[2][0] = F(0, 1);
                    G[1][1] = (u0(1) + F(0, 1) * z + F(1, 1) * r) / r;
                }
                else {
                    for (size_t i = 0; i < t.nd; ++i) {
                        for (size_t j = 0; j < t.nd; ++j) {
                            G[i][j] = F(i, j);
                        }
                    }
                }
                double s = mag + std::abs(G[1][1]);
                for (size_t i = 0; i < t.td; ++i) {
                    for (size_t j = 0; j < t.td; ++j) {
                        REQUIRE(c, close(g(e, p, i, j), G[i][j], s), "gradient e=" << e << " q=" << p << " i=" << i << " j=" << j << " " << g(e, p, i, j) << " " << G[i][j]);
                        REQUIRE(c, close(gt(e, p, i, j), G[j][i], s), "transposed e=" << e << " q=" << p << " i=" << i << " j=" << j);
                        REQUIRE(c, close(gs(e, p, i, j), 0.5 * (G[i][j] + G[j][i]), s), "symmetric e=" << e << " q=" << p << " i=" << i << " j=" << j);
                    }
                }
            }
        }
    });
}

PBT_MAIN("C02")

#else

PROP(mass, 800, 8000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        D2 rho = anyfield<2>(c, {t.nelem, t.nip});
        size_t n = t.ne * t.nd;
        D3 M = t.quad.Int_N_scalar_NT_dV(rho);
        REQUIRE(c, is_shape(M, std::array<size_t, 3>{t.nelem, n, n}), "");
        D3 M2 = junk<3>({t.nelem, n, n});
        t.quad.int_N_scalar_NT_dV(rho, M2);
        REQUIRE(c, eqf(M, M2), "in-place");
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t a = 0; a < n; ++a) {
                for (size_t b = 0; b < n; ++b) {
                    double v = 0.0, mag = 0.0;
                    if (a % t.nd == b % t.nd) {
                        for (size_t q = 0; q < t.nip; ++q) {
                            const auto& r = t.ref[e][q];
                            double d = r.N[a / t.nd] * rho(e, q) * r.N[b / t.nd] * r.vol;
                            v += d;
                            mag += std::abs(d);
                        }
                    }
                    REQUIRE(c, close(M(e, a, b), v, mag), "e=" << e << " a=" << a << " b=" << b << " " << M(e, a, b) << " " << v);
                }
            }
        }
    });
}

PROP(vector, 800, 8000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        size_t n = c.flip() ? t.nd : c.in(1, 4);
        D3 f = anyfield<3>(c, {t.nelem, t.nip, n});
        D3 F = t.quad.Int_N_vector_dV(f);
        REQUIRE(c, is_shape(F, std::array<size_t, 3>{t.nelem, t.ne, n}), "");
        D3 F2 = junk<3>({t.nelem, t.ne, n});
        t.quad.int_N_vector_dV(f, F2);
        REQUIRE(c, eqf(F, F2), "in-place");
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t m = 0; m < t.ne; ++m) {
                for (size_t i = 0; i < n; ++i) {
                    double v = 0.0, mag = 0.0;
                    for (size_t q = 0; q < t.nip; ++q) {
                        const auto& r = t.ref[e][q];
                        double d = r.N[m] * f(e, q, i) * r.vol;
                        v += d;
                        mag += std::abs(d);
                    }
                    REQUIRE(c, close(F(e, m, i), v, mag), "e=" << e << " m=" << m << " i=" << i << " " << F(e, m, i) << " " << v);
                }
            }
        }
    });
}

PROP(force, 1000, 10000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        D4 sig = anyfield<4>(c, {t.nelem, t.nip, t.td, t.td});
        D3 u = anyfield<3>(c, {t.nelem, t.ne, t.nd});
        D3 f = t.quad.Int_gradN_dot_tensor2_dV(sig);
        REQUIRE(c, is_shape(f, std::array<size_t, 3>{t.nelem, t.ne, t.nd}), "");
        D3 f2 = junk<3>({t.nelem, t.ne, t.nd});
        t.quad.int_gradN_dot_tensor2_dV(sig, f2);
        REQUIRE(c, eqf(f, f2), "in-place");
        D4 gu = t.quad.GradN_vector(u);
        for (size_t e = 0; e < t.nelem; ++e) {
            double sum[3] = {};
            double work = 0.0, ref_work = 0.0, all = 0.0, all_work = 0.0;
            for (size_t m = 0; m < t.ne; ++m) {
                for (size_t n = 0; n < t.nd; ++n) {
                    double v = 0.0, mag = 0.0;
                    for (size_t q = 0; q < t.nip; ++q) {
                        const auto& r = t.ref[e][q];
                        for (size_t i = 0; i < t.td; ++i) {
                            for (size_t j = 0; j < t.td; ++j) {
                                v += r.B[m][i][j][n] * sig(e, q, i, j) * r.vol;
                                mag += std::abs(r.mB[i][j][n] * sig(e, q, i, j) * r.vol);
                            }
                        }
                    }
                    REQUIRE(c, close(f(e, m, n), v, mag), "e=" << e << " m=" << m << " i=" << n << " " << f(e, m, n) << " " << v);
                    sum[n] += f(e, m, n);
                    all += mag;
                    all_work += mag * std::abs(u(e, m, n));
                    work += f(e, m, n) * u(e, m, n);
                }
            }
            // self-equilibrium: exact, as the gradient of a translation vanishes (axisymmetric: only along the axis)
            for (size_t n = 0; n < (K == Kind::axisym ? 1 : t.nd); ++n) {
                REQUIRE(c, close(sum[n], 0.0, all), "equilibrium e=" << e << " i=" << n << " " << sum[n]);
            }
            // virtual work
            for (size_t q = 0; q < t.nip; ++q) {
                for (size_t i = 0; i < t.td; ++i) {
                    for (size_t j = 0; j < t.td; ++j) {
                        double d = sig(e, q, i, j) * gu(e, q, i, j) * t.quad.dV()(e, q);
                        ref_work += d;
                        all_work += std::abs(d);
                    }
                }
            }
            REQUIRE(c, close(work, ref_work, all_work), "virtual work e=" << e << " " << work << " " << ref_work);
        }
    });
}

PROP(stiffness, 500, 5000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        D6 C = anyfield<6>(c, {t.nelem, t.nip, t.td, t.td, t.td, t.td});
        size_t n = t.ne * t.nd;
        D3 A = t.quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
        REQUIRE(c, is_shape(A, std::array<size_t, 3>{t.nelem, n, n}), "");
        D3 A2 = junk<3>({t.nelem, n, n});
        t.quad.int_gradN_dot_tensor4_dot_gradNT_dV(C, A2);
        REQUIRE(c, eqf(A, A2), "in-place");
        for (size_t e = 0; e < t.nelem; ++e) {
            // T[m,j',k,l] = sum_ij B[m][i][j][j'] C_ijkl, then contract
            std::vector<double> K_(n * n, 0.0), mag(n * n, 0.0);
            for (size_t q = 0; q < t.nip; ++q) {
                const auto& r = t.ref[e][q];
                for (size_t a = 0; a < n; ++a) {
                    double T[3][3] = {}, S[3][3] = {};
                    for (size_t i = 0; i < t.td; ++i) {
                        for (size_t j = 0; j < t.td; ++j) {
                            double b = r.B[a / t.nd][i][j][a % t.nd];
                            double mb = r.mB[i][j][a % t.nd];
                            if (mb != 0.0) {
                                for (size_t kk = 0; kk < t.td; ++kk) {
                                    for (size_t l = 0; l < t.td; ++l) {
                                        T[kk][l] += b * C(e, q, i, j, kk, l);
                                        S[kk][l] += mb * std::abs(C(e, q, i, j, kk, l));
                                    }
                                }
                            }
                        }
                    }
                    for (size_t b = 0; b < n; ++b) {
                        for (size_t kk = 0; kk < t.td; ++kk) {
                            for (size_t l = 0; l < t.td; ++l) {
                                K_[a * n + b] += T[kk][l] * r.B[b / t.nd][l][kk][b % t.nd] * r.vol;
                                mag[a * n + b] += std::abs(S[kk][l] * r.mB[l][kk][b % t.nd] * r.vol);
                            }
                        }
                    }
                }
            }
            double sum = 0.0;
            for (size_t a = 0; a < n; ++a) {
                for (size_t b = 0; b < n; ++b) {
                    REQUIRE(c, close(A(e, a, b), K_[a * n + b], mag[a * n + b]), "e=" << e << " a=" << a << " b=" << b << " " << A(e, a, b) << " " << K_[a * n + b]);
                }
            }
            (void)sum;
        }
    });
}

// stiffness times displacement is the force of the stress that follows from the gradient: sig_ij = C_ijkl gradu_lk
PROP(consistency, 500, 5000)
{
    each(c, [&](auto k) {
        constexpr Kind K = decltype(k)::value;
        Setup<K> t(c);
        D6 C = anyfield<6>(c, {t.nelem, t.nip, t.td, t.td, t.td, t.td});
        D3 u = anyfield<3>(c, {t.nelem, t.ne, t.nd});
        D4 gu = t.quad.GradN_vector(u);
        D4 sig = xt::zeros<double>({t.nelem, t.nip, t.td, t.td});
        D4 mags = sig;
        for (size_t e = 0; e < t.nelem; ++e) {
            for (size_t q = 0; q < t.nip; ++q) {
                for (size_t i = 0; i < t.td; ++i) {
                    for (size_t j = 0; j < t.td; ++j) {
                        for (size_t a = 0; a < t.td; ++a) {
                            for (size_t l = 0; l < t.td; ++l) {
                                sig(e, q, i, j) += C(e, q, i, j, a, l) * gu(e, q, l, a);
                            }
                        }
                    }
                }
            }
        }
        D3 f = t.quad.Int_gradN_dot_tensor2_dV(sig);
        D3 A = t.quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
        for (size_t e = 0; e < t.nelem; ++e) {
            double mag = 0.0;
            for (size_t q = 0; q < t.nip; ++q) {
                double g = 0.0, s = 0.0;
                for (size_t m = 0; m < t.ne; ++m) {
                    for (size_t i = 0; i < 27; ++i) {
                        g = std::max(g, std::abs((&t.ref[e][q].B[m][0][0][0])[i]));
                    }
                    for (size_t i = 0; i < t.nd; ++i) {
                        s = std::max(s, std::abs(u(e, m, i)));
                    }
                }
                mag += g * g * s * maxabs(C) * t.ref[e][q].vol * 81;
            }
            for (size_t a = 0; a < t.ne * t.nd; ++a) {
                double v = 0.0;
                for (size_t b = 0; b < t.ne * t.nd; ++b) {
                    v += A(e, a, b) * u(e, b / t.nd, b % t.nd);
                }
                REQUIRE(c, close(f(e, a / t.nd, a % t.nd), v, mag), "e=" << e << " a=" << a << " " << f(e, a / t.nd, a % t.nd) << " " << v);
            }
        }
    });
}

PBT_MAIN("C03")

#endif
