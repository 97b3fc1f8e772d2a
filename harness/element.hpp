// Elements of arbitrary shape, and an independent reference of everything that is evaluated at the
// integration points (shape functions from a table of corner signs, own matrix inverse).
#pragma once
#include "fem.hpp"

namespace gen {

enum class Kind { quad4, planar, axisym, hex8 };

inline const char* name(Kind k)
{
    switch (k) {
    case Kind::quad4:
        return "Quad4";
    case Kind::planar:
        return "Quad4Planar";
    case Kind::axisym:
        return "Quad4Axisymmetric";
    default:
        return "Hex8";
    }
}

inline size_t dim(Kind k)
{
    return k == Kind::hex8 ? 3 : 2;
}
inline size_t nne(Kind k)
{
    return k == Kind::hex8 ? 8 : 4;
}
inline size_t tdim(Kind k)
{
    return k == Kind::quad4 ? 2 : 3;
}

// position of node "m" in the bi-unit square/cube, in the order of the documentation
inline double corner(size_t m, size_t i)
{
    static const int s[8][3] = {
        {-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
    return s[m][i];
}

// shape function "m" at the local position "xi"
inline double shapefunc(size_t m, const double* xi, size_t nd)
{
    double r = 1.0;
    for (size_t i = 0; i < nd; ++i) {
        r *= 0.5 * (1.0 + corner(m, i) * xi[i]);
    }
    return r;
}

inline double dshapefunc(size_t m, size_t j, const double* xi, size_t nd)
{
    double r = 0.5 * corner(m, j);
    for (size_t i = 0; i < nd; ++i) {
        if (i != j) {
            r *= 0.5 * (1.0 + corner(m, i) * xi[i]);
        }
    }
    return r;
}

// inverse by Gauss-Jordan elimination with pivoting, returns determinant
inline double inverse(double A[3][3], double B[3][3], size_t n)
{
    double a[3][6];
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            a[i][j] = A[i][j];
            a[i][n + j] = i == j ? 1.0 : 0.0;
        }
    }
    double det = 1.0;
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        for (size_t i = k + 1; i < n; ++i) {
            if (std::abs(a[i][k]) > std::abs(a[p][k])) {
                p = i;
            }
        }
        if (p != k) {
            det = -det;
            for (size_t j = 0; j < 2 * n; ++j) {
                std::swap(a[p][j], a[k][j]);
            }
        }
        det *= a[k][k];
        double d = a[k][k];
        for (size_t j = 0; j < 2 * n; ++j) {
            a[k][j] /= d;
        }
        for (size_t i = 0; i < n; ++i) {
            if (i != k) {
                double f = a[i][k];
                for (size_t j = 0; j < 2 * n; ++j) {
                    a[i][j] -= f * a[k][j];
                }
            }
        }
    }
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            B[i][j] = a[i][n + j];
        }
    }
    return det;
}

// Coordinates per element: [nelem, nne, ndim]: arbitrary affine map of the unit square/cube, plus a
// perturbation of the nodes that is small enough to keep the Jacobian positive.
inline D3 elements(Case& c, Kind kind, size_t nelem, bool on_axis = false, bool* distorted = nullptr)
{
    const double pi = 3.14159265358979323846;
    size_t nd = dim(kind);
    size_t ne = nne(kind);
    D3 x = xt::zeros<double>({nelem, ne, nd});
    for (size_t e = 0; e < nelem; ++e) {
        size_t shape = c.in(0, 4); // 0: unit, 1: scaled, 2: rotated, 3: affine, 4: general
        double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        auto rotate = [&](size_t i, size_t j, double t) {
            double R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
            R[i][i] = std::cos(t);
            R[i][j] = -std::sin(t);
            R[j][i] = std::sin(t);
            R[j][j] = std::cos(t);
            double B[3][3] = {};
            for (size_t a = 0; a < 3; ++a) {
                for (size_t b = 0; b < 3; ++b) {
                    for (size_t k = 0; k < 3; ++k) {
                        B[a][b] += R[a][k] * A[k][b];
                    }
                }
            }
            std::copy(&B[0][0], &B[0][0] + 9, &A[0][0]);
        };
        auto turn = [&]() {
            rotate(0, 1, c.real(0, 2 * pi));
            if (nd == 3) {
                rotate(1, 2, c.real(0, 2 * pi));
                rotate(0, 2, c.real(0, 2 * pi));
            }
        };
        if (shape >= 3) {
            turn();
        }
        if (shape >= 1) {
            for (size_t i = 0; i < nd; ++i) {
                double s = std::pow(10.0, c.real(0, 1.2) - (c.flip() ? 1.2 : 0.0));
                for (size_t j = 0; j < 3; ++j) {
                    A[i][j] *= s;
                }
            }
        }
        if (shape >= 2) {
            turn();
        }
        double eps = shape == 4 ? c.real(0.15, 0.0) : 0.0;
        auto s = c.stream();
        for (size_t m = 0; m < ne; ++m) {
            double X[3] = {};
            for (size_t i = 0; i < nd; ++i) {
                X[i] = 0.5 * corner(m, i) + eps * std::max(-1.0, std::min(1.0, s()));
            }
            for (size_t i = 0; i < nd; ++i) {
                for (size_t j = 0; j < nd; ++j) {
                    x(e, m, i) += A[i][j] * X[j];
                }
            }
        }
        double shift[3];
        for (size_t i = 0; i < nd; ++i) {
            shift[i] = shape == 0 ? 0.5 : c.real(0, 10);
        }
        if (kind == Kind::axisym) {
            double lo = x(e, 0, 1);
            for (size_t m = 0; m < ne; ++m) {
                lo = std::min(lo, x(e, m, 1));
            }
            shift[1] = -lo + (on_axis && c.in(0, 3) == 3 ? 0.0 : 0.1 + shift[1]);
        }
        for (size_t m = 0; m < ne; ++m) {
            for (size_t i = 0; i < nd; ++i) {
                x(e, m, i) += shift[i];
            }
        }
        c.label("shape " + std::to_string(shape));
        if (distorted && shape >= 2) {
            *distorted = true;
        }
        if (e > 0 && c.rare(8)) { // almost the same as the previous element
            size_t how = c.in(0, 3);
            c.label("similar element");
            for (size_t m = 0; m < ne; ++m) {
                size_t o = how == 1 ? (m / 4) * 4 + (m + 1) % 4 : m; // other first node
                for (size_t i = 0; i < nd; ++i) {
                    x(e, m, i) = x(e - 1, o, i);
                }
            }
            if (how == 2) { // translated
                size_t i = c.in(0, nd - 1);
                double t = c.real(0.1, 5.0);
                for (size_t m = 0; m < ne; ++m) {
                    x(e, m, i) += t;
                }
            }
            if (how == 3) { // one node is closer to the centre
                size_t m = c.in(0, ne - 1), i = c.in(0, nd - 1);
                double mid = 0.0;
                for (size_t k = 0; k < ne; ++k) {
                    mid += x(e, k, i) / static_cast<double>(ne);
                }
                x(e, m, i) += 0.1 * (mid - x(e, m, i));
            }
        }
    }
    return x;
}

// Exact volume of one element
inline double exact_volume(Kind kind, const D3& x, size_t e, double thick)
{
    const double pi = 3.14159265358979323846;
    if (kind == Kind::hex8) {
        // divergence theorem; a bilinear face is the average of both its triangulations
        static const size_t f[6][4] = {
            {0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
        double ret = 0.0;
        auto tet = [&](size_t a, size_t b, size_t d) {
            double v[3][3];
            size_t n[3] = {a, b, d};
            for (size_t i = 0; i < 3; ++i) {
                for (size_t j = 0; j < 3; ++j) {
                    v[i][j] = x(e, n[i], j) - x(e, 0, j);
                }
            }
            return (v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[0][1] * (v[1][0] * v[2][2] - v[1][2] * v[2][0]) +
                    v[0][2] * (v[1][0] * v[2][1] - v[1][1] * v[2][0])) /
                   6.0;
        };
        for (auto& i : f) {
            ret += 0.5 * (tet(i[0], i[1], i[2]) + tet(i[0], i[2], i[3]) + tet(i[0], i[1], i[3]) + tet(i[1], i[2], i[3]));
        }
        return ret;
    }
    double ret = 0.0;
    static const size_t t[2][3] = {{0, 1, 2}, {0, 2, 3}};
    for (auto& n : t) {
        double area = 0.5 * ((x(e, n[1], 0) - x(e, n[0], 0)) * (x(e, n[2], 1) - x(e, n[0], 1)) -
                             (x(e, n[2], 0) - x(e, n[0], 0)) * (x(e, n[1], 1) - x(e, n[0], 1)));
        if (kind == Kind::axisym) {
            area *= 2.0 * pi * (x(e, n[0], 1) + x(e, n[1], 1) + x(e, n[2], 1)) / 3.0; // Pappus
        }
        ret += area;
    }
    return kind == Kind::planar ? ret * thick : ret;
}

// Reference of all that is evaluated at one integration point.
struct Point {
    double N[8];
    double dN[8][3]; // global gradient
    double B[8][3][3][3]; // gradu(i, j) = B[m][i][j][k] u[m][k]
    double mB[3][3][3]; // magnitude of the terms of B (of any node): an entry can vanish up to round-off
    double det, vol, r = 0.0;
    double pos[3] = {};

    Point(Kind kind, const D3& x, size_t e, const double* xi, double w, double thick)
    {
        const double pi = 3.14159265358979323846;
        size_t nd = dim(kind);
        size_t ne = nne(kind);
        double J[3][3] = {}; // dx_i / dxi_j
        double inv[3][3] = {}; // dxi_i / dx_j
        for (size_t m = 0; m < ne; ++m) {
            N[m] = shapefunc(m, xi, nd);
            for (size_t i = 0; i < nd; ++i) {
                pos[i] += N[m] * x(e, m, i);
                for (size_t j = 0; j < nd; ++j) {
                    J[i][j] += x(e, m, i) * dshapefunc(m, j, xi, nd);
                }
            }
        }
        det = inverse(J, inv, nd);
        for (size_t m = 0; m < ne; ++m) {
            for (size_t i = 0; i < nd; ++i) {
                dN[m][i] = 0.0;
                for (size_t j = 0; j < nd; ++j) {
                    dN[m][i] += dshapefunc(m, j, xi, nd) * inv[j][i];
                }
            }
        }
        std::fill(&B[0][0][0][0], &B[0][0][0][0] + 8 * 27, 0.0);
        vol = w * det;
        if (kind == Kind::axisym) {
            // coordinates and nodal vectors: (z, r), tensors: (r, theta, z)
            r = pos[1];
            vol *= 2.0 * pi * r;
            for (size_t m = 0; m < ne; ++m) {
                B[m][0][0][1] = dN[m][1]; // d u_r / dr
                B[m][0][2][0] = dN[m][1]; // d u_z / dr
                B[m][2][0][1] = dN[m][0]; // d u_r / dz
                B[m][2][2][0] = dN[m][0]; // d u_z / dz
                B[m][1][1][1] = N[m] / r; // u_r / r
            }
        }
        else {
            if (kind == Kind::planar) {
                vol *= thick;
            }
            for (size_t m = 0; m < ne; ++m) {
                for (size_t i = 0; i < nd; ++i) {
                    for (size_t j = 0; j < nd; ++j) {
                        B[m][i][j][j] = dN[m][i];
                    }
                }
            }
        }
        double largest = 0.0;
        for (size_t m = 0; m < ne; ++m) {
            for (size_t i = 0; i < nd; ++i) {
                largest = std::max(largest, std::abs(dN[m][i]));
            }
        }
        for (size_t i = 0; i < 3; ++i) {
            for (size_t j = 0; j < 3; ++j) {
                for (size_t n = 0; n < 3; ++n) {
                    mB[i][j][n] = 0.0;
                    for (size_t m = 0; m < ne; ++m) {
                        double b = std::abs(B[m][i][j][n]);
                        bool hoop = kind == Kind::axisym && i == 1;
                        mB[i][j][n] = std::max(mB[i][j][n], b != 0.0 && !hoop ? largest : b);
                    }
                }
            }
        }
    }
};

// Integration scheme: built-in, or custom points and weights
struct Scheme {
    size_t kind = 0; // 0: default constructor (Gauss), 1: Gauss, 2: Nodal, 3: MidPoint, 4: custom
    D2 xi;
    D1 w;
};

inline Scheme scheme(Case& c, Kind kind)
{
    Scheme s;
    size_t nd = dim(kind);
    s.kind = c.in(0, 4);
    if (s.kind == 3 && kind == Kind::hex8) {
        s.kind = 4;
    }
    namespace Q = GooseFEM::Element::Quad4;
    namespace H = GooseFEM::Element::Hex8;
    if (s.kind <= 1) {
        s.xi = nd == 2 ? Q::Gauss::xi() : H::Gauss::xi();
        s.w = nd == 2 ? Q::Gauss::w() : H::Gauss::w();
    }
    else if (s.kind == 2) {
        s.xi = nd == 2 ? Q::Nodal::xi() : H::Nodal::xi();
        s.w = nd == 2 ? Q::Nodal::w() : H::Nodal::w();
    }
    else if (s.kind == 3) {
        s.xi = Q::MidPoint::xi();
        s.w = Q::MidPoint::w();
    }
    else {
        size_t n = c.rare(10) ? c.in(1, 30) : c.in(1, 10);
        s.xi = field<2>(c, {n, nd});
        s.w = field<1>(c, {n});
        for (auto& v : s.xi) {
            v = std::max(-1.0, std::min(1.0, v));
        }
        for (auto& v : s.w) {
            v = 0.1 + std::abs(v);
        }
    }
    static const char* names[] = {"default", "Gauss", "Nodal", "MidPoint", "custom"};
    c.label(std::string("scheme ") + names[s.kind]);
    return s;
}

template <Kind K>
struct Quad;
template <>
struct Quad<Kind::quad4> {
    using type = GooseFEM::Element::Quad4::Quadrature;
    static type make(const D3& x, const Scheme& s, double)
    {
        return s.kind == 0 ? type(x) : type(x, s.xi, s.w);
    }
};
template <>
struct Quad<Kind::planar> {
    using type = GooseFEM::Element::Quad4::QuadraturePlanar;
    static type make(const D3& x, const Scheme& s, double thick)
    {
        if (thick == 1.0) {
            return s.kind == 0 ? type(x) : type(x, s.xi, s.w);
        }
        return s.kind == 0 ? type(x, thick) : type(x, s.xi, s.w, thick);
    }
};
template <>
struct Quad<Kind::axisym> {
    using type = GooseFEM::Element::Quad4::QuadratureAxisymmetric;
    static type make(const D3& x, const Scheme& s, double)
    {
        return s.kind == 0 ? type(x) : type(x, s.xi, s.w);
    }
};
template <>
struct Quad<Kind::hex8> {
    using type = GooseFEM::Element::Hex8::Quadrature;
    static type make(const D3& x, const Scheme& s, double)
    {
        return s.kind == 0 ? type(x) : type(x, s.xi, s.w);
    }
};

} // namespace gen
