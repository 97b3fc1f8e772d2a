// Meshes of the library, and what it means to be a valid tessellation.
#pragma once
#include "element.hpp"

namespace gen {

namespace M = GooseFEM::Mesh;

inline size_t ipow(size_t b, size_t e)
{
    size_t r = 1;
    while (e-- > 0) {
        r *= b;
    }
    return r;
}

// number of elements along the fine layer: often divisible by (a power of) three
inline size_t width(Case& c, size_t max)
{
    size_t k = c.in(0, 3);
    if (k == 0) {
        return c.in(1, std::min<size_t>(max, 7));
    }
    if (k == 1) {
        return c.in(1, max);
    }
    size_t p = 1;
    while (ipow(3, p + 1) <= max) {
        ++p;
    }
    size_t q = ipow(3, c.in(1, p));
    return q * c.in(1, std::max<size_t>(1, std::min<size_t>(max / q, 4)));
}

inline double edge_length(Case& c)
{
    switch (c.in(0, 3)) {
    case 0:
        return 1.0;
    case 1:
        return c.pick({2.0, 0.5, 10.0});
    case 2:
        return c.real(0.01, 2.0);
    default:
        return c.pick({3.141592653589793, 1e-3, 1e4, 1.0 / 3.0, 1e-9, 1e-12, 1e8});
    }
}

inline std::vector<std::vector<size_t>> sides(size_t nd, size_t nne)
{
    if (nd == 2) {
        std::vector<std::vector<size_t>> r;
        for (size_t i = 0; i < nne; ++i) {
            r.push_back({i, (i + 1) % nne});
        }
        return r;
    }
    return {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
}

inline double elem_volume(const D2& coor, const I2& conn, size_t e)
{
    size_t nd = coor.shape(1);
    size_t nne = conn.shape(1);
    if (nd == 3) {
        D3 x = xt::zeros<double>({size_t(1), nne, nd});
        for (size_t m = 0; m < nne; ++m) {
            for (size_t i = 0; i < nd; ++i) {
                x(0, m, i) = coor(conn(e, m), i);
            }
        }
        return exact_volume(Kind::hex8, x, 0, 1.0);
    }
    double r = 0.0;
    for (size_t m = 0; m < nne; ++m) {
        size_t a = conn(e, m), b = conn(e, (m + 1) % nne);
        r += 0.5 * (coor(a, 0) * coor(b, 1) - coor(b, 0) * coor(a, 1));
    }
    return r;
}

// orientation at each corner (Jacobian)
inline double corner_jacobian(const D2& coor, const I2& conn, size_t e, size_t m)
{
    size_t nne = conn.shape(1);
    auto X = [&](size_t a, size_t i) { return coor(conn(e, a), i); };
    if (coor.shape(1) == 2) {
        size_t a = (m + 1) % nne, b = (m + nne - 1) % nne;
        return (X(a, 0) - X(m, 0)) * (X(b, 1) - X(m, 1)) - (X(a, 1) - X(m, 1)) * (X(b, 0) - X(m, 0));
    }
    D3 x = xt::zeros<double>({size_t(1), nne, size_t(3)});
    for (size_t n = 0; n < nne; ++n) {
        for (size_t i = 0; i < 3; ++i) {
            x(0, n, i) = X(n, i);
        }
    }
    double xi[3] = {corner(m, 0), corner(m, 1), corner(m, 2)};
    return Point(Kind::hex8, x, 0, xi, 1.0, 1.0).det;
}

inline D1 box(const D2& coor)
{
    D1 r = xt::zeros<double>({coor.shape(1)});
    for (size_t n = 0; n < coor.shape(0); ++n) {
        for (size_t i = 0; i < coor.shape(1); ++i) {
            r(i) = std::max(r(i), coor(n, i));
        }
    }
    return r;
}

// The elements are a conforming tessellation of the box [0, L].
inline void check_tessellation(Case& c, const D2& coor, const I2& conn, const std::vector<double>& L, double h)
{
    size_t nd = L.size();
    size_t nne = conn.shape(1);
    size_t nnode = coor.shape(0);
    double tol = 1e-6 * h;
    REQUIRE(c, coor.shape(1) == nd, "");
    // box
    for (size_t n = 0; n < nnode; ++n) {
        for (size_t i = 0; i < nd; ++i) {
            REQUIRE(c, coor(n, i) >= -tol && coor(n, i) <= L[i] + tol, "node " << n << " outside the box: x_" << i << "=" << coor(n, i) << " L=" << L[i]);
        }
    }
    // all nodes are used, no two nodes coincide
    std::vector<char> used(nnode, 0);
    for (auto n : conn) {
        REQUIRE(c, n < nnode, "node " << n << " of " << nnode);
        used[n] = 1;
    }
    std::map<std::array<long long, 3>, size_t> pos;
    for (size_t n = 0; n < nnode; ++n) {
        REQUIRE(c, used[n], "node " << n << " is not used");
        std::array<long long, 3> k{};
        for (size_t i = 0; i < nd; ++i) {
            k[i] = std::llround(coor(n, i) / h * 64.0);
        }
        auto it = pos.find(k);
        REQUIRE(c, it == pos.end(), "nodes " << n << " and " << it->second << " coincide");
        pos[k] = n;
    }
    // positive elements that fill the box
    double tot = 0.0, vol = 1.0;
    for (auto l : L) {
        vol *= l;
    }
    for (size_t e = 0; e < conn.shape(0); ++e) {
        double v = elem_volume(coor, conn, e);
        REQUIRE(c, v > 1e-9 * std::pow(h, nd), "volume of element " << e << ": " << v);
        for (size_t m = 0; m < nne; ++m) {
            double j = corner_jacobian(coor, conn, e, m);
            REQUIRE(c, j > 1e-9 * std::pow(h, nd), "element " << e << " is not convex/positive at corner " << m << " " << j);
        }
        tot += v;
    }
    REQUIRE(c, close(tot, vol, 0, 1e-9), "total volume " << tot << " != " << vol);
    // conforming: each side is shared by two elements or is part of the boundary of the box
    std::map<std::vector<size_t>, std::pair<size_t, size_t>> count;
    auto S = sides(nd, nne);
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (auto& s : S) {
            std::vector<size_t> k;
            for (auto m : s) {
                k.push_back(conn(e, m));
            }
            std::sort(k.begin(), k.end());
            auto& v = count[k];
            v.first++;
            v.second = e;
        }
    }
    for (auto& s : count) {
        REQUIRE(c, s.second.first <= 2, "side of element " << s.second.second << " is shared by " << s.second.first);
        if (s.second.first == 1) {
            bool boundary = false;
            for (size_t i = 0; i < nd; ++i) {
                for (double x : {0.0, L[i]}) {
                    bool b = true;
                    for (auto n : s.first) {
                        b = b && std::abs(coor(n, i) - x) < tol;
                    }
                    boundary = boundary || b;
                }
            }
            REQUIRE(c, boundary, "side " << str(s.first) << " of element " << s.second.second << " has no neighbour: hanging nodes");
        }
    }
}

// integer set of points, to compare geometry
inline std::multiset<std::vector<long long>> cloud(const D2& x, double unit, size_t mirror = 99, double L = 0.0)
{
    std::multiset<std::vector<long long>> r;
    for (size_t n = 0; n < x.shape(0); ++n) {
        std::vector<long long> k;
        for (size_t i = 0; i < x.shape(1); ++i) {
            k.push_back(std::llround((i == mirror ? L - x(n, i) : x(n, i)) / unit));
        }
        r.insert(k);
    }
    return r;
}

inline D2 element_centers(const D2& coor, const I2& conn)
{
    D2 r = xt::zeros<double>({conn.shape(0), coor.shape(1)});
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (size_t m = 0; m < conn.shape(1); ++m) {
            for (size_t i = 0; i < coor.shape(1); ++i) {
                r(e, i) += coor(conn(e, m), i) / static_cast<double>(conn.shape(1));
            }
        }
    }
    return r;
}

} // namespace gen
