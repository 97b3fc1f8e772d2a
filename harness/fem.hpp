// Generators and helpers shared by the checks.
#pragma once
#include "pbt.hpp"

#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <GooseFEM/VectorPartitionedTyings.h>

#include <array>

namespace gen {

using pbt::Case;
template <class T, size_t N>
using Arr = xt::xtensor<T, N>;
using D1 = Arr<double, 1>;
using D2 = Arr<double, 2>;
using D3 = Arr<double, 3>;
using D4 = Arr<double, 4>;
using D5 = Arr<double, 5>;
using D6 = Arr<double, 6>;
using I1 = Arr<size_t, 1>;
using I2 = Arr<size_t, 2>;

// |a - b| small w.r.t. the magnitude of the terms that are involved
inline bool close(double a, double b, double scale = 1.0, double rtol = 1e-9)
{
    return std::abs(a - b) <= rtol * (std::abs(scale) + std::max(std::abs(a), std::abs(b)));
}

template <class A>
inline double maxabs(const A& a)
{
    double m = 0.0;
    for (const auto& v : a) {
        m = std::max(m, std::abs(static_cast<double>(v)));
    }
    return m;
}

// Same shape, and all entries close. NaNs are never close.
template <class A, class B>
inline bool same(const A& a, const B& b, double scale = 1.0, double rtol = 1e-9)
{
    if (a.dimension() != b.dimension()) {
        return false;
    }
    for (size_t i = 0; i < a.dimension(); ++i) {
        if (a.shape(i) != b.shape(i)) {
            return false;
        }
    }
    auto i = a.begin();
    auto j = b.begin();
    for (; i != a.end(); ++i, ++j) {
        if (!(close(static_cast<double>(*i), static_cast<double>(*j), scale, rtol))) {
            return false;
        }
    }
    return true;
}

template <class A, class B>
inline bool eq(const A& a, const B& b)
{
    if (a.dimension() != b.dimension()) {
        return false;
    }
    for (size_t i = 0; i < a.dimension(); ++i) {
        if (a.shape(i) != b.shape(i)) {
            return false;
        }
    }
    return std::equal(a.begin(), a.end(), b.begin());
}

template <class A>
inline std::string str(const A& a, size_t n = 60)
{
    std::ostringstream os;
    os.precision(17);
    os << "{";
    size_t k = 0;
    for (const auto& v : a) {
        if (k++ > 0) {
            os << ",";
        }
        if (k > n) {
            os << "...";
            break;
        }
        os << v;
    }
    os << "}";
    return os.str();
}

template <class A>
inline void fill(A& a, pbt::Case::Stream& s, double scale = 1.0)
{
    for (auto& v : a) {
        v = scale * s();
    }
}

template <size_t N>
inline Arr<double, N> field(Case& c, const std::array<size_t, N>& shape, double scale = 1.0)
{
    auto s = c.stream();
    Arr<double, N> ret = xt::zeros<double>(shape);
    fill(ret, s, scale);
    return ret;
}

// A magnitude: no result may depend on the units that are chosen (a power of two: scaling is exact).
inline double magnitude(Case& c, int n = 40)
{
    return c.rare(3) ? std::ldexp(1.0, static_cast<int>(c.in(0, 2 * n)) - n) : 1.0;
}

// Field of any magnitude: the oracle has to be relative.
template <size_t N>
inline Arr<double, N> anyfield(Case& c, const std::array<size_t, N>& shape)
{
    double s = magnitude(c);
    if (s != 1.0) {
        c.label("other magnitude");
    }
    return field<N>(c, shape, s);
}

inline I1 vec(const std::vector<size_t>& v)
{
    I1 ret = xt::zeros<size_t>({v.size()});
    std::copy(v.begin(), v.end(), ret.begin());
    return ret;
}

inline std::vector<size_t> stdvec(const I1& v)
{
    return std::vector<size_t>(v.begin(), v.end());
}

template <class A>
inline std::set<size_t> asset(const A& v)
{
    return std::set<size_t>(v.begin(), v.end());
}

// ------------------------------------------------------------------------------- abstract meshes

// Connectivity, without geometry: random nodes per element (distinct nodes within each element).
struct Topo {
    I2 conn;
    I2 dofs;
    size_t nnode, ndim;
    bool unconnected = false; // there are nodes without elements
    bool shared = false; // there are dofs that are shared by several nodes
    bool permuted = false;
};

// DOF numbers: 0 .. ndof - 1, all of them are used.
inline I2 dofs(Case& c, size_t nnode, size_t ndim, bool& shared, bool& permuted)
{
    size_t n = nnode * ndim;
    I2 ret = xt::zeros<size_t>({nnode, ndim});
    shared = false;
    permuted = false;
    size_t kind = c.in(0, 4);
    std::vector<size_t> d(n);
    for (size_t i = 0; i < n; ++i) {
        d[i] = i;
    }
    if (kind == 1 || kind == 3) { // node-wise ties (as for periodicity)
        for (size_t m = 1; m < nnode; ++m) {
            if (c.in(0, 3) == 3) {
                size_t o = c.in(0, m - 1);
                for (size_t i = 0; i < ndim; ++i) {
                    d[m * ndim + i] = d[o * ndim + i];
                }
                shared = true;
            }
        }
    }
    if (kind == 2) { // DOF-wise ties, potentially between different dimensions
        for (size_t i = 1; i < n; ++i) {
            if (c.in(0, 3) == 3) {
                d[i] = d[c.in(0, i - 1)];
                shared = true;
            }
        }
    }
    // compress
    std::set<size_t> u(d.begin(), d.end());
    std::map<size_t, size_t> num;
    size_t k = 0;
    for (auto v : u) {
        num[v] = k++;
    }
    std::vector<size_t> p(k);
    for (size_t i = 0; i < k; ++i) {
        p[i] = i;
    }
    if (kind >= 3) {
        uint64_t s = c.draw(0xFFFF);
        pbt::Rng r{pbt::mix(s)};
        if (s > 0) {
            for (size_t i = k; i-- > 1;) {
                std::swap(p[i], p[r.next() % (i + 1)]);
            }
            permuted = true;
        }
    }
    for (size_t i = 0; i < n; ++i) {
        ret.flat(i) = p[num[d[i]]];
    }
    return ret;
}

// "many": number of elements and nodes that is rarely reached
inline Topo topo(Case& c, size_t many = 40)
{
    Topo t;
    t.ndim = c.in(1, 3);
    size_t nne = c.in(1, 8);
    t.nnode = nne + c.amount(0, 12, many);
    size_t nelem = c.amount(1, 12, many);
    t.conn = xt::zeros<size_t>({nelem, nne});
    std::set<size_t> used;
    uint64_t s = c.draw(0xFFFF);
    pbt::Rng r{pbt::mix(s)};
    for (size_t e = 0; e < nelem; ++e) {
        std::vector<size_t> p(t.nnode);
        for (size_t i = 0; i < t.nnode; ++i) {
            p[i] = (i + e) % t.nnode;
        }
        size_t like = s % 4 == 1 && e > 0 ? r.next() % 8 : 0; // repeat (part of) an element
        size_t other = like ? r.next() % e : 0;
        for (size_t m = 0; m < nne; ++m) {
            if (like == 1 || like == 2 || like == 3) { // identical, reversed, rotated
                t.conn(e, m) = t.conn(other, like == 1 ? m : (like == 2 ? nne - 1 - m : (m + 1) % nne));
                continue;
            }
            if (s > 0) {
                std::swap(p[m], p[m + r.next() % (t.nnode - m)]);
            }
            t.conn(e, m) = p[m];
            used.insert(p[m]);
        }
    }
    t.unconnected = used.size() < t.nnode;
    t.dofs = dofs(c, t.nnode, t.ndim, t.shared, t.permuted);
    c.desc << "nelem=" << nelem << " nne=" << nne << " nnode=" << t.nnode << " ndim=" << t.ndim
           << " conn=" << str(t.conn) << " dofs=" << str(t.dofs) << "; ";
    c.label(t.unconnected, "nodes without element");
    c.label(t.shared, "dofs shared between nodes");
    c.label(t.permuted, "dofs in non-trivial order");
    c.label("ndim=" + std::to_string(t.ndim));
    return t;
}

// Prescribed DOFs: unique, in random order.
inline I1 prescribed(Case& c, size_t ndof)
{
    std::vector<size_t> iip;
    size_t kind = c.in(0, 5);
    if (kind == 4) { // a contiguous range, in ascending or descending order, or rotated
        size_t a = c.in(0, ndof);
        size_t b = c.flip() ? ndof : c.in(a, ndof);
        for (size_t i = a; i < b; ++i) {
            iip.push_back(i);
        }
        size_t order = c.in(0, 2);
        if (order == 1) {
            std::reverse(iip.begin(), iip.end());
        }
        if (order == 2 && !iip.empty()) {
            std::rotate(iip.begin(), iip.begin() + c.in(0, iip.size() - 1), iip.end());
        }
        c.label("iip contiguous");
    }
    else if (kind == 1) {
        for (size_t i = 0; i < ndof; ++i) {
            if (c.in(0, 2) == 2) {
                iip.push_back(i);
            }
        }
    }
    else if (kind >= 2) {
        iip = c.subset(ndof, c.in(0, ndof));
    }
    c.label(iip.empty(), "nothing prescribed");
    c.label(iip.size() == ndof, "everything prescribed");
    c.label(!std::is_sorted(iip.begin(), iip.end()), "iip unsorted");
    return vec(iip);
}

inline size_t amax(const I2& a)
{
    return *std::max_element(a.begin(), a.end());
}

} // namespace gen

namespace gen {

// Something that is not zero, to be overwritten by the function under test.
template <size_t N>
inline Arr<double, N> junk(const std::array<size_t, N>& shape)
{
    Arr<double, N> ret = xt::zeros<double>(shape);
    double v = 1234.5;
    for (auto& i : ret) {
        i = v;
        v += 3.25;
    }
    return ret;
}

template <class A>
inline bool one_of(const A& v, double x)
{
    return std::find(v.begin(), v.end(), x) != v.end();
}

template <class A, class S>
inline bool is_shape(const A& a, const S& shape)
{
    if (a.dimension() != shape.size()) {
        return false;
    }
    for (size_t i = 0; i < shape.size(); ++i) {
        if (a.shape(i) != shape[i]) {
            return false;
        }
    }
    return true;
}

} // namespace gen
