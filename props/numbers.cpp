// C19: renumbering.
#include "meshes.hpp"
using namespace gen;

// values with gaps and duplicates
static std::vector<size_t> values(Case& c, size_t n)
{
    size_t max = c.pick<size_t>({3, 10, 50, 50, 50, 1000, 1000, 70000});
    bool gaps = c.flip();
    auto s = pbt::Rng{pbt::mix(c.draw(0xFFFF))};
    size_t mul = gaps ? c.in(1, 7) : 1;
    size_t add = gaps ? c.in(0, 20) : 0;
    std::vector<size_t> v(n);
    for (size_t i = 0; i < n; ++i) {
        v[i] = (s.next() % max) * mul + add;
    }
    return v;
}

template <class T, class U>
static void check_renumber(Case& c, const T& in, const T& out, const U& index)
{
    REQUIRE(c, in.shape() == out.shape(), "shape");
    std::set<size_t> u(in.begin(), in.end());
    std::map<size_t, size_t> rank;
    for (auto v : u) {
        size_t k = rank.size();
        rank[v] = k;
    }
    for (size_t i = 0; i < in.size(); ++i) {
        REQUIRE(c, out.flat(i) == rank[in.flat(i)], "value " << in.flat(i) << " is renumbered to " << out.flat(i) << ", expected " << rank[in.flat(i)]);
    }
    REQUIRE(c, index.size() == *u.rbegin() + 1, "size of index");
    for (auto& r : rank) {
        REQUIRE(c, index(r.first) == r.second, "index of " << r.first);
    }
}

PROP(renumber, 200, 2000)
{
    size_t n = c.amount(1, 40, 600), d = c.in(1, 3);
    auto v = values(c, n * d);
    c.desc << "values=" << str(v) << " ndim=" << d;
    c.nontrivial(n * d > 2 && std::set<size_t>(v.begin(), v.end()).size() > 1);
    I2 a = xt::zeros<size_t>({n, d});
    std::copy(v.begin(), v.end(), a.begin());
    M::Renumber r(a);
    I2 b = r.apply(a);
    check_renumber(c, a, b, r.index());
    REQUIRE(c, eq(M::renumber(a), b), "");
    REQUIRE(c, eq(M::renumber(b), b), "renumbering twice is different from renumbering once");
    // another list, of the same numbers
    auto s = pbt::Rng{pbt::mix(c.draw(0xFFFF))};
    I1 l = xt::zeros<size_t>({c.in(0, 20)});
    for (auto& i : l) {
        i = v[s.next() % v.size()];
    }
    I1 m = r.apply(l);
    REQUIRE(c, m.size() == l.size(), "");
    for (size_t i = 0; i < l.size(); ++i) {
        REQUIRE(c, m(i) == r.index()(l(i)), "other list");
    }
    // other containers
    I1 w = vec(v);
    check_renumber(c, w, M::renumber(w), M::Renumber(w).index());
    xt::xarray<size_t> x = a;
    REQUIRE(c, eq(M::renumber(x), b), "xarray");
    // a copy of the object
    M::Renumber r2;
    r2 = r;
    r = M::Renumber(vec({7, 3}));
    REQUIRE(c, eq(r2.apply(a), b), "copy");
}

PROP(reorder, 200, 2000)
{
    size_t n = c.amount(1, 40, 600);
    size_t nlist = c.in(1, 4);
    bool gaps = c.flip();
    std::vector<std::vector<size_t>> L(nlist);
    auto p = c.perm(n);
    for (auto i : p) {
        size_t k = c.in(0, nlist - (gaps ? 0 : 1));
        if (k < nlist) {
            L[k].push_back(i);
        }
    }
    std::vector<size_t> all;
    for (auto& l : L) {
        c.desc << str(l) << " ";
        all.insert(all.end(), l.begin(), l.end());
    }
    if (all.empty()) {
        throw pbt::Discard();
    }
    c.nontrivial(all.size() > 2 && nlist > 1);
    c.label(all.size() < n, "numbers that are in no list");
    M::Reorder r = nlist == 1   ? M::Reorder({vec(L[0])})
                   : nlist == 2 ? M::Reorder({vec(L[0]), vec(L[1])})
                   : nlist == 3 ? M::Reorder({vec(L[0]), vec(L[1]), vec(L[2])})
                                : M::Reorder({vec(L[0]), vec(L[1]), vec(L[2]), vec(L[3])});
    REQUIRE(c, r.index().size() == *std::max_element(all.begin(), all.end()) + 1, "");
    for (size_t i = 0; i < all.size(); ++i) {
        REQUIRE(c, r.index()(all[i]) == i, "number " << all[i] << " is reordered to " << r.index()(all[i]) << ", expected " << i);
    }
    auto s = pbt::Rng{pbt::mix(c.draw(0xFFFF))};
    size_t d = c.in(1, 3), m = c.in(0, 10);
    I2 a = xt::zeros<size_t>({m, d});
    for (auto& i : a) {
        i = all[s.next() % all.size()];
    }
    I2 b = r.apply(a);
    REQUIRE(c, b.shape() == a.shape(), "");
    for (size_t i = 0; i < a.size(); ++i) {
        REQUIRE(c, b.flat(i) == r.index()(a.flat(i)), "");
    }
    // documented example: unknown first, prescribed last
    size_t k = 0;
    for (auto& l : L) {
        I1 t = r.apply(vec(l));
        for (auto i : t) {
            REQUIRE(c, i == k++, "lists are not consecutive");
        }
    }
}

// sharing of DOFs is the same before and after
PROP(sharing, 150, 1500)
{
    size_t nnode = c.amount(1, 15, 400), ndim = c.in(1, 3);
    I2 d = M::dofs(nnode, ndim);
    for (size_t i = 0; i < nnode * ndim; ++i) {
        REQUIRE(c, d.flat(i) == i, "plain numbering");
    }
    size_t nt = c.small(0, nnode > 15 ? nnode : 6);
    for (size_t i = 0; i < nt; ++i) {
        size_t a = c.in(0, nnode - 1), b = c.in(0, nnode - 1);
        for (size_t j = 0; j < ndim; ++j) {
            d(b, j) = d(a, j);
        }
    }
    c.desc << "dofs=" << str(d);
    I2 r = M::renumber(d);
    std::set<size_t> u;
    std::map<std::pair<size_t, size_t>, int> pairs;
    std::map<size_t, size_t> fwd, bwd;
    for (size_t i = 0; i < d.size(); ++i) {
        u.insert(r.flat(i));
        REQUIRE(c, !fwd.count(d.flat(i)) || fwd[d.flat(i)] == r.flat(i), "shared DOF is split");
        REQUIRE(c, !bwd.count(r.flat(i)) || bwd[r.flat(i)] == d.flat(i), "different DOFs are merged");
        fwd[d.flat(i)] = r.flat(i);
        bwd[r.flat(i)] = d.flat(i);
    }
    REQUIRE(c, *u.rbegin() + 1 == u.size(), "not consecutive");
    size_t last = 0;
    for (auto& i : fwd) {
        REQUIRE(c, i.second == last++, "order is not kept");
    }
    c.nontrivial(u.size() < d.size());
}

PROP(periodic, 30, 200)
{
    I2 p, d;
    I2 ties;
    if (c.flip()) {
        M::Quad4::FineLayer m(width(c, 27), c.in(1, 30));
        p = m.dofsPeriodic();
        d = m.dofs();
        ties = m.nodesPeriodic();
    }
    else {
        M::Hex8::Regular m(c.in(1, 4), c.in(1, 4), c.in(1, 4));
        p = m.dofsPeriodic();
        d = m.dofs();
        ties = m.nodesPeriodic();
    }
    c.nontrivial();
    for (size_t i = 0; i < ties.shape(0); ++i) {
        for (size_t j = 0; j < d.shape(1); ++j) {
            d(ties(i, 1), j) = d(ties(i, 0), j);
        }
    }
    check_renumber(c, d, p, M::Renumber(d).index());
}

PBT_MAIN("C19")
