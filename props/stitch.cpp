// C20: stitching meshes.
#include "meshes.hpp"
using namespace gen;

struct Part {
    D2 x;
    I2 conn;
};

// renumber nodes and elements randomly
static void shuffle(Case& c, Part& p)
{
    auto r = pbt::Rng{pbt::mix(c.draw(0xFFFF))};
    size_t n = p.x.shape(0), ne = p.conn.shape(0);
    std::vector<size_t> q(n), f(ne);
    for (size_t i = 0; i < n; ++i) {
        q[i] = i;
    }
    for (size_t i = 0; i < ne; ++i) {
        f[i] = i;
    }
    for (size_t i = n; i-- > 1;) {
        std::swap(q[i], q[r.next() % (i + 1)]);
    }
    for (size_t i = ne; i-- > 1;) {
        std::swap(f[i], f[r.next() % (i + 1)]);
    }
    D2 x = p.x;
    I2 conn = p.conn;
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < x.shape(1); ++j) {
            p.x(q[i], j) = x(i, j);
        }
    }
    for (size_t e = 0; e < ne; ++e) {
        for (size_t m = 0; m < conn.shape(1); ++m) {
            p.conn(f[e], m) = q[conn(e, m)];
        }
    }
}

static Part part(Case& c, size_t kind, double h, size_t nx, size_t ny)
{
    Part p;
    if (kind == 0) {
        M::Quad4::Regular m(nx, ny, h);
        p = {m.coor(), m.conn()};
    }
    else if (kind == 1) {
        M::Tri3::Regular m(nx, ny, h);
        p = {m.coor(), m.conn()};
    }
    else if (kind == 2) {
        M::Hex8::Regular m(nx, ny, c.in(1, 2), h);
        p = {m.coor(), m.conn()};
    }
    else {
        M::Quad4::FineLayer m(nx, ny, h);
        p = {m.coor(), m.conn()};
    }
    return p;
}

static std::vector<Part> parts(Case& c, size_t n, double h)
{
    size_t kind = c.in(0, 3);
    size_t scale = kind == 3 ? 3 : 1;
    std::vector<Part> r;
    bool shuf = c.flip();
    bool jitter = c.rare(3);
    for (size_t k = 0; k < n; ++k) {
        size_t nx = c.in(1, 4), ny = c.in(1, 4);
        Part p = part(c, kind, h, nx * scale, ny * scale);
        c.desc << "part " << nx * scale << "x" << ny * scale;
        for (size_t i = 0; i < p.x.shape(1); ++i) {
            long o = static_cast<long>(c.in(0, 8)) - (k == 0 ? 0 : 4);
            o = k == 0 && o > 4 ? 0 : o;
            c.desc << " " << o;
            for (size_t j = 0; j < p.x.shape(0); ++j) {
                p.x(j, i) += h * static_cast<double>(o);
            }
        }
        if (jitter && k > 0) {
            auto s = c.stream();
            for (auto& v : p.x) {
                v += 1e-9 * std::min(h, 1.0) * s();
            }
        }
        if (shuf) {
            shuffle(c, p);
        }
        c.desc << "; ";
        r.push_back(p);
    }
    c.label("kind " + std::to_string(kind));
    c.label(shuf, "random numbering");
    c.label(jitter, "coordinates that differ by round-off");
    return r;
}

static std::array<long long, 3> key(const D2& x, size_t n, double h)
{
    std::array<long long, 3> k{};
    for (size_t i = 0; i < x.shape(1); ++i) {
        k[i] = std::llround(x(n, i) / h * 12.0);
    }
    return k;
}

// The result is the union of the parts; "same(p, n, q, m)" tells if the nodes are to be merged.
template <class S, class F>
static void check_union(Case& c, const S& s, const std::vector<Part>& parts, double h, const std::vector<double>& shift, F group)
{
    size_t nd = parts[0].x.shape(1);
    const D2& x = s.coor();
    const I2& conn = s.conn();
    REQUIRE(c, s.nmesh() == parts.size(), "");
    REQUIRE(c, s.nelem() == conn.shape(0) && s.nnode() == x.shape(0) && s.nne() == parts[0].conn.shape(1) && s.ndim() == nd && conn.shape(1) == s.nne() && x.shape(1) == nd, "");
    I2 d = s.dofs();
    REQUIRE(c, eq(d, M::dofs(s.nnode(), s.ndim())), "dofs");
    auto nm = s.nodemap();
    auto em = s.elemmap();
    REQUIRE(c, nm.size() == parts.size() && em.size() == parts.size(), "");
    std::vector<char> el(s.nelem(), 0);
    std::map<size_t, long long> owner; // node of the result -> group
    std::map<long long, size_t> image; // group -> node of the result
    std::vector<char> used(s.nnode(), 0);
    for (size_t p = 0; p < parts.size(); ++p) {
        REQUIRE(c, eq(nm[p], s.nodemap(p)) && eq(em[p], s.elemmap(p)), "maps of part " << p);
        REQUIRE(c, nm[p].size() == parts[p].x.shape(0) && em[p].size() == parts[p].conn.shape(0), "size of maps of part " << p);
        for (size_t e = 0; e < em[p].size(); ++e) {
            REQUIRE(c, em[p](e) < s.nelem() && !el[em[p](e)], "element " << em[p](e) << " occurs twice");
            el[em[p](e)] = 1;
            for (size_t m = 0; m < s.nne(); ++m) {
                REQUIRE(c, conn(em[p](e), m) == nm[p](parts[p].conn(e, m)), "element " << e << " of part " << p << " has other nodes");
            }
        }
        for (size_t n = 0; n < nm[p].size(); ++n) {
            size_t t = nm[p](n);
            REQUIRE(c, t < s.nnode(), "node " << n << " of part " << p);
            used[t] = 1;
            for (size_t i = 0; i < nd; ++i) {
                REQUIRE(c, close(x(t, i), parts[p].x(n, i) + (i == 1 ? shift[p] : 0.0), h, 1e-6), "position of node " << n << " of part " << p << " " << x(t, i) << " " << parts[p].x(n, i) + (i == 1 ? shift[p] : 0.0));
            }
            long long g = group(p, n);
            REQUIRE(c, !owner.count(t) || owner[t] == g, "node " << n << " of part " << p << " is merged with another node");
            REQUIRE(c, !image.count(g) || image[g] == t, "node " << n << " of part " << p << " is not merged with its overlapping node");
            owner[t] = g;
            image[g] = t;
        }
    }
    for (size_t e = 0; e < el.size(); ++e) {
        REQUIRE(c, el[e], "element " << e << " is from no part");
    }
    for (size_t n = 0; n < used.size(); ++n) {
        REQUIRE(c, used[n], "node " << n << " is from no part");
    }
}

static I1 some(Case& c, size_t n)
{
    auto r = pbt::Rng{pbt::mix(c.draw(0xFFFF))};
    I1 ret = xt::zeros<size_t>({c.in(1, 6)});
    for (auto& i : ret) {
        i = r.next() % n;
    }
    return ret;
}

// Sets of nodes or elements of each of the parts.
template <class S>
static void check_sets(Case& c, const S& s, const std::vector<Part>& parts)
{
    std::vector<I1> ns, es;
    std::set<size_t> expect_n;
    std::vector<size_t> expect_e;
    for (size_t p = 0; p < parts.size(); ++p) {
        I1 n = some(c, parts[p].x.shape(0)), e = some(c, parts[p].conn.shape(0));
        I1 nn = s.nodeset(n, p), ee = s.elemset(e, p);
        REQUIRE(c, nn.size() == n.size() && ee.size() == e.size(), "");
        for (size_t i = 0; i < n.size(); ++i) {
            REQUIRE(c, nn(i) == s.nodemap(p)(n(i)), "nodeset of part " << p);
            expect_n.insert(nn(i));
        }
        for (size_t i = 0; i < e.size(); ++i) {
            REQUIRE(c, ee(i) == s.elemmap(p)(e(i)), "elemset of part " << p);
            expect_e.push_back(ee(i));
        }
        ns.push_back(n);
        es.push_back(e);
    }
    if constexpr (!std::is_same_v<S, M::ManualStitch>) {
        I1 n = s.nodeset(ns), e = s.elemset(es);
        REQUIRE(c, asset(n) == expect_n && n.size() == expect_n.size(), "combined nodeset");
        std::vector<size_t> got(e.begin(), e.end());
        REQUIRE(c, got == expect_e, "combined elemset");
    }
}

PROP(overlapping, 100, 1000)
{
    double h = c.flip() ? 1.0 : c.real(0.2, 3.0);
    auto P = parts(c, 2, h);
    I2 o = M::overlapping(P[0].x, P[1].x);
    REQUIRE(c, o.shape(0) == 2, "");
    std::map<std::array<long long, 3>, size_t> pos;
    for (size_t n = 0; n < P[1].x.shape(0); ++n) {
        pos[key(P[1].x, n, h)] = n;
    }
    std::set<std::pair<size_t, size_t>> expect, got;
    for (size_t n = 0; n < P[0].x.shape(0); ++n) {
        auto it = pos.find(key(P[0].x, n, h));
        if (it != pos.end()) {
            expect.insert({n, it->second});
        }
    }
    for (size_t i = 0; i < o.shape(1); ++i) {
        got.insert({o(0, i), o(1, i)});
    }
    c.nontrivial(!expect.empty());
    REQUIRE(c, got.size() == o.shape(1) && got == expect, "overlapping nodes: " << got.size() << " expected " << expect.size());
}

PROP(manual, 150, 1500)
{
    double h = c.flip() ? 1.0 : c.real(0.2, 3.0);
    auto P = parts(c, 2, h);
    std::map<std::array<long long, 3>, size_t> pos;
    for (size_t n = 0; n < P[1].x.shape(0); ++n) {
        pos[key(P[1].x, n, h)] = n;
    }
    std::vector<std::pair<size_t, size_t>> pairs;
    for (size_t n = 0; n < P[0].x.shape(0); ++n) {
        auto it = pos.find(key(P[0].x, n, h));
        if (it != pos.end()) {
            pairs.push_back({n, it->second});
        }
    }
    // only a part of the overlapping nodes, in arbitrary order
    if (c.flip()) {
        auto q = c.subset(pairs.size(), c.in(0, pairs.size()));
        std::vector<std::pair<size_t, size_t>> t;
        for (auto i : q) {
            t.push_back(pairs[i]);
        }
        pairs = t;
        c.label("part of the overlapping nodes");
    }
    I1 a = xt::zeros<size_t>({pairs.size()}), b = a;
    for (size_t i = 0; i < pairs.size(); ++i) {
        a(i) = pairs[i].first;
        b(i) = pairs[i].second;
    }
    c.desc << "overlap=" << str(a) << str(b);
    c.nontrivial(pairs.size() > 0 && pairs.size() < P[1].x.shape(0));
    M::ManualStitch s(P[0].x, P[0].conn, a, P[1].x, P[1].conn, b, c.flip());
    std::map<size_t, size_t> b2a;
    for (auto& p : pairs) {
        b2a[p.second] = p.first;
    }
    check_union(c, s, P, h, {0.0, 0.0}, [&](size_t p, size_t n) -> long long {
        if (p == 0) {
            return n;
        }
        auto it = b2a.find(n);
        return it != b2a.end() ? (long long)(it->second) : -1 - (long long)(n);
    });
    check_sets(c, s, P);
    // nodes that do not overlap are refused
    if (pairs.size() > 0) {
        D2 x = P[1].x;
        x(pairs[c.in(0, pairs.size() - 1)].second, c.in(0, x.shape(1) - 1)) += 0.1 * h;
        REQUIRE_THROWS(c, std::runtime_error, (M::ManualStitch(P[0].x, P[0].conn, a, x, P[1].conn, b)), "");
    }
}

PROP(automatic, 120, 1200)
{
    double h = c.flip() ? 1.0 : c.real(0.2, 3.0);
    size_t n = c.rare(30) ? c.in(1, 14) : c.in(1, 5);
    auto P = parts(c, n, h);
    M::Stitch s;
    std::map<std::array<long long, 3>, long long> id;
    std::vector<Part> done;
    bool merged = false;
    for (size_t p = 0; p < n; ++p) {
        s.push_back(P[p].x, P[p].conn);
        done.push_back(P[p]);
        for (size_t i = 0; i < P[p].x.shape(0); ++i) {
            auto k = key(P[p].x, i, h);
            merged = merged || id.count(k);
            id.insert({k, (long long)(id.size())});
        }
        check_union(c, s, done, h, std::vector<double>(n, 0.0), [&](size_t q, size_t i) { return id[key(P[q].x, i, h)]; });
        check_sets(c, s, done);
        if (c.rare(4)) {
            M::Stitch t = s; // continue with a copy
            D2 x = P[p].x + 100.0 * h;
            s.push_back(x, P[p].conn);
            s = t;
            c.label("copy");
        }
    }
    if (s.nelem() < 150 && c.rare(6)) {
        Part P = {s.coor(), s.conn()};
        s.push_back(s.coor(), s.conn());
        done.push_back(P);
        check_union(c, s, done, h, std::vector<double>(n + 1, 0.0), [&](size_t q, size_t i) { return id[key(done[q].x, i, h)]; });
        check_sets(c, s, done);
        c.label("stitch to itself");
    }
    c.nontrivial(merged && n > 1);
}

PROP(vstack, 120, 1200)
{
    double h = c.flip() ? 1.0 : c.real(0.2, 3.0);
    size_t n = c.rare(30) ? c.in(1, 14) : c.in(1, 5);
    size_t nx = c.in(1, 6);
    bool fine = c.rare(3);
    bool shuf = c.flip();
    bool check = !c.rare(3);
    c.desc << "Vstack nx=" << nx << " h=" << h;
    M::Vstack s(check);
    std::vector<Part> done;
    std::vector<double> shift;
    double top = 0.0;
    std::map<std::array<long long, 3>, long long> id; // position, level
    std::vector<std::vector<long long>> group;
    long long next = 0;
    std::map<long long, long long> interface;
    for (size_t p = 0; p < n; ++p) {
        size_t ny = c.in(1, 5);
        Part P = part(c, fine ? 3 : 0, h, nx, ny);
        bool own = p > 0 && s.nelem() < 150 && c.rare(6); // the stack itself, passed by reference
        if (own) {
            P = {s.coor(), s.conn()};
            c.desc << " (itself)";
            c.label("stack itself");
        }
        else {
            c.desc << " ny=" << ny;
            if (shuf) {
                shuffle(c, P);
            }
        }
        D1 L = box(P.x);
        std::map<long long, size_t> bot, up;
        for (size_t i = 0; i < P.x.shape(0); ++i) {
            if (P.x(i, 1) < 1e-6 * h) {
                bot[std::llround(P.x(i, 0) / h * 6)] = i;
            }
            if (P.x(i, 1) > L(1) - 1e-6 * h) {
                up[std::llround(P.x(i, 0) / h * 6)] = i;
            }
        }
        if (p > 0 && bot.size() != interface.size()) {
            c.label("refused: not matching");
            continue;
        }
        std::vector<size_t> b, t;
        for (auto& i : bot) {
            b.push_back(i.second);
        }
        for (auto& i : up) {
            t.push_back(i.second);
        }
        if (own) {
            s.push_back(s.coor(), s.conn(), vec(b), vec(t));
        }
        else {
            s.push_back(P.x, P.conn, vec(b), vec(t));
        }
        std::vector<long long> g(P.x.shape(0), -1);
        for (auto& i : bot) {
            g[i.second] = p > 0 && interface.count(i.first) ? interface[i.first] : -1;
        }
        for (auto& v : g) {
            v = v < 0 ? next++ : v;
        }
        group.push_back(g);
        done.push_back(P);
        shift.push_back(top);
        top += L(1);
        interface.clear();
        for (auto& i : up) {
            interface[i.first] = g[i.second];
        }
        check_union(c, s, done, h, shift, [&](size_t q, size_t i) { return group[q][i]; });
        check_sets(c, s, done);
        if (check && c.flip()) {
            // something that does not match is refused, and nothing is added
            D2 x = P.x;
            for (size_t i = 0; i < x.shape(0); ++i) {
                x(i, 0) += 0.5 * h;
            }
            if (interface.size() == b.size()) {
                REQUIRE_THROWS(c, std::runtime_error, s.push_back(x, P.conn, vec(b), vec(t)), "");
                check_union(c, s, done, h, shift, [&](size_t q, size_t i) { return group[q][i]; });
                c.label("refused: other position");
            }
        }
    }
    c.nontrivial(done.size() > 1);
    c.label(done.size() > 2, "more than two");
}

// The tolerances: |a - b| <= atol + rtol * |.|, in whatever unit
PROP(tolerance, 120, 1200)
{
    double h = edge_length(c);
    double rtol = c.pick({0.0, 1e-5, 1e-3}), atol = h * c.pick({1e-3, 1e-6, 1e-4});
    auto P = parts(c, 2, h);
    c.desc << " rtol=" << rtol << " atol=" << atol;
    double lim = atol + rtol * std::max(maxabs(P[0].x), maxabs(P[1].x)); // nothing further apart overlaps
    std::map<std::array<long long, 3>, size_t> pos;
    for (size_t n = 0; n < P[1].x.shape(0); ++n) {
        pos[key(P[1].x, n, h)] = n;
    }
    std::set<std::pair<size_t, size_t>> expect;
    for (size_t n = 0; n < P[0].x.shape(0); ++n) {
        auto it = pos.find(key(P[0].x, n, h));
        if (it != pos.end()) {
            expect.insert({n, it->second});
        }
    }
    auto st = c.stream();
    D2 x = P[1].x;
    for (auto& v : x) {
        v += 0.4 * atol * std::max(-1.0, std::min(1.0, st()));
    }
    c.nontrivial(!expect.empty());
    bool apart = !expect.empty() && c.flip();
    if (apart) {
        auto it = expect.begin();
        std::advance(it, c.in(0, expect.size() - 1));
        size_t i = c.in(0, x.shape(1) - 1);
        x(it->second, i) = P[1].x(it->second, i) + 3.0 * lim * (c.flip() ? 1.0 : -1.0);
        size_t n = it->second;
        std::vector<size_t> a, b;
        for (auto& e : expect) {
            a.push_back(e.first);
            b.push_back(e.second);
        }
        REQUIRE_THROWS(c, std::runtime_error, (M::ManualStitch(P[0].x, P[0].conn, vec(a), x, P[1].conn, vec(b), true, rtol, atol)), "node " << n << " does not overlap");
        M::ManualStitch m(P[0].x, P[0].conn, vec(a), x, P[1].conn, vec(b), false, rtol, atol);
        REQUIRE(c, m.nnode() == P[0].x.shape(0) + x.shape(0) - a.size(), "without check");
        for (auto e = expect.begin(); e != expect.end();) {
            e = e->second == n ? expect.erase(e) : std::next(e);
        }
        c.label("apart");
    }
    I2 o = M::overlapping(P[0].x, x, rtol, atol);
    std::set<std::pair<size_t, size_t>> got;
    std::vector<size_t> a, b;
    for (size_t i = 0; i < o.shape(1); ++i) {
        got.insert({o(0, i), o(1, i)});
    }
    for (auto& e : expect) {
        a.push_back(e.first);
        b.push_back(e.second);
    }
    REQUIRE(c, got == expect && got.size() == o.shape(1), "overlapping nodes: " << got.size() << " expected " << expect.size());
    M::ManualStitch m(P[0].x, P[0].conn, vec(a), x, P[1].conn, vec(b), true, rtol, atol);
    M::Stitch s(rtol, atol);
    s.push_back(P[0].x, P[0].conn);
    s.push_back(x, P[1].conn);
    size_t nn = P[0].x.shape(0) + x.shape(0) - a.size();
    REQUIRE(c, m.nnode() == nn && s.nnode() == nn, "number of nodes " << m.nnode() << "," << s.nnode() << " expected " << nn);
    I1 map = s.nodemap(1);
    for (auto& e : expect) {
        REQUIRE(c, map(e.second) == e.first, "nodemap");
    }
    for (size_t n = 0; n < x.shape(0); ++n) {
        for (size_t i = 0; i < x.shape(1); ++i) {
            REQUIRE(c, map(n) < P[0].x.shape(0) ? std::abs(s.coor()(map(n), i) - x(n, i)) <= lim : s.coor()(map(n), i) == x(n, i), "coordinates");
        }
    }

    // stack
    size_t nx = c.in(1, 5), ny = c.in(1, 4);
    M::Quad4::Regular r(nx, ny, h);
    M::Vstack v(true, rtol, atol);
    D2 y = r.coor();
    v.push_back(y, r.conn(), r.nodesBottomEdge(), r.nodesTopEdge());
    D2 z = y;
    for (size_t n = 0; n < z.shape(0); ++n) {
        z(n, 0) += 0.4 * atol * std::max(-1.0, std::min(1.0, st()));
    }
    double d = atol + rtol * h * static_cast<double>(nx + ny);
    D2 w = z;
    I1 bot = r.nodesBottomEdge();
    size_t n = bot(c.in(0, bot.size() - 1)), i = c.in(0, 1);
    w(n, i) = y(n, i) + 3.0 * d * (c.flip() ? 1.0 : -1.0);
    REQUIRE_THROWS(c, std::runtime_error, v.push_back(w, r.conn(), r.nodesBottomEdge(), r.nodesTopEdge()), "stack: node " << n << " does not overlap");
    v.push_back(z, r.conn(), r.nodesBottomEdge(), r.nodesTopEdge());
    REQUIRE(c, v.nnode() == 2 * y.shape(0) - bot.size(), "stack: number of nodes");
}

PBT_MAIN("C20")
