// C21: topology and geometry queries.
#include "meshes.hpp"
using namespace gen;
using Lists = std::vector<std::vector<size_t>>;

static std::string show(const Lists& l)
{
    std::ostringstream s;
    for (auto& r : l) {
        s << str(r);
    }
    return s.str().substr(0, 800);
}

static Lists sorted(Lists l)
{
    for (auto& r : l) {
        std::sort(r.begin(), r.end());
    }
    return l;
}

// DOFs with node-wise ties: classes of tied nodes, permuted numbers
static I2 tied(Case& c, size_t nnode, size_t ndim, std::vector<size_t>& cls)
{
    size_t kind = c.in(0, 2);
    pbt::Rng r{pbt::mix(c.draw(0xFFFF))};
    size_t ncls = kind == 0 ? nnode : 1 + r.next() % nnode;
    cls.resize(nnode);
    for (size_t n = 0; n < nnode; ++n) {
        cls[n] = kind == 0 ? n : r.next() % ncls;
    }
    std::set<size_t> u(cls.begin(), cls.end());
    std::map<size_t, size_t> num;
    for (auto v : u) {
        size_t k = num.size();
        num[v] = k;
    }
    std::vector<size_t> p(num.size() * ndim);
    for (size_t i = 0; i < p.size(); ++i) {
        p[i] = i;
    }
    if (kind == 2) {
        for (size_t i = p.size(); i-- > 1;) {
            std::swap(p[i], p[r.next() % (i + 1)]);
        }
    }
    I2 d = xt::zeros<size_t>({nnode, ndim});
    for (size_t n = 0; n < nnode; ++n) {
        cls[n] = num[cls[n]];
        for (size_t i = 0; i < ndim; ++i) {
            d(n, i) = p[cls[n] * ndim + i];
        }
    }
    return d;
}

static void topology(Case& c, const I2& conn, size_t nnode, const I2& dofs, const std::vector<size_t>& cls)
{
    size_t n_in_conn = amax(conn) + 1;
    Lists expect(nnode);
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (size_t m = 0; m < conn.shape(1); ++m) {
            expect[conn(e, m)].push_back(e);
        }
    }
    expect = sorted(expect);
    Lists connected(expect.begin(), expect.begin() + n_in_conn);

    auto coordination = M::coordination(conn);
    REQUIRE(c, coordination.size() == n_in_conn, "size of coordination");
    for (size_t n = 0; n < n_in_conn; ++n) {
        REQUIRE(c, coordination(n) == expect[n].size(), "coordination of node " << n << " " << coordination(n));
    }
    REQUIRE(c, M::elem2node(conn) == connected, show(M::elem2node(conn)) << " != " << show(connected));
    REQUIRE(c, sorted(M::elem2node(conn, false)) == connected, show(M::elem2node(conn, false)) << " != " << show(connected));

    // through the DOFs
    size_t ndof = amax(dofs) + 1;
    Lists node2dof(ndof);
    for (size_t n = 0; n < nnode; ++n) {
        for (size_t i = 0; i < dofs.shape(1); ++i) {
            node2dof[dofs(n, i)].push_back(n);
        }
    }
    REQUIRE(c, M::node2dof(dofs) == node2dof, show(M::node2dof(dofs)) << " != " << show(node2dof));
    REQUIRE(c, sorted(M::node2dof(dofs, false)) == node2dof, show(M::node2dof(dofs, false)));
    Lists ties(nnode), around(nnode);
    for (size_t n = 0; n < nnode; ++n) {
        for (size_t m = 0; m < nnode; ++m) {
            if (cls[n] == cls[m]) {
                ties[n].push_back(m);
                around[n].insert(around[n].end(), expect[m].begin(), expect[m].end());
            }
        }
    }
    around = sorted(around);
    auto nodaltyings = M::nodaltyings(dofs);
    REQUIRE(c, nodaltyings == ties, show(nodaltyings) << " != " << show(ties));
    auto a = M::elem2node(conn, dofs);
    REQUIRE(c, a == around, show(a) << " != " << show(around));
    REQUIRE(c, M::elem2node(conn, dofs, true) == around, "");
    auto b = sorted(M::elem2node(conn, dofs, false));
    REQUIRE(c, b == around, show(b) << " != " << show(around));
}

PROP(abstract, 150, 1500)
{
    size_t nne = c.in(1, 8), nelem = c.amount(1, 12, 300);
    size_t nnode = nne + c.amount(0, 12, 300), ndim = c.in(1, 3);
    I2 conn = xt::zeros<size_t>({nelem, nne});
    pbt::Rng r{pbt::mix(c.draw(0xFFFF))};
    std::set<size_t> used;
    for (size_t e = 0; e < nelem; ++e) {
        std::vector<size_t> p(nnode);
        for (size_t i = 0; i < nnode; ++i) {
            p[i] = i;
        }
        for (size_t m = 0; m < nne; ++m) {
            std::swap(p[m], p[m + r.next() % (nnode - m)]);
            conn(e, m) = p[m];
            used.insert(p[m]);
        }
    }
    std::vector<size_t> cls;
    I2 dofs = tied(c, nnode, ndim, cls);
    c.desc << "conn[" << nelem << "," << nne << "]=" << str(conn) << " nnode=" << nnode << " dofs=" << str(dofs);
    bool shared = std::set<size_t>(cls.begin(), cls.end()).size() < nnode;
    c.nontrivial(nelem > 1 && shared);
    c.label(shared, "ties");
    c.label(used.size() < nnode, "nodes without element");
    c.label(*used.rbegin() + 1 < nnode, "last node without element");
    topology(c, conn, nnode, dofs, cls);
}

PROP(inconsistent_ties, 40, 400)
{
    size_t nnode = c.in(2, 10), ndim = c.in(2, 3);
    std::vector<size_t> cls;
    I2 dofs = tied(c, nnode, ndim, cls);
    // tie only one direction
    size_t a = c.in(0, nnode - 1), b = c.in(0, nnode - 1), i = c.in(0, ndim - 1);
    if (cls[a] == cls[b]) {
        throw pbt::Discard();
    }
    dofs(a, i) = dofs(b, i);
    c.desc << "dofs=" << str(dofs);
    c.nontrivial();
    ASSERT_THROWS(c, std::exception, M::nodaltyings(dofs), "nodes tied in one direction only");
}

// ---------------------------------------------------------------------------------------- meshes

struct QuadMesh {
    D2 coor;
    I2 conn;
    I2 per;
    double h;
    double lx, ly;
    bool regular; // rectangle
    size_t used; // nodes 0 .. used-1 are part of the mesh
};

static QuadMesh quadmesh(Case& c, bool modify)
{
    QuadMesh q;
    size_t kind = c.in(0, 1);
    size_t nx, ny;
    q.h = edge_length(c);
    if (kind == 0) {
        nx = c.amount(1, 7, 30);
        ny = c.amount(1, 7, 30);
        M::Quad4::Regular m(nx, ny, q.h);
        q.coor = m.coor();
        q.conn = m.conn();
        q.per = m.dofsPeriodic();
    }
    else {
        nx = width(c, 27);
        ny = c.in(1, 15);
        M::Quad4::FineLayer m(nx, ny, q.h);
        q.coor = m.coor();
        q.conn = m.conn();
        q.per = m.dofsPeriodic();
    }
    auto L = box(q.coor);
    q.lx = L(0);
    q.ly = L(1);
    q.regular = true;
    q.used = q.coor.shape(0);
    c.desc << (kind ? "FineLayer(" : "Regular(") << nx << "," << ny << "," << q.h << ")";
    if (!modify) {
        return q;
    }
    size_t N = q.coor.shape(0);
    if (c.flip()) { // perturb
        double amp = 0.2 * q.h;
        auto s = c.stream();
        for (auto& x : q.coor) {
            x += amp * std::clamp(s(), -1.0, 1.0);
        }
        q.regular = false;
        c.desc << " perturbed";
    }
    if (c.flip()) { // renumber nodes, and move the first node of an element
        pbt::Rng r{pbt::mix(c.draw(0xFFFF))};
        std::vector<size_t> p(N);
        for (size_t i = 0; i < N; ++i) {
            p[i] = i;
        }
        for (size_t i = N; i-- > 1;) {
            std::swap(p[i], p[r.next() % (i + 1)]);
        }
        D2 x = q.coor;
        I2 d = q.per;
        for (size_t i = 0; i < N; ++i) {
            for (size_t j = 0; j < 2; ++j) {
                x(p[i], j) = q.coor(i, j);
                d(p[i], j) = q.per(i, j);
            }
        }
        I2 cn = q.conn;
        for (size_t e = 0; e < cn.shape(0); ++e) {
            size_t rot = r.next() % 4;
            for (size_t m = 0; m < 4; ++m) {
                cn(e, m) = p[q.conn(e, (m + rot) % 4)];
            }
        }
        q.coor = x;
        q.conn = cn;
        q.per = d;
        c.desc << " renumbered";
    }
    if (c.flip()) { // nodes without elements
        size_t extra = c.in(1, 3);
        D2 x = xt::zeros<double>({N + extra, size_t(2)});
        for (size_t i = 0; i < N + extra; ++i) {
            for (size_t j = 0; j < 2; ++j) {
                x(i, j) = i < N ? q.coor(i, j) : 100.0 * q.h * static_cast<double>(i + j);
            }
        }
        q.coor = x;
        c.desc << " +" << extra << " nodes";
        c.label("nodes without element");
    }
    return q;
}

PROP(geometry, 60, 600)
{
    auto q = quadmesh(c, true);
    size_t nelem = q.conn.shape(0), nnode = q.coor.shape(0);
    c.nontrivial(nelem > 1 && !q.regular);
    c.label(!q.regular, "perturbed");
    auto type = M::ElementType::Quad4;
    double scale = maxabs(q.coor);

    REQUIRE(c, M::defaultElementType(q.coor, q.conn) == type, "element type");
    // edges
    for (auto& s : {M::edgesize(q.coor, q.conn), M::edgesize(q.coor, q.conn, type)}) {
        REQUIRE(c, s.shape(0) == nelem && s.shape(1) == 4, "");
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t m = 0; m < 4; ++m) {
                size_t a = q.conn(e, m), b = q.conn(e, (m + 1) % 4);
                double l = std::hypot(q.coor(a, 0) - q.coor(b, 0), q.coor(a, 1) - q.coor(b, 1));
                REQUIRE(c, close(s(e, m), l, 1e-3 * scale), "edge " << m << " of element " << e << ": " << s(e, m) << " != " << l);
            }
        }
    }
    // centres
    D2 centers = element_centers(q.coor, q.conn);
    REQUIRE(c, same(M::centers(q.coor, q.conn), centers, scale), "");
    REQUIRE(c, same(M::centers(q.coor, q.conn, type), centers, scale), "");
    // mass
    D2 mass = xt::zeros<double>({nnode, size_t(2)});
    double area = 0.0;
    std::array<double, 2> cog{0, 0};
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t m = 0; m < 4; ++m) {
            double j = 0.25 * corner_jacobian(q.coor, q.conn, e, m);
            mass(q.conn(e, m), 0) += j;
            mass(q.conn(e, m), 1) += j;
        }
        area += elem_volume(q.coor, q.conn, e);
    }
    double tot = 0.0;
    for (size_t n = 0; n < nnode; ++n) {
        tot += mass(n, 0);
        for (size_t i = 0; i < 2; ++i) {
            cog[i] += mass(n, i) * q.coor(n, i);
        }
    }
    REQUIRE(c, close(tot, area, 0), "internal: mass is not the area");
    for (auto& m : {M::nodal_mass(q.coor, q.conn), M::nodal_mass(q.coor, q.conn, type)}) {
        REQUIRE(c, same(m, mass, q.h * q.h), "nodal mass " << str(m) << " != " << str(mass));
    }
    for (auto& g : {M::center_of_gravity(q.coor, q.conn), M::center_of_gravity(q.coor, q.conn, type)}) {
        REQUIRE(c, g.size() == 2, "");
        for (size_t i = 0; i < 2; ++i) {
            REQUIRE(c, close(g(i), cog[i] / tot, scale), "centre of gravity " << str(g) << " != " << cog[i] / tot << " mass " << tot << " coor " << str(q.coor) << " conn " << str(q.conn));
            if (q.regular) {
                REQUIRE(c, close(g(i), 0.5 * (i == 0 ? q.lx : q.ly), scale), "centre of gravity " << str(g) << " is not the centre of the rectangle");
            }
        }
    }
    // topology, also through periodicity
    if (nnode == q.per.shape(0)) {
        std::vector<size_t> cls(nnode);
        std::map<size_t, size_t> num;
        for (size_t n = 0; n < nnode; ++n) {
            cls[n] = q.per(n, 0);
        }
        topology(c, q.conn, nnode, q.per, cls);
    }
}

PROP(other_types, 40, 400)
{
    // recognised from the shape, or rejected
    size_t nd = c.in(1, 4), nne = c.in(1, 10), nelem = c.in(1, 3);
    D2 x = anyfield<2>(c, {nne + 2, nd});
    I2 conn = xt::zeros<size_t>({nelem, nne});
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t m = 0; m < nne; ++m) {
            conn(e, m) = (e + m) % (nne + 2);
        }
    }
    c.desc << "ndim=" << nd << " nne=" << nne;
    c.nontrivial();
    using T = M::ElementType;
    T expect = nd == 2 && nne == 3 ? T::Tri3 : nd == 2 && nne == 4 ? T::Quad4 : nd == 3 && nne == 8 ? T::Hex8 : T::Unknown;
    if (expect == T::Unknown) {
        REQUIRE_THROWS(c, std::runtime_error, M::defaultElementType(x, conn), "");
        REQUIRE_THROWS(c, std::runtime_error, M::centers(x, conn), "");
        REQUIRE_THROWS(c, std::runtime_error, M::edgesize(x, conn), "");
        REQUIRE_THROWS(c, std::runtime_error, M::nodal_mass(x, conn), "");
        REQUIRE_THROWS(c, std::runtime_error, M::center_of_gravity(x, conn), "");
    }
    else {
        c.label("known type");
        REQUIRE(c, M::defaultElementType(x, conn) == expect, "");
        // either not implemented, or right
        try {
            REQUIRE(c, same(M::centers(x, conn), element_centers(x, conn), maxabs(x)), "centres");
        }
        catch (const pbt::Failure&) {
            throw;
        }
        catch (const std::runtime_error&) {
            REQUIRE(c, expect != T::Quad4, "");
        }
    }
}

// rows of elements shifted by whole elements, in both directions
PROP(elemmap_regular, 60, 600)
{
    size_t nx = c.small(1, 7), ny = c.small(1, 7);
    double h = edge_length(c);
    size_t sx = c.in(0, nx - 1), sy = c.in(0, ny - 1);
    bool flip = c.flip(); // order of the elements
    M::Quad4::Regular mesh(nx, ny, h);
    D2 coor = mesh.coor();
    I2 conn = mesh.conn();
    size_t nelem = conn.shape(0), nnode = coor.shape(0);
    if (flip) {
        I2 t = conn;
        for (size_t e = 0; e < nelem; ++e) {
            for (size_t m = 0; m < 4; ++m) {
                conn(e, m) = t(nelem - 1 - e, m);
            }
        }
    }
    c.desc << "Regular(" << nx << "," << ny << "," << h << ") shift " << sx << "," << sy << " flip=" << flip;
    c.nontrivial(sx + sy > 0);
    I1 map = xt::zeros<size_t>({nelem});
    for (size_t y = 0; y < ny; ++y) {
        for (size_t x = 0; x < nx; ++x) {
            size_t a = y * nx + x, b = ((y + sy) % ny) * nx + (x + sx) % nx;
            map(flip ? nelem - 1 - a : a) = flip ? nelem - 1 - b : b;
        }
    }
    double L[2] = {h * static_cast<double>(nx), h * static_cast<double>(ny)};
    double S[2] = {h * static_cast<double>(sx), h * static_cast<double>(sy)};
    for (auto& nm : {M::elemmap2nodemap(map, coor, conn), M::elemmap2nodemap(map, coor, conn, M::ElementType::Quad4)}) {
        REQUIRE(c, nm.size() == nnode, "");
        for (size_t n = 0; n < nnode; ++n) {
            REQUIRE(c, nm(n) < nnode, "node " << n << " -> " << nm(n));
            for (size_t i = 0; i < 2; ++i) {
                double d = (coor(nm(n), i) - coor(n, i) - S[i]) / L[i];
                REQUIRE(c, std::abs(d - std::round(d)) < 1e-6, "node " << n << " -> " << nm(n) << " is not a shift by " << S[i] << " in direction " << i);
            }
            if (sx + sy == 0) {
                REQUIRE(c, nm(n) == n, "identity");
            }
        }
    }
}

PROP(elemmap_finelayer, 60, 600)
{
    size_t nx = width(c, 27), ny = c.in(1, 15);
    M::Quad4::FineLayer mesh(nx, ny);
    D2 coor = mesh.coor();
    I2 conn = mesh.conn();
    I2 per = mesh.dofsPeriodic();
    size_t n_roll = c.in(0, 4);
    I1 map = xt::zeros<size_t>({conn.shape(0)});
    try {
        map = mesh.roll(n_roll);
    }
    catch (const std::exception&) {
        throw pbt::Discard();
    }
    c.desc << "FineLayer(" << nx << "," << ny << ") roll " << n_roll;
    c.nontrivial(n_roll > 0 && nx > 1);
    auto nm = M::elemmap2nodemap(map, coor, conn);
    REQUIRE(c, nm.size() == coor.shape(0), "");
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (size_t m = 0; m < 4; ++m) {
            size_t n = conn(e, m), k = conn(map(e), m);
            REQUIRE(c, nm(n) < coor.shape(0), "");
            REQUIRE(c, per(nm(n), 0) == per(k, 0) && per(nm(n), 1) == per(k, 1), "node " << n << " -> " << nm(n) << ": is not periodically equivalent to " << k << " (element " << e << ")");
            REQUIRE(c, close(coor(nm(n), 1), coor(n, 1), 1) , "node " << n << " -> " << nm(n) << " has another height");
        }
    }
}

// any permutation: the node map takes the node of the mapped element at the same position
PROP(elemmap_any, 60, 600)
{
    auto q = quadmesh(c, false);
    size_t nelem = q.conn.shape(0), nnode = q.coor.shape(0);
    pbt::Rng r{pbt::mix(c.draw(0xFFFF))};
    I1 map = xt::zeros<size_t>({nelem});
    for (auto& i : map) {
        i = r.next() % nelem;
    }
    c.desc << " map=" << str(map);
    c.nontrivial(nelem > 1);
    auto nm = M::elemmap2nodemap(map, q.coor, q.conn);
    REQUIRE(c, nm.size() == nnode, "");
    std::vector<std::set<size_t>> options(nnode);
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t m = 0; m < 4; ++m) {
            options[q.conn(e, m)].insert(q.conn(map(e), m));
        }
    }
    for (size_t n = 0; n < nnode; ++n) {
        REQUIRE(c, options[n].count(nm(n)) == 1, "node " << n << " -> " << nm(n));
    }
}

PBT_MAIN("C21")
