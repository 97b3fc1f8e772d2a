// C13 (default): named sets of nodes on the boundary; C14 (-DCHECK_PERIODIC): periodic ties.
#include "meshes.hpp"
using namespace gen;

#define ACCESSORS_2D(F) \
    F(nodesBottomEdge) \
    F(nodesBottomLeftCorner) \
    F(nodesBottomOpenEdge) \
    F(nodesBottomRightCorner) \
    F(nodesLeftBottomCorner) \
    F(nodesLeftEdge) \
    F(nodesLeftOpenEdge) \
    F(nodesLeftTopCorner) \
    F(nodesRightBottomCorner) \
    F(nodesRightEdge) \
    F(nodesRightOpenEdge) \
    F(nodesRightTopCorner) \
    F(nodesTopEdge) \
    F(nodesTopLeftCorner) \
    F(nodesTopOpenEdge) \
    F(nodesTopRightCorner)

#define ACCESSORS_3D(F) \
    F(nodesBack) \
    F(nodesBackBottomEdge) \
    F(nodesBackBottomLeftCorner) \
    F(nodesBackBottomOpenEdge) \
    F(nodesBackBottomRightCorner) \
    F(nodesBackFace) \
    F(nodesBackLeftBottomCorner) \
    F(nodesBackLeftEdge) \
    F(nodesBackLeftOpenEdge) \
    F(nodesBackLeftTopCorner) \
    F(nodesBackRightBottomCorner) \
    F(nodesBackRightEdge) \
    F(nodesBackRightOpenEdge) \
    F(nodesBackRightTopCorner) \
    F(nodesBackTopEdge) \
    F(nodesBackTopLeftCorner) \
    F(nodesBackTopOpenEdge) \
    F(nodesBackTopRightCorner) \
    F(nodesBottom) \
    F(nodesBottomBackEdge) \
    F(nodesBottomBackLeftCorner) \
    F(nodesBottomBackOpenEdge) \
    F(nodesBottomBackRightCorner) \
    F(nodesBottomFace) \
    F(nodesBottomFrontEdge) \
    F(nodesBottomFrontLeftCorner) \
    F(nodesBottomFrontOpenEdge) \
    F(nodesBottomFrontRightCorner) \
    F(nodesBottomLeftBackCorner) \
    F(nodesBottomLeftEdge) \
    F(nodesBottomLeftFrontCorner) \
    F(nodesBottomLeftOpenEdge) \
    F(nodesBottomRightBackCorner) \
    F(nodesBottomRightEdge) \
    F(nodesBottomRightFrontCorner) \
    F(nodesBottomRightOpenEdge) \
    F(nodesFront) \
    F(nodesFrontBottomEdge) \
    F(nodesFrontBottomLeftCorner) \
    F(nodesFrontBottomOpenEdge) \
    F(nodesFrontBottomRightCorner) \
    F(nodesFrontFace) \
    F(nodesFrontLeftBottomCorner) \
    F(nodesFrontLeftEdge) \
    F(nodesFrontLeftOpenEdge) \
    F(nodesFrontLeftTopCorner) \
    F(nodesFrontRightBottomCorner) \
    F(nodesFrontRightEdge) \
    F(nodesFrontRightOpenEdge) \
    F(nodesFrontRightTopCorner) \
    F(nodesFrontTopEdge) \
    F(nodesFrontTopLeftCorner) \
    F(nodesFrontTopOpenEdge) \
    F(nodesFrontTopRightCorner) \
    F(nodesLeft) \
    F(nodesLeftBackBottomCorner) \
    F(nodesLeftBackEdge) \
    F(nodesLeftBackOpenEdge) \
    F(nodesLeftBackTopCorner) \
    F(nodesLeftBottomBackCorner) \
    F(nodesLeftBottomEdge) \
    F(nodesLeftBottomFrontCorner) \
    F(nodesLeftBottomOpenEdge) \
    F(nodesLeftFace) \
    F(nodesLeftFrontBottomCorner) \
    F(nodesLeftFrontEdge) \
    F(nodesLeftFrontOpenEdge) \
    F(nodesLeftFrontTopCorner) \
    F(nodesLeftTopBackCorner) \
    F(nodesLeftTopEdge) \
    F(nodesLeftTopFrontCorner) \
    F(nodesLeftTopOpenEdge) \
    F(nodesRight) \
    F(nodesRightBackBottomCorner) \
    F(nodesRightBackEdge) \
    F(nodesRightBackOpenEdge) \
    F(nodesRightBackTopCorner) \
    F(nodesRightBottomBackCorner) \
    F(nodesRightBottomEdge) \
    F(nodesRightBottomFrontCorner) \
    F(nodesRightBottomOpenEdge) \
    F(nodesRightFace) \
    F(nodesRightFrontBottomCorner) \
    F(nodesRightFrontEdge) \
    F(nodesRightFrontOpenEdge) \
    F(nodesRightFrontTopCorner) \
    F(nodesRightTopBackCorner) \
    F(nodesRightTopEdge) \
    F(nodesRightTopFrontCorner) \
    F(nodesRightTopOpenEdge) \
    F(nodesTop) \
    F(nodesTopBackEdge) \
    F(nodesTopBackLeftCorner) \
    F(nodesTopBackOpenEdge) \
    F(nodesTopBackRightCorner) \
    F(nodesTopFace) \
    F(nodesTopFrontEdge) \
    F(nodesTopFrontLeftCorner) \
    F(nodesTopFrontOpenEdge) \
    F(nodesTopFrontRightCorner) \
    F(nodesTopLeftBackCorner) \
    F(nodesTopLeftEdge) \
    F(nodesTopLeftFrontCorner) \
    F(nodesTopLeftOpenEdge) \
    F(nodesTopRightBackCorner) \
    F(nodesTopRightEdge) \
    F(nodesTopRightFrontCorner) \
    F(nodesTopRightOpenEdge)

// Expected set: parse the name of the accessor, e.g. "nodesBottomLeftOpenEdge".
struct Entity {
    std::string name;
    std::vector<std::pair<size_t, bool>> planes; // (axis, at the maximum)
    bool open = false; // without the end points
    bool face = false; // without the edges
    bool ordered = false; // along the free axis
};

static Entity parse(const std::string& name)
{
    Entity r;
    r.name = name;
    static const std::map<std::string, std::pair<size_t, bool>> planes = {
        {"Left", {0, false}}, {"Right", {0, true}}, {"Bottom", {1, false}}, {"Top", {1, true}}, {"Front", {2, false}}, {"Back", {2, true}}};
    std::string word;
    std::string s = name.substr(5) + "@";
    for (char ch : s) {
        if ((ch == '@' || std::isupper(ch)) && !word.empty()) {
            auto it = planes.find(word);
            if (it != planes.end()) {
                r.planes.push_back(it->second);
            }
            else if (word == "Open") {
                r.open = true;
            }
            else if (word == "Face") {
                r.face = true;
            }
            else if (word == "Edge") {
                r.ordered = true;
            }
            else if (word != "Corner") {
                throw std::logic_error("unknown word " + word);
            }
            word.clear();
        }
        word += ch;
    }
    return r;
}

static std::vector<size_t> tovec(size_t n)
{
    return {n};
}

template <class A>
static std::vector<size_t> tovec(const A& a)
{
    return std::vector<size_t>(a.begin(), a.end());
}

[[maybe_unused]] static void check_entity(Case& c, const D2& x, const D1& L, double h, const Entity& n, const std::vector<size_t>& got)
{
    double tol = 1e-6 * h;
    size_t nd = L.size();
    std::set<size_t> expect;
    for (size_t i = 0; i < x.shape(0); ++i) {
        bool in = true;
        std::vector<char> fixed(nd, 0);
        for (auto& p : n.planes) {
            in = in && std::abs(x(i, p.first) - (p.second ? L(p.first) : 0.0)) < tol;
            fixed[p.first] = 1;
        }
        if (n.open || n.face) {
            for (size_t j = 0; j < nd; ++j) {
                if (!fixed[j]) {
                    in = in && x(i, j) > tol && x(i, j) < L(j) - tol;
                }
            }
        }
        if (in) {
            expect.insert(i);
        }
    }
    std::set<size_t> set(got.begin(), got.end());
    REQUIRE(c, set.size() == got.size(), n.name << ": nodes occur several times " << str(got));
    for (auto i : expect) {
        REQUIRE(c, set.count(i), n.name << ": node " << i << " is missing; returned " << got.size() << " nodes, expected " << expect.size());
    }
    for (auto i : set) {
        REQUIRE(c, expect.count(i), n.name << ": node " << i << " should not be there");
    }
    if (n.ordered) {
        size_t axis = 0;
        for (size_t j = 0; j < nd; ++j) {
            bool fixed = false;
            for (auto& p : n.planes) {
                fixed = fixed || p.first == j;
            }
            if (!fixed) {
                axis = j;
            }
        }
        for (size_t i = 0; i + 1 < got.size(); ++i) {
            REQUIRE(c, x(got[i], axis) < x(got[i + 1], axis), n.name << ": not ordered along the edge");
        }
    }
}

template <class T>
static void check_2d(Case& c, const T& m)
{
    D2 x = m.coor();
    D1 L = box(x);
#ifndef CHECK_PERIODIC
#define F(name) check_entity(c, x, L, m.h(), parse(#name), tovec(m.name()));
    ACCESSORS_2D(F)
#undef F
#endif
}

template <class T>
static void check_3d(Case& c, const T& m)
{
    D2 x = m.coor();
    D1 L = box(x);
#ifndef CHECK_PERIODIC
#define F(name) check_entity(c, x, L, m.h(), parse(#name), tovec(m.name()));
    ACCESSORS_3D(F)
#undef F
#endif
}

// Periodicity: image of each node on the right/top/back boundary is on the left/bottom/front.
template <class T>
static void check_periodic(Case& c, const T& m)
{
    D2 x = m.coor();
    D1 L = box(x);
    size_t nd = L.size();
    double h = m.h();
    double tol = 1e-6 * h;
    I2 ties = m.nodesPeriodic();
    REQUIRE(c, ties.shape(1) == 2, "");
    std::map<size_t, size_t> dep;
    std::set<size_t> indep;
    for (size_t i = 0; i < ties.shape(0); ++i) {
        REQUIRE(c, ties(i, 0) < x.shape(0) && ties(i, 1) < x.shape(0), "tie " << i << " refers to a node that does not exist");
        REQUIRE(c, dep.count(ties(i, 1)) == 0, "node " << ties(i, 1) << " is dependent in several ties");
        dep[ties(i, 1)] = ties(i, 0);
        indep.insert(ties(i, 0));
    }
    size_t corners = 0;
    for (size_t n = 0; n < x.shape(0); ++n) {
        size_t max = 0, bnd = 0;
        for (size_t i = 0; i < nd; ++i) {
            max += x(n, i) > L(i) - tol;
            bnd += x(n, i) > L(i) - tol || x(n, i) < tol;
        }
        REQUIRE(c, (max > 0) == (dep.count(n) > 0), "node " << n << (max > 0 ? " has an image but is not tied" : " should not be a dependent node"));
        if (max > 0) {
            size_t o = dep[n];
            REQUIRE(c, indep.count(n) == 0, "node " << n << " is both independent and dependent");
            for (size_t i = 0; i < nd; ++i) {
                double d = x(n, i) > L(i) - tol ? L(i) : 0.0;
                REQUIRE(c, std::abs(x(n, i) - x(o, i) - d) < tol, "node " << n << " is tied to " << o << ", that is not its image");
            }
            if (bnd == nd) {
                ++corners;
                REQUIRE(c, o == m.nodesOrigin(), "corner " << n << " is not tied to the origin");
            }
        }
    }
    REQUIRE(c, corners + 1 == ipow(2, nd), "number of corners");
    for (size_t i = 0; i < nd; ++i) {
        REQUIRE(c, std::abs(x(m.nodesOrigin(), i)) < tol, "origin");
    }

    // DOFs
    I2 d = m.dofs();
    REQUIRE(c, is_shape(d, std::array<size_t, 2>{x.shape(0), nd}), "");
    std::set<size_t> u(d.begin(), d.end());
    REQUIRE(c, u.size() == d.size() && *u.rbegin() + 1 == u.size(), "plain DOFs are not unique and consecutive");
    I2 p = m.dofsPeriodic();
    REQUIRE(c, is_shape(p, std::array<size_t, 2>{x.shape(0), nd}), "");
    std::map<size_t, std::pair<size_t, size_t>> owner;
    size_t maxdof = 0;
    for (size_t n = 0; n < x.shape(0); ++n) {
        for (size_t i = 0; i < nd; ++i) {
            maxdof = std::max(maxdof, p(n, i));
            if (dep.count(n)) {
                REQUIRE(c, p(n, i) == p(dep[n], i), "dependent node " << n << " has not the DOF of its independent node");
            }
            else {
                REQUIRE(c, owner.count(p(n, i)) == 0, "DOF " << p(n, i) << " is shared by nodes that are not tied");
                owner[p(n, i)] = {n, i};
            }
        }
    }
    REQUIRE(c, owner.size() == maxdof + 1, "periodic DOFs are not consecutive");
    REQUIRE(c, owner.size() == d.size() - nd * dep.size(), "number of periodic DOFs");
}

template <class T>
static void check(Case& c, const T& m)
{
#ifdef CHECK_PERIODIC
    check_periodic(c, m);
#else
    if constexpr (std::is_same_v<T, M::Hex8::Regular> || std::is_same_v<T, M::Hex8::FineLayer>) {
        check_3d(c, m);
    }
    else {
        check_2d(c, m);
    }
#endif
}

PROP(regular2d, 100, 1000)
{
    size_t nx = c.amount(1, 20, 80), ny = c.amount(1, 20, 80);
    if (c.rare(1500)) { // more than 2^16 nodes
        c.label("huge");
        nx = c.in(200, 420);
        ny = 66000 / nx + c.in(0, 20);
    }
    else if (c.rare(20)) {
        c.label("long");
        nx = c.in(1, 3);
        ny = c.in(20, 1000);
        if (c.flip()) {
            std::swap(nx, ny);
        }
    }
    double h = edge_length(c);
    c.nontrivial(nx != ny);
    c.label(nx == 1 || ny == 1, "one element wide");
    if (c.flip()) {
        c.desc << "Tri3 nx=" << nx << " ny=" << ny << " h=" << h;
        c.label("Tri3");
        check(c, M::Tri3::Regular(nx, ny, h));
    }
    else {
        c.desc << "Quad4 nx=" << nx << " ny=" << ny << " h=" << h;
        c.label("Quad4");
        check(c, M::Quad4::Regular(nx, ny, h));
    }
}

PROP(regular3d, 60, 500)
{
    size_t nx = c.amount(1, 7, 16), ny = c.amount(1, 7, 16), nz = c.amount(1, 7, 16);
    if (c.rare(1500)) { // more than 2^16 nodes
        c.label("huge");
        nx = c.in(30, 50);
        ny = c.in(30, 50);
        nz = 66000 / (nx * ny) + c.in(0, 5);
    }
    else if (c.rare(20)) {
        c.label("long");
        size_t a = c.in(1, 3), b = c.in(1, 3), l = c.in(20, 200), axis = c.in(0, 2);
        nx = axis == 0 ? l : a;
        ny = axis == 1 ? l : (axis == 0 ? a : b);
        nz = axis == 2 ? l : b;
    }
    double h = edge_length(c);
    c.desc << "Hex8 nx=" << nx << " ny=" << ny << " nz=" << nz << " h=" << h;
    c.nontrivial(nx != ny && ny != nz && nx != nz);
    c.label(nx == 1 || ny == 1 || nz == 1, "one element wide");
    check(c, M::Hex8::Regular(nx, ny, nz, h));
}

PROP(fine2d, 120, 1000)
{
    size_t nx = width(c, 81);
    size_t ny = c.flip() ? c.in(1, 130) : c.small(1, 40);
    if (c.rare(25)) { // refined many times
        c.label("many layers");
        nx = width(c, 729);
        ny = c.in(1, 1200);
    }
    double h = edge_length(c);
    size_t nfine = c.flip() ? 1 : c.small(0, 12);
    c.desc << "FineLayer nx=" << nx << " ny=" << ny << " h=" << h << " nfine=" << nfine;
    M::Quad4::FineLayer m(nx, ny, h, nfine);
    c.nontrivial(m.nelem() != nx * m.nely());
    c.label(m.nelem() != nx * m.nely(), "refined");
    check(c, m);
    if (nfine == 1) {
        // reconstructed from its coordinates
        c.label("reconstructed");
        check(c, M::Quad4::FineLayer(m.coor(), m.conn()));
    }
}

PROP(fine3d, 60, 500)
{
    size_t nx = width(c, 27);
    size_t nz = c.rare(3) ? nx : width(c, 27);
    size_t ny = c.flip() ? c.in(1, 60) : c.small(1, 24);
    bool many = c.rare(25);
    if (many) { // refined many times
        c.label("many layers");
        (c.flip() ? nx : nz) = c.pick<size_t>({81, 27, 54});
        ny = c.in(1, 200);
    }
    else if (c.rare(15)) { // long
        c.label("long");
        nx = c.in(1, 4);
        nz = c.in(1, 4);
        size_t axis = c.in(0, 2);
        (axis == 0 ? nx : (axis == 1 ? ny : nz)) = c.in(20, 240);
    }
    while (nx * nz > (many ? 750 : 300)) {
        (nx > nz ? nx : nz) /= 3;
    }
    double h = edge_length(c);
    size_t nfine = c.flip() ? 1 : c.small(0, 12);
    c.desc << "FineLayer nx=" << nx << " ny=" << ny << " nz=" << nz << " h=" << h << " nfine=" << nfine;
    M::Hex8::FineLayer m(nx, ny, nz, h, nfine);
    c.nontrivial(m.nelem() != nx * nz * m.nely());
    c.label(m.nelem() != nx * nz * m.nely(), "refined");
    check(c, m);
}

#ifdef CHECK_PERIODIC
PBT_MAIN("C14")
#else
PBT_MAIN("C13")
#endif
