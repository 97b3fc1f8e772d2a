// C22: orientation of triangles.
#include "meshes.hpp"
using namespace gen;
namespace T3 = GooseFEM::Mesh::Tri3;

// Twice the signed area (positive: counter-clockwise), exact as all coordinates are small integers.
static long long area(const std::vector<std::array<long long, 2>>& x, size_t a, size_t b, size_t d)
{
    return (x[b][0] - x[a][0]) * (x[d][1] - x[a][1]) - (x[b][1] - x[a][1]) * (x[d][0] - x[a][0]);
}

static void orientation(Case& c, const D2& coor, const I2& conn, const std::vector<int>& sign)
{
    size_t nelem = conn.shape(0);
    D2 coor_copy = coor;
    I2 conn_copy = conn;
    auto o = T3::getOrientation(coor, conn);
    REQUIRE(c, o.size() == nelem, "size");
    for (size_t e = 0; e < nelem; ++e) {
        REQUIRE(c, o(e) == 1 || o(e) == -1, "element " << e << ": " << o(e));
        if (sign[e] != 0) {
            REQUIRE(c, o(e) == -sign[e], "orientation of element " << e << " is " << o(e) << ", area has sign " << sign[e]);
        }
    }
    for (int target : {-1, 1}) {
        std::vector<I2> all;
        all.push_back(T3::setOrientation(coor, conn, target));
        all.push_back(T3::setOrientation(coor, conn, o, target));
        if (target == -1) {
            all.push_back(T3::setOrientation(coor, conn));
            all.push_back(T3::setOrientation(coor, conn, o));
        }
        for (size_t k = 0; k < all.size(); ++k) {
            const I2& r = all[k];
            REQUIRE(c, r.shape() == conn.shape(), "shape");
            for (size_t e = 0; e < nelem; ++e) {
                std::array<size_t, 3> a{conn(e, 0), conn(e, 1), conn(e, 2)}, b{r(e, 0), r(e, 1), r(e, 2)};
                if (o(e) == target) {
                    REQUIRE(c, a == b, "element " << e << " already has orientation " << target << ", but it is modified (variant " << k << ")");
                }
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                REQUIRE(c, a == b, "element " << e << " has other nodes (variant " << k << ")");
            }
            auto p = T3::getOrientation(coor, r);
            for (size_t e = 0; e < nelem; ++e) {
                if (sign[e] != 0) {
                    REQUIRE(c, p(e) == target, "element " << e << " does not have orientation " << target << " (variant " << k << ")");
                }
            }
        }
    }
    REQUIRE(c, eq(conn, conn_copy) && eq(coor, coor_copy), "input modified");
}

PROP(random, 300, 3000)
{
    size_t n = c.in(3, 14), nelem = c.amount(1, 12, 400);
    long long range = c.pick<long long>({2, 5, 1000});
    double scale = std::ldexp(1.0, static_cast<int>(c.in(0, 160)) - 80);
    long long shift = c.pick<long long>({0, 0, 100000, 1ll << 27, 1ll << 40});
    pbt::Rng r{pbt::mix(c.draw(0xFFFF))};
    std::vector<std::array<long long, 2>> x(n);
    D2 coor = xt::zeros<double>({n, size_t(2)});
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < 2; ++j) {
            x[i][j] = static_cast<long long>(r.next() % (2 * range + 1)) - range + shift;
            coor(i, j) = scale * static_cast<double>(x[i][j]);
        }
    }
    I2 conn = xt::zeros<size_t>({nelem, size_t(3)});
    std::vector<int> sign(nelem);
    size_t neg = 0, pos = 0;
    for (size_t e = 0; e < nelem; ++e) {
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; ++i) {
            p[i] = i;
        }
        for (size_t m = 0; m < 3; ++m) {
            std::swap(p[m], p[m + r.next() % (n - m)]);
            conn(e, m) = p[m];
        }
        long long a = area(x, p[0], p[1], p[2]);
        sign[e] = a > 0 ? 1 : (a < 0 ? -1 : 0);
        pos += a > 0;
        neg += a < 0;
        c.label(a == 0, "collinear");
    }
    c.desc << "coor=" << str(coor) << " conn=" << str(conn);
    c.nontrivial(pos > 0 && neg > 0);
    orientation(c, coor, conn, sign);
}

PROP(mesh, 60, 600)
{
    size_t nx = c.amount(1, 6, 20), ny = c.amount(1, 6, 20);
    double h = edge_length(c);
    M::Tri3::Regular mesh(nx, ny, h);
    D2 coor = mesh.coor();
    I2 conn = mesh.conn();
    // rigid rotation, mirror, and random rotation of the nodes of each element
    double a = c.real(0, 6.0);
    bool mirror = c.flip();
    for (size_t i = 0; i < coor.shape(0); ++i) {
        double X = coor(i, 0), Y = coor(i, 1);
        coor(i, 0) = (mirror ? -1.0 : 1.0) * (std::cos(a) * X - std::sin(a) * Y);
        coor(i, 1) = std::sin(a) * X + std::cos(a) * Y;
    }
    pbt::Rng r{pbt::mix(c.draw(0xFFFF))};
    std::vector<int> sign(conn.shape(0));
    bool both[2] = {false, false};
    for (size_t e = 0; e < conn.shape(0); ++e) {
        std::array<size_t, 3> n{conn(e, 0), conn(e, 1), conn(e, 2)};
        size_t k = r.next() % 6;
        bool odd = k >= 3;
        for (size_t m = 0; m < 3; ++m) {
            size_t s = odd ? (3 + k - m) % 3 : (m + k) % 3;
            conn(e, m) = n[s];
        }
        sign[e] = elem_volume(coor, conn, e) > 0 ? 1 : -1;
        REQUIRE(c, sign[e] == (odd == mirror ? 1 : -1), "mesh is not counter-clockwise");
        both[odd] = true;
    }
    c.desc << "nx=" << nx << " ny=" << ny << " h=" << h << " angle=" << a << " mirror=" << mirror << " conn=" << str(conn);
    c.nontrivial(both[0] && both[1]);
    orientation(c, coor, conn, sign);
}

PBT_MAIN("C22")
