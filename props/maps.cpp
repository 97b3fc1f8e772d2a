// C18: maps between meshes.
#include "meshes.hpp"
using namespace gen;

template <size_t R>
static Arr<double, R> elemvar(Case& c, size_t nelem, double shift = 0.0)
{
    std::array<size_t, R> shape;
    shape[0] = nelem;
    for (size_t i = 1; i < R; ++i) {
        shape[i] = c.in(1, 3);
    }
    auto s = c.stream();
    Arr<double, R> r = xt::zeros<double>(shape);
    for (auto& v : r) {
        v = s() + shift;
    }
    return r;
}

template <size_t R>
static void refine_fields(Case& c, const M::Quad4::Map::RefineRegular& r)
{
    const I2& map = r.map();
    size_t nc = map.shape(0), nf = map.size(), n = map.shape(1);
    c.desc << " rank=" << R;
    auto a = elemvar<R>(c, nc);
    size_t w = a.size() / nc;
    Arr<double, R> f = r.mapToFine(a);
    REQUIRE(c, f.shape(0) == nf && f.size() == nf * w, "shape");
    for (size_t e = 0; e < nc; ++e) {
        for (size_t i = 0; i < n; ++i) {
            for (size_t k = 0; k < w; ++k) {
                REQUIRE(c, f.flat(map(e, i) * w + k) == a.flat(e * w + k), "value of fine element " << map(e, i));
            }
        }
    }
    REQUIRE(c, same(r.meanToCoarse(f), a, 1, 1e-12), "mean is not the inverse of the map to fine");

    // any field on the fine mesh: average with the definition
    std::array<size_t, R> shape;
    std::copy(f.shape().begin(), f.shape().end(), shape.begin());
    Arr<double, R> g = anyfield<R>(c, shape), wt = field<R>(c, shape);
    double mw = magnitude(c), mg = maxabs(g);
    for (auto& v : wt) {
        v = mw * (0.5 + std::abs(v)); // positive
    }
    REQUIRE(c, same(r.averageToCoarse(f, wt), a, 1, 1e-11), "weighted average is not the inverse of the map to fine");
    Arr<double, R> mean = r.meanToCoarse(g), avg = r.averageToCoarse(g, wt);
    REQUIRE(c, mean.shape() == a.shape() && avg.shape() == a.shape(), "");
    for (size_t e = 0; e < nc; ++e) {
        for (size_t k = 0; k < w; ++k) {
            double s = 0, sw = 0, ww = 0;
            for (size_t i = 0; i < n; ++i) {
                double v = g.flat(map(e, i) * w + k), q = wt.flat(map(e, i) * w + k);
                s += v;
                sw += v * q;
                ww += q;
            }
            REQUIRE(c, close(mean.flat(e * w + k), s / n, mg, 1e-11), "mean of element " << e << " component " << k << " " << mean.flat(e * w + k) << " " << s / n);
            REQUIRE(c, close(avg.flat(e * w + k), sw / ww, mg, 1e-11), "average of element " << e << " component " << k << " " << avg.flat(e * w + k) << " " << sw / ww);
        }
    }
}

PROP(refine, 150, 1500)
{
    size_t cx = c.in(1, 6), cy = c.in(1, 6), nx = c.in(1, 5), ny = c.in(1, 5);
    if (c.rare(20)) {
        c.label("many");
        cx = c.in(1, 25);
        cy = c.in(1, 25);
        nx = c.in(1, 12);
        ny = c.in(1, 12);
    }
    double h = edge_length(c);
    c.desc << "RefineRegular " << cx << "x" << cy << " by " << nx << "x" << ny << " h=" << h;
    c.nontrivial(nx * ny > 1 && cx != cy);
    M::Quad4::Regular mesh(cx, cy, h);
    M::Quad4::Map::RefineRegular r(mesh, nx, ny);
    REQUIRE(c, r.nx() == nx && r.ny() == ny, "");
    auto C = r.coarseMesh();
    auto F = r.fineMesh();
    REQUIRE(c, eq(C.conn(), mesh.conn()) && eq(C.coor(), mesh.coor()), "coarse mesh");
    REQUIRE(c, F.nelx() == nx * cx && F.nely() == ny * cy && F.nelem() == nx * ny * cx * cy, "fine mesh");
    const I2& map = r.map();
    REQUIRE(c, is_shape(map, std::array<size_t, 2>{C.nelem(), nx * ny}), "");
    REQUIRE(c, asset(map).size() == F.nelem() && *asset(map).rbegin() == F.nelem() - 1, "each fine element is part of one coarse element");
    REQUIRE(c, eq(r.getMap(), map) && eq(r.getCoarseMesh().conn(), C.conn()) && eq(r.getCoarseMesh().coor(), C.coor()) && eq(r.getFineMesh().conn(), F.conn()) && eq(r.getFineMesh().coor(), F.coor()), "deprecated names");
    // positions relative to the extent of the mesh
    D2 xc = element_centers(C.coor(), C.conn()), xf = element_centers(F.coor(), F.conn());
    D1 Lc = box(C.coor()), Lf = box(F.coor());
    for (size_t e = 0; e < map.shape(0); ++e) {
        for (size_t i = 0; i < map.shape(1); ++i) {
            for (size_t j = 0; j < 2; ++j) {
                double d = xf(map(e, i), j) / Lf(j) - xc(e, j) / Lc(j);
                REQUIRE(c, std::abs(d) < 0.5 / static_cast<double>(j == 0 ? cx : cy), "fine element " << map(e, i) << " is not in coarse element " << e);
            }
        }
    }
    switch (c.in(0, 3)) {
    case 0:
        return refine_fields<1>(c, r);
    case 1:
        return refine_fields<2>(c, r);
    case 2:
        return refine_fields<3>(c, r);
    default:
        return refine_fields<4>(c, r);
    }
}

// ---------------------------------------------------------------------------------------- fine layer

using Poly = std::vector<std::array<double, 2>>;

// part of the polygon at sign * (x_axis - at) >= 0
static Poly clip(const Poly& p, size_t axis, double at, double sign)
{
    Poly r;
    for (size_t i = 0; i < p.size(); ++i) {
        auto a = p[i], b = p[(i + 1) % p.size()];
        double da = sign * (a[axis] - at), db = sign * (b[axis] - at);
        if (da >= 0) {
            r.push_back(a);
        }
        if ((da > 0 && db < 0) || (da < 0 && db > 0)) {
            double t = da / (da - db);
            r.push_back({a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])});
        }
    }
    return r;
}

static double area(const Poly& p)
{
    double r = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        auto a = p[i], b = p[(i + 1) % p.size()];
        r += 0.5 * (a[0] * b[1] - a[1] * b[0]);
    }
    return r;
}

template <size_t R>
static void regular_fields(Case& c, const M::Quad4::Map::FineLayer2Regular& m, const std::vector<std::map<size_t, double>>& overlap, size_t nreg)
{
    size_t n = overlap.size();
    c.desc << " rank=" << R;
    auto a = elemvar<R>(c, n);
    size_t w = a.size() / n;
    Arr<double, R> b = m.mapToRegular(a);
    REQUIRE(c, b.shape(0) == nreg && b.size() == nreg * w, "shape");
    std::vector<double> expect(nreg * w, 0.0);
    std::vector<double> ia(w, 0.0), ib(w, 0.0), con(w, 0.0);
    for (size_t e = 0; e < n; ++e) {
        for (auto& i : overlap[e]) {
            for (size_t k = 0; k < w; ++k) {
                expect[i.first * w + k] += i.second * a.flat(e * w + k);
                ia[k] += i.second * a.flat(e * w + k);
            }
        }
    }
    for (size_t i = 0; i < nreg; ++i) {
        for (size_t k = 0; k < w; ++k) {
            ib[k] += b.flat(i * w + k);
            REQUIRE(c, close(b.flat(i * w + k), expect[i * w + k], 1, 1e-8), "value in regular element " << i << " component " << k);
        }
    }
    for (size_t k = 0; k < w; ++k) {
        REQUIRE(c, close(ia[k], ib[k], nreg, 1e-9), "integral");
    }
    // constant
    for (size_t e = 0; e < n; ++e) {
        for (size_t k = 0; k < w; ++k) {
            a.flat(e * w + k) = 2.5 + static_cast<double>(k);
        }
    }
    b = m.mapToRegular(a);
    for (size_t i = 0; i < nreg; ++i) {
        for (size_t k = 0; k < w; ++k) {
            REQUIRE(c, close(b.flat(i * w + k), 2.5 + static_cast<double>(k), 1, 1e-9), "constant field is not constant in element " << i);
        }
    }
}

PROP(fine2regular, 60, 500)
{
    size_t nx = c.flip() ? width(c, 27) : width(c, 81);
    size_t ny = c.flip() ? c.in(1, 60) : c.small(1, 30);
    double h = edge_length(c);
    size_t nfine = c.rare(3) ? c.small(0, 12) : 1;
    c.desc << "FineLayer nx=" << nx << " ny=" << ny << " h=" << h << " nfine=" << nfine;
    M::Quad4::FineLayer fine(nx, ny, h, nfine);
    c.nontrivial(fine.nelem() != nx * fine.nely());
    c.label(fine.nelem() != nx * fine.nely(), "refined");
    M::Quad4::Map::FineLayer2Regular m(fine);
    auto F = m.fineLayerMesh();
    auto R = m.regularMesh();
    D2 x = fine.coor();
    I2 conn = fine.conn();
    REQUIRE(c, eq(F.conn(), conn) && eq(F.coor(), x), "fine-layer mesh");
    REQUIRE(c, R.nelx() == nx && R.nely() == fine.nely() && R.h() == h, "regular mesh");
    I2 grid = R.elementgrid();
    auto map = m.map();
    auto frac = m.mapFraction();
    REQUIRE(c, map.size() == fine.nelem() && frac.size() == fine.nelem(), "");
    REQUIRE(c, m.getMap() == map && m.getMapFraction() == frac, "deprecated names");
    REQUIRE(c, eq(m.getRegularMesh().conn(), R.conn()) && eq(m.getRegularMesh().coor(), R.coor()) && eq(m.getFineLayerMesh().conn(), conn) && eq(m.getFineLayerMesh().coor(), x), "deprecated names");
    size_t nreg = R.nelem();

    std::vector<std::map<size_t, double>> overlap(fine.nelem());
    std::vector<double> cover(nreg, 0.0);
    for (size_t e = 0; e < fine.nelem(); ++e) {
        REQUIRE(c, map[e].size() == frac[e].size(), "");
        std::map<size_t, double> got;
        for (size_t i = 0; i < map[e].size(); ++i) {
            REQUIRE(c, map[e][i] < nreg, "element " << map[e][i] << " does not exist");
            got[map[e][i]] += frac[e][i];
            cover[map[e][i]] += frac[e][i];
        }
        // exact overlap
        Poly p;
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
        for (size_t i = 0; i < 4; ++i) {
            p.push_back({x(conn(e, i), 0) / h, x(conn(e, i), 1) / h});
            for (size_t j = 0; j < 2; ++j) {
                lo[j] = std::min(lo[j], p.back()[j]);
                hi[j] = std::max(hi[j], p.back()[j]);
            }
        }
        for (size_t iy = std::llround(lo[1]); iy < size_t(std::llround(hi[1])); ++iy) {
            Poly q = clip(clip(p, 1, iy, 1.0), 1, iy + 1.0, -1.0);
            for (size_t ix = std::llround(lo[0]); ix < size_t(std::llround(hi[0])); ++ix) {
                double a = area(clip(clip(q, 0, ix, 1.0), 0, ix + 1.0, -1.0));
                if (a > 1e-6) {
                    overlap[e][grid(iy, ix)] = a;
                }
            }
        }
        for (auto& i : overlap[e]) {
            REQUIRE(c, close(got[i.first], i.second, 1, 1e-6), "overlap of element " << e << " with regular element " << i.first << ": " << got[i.first] << " != " << i.second);
        }
        for (auto& i : got) {
            REQUIRE(c, overlap[e].count(i.first) || std::abs(i.second) < 1e-6, "element " << e << " does not overlap with regular element " << i.first);
        }
    }
    for (size_t i = 0; i < nreg; ++i) {
        REQUIRE(c, close(cover[i], 1.0, 1, 1e-9), "regular element " << i << " is covered " << cover[i] << " times");
    }
    switch (c.in(0, 2)) {
    case 0:
        return regular_fields<1>(c, m, overlap, nreg);
    case 1:
        return regular_fields<2>(c, m, overlap, nreg);
    default:
        return regular_fields<3>(c, m, overlap, nreg);
    }
}

PBT_MAIN("C18")
