// C17: queries of the fine-layer mesh.
#include "meshes.hpp"
using namespace gen;

// Everything that the queries are about, from coordinates and connectivity.
struct Fine {
    size_t nx, ny, nfine;
    double h;
    M::Quad4::FineLayer m;
    D2 x, cen;
    I2 conn;
    size_t H = 0, nrow = 0, step = 0;
    std::vector<size_t> row; // per element: row (layer)
    std::vector<size_t> y0; // per row: lower bound

    Fine(Case& c, bool refine = false)
    {
        nx = refine ? 3 * width(c, 27) : width(c, 81);
        ny = refine ? c.in(5, 60) : (c.flip() ? c.in(1, 80) : c.small(1, 30));
        h = edge_length(c);
        nfine = c.rare(3) ? c.small(0, 12) : 1;
        c.desc << "FineLayer nx=" << nx << " ny=" << ny << " h=" << h << " nfine=" << nfine << "; ";
        m = M::Quad4::FineLayer(nx, ny, h, nfine);
        x = m.coor();
        conn = m.conn();
        cen = element_centers(x, conn);
        const auto& nhy = m.elemrow_nhy();
        nrow = nhy.size();
        H = 0;
        for (size_t i = 0; i < nrow; ++i) {
            y0.push_back(H);
            H += nhy(i);
            step = std::max(step, m.elemrow_nhx()(i));
        }
        y0.push_back(H);
        for (size_t e = 0; e < conn.shape(0); ++e) {
            size_t i = 0;
            while (i + 1 < nrow && cen(e, 1) > h * static_cast<double>(y0[i + 1])) {
                ++i;
            }
            row.push_back(i);
        }
        c.label(step > 1, "refined");
        c.label(nrow == 1, "one row");
    }
};

static std::set<size_t> unique(Case& c, const I1& a, size_t n)
{
    std::set<size_t> r(a.begin(), a.end());
    REQUIRE(c, r.size() == a.size(), "elements are selected more than once: " << str(a));
    for (auto e : r) {
        REQUIRE(c, e < n, "element " << e << " does not exist");
    }
    return r;
}

PROP(layer, 60, 500)
{
    Fine f(c);
    c.nontrivial(f.step > 1);
    for (size_t i = 0; i < f.nrow; ++i) {
        auto s = unique(c, f.m.elementsLayer(i), f.row.size());
        for (size_t e = 0; e < f.row.size(); ++e) {
            REQUIRE(c, s.count(e) == (f.row[e] == i), "layer " << i << " element " << e);
        }
    }
    REQUIRE(c, eq(f.m.elementsMiddleLayer(), f.m.elementsLayer((f.nrow - 1) / 2)), "");
}

PROP(grid, 150, 1500)
{
    Fine f(c, c.flip());
    std::vector<size_t> rows, cols;
    size_t a = 0, b = f.H, l = 0, r = f.nx;
    if (!c.rare(5)) {
        a = c.in(0, f.H);
        b = c.flip() ? c.in(a, f.H) : std::min(f.H, a + c.in(0, 3));
        rows = {a, b};
    }
    size_t unit = c.flip() ? f.step : 1;
    if (!c.rare(5)) {
        l = unit * c.in(0, f.nx / unit);
        r = c.flip() ? unit * c.in(l / unit, f.nx / unit) : std::min(f.nx, l + unit * c.in(0, 3));
        cols = {l, r};
    }
    c.desc << "rows=" << str(rows) << " cols=" << str(cols);
    auto s = unique(c, f.m.elementgrid_ravel(rows, cols), f.row.size());
    size_t hx = 0;
    std::vector<char> in(f.nrow);
    for (size_t i = 0; i < f.nrow; ++i) {
        in[i] = a < b && l < r && f.y0[i] < b && f.y0[i + 1] > a;
        hx = in[i] ? std::max(hx, f.m.elemrow_nhx()(i)) : hx;
    }
    c.nontrivial(a < b && l < r && s.size() < f.row.size());
    // in terms of the coarsest elements that are involved: exact if the columns are a multiple of that size
    bool exact = hx == 0 || (l % hx == 0 && r % hx == 0);
    c.label(exact && hx > 1, "exact, refined rows");
    c.label(!exact, "columns between elements");
    double L = f.h * l, R = f.h * r, m = exact ? 0.0 : f.h * hx;
    for (size_t e = 0; e < f.row.size(); ++e) {
        double x = f.cen(e, 0);
        if (!in[f.row[e]] || x < L - m || x > R + m) {
            REQUIRE(c, !s.count(e), "element " << e << " is not in the region, but it is selected");
        }
        else if (x > L + m && x < R - m) {
            REQUIRE(c, s.count(e), "element " << e << " is in the region, but it is not selected");
        }
    }
}

PROP(roll, 80, 800)
{
    Fine f(c, c.flip());
    double L = f.h * f.nx;
    size_t nblock = f.nx / f.step;
    size_t n = c.in(0, 2 * nblock);
    c.desc << "roll n=" << n;
    c.nontrivial(n % nblock != 0);
    auto map = f.m.roll(n);
    REQUIRE(c, map.size() == f.row.size(), "");
    unique(c, map, f.row.size());
    for (size_t e = 0; e < map.size(); ++e) {
        size_t o = map(e);
        REQUIRE(c, f.row[e] == f.row[o], "element " << e << " is from another layer");
        double d = f.cen(o, 0) + f.h * f.step * (n % nblock) - f.cen(e, 0);
        d -= L * std::round(d / L);
        REQUIRE(c, std::abs(d) < 1e-6 * f.h, "element " << e << " is not the image of " << o << " after moving " << n << " blocks");
        for (size_t i = 0; i < 4; ++i) {
            for (size_t j = 0; j < 2; ++j) {
                REQUIRE(c, close(f.x(f.conn(e, i), j) - f.cen(e, j), f.x(f.conn(o, i), j) - f.cen(o, j), L), "elements " << e << " and " << o << " are not congruent");
            }
        }
    }
}

// Select periodic box of columns [i - left, i + right] in rows between a and b (in units of h).
static void check_box(Case& c, const Fine& f, const std::set<size_t>& s, size_t col, size_t left, size_t right, double a, double b)
{
    size_t hx = 1;
    std::vector<char> in(f.nrow);
    for (size_t i = 0; i < f.nrow; ++i) {
        in[i] = f.y0[i] < b - 1e-6 && f.y0[i + 1] > a + 1e-6;
        hx = in[i] ? std::max(hx, f.m.elemrow_nhx()(i)) : hx;
    }
    bool all = left + right + 1 >= f.nx;
    double m = hx == 1 ? 0.0 : static_cast<double>(hx);
    c.label(hx > 1, "rows of coarser elements");
    c.label(!all && (col < left || col + right >= f.nx), "periodic");
    for (size_t e = 0; e < f.row.size(); ++e) {
        double x = f.cen(e, 0) / f.h - (static_cast<double>(col) + 0.5);
        x += 0.5 * (static_cast<double>(left) - static_cast<double>(right)); // relative to the centre of the box
        x -= f.nx * std::round(x / f.nx);
        double half = 0.5 * static_cast<double>(left + right + 1);
        if (!in[f.row[e]] || (!all && std::abs(x) > half + m)) {
            REQUIRE(c, !s.count(e), "element " << e << " is not in the box, but it is selected");
        }
        else if (all ? m == 0.0 : std::abs(x) < half - m) {
            REQUIRE(c, s.count(e), "element " << e << " is in the box, but it is not selected");
        }
    }
}

PROP(around, 150, 1500)
{
    Fine f(c, c.flip());
    size_t col = c.in(0, f.nx - 1);
    size_t mid = (f.nrow - 1) / 2;
    size_t e = f.m.elementsMiddleLayer()(col);
    size_t size = c.flip() ? c.in(0, 3) : c.in(0, f.nx);
    c.desc << "around column=" << col << " size=" << size;
    auto s = unique(c, f.m.elementgrid_around_ravel(e, size), f.row.size());
    c.nontrivial(s.size() > 1 && s.size() < f.row.size());
    REQUIRE(c, s.count(e), "the element itself is not selected");
    if (2 * size >= f.H) {
        REQUIRE(c, s.size() == f.row.size(), "box larger than the mesh");
        return;
    }
    double y = static_cast<double>(f.y0[mid]) + 0.5;
    check_box(c, f, s, col, size, size, y - size - 0.5, y + size + 0.5);
}

PROP(leftright, 100, 1000)
{
    Fine f(c, c.flip());
    size_t col = c.in(0, f.nx - 1);
    size_t mid = (f.nrow - 1) / 2;
    size_t e = f.m.elementsMiddleLayer()(col);
    size_t left = c.flip() ? c.in(0, 3) : c.in(0, f.nx + 1), right = c.flip() ? c.in(0, 3) : c.in(0, f.nx + 1);
    c.desc << "leftright column=" << col << " left=" << left << " right=" << right;
    auto s = unique(c, f.m.elementgrid_leftright(e, left, right), f.row.size());
    c.nontrivial(s.size() > 1 && s.size() < f.nx);
    check_box(c, f, s, col, left, right, f.y0[mid], f.y0[mid + 1]);
}

PROP(not_middle, 40, 300)
{
    // only implemented for the middle layer: anything else is refused
    Fine f(c, c.flip());
    size_t e = c.in(0, f.row.size() - 1);
    if (f.row[e] == (f.nrow - 1) / 2) {
        throw pbt::Discard();
    }
    c.nontrivial();
    c.label(f.row[e] == f.nrow - 1, "last layer");
    c.desc << "element=" << e;
    REQUIRE_THROWS(c, std::runtime_error, f.m.elementgrid_around_ravel(e, 1), "");
    REQUIRE_THROWS(c, std::runtime_error, f.m.elementgrid_leftright(e, 1, 1), "");
}

PROP(reconstruct, 80, 800)
{
    Fine f(c, c.flip());
    c.nontrivial(f.step > 1);
    try {
        M::Quad4::FineLayer r(f.x, f.conn);
        c.label("reconstructed");
        double L = f.h * std::max(f.nx, f.H);
        REQUIRE(c, r.nelx() == f.nx && r.nely() == f.H && r.nelem() == f.m.nelem() && r.nnode() == f.m.nnode(), "size");
        REQUIRE(c, close(r.h(), f.h, 0, 1e-6), "h");
        REQUIRE(c, same(r.coor(), f.x, L, 1e-5), "coordinates");
        REQUIRE(c, eq(r.conn(), f.conn), "connectivity");
        REQUIRE(c, eq(r.elemrow_nhx(), f.m.elemrow_nhx()) && eq(r.elemrow_nhy(), f.m.elemrow_nhy()) && eq(r.elemrow_type(), f.m.elemrow_type()) && eq(r.elemrow_nelem(), f.m.elemrow_nelem()), "rows");
        REQUIRE(c, eq(r.elementsMiddleLayer(), f.m.elementsMiddleLayer()), "middle layer");
        REQUIRE(c, eq(r.dofsPeriodic(), f.m.dofsPeriodic()), "periodicity");
    }
    catch (const std::runtime_error& e) {
        c.label("refused");
        // the number of fine layers is not stored: refusing is fine if it is not the default
        REQUIRE(c, f.nfine > 1 && !eq(M::Quad4::FineLayer(f.nx, f.H, f.h).conn(), f.conn), "mesh is refused: " << e.what());
    }
}

PROP(not_fine, 40, 300)
{
    // something else than a fine-layer mesh: identical or refused
    D2 x;
    I2 conn;
    bool must = false;
    size_t kind = c.in(0, 5);
    if (kind == 0) {
        size_t nx = c.in(1, 9), ny = c.in(1, 9);
        c.desc << "Regular " << nx << "x" << ny;
        M::Quad4::Regular m(nx, ny);
        x = m.coor();
        conn = m.conn();
        must = ny % 2 == 0;
    }
    else {
        Fine f(c);
        x = f.x;
        conn = f.conn;
        if (kind == 1) {
            size_t n = c.in(0, x.shape(0) - 1);
            x(n, c.in(0, 1)) += f.h * c.real(0.1, 1.0);
            c.desc << "moved node " << n;
            must = true;
        }
        else if (kind == 2) {
            size_t e = c.in(0, conn.shape(0) - 1);
            size_t i = c.in(0, 2);
            std::swap(conn(e, i), conn(e, i + 1));
            c.desc << "swapped nodes of element " << e;
            must = true;
        }
        else if (kind == 3) {
            for (auto& v : x) {
                v += f.h * 7.0;
            }
            must = true;
        }
        else if (kind == 4) {
            // some nodes far away
            size_t k = c.in(1, 3);
            c.desc << "far away:";
            for (size_t i = 0; i < k; ++i) {
                size_t n = c.flip() ? c.in(0, x.shape(0) - 1) : (c.flip() ? 0 : x.shape(0) - 1);
                double d = c.pick({2.0, 10.0, 1e3, 1e6, 1e12, 1e30, 1e300}) * (c.flip() ? -1.0 : 1.0);
                c.desc << " " << n << "(" << d << ")";
                x(n, c.in(0, 1)) += f.h * d;
            }
            // two moves may compensate each other
            must = !same(x, f.x, gen::maxabs(f.x), 1e-3);
        }
        else {
            // scaled per direction: no fine-layer mesh if it is not scaled equally
            double sx = c.pick({0.0, -1.0, 0.5, 1e-2, 1e12, 2.0}), sy = c.pick({0.0, -1.0, 0.5, 1e-2, 1e12, 2.0});
            c.desc << "scaled " << sx << " " << sy;
            for (size_t n = 0; n < x.shape(0); ++n) {
                x(n, 0) *= sx;
                x(n, 1) *= sy;
            }
            // (one element: FineLayer(1, 1, h) with h <= 0, which is not refused: what counts is that it is identical)
            must = sx != sy || (sx <= 0.0 && conn.shape(0) > 1);
        }
    }
    c.nontrivial(must);
    c.label(must, "to be refused");
    try {
        M::Quad4::FineLayer r(x, conn);
        REQUIRE(c, !must, "wrong mesh is accepted");
        REQUIRE(c, same(r.coor(), x, gen::maxabs(x), 1e-5) && eq(r.conn(), conn), "reconstructed mesh is different");
    }
    catch (const std::runtime_error&) {
    }
}

PBT_MAIN("C17")
