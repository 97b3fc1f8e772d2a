// C12 (default): regular meshes; C15 (-DCHECK_FINE2D), C16 (-DCHECK_FINE3D): refined meshes.
#include "meshes.hpp"
using namespace gen;

#if !defined(CHECK_FINE2D) && !defined(CHECK_FINE3D)

PROP(quad4, 150, 1500)
{
    size_t nx = c.amount(1, 20, 80), ny = c.amount(1, 20, 80);
    if (c.rare(1500)) { // more than 2^16 nodes
        c.label("huge");
        nx = c.in(200, 420);
        ny = 66000 / nx + c.in(0, 20);
    }
    else if (c.rare(20)) {
        c.label("long");
        nx = c.in(1, 3);
        ny = c.in(20, 1000);
        if (c.flip()) {
            std::swap(nx, ny);
        }
    }
    double h = edge_length(c);
    c.desc << "Quad4 nx=" << nx << " ny=" << ny << " h=" << h;
    bool def = c.rare(5);
    h = def ? 1.0 : h;
    M::Quad4::Regular m = def ? M::Quad4::Regular(nx, ny) : M::Quad4::Regular(nx, ny, h);
    D2 x = m.coor();
    I2 conn = m.conn();
    c.nontrivial(nx * ny > 1 && nx != ny);
    c.label(nx == 1 || ny == 1, "one element wide");
    REQUIRE(c, m.nelx() == nx && m.nely() == ny && m.h() == h, "");
    REQUIRE(c, m.ndim() == 2 && m.nne() == 4 && m.elementType() == M::ElementType::Quad4, "");
    REQUIRE(c, m.nelem() == nx * ny && m.nnode() == (nx + 1) * (ny + 1), "");
    REQUIRE(c, is_shape(x, std::array<size_t, 2>{m.nnode(), 2}) && is_shape(conn, std::array<size_t, 2>{m.nelem(), 4}), "");
    check_tessellation(c, x, conn, {h * nx, h * ny}, h);
    for (size_t e = 0; e < m.nelem(); ++e) {
        for (size_t n = 0; n < 4; ++n) {
            for (size_t i = 0; i < 2; ++i) {
                double d = x(conn(e, n), i) - x(conn(e, 0), i);
                REQUIRE(c, close(d, 0.5 * h * (1 + corner(n, i)), h, 1e-9), "element " << e << " is not a square");
            }
        }
    }
    I2 g = m.elementgrid();
    REQUIRE(c, is_shape(g, std::array<size_t, 2>{ny, nx}), "");
    for (size_t iy = 0; iy < ny; ++iy) {
        for (size_t ix = 0; ix < nx; ++ix) {
            REQUIRE(c, g(iy, ix) < m.nelem(), "");
            size_t n = conn(g(iy, ix), 0);
            REQUIRE(c, close(x(n, 0), h * ix, h * nx) && close(x(n, 1), h * iy, h * ny), "elementgrid(" << iy << ", " << ix << ")");
        }
    }
}

PROP(tri3, 150, 1500)
{
    size_t nx = c.amount(1, 20, 80), ny = c.amount(1, 20, 80);
    if (c.rare(1500)) { // more than 2^16 nodes
        c.label("huge");
        nx = c.in(200, 420);
        ny = 66000 / nx + c.in(0, 20);
    }
    else if (c.rare(20)) {
        c.label("long");
        nx = c.in(1, 3);
        ny = c.in(20, 1000);
        if (c.flip()) {
            std::swap(nx, ny);
        }
    }
    double h = edge_length(c);
    c.desc << "Tri3 nx=" << nx << " ny=" << ny << " h=" << h;
    M::Tri3::Regular m(nx, ny, h);
    D2 x = m.coor();
    I2 conn = m.conn();
    c.nontrivial(nx * ny > 1 && nx != ny);
    REQUIRE(c, m.nelx() == nx && m.nely() == ny && m.h() == h, "");
    REQUIRE(c, m.ndim() == 2 && m.nne() == 3 && m.elementType() == M::ElementType::Tri3, "");
    REQUIRE(c, m.nelem() == 2 * nx * ny && m.nnode() == (nx + 1) * (ny + 1), "");
    REQUIRE(c, is_shape(x, std::array<size_t, 2>{m.nnode(), 2}) && is_shape(conn, std::array<size_t, 2>{m.nelem(), 3}), "");
    check_tessellation(c, x, conn, {h * nx, h * ny}, h);
    std::map<std::array<size_t, 2>, size_t> cell;
    for (size_t e = 0; e < m.nelem(); ++e) {
        std::vector<double> l;
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
        for (size_t n = 0; n < 3; ++n) {
            size_t a = conn(e, n), b = conn(e, (n + 1) % 3);
            l.push_back(std::hypot(x(a, 0) - x(b, 0), x(a, 1) - x(b, 1)));
            for (size_t i = 0; i < 2; ++i) {
                lo[i] = std::min(lo[i], x(a, i));
                hi[i] = std::max(hi[i], x(a, i));
            }
        }
        std::sort(l.begin(), l.end());
        REQUIRE(c, close(l[0], h, h) && close(l[1], h, h) && close(l[2], h * std::sqrt(2.0), h), "element " << e << " is not half a square");
        REQUIRE(c, close(hi[0] - lo[0], h, h) && close(hi[1] - lo[1], h, h), "element " << e);
        cell[{size_t(std::llround(lo[0] / h)), size_t(std::llround(lo[1] / h))}]++;
    }
    // each square is cut in two
    REQUIRE(c, cell.size() == nx * ny, "");
    for (auto& i : cell) {
        REQUIRE(c, i.second == 2, "");
    }
}

PROP(hex8, 100, 1000)
{
    size_t nx = c.amount(1, 8, 16), ny = c.amount(1, 8, 16), nz = c.amount(1, 8, 16);
    if (c.rare(3000)) { // more than 2^16 nodes
        c.label("huge");
        nx = c.in(30, 50);
        ny = c.in(30, 50);
        nz = 66000 / (nx * ny) + c.in(0, 5);
    }
    else if (c.rare(20)) {
        c.label("long");
        size_t a = c.in(1, 3), b = c.in(1, 3), l = c.in(20, 200), axis = c.in(0, 2);
        nx = axis == 0 ? l : a;
        ny = axis == 1 ? l : (axis == 0 ? a : b);
        nz = axis == 2 ? l : b;
    }
    double h = edge_length(c);
    c.desc << "Hex8 nx=" << nx << " ny=" << ny << " nz=" << nz << " h=" << h;
    bool def = c.rare(5);
    h = def ? 1.0 : h;
    M::Hex8::Regular m = def ? M::Hex8::Regular(nx, ny, nz) : M::Hex8::Regular(nx, ny, nz, h);
    D2 x = m.coor();
    I2 conn = m.conn();
    c.nontrivial(nx != ny && ny != nz && nx != nz);
    c.label(nx == 1 || ny == 1 || nz == 1, "one element wide");
    REQUIRE(c, m.nelx() == nx && m.nely() == ny && m.nelz() == nz && m.h() == h, "");
    REQUIRE(c, m.ndim() == 3 && m.nne() == 8 && m.elementType() == M::ElementType::Hex8, "");
    REQUIRE(c, m.nelem() == nx * ny * nz && m.nnode() == (nx + 1) * (ny + 1) * (nz + 1), "");
    REQUIRE(c, is_shape(x, std::array<size_t, 2>{m.nnode(), 3}) && is_shape(conn, std::array<size_t, 2>{m.nelem(), 8}), "");
    check_tessellation(c, x, conn, {h * nx, h * ny, h * nz}, h);
    for (size_t e = 0; e < m.nelem(); ++e) {
        for (size_t n = 0; n < 8; ++n) {
            for (size_t i = 0; i < 3; ++i) {
                double d = x(conn(e, n), i) - x(conn(e, 0), i);
                REQUIRE(c, close(d, 0.5 * h * (1 + corner(n, i)), h, 1e-9), "element " << e << " is not a cube");
            }
        }
    }
}

PBT_MAIN("C12")

#elif defined(CHECK_FINE2D)

PROP(fine, 250, 2500)
{
    size_t nx = width(c, 81);
    size_t ny = c.flip() ? c.in(1, 130) : c.small(1, 40);
    if (c.rare(200)) { // refined many times
        c.label("many layers");
        nx = width(c, 729);
        ny = c.in(1, 1200);
    }
    double h = edge_length(c);
    size_t nfine = c.flip() ? 1 : c.small(0, 24);
    c.desc << "FineLayer nx=" << nx << " ny=" << ny << " h=" << h << " nfine=" << nfine;
    M::Quad4::FineLayer m = nfine == 1 ? (h == 1.0 ? M::Quad4::FineLayer(nx, ny) : M::Quad4::FineLayer(nx, ny, h)) : M::Quad4::FineLayer(nx, ny, h, nfine);
    D2 x = m.coor();
    I2 conn = m.conn();
    size_t nmin = (ny + 1) / 2; // half the height, middle layer included
    size_t H = m.nely();
    double L[2] = {h * nx, h * H};
    const auto& nhx = m.elemrow_nhx();
    const auto& nhy = m.elemrow_nhy();
    const auto& type = m.elemrow_type();
    const auto& nel = m.elemrow_nelem();
    size_t nrow = nhx.size();
    size_t mid = (nrow - 1) / 2;
    size_t refined = std::count(type.begin(), type.end(), 0);
    c.nontrivial(refined > 0);
    c.label("refinements: " + std::to_string(refined / 2));

    REQUIRE(c, m.ndim() == 2 && m.nne() == 4 && m.elementType() == M::ElementType::Quad4 && m.h() == h, "");
    REQUIRE(c, m.nelx() == nx, m.nelx());
    REQUIRE(c, is_shape(x, std::array<size_t, 2>{m.nnode(), 2}) && is_shape(conn, std::array<size_t, 2>{m.nelem(), 4}), "");
    check_tessellation(c, x, conn, {L[0], L[1]}, h);

    // height
    REQUIRE(c, H + 1 >= 2 * nmin, "height " << H << " is less than requested");
    if (nrow > 1) {
        REQUIRE(c, H - 2 * nhy(0) + 1 < 2 * nmin, "the mesh is higher than needed: " << H << ", outermost layer " << nhy(0));
    }

    // announced rows
    REQUIRE(c, nrow % 2 == 1 && nhy.size() == nrow && type.size() == nrow && nel.size() == nrow, "");
    std::vector<size_t> owner(m.nelem(), nrow);
    double y = 0.0;
    for (size_t iy = 0; iy < nrow; ++iy) {
        REQUIRE(c, nhx(iy) == nhx(nrow - 1 - iy) && nhy(iy) == nhy(nrow - 1 - iy) && type(iy) == type(nrow - 1 - iy), "symmetry of row " << iy);
        REQUIRE(c, nel(iy) * nhx(iy) == nx, "row " << iy);
        REQUIRE(c, type(iy) == -1 || type(iy) == 0, "");
        I1 el = m.elementsLayer(iy);
        REQUIRE(c, el.size() == nel(iy) * (type(iy) == 0 ? 4 : 1), "number of elements in row " << iy);
        double area = 0.0;
        double dy = h * nhy(iy);
        for (size_t k = 0; k < el.size(); ++k) {
            size_t e = el(k);
            REQUIRE(c, e < m.nelem() && owner[e] == nrow, "element " << e << " is in several rows");
            owner[e] = iy;
            size_t block = type(iy) == 0 ? k / 4 : k;
            double bx = h * nhx(iy);
            for (size_t n = 0; n < 4; ++n) {
                double px = x(conn(e, n), 0), py = x(conn(e, n), 1);
                REQUIRE(c, py > y - 1e-6 * h && py < y + dy + 1e-6 * h, "element " << e << " is not in row " << iy);
                REQUIRE(c, px > bx * block - 1e-6 * h && px < bx * (block + 1) + 1e-6 * h, "element " << e << " is not in block " << block << " of row " << iy);
                if (type(iy) == -1) {
                    REQUIRE(c, close(px - x(conn(e, 0), 0), 0.5 * bx * (1 + corner(n, 0)), L[0]) && close(py - x(conn(e, 0), 1), 0.5 * dy * (1 + corner(n, 1)), L[1]), "element " << e << " is not a rectangle of the announced size");
                }
            }
            area += elem_volume(x, conn, e);
        }
        REQUIRE(c, close(area, L[0] * dy, 0), "row " << iy << " is not filled");
        y += dy;
    }
    for (auto o : owner) {
        REQUIRE(c, o < nrow, "element without row");
    }

    // refinement
    REQUIRE(c, nhx(mid) == 1 && nhy(mid) == 1 && type(mid) == -1, "middle layer");
    REQUIRE(c, eq(m.elementsMiddleLayer(), m.elementsLayer(mid)), "");
    size_t dist = 1, fine = 1;
    bool still = true;
    for (size_t iy = mid + 1; iy < nrow; ++iy) {
        REQUIRE(c, nhx(iy) >= nhx(iy - 1) && nhy(iy) >= nhy(iy - 1), "size of row " << iy << " decreases");
        REQUIRE(c, nhx(iy) == nhx(iy - 1) * (type(iy) == 0 ? 3 : 1), "row " << iy << " does not match its neighbour");
        REQUIRE(c, nhy(iy) == 1 || nhy(iy) <= dist, "element size of row " << iy << " is larger than the distance to the middle");
        dist += nhy(iy);
        still = still && nhx(iy) == 1 && nhy(iy) == 1 && type(iy) == -1;
        fine += still ? 2 : 0;
    }
    REQUIRE(c, fine >= std::min(nfine, 2 * nmin - 1), "number of fine layers " << fine);

    // symmetry of the actual mesh
    double u = h / 64;
    REQUIRE(c, cloud(x, u) == cloud(x, u, 1, L[1]), "nodes are not symmetric");
    D2 cen = element_centers(x, conn);
    REQUIRE(c, cloud(cen, h / 16) == cloud(cen, h / 16, 1, L[1]), "elements are not symmetric");
}

PBT_MAIN("C15")

#else

PROP(fine, 60, 500)
{
    size_t nx = width(c, 27);
    size_t nz = c.rare(3) ? nx : width(c, 27);
    size_t ny = c.flip() ? c.in(1, 60) : c.small(1, 24);
    bool many = c.rare(25);
    if (many) { // refined many times
        c.label("many layers");
        (c.flip() ? nx : nz) = c.pick<size_t>({81, 27, 54});
        ny = c.in(1, 200);
    }
    else if (c.rare(15)) { // long
        c.label("long");
        nx = c.in(1, 4);
        nz = c.in(1, 4);
        size_t axis = c.in(0, 2);
        (axis == 0 ? nx : (axis == 1 ? ny : nz)) = c.in(20, 240);
    }
    while (nx * nz > (many ? 750 : 300)) {
        (nx > nz ? nx : nz) /= 3;
    }
    double h = edge_length(c);
    size_t nfine = c.flip() ? 1 : c.small(0, 12);
    c.desc << "FineLayer nx=" << nx << " ny=" << ny << " nz=" << nz << " h=" << h << " nfine=" << nfine;
    M::Hex8::FineLayer m = nfine == 1 ? (h == 1.0 ? M::Hex8::FineLayer(nx, ny, nz) : M::Hex8::FineLayer(nx, ny, nz, h)) : M::Hex8::FineLayer(nx, ny, nz, h, nfine);
    D2 x = m.coor();
    I2 conn = m.conn();
    size_t nmin = (ny + 1) / 2;
    size_t H = m.nely();
    double L[3] = {h * nx, h * H, h * nz};
    c.nontrivial(m.nelem() != nx * nz * H);
    c.label(nx % 3 != 0 && nz % 3 != 0, "not divisible by three");

    REQUIRE(c, m.ndim() == 3 && m.nne() == 8 && m.elementType() == M::ElementType::Hex8 && m.h() == h, "");
    REQUIRE(c, m.nelx() == nx && m.nelz() == nz, "");
    REQUIRE(c, is_shape(x, std::array<size_t, 2>{m.nnode(), 3}) && is_shape(conn, std::array<size_t, 2>{m.nelem(), 8}), "");
    REQUIRE(c, H % 2 == 1 && H + 1 >= 2 * nmin, "height " << H << " is less than requested");
    check_tessellation(c, x, conn, {L[0], L[1], L[2]}, h);

    // middle layer: cubes of size h
    I1 el = m.elementsMiddleLayer();
    REQUIRE(c, el.size() == nx * nz, "");
    std::set<std::array<long long, 2>> cells;
    for (auto e : el) {
        REQUIRE(c, e < m.nelem(), "");
        for (size_t n = 0; n < 8; ++n) {
            for (size_t i = 0; i < 3; ++i) {
                REQUIRE(c, close(x(conn(e, n), i) - x(conn(e, 0), i), 0.5 * h * (1 + corner(n, i)), L[i]), "element " << e << " of the middle layer is not a cube of size h");
            }
        }
        REQUIRE(c, close(x(conn(e, 0), 1), 0.5 * (L[1] - h), L[1]), "element " << e << " is not in the middle");
        cells.insert({std::llround(x(conn(e, 0), 0) / h), std::llround(x(conn(e, 0), 2) / h)});
    }
    REQUIRE(c, cells.size() == nx * nz, "middle layer is not complete");

    // element sizes: height is never smaller further from the middle; smaller than the distance to the middle
    std::vector<std::array<double, 4>> s; // distance of nearest point to the middle plane, height, width, depth
    for (size_t e = 0; e < m.nelem(); ++e) {
        double lo[3], hi[3];
        for (size_t i = 0; i < 3; ++i) {
            lo[i] = hi[i] = x(conn(e, 0), i);
            for (size_t n = 0; n < 8; ++n) {
                lo[i] = std::min(lo[i], x(conn(e, n), i));
                hi[i] = std::max(hi[i], x(conn(e, n), i));
            }
        }
        double mid = 0.5 * L[1];
        double d = std::max({0.0, lo[1] - mid, mid - hi[1]});
        s.push_back({d, hi[1] - lo[1], hi[0] - lo[0], hi[2] - lo[2]});
        if (hi[1] - lo[1] > 1.5 * h) {
            REQUIRE(c, hi[1] - lo[1] < d + 0.5 * h + 1e-6 * h, "height of element " << e << " is larger than its distance to the middle");
        }
    }
    // no more layers than needed: distance from which the outermost layer starts
    double start = 0.5 * L[1];
    for (auto& i : s) {
        if (i[0] + i[1] > 0.5 * L[1] - 1e-6 * h) {
            start = std::min(start, i[0]);
        }
    }
    REQUIRE(c, H == 1 || start / h + 0.5 < nmin - 0.5, "the mesh is higher than needed: " << H << ", outermost layer from " << start);
    std::sort(s.begin(), s.end());
    size_t fine = 2 * nmin - 1;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i][1] > h * 1.001 || s[i][2] > h * 1.001 || s[i][3] > h * 1.001) {
            fine = std::min<size_t>(fine, 2 * size_t(std::llround((s[i][0] - 0.5 * h) / h)) + 1);
        }
    }
    REQUIRE(c, fine >= std::min(nfine, 2 * nmin - 1), "number of fine layers " << fine);

    // symmetry
    double u = h / 64;
    REQUIRE(c, cloud(x, u) == cloud(x, u, 1, L[1]), "nodes are not symmetric");
    D2 cen = element_centers(x, conn);
    REQUIRE(c, cloud(cen, h / 16) == cloud(cen, h / 16, 1, L[1]), "elements are not symmetric");
}

PBT_MAIN("C16")

#endif
