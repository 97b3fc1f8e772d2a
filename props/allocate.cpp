// C24: allocation, broadcasting, and storage per element.
#include "element.hpp"
using namespace gen;

// ---- every entry of "ret" equals the scalar at the same leading index
template <class A, class B>
static void check_tensor(Case& c, const A& arg, const B& ret, const std::vector<size_t>& extra, const char* what)
{
    REQUIRE(c, ret.dimension() == arg.dimension() + extra.size(), what << ": dimension " << ret.dimension());
    size_t w = 1;
    for (size_t i = 0; i < ret.dimension(); ++i) {
        size_t n = i < arg.dimension() ? arg.shape(i) : extra[i - arg.dimension()];
        REQUIRE(c, ret.shape(i) == n, what << ": shape along axis " << i << " is " << ret.shape(i) << ", expected " << n);
    }
    for (auto& n : extra) {
        w *= n;
    }
    REQUIRE(c, ret.size() == arg.size() * w, what);
    for (size_t i = 0; i < arg.size(); ++i) {
        for (size_t j = 0; j < w; ++j) {
            REQUIRE(c, ret.data()[i * w + j] == arg.data()[i], what << ": entry " << i << "," << j << " is " << ret.data()[i * w + j] << ", expected " << arg.data()[i]);
        }
    }
}

template <class T, size_t N>
static Arr<T, N> scalars(Case& c, std::array<size_t, N> shape)
{
    Arr<T, N> r = xt::zeros<T>(shape);
    auto s = c.stream();
    for (auto& v : r) {
        double d = 100.0 * s();
        v = static_cast<T>(std::is_unsigned<T>::value ? std::abs(d) : d);
    }
    return r;
}

template <class T, size_t N, size_t rank>
static void broadcast_rank(Case& c, const Arr<T, N>& arg, size_t n)
{
    std::vector<size_t> extra(rank, n);
    check_tensor(c, arg, GooseFEM::AsTensor<rank>(arg, n), extra, "AsTensor<rank>");
    check_tensor(c, arg, GooseFEM::AsTensor(rank, arg, n), extra, "AsTensor(rank)");
    xt::xarray<T> dyn = arg;
    check_tensor(c, dyn, GooseFEM::AsTensor(rank, dyn, n), extra, "AsTensor(rank) of xarray");

    // arbitrary shape
    std::array<size_t, rank> shape;
    for (size_t i = 0; i < rank; ++i) {
        shape[i] = c.in(1, 4);
        extra[i] = shape[i];
    }
    check_tensor(c, arg, GooseFEM::AsTensor(arg, shape), extra, "AsTensor(array)");
    check_tensor(c, arg, GooseFEM::AsTensor(arg, extra), extra, "AsTensor(vector)");
    check_tensor(c, dyn, GooseFEM::AsTensor(dyn, extra), extra, "AsTensor(vector) of xarray");
    if constexpr (rank == 2) {
        size_t s[2] = {shape[0], shape[1]};
        check_tensor(c, arg, GooseFEM::AsTensor(arg, s), extra, "AsTensor(C-array)");
    }

    // in-place, does not depend on previous content
    std::array<size_t, N + rank> full;
    std::copy(arg.shape().begin(), arg.shape().end(), full.begin());
    std::copy(shape.begin(), shape.end(), full.begin() + N);
    Arr<T, N + rank> ret = xt::ones<T>(full);
    GooseFEM::asTensor(arg, ret);
    check_tensor(c, arg, ret, extra, "asTensor");
    xt::xarray<T> rdyn = xt::ones<T>(std::vector<size_t>(full.begin(), full.end()));
    GooseFEM::asTensor(dyn, rdyn);
    check_tensor(c, dyn, rdyn, extra, "asTensor of xarray");
    GooseFEM::asTensor(arg, rdyn);
    check_tensor(c, dyn, rdyn, extra, "asTensor, mixed");

    // mismatching shape: rejected
    if (N > 0) {
        auto bad = full;
        bad[c.in(0, N - 1)] += 1;
        Arr<T, N + rank> b = xt::ones<T>(bad);
        ASSERT_THROWS(c, std::exception, GooseFEM::asTensor(arg, b), "");
    }
}

template <class T, size_t N>
static void broadcast_type(Case& c)
{
    std::array<size_t, N> shape;
    for (auto& s : shape) {
        s = c.in(1, 4);
    }
    shape[0] = c.rare(40) ? c.in(1, 300) : shape[0];
    auto arg = scalars<T, N>(c, shape);
    size_t n = c.in(1, 4), rank = c.in(0, 4);
    c.desc << "shape=" << str(shape) << " n=" << n << " rank=" << rank << " values=" << str(arg);
    c.nontrivial(arg.size() > 1 && n > 1 && rank > 0);
    c.label("rank " + std::to_string(rank));
    switch (rank) {
    case 0:
        broadcast_rank<T, N, 0>(c, arg, n);
        break;
    case 1:
        broadcast_rank<T, N, 1>(c, arg, n);
        break;
    case 2:
        broadcast_rank<T, N, 2>(c, arg, n);
        break;
    case 3:
        broadcast_rank<T, N, 3>(c, arg, n);
        break;
    default:
        broadcast_rank<T, N, 4>(c, arg, n);
    }
}

PROP(broadcast, 100, 1000)
{
    switch (c.in(0, 4)) {
    case 0:
        return broadcast_type<double, 2>(c);
    case 1:
        return broadcast_type<double, 1>(c);
    case 2:
        return broadcast_type<double, 3>(c);
    case 3:
        return broadcast_type<int, 2>(c);
    default:
        return broadcast_type<size_t, 2>(c);
    }
}

template <class A>
static void pad(Case& c, const A& a)
{
    A b = GooseFEM::as3d(a);
    REQUIRE(c, b.dimension() == 2 && b.shape(0) == a.shape(0) && b.shape(1) == 3, "shape");
    for (size_t i = 0; i < a.shape(0); ++i) {
        for (size_t j = 0; j < 3; ++j) {
            if (j < a.shape(1)) {
                REQUIRE(c, b(i, j) == a(i, j), "entry " << i << "," << j << " is " << b(i, j) << ", expected " << a(i, j));
            }
            else {
                REQUIRE(c, b(i, j) == 0, "entry " << i << "," << j << " is " << b(i, j) << ", expected zero");
            }
        }
    }
}

PROP(as3d, 60, 600)
{
    size_t n = c.rare(20) ? c.in(1, 400) : c.in(1, 20), nd = c.in(1, 5);
    auto a = scalars<double, 2>(c, {n, nd});
    auto b = scalars<size_t, 2>(c, {n, nd});
    c.desc << "n=" << n << " ndim=" << nd;
    c.nontrivial(n > 1 && nd < 3);
    c.label("ndim " + std::to_string(nd));
    xt::xarray<double> d = a;
    if (nd > 3) {
        ASSERT_THROWS(c, std::exception, GooseFEM::as3d(a), "");
        ASSERT_THROWS(c, std::exception, GooseFEM::as3d(d), "");
        return;
    }
    pad(c, a);
    pad(c, b);
    pad(c, d);
}

// ------------------------------------------------------------------------------------ quadrature

template <class S>
static void shape_is(Case& c, const S& s, const std::vector<size_t>& e, const char* what)
{
    REQUIRE(c, std::vector<size_t>(s.begin(), s.end()) == e, what << ": " << str(s) << ", expected " << str(e));
}

template <class A>
static void array_is(Case& c, const A& a, const std::vector<size_t>& e, double val, bool check, const char* what)
{
    REQUIRE(c, is_shape(a, e), what << ": wrong shape, expected " << str(e));
    if (check) {
        for (auto& v : a) {
            REQUIRE(c, v == val, what << ": not initialised " << v);
        }
    }
    A b = a; // reads all memory
    REQUIRE(c, b.size() == a.size(), "");
}

template <class Q, size_t rank>
static void qtensor(Case& c, const Q& q, const D2& arg, size_t arbitrary)
{
    size_t td = q.tdim();
    std::vector<size_t> s{arg.shape(0), arg.shape(1)}, t = s;
    s.resize(2 + rank, td);
    t.resize(2 + rank, arbitrary);
    shape_is(c, q.template shape_qtensor<rank>(), s, "shape_qtensor<rank>");
    shape_is(c, q.shape_qtensor(rank), s, "shape_qtensor(rank)");
    shape_is(c, q.template shape_qtensor<rank>(rank, arbitrary), t, "shape_qtensor<rank>(rank, n)");
    shape_is(c, q.shape_qtensor(rank, arbitrary), t, "shape_qtensor(rank, n)");
    array_is(c, q.template allocate_qtensor<rank, double>(), s, 0, false, "allocate_qtensor<rank>");
    array_is(c, q.template allocate_qtensor<rank, double>(2.5), s, 2.5, true, "allocate_qtensor<rank>(val)");
    array_is(c, q.template allocate_qtensor<double>(rank), s, 0, false, "allocate_qtensor(rank)");
    array_is(c, q.template allocate_qtensor<double>(rank, -1.5), s, -1.5, true, "allocate_qtensor(rank, val)");
    array_is(c, q.template allocate_qtensor<rank, int>(3), s, 3, true, "allocate_qtensor<rank, int>(val)");
    std::vector<size_t> extra(rank, td);
    if constexpr (rank > 0) {
        check_tensor(c, arg, q.template AsTensor<rank>(arg), extra, "Quadrature::AsTensor<rank>");
        check_tensor(c, arg, q.AsTensor(rank, arg), extra, "Quadrature::AsTensor(rank)");
        auto ret = q.template allocate_qtensor<rank, double>(99.0);
        q.asTensor(arg, ret);
        check_tensor(c, arg, ret, extra, "Quadrature::asTensor");
    }
}

template <Kind K>
static void quadrature(Case& c)
{
    size_t nelem = c.rare(20) ? c.in(1, 100) : c.in(1, 6);
    D3 x = elements(c, K, nelem);
    auto sch = scheme(c, K);
    auto q = Quad<K>::make(x, sch, 1.0);
    size_t nip = sch.w.size(), nd = dim(K), n = gen::nne(K), td = gen::tdim(K), arb = c.in(1, 5);
    c.desc << name(K) << " nelem=" << nelem << " nip=" << nip << " n=" << arb;
    c.nontrivial(nelem != nip && nip > 1);
    c.label(name(K));
    REQUIRE(c, q.nelem() == nelem && q.nip() == nip && q.ndim() == nd && q.nne() == n && q.tdim() == td, "dimensions");
    shape_is(c, q.shape_elemvec(), {nelem, n, nd}, "shape_elemvec");
    shape_is(c, q.shape_elemvec(arb), {nelem, n, arb}, "shape_elemvec(n)");
    shape_is(c, q.shape_elemmat(), {nelem, n * nd, n * nd}, "shape_elemmat");
    shape_is(c, q.shape_qscalar(), {nelem, nip}, "shape_qscalar");
    shape_is(c, q.shape_qvector(), {nelem, nip, td}, "shape_qvector");
    shape_is(c, q.shape_qvector(arb), {nelem, nip, arb}, "shape_qvector(n)");
    array_is(c, q.template allocate_elemvec<double>(), {nelem, n, nd}, 0, false, "allocate_elemvec");
    array_is(c, q.template allocate_elemvec<double>(1.5), {nelem, n, nd}, 1.5, true, "allocate_elemvec(val)");
    array_is(c, q.template allocate_elemmat<double>(), {nelem, n * nd, n * nd}, 0, false, "allocate_elemmat");
    array_is(c, q.template allocate_elemmat<double>(-2.0), {nelem, n * nd, n * nd}, -2.0, true, "allocate_elemmat(val)");
    array_is(c, q.template allocate_qscalar<double>(), {nelem, nip}, 0, false, "allocate_qscalar");
    array_is(c, q.template allocate_qscalar<double>(4.0), {nelem, nip}, 4.0, true, "allocate_qscalar(val)");
    array_is(c, q.template allocate_qscalar<size_t>(4), {nelem, nip}, 4, true, "allocate_qscalar<size_t>(val)");
    auto arg = scalars<double, 2>(c, {nelem, nip});
    qtensor<decltype(q), 0>(c, q, arg, arb);
    qtensor<decltype(q), 1>(c, q, arg, arb);
    qtensor<decltype(q), 2>(c, q, arg, arb);
    qtensor<decltype(q), 3>(c, q, arg, arb);
    qtensor<decltype(q), 4>(c, q, arg, arb);
    // results have these shapes
    REQUIRE(c, is_shape(q.dV(), q.shape_qscalar()), "");
    D3 u = field<3>(c, q.shape_elemvec());
    REQUIRE(c, is_shape(q.GradN_vector(u), q.template shape_qtensor<2>()), "");
    REQUIRE(c, is_shape(q.SymGradN_vector(u), q.template shape_qtensor<2>()), "");
    REQUIRE(c, is_shape(q.Int_N_scalar_NT_dV(arg), q.shape_elemmat()), "");
    D4 sig = q.template AsTensor<2>(arg);
    REQUIRE(c, is_shape(q.Int_gradN_dot_tensor2_dV(sig), q.shape_elemvec()), "");
    // wrong shape of the scalars
    auto wrong = scalars<double, 2>(c, {nelem + 1, nip});
    auto ret = q.template allocate_qtensor<2, double>(0.0);
    ASSERT_THROWS(c, std::exception, q.asTensor(wrong, ret), "");
}

PROP(quadrature_arrays, 60, 600)
{
    switch (c.in(0, 3)) {
    case 0:
        return quadrature<Kind::quad4>(c);
    case 1:
        return quadrature<Kind::planar>(c);
    case 2:
        return quadrature<Kind::axisym>(c);
    default:
        return quadrature<Kind::hex8>(c);
    }
}

// ----------------------------------------------------------------------------- storage per element

PROP(element_vector, 150, 1500)
{
    auto t = topo(c);
    size_t nelem = t.conn.shape(0), nne = t.conn.shape(1), ndim = c.in(1, 4);
    size_t nnode = gen::amax(t.conn) + 1;
    c.desc << " components=" << ndim;
    c.nontrivial(nelem > 1);
    D2 u = field<2>(c, {t.nnode, ndim});
    D3 ue = GooseFEM::Element::asElementVector(t.conn, u);
    REQUIRE(c, is_shape(ue, std::vector<size_t>{nelem, nne, ndim}), "");
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t m = 0; m < nne; ++m) {
            for (size_t i = 0; i < ndim; ++i) {
                REQUIRE(c, ue(e, m, i) == u(t.conn(e, m), i), "element " << e << " node " << m << " component " << i);
            }
        }
    }
    D3 f = field<3>(c, {nelem, nne, ndim});
    D2 F = GooseFEM::Element::assembleNodeVector(t.conn, f);
    REQUIRE(c, is_shape(F, std::vector<size_t>{nnode, ndim}), "");
    D2 expect = xt::zeros<double>({nnode, ndim});
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t m = 0; m < nne; ++m) {
            for (size_t i = 0; i < ndim; ++i) {
                expect(t.conn(e, m), i) += f(e, m, i);
            }
        }
    }
    REQUIRE(c, same(F, expect), str(F) << " != " << str(expect));
    // virtual work is the same per element and per node
    double a = 0, b = 0;
    for (size_t i = 0; i < f.size(); ++i) {
        a += f.flat(i) * ue.flat(i);
    }
    for (size_t n = 0; n < nnode; ++n) {
        for (size_t i = 0; i < ndim; ++i) {
            b += F(n, i) * u(n, i);
        }
    }
    REQUIRE(c, close(a, b, static_cast<double>(f.size())), "");
    D3 wrong = field<3>(c, {nelem, nne + 1, ndim});
    ASSERT_THROWS(c, std::exception, GooseFEM::Element::assembleNodeVector(t.conn, wrong), "");
}

// DOFs without holes; only diagonal element matrices
PROP(predicates, 150, 1500)
{
    auto t = topo(c);
    I2 d = t.dofs; // all DOFs are used
    REQUIRE(c, GooseFEM::Element::isSequential(d), "DOFs without holes are said to have holes");
    size_t hole = c.in(0, 3);
    if (hole > 0) {
        // shift all DOFs from some number on
        size_t from = c.in(0, gen::amax(d));
        for (auto& i : d) {
            i += i >= from ? hole : 0;
        }
        REQUIRE(c, !GooseFEM::Element::isSequential(d), "DOFs with " << hole << " holes from " << from << " are said to be without");
        c.label("hole");
    }
    size_t nelem = t.conn.shape(0), n = t.conn.shape(1) * t.ndim;
    D3 m = xt::zeros<double>({nelem, n, n});
    auto s = c.stream();
    double f = magnitude(c);
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t i = 0; i < n; ++i) {
            m(e, i, i) = f * s();
        }
    }
    REQUIRE(c, GooseFEM::Element::isDiagonal(m), "diagonal matrices");
    if (n > 1) {
        size_t e = c.in(0, nelem - 1), i = c.in(0, n - 1), j = c.in(0, n - 1);
        if (i != j) {
            m(e, i, j) = f * c.pick({1.0, -1.0, 1e-10, -1e-10, 1e10, -1e10});
            REQUIRE(c, !GooseFEM::Element::isDiagonal(m), "entry " << e << "," << i << "," << j << " is " << m(e, i, j));
            c.label("not diagonal");
            c.nontrivial();
        }
    }
}

PBT_MAIN("C24")
