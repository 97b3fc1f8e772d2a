// C04: storage conversions "dofval" / "nodevec" / "elemvec" (class Vector).
#include "fem.hpp"
using namespace gen;

// Reference model: plain maps.
struct Model {
    const Topo& t;
    size_t ndof, nelem, nne;
    Model(const Topo& t_) : t(t_)
    {
        ndof = gen::amax(t.dofs) + 1;
        nelem = t.conn.shape(0);
        nne = t.conn.shape(1);
    }
};

PROP(shapes, 3000, 30000)
{
    auto t = topo(c, 300);
    Model m(t);
    GooseFEM::Vector v(t.conn, t.dofs);
    c.nontrivial(m.nelem > 1 || t.shared);
    REQUIRE(c, v.nelem() == m.nelem, "");
    REQUIRE(c, v.nne() == m.nne, "");
    REQUIRE(c, v.nnode() == t.nnode, "");
    REQUIRE(c, v.ndim() == t.ndim, "");
    REQUIRE(c, v.ndof() == m.ndof, v.ndof() << " " << m.ndof);
    REQUIRE(c, eq(v.conn(), t.conn), "");
    REQUIRE(c, eq(v.dofs(), t.dofs), "");
    REQUIRE(c, (v.shape_dofval() == std::array<size_t, 1>{m.ndof}), "");
    REQUIRE(c, (v.shape_nodevec() == std::array<size_t, 2>{t.nnode, t.ndim}), "");
    REQUIRE(c, (v.shape_elemvec() == std::array<size_t, 3>{m.nelem, m.nne, t.ndim}), "");
    REQUIRE(c, (v.shape_elemmat() == std::array<size_t, 3>{m.nelem, m.nne * t.ndim, m.nne * t.ndim}), "");
    double x = c.real(-2, 2);
    auto is = [&](const auto& a, const auto& shape) { return is_shape(a, shape); };
    auto con = [&](const auto& a, const auto& shape) {
        return is(a, shape) && std::all_of(a.begin(), a.end(), [&](double y) { return y == x; });
    };
    REQUIRE(c, is(v.allocate_dofval(), v.shape_dofval()), "");
    REQUIRE(c, is(v.allocate_nodevec(), v.shape_nodevec()), "");
    REQUIRE(c, is(v.allocate_elemvec(), v.shape_elemvec()), "");
    REQUIRE(c, is(v.allocate_elemmat(), v.shape_elemmat()), "");
    REQUIRE(c, con(v.allocate_dofval(x), v.shape_dofval()), "");
    REQUIRE(c, con(v.allocate_nodevec(x), v.shape_nodevec()), "");
    REQUIRE(c, con(v.allocate_elemvec(x), v.shape_elemvec()), "");
    REQUIRE(c, con(v.allocate_elemmat(x), v.shape_elemmat()), "");
}

// gather: an element (node) gets exactly the value of its node (dof)
PROP(gather, 6000, 60000)
{
    auto t = topo(c, 300);
    Model m(t);
    GooseFEM::Vector v(t.conn, t.dofs);
    c.nontrivial(m.nelem > 1 && t.nnode > 1);
    D1 dv = anyfield<1>(c, v.shape_dofval());
    D2 nv = anyfield<2>(c, v.shape_nodevec());

    D2 a = v.AsNode(dv);
    D2 a2 = junk<2>(v.shape_nodevec());
    v.asNode(dv, a2);
    for (size_t n = 0; n < t.nnode; ++n) {
        for (size_t i = 0; i < t.ndim; ++i) {
            REQUIRE(c, a(n, i) == dv(t.dofs(n, i)), "AsNode(dofval) n=" << n << " i=" << i);
        }
    }
    REQUIRE(c, eq(a, a2), "asNode(dofval) != AsNode(dofval)");

    D3 b = v.AsElement(dv);
    D3 b2 = junk<3>(v.shape_elemvec());
    v.asElement(dv, b2);
    D3 e = v.AsElement(nv);
    D3 e2 = junk<3>(v.shape_elemvec());
    v.asElement(nv, e2);
    for (size_t q = 0; q < m.nelem; ++q) {
        for (size_t n = 0; n < m.nne; ++n) {
            for (size_t i = 0; i < t.ndim; ++i) {
                REQUIRE(c, b(q, n, i) == dv(t.dofs(t.conn(q, n), i)), "AsElement(dofval) e=" << q << " n=" << n << " i=" << i);
                REQUIRE(c, e(q, n, i) == nv(t.conn(q, n), i), "AsElement(nodevec) e=" << q << " n=" << n << " i=" << i);
            }
        }
    }
    REQUIRE(c, eq(b, b2), "asElement(dofval) != AsElement(dofval)");
    REQUIRE(c, eq(e, e2), "asElement(nodevec) != AsElement(nodevec)");

    // dynamic rank input
    xt::xarray<double> xd = dv;
    xt::xarray<double> xn = nv;
    REQUIRE(c, eq(v.AsNode(xd), a), "AsNode(xarray dofval)");
    REQUIRE(c, eq(v.AsElement(xd), b), "AsElement(xarray dofval)");
    REQUIRE(c, eq(v.AsElement(xn), e), "AsElement(xarray nodevec)");

    // copy
    D2 src = nv;
    D2 dst = junk<2>(v.shape_nodevec());
    D2 cp = v.Copy(src, dst);
    REQUIRE(c, eq(cp, nv), "Copy");
    REQUIRE(c, eq(src, nv), "Copy: source");
    v.copy(src, dst);
    REQUIRE(c, eq(dst, nv), "copy");
}

// as*: entries that occur more than once are overwritten: the result is one of the occurrences (and is
// the value if all occurrences agree); entries that do not occur are zero.
PROP(overwrite, 6000, 60000)
{
    auto t = topo(c, 300);
    Model m(t);
    GooseFEM::Vector v(t.conn, t.dofs);
    D2 nv = anyfield<2>(c, v.shape_nodevec());
    D3 ev = anyfield<3>(c, v.shape_elemvec());
    c.nontrivial(t.shared || m.nelem > 1);

    std::vector<std::vector<double>> od(m.ndof), oe(m.ndof);
    std::vector<std::vector<double>> on(t.nnode * t.ndim);
    for (size_t n = 0; n < t.nnode; ++n) {
        for (size_t i = 0; i < t.ndim; ++i) {
            od[t.dofs(n, i)].push_back(nv(n, i));
        }
    }
    for (size_t e = 0; e < m.nelem; ++e) {
        for (size_t n = 0; n < m.nne; ++n) {
            for (size_t i = 0; i < t.ndim; ++i) {
                oe[t.dofs(t.conn(e, n), i)].push_back(ev(e, n, i));
                on[t.conn(e, n) * t.ndim + i].push_back(ev(e, n, i));
            }
        }
    }

    D1 a = v.AsDofs(nv);
    D1 a2 = junk<1>(v.shape_dofval());
    v.asDofs(nv, a2);
    D1 b = v.AsDofs(ev);
    D1 b2 = junk<1>(v.shape_dofval());
    v.asDofs(ev, b2);
    D2 d = v.AsNode(ev);
    D2 d2 = junk<2>(v.shape_nodevec());
    v.asNode(ev, d2);
    for (size_t i = 0; i < m.ndof; ++i) {
        REQUIRE(c, one_of(od[i], a(i)), "AsDofs(nodevec) dof=" << i << " value=" << a(i));
        REQUIRE(c, oe[i].empty() ? b(i) == 0.0 : one_of(oe[i], b(i)), "AsDofs(elemvec) dof=" << i << " value=" << b(i));
    }
    for (size_t i = 0; i < on.size(); ++i) {
        REQUIRE(c, on[i].empty() ? d.flat(i) == 0.0 : one_of(on[i], d.flat(i)), "AsNode(elemvec) entry=" << i << " value=" << d.flat(i));
    }
    REQUIRE(c, eq(a, a2), "asDofs(nodevec) != AsDofs(nodevec)");
    REQUIRE(c, eq(b, b2), "asDofs(elemvec) != AsDofs(elemvec)");
    REQUIRE(c, eq(d, d2), "asNode(elemvec) != AsNode(elemvec)");
    xt::xarray<double> xn = nv;
    xt::xarray<double> xe = ev;
    REQUIRE(c, eq(v.AsDofs(xn), a), "AsDofs(xarray nodevec)");
    REQUIRE(c, eq(v.AsDofs(xe), b), "AsDofs(xarray elemvec)");
    REQUIRE(c, eq(v.AsNode(xe), d), "AsNode(xarray elemvec)");

    // round-trips: a field that is a function of the dof survives each conversion
    D1 dv = anyfield<1>(c, v.shape_dofval());
    REQUIRE(c, eq(v.AsDofs(v.AsNode(dv)), dv), "dofval -> nodevec -> dofval");
    D1 r = v.AsDofs(v.AsElement(dv));
    for (size_t i = 0; i < m.ndof; ++i) {
        REQUIRE(c, r(i) == (oe[i].empty() ? 0.0 : dv(i)), "dofval -> elemvec -> dofval, dof=" << i);
    }
    D2 q = v.AsNode(v.AsElement(nv));
    for (size_t i = 0; i < on.size(); ++i) {
        REQUIRE(c, q.flat(i) == (on[i].empty() ? 0.0 : nv.flat(i)), "nodevec -> elemvec -> nodevec, entry=" << i);
    }
}

// assemble*: entries that occur more than once are added
PROP(assemble, 6000, 60000)
{
    auto t = topo(c, 300);
    Model m(t);
    GooseFEM::Vector v(t.conn, t.dofs);
    D2 nv = anyfield<2>(c, v.shape_nodevec());
    D3 ev = anyfield<3>(c, v.shape_elemvec());
    c.nontrivial(t.shared || m.nelem > 1);

    D1 rn = xt::zeros<double>({m.ndof});
    D1 re = xt::zeros<double>({m.ndof});
    for (size_t n = 0; n < t.nnode; ++n) {
        for (size_t i = 0; i < t.ndim; ++i) {
            rn(t.dofs(n, i)) += nv(n, i);
        }
    }
    for (size_t e = 0; e < m.nelem; ++e) {
        for (size_t n = 0; n < m.nne; ++n) {
            for (size_t i = 0; i < t.ndim; ++i) {
                re(t.dofs(t.conn(e, n), i)) += ev(e, n, i);
            }
        }
    }
    double sn = maxabs(nv) * static_cast<double>(t.nnode * t.ndim);
    double scale = maxabs(ev) * static_cast<double>(ev.size());
    D1 a = v.AssembleDofs(nv);
    D1 a2 = junk<1>(v.shape_dofval());
    v.assembleDofs(nv, a2);
    D1 b = v.AssembleDofs(ev);
    D1 b2 = junk<1>(v.shape_dofval());
    v.assembleDofs(ev, b2);
    D2 d = v.AssembleNode(ev);
    D2 d2 = junk<2>(v.shape_nodevec());
    v.assembleNode(ev, d2);
    REQUIRE(c, same(a, rn, sn, 1e-13), "AssembleDofs(nodevec): " << str(a) << " expected " << str(rn));
    REQUIRE(c, same(a2, rn, sn, 1e-13), "assembleDofs(nodevec)");
    REQUIRE(c, same(b, re, scale, 1e-13), "AssembleDofs(elemvec): " << str(b) << " expected " << str(re));
    REQUIRE(c, same(b2, re, scale, 1e-13), "assembleDofs(elemvec)");
    for (size_t n = 0; n < t.nnode; ++n) {
        for (size_t i = 0; i < t.ndim; ++i) {
            REQUIRE(c, close(d(n, i), re(t.dofs(n, i)), scale, 1e-13), "AssembleNode(elemvec) n=" << n << " i=" << i);
            REQUIRE(c, close(d2(n, i), re(t.dofs(n, i)), scale, 1e-13), "assembleNode(elemvec) n=" << n << " i=" << i);
        }
    }
    xt::xarray<double> xn = nv;
    xt::xarray<double> xe = ev;
    REQUIRE(c, same(v.AssembleDofs(xn), rn, sn, 1e-13), "AssembleDofs(xarray nodevec)");
    REQUIRE(c, same(v.AssembleDofs(xe), re, scale, 1e-13), "AssembleDofs(xarray elemvec)");
    REQUIRE(c, same(v.AssembleNode(xe), d, scale, 1e-13), "AssembleNode(xarray elemvec)");

    // virtual work: the assembly is the adjoint of the gather: <Assemble(f), u> = <f, Element(u)>
    D1 u = anyfield<1>(c, v.shape_dofval());
    double l = 0.0, r = 0.0;
    D3 ue = v.AsElement(u);
    for (size_t i = 0; i < m.ndof; ++i) {
        l += b(i) * u(i);
    }
    for (size_t i = 0; i < ue.size(); ++i) {
        r += ue.flat(i) * ev.flat(i);
    }
    REQUIRE(c, close(l, r, scale * maxabs(u), 1e-12), "adjoint " << l << " " << r);
}

PBT_MAIN("C04")
