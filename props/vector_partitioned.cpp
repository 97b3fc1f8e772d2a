// C05: partitioned storage (class VectorPartitioned): "dofval_u", "dofval_p".
#include "fem.hpp"
using namespace gen;

struct Setup {
    Topo t;
    I1 iip;
    std::vector<size_t> iiu;
    size_t ndof, nelem, nne;
    std::vector<bool> isp;
    std::vector<size_t> loc; // dof -> index in iiu (or iip)
};

static Setup setup(Case& c)
{
    Setup s;
    s.t = topo(c, 300);
    s.ndof = gen::amax(s.t.dofs) + 1;
    s.nelem = s.t.conn.shape(0);
    s.nne = s.t.conn.shape(1);
    s.iip = prescribed(c, s.ndof);
    s.isp.assign(s.ndof, false);
    s.loc.assign(s.ndof, 0);
    for (size_t i = 0; i < s.iip.size(); ++i) {
        s.isp[s.iip(i)] = true;
        s.loc[s.iip(i)] = i;
    }
    for (size_t i = 0; i < s.ndof; ++i) {
        if (!s.isp[i]) {
            s.loc[i] = s.iiu.size();
            s.iiu.push_back(i);
        }
    }
    c.desc << "iip=" << str(s.iip) << "; ";
    c.nontrivial(s.iip.size() > 0 && s.iiu.size() > 0);
    return s;
}

PROP(partition, 5000, 50000)
{
    auto s = setup(c);
    GooseFEM::VectorPartitioned v(s.t.conn, s.t.dofs, s.iip);
    REQUIRE(c, v.nnu() == s.iiu.size(), v.nnu());
    REQUIRE(c, v.nnp() == s.iip.size(), v.nnp());
    REQUIRE(c, v.nnu() + v.nnp() == v.ndof(), "");
    REQUIRE(c, eq(v.iip(), s.iip), str(v.iip()));
    REQUIRE(c, eq(v.iiu(), vec(s.iiu)), str(v.iiu()));
    auto u = v.dofs_is_u();
    auto p = v.dofs_is_p();
    REQUIRE(c, is_shape(u, v.shape_nodevec()), "");
    REQUIRE(c, is_shape(p, v.shape_nodevec()), "");
    for (size_t n = 0; n < s.t.nnode; ++n) {
        for (size_t i = 0; i < s.t.ndim; ++i) {
            bool isp = s.isp[s.t.dofs(n, i)];
            REQUIRE(c, p(n, i) == isp, "dofs_is_p n=" << n << " i=" << i);
            REQUIRE(c, u(n, i) == !isp, "dofs_is_u n=" << n << " i=" << i);
        }
    }
}

PROP(copy, 5000, 50000)
{
    auto s = setup(c);
    GooseFEM::VectorPartitioned v(s.t.conn, s.t.dofs, s.iip);
    D2 src = anyfield<2>(c, v.shape_nodevec());
    D2 dst = junk<2>(v.shape_nodevec());
    D2 src0 = src;
    D2 dst0 = dst;
    D2 u = v.Copy_u(src, dst);
    D2 p = v.Copy_p(src, dst);
    REQUIRE(c, eq(src, src0) && eq(dst, dst0), "arguments modified");
    D2 u2 = dst;
    v.copy_u(src, u2);
    D2 p2 = dst;
    v.copy_p(src, p2);
    for (size_t i = 0; i < src.size(); ++i) {
        bool isp = s.isp[s.t.dofs.flat(i)];
        REQUIRE(c, u.flat(i) == (isp ? dst0.flat(i) : src0.flat(i)), "Copy_u entry=" << i);
        REQUIRE(c, p.flat(i) == (isp ? src0.flat(i) : dst0.flat(i)), "Copy_p entry=" << i);
        REQUIRE(c, u2.flat(i) == u.flat(i), "copy_u entry=" << i);
        REQUIRE(c, p2.flat(i) == p.flat(i), "copy_p entry=" << i);
    }
}

// dofval = (dofval_u, dofval_p), and the conversions commute with those of "Vector"
PROP(merge, 5000, 50000)
{
    auto s = setup(c);
    GooseFEM::VectorPartitioned v(s.t.conn, s.t.dofs, s.iip);
    D1 du = anyfield<1>(c, {s.iiu.size()});
    D1 dp = anyfield<1>(c, {s.iip.size()});
    D1 ref = xt::zeros<double>({s.ndof});
    for (size_t i = 0; i < s.ndof; ++i) {
        ref(i) = s.isp[i] ? dp(s.loc[i]) : du(s.loc[i]);
    }
    D1 d = v.DofsFromParitioned(du, dp);
    REQUIRE(c, eq(d, ref), "DofsFromParitioned " << str(d) << " expected " << str(ref));
    D1 d2 = junk<1>(v.shape_dofval());
    v.dofsFromParitioned(du, dp, d2);
    REQUIRE(c, eq(d2, ref), "dofsFromParitioned");
    D2 n = v.NodeFromPartitioned(du, dp);
    D2 n2 = junk<2>(v.shape_nodevec());
    v.nodeFromPartitioned(du, dp, n2);
    REQUIRE(c, eq(n2, n), "nodeFromPartitioned");
    D3 e = v.ElementFromPartitioned(du, dp);
    D3 e2 = junk<3>(v.shape_elemvec());
    v.elementFromPartitioned(du, dp, e2);
    REQUIRE(c, eq(e2, e), "elementFromPartitioned");
    REQUIRE(c, is_shape(n, v.shape_nodevec()) && is_shape(e, v.shape_elemvec()), "shape");
    for (size_t m = 0; m < s.t.nnode; ++m) {
        for (size_t i = 0; i < s.t.ndim; ++i) {
            REQUIRE(c, n(m, i) == ref(s.t.dofs(m, i)), "NodeFromPartitioned n=" << m << " i=" << i);
        }
    }
    for (size_t q = 0; q < s.nelem; ++q) {
        for (size_t m = 0; m < s.nne; ++m) {
            for (size_t i = 0; i < s.t.ndim; ++i) {
                REQUIRE(c, e(q, m, i) == ref(s.t.dofs(s.t.conn(q, m), i)), "ElementFromPartitioned e=" << q << " n=" << m << " i=" << i);
            }
        }
    }
    // inherited conversions
    REQUIRE(c, eq(v.AsNode(d), n), "AsNode");
    REQUIRE(c, eq(v.AsElement(d), e), "AsElement");
}

// extract: the part of a dofval / nodevec / elemvec
PROP(split, 5000, 50000)
{
    auto s = setup(c);
    GooseFEM::VectorPartitioned v(s.t.conn, s.t.dofs, s.iip);
    D1 dv = anyfield<1>(c, v.shape_dofval());
    D2 nv = anyfield<2>(c, v.shape_nodevec());
    D3 ev = anyfield<3>(c, v.shape_elemvec());
    std::vector<std::vector<double>> od(s.ndof), oe(s.ndof);
    for (size_t n = 0; n < s.t.nnode; ++n) {
        for (size_t i = 0; i < s.t.ndim; ++i) {
            od[s.t.dofs(n, i)].push_back(nv(n, i));
        }
    }
    for (size_t e = 0; e < s.nelem; ++e) {
        for (size_t n = 0; n < s.nne; ++n) {
            for (size_t i = 0; i < s.t.ndim; ++i) {
                oe[s.t.dofs(s.t.conn(e, n), i)].push_back(ev(e, n, i));
            }
        }
    }
    std::array<size_t, 1> su{s.iiu.size()};
    std::array<size_t, 1> sp{s.iip.size()};
    D1 u1 = v.AsDofs_u(dv), u2 = v.AsDofs_u(nv), u3 = v.AsDofs_u(ev);
    D1 p1 = v.AsDofs_p(dv), p2 = v.AsDofs_p(nv), p3 = v.AsDofs_p(ev);
    REQUIRE(c, is_shape(u1, su) && is_shape(u2, su) && is_shape(u3, su), "shape");
    REQUIRE(c, is_shape(p1, sp) && is_shape(p2, sp) && is_shape(p3, sp), "shape");
    for (size_t i = 0; i < s.ndof; ++i) {
        size_t k = s.loc[i];
        double d = s.isp[i] ? p1(k) : u1(k);
        double n = s.isp[i] ? p2(k) : u2(k);
        double e = s.isp[i] ? p3(k) : u3(k);
        REQUIRE(c, d == dv(i), "AsDofs_u/p(dofval) dof=" << i);
        REQUIRE(c, one_of(od[i], n), "AsDofs_u/p(nodevec) dof=" << i << " value=" << n);
        REQUIRE(c, oe[i].empty() ? e == 0.0 : one_of(oe[i], e), "AsDofs_u/p(elemvec) dof=" << i << " value=" << e);
    }
    D1 r = junk<1>(su);
    v.asDofs_u(dv, r);
    REQUIRE(c, eq(r, u1), "asDofs_u(dofval)");
    r = junk<1>(su);
    v.asDofs_u(nv, r);
    REQUIRE(c, eq(r, u2), "asDofs_u(nodevec)");
    r = junk<1>(su);
    v.asDofs_u(ev, r);
    REQUIRE(c, eq(r, u3), "asDofs_u(elemvec)");
    r = junk<1>(sp);
    v.asDofs_p(dv, r);
    REQUIRE(c, eq(r, p1), "asDofs_p(dofval)");
    r = junk<1>(sp);
    v.asDofs_p(nv, r);
    REQUIRE(c, eq(r, p2), "asDofs_p(nodevec)");
    r = junk<1>(sp);
    v.asDofs_p(ev, r);
    REQUIRE(c, eq(r, p3), "asDofs_p(elemvec)");
    // round-trip
    REQUIRE(c, eq(v.DofsFromParitioned(u1, p1), dv), "split and merge");
    D1 a = v.DofsFromParitioned(v.AsDofs_u(v.AsNode(dv)), v.AsDofs_p(v.AsNode(dv)));
    REQUIRE(c, eq(a, dv), "nodevec -> split -> merge");
}

PBT_MAIN("C05")
