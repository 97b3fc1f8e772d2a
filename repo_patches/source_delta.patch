From ed8d6a1babca5ea80752541aa90bd5e372159a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 01/32] fix: solver: refactorise if another matrix, or another
 state of the matrix, was factorised

---
 include/GooseFEM/Matrix.h                  | 27 +++++++++++++++++++---
 include/GooseFEM/MatrixPartitioned.h       |  9 +++++---
 include/GooseFEM/MatrixPartitionedTyings.h |  9 +++++---
 3 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 4a25c46..35a0dee 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -13,8 +13,25 @@
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
 
+#include <atomic>
+
 namespace GooseFEM {
 
+namespace detail {
+
+/**
+ * Identifier of a state of a matrix, to be able to check if a factorization is up-to-date.
+ *
+ * @return A different number (> 0) at every call.
+ */
+inline size_t matrix_revision()
+{
+    static std::atomic<size_t> counter{0};
+    return ++counter;
+}
+
+} // namespace detail
+
 // forward declaration
 template <class>
 class MatrixSolver;
@@ -207,6 +224,7 @@ protected:
     size_t m_ndof; ///< See ndof().
 
     bool m_changed = true; ///< Signal changes to data.
+    size_t m_revision = 0; ///< Identifier of the data, updated by the solver if the data changed.
 
 public:
     /**
@@ -892,18 +910,21 @@ private:
 
 private:
     Solver m_solver; ///< Solver.
-    bool m_factor = true; ///< Signal to force factorization.
+    size_t m_factor = 0; ///< Revision of the matrix that is factorized (0: nothing factorized).
 
     /**
      * Compute inverse (evaluated by "solve").
      */
     void factorize(Matrix& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (!A.m_changed && m_factor == A.m_revision) {
             return;
         }
         m_solver.compute(A.m_A);
-        m_factor = false;
+        if (A.m_changed) {
+            A.m_revision = detail::matrix_revision();
+        }
+        m_factor = A.m_revision;
         A.m_changed = false;
     }
 };
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 1567d61..384cf06 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -625,18 +625,21 @@ private:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_factor = 0; ///< Revision of the matrix that is factorized (0: nothing factorized).
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitioned& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (!A.m_changed && m_factor == A.m_revision) {
             return;
         }
         m_solver.compute(A.m_Auu);
-        m_factor = false;
+        if (A.m_changed) {
+            A.m_revision = detail::matrix_revision();
+        }
+        m_factor = A.m_revision;
         A.m_changed = false;
     }
 };
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 7ffa962..b4464f6 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -647,14 +647,14 @@ public:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_factor = 0; ///< Revision of the matrix that is factorized (0: nothing factorized).
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitionedTyings& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (!A.m_changed && m_factor == A.m_revision) {
             return;
         }
 
@@ -669,7 +669,10 @@ private:
         //     + A.m_Cpd * A.m_Add * A.m_Cdp;
 
         m_solver.compute(A.m_ACuu);
-        m_factor = false;
+        if (A.m_changed) {
+            A.m_revision = detail::matrix_revision();
+        }
+        m_factor = A.m_revision;
         A.m_changed = false;
     }
 };
-- 
2.43.0


From 00f6edb16523bbdeed2fe0c6a9531aca016e42ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 02/32] fix: MatrixDiagonalPartitioned: Reaction_p allocated
 output of undefined size

---
 include/GooseFEM/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 35a0dee..d98b689 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -573,7 +573,7 @@ public:
         const array_type::tensor<double, 1>& x_p
     ) const
     {
-        array_type::tensor<double, 1> b_p = xt::empty<double>({m_nnp});
+        array_type::tensor<double, 1> b_p = xt::empty<double>({this->nnp()});
         derived_cast().reaction_p_impl(x_u, x_p, b_p);
         return b_p;
     }
-- 
2.43.0


From 781ff980f60d2f0e6b71aed5bee8847f2ef7061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 03/32] fix: MatrixPartitionedTyingsSolver: include forces on
 dependent DOFs for all solve functions

---
 include/GooseFEM/MatrixPartitionedTyings.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index b4464f6..8d9ace6 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -483,7 +483,7 @@ private:
 
 #pragma omp parallel for
         for (size_t d = 0; d < m_nnd; ++d) {
-            dofval_d(d) = dofval(m_iip(d));
+            dofval_d(d) = dofval(m_iid(d));
         }
 
         return dofval_d;
@@ -572,6 +572,8 @@ private:
         Eigen::VectorXd B_d = A.AsDofs_d(b);
         Eigen::VectorXd X_p = A.AsDofs_p(x);
 
+        B_u += A.m_Cud * B_d;
+
         Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
@@ -630,7 +632,6 @@ public:
         array_type::tensor<double, 1>& x_u
     )
     {
-        UNUSED(b_d);
         GOOSEFEM_ASSERT(b_u.size() == A.m_nnu);
         GOOSEFEM_ASSERT(b_d.size() == A.m_nnd);
         GOOSEFEM_ASSERT(x_p.size() == A.m_nnp);
@@ -640,7 +641,8 @@ public:
 
         Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
+                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
+                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
                 A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
-- 
2.43.0


From 854e3ce2fdea3eaa57b1f164805ce40891c99d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 04/32] fix: gradient of the shape functions of general (Hex8)
 elements

The local gradient was contracted with the wrong index of the inverse Jacobian,
which is only invisible for elements that are aligned with the coordinate axes.
---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ce37145..c077b6a 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1217,7 +1217,7 @@ private:
                     for (size_t m = 0; m < D::s_nne; ++m) {
                         for (size_t i = 0; i < D::s_ndim; ++i) {
                             for (size_t j = 0; j < D::s_ndim; ++j) {
-                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, i);
+                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, j);
                             }
                         }
                     }
-- 
2.43.0


From a4dc3ebfa325e4c4829887097a7f30b254bf8952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 05/32] fix: Hex8::FineLayer: include middle nodes of the
 outermost layers in the faces

---
 include/GooseFEM/MeshHex8.h | 64 +++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/include/GooseFEM/MeshHex8.h b/include/GooseFEM/MeshHex8.h
index c43367e..fd66029 100644
--- a/include/GooseFEM/MeshHex8.h
+++ b/include/GooseFEM/MeshHex8.h
@@ -1599,6 +1599,14 @@ private:
             }
         }
 
+        // - outermost layers: only the middle node layer
+        if (m_refine(0) == 0) {
+            n += m_layer_nelx(0) * 2;
+        }
+        if (m_refine(nely - 1) == 0) {
+            n += m_layer_nelx(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1606,9 +1614,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix;
                 ++j;
             }
@@ -1622,7 +1630,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1631,7 +1639,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix;
                 ++j;
             }
@@ -1667,6 +1675,14 @@ private:
             }
         }
 
+        // - outermost layers: only the middle node layer
+        if (m_refine(0) == 0) {
+            n += m_layer_nelx(0) * 2;
+        }
+        if (m_refine(nely - 1) == 0) {
+            n += m_layer_nelx(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1674,9 +1690,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy > 0 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1691,7 +1707,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 0) {
                 for (size_t ix = 0; ix < 2 * m_layer_nelx(iy); ++ix) {
@@ -1701,7 +1717,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t ix = 1; ix < m_layer_nelx(iy); ++ix) {
+            for (size_t ix = 1; iy < nely - 1 && ix < m_layer_nelx(iy); ++ix) {
                 ret(j) = m_startNode(iy + 1) + ix + (m_layer_nelx(iy) + 1) * m_layer_nelz(iy);
                 ++j;
             }
@@ -1737,6 +1753,14 @@ private:
             }
         }
 
+        // - outermost layers: only the middle node layer
+        if (m_refine(0) == 2) {
+            n += m_layer_nelz(0) * 2;
+        }
+        if (m_refine(nely - 1) == 2) {
+            n += m_layer_nelz(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1744,9 +1768,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1760,7 +1784,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1769,7 +1793,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1);
                 ++j;
             }
@@ -1805,6 +1829,14 @@ private:
             }
         }
 
+        // - outermost layers: only the middle node layer
+        if (m_refine(0) == 2) {
+            n += m_layer_nelz(0) * 2;
+        }
+        if (m_refine(nely - 1) == 2) {
+            n += m_layer_nelz(nely - 1) * 2;
+        }
+
         // allocate node-list
         array_type::tensor<size_t, 1> ret = xt::empty<size_t>({n});
 
@@ -1812,9 +1844,9 @@ private:
         size_t j = 0;
 
         // bottom half: bottom node layer (+ middle node layer)
-        for (size_t iy = 1; iy < (nely + 1) / 2; ++iy) {
+        for (size_t iy = 0; iy < (nely + 1) / 2; ++iy) {
             // -- bottom node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy > 0 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
@@ -1829,7 +1861,7 @@ private:
         }
 
         // top half: (middle node layer +) top node layer
-        for (size_t iy = (nely - 1) / 2; iy < nely - 1; ++iy) {
+        for (size_t iy = (nely - 1) / 2; iy < nely; ++iy) {
             // -- refinement layer
             if (m_refine(iy) == 2) {
                 for (size_t iz = 0; iz < 2 * m_layer_nelz(iy); ++iz) {
@@ -1839,7 +1871,7 @@ private:
                 }
             }
             // -- top node layer
-            for (size_t iz = 1; iz < m_layer_nelz(iy); ++iz) {
+            for (size_t iz = 1; iy < nely - 1 && iz < m_layer_nelz(iy); ++iz) {
                 ret(j) = m_startNode(iy + 1) + iz * (m_layer_nelx(iy) + 1) + m_layer_nelx(iy);
                 ++j;
             }
-- 
2.43.0


From e665066b5c715f7fbc71222c64e5836901d6fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 06/32] fix: Quad4::FineLayer: reconstruct from mapping without
 reading out-of-bounds and without truncating the height

---
 include/GooseFEM/MeshQuad4.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 28b8e74..7fa8fd7 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1097,11 +1097,11 @@ private:
         size_t eleft = emid;
         size_t eright = emid;
 
-        while (conn(eleft, 0) == conn(eleft - 1, 1) && eleft > 0) {
+        while (eleft > 0 && conn(eleft, 0) == conn(eleft - 1, 1)) {
             eleft--;
         }
 
-        while (conn(eright, 1) == conn(eright + 1, 0) && eright < conn.shape(0) - 1) {
+        while (eright < conn.shape(0) - 1 && conn(eright, 1) == conn(eright + 1, 0)) {
             eright++;
         }
 
@@ -1124,7 +1124,8 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely = static_cast<size_t>((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
+        size_t nely =
+            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
         this->init(nelx, nely, hx);
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
-- 
2.43.0


From b2b569372f43159f2a11a3de5062a7086ee61f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 07/32] fix: Quad4::FineLayer: find the layer of elements in
 the last layer

---
 include/GooseFEM/MeshQuad4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 7fa8fd7..0c0b1b9 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -411,7 +411,7 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = xt::count_nonzero(m_startElem <= e)() - 1;
         size_t nel = m_layer_nelx(iy);
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
@@ -484,7 +484,7 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = xt::count_nonzero(m_startElem <= e)() - 1;
         size_t nel = m_layer_nelx(iy);
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
-- 
2.43.0


From 71cc743ad163a536d13b1d2c2e5076572e2fc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 08/32] fix: Quad4::FineLayer: refuse mapping of different
 shape instead of terminating

---
 include/GooseFEM/MeshQuad4.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 0c0b1b9..2df1a62 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1086,6 +1086,8 @@ private:
 
         if (conn.shape(0) == 1) {
             this->init(1, 1, coor(conn(0, 1), 0) - coor(conn(0, 0), 0));
+            GOOSEFEM_CHECK(xt::has_shape(conn, this->conn().shape()));
+            GOOSEFEM_CHECK(xt::has_shape(coor, this->coor().shape()));
             GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
             GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
             return;
@@ -1127,6 +1129,8 @@ private:
         size_t nely =
             static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
         this->init(nelx, nely, hx);
+        GOOSEFEM_CHECK(xt::has_shape(conn, this->conn().shape()));
+        GOOSEFEM_CHECK(xt::has_shape(coor, this->coor().shape()));
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
         GOOSEFEM_CHECK(
-- 
2.43.0


From b280739d3f6680472e888ed9ef1ba2286f0738f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 09/32] fix: Quad4::FineLayer: select elements around an
 element periodically also if the box extends beyond the edge

---
 include/GooseFEM/MeshQuad4.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 2df1a62..5915cf6 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -463,7 +463,17 @@ public:
             }
         }
 
-        auto ret = this->elementgrid_ravel({lh, uh}, {xl, xu});
+        // part of the box that (periodically) extends beyond the edges of the mesh
+        size_t wl = mid < size ? nel - std::min(size - mid, nel) : nel;
+        size_t wu = mid + size < nel ? 0 : std::min(mid + size + 1 - nel, nel);
+        wl = std::max(wl - wl % dx, xu);
+        wu = std::min(wu + (dx - wu % dx) % dx, xl);
+
+        array_type::tensor<size_t, 1> ret = xt::concatenate(xt::xtuple(
+            this->elementgrid_ravel({lh, uh}, {0, wu}),
+            this->elementgrid_ravel({lh, uh}, {xl, xu}),
+            this->elementgrid_ravel({lh, uh}, {wl, nel})
+        ));
         auto map = this->roll(nroll);
         return xt::view(map, xt::keep(ret));
     }
@@ -526,7 +536,17 @@ public:
         if (iy > 0) {
             yl = H(iy - 1);
         }
-        auto ret = this->elementgrid_ravel({yl, H(iy)}, {xl, xu});
+        // part of the box that (periodically) extends beyond the edges of the mesh
+        size_t wl = mid < left ? nel - std::min(left - mid, nel) : nel;
+        size_t wu = mid + right < nel ? 0 : std::min(mid + right + 1 - nel, nel);
+        wl = std::max(wl - wl % dx, xu);
+        wu = std::min(wu + (dx - wu % dx) % dx, xl);
+
+        array_type::tensor<size_t, 1> ret = xt::concatenate(xt::xtuple(
+            this->elementgrid_ravel({yl, H(iy)}, {0, wu}),
+            this->elementgrid_ravel({yl, H(iy)}, {xl, xu}),
+            this->elementgrid_ravel({yl, H(iy)}, {wl, nel})
+        ));
         auto map = this->roll(nroll);
         return xt::view(map, xt::keep(ret));
     }
-- 
2.43.0


From b2be0ec5222c3432be288e71e216c514b7347637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 10/32] fix: StopList: residuals that are not a number are not
 converged

---
 include/GooseFEM/Iterate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 8ec4c3b..eb4dc70 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -79,7 +79,8 @@ public:
      */
     bool descending() const
     {
-        return std::is_sorted(m_res.cbegin(), m_res.cend(), std::greater<double>());
+        return std::none_of(m_res.cbegin(), m_res.cend(), [](double i) { return std::isnan(i); }) &&
+               std::is_sorted(m_res.cbegin(), m_res.cend(), std::greater<double>());
     }
 
     /**
@@ -90,7 +91,7 @@ public:
      */
     bool all_less(double tol) const
     {
-        return !std::any_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i >= tol; });
+        return std::all_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i < tol; });
     }
 
     /**
-- 
2.43.0


From 6e55c5585d1765d5af8eb2635170a1083fe746e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 11/32] fix: nodaltyings: detect inconsistent ties without
 reading out-of-bounds

---
 include/GooseFEM/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index d7d5b84..8818344 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2852,7 +2852,7 @@ inline std::vector<std::vector<size_t>> nodaltyings(const D& dofs)
         for (size_t i = 1; i < ndim; ++i) {
             auto t = nodemap[dofs(m, i)];
             std::sort(t.begin(), t.end());
-            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin()));
+            GOOSEFEM_ASSERT(std::equal(r.begin(), r.end(), t.begin(), t.end()));
         }
 #endif
     }
-- 
2.43.0


From ffa2bd1129f978fecf6bd1e084e74d90f2f89a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 12/32] fix: elem2node: include nodes that are not part of the
 connectivity

---
 include/GooseFEM/Mesh.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 8818344..c57912d 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2519,6 +2519,8 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
     size_t nnode = dofs.shape(0);
     auto ret = elem2node(conn, sorted);
     auto nties = nodaltyings(dofs);
+    GOOSEFEM_ASSERT(ret.size() <= nnode);
+    ret.resize(nnode); // include nodes that are not part of the connectivity
 
     for (size_t m = 0; m < nnode; ++m) {
         if (nties[m].size() <= 1) {
-- 
2.43.0


From c95aa055d0086841eb8abe6a9340bf2684b1dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 13/32] fix: isSequential: detect holes

---
 include/GooseFEM/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index c077b6a..e2ef28c 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -103,8 +103,8 @@ inline bool isSequential(const E& dofs)
         exists[i]++;
     }
 
-    for (auto& i : dofs) {
-        if (exists[i] == 0) {
+    for (auto& i : exists) {
+        if (i == 0) {
             return false;
         }
     }
-- 
2.43.0


From bbb654b1547519bed9f1821578208389906ef9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 14/32] fix: isDiagonal: compile with OpenMP, and in more than
 one translation unit

---
 include/GooseFEM/Element.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index e2ef28c..7a8c460 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -119,7 +119,7 @@ inline bool isSequential(const E& dofs)
  * @param elemmat Element-vectors ("elemmat")
  * @return `true` if all element matrices are diagonal.
  */
-bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
+inline bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 {
     GOOSEFEM_ASSERT(elemmat.shape(1) == elemmat.shape(2));
 
@@ -128,7 +128,6 @@ bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 
     double eps = std::numeric_limits<double>::epsilon();
 
-#pragma omp parallel for
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
             for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From abc4dd568d683575b9cee33e5d7d5cf579aa4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 15/32] fix: Quadrature: check the shape of the input before
 using it

---
 include/GooseFEM/ElementHex8.h        | 10 ++++++----
 include/GooseFEM/ElementQuad4.h       | 10 ++++++----
 include/GooseFEM/ElementQuad4Planar.h | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/GooseFEM/ElementHex8.h b/include/GooseFEM/ElementHex8.h
index a50662c..3a941ed 100644
--- a/include/GooseFEM/ElementHex8.h
+++ b/include/GooseFEM/ElementHex8.h
@@ -259,6 +259,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -303,10 +309,6 @@ public:
             m_dNxi(q, 7, 2) = +0.125 * (1.0 - xi(q, 0)) * (1.0 + xi(q, 1));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index bbb146e..a0eff3a 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -281,6 +281,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
 
@@ -304,10 +310,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
diff --git a/include/GooseFEM/ElementQuad4Planar.h b/include/GooseFEM/ElementQuad4Planar.h
index cf278ee..d6e3b43 100644
--- a/include/GooseFEM/ElementQuad4Planar.h
+++ b/include/GooseFEM/ElementQuad4Planar.h
@@ -85,6 +85,12 @@ public:
         m_xi = xi;
         m_nip = w.size();
         m_nelem = m_x.shape(0);
+
+        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
+        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
+        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
+        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
+
         m_N = xt::empty<double>({m_nip, s_nne});
         m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
         m_thick = thick;
@@ -109,10 +115,6 @@ public:
             m_dNxi(q, 3, 1) = +0.25 * (1.0 - xi(q, 0));
         }
 
-        GOOSEFEM_ASSERT(m_x.shape(1) == s_nne);
-        GOOSEFEM_ASSERT(m_x.shape(2) == s_ndim);
-        GOOSEFEM_ASSERT(xt::has_shape(m_xi, {m_nip, s_ndim}));
-        GOOSEFEM_ASSERT(xt::has_shape(m_w, {m_nip}));
         GOOSEFEM_ASSERT(xt::has_shape(m_N, {m_nip, s_nne}));
         GOOSEFEM_ASSERT(xt::has_shape(m_dNxi, {m_nip, s_nne, s_ndim}));
 
-- 
2.43.0


From 7022abd049d262fc804b482fd8ef9d76ee7590d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 16/32] fix: MatrixPartitionedTyings: refuse connectivity with
 nodes that do not exist

---
 include/GooseFEM/MatrixPartitionedTyings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 8d9ace6..d9db6b3 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -130,6 +130,7 @@ public:
         m_Adp.resize(m_nnd, m_nnp);
         m_Add.resize(m_nnd, m_nnd);
 
+        GOOSEFEM_ASSERT(xt::all(m_conn < m_nnode));
         GOOSEFEM_ASSERT(m_ndof <= m_nnode * m_ndim);
         GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
     }
-- 
2.43.0


From e3b8fd062a151a9458306a749e1121cdc9533950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 17/32] fix: ManualStitch: refuse nodes that do not exist, and
 nodes that are stitched more than once

---
 include/GooseFEM/Mesh.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index c57912d..11504d4 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -1786,6 +1786,11 @@ public:
         GOOSEFEM_ASSERT(xt::has_shape(overlapping_nodes_a, overlapping_nodes_b.shape()));
         GOOSEFEM_ASSERT(coor_a.shape(1) == coor_b.shape(1));
         GOOSEFEM_ASSERT(conn_a.shape(1) == conn_b.shape(1));
+        GOOSEFEM_ASSERT(xt::all(conn_a < coor_a.shape(0)));
+        GOOSEFEM_ASSERT(xt::all(conn_b < coor_b.shape(0)));
+        GOOSEFEM_ASSERT(xt::all(overlapping_nodes_a < coor_a.shape(0)));
+        GOOSEFEM_ASSERT(xt::all(overlapping_nodes_b < coor_b.shape(0)));
+        GOOSEFEM_ASSERT(is_unique(overlapping_nodes_b));
 
         if (check_position) {
             GOOSEFEM_CHECK(xt::allclose(
-- 
2.43.0


From d445d6bb728a70e4ee93b4435c5908929da6d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 18/32] fix: Stitch, Vstack: refuse nodes that do not exist

---
 include/GooseFEM/Mesh.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 11504d4..b8d429b 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2038,6 +2038,7 @@ public:
     {
         GOOSEFEM_ASSERT(coor.dimension() == 2);
         GOOSEFEM_ASSERT(conn.dimension() == 2);
+        GOOSEFEM_ASSERT(xt::all(conn < coor.shape(0)));
 
         if (m_map.size() == 0) {
             m_coor = coor;
@@ -2337,6 +2338,12 @@ public:
     template <class C, class E, class N>
     void push_back(const C& coor, const E& conn, const N& nodes_bot, const N& nodes_top)
     {
+        GOOSEFEM_ASSERT(coor.dimension() == 2);
+        GOOSEFEM_ASSERT(conn.dimension() == 2);
+        GOOSEFEM_ASSERT(xt::all(conn < coor.shape(0)));
+        GOOSEFEM_ASSERT(xt::all(nodes_bot < coor.shape(0)));
+        GOOSEFEM_ASSERT(xt::all(nodes_top < coor.shape(0)));
+
         if (m_map.size() == 0) {
             m_coor = coor;
             m_conn = conn;
-- 
2.43.0


From e04a76b0911ce13a0aea84d9967b43b3a57fec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 19/32] fix: asElementVector: refuse nodes that do not exist

---
 include/GooseFEM/Element.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 7a8c460..5320edb 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -37,6 +37,8 @@ inline array_type::tensor<double, 3> asElementVector(
     size_t nne = conn.shape(1);
     size_t ndim = nodevec.shape(1);
 
+    GOOSEFEM_ASSERT(xt::all(conn < nodevec.shape(0)));
+
     array_type::tensor<double, 3> elemvec = xt::empty<double>({nelem, nne, ndim});
 
 #pragma omp parallel for
-- 
2.43.0


From 0b06bd44407020cc898e525eca7d9798cb0901ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 20/32] fix: VectorPartitionedTyings: refuse tyings that do not
 match the number of DOFs

---
 include/GooseFEM/VectorPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index 2f6a73a..4c66bba 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -107,7 +107,7 @@ public:
         m_Cid = m_Cdi.transpose();
 
         GOOSEFEM_ASSERT(static_cast<size_t>(m_Cdi.cols()) == m_nni);
-        GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
+        GOOSEFEM_ASSERT(m_ndof == m_nni + m_nnd);
     }
 
     /**
-- 
2.43.0


From ada8fbeef51fa367cb12965c43672038f915c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 21/32] fix: Quadrature::AsTensor: check the shape of the input

---
 include/GooseFEM/Element.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 5320edb..8464bd1 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -229,6 +229,7 @@ public:
     template <size_t rank, class T>
     auto AsTensor(const T& arg) const
     {
+        GOOSEFEM_ASSERT(xt::has_shape(arg, this->shape_qscalar()));
         return GooseFEM::AsTensor<rank>(arg, derived_cast().m_tdim);
     }
 
@@ -242,6 +243,7 @@ public:
     template <class T>
     auto AsTensor(size_t rank, const T& arg) const
     {
+        GOOSEFEM_ASSERT(xt::has_shape(arg, this->shape_qscalar()));
         return GooseFEM::AsTensor(rank, arg, derived_cast().m_tdim);
     }
 
-- 
2.43.0


From d33c62db047e0e0e28f361fd687f483f331f21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 22/32] fix: elemmap2nodemap: refuse elements that do not exist

---
 include/GooseFEM/Mesh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index b8d429b..9291384 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2690,6 +2690,7 @@ elemmap2nodemap(const T& elem_map, const C& coor, const E& conn, ElementType typ
     GOOSEFEM_ASSERT(conn.dimension() == 2);
     GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
     GOOSEFEM_ASSERT(elem_map.size() == conn.shape(0));
+    GOOSEFEM_ASSERT(xt::all(elem_map < conn.shape(0)));
     size_t N = coor.shape(0);
 
     array_type::tensor<size_t, 1> ret = N * xt::ones<size_t>({N});
-- 
2.43.0


From 56f2ace39e0ad08779df0d1a6e38cb96ec8b73f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 23/32] fix: Tri3: getOrientation, setOrientation: refuse nodes
 that do not exist

---
 include/GooseFEM/MeshTri3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/GooseFEM/MeshTri3.h b/include/GooseFEM/MeshTri3.h
index 7212f04..ab96e1e 100644
--- a/include/GooseFEM/MeshTri3.h
+++ b/include/GooseFEM/MeshTri3.h
@@ -241,6 +241,7 @@ getOrientation(const array_type::tensor<double, 2>& coor, const array_type::tens
 {
     GOOSEFEM_ASSERT(conn.shape(1) == 3ul);
     GOOSEFEM_ASSERT(coor.shape(1) == 2ul);
+    GOOSEFEM_ASSERT(xt::all(conn < coor.shape(0)));
 
     double k;
     size_t nelem = conn.shape(0);
@@ -285,6 +286,7 @@ inline array_type::tensor<size_t, 2> setOrientation(
 {
     GOOSEFEM_ASSERT(conn.shape(1) == 3ul);
     GOOSEFEM_ASSERT(coor.shape(1) == 2ul);
+    GOOSEFEM_ASSERT(xt::all(conn < coor.shape(0)));
     GOOSEFEM_ASSERT(conn.shape(0) == val.size());
     GOOSEFEM_ASSERT(orientation == -1 || orientation == +1);
 
@@ -318,6 +320,7 @@ inline array_type::tensor<size_t, 2> setOrientation(
 {
     GOOSEFEM_ASSERT(conn.shape(1) == 3ul);
     GOOSEFEM_ASSERT(coor.shape(1) == 2ul);
+    GOOSEFEM_ASSERT(xt::all(conn < coor.shape(0)));
     GOOSEFEM_ASSERT(orientation == -1 || orientation == +1);
 
     array_type::tensor<int, 1> val = getOrientation(coor, conn);
-- 
2.43.0


From 46b4a93f66180d8c3ad4f511f192b6359c71ad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 24/32] fix: RefineRegular::averageToCoarse: refuse weights of
 a different shape

---
 include/GooseFEM/MeshQuad4.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 5915cf6..ccb6a84 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1319,6 +1319,7 @@ public:
     ) const
     {
         GOOSEFEM_ASSERT(data.shape(0) == m_coarse2fine.size());
+        GOOSEFEM_ASSERT(xt::has_shape(data, weights.shape()));
 
         std::array<size_t, rank> shape;
         std::copy(data.shape().cbegin(), data.shape().cend(), &shape[0]);
-- 
2.43.0


From 9af1f536d95184600bc1a4695f71e71ad1704dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 25/32] fix: FineLayer: refuse selecting around an element that
 does not exist

---
 include/GooseFEM/MeshQuad4.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index ccb6a84..fa51765 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -410,6 +410,7 @@ public:
     elementgrid_around_ravel(size_t e, size_t size, bool periodic = true)
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
+        GOOSEFEM_ASSERT(e < m_nelem);
 
         size_t iy = xt::count_nonzero(m_startElem <= e)() - 1;
         size_t nel = m_layer_nelx(iy);
@@ -493,6 +494,7 @@ public:
     elementgrid_leftright(size_t e, size_t left, size_t right, bool periodic = true)
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
+        GOOSEFEM_ASSERT(e < m_nelem);
 
         size_t iy = xt::count_nonzero(m_startElem <= e)() - 1;
         size_t nel = m_layer_nelx(iy);
-- 
2.43.0


From bfea31d849b8f5095fe31c3777eca1dedadcd8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 26/32] fix: Vstack: check the number of dimensions before
 using the coordinates

---
 include/GooseFEM/Mesh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index 9291384..de156a0 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2355,6 +2355,7 @@ public:
             return;
         }
 
+        GOOSEFEM_ASSERT(coor.shape(1) == m_coor.shape(1));
         GOOSEFEM_ASSERT(nodes_bot.size() == m_nodes_top.back().size());
 
         size_t index = m_map.size();
-- 
2.43.0


From 4373018340e57d7fc3afb6bf846b56ee7a557b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:52 +0000
Subject: [PATCH 27/32] fix: FineLayer: refuse coordinates of which the height
 is not positive also without assertions

---
 include/GooseFEM/MeshQuad4.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index fa51765..63d8ec0 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1141,6 +1141,7 @@ private:
         auto hx = xt::amin(dx)();
         auto hy = xt::amin(dy)();
 
+        GOOSEFEM_CHECK(hx > 0.0);
         GOOSEFEM_CHECK(xt::allclose(hx, hy));
         GOOSEFEM_CHECK(xt::allclose(dx, hx));
         GOOSEFEM_CHECK(xt::allclose(dy, hy));
@@ -1148,8 +1149,9 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely =
-            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
+        double height = std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
+        GOOSEFEM_CHECK(height >= 1.0 && height <= static_cast<double>(nelx * conn.shape(0)));
+        size_t nely = static_cast<size_t>(height);
         this->init(nelx, nely, hx);
         GOOSEFEM_CHECK(xt::has_shape(conn, this->conn().shape()));
         GOOSEFEM_CHECK(xt::has_shape(coor, this->coor().shape()));
-- 
2.43.0


From 6e5cbafbfc4615027922d3c6aa8a8c83b5a220eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 28/32] fix: Python: MatrixPartitionedTyings: nni, nnd, iii,
 iid were those of the unknown and prescribed DOFs

---
 python/Matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/Matrix.hpp b/python/Matrix.hpp
index 507c897..7f388e2 100644
--- a/python/Matrix.hpp
+++ b/python/Matrix.hpp
@@ -140,10 +140,10 @@ void register_Matrix_MatrixPartitionedBase(P& cls)
 template <class C, class P>
 void register_Matrix_MatrixPartitionedTyingsBase(P& cls)
 {
-    cls.def_property_readonly("nni", &C::nnu, "Number of independent DOFs");
-    cls.def_property_readonly("nnd", &C::nnp, "Number of dependent DOFs");
-    cls.def_property_readonly("iii", &C::iiu, "Independent DOFs");
-    cls.def_property_readonly("iid", &C::iip, "Dependent DOFs");
+    cls.def_property_readonly("nni", &C::nni, "Number of independent DOFs");
+    cls.def_property_readonly("nnd", &C::nnd, "Number of dependent DOFs");
+    cls.def_property_readonly("iii", &C::iii, "Independent DOFs");
+    cls.def_property_readonly("iid", &C::iid, "Dependent DOFs");
 }
 
 template <class C, class M, class P>
-- 
2.43.0


From 23faff87c0d08567274191c13149d6e916215049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 29/32] fix: Python: Mesh.Hex8.FineLayer had no mesh
 (coordinates, connectivity, DOFs, node sets)

---
 python/MeshHex8.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/MeshHex8.hpp b/python/MeshHex8.hpp
index 45faeb1..721f3b8 100644
--- a/python/MeshHex8.hpp
+++ b/python/MeshHex8.hpp
@@ -52,6 +52,9 @@ void init_MeshHex8(py::module& mod)
             py::arg("nfine") = 1
         );
 
+        register_Mesh_RegularBase<GooseFEM::Mesh::Hex8::FineLayer>(cls);
+        register_Mesh_RegularBase3d<GooseFEM::Mesh::Hex8::FineLayer>(cls);
+
         cls.def("elementsMiddleLayer", &GooseFEM::Mesh::Hex8::FineLayer::elementsMiddleLayer);
 
         cls.def("__repr__", [](const GooseFEM::Mesh::Hex8::FineLayer&) {
-- 
2.43.0


From 3bd2d4bbe95821310632d2fdba1b59267c133225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:48 +0000
Subject: [PATCH 30/32] fix: FineLayer: tolerances relative to the element size
 when recognising a mesh

---
 include/GooseFEM/MeshQuad4.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 63d8ec0..b0f2434 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1111,7 +1111,7 @@ private:
             GOOSEFEM_CHECK(xt::has_shape(conn, this->conn().shape()));
             GOOSEFEM_CHECK(xt::has_shape(coor, this->coor().shape()));
             GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
-            GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
+            GOOSEFEM_CHECK(xt::allclose(this->coor(), coor, 1e-5, 1e-8 * m_h));
             return;
         }
 
@@ -1129,8 +1129,6 @@ private:
             eright++;
         }
 
-        GOOSEFEM_CHECK(xt::allclose(coor(conn(eleft, 0), 0), 0.0));
-
         // Get element sizes along the middle layer
 
         auto n0 = xt::view(conn, xt::range(eleft, eright + 1), 0);
@@ -1142,9 +1140,12 @@ private:
         auto hy = xt::amin(dy)();
 
         GOOSEFEM_CHECK(hx > 0.0);
-        GOOSEFEM_CHECK(xt::allclose(hx, hy));
-        GOOSEFEM_CHECK(xt::allclose(dx, hx));
-        GOOSEFEM_CHECK(xt::allclose(dy, hy));
+
+        double atol = 1e-8 * hx;
+        GOOSEFEM_CHECK(xt::allclose(coor(conn(eleft, 0), 0), 0.0, 1e-5, atol));
+        GOOSEFEM_CHECK(xt::allclose(hx, hy, 1e-5, atol));
+        GOOSEFEM_CHECK(xt::allclose(dx, hx, 1e-5, atol));
+        GOOSEFEM_CHECK(xt::allclose(dy, hy, 1e-5, atol));
 
         // Extract shape and initialise
 
@@ -1156,7 +1157,7 @@ private:
         GOOSEFEM_CHECK(xt::has_shape(conn, this->conn().shape()));
         GOOSEFEM_CHECK(xt::has_shape(coor, this->coor().shape()));
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
-        GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
+        GOOSEFEM_CHECK(xt::allclose(this->coor(), coor, 1e-5, atol));
         GOOSEFEM_CHECK(
             xt::all(xt::equal(this->elementsMiddleLayer(), eleft + xt::arange<size_t>(nelx)))
         );
-- 
2.43.0


From e0e4bd94e523e061cad5bf6041badfe6fde855ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:53 +0000
Subject: [PATCH 31/32] fix: Element::isDiagonal: tolerance relative to the
 largest entry

The tolerance was absolute (2.2e-16): matrices of small magnitude that are
not diagonal were accepted, by which MatrixDiagonal and
MatrixDiagonalPartitioned dropped their off-diagonal entries.
---
 include/GooseFEM/Element.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 8464bd1..3d7f978 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -128,7 +128,15 @@ inline bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
     size_t nelem = elemmat.shape(0);
     size_t N = elemmat.shape(1);
 
-    double eps = std::numeric_limits<double>::epsilon();
+    double scale = 0.0;
+
+    for (auto& i : elemmat) {
+        if (std::isfinite(i)) {
+            scale = std::max(scale, std::abs(i));
+        }
+    }
+
+    double eps = std::numeric_limits<double>::epsilon() * scale;
 
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
-- 
2.43.0


From 61380888b255e21293d26b84b5853155903334a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:27 +0000
Subject: [PATCH 32/32] fix: Stitch, Vstack: number of elements of a mesh that
 is the stitched mesh itself

---
 include/GooseFEM/Mesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index de156a0..c484246 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2062,10 +2062,10 @@ public:
             false
         );
 
+        m_nel.push_back(conn.shape(0)); // before overwriting: "conn" may refer to "m_conn"
         m_coor = stitch.coor();
         m_conn = stitch.conn();
         m_map.push_back(stitch.nodemap(1));
-        m_nel.push_back(conn.shape(0));
         m_el_offset.push_back(m_el_offset[index - 1] + m_nel[index - 1]);
     }
 
@@ -2371,10 +2371,10 @@ public:
         m_nodes_bot.push_back(stitch.nodeset(nodes_bot, 1));
         m_nodes_top.push_back(stitch.nodeset(nodes_top, 1));
 
+        m_nel.push_back(conn.shape(0)); // before overwriting: "conn" may refer to "m_conn"
         m_coor = stitch.coor();
         m_conn = stitch.conn();
         m_map.push_back(stitch.nodemap(1));
-        m_nel.push_back(conn.shape(0));
         m_el_offset.push_back(m_el_offset[index - 1] + m_nel[index - 1]);
     }
 
-- 
2.43.0

