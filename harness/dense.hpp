// Dense reference model of the (sparse) matrices.
#pragma once
#include "fem.hpp"

namespace gen {

struct Dense {
    size_t n = 0, m = 0;
    std::vector<double> a;
    Dense() = default;
    Dense(size_t n_, size_t m_) : n(n_), m(m_), a(n_ * m_, 0.0)
    {
    }
    double& operator()(size_t i, size_t j)
    {
        return a[i * m + j];
    }
    double operator()(size_t i, size_t j) const
    {
        return a[i * m + j];
    }
    double norm() const // max row sum
    {
        double r = 0.0;
        for (size_t i = 0; i < n; ++i) {
            double s = 0.0;
            for (size_t j = 0; j < m; ++j) {
                s += std::abs(a[i * m + j]);
            }
            r = std::max(r, s);
        }
        return r;
    }
    template <class X>
    D1 dot(const X& x) const
    {
        D1 r = xt::zeros<double>({n});
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < m; ++j) {
                r(i) += a[i * m + j] * x(j);
            }
        }
        return r;
    }
    void assemble(const I2& conn, const I2& dofs, const D3& elemmat)
    {
        std::fill(a.begin(), a.end(), 0.0);
        size_t nne = conn.shape(1);
        size_t nd = dofs.shape(1);
        for (size_t e = 0; e < conn.shape(0); ++e) {
            for (size_t p = 0; p < nne * nd; ++p) {
                for (size_t q = 0; q < nne * nd; ++q) {
                    size_t i = dofs(conn(e, p / nd), p % nd);
                    size_t j = dofs(conn(e, q / nd), q % nd);
                    a[i * m + j] += elemmat(e, p, q);
                }
            }
        }
    }
};

inline Dense mul(const Dense& A, const Dense& B)
{
    Dense r(A.n, B.m);
    for (size_t i = 0; i < A.n; ++i) {
        for (size_t k = 0; k < A.m; ++k) {
            double v = A(i, k);
            if (v != 0.0) {
                for (size_t j = 0; j < B.m; ++j) {
                    r(i, j) += v * B(k, j);
                }
            }
        }
    }
    return r;
}

inline Dense transpose(const Dense& A)
{
    Dense r(A.m, A.n);
    for (size_t i = 0; i < A.n; ++i) {
        for (size_t j = 0; j < A.m; ++j) {
            r(j, i) = A(i, j);
        }
    }
    return r;
}

inline Dense dense(const Eigen::SparseMatrix<double>& A)
{
    Dense r(static_cast<size_t>(A.rows()), static_cast<size_t>(A.cols()));
    for (int k = 0; k < A.outerSize(); ++k) {
        for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) {
            r(static_cast<size_t>(it.row()), static_cast<size_t>(it.col())) += it.value();
        }
    }
    return r;
}

template <class A>
inline bool same_dense(const A& a, const Dense& r, double scale, double rtol = 1e-12)
{
    if (a.dimension() != 2 || a.shape(0) != r.n || a.shape(1) != r.m) {
        return false;
    }
    for (size_t i = 0; i < r.n; ++i) {
        for (size_t j = 0; j < r.m; ++j) {
            if (!close(a(i, j), r(i, j), scale, rtol)) {
                return false;
            }
        }
    }
    return true;
}

// Symmetric positive definite matrix per element (condition number is moderate),
// or (symmetric = false) a diagonally dominant matrix that is not symmetric.
inline D3 elemmat_spd(Case& c, size_t nelem, size_t n, bool symmetric = true, double f = 1.0)
{
    auto s = c.stream();
    D3 ret = xt::zeros<double>({nelem, n, n});
    for (size_t e = 0; e < nelem; ++e) {
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < n; ++j) {
                double v = s();
                if (symmetric && j < i) {
                    v = ret(e, j, i);
                }
                ret(e, i, j) = v;
            }
        }
        for (size_t i = 0; i < n; ++i) {
            double r = 0.0;
            for (size_t j = 0; j < n; ++j) {
                r += std::max(std::abs(ret(e, i, j)), std::abs(ret(e, j, i)));
            }
            ret(e, i, i) = 1.0 + 1.5 * r;
        }
    }
    ret *= f;
    return ret;
}

} // namespace gen
