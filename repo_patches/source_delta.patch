From 6689d3c4ba529e9e4c472d8726e1a031d2b356de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 01/33] fix: gradient-only NLP Lagrangian called a function
 that does not exist

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..2c5e12c 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -560,7 +560,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_impl(const Eigen::R
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
     this->cost_gradient(var, p, _lagrangian, _lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
-- 
2.43.0


From 5ee475226cf13e94b6113b241446f9f5b3d63cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 02/33] fix: cost Hessian accumulated into derivatives that
 were never reset

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index 2c5e12c..34a6154 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -519,7 +519,7 @@ void ProblemBase<Derived, MatrixFormat>::cost_gradient_hessian_impl(const Eigen:
     _cost = scalar_t(0);
     _cost_gradient = nlp_variable_t::Zero(VAR_SIZE);
     hessian  = nlp_hessian_t::Zero(VAR_SIZE, VAR_SIZE);
-    m_ad2_cost.value().value() = 0;
+    m_ad2_cost = ad2_scalar_t(ad_scalar_t(0));
 
     // set variable values
     for(int i = 0; i < VAR_SIZE; i++)
-- 
2.43.0


From 3523d36d65232d638f8c39d515a9b98c688bbc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 03/33] fix: a problem without a cost function left the cost
 value undefined

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index 34a6154..c0b4930 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -174,7 +174,7 @@ public:
     // default empty implementation
     template<typename T>
     EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x,
-                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept {}
+                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { cost = T(0); }
 
     /** @brief
      *
-- 
2.43.0


From ae8306ee06d7db978f88581bf5cddd6ab8ff0084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 04/33] fix: cubic spline read past its last segment at and
 beyond the right end

---
 src/polynomials/splines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..c426bc2 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -80,7 +80,7 @@ public:
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        idx = std::max(Eigen::Index(0), std::min(idx, Eigen::Index(m_coeffs.cols() - 1))); // clip idx stay within the spline bounds
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From df07125eca3dcdf7031b21d92e8bb643557e9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 05/33] fix: box ADMM over-relaxation read the primal iterate
 after overwriting it

---
 src/solvers/box_admm.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..4598350 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -126,8 +126,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
-- 
2.43.0


From f73d3393393554a638b6d2e29fc145aff1ceb567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 06/33] fix: sparse QP solvers dereferenced a null pointer for
 compressed matrices

---
 src/solvers/admm.hpp     | 15 +++++++++------
 src/solvers/box_admm.hpp | 10 ++++++----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..fdd8db2 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -229,13 +229,14 @@ public:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.col(k).nonZeros(), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += A.col(k).nonZeros();
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
@@ -287,9 +288,11 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += H.col(k).nonZeros();
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += A.col(k).nonZeros();
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
@@ -325,8 +328,8 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.col(k).nonZeros());
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 4598350..73c896c 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -245,9 +245,11 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += H.col(k).nonZeros();
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += A.col(k).nonZeros();
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
@@ -294,8 +296,8 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.col(k).nonZeros());
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-- 
2.43.0


From 38af832376a2dd4eb9304dfa83de28d87deb9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 07/33] fix: same-pattern KKT update of the sparse QP solvers
 assumed H stores its diagonal

---
 src/solvers/admm.hpp     | 14 ++++++--------
 src/solvers/box_admm.hpp | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index fdd8db2..765a406 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -324,16 +324,14 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const admm_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
+        /** just copy content of nonzero vectors (the diagonal of the KKT matrix may not be present in H) */
         // copy H and A blocks
-        for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.col(k).nonZeros());
-        }
+        m_K.diagonal(). template head<N>().setZero();
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -360,7 +358,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 73c896c..e34e1a2 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -292,16 +292,14 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const qp_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
+        /** just copy content of nonzero vectors (the diagonal of the KKT matrix may not be present in H) */
         // copy H and A blocks
-        for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.col(k).nonZeros(), m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.col(k).nonZeros());
-        }
+        m_K.diagonal(). template head<N>().setZero();
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -329,7 +327,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From cb31ef2b0fbb0332d0dc2f664186dcd707c2b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:21 +0000
Subject: [PATCH 08/33] fix: SR1 update divided by zero when the Hessian is
 already exact

---
 src/solvers/sr1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..c18192d 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -29,7 +29,7 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
     // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From a44196af1aae0896f840bf0455548e39e2202b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 09/33] fix: guard the sparse Ruiz cost scaling against a zero
 cost, as in the dense version

---
 src/solvers/qp_preconditioners.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..169bac8 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -286,7 +286,9 @@ public:
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > _approx_zero ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From f49fa6a081e346d5d5d447b6e56cda94dc6eb613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 10/33] fix: make the Ruiz preconditioner update rescale the
 new data consistently

---
 src/solvers/qp_preconditioners.hpp | 37 +++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 169bac8..e933551 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -434,15 +434,21 @@ public:
 
         const scalar_t _approx_zero = std::numeric_limits<scalar_t>::epsilon();
         const scalar_t _tolerance   = scalar_t(1e-3);
-        scalar_t scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
+        scalar_t scaling_norm = 10 * _tolerance;
         Eigen::Index iter = 0;
 
-        while ( (iter < max_iter) && ((scalar_t(1) - scaling_norm) <= _tolerance) )
+        // apply the existing scaling, the iterations below refine it
+        H.noalias() = m_c * D.asDiagonal() * H * D.asDiagonal();
+        A.noalias() = E.asDiagonal() * A * D.asDiagonal();
+        h.noalias() = m_c * h.cwiseProduct(D);
+
+        while ( (iter < max_iter) && ((scalar_t(1) - scaling_norm) >= _tolerance) )
         {
             // compute the Infinity norm of i-th column
             m_E = A.rowwise().template lpNorm<Eigen::Infinity>();
             m_D = H.colwise().template lpNorm<Eigen::Infinity>();
-            m_D = m_D.cwiseMax(A.colwise().template lpNorm<Eigen::Infinity>());
+            gradient_t x = A.colwise().template lpNorm<Eigen::Infinity>();
+            m_D = m_D.cwiseMax(x);
 
             scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
 
@@ -461,15 +467,17 @@ public:
             E = E.cwiseProduct(m_E);
 
             // scale the matrices
-            H.noalias() = m_c * m_D.asDiagonal() * H * m_D.asDiagonal();
+            H.noalias() = m_D.asDiagonal() * H * m_D.asDiagonal();
             A.noalias() = m_E.asDiagonal() * A * m_D.asDiagonal();
-            h.noalias() = m_c * h.cwiseProduct(m_D);
+            h.noalias() = h.cwiseProduct(m_D);
 
             // update gamma factor
             m_D = H.colwise().template lpNorm<Eigen::Infinity>();
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
-            H.noalias() *= gamma_scaling;
-            h.noalias() *= gamma_scaling;
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > _approx_zero ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
+            H *= gamma_scaling;
+            h *= gamma_scaling;
             m_c *= gamma_scaling;
 
             ++iter;
@@ -498,6 +506,11 @@ public:
         scalar_t scaling_norm = 10 * _tolerance;
         Eigen::Index iter = 0;
 
+        // apply the existing scaling, the iterations below refine it
+        H = m_c * D.asDiagonal() * H * D.asDiagonal();
+        A = E.asDiagonal() * (A * D.asDiagonal());
+        h = m_c * h.cwiseProduct(D);
+
         while ( (iter < max_iter) && ((scalar_t(1) - scaling_norm) >= _tolerance) )
         {
             // compute the Infinity norm of i-th column
@@ -525,13 +538,15 @@ public:
             E = E.cwiseProduct(m_E);
 
             // scale the matrices
-            H = m_c * m_D.asDiagonal() * H * m_D.asDiagonal();
+            H = m_D.asDiagonal() * H * m_D.asDiagonal();
             A = m_E.asDiagonal() * (A * m_D.asDiagonal());
-            h = m_c * h.cwiseProduct(m_D);
+            h = h.cwiseProduct(m_D);
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > _approx_zero ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From 891a52491f344b51ba7c031544ba4759cd300fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 11/33] fix: unscale a sparse one-row constraint Jacobian
 completely

---
 src/solvers/qp_preconditioners.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index e933551..fc75132 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -393,7 +393,7 @@ public:
             Eigen::Ref<gradient_t> l, Eigen::Ref<gradient_t> u) const noexcept
     {
         H = scalar_t(1 / m_c) * (D.cwiseInverse()).asDiagonal() * H * (D.cwiseInverse()).asDiagonal();
-        A = (E.cwiseInverse()).asDiagonal() * A * (D.cwiseInverse()).asDiagonal();
+        A = (E.cwiseInverse()).asDiagonal() * (A * (D.cwiseInverse()).asDiagonal());
         H.uncompress();
         A.uncompress();
         h.noalias() = scalar_t(1 / m_c) * h.cwiseProduct(D.cwiseInverse());
-- 
2.43.0


From b7713992318a2aa966f605d19f7040e9c6f8711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 12/33] fix: add the Mayer term's parameter Hessian to the
 parameter block

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..1751d16 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1351,7 +1351,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
-- 
2.43.0


From 49f5f15b77b0fb50b31f1eb978190dd5ecf102e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 13/33] fix: read all controls of the Mayer term when there are
 more controls than states

---
 src/control/continuous_ocp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 1751d16..f2f4e8a 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1332,7 +1332,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1592,7 +1592,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1849,7 +1849,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From 8eb57c264b0992112a638780335a2bd43db239ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 14/33] fix: take the parameter cross terms of the sparse cost
 Hessian from their own blocks

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index f2f4e8a..94cb601 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1537,7 +1537,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1572,7 +1572,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
-- 
2.43.0


From 05e92135109d0c53e9c30396013e41188c089933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 15/33] fix: accumulate control-parameter Hessian entries of
 shared nodes at their own positions

---
 src/control/continuous_ocp.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 94cb601..7fb8029 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1478,14 +1478,11 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                                    hes.col(j).data() + NX, cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[(k + shift) * NX + j] + NX,
                                    std::plus<scalar_t>());
                 }
-                /** dudp */
+                /** dudp: the parameter columns are still being filled, so locate the entries by their row index */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
-                                   hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   std::plus<scalar_t>());
+                    for(Eigen::Index r = 0; r < NU; ++r)
+                        cost_hessian.coeffRef((k + shift) * NU + VARX_SIZE + r, VARX_SIZE + VARU_SIZE + j) += hes(r + NX, j + NX + NU);
                 }
                 /** dp^2 */
                 /**
-- 
2.43.0


From 9ee9b34ad42ce2a252168f637008cf5998b1149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 16/33] fix: make the short Lagrangian derivative overloads of
 the OCP compile and size their Jacobians

---
 src/control/continuous_ocp.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 7fb8029..3b121c6 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1939,10 +1939,10 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const
 {
     nlp_eq_constraints_t c;
     nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_jacobian_t jac_c(NUM_EQ, VAR_SIZE);
+    nlp_ineq_jacobian_t jac_g(NUM_INEQ, VAR_SIZE);
     this->cost_gradient(var, p, _lagrangian, lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2022,10 +2022,10 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
 {
     nlp_eq_constraints_t c;
     nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_jacobian_t jac_c(NUM_EQ, VAR_SIZE);
+    nlp_ineq_jacobian_t jac_g(NUM_INEQ, VAR_SIZE);
     this->cost_gradient_hessian(var, p, _lagrangian, lag_gradient, lag_hessian);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2065,7 +2065,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
         }
 
         // constraints contribution
-        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
+        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
             scalar_t coeff = lam(n + k * NG + NUM_EQ);
-- 
2.43.0


From d4813605f7f2312f45d36bc237cd8a577517802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 17/33] fix: skip the sparse quasi-Newton update without usable
 curvature

---
 src/control/continuous_ocp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3b121c6..8300bf5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2314,6 +2314,11 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
+    // skip the update if there is no usable curvature (same safeguard as in the dense update)
+    const scalar_t sr = (sy >= 0.2 * scaling) ? sy : 0.2 * scaling;
+    if(sr < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
     // create temporaries to store
     Eigen::Matrix<scalar_t, NX, NX> hes_xx;
     Eigen::Matrix<scalar_t, NU, NU> hes_uu;
-- 
2.43.0


From fc10b576c6b894531df3fc112301ae1dcebdb2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 18/33] fix: interpolate the MPC solution in the segment that
 contains the time, for horizons not starting at zero

---
 src/control/mpc_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..21765d1 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -245,7 +245,7 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        Eigen::Index idx = (Eigen::Index)std::floor( (t - ocp().t_start) / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
         state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
@@ -271,7 +271,7 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        Eigen::Index idx = (Eigen::Index)std::floor( (t - ocp().t_start) / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
         control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
-- 
2.43.0


From 132d098b6db913bc75ce54fcc55ee2178efd9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 19/33] fix: size the path-constraint Jacobian block by the
 number of constraints when refreshing it

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 8300bf5..d76b547 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1099,7 +1099,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
     /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From 43ab7200d536bb47562bfcd1d403a662ce25ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 20/33] fix: halve the last Chebyshev normalisation factor, the
 discrete norm of the highest polynomial is doubled on Gauss-Lobatto nodes

---
 src/polynomials/ebyshev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index e010e75..a049a80 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -174,7 +174,7 @@ typename Chebyshev<PolyOrder, Qtype, Scalar>::q_weights_t
 Chebyshev<PolyOrder, Qtype, Scalar>::compute_norm_factors() noexcept
 {
     q_weights_t w = q_weights_t::Constant(static_cast<Scalar>(Scalar(2) / M_PI));
-    w[0] *= Scalar(0.5);
+    w[0] *= Scalar(0.5); w[PolyOrder] *= Scalar(0.5);
     return w;
 }
 
-- 
2.43.0


From 6ff9642078663c0698b479e3437d3d09810278a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 21/33] fix: sign of the corner entries of the Legendre
 differentiation matrix, the nodes are in ascending order

---
 src/polynomials/legendre.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 4ac4bdb..b6161f4 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -163,7 +163,7 @@ Legendre<PolyOrder, Qtype, Scalar>::compute_diff_matrix() noexcept
     basis_t Ln    = compute_basis();
 
     /** use formula from Canuto-Quarteroni */
-    D(0,0) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
+    D(0,0) = -(POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
     D(POLY_ORDER, POLY_ORDER) = -D(0,0);
 
     for(Eigen::Index i = 0; i < NUM_NODES; ++i)
-- 
2.43.0


From 3445c5db1e69927c4527b4f79ee83597956f8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 22/33] fix: poly_mul accumulates the products of equal order
 and handles zero polynomials

---
 src/polynomials/polynomial_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index d787c09..05f904b 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -52,7 +52,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     Scalar eps = std::numeric_limits<Scalar>::epsilon();
 
     /** detect nonzeros */
-    int nnz_p1, nnz_p2;
+    int nnz_p1 = -1, nnz_p2 = -1;
     for(int i = 0; i < p1_size; ++i)
     {
         if(std::fabs(p1[i]) >= eps)
@@ -68,7 +68,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
             /** truncate higher orders if neccessary */
             if( (i+j) == p1_size )
                 break;
-            product[i+j] = p1[j] * p2[i];
+            product[i+j] += p1[j] * p2[i];
         }
     }
 
-- 
2.43.0


From 1570e4369e73200b5aa32558b5a75fc016508c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 23/33] fix: the derivative of floor is zero in AutoDiffScalar

---
 src/autodiff/AutoDiffScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 92a0194..2077054 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -623,7 +623,7 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(log,
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(floor,
   using std::floor;
-  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(1));)
+  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(0));)
 
 template<typename DerType>
 inline const Eigen::AutoDiffScalar<
-- 
2.43.0


From 375a24c5ea2f6a56ed49bba8a73632773bbf19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 24/33] fix: a full line-search filter still removes the pairs
 the new one dominates

---
 src/solvers/line_search.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/solvers/line_search.hpp b/src/solvers/line_search.hpp
index 647eedc..b2ca68c 100644
--- a/src/solvers/line_search.hpp
+++ b/src/solvers/line_search.hpp
@@ -76,19 +76,16 @@ public:
     //
     inline void add(const scalar_t& cost, const scalar_t& constraint) noexcept
     {
-        if(m_filter.size() < max_depth)
-        {   // remove the points if the candidate point dominates them
-            //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
-            m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
-            m_filter.emplace_front(cost, constraint);
-        }
-        else
+        // remove the points if the candidate point dominates them
+        //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
+        m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
+        if(m_filter.size() >= max_depth)
         {
-            // clear the last element and push front
+            // clear the last element to make room
             //m_filter.sort();
             m_filter.pop_back();
-            m_filter.emplace_front(cost, constraint);
         }
+        m_filter.emplace_front(cost, constraint);
     }
     //
     inline void remove_one() noexcept
-- 
2.43.0


From afbc68f9ecda04b0757d949295ee34c18a1e7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 25/33] fix: sparse collocation stores the diagonal of the
 differentiation matrix also where it is zero

---
 src/control/sparse_ode_collocation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 9ac6c23..490f56d 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -119,6 +119,9 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_mat
             DM.template block<NUM_NODES - 1, NUM_NODES>(k, k) = D.template topLeftCorner<NUM_NODES - 1, NUM_NODES>();
 
         Eigen::SparseMatrix<Scalar> SpDM = DM.sparseView();
+        /** the Jacobian pattern relies on a stored diagonal, also where the entry is exactly zero */
+        for(int i = 0; i < SpDM.cols(); ++i)
+            SpDM.coeffRef(i, i);
         m_DiffMat = Eigen::KroneckerProductSparse<Eigen::SparseMatrix<Scalar>, Eigen::SparseMatrix<Scalar>>(SpDM,E);
 
         m_DiffMat_Ext.resize(constr_t::RowsAtCompileTime, var_t::RowsAtCompileTime);
-- 
2.43.0


From ec9b64ca6a2ded63636d62f5f20224c085749b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 26/33] fix: cost collocation constructed from given cost terms
 uses them and is initialised

---
 src/control/cost_collocation.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 207802d..460a484 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -109,7 +109,7 @@ public:
 
 
     cost_collocation();
-    cost_collocation(const LagrangeTerm &L, const MayerTerm &M){}
+    cost_collocation(const LagrangeTerm &L, const MayerTerm &M);
     ~cost_collocation(){}
 
 private:
@@ -130,6 +130,15 @@ cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::cost_colloca
 }
 
 
+template<typename LagrangeTerm, typename MayerTerm, typename Polynomial, int NumSegments>
+cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::cost_collocation(const LagrangeTerm &L, const MayerTerm &M)
+    : m_Lagrange(L), m_Mayer(M)
+{
+    m_weights = m_basis_f.CCQWeights();
+    initialize_derivatives();
+    initialize_second_derivatives();
+}
+
 template<typename LagrangeTerm, typename MayerTerm, typename Polynomial, int NumSegments>
 void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::operator ()(const var_t &var, Scalar &cost_value,
                                                                                 const Scalar &t0, const Scalar &tf) const
-- 
2.43.0


From 78374c24f6a6a9c8f598eb3751187d9d5d594e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 27/33] fix: the QP solvers report the iterations performed
 when the limit is reached, not one more

---
 src/solvers/admm.hpp     | 3 +++
 src/solvers/box_admm.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index 765a406..1dba325 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -205,7 +205,10 @@ public:
 
 
         if (iter > this->m_settings.max_iter)
+        {
             this->m_info.status = MAX_ITER_EXCEEDED;
+            --iter; // this iteration was not performed
+        }
 
         this->m_info.iter = iter;
 
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index e34e1a2..9036061 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -196,7 +196,10 @@ public:
         }
 
         if (iter > this->m_settings.max_iter)
+        {
             this->m_info.status = MAX_ITER_EXCEEDED;
+            --iter; // this iteration was not performed
+        }
 
         this->m_info.iter = iter;
 
-- 
2.43.0


From 49630c25270f40c8610cdc3b7301d0b80052d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 28/33] fix: IpoptInterface::get_problem returns the adapter's
 problem (did not compile)

---
 src/solvers/ipopt_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b2b136c..b8f8aac 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -432,8 +432,8 @@ public:
     EIGEN_STRONG_INLINE const nlp_settings_t& settings() const noexcept { return *(m_app->Options()); }
     EIGEN_STRONG_INLINE nlp_settings_t& settings() noexcept { return *(m_app->Options()); }
 
-    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return *(m_problem); }
-    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return *(m_problem); }
+    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return m_problem->problem; }
+    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return m_problem->problem; }
 
     EIGEN_STRONG_INLINE const ipopt_info_t& info() const noexcept { return m_info; }
     EIGEN_STRONG_INLINE ipopt_info_t& info() noexcept { return m_info; }
-- 
2.43.0


From 671530dd5516e7e771116ffed4d2cb77258ed5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 29/33] fix: the Ipopt adapter copies the sparse constraint
 Jacobian to the array Ipopt passes

---
 src/solvers/ipopt_interface.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b8f8aac..803e973 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -106,7 +106,12 @@ public:
                 }
         }
         else
-            data = mat.derived().valuePtr();
+        {
+            int ind = 0;
+            for (int k = 0; k < mat.outerSize(); ++k)
+                for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(mat, k); it; ++it, ++ind)
+                    data[ind] = it.value();
+        }
     }
 
     template<typename MatrixType, int T = Problem::MATRIXFMT>
-- 
2.43.0


From 1033fb17412220cc8ca3dcf8e3e6d6288103a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 30/33] fix: the Ipopt adapter reads only the constraint
 multipliers Ipopt passes and keeps the bound multipliers

---
 src/solvers/ipopt_interface.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 803e973..d5808f5 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -364,8 +364,10 @@ public:
         {
             // // return the values. This is a symmetric matrix, fill the lower left
             // // triangle only
-            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p,
-                                                Eigen::Map<const nlp_dual_t>(lambda), m_cost,
+            // Ipopt passes the multipliers of the constraints only
+            nlp_dual_t dual = nlp_dual_t::Zero();
+            dual.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda);
+            problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p, dual, m_cost,
                                                 m_h, m_H, m_dlag, m_g, m_A, obj_factor);
 
             get_data(m_H, values, true);
@@ -380,7 +382,8 @@ public:
                            Ipopt::IpoptCalculatedQuantities* ip_cq) override
     {
         m_x   = Eigen::Map<const nlp_variable_t>(x);
-        m_lam = Eigen::Map<const nlp_dual_t>(lambda);
+        m_lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda);
+        m_lam.template tail<num_variables>()   = Eigen::Map<const nlp_variable_t>(z_U) - Eigen::Map<const nlp_variable_t>(z_L);
         m_cost = obj_value;
 
         /** @todo: Fill in the rest of the solution struct */
-- 
2.43.0


From 746d59773f27859e180308420681dda176e082da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 31/33] fix: the OSQP adapter reports primal and dual residuals
 as such

---
 src/solvers/osqp_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 98504b0..528ff4a 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -84,7 +84,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
@@ -146,7 +147,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
-- 
2.43.0


From 4f04f6b28c863bc98c8342c6b1dd7244b2e042ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 32/33] fix: the OSQP adapter accepts compressed constraint
 matrices

---
 src/solvers/osqp_interface.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 528ff4a..5710788 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -174,6 +174,12 @@ private:
     typename dense_matrix_type_selector<scalar_t, N + M, 1>::type x_lower_bound, x_upper_bound;
     typename dense_matrix_type_selector<scalar_t, N, 1>::type m_h;
 
+    /** number of entries in a column: a compressed matrix has no array of counts */
+    EIGEN_STRONG_INLINE int inner_nnz(const Eigen::Ref<const qp_constraint_t>& A, const Eigen::Index& k) const noexcept
+    {
+        return A.isCompressed() ? A.outerIndexPtr()[k + 1] - A.outerIndexPtr()[k] : A.innerNonZeroPtr()[k];
+    }
+
     /** construct the Jacobian matrix accepted by OSQP */
     template<int T = MatrixType>
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
@@ -183,13 +189,14 @@ private:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], inner_nnz(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             Eigen::VectorXi _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += inner_nnz(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
-- 
2.43.0


From 0a8a4f4ececb8b0d18c4c97103664d5f60343d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 33/33] fix: the QPMAD adapter uses one solver type and records
 the unsolved status

---
 src/solvers/qpmad_interface.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index 7b4a8ef..e4c7a62 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -84,7 +84,7 @@ public:
         {
             case solver_t::ReturnStatus::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case solver_t::ReturnStatus::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default: {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
@@ -99,15 +99,22 @@ public:
         /** @bug : temporary fix until the new interface is released */
         qpmad::QPVector primal  = Eigen::Map<qpmad::QPVector>(this->m_x.data(), this->m_x.rows());
         qpmad::QPMatrix hessian(H);
-        qpmad::Solver::ReturnStatus status = qpmad_solver.solve(primal, hessian, h, xlb, xub, A, Alb, Aub, qpmad_parameters);
+        qpmad::QPVector h_(h);
+        qpmad::QPMatrix A_(A);
+        qpmad::QPVector alb(Alb);
+        qpmad::QPVector aub(Aub);
+        qpmad::QPVector xlb_(xlb);
+        qpmad::QPVector xub_(xub);
+
+        typename solver_t::ReturnStatus status = qpmad_solver.solve(primal, hessian, h_, xlb_, xub_, A_, alb, aub, qpmad_parameters);
 
         this->m_x = primal;
 
         switch (status)
         {
-            case qpmad::Solver::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
-            case qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            case solver_t::ReturnStatus::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
+            case solver_t::ReturnStatus::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
+            default: {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
-- 
2.43.0

