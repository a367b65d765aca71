// Driver: instantiates the QP preconditioners for the analyser. Never executed.
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include "solvers/qp_preconditioners.hpp"

// ---- preconditioners
using Ruiz23  = polympc::RuizEquilibration<double, 2, 3, DENSE>;
using Ruiz23s = polympc::RuizEquilibration<double, 2, 3, SPARSE>;
using V2 = Eigen::Matrix<double,2,1>; using V3 = Eigen::Matrix<double,3,1>; using V5 = Eigen::Matrix<double,5,1>;
using D22 = Eigen::Matrix<double,2,2>; using D32 = Eigen::Matrix<double,3,2>;
using Sp = Eigen::SparseMatrix<double>;
void use_ruiz(Ruiz23& d, Ruiz23s& s, polympc::IdentityPreconditioner& id, D22& H, D32& A, Sp& Hs, Sp& As, V2& h, V3& l, V3& u, V2& xl, V2& xu, V2& x, V5& y)
{
    Ruiz23 d_; Ruiz23s s_; d.c() = 1.0; s.c() = 1.0;
    d.compute(H, h, A, l, u, xl, xu); d.scale(H, h, A, l, u, xl, xu); d.unscale(H, h, A, l, u, xl, xu); d.scale(x, y); d.unscale(x, y);
    d.unscale_hessian(H);
    s.compute(Hs, h, As, l, u, xl, xu); s.scale(Hs, h, As, l, u, xl, xu); s.unscale(Hs, h, As, l, u, xl, xu); s.scale(x, y); s.unscale(x, y);
    s.unscale_hessian(Hs);
    s.update(Hs, h, As, l, u, xl, xu);
    d.update(H, h, A, l, u, xl, xu);
    id.compute(H, h, A, l, u, xl, xu); id.scale(H, h, A, l, u, xl, xu); id.unscale(H, h, A, l, u, xl, xu); id.scale(x, y); id.unscale(x, y);
    id.unscale_hessian(H); id.update(H, h, A, l, u, xl, xu);
}

// a single constraint: Eigen's products of a one-row sparse matrix have their own evaluation path
using Ruiz21s = polympc::RuizEquilibration<double, 2, 1, SPARSE>;
using V1 = Eigen::Matrix<double,1,1>;
void use_ruiz_one(Ruiz21s& s, Sp& Hs, Sp& As, V2& h, V1& l, V1& u, V2& xl, V2& xu)
{
    s.compute(Hs, h, As, l, u, xl, xu); s.scale(Hs, h, As, l, u, xl, xu); s.unscale(Hs, h, As, l, u, xl, xu);
    s.update(Hs, h, As, l, u, xl, xu); s.unscale_hessian(Hs);
}
