// Driver: instantiates the QP solvers for the analyser. Never executed.
#include "solvers/admm.hpp"
#include "solvers/box_admm.hpp"
template<class S, class H_t, class A_t, int N, int M>
void use(S& s, const H_t& H, const Eigen::Matrix<double,N,1>& h, const A_t& A,
         const Eigen::Matrix<double,M,1>& al, const Eigen::Matrix<double,M,1>& au,
         const Eigen::Matrix<double,N,1>& xl, const Eigen::Matrix<double,N,1>& xu,
         const Eigen::Matrix<double,N,1>& x0, const Eigen::Matrix<double,N+M,1>& y0)
{
    s.solve(H,h,A,al,au,xl,xu);
    s.solve(H,h,A,al,au,xl,xu,x0,y0);
    (void)s.primal_solution(); (void)s.dual_solution(); (void)s.info(); (void)s.settings();
}
using V2 = Eigen::Matrix<double,2,1>; using V3 = Eigen::Matrix<double,3,1>; using V5 = Eigen::Matrix<double,5,1>;
using D22 = Eigen::Matrix<double,2,2>; using D32 = Eigen::Matrix<double,3,2>;
using Sp = Eigen::SparseMatrix<double>;

using AdmmDense      = ADMM<2,3,double>;
using AdmmDenseUL    = ADMM<2,3,double,DENSE,Eigen::ConjugateGradient,Eigen::Lower|Eigen::Upper>;
using BoxDenseUL     = boxADMM<2,3,double,DENSE,Eigen::ConjugateGradient,Eigen::Lower|Eigen::Upper>;
using AdmmSparseUL   = ADMM<2,3,double,SPARSE,Eigen::ConjugateGradient,Eigen::Lower|Eigen::Upper>;
using BoxSparseUL    = boxADMM<2,3,double,SPARSE,Eigen::ConjugateGradient,Eigen::Lower|Eigen::Upper>;
using AdmmSparse     = ADMM<2,3,double,SPARSE,linear_solver_traits<SPARSE>::default_solver>;
using BoxDense       = boxADMM<2,3,double>;
using BoxSparse      = boxADMM<2,3,double,SPARSE,linear_solver_traits<SPARSE>::default_solver>;

void drv(AdmmDense& a, BoxDense& b, AdmmSparse& c, BoxSparse& d, AdmmDenseUL& e, BoxDenseUL& f, AdmmSparseUL& g, BoxSparseUL& k, const D22& H, const D32& A, const Sp& Hs, const Sp& As,
         const V2& h, const V3& l, const V3& u, const V2& xl, const V2& xu, const V2& x0, const V5& y0)
{
    AdmmDense a_; BoxDense b_; AdmmSparse c_; BoxSparse d_; AdmmDenseUL e_; BoxDenseUL f_; AdmmSparseUL g_; BoxSparseUL k_;
    use<AdmmDense,D22,D32,2,3>(a,H,h,A,l,u,xl,xu,x0,y0);
    use<BoxDense,D22,D32,2,3>(b,H,h,A,l,u,xl,xu,x0,y0);
    use<AdmmSparse,Sp,Sp,2,3>(c,Hs,h,As,l,u,xl,xu,x0,y0);
    use<BoxSparse,Sp,Sp,2,3>(d,Hs,h,As,l,u,xl,xu,x0,y0);
    use<AdmmDenseUL,D22,D32,2,3>(e,H,h,A,l,u,xl,xu,x0,y0);
    use<BoxDenseUL,D22,D32,2,3>(f,H,h,A,l,u,xl,xu,x0,y0);
    use<AdmmSparseUL,Sp,Sp,2,3>(g,Hs,h,As,l,u,xl,xu,x0,y0);
    use<BoxSparseUL,Sp,Sp,2,3>(k,Hs,h,As,l,u,xl,xu,x0,y0);
}
