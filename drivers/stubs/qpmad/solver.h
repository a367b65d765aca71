// Stand-in for qpmad: it stores what the adapter hands over.
#ifndef PM_STUB_QPMAD
#define PM_STUB_QPMAD
#include <Eigen/Dense>
namespace qpmad {
typedef Eigen::MatrixXd QPMatrix;
typedef Eigen::VectorXd QPVector;
class SolverParameters
{
public:
    enum HessianType { UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2, HESSIAN_INVERTED_CHOLESKY_FACTOR = 3 };
    HessianType hessian_type_;
    double tolerance_;
    int max_iter_;
};
template<typename S, int n, int bounds, int m> class SolverTemplate
{
public:
    enum ReturnStatus { OK = 0, NUMERICAL_PROBLEM = 1, MAXIMAL_NUMBER_OF_ITERATIONS = 2 };
    QPMatrix H, A;
    QPVector x0, h, lb, ub, Alb, Aub, x;
    SolverParameters used;
    int status;
    template<class P, class M, class V, class L, class U, class C, class Cl, class Cu>
    ReturnStatus solve(P& primal, M& H_, const V& h_, const L& lb_, const U& ub_, const C& A_, const Cl& Alb_, const Cu& Aub_, const SolverParameters& p)
    {
        x0 = primal; H = H_; h = h_; lb = lb_; ub = ub_; A = A_; Alb = Alb_; Aub = Aub_; used = p;
        primal = x;
        return (ReturnStatus)status;
    }
};
typedef SolverTemplate<double, Eigen::Dynamic, 1, Eigen::Dynamic> Solver;
}
#endif
