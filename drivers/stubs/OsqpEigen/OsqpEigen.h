// Stand-in for OsqpEigen: it stores what the adapter hands over, so that the analysis can compare it with what the caller posed.
#ifndef PM_STUB_OSQP
#define PM_STUB_OSQP
#include <Eigen/Dense>
#include <Eigen/Sparse>
typedef double c_float;
enum { OSQP_DUAL_INFEASIBLE_INACCURATE = 4, OSQP_PRIMAL_INFEASIBLE_INACCURATE = 3, OSQP_SOLVED_INACCURATE = 2, OSQP_SOLVED = 1, OSQP_MAX_ITER_REACHED = -2,
       OSQP_PRIMAL_INFEASIBLE = -3, OSQP_DUAL_INFEASIBLE = -4, OSQP_SIGINT = -5, OSQP_TIME_LIMIT_REACHED = -6, OSQP_NON_CVX = -7, OSQP_UNSOLVED = -10 };
struct OSQPInfo { int iter; int status_val; c_float obj_val, pri_res, dua_res; int rho_updates; c_float rho_estimate; };
struct OSQPWorkspace { OSQPInfo* info; };
namespace OsqpEigen {
typedef Eigen::Matrix<c_float, Eigen::Dynamic, 1> vec;
typedef Eigen::SparseMatrix<c_float> mat;
struct Settings
{
    double rho, alpha, sigma, eps_abs, eps_rel, adaptive_rho_tolerance, delta, time_limit, adaptive_rho_fraction, eps_prim_inf, eps_dual_inf;
    int max_iter, check_termination, adaptive_rho_interval, scaling, polish_refine_iter, linear_solver;
    bool verbosity, warm_start, adaptive_rho, polish, scaled_termination;
    void setRho(double v) { rho = v; }
    void setAlpha(double v) { alpha = v; }
    void setSigma(double v) { sigma = v; }
    void setVerbosity(bool v) { verbosity = v; }
    void setWarmStart(bool v) { warm_start = v; }
    void setAdaptiveRho(bool v) { adaptive_rho = v; }
    void setMaxIteration(int v) { max_iter = v; }
    void setCheckTermination(int v) { check_termination = v; }
    void setAbsoluteTolerance(double v) { eps_abs = v; }
    void setRelativeTolerance(double v) { eps_rel = v; }
    void setAdaptiveRhoInterval(int v) { adaptive_rho_interval = v; }
    void setAdaptiveRhoTolerance(double v) { adaptive_rho_tolerance = v; }
    void setDelta(double v) { delta = v; }
    void setPolish(bool v) { polish = v; }
    void setScaling(int v) { scaling = v; }
    void setTimeLimit(double v) { time_limit = v; }
    void setPolishRefineIter(int v) { polish_refine_iter = v; }
    void setLinearSystemSolver(int v) { linear_solver = v; }
    void setScaledTerimination(bool v) { scaled_termination = v; }
    void setAdaptiveRhoFraction(double v) { adaptive_rho_fraction = v; }
    void setPrimalInfeasibilityTolerance(double v) { eps_prim_inf = v; }
    void setDualInfeasibilityTolerance(double v) { eps_dual_inf = v; }
};
struct Data
{
    int n, m;
    mat H, A;
    vec g, lb, ub;
    void setNumberOfVariables(int v) { n = v; }
    void setNumberOfConstraints(int v) { m = v; }
    template<class T> bool setHessianMatrix(const T& v) { H = v; return true; }
    bool setGradient(Eigen::Ref<vec> v) { g = v; return true; }
    bool setLinearConstraintsMatrix(const mat& v) { A = v; return true; }
    bool setLowerBound(Eigen::Ref<vec> v) { lb = v; return true; }
    bool setUpperBound(Eigen::Ref<vec> v) { ub = v; return true; }
};
class Solver
{
public:
    Data d;                 // handed over for set-up
    Data w;                 // the problem the solver holds
    Data solved;            // the problem it held at the last solve
    Settings s, used;       // settings handed over, settings at the last set-up or solve
    vec x0, y0, x, y;
    bool guessed, inited, guessed_at_solve;
    OSQPInfo info_;
    OSQPWorkspace ws;
    Settings* settings() { return &s; }
    Data* data() { return &d; }
    bool initSolver() { w = d; guessed = false; inited = true; return true; }
    template<class T> bool updateHessianMatrix(const T& v) { w.H = v; return true; }
    bool updateGradient(const Eigen::Ref<const vec>& v) { w.g = v; return true; }
    bool updateLinearConstraintsMatrix(const mat& v) { w.A = v; return true; }
    bool updateBounds(const Eigen::Ref<const vec>& l, const Eigen::Ref<const vec>& u) { w.lb = l; w.ub = u; return true; }
    bool setWarmStart(const Eigen::Ref<const vec>& p, const Eigen::Ref<const vec>& q) { x0 = p; y0 = q; guessed = true; return true; }
    bool solveProblem() { solved = w; used = s; guessed_at_solve = guessed; return true; }
    const vec& getSolution() { return x; }
    const vec& getDualSolution() { return y; }
    const OSQPWorkspace* workspace() const { return &ws; }
};
}
#endif
