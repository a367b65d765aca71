// Driver: instantiates the optimal control transcription for the analyser. Never executed. The user's dynamics,
// costs and constraints are declared and not defined: the analysis treats them as arbitrary smooth functions.
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"

#define OCP_CLASS(NAME, ORDER, SEGS, CNX, CNU, CNP, CND, CNG, FMT)                                                          \
POLYMPC_FORWARD_DECLARATION(NAME, CNX, CNU, CNP, CND, CNG, double);                                                         \
class NAME : public ContinuousOCP<NAME, polympc::Spline<polympc::Chebyshev<ORDER, polympc::GAUSS_LOBATTO, double>, SEGS>, FMT> \
{                                                                                                                           \
public:                                                                                                                     \
    template<typename T>                                                                                                    \
    void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                        \
                       const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,              \
                       const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept;                                             \
    template<typename T>                                                                                                    \
    void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                   \
                            const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,         \
                            const scalar_t& t, T& lagrange) noexcept;                                                       \
    template<typename T>                                                                                                    \
    void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                      \
                         const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,            \
                         const scalar_t& t, T& mayer) noexcept;                                                             \
    template<typename T>                                                                                                    \
    void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,          \
                                     const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,\
                                     const scalar_t& t, Eigen::Ref<constraint_t<T>> g) const noexcept;                      \
};

// distinct state / control / parameter dimensions, so that no two offsets coincide
OCP_CLASS(OcpDA, 2, 2, 2, 1, 3, 1, 2, DENSE)
OCP_CLASS(OcpSA, 2, 2, 2, 1, 3, 1, 2, SPARSE)
OCP_CLASS(OcpDB, 3, 2, 1, 2, 1, 2, 1, DENSE)
OCP_CLASS(OcpSB, 3, 2, 1, 2, 1, 2, 1, SPARSE)
OCP_CLASS(OcpDC, 2, 3, 1, 1, 0, 0, 0, DENSE)
OCP_CLASS(OcpSC, 2, 3, 1, 1, 0, 0, 0, SPARSE)
OCP_CLASS(OcpDD, 3, 1, 2, 1, 1, 1, 1, DENSE)
OCP_CLASS(OcpSD, 3, 1, 2, 1, 1, 1, 1, SPARSE)
OCP_CLASS(OcpDG, 2, 2, 1, 2, 1, 0, 3, DENSE)
OCP_CLASS(OcpSG, 2, 2, 1, 2, 1, 0, 3, SPARSE)
OCP_CLASS(OcpSE, 2, 1, 2, 1, 1, 0, 0, SPARSE)
OCP_CLASS(OcpSF, 2, 2, 1, 1, 0, 0, 0, SPARSE)
OCP_CLASS(OcpDE, 2, 1, 1, 1, 1, 0, 0, DENSE)

template<class P> typename std::enable_if<P::is_dense>::type use_short(P& pr, typename P::nlp_variable_t& x, typename P::static_parameter_t& p,
    typename P::nlp_dual_t& lam, typename P::nlp_variable_t& lg, typename P::nlp_hessian_t& H, double& s)
{
    pr.lagrangian_gradient_hessian(x, p, lam, s, lg, H);
}
template<class P> typename std::enable_if<P::is_sparse>::type use_short(P&, typename P::nlp_variable_t&, typename P::static_parameter_t&,
    typename P::nlp_dual_t&, typename P::nlp_variable_t&, typename P::nlp_hessian_t&, double&) {}

template<class P> void use_ocp(P& pr, typename P::nlp_variable_t& x, typename P::static_parameter_t& p,
                               typename P::nlp_dual_t& lam, typename P::nlp_eq_constraints_t& c,
                               typename P::nlp_ineq_constraints_t& g, typename P::nlp_constraints_t& cg,
                               typename P::nlp_eq_jacobian_t& Jc, typename P::nlp_ineq_jacobian_t& Jg, typename P::nlp_jacobian_t& J,
                               typename P::nlp_hessian_t& H, typename P::nlp_variable_t& gr, typename P::nlp_variable_t& lg, double& s)
{
    P p_;
    pr.set_time_limits(0.0, 1.0);
    pr.cost(x, p, s);
    pr.cost_gradient(x, p, s, gr);
    pr.cost_gradient_hessian(x, p, s, gr, H);
    pr.equalities(x, p, c);
    pr.inequalities(x, p, g);
    pr.constraints(x, p, cg);
    pr.equalities_linearised(x, p, c, Jc);
    pr.inequalities_linearised(x, p, g, Jg);
    pr.constraints_linearised(x, p, cg, J);
    pr.lagrangian(x, p, lam, s);
    pr.lagrangian(x, p, lam, s, cg);
    pr.lagrangian_gradient(x, p, lam, s, lg);
    use_short(pr, x, p, lam, lg, H, s);
    pr.lagrangian_gradient(x, p, lam, s, lg, gr, cg, J);
    pr.lagrangian_gradient_hessian(x, p, lam, s, lg, H, gr, cg, J);
    pr.lagrangian_gradient_hessian(x, p, lam, s, lg, H, gr, cg, J, 2.0);
    pr.hessian_update_impl(H, gr, lg);
    pr.nnz_jacobian();
    pr.nnz_lag_hessian();
}
#define INST_OCP(P) template void use_ocp<P>(P&, P::nlp_variable_t&, P::static_parameter_t&, P::nlp_dual_t&,        \
    P::nlp_eq_constraints_t&, P::nlp_ineq_constraints_t&, P::nlp_constraints_t&, P::nlp_eq_jacobian_t&,             \
    P::nlp_ineq_jacobian_t&, P::nlp_jacobian_t&, P::nlp_hessian_t&, P::nlp_variable_t&, P::nlp_variable_t&, double&);
INST_OCP(OcpDA)
INST_OCP(OcpSA)
INST_OCP(OcpDB)
INST_OCP(OcpSB)
INST_OCP(OcpDC)
INST_OCP(OcpSC)
INST_OCP(OcpDD)
INST_OCP(OcpSD)
INST_OCP(OcpDG)
INST_OCP(OcpSG)
INST_OCP(OcpSE)
INST_OCP(OcpSF)
INST_OCP(OcpDE)
