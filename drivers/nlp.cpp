// Driver: instantiates the NLP base class for the analyser. Never executed. The user's functions are declared and not defined: the
// analysis treats them as arbitrary smooth functions.
#include "solvers/nlproblem.hpp"

#define NLP_CLASS(NAME, CNX, CNE, CNI, CNP)                                                                         \
POLYMPC_FORWARD_NLP_DECLARATION(NAME, CNX, CNE, CNI, CNP, double);                                                  \
class NAME : public ProblemBase<NAME>                                                                               \
{                                                                                                                   \
public:                                                                                                             \
    template<typename T>                                                                                            \
    void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p,         \
                   T& cost) const noexcept;                                                                         \
    template<typename T>                                                                                            \
    void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x,                                        \
                                   const Eigen::Ref<const static_parameter_t>& p,                                   \
                                   Eigen::Ref<eq_constraint_t<T>> c) const noexcept;                                \
    template<typename T>                                                                                            \
    void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x,                                      \
                                     const Eigen::Ref<const static_parameter_t>& p,                                 \
                                     Eigen::Ref<ineq_constraint_t<T>> g) const noexcept;                            \
};

NLP_CLASS(NlpFull, 3, 1, 2, 1)
NLP_CLASS(NlpEq, 2, 2, 0, 1)
NLP_CLASS(NlpIneq, 2, 0, 1, 2)
NLP_CLASS(NlpFree, 2, 0, 0, 1)
NLP_CLASS(NlpOne, 2, 1, 1, 1)
// a problem without a cost function (pure feasibility): relies on the default implementation
POLYMPC_FORWARD_NLP_DECLARATION(NlpNoCost, 2, 1, 0, 1, double);
class NlpNoCost : public ProblemBase<NlpNoCost>
{
public:
    template<typename T>
    void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x,
                                   const Eigen::Ref<const static_parameter_t>& p,
                                   Eigen::Ref<eq_constraint_t<T>> c) const noexcept;
};

template<class P> void use_nlp(P& pr, typename P::nlp_variable_t& x, typename P::static_parameter_t& p,
                               typename P::nlp_dual_t& lam, typename P::nlp_eq_constraints_t& c,
                               typename P::nlp_ineq_constraints_t& g, typename P::nlp_constraints_t& cg,
                               typename P::nlp_eq_jacobian_t& Jc, typename P::nlp_ineq_jacobian_t& Jg, typename P::nlp_jacobian_t& J,
                               typename P::nlp_hessian_t& H, typename P::nlp_variable_t& gr, typename P::nlp_variable_t& lg, double& s)
{
    P p_;
    pr.cost(x, p, s);
    pr.cost_gradient(x, p, s, gr);
    pr.cost_gradient_hessian(x, p, s, gr, H);
    pr.equalities(x, p, c);
    pr.inequalities(x, p, g);
    pr.constraints(x, p, cg);
    pr.equalities_linearised(x, p, c, Jc);
    pr.inequalities_linearised(x, p, g, Jg);
    pr.constraints_linearised(x, p, cg, J);
    pr.lagrangian(x, p, lam, s);
#ifndef PM_SKIP_LAG5
    pr.lagrangian_gradient(x, p, lam, s, lg);
#endif
    pr.lagrangian_gradient(x, p, lam, s, lg, gr, cg, J);
    pr.lagrangian_gradient_hessian(x, p, lam, s, lg, H, gr, cg, J);
    pr.lagrangian_gradient_hessian(x, p, lam, s, lg, H, gr, cg, J, 2.0);
}
#define INST_NLP(P) template void use_nlp<P>(P&, P::nlp_variable_t&, P::static_parameter_t&, P::nlp_dual_t&,        \
    P::nlp_eq_constraints_t&, P::nlp_ineq_constraints_t&, P::nlp_constraints_t&, P::nlp_eq_jacobian_t&,             \
    P::nlp_ineq_jacobian_t&, P::nlp_jacobian_t&, P::nlp_hessian_t&, P::nlp_variable_t&, P::nlp_variable_t&, double&);
INST_NLP(NlpFull)
INST_NLP(NlpEq)
INST_NLP(NlpIneq)
INST_NLP(NlpFree)
INST_NLP(NlpOne)
INST_NLP(NlpNoCost)
