// Driver: instantiates the adapters to external solvers for the analyser. Never executed. The external libraries are replaced by the
// stand-ins in drivers/stubs; the user's functions are declared and not defined.
#define POLYMPC_FOUND_QPMAD
#include "solvers/nlproblem.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
#include "solvers/ipopt_interface.hpp"
#include "solvers/osqp_interface.hpp"
#include "solvers/qpmad_interface.hpp"

#define NLP_CLASS(NAME, CNX, CNE, CNI, CNP)                                                                         \
POLYMPC_FORWARD_NLP_DECLARATION(NAME, CNX, CNE, CNI, CNP, double);                                                  \
class NAME : public ProblemBase<NAME>                                                                               \
{                                                                                                                   \
public:                                                                                                             \
    template<typename T>                                                                                            \
    void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p,         \
                   T& cost) const noexcept;                                                                         \
    template<typename T>                                                                                            \
    void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x,                                        \
                                   const Eigen::Ref<const static_parameter_t>& p,                                   \
                                   Eigen::Ref<eq_constraint_t<T>> c) const noexcept;                                \
    template<typename T>                                                                                            \
    void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x,                                      \
                                     const Eigen::Ref<const static_parameter_t>& p,                                 \
                                     Eigen::Ref<ineq_constraint_t<T>> g) const noexcept;                            \
};
NLP_CLASS(NlpFull, 3, 1, 2, 1)
NLP_CLASS(NlpEq, 2, 2, 0, 1)
NLP_CLASS(NlpIneq, 2, 0, 1, 2)

#define OCP_CLASS(NAME, ORDER, SEGS, CNX, CNU, CNP, CND, CNG, FMT)                                                          \
POLYMPC_FORWARD_DECLARATION(NAME, CNX, CNU, CNP, CND, CNG, double);                                                         \
class NAME : public ContinuousOCP<NAME, polympc::Spline<polympc::Chebyshev<ORDER, polympc::GAUSS_LOBATTO, double>, SEGS>, FMT> \
{                                                                                                                           \
public:                                                                                                                     \
    template<typename T>                                                                                                    \
    void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                        \
                       const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,              \
                       const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept;                                             \
    template<typename T>                                                                                                    \
    void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                   \
                            const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,         \
                            const scalar_t& t, T& lagrange) noexcept;                                                       \
    template<typename T>                                                                                                    \
    void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                      \
                         const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,            \
                         const scalar_t& t, T& mayer) noexcept;                                                             \
    template<typename T>                                                                                                    \
    void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,          \
                                     const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,\
                                     const scalar_t& t, Eigen::Ref<constraint_t<T>> g) const noexcept;                      \
};
OCP_CLASS(OcpSD, 3, 1, 2, 1, 1, 1, 1, SPARSE)
OCP_CLASS(OcpSF, 2, 2, 1, 1, 0, 0, 0, SPARSE)
OCP_CLASS(OcpDE, 2, 1, 1, 1, 1, 0, 0, DENSE)

// the callbacks as Ipopt makes them, on arrays of exactly the sizes get_nlp_info announces
typedef Eigen::VectorXd v_t;
typedef Eigen::VectorXi i_t;
template<class A> bool ip_info(A& a, int& n, int& m, int& j, int& h, int& style)
{
    Ipopt::TNLP::IndexStyleEnum st = Ipopt::TNLP::FORTRAN_STYLE;
    const bool r = a.get_nlp_info(n, m, j, h, st);
    style = (int)st;
    return r;
}
template<class A> bool ip_bounds(A& a, int n, int m, v_t& xl, v_t& xu, v_t& gl, v_t& gu) { return a.get_bounds_info(n, xl.data(), xu.data(), m, gl.data(), gu.data()); }
template<class A> bool ip_start(A& a, int n, int m, bool ix, bool iz, bool il, v_t& x, v_t& zl, v_t& zu, v_t& lam)
{ return a.get_starting_point(n, ix, x.data(), iz, zl.data(), zu.data(), m, il, lam.data()); }
template<class A> bool ip_f(A& a, int n, v_t& x, double& f) { return a.eval_f(n, x.data(), true, f); }
template<class A> bool ip_grad(A& a, int n, v_t& x, v_t& g) { return a.eval_grad_f(n, x.data(), true, g.data()); }
template<class A> bool ip_g(A& a, int n, int m, v_t& x, v_t& g) { return a.eval_g(n, x.data(), true, m, g.data()); }
template<class A> bool ip_jac_pattern(A& a, int n, int m, int nz, i_t& r, i_t& c) { return a.eval_jac_g(n, nullptr, true, m, nz, r.data(), c.data(), nullptr); }
template<class A> bool ip_jac(A& a, int n, int m, int nz, v_t& x, v_t& v) { return a.eval_jac_g(n, x.data(), true, m, nz, nullptr, nullptr, v.data()); }
template<class A> bool ip_hes_pattern(A& a, int n, int m, int nz, i_t& r, i_t& c) { return a.eval_h(n, nullptr, true, 1.0, m, nullptr, true, nz, r.data(), c.data(), nullptr); }
template<class A> bool ip_hes(A& a, int n, int m, int nz, v_t& x, double s, v_t& lam, v_t& v)
{ return a.eval_h(n, x.data(), true, s, m, lam.data(), true, nz, nullptr, nullptr, v.data()); }
template<class A> void ip_final(A& a, int n, int m, v_t& x, v_t& zl, v_t& zu, v_t& g, v_t& lam, double f)
{ a.finalize_solution(Ipopt::SUCCESS, n, x.data(), zl.data(), zu.data(), m, g.data(), lam.data(), f, nullptr, nullptr); }

template<class P> void use_ip(IpoptInterface<P>& s, IpoptAdapter<P>& a, v_t& v, i_t& i, int& k, double& f)
{
    IpoptAdapter<P> b;
    ip_info(a, k, k, k, k, k);
    ip_bounds(a, k, k, v, v, v, v);
    ip_start(a, k, k, true, true, true, v, v, v, v);
    ip_f(a, k, v, f);
    ip_grad(a, k, v, v);
    ip_g(a, k, k, v, v);
    ip_jac_pattern(a, k, k, k, i, i);
    ip_jac(a, k, k, k, v, v);
    ip_hes_pattern(a, k, k, k, i, i);
    ip_hes(a, k, k, k, v, f, v, v);
    ip_final(a, k, k, v, v, v, v, v, f);
    s.solve();
    s.solve(a.m_x, a.m_lam);
}
template<class P> P& ip_problem(IpoptInterface<P>& s) { return s.get_problem(); }
#define INST_IP(P) template class IpoptAdapter<P>; template class IpoptInterface<P>; \
    template void use_ip<P>(IpoptInterface<P>&, IpoptAdapter<P>&, v_t&, i_t&, int&, double&); template P& ip_problem<P>(IpoptInterface<P>&);
INST_IP(NlpFull)
INST_IP(NlpEq)
INST_IP(NlpIneq)
INST_IP(OcpSD)
INST_IP(OcpSF)
INST_IP(OcpDE)

template class polympc::OSQP<3, 2, double>;
template class polympc::OSQP<2, 0, double>;
template class polympc::QPMAD<3, 2, double>;
template class polympc::QPMAD<2, 0, double>;
