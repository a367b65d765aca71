// Driver: instantiates the MPC wrapper over transcribed problems and the SQP framework with an uninterpreted QP
// solver. Never executed.
#include "solvers/sqp_base.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "control/continuous_ocp.hpp"
#include "control/mpc_wrapper.hpp"

#define OCP_CLASS(NAME, ORDER, SEGS, CNX, CNU, CNP, CND, CNG, FMT)                                                          \
POLYMPC_FORWARD_DECLARATION(NAME, CNX, CNU, CNP, CND, CNG, double);                                                         \
class NAME : public ContinuousOCP<NAME, polympc::Spline<polympc::Chebyshev<ORDER, polympc::GAUSS_LOBATTO, double>, SEGS>, FMT> \
{                                                                                                                           \
public:                                                                                                                     \
    template<typename T>                                                                                                    \
    void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                        \
                       const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,              \
                       const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept;                                             \
    template<typename T>                                                                                                    \
    void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                   \
                            const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,         \
                            const scalar_t& t, T& lagrange) noexcept;                                                       \
    template<typename T>                                                                                                    \
    void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,                      \
                         const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,            \
                         const scalar_t& t, T& mayer) noexcept;                                                             \
    template<typename T>                                                                                                    \
    void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u,          \
                                     const Eigen::Ref<const parameter_t<T>> p, const Eigen::Ref<const static_parameter_t> d,\
                                     const scalar_t& t, Eigen::Ref<constraint_t<T>> g) const noexcept;                      \
};


OCP_CLASS(TimeA, 2, 3, 2, 1, 2, 1, 1, DENSE)
OCP_CLASS(TimeB, 3, 1, 1, 2, 1, 2, 2, DENSE)
OCP_CLASS(TimeC, 2, 2, 3, 2, 2, 1, 3, SPARSE)
OCP_CLASS(TimeD, 4, 2, 1, 1, 1, 1, 1, DENSE)

struct OpaqueQPInfo { int iter; status_t status; };
template<int N, int M> struct OpaqueQP
{
    using settings_t = qp_solver_settings_t<double>;
    settings_t m_settings;
    OpaqueQPInfo m_info;
    Eigen::Matrix<double, N, 1> m_x;
    Eigen::Matrix<double, N + M, 1> m_y;
    settings_t& settings() noexcept { return m_settings; }
    const settings_t& settings() const noexcept { return m_settings; }
    OpaqueQPInfo& info() noexcept { return m_info; }
    const OpaqueQPInfo& info() const noexcept { return m_info; }
    const Eigen::Matrix<double, N, 1>& primal_solution() const noexcept { return m_x; }
    const Eigen::Matrix<double, N + M, 1>& dual_solution() const noexcept { return m_y; }
    Eigen::Matrix<double, N, 1>& primal_solution() noexcept { return m_x; }
    Eigen::Matrix<double, N + M, 1>& dual_solution() noexcept { return m_y; }
    template<class MH, class Vh, class MA, class Va, class Vx>
    status_t solve(const MH& H, const Vh& h, const MA& A, const Va& al, const Va& au, const Vx& xl, const Vx& xu) noexcept { return SOLVED; }
    template<class MH, class Vh, class MA, class Va, class Vx, class X0, class Y0>
    status_t solve(const MH& H, const Vh& h, const MA& A, const Va& al, const Va& au, const Vx& xl, const Vx& xu, const X0& x0, const Y0& y0) noexcept { return SOLVED; }
};

// a preconditioner with distinct effects on every datum
struct OpaquePrec
{
    template<class MH, class Vh, class MA, class Va, class Vx>
    void compute(MH& H, Vh& h, MA& A, Va& al, Va& au, Vx& lx, Vx& ux) noexcept {}
    template<class MH, class Vh, class MA, class Va, class Vx>
    void unscale(MH& H, Vh& h, MA& A, Va& al, Va& au, Vx& lx, Vx& ux) noexcept {}
    template<class X, class Y> void unscale(X& x, Y& y) noexcept {}
    template<class X, class Y> void scale(X& x, Y& y) noexcept {}
    template<class MH> void unscale_hessian(MH& H) noexcept {}
};


template<class P, class... A> class MpcSolver : public SQPBase<MpcSolver<P, A...>, P, OpaqueQP<P::VAR_SIZE, P::NUM_EQ + P::NUM_INEQ>, OpaquePrec>
{
public:
    using Base = SQPBase<MpcSolver<P, A...>, P, OpaqueQP<P::VAR_SIZE, P::NUM_EQ + P::NUM_INEQ>, OpaquePrec>;
    using typename Base::nlp_variable_t;
    template<class MH> void hessian_update_impl(MH&& H, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_variable_t>& y) noexcept {}
};

template<class M> void use_mpc(M& m, typename M::state_t& x, typename M::state_t& x2, typename M::control_t& u, typename M::control_t& u2,
                               typename M::parameter_t& p, typename M::parameter_t& p2, typename M::static_param& d, typename M::constraint_t& g,
                               typename M::constraint_t& g2, typename M::traj_state_t& tx, typename M::traj_state_t& tx2,
                               typename M::traj_control_t& tu, typename M::traj_control_t& tu2, typename M::dual_var_t& l,
                               typename M::constraints_t& tg, typename M::constraints_t& tg2, int k, double t)
{
    M m_;
    m.set_time_limits(t, t);
    m.initial_conditions(x); m.initial_conditions(x, x2);
    m.x_lower_bound(x); m.x_upper_bound(x); m.state_bounds(x, x2); m.state_trajectory_bounds(tx, tx2);
    m.x_final_lower_bound(x); m.x_final_upper_bound(x); m.final_state_bounds(x, x2);
    m.u_lower_bound(u); m.u_upper_bound(u); m.control_trajecotry_bounds(tu, tu2); m.control_bounds(u, u2);
    m.constraints_trajectory_bounds(tg, tg2); m.constraints_bounds(g, g2); m.parameters_bounds(p, p2);
    m.set_static_parameters(d); m.x_guess(tx); m.u_guess(tu); m.lam_guess(l); m.p_guess(p);
    (void)m.settings(); (void)m.qp_settings(); (void)m.info(); (void)m.solver(); (void)m.ocp();
    (void)m.primal_norm(); (void)m.dual_norm(); (void)m.constr_violation(); (void)m.cost();
    const M& c = m;
    (void)c.settings(); (void)c.qp_settings(); (void)c.info(); (void)c.solver(); (void)c.ocp();
    (void)m.solution_x(); (void)m.solution_x_reshaped(); (void)m.solution_x_at(k); (void)m.solution_x_at(t);
    (void)m.solution_u(); (void)m.solution_u_reshaped(); (void)m.solution_u_at(k); (void)m.solution_u_at(t);
    (void)m.solution_p(); (void)m.solution_dual();
    m.solve();
}
#define INST_MPC(NAME, OCP) using NAME = MPC<OCP, MpcSolver>;                                                               \
    template void use_mpc<NAME>(NAME&, NAME::state_t&, NAME::state_t&, NAME::control_t&, NAME::control_t&, NAME::parameter_t&,     \
    NAME::parameter_t&, NAME::static_param&, NAME::constraint_t&, NAME::constraint_t&, NAME::traj_state_t&, NAME::traj_state_t&,  \
    NAME::traj_control_t&, NAME::traj_control_t&, NAME::dual_var_t&, NAME::constraints_t&, NAME::constraints_t&, int, double);
INST_MPC(MpcA, TimeA)
INST_MPC(MpcB, TimeB)
INST_MPC(MpcC, TimeC)
void use_grid(TimeD& o, double t) { TimeD o_; o.set_time_limits(t, t); }
