// Instantiations of the SQP framework over problem, QP solver and preconditioner classes of our own that
// implement exactly the interfaces the framework documents; their member functions are given an
// uninterpreted meaning by the analysis.
#include "solvers/sqp_base.hpp"
#include "solvers/nlproblem.hpp"
#include "solvers/sr1.hpp"
#include "solvers/line_search.hpp"

template<int NX, int NE, int NI, int FMT> struct FmtTypes
{
    using hess = Eigen::Matrix<double, NX, NX>;
    using jac  = Eigen::Matrix<double, NE + NI, NX>;
    using ejac = Eigen::Matrix<double, NE, NX>;
};
template<int NX, int NE, int NI> struct FmtTypes<NX, NE, NI, SPARSE>
{
    using hess = Eigen::SparseMatrix<double>;
    using jac  = Eigen::SparseMatrix<double>;
    using ejac = Eigen::SparseMatrix<double>;
};

template<int NX, int NE, int NI, int FMT> struct OpaqueNlp
{
    enum { VAR_SIZE = NX, NUM_EQ = NE, NUM_INEQ = NI, DUAL_SIZE = NX + NE + NI, MATRIXFMT = FMT, is_sparse = (FMT == SPARSE) ? 1 : 0 };
    using scalar_t = double;
    using nlp_variable_t = Eigen::Matrix<double, NX, 1>;
    using nlp_constraints_t = Eigen::Matrix<double, NE + NI, 1>;
    using nlp_eq_constraints_t = Eigen::Matrix<double, NE, 1>;
    using nlp_ineq_constraints_t = Eigen::Matrix<double, NI, 1>;
    using nlp_eq_jacobian_t = typename FmtTypes<NX, NE, NI, FMT>::ejac;
    using nlp_jacobian_t = typename FmtTypes<NX, NE, NI, FMT>::jac;
    using nlp_hessian_t = typename FmtTypes<NX, NE, NI, FMT>::hess;
    using nlp_dual_t = Eigen::Matrix<double, NX + NE + NI, 1>;
    using static_parameter_t = Eigen::Matrix<double, 1, 1>;
    using cvar = Eigen::Ref<const nlp_variable_t>;
    using cpar = Eigen::Ref<const static_parameter_t>;
    using cdual = Eigen::Ref<const nlp_dual_t>;

    void cost(const cvar& x, const cpar& p, scalar_t& c) const noexcept {}
    void equalities(const cvar& x, const cpar& p, Eigen::Ref<nlp_eq_constraints_t> c) const noexcept {}
    void inequalities(const cvar& x, const cpar& p, Eigen::Ref<nlp_ineq_constraints_t> g) const noexcept {}
    void constraints(const cvar& x, const cpar& p, Eigen::Ref<nlp_constraints_t> g) const noexcept {}
    template<class J> void lagrangian_gradient(const cvar& x, const cpar& p, const cdual& lam, scalar_t& lag, Eigen::Ref<nlp_variable_t> lg,
                             Eigen::Ref<nlp_variable_t> cg, Eigen::Ref<nlp_constraints_t> g, J&& A) noexcept {}
    template<class H, class J> void lagrangian_gradient_hessian(const cvar& x, const cpar& p, const cdual& lam, scalar_t& lag, Eigen::Ref<nlp_variable_t> lg,
                                     H&& hes, Eigen::Ref<nlp_variable_t> cg, Eigen::Ref<nlp_constraints_t> g, J&& A) noexcept {}
};

struct OpaqueQPInfo { int iter; status_t status; };
template<int N, int M> struct OpaqueQP
{
    using settings_t = qp_solver_settings_t<double>;
    settings_t m_settings;
    OpaqueQPInfo m_info;
    Eigen::Matrix<double, N, 1> m_x;
    Eigen::Matrix<double, N + M, 1> m_y;
    settings_t& settings() noexcept { return m_settings; }
    const settings_t& settings() const noexcept { return m_settings; }
    OpaqueQPInfo& info() noexcept { return m_info; }
    const OpaqueQPInfo& info() const noexcept { return m_info; }
    const Eigen::Matrix<double, N, 1>& primal_solution() const noexcept { return m_x; }
    const Eigen::Matrix<double, N + M, 1>& dual_solution() const noexcept { return m_y; }
    Eigen::Matrix<double, N, 1>& primal_solution() noexcept { return m_x; }
    Eigen::Matrix<double, N + M, 1>& dual_solution() noexcept { return m_y; }
    template<class MH, class Vh, class MA, class Va, class Vx>
    status_t solve(const MH& H, const Vh& h, const MA& A, const Va& al, const Va& au, const Vx& xl, const Vx& xu) noexcept { return SOLVED; }
    template<class MH, class Vh, class MA, class Va, class Vx, class X0, class Y0>
    status_t solve(const MH& H, const Vh& h, const MA& A, const Va& al, const Va& au, const Vx& xl, const Vx& xu, const X0& x0, const Y0& y0) noexcept { return SOLVED; }
};

// a preconditioner with distinct effects on every datum
struct OpaquePrec
{
    template<class MH, class Vh, class MA, class Va, class Vx>
    void compute(MH& H, Vh& h, MA& A, Va& al, Va& au, Vx& lx, Vx& ux) noexcept {}
    template<class MH, class Vh, class MA, class Va, class Vx>
    void unscale(MH& H, Vh& h, MA& A, Va& al, Va& au, Vx& lx, Vx& ux) noexcept {}
    template<class X, class Y> void unscale(X& x, Y& y) noexcept {}
    template<class X, class Y> void scale(X& x, Y& y) noexcept {}
    template<class MH> void unscale_hessian(MH& H) noexcept {}
};

// default algorithm
template<class P, class Q, class R> class SqpDefault : public SQPBase<SqpDefault<P, Q, R>, P, Q, R> {};

// customised: step size, Hessian update and regularisation supplied by the user
template<class P, class Q, class R> class SqpCustom : public SQPBase<SqpCustom<P, Q, R>, P, Q, R>
{
public:
    using Base = SQPBase<SqpCustom<P, Q, R>, P, Q, R>;
    using typename Base::scalar_t;
    using typename Base::nlp_variable_t;
    using typename Base::nlp_hessian_t;
    scalar_t step_size_selection_impl(const Eigen::Ref<const nlp_variable_t>& p) noexcept { return 1.0; }
    template<class MH> void hessian_update_impl(MH&& H, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_variable_t>& y) noexcept {}
    void hessian_regularisation_dense_impl(Eigen::Ref<nlp_hessian_t> H) noexcept {}
    void hessian_regularisation_sparse_impl(nlp_hessian_t& H) noexcept {}
};

template<class S> void use_sqp(S& s, typename S::nlp_variable_t& x, typename S::nlp_dual_t& l)
{
    S s_;
    s.solve();
    s.solve(x, l);
    (void)s.primal_solution(); (void)s.dual_solution(); (void)s.info(); (void)s.settings(); (void)s.cost(); (void)s.primal_norm();
    (void)s.dual_norm(); (void)s.constr_violation(); (void)s.parameters(); (void)s.qp_settings(); (void)s.settings().validate();
    (void)s.lower_bound_x(); (void)s.upper_bound_x(); (void)s.lower_bound_g(); (void)s.upper_bound_g();
    (void)s.constraints_violation(x); (void)s.max_constraints_violation(x);
    (void)s.step_size_selection(x);
}
#define INST(NAME, T, NX, NE, NI, FMT) \
    using NAME = T<OpaqueNlp<NX, NE, NI, FMT>, OpaqueQP<NX, NE + NI>, OpaquePrec>; \
    template void use_sqp<NAME>(NAME&, NAME::nlp_variable_t&, NAME::nlp_dual_t&);
INST(DefFull, SqpDefault, 2, 1, 1, DENSE)
INST(DefEq, SqpDefault, 2, 1, 0, DENSE)
INST(DefIneq, SqpDefault, 2, 0, 2, DENSE)
INST(DefBox, SqpDefault, 2, 0, 0, DENSE)
INST(CusFull, SqpCustom, 2, 1, 1, DENSE)
INST(CusEq, SqpCustom, 2, 1, 0, DENSE)
INST(CusIneq, SqpCustom, 2, 0, 2, DENSE)
INST(CusSparse, SqpCustom, 2, 1, 1, SPARSE)

using V2 = Eigen::Matrix<double, 2, 1>;
using M2 = Eigen::Matrix<double, 2, 2>;
using V1 = Eigen::Matrix<double, 1, 1>;
using M1 = Eigen::Matrix<double, 1, 1>;
void use_updates(M2& B, const V2& s, const V2& y, M1& B1, const V1& s1, const V1& y1)
{
    BFGS_update(B, s, y);
    SR1_update(B, s, y);
    BFGS_update(B1, s1, y1);
    SR1_update(B1, s1, y1);
}
void use_filter(LSFilter<double>& f, double c, double v)
{
    LSFilter<double> f_;
    f.add(c, v); (void)f.is_acceptable(c, v); (void)f.is_dominated(c, v); f.clear(); f.remove_one();
}
