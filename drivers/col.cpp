// Driver: instantiates the stand-alone collocation classes for the analyser. Never executed. Polynomial basis, dynamics, cost terms and
// constraints are declared and not defined: the analysis treats them as arbitrary.
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/cost_collocation.hpp"
#include "control/constraints_collocation.hpp"

template<int ORDER> struct OpaqueBasis
{
    enum { POLY_ORDER = ORDER, NUM_NODES = ORDER + 1 };
    using scalar_t    = double;
    using diff_mat_t  = Eigen::Matrix<double, NUM_NODES, NUM_NODES>;
    using q_weights_t = Eigen::Matrix<double, NUM_NODES, 1>;
    using nodes_t     = Eigen::Matrix<double, NUM_NODES, 1>;
    diff_mat_t D() const;
    q_weights_t CCQWeights() const;
};
template<int NX, int NU, int NP> struct Types
{
    using Scalar     = double;
    using State      = Eigen::Matrix<double, NX, 1>;
    using Control    = Eigen::Matrix<double, NU, 1>;
    using Parameters = Eigen::Matrix<double, NP, 1>;
};
template<int NX, int NU, int NP> struct OpaqueDynamics : Types<NX, NU, NP>
{
    template<class X, class U, class P, class F> void operator()(const X& x, const U& u, const P& p, F& f) const;
};
// cost terms carry a coefficient, so that objects of the same class differ
template<int NX, int NU, int NP> struct OpaqueLagrange : Types<NX, NU, NP>
{
    double coefficient = 0;
    template<class X, class U, class P, class T> void operator()(const X& x, const U& u, const P& p, T& l) const;
};
template<int NX> struct OpaqueMayer
{
    double coefficient = 0;
    template<class X, class T> void operator()(const X& x, T& m) const;
};
template<int NY> struct OpaqueFunction
{
    template<class X, class U, class P, class F> void operator()(const X& x, const U& u, const P& p, F& f) const;
};

template<int ORDER, int SEGS, int NX, int NU, int NP> struct Problem
{
    using B  = OpaqueBasis<ORDER>;
    using O  = polympc::ode_collocation<OpaqueDynamics<NX, NU, NP>, B, SEGS>;
    using S  = polympc::sparse_ode_collocation<OpaqueDynamics<NX, NU, NP>, B, SEGS>;
    using C  = polympc::cost_collocation<OpaqueLagrange<NX, NU, NP>, OpaqueMayer<NX>, B, SEGS>;
    using K  = polympc::constraint_collocation<NX, NU, NP, B, SEGS>;
};
template<class T> struct Handle { };    // lets the analyser find the classes of one problem
// the interval arguments have default values
template<class T> void ode_default(T& t, typename T::var_t& v, typename T::constr_t& b) { t(v, b); }
template<class T> void lin_default(T& t, typename T::var_t& v, typename T::jacobian_t& A, typename T::constr_t& b) { t.linearized(v, A, b); }
template<class T> void cost_default(T& t, typename T::var_t& v, double& c) { t(v, c); }
template<class T> void grad_default(T& t, typename T::var_t& v, double& c, typename T::var_t& g) { t.value_gradient(v, c, g); }
template<class T> void hess_default(T& t, typename T::var_t& v, double& c, typename T::var_t& g, typename T::hessian_t& H) { t.value_gradient_hessian(v, c, g, H); }
template<class T> void use_ode(typename T::var_t& v, typename T::constr_t& b, typename T::jacobian_t& A)
{
    T t;
    ode_default(t, v, b);
    lin_default(t, v, A, b);
    t(v, b, 0.0, 1.0);
    t.linearized(v, A, b, 0.0, 1.0);
}
template<class T, class L, class M> void use_cost(typename T::var_t& v, double& c, typename T::hessian_t& H)
{
    T t;
    cost_default(t, v, c);
    grad_default(t, v, c, v);
    hess_default(t, v, c, v, H);
    t(v, c, 0.0, 1.0);
    t.value_gradient(v, c, v, 0.0, 1.0);
    t.value_gradient_hessian(v, c, v, H, 0.0, 1.0);
    L l; M m;
    T t2(l, m);
    t2(v, c);
}
template<class T, int NY> void use_fun(typename T::var_t& v, typename T::template value_t<NY>& y, OpaqueFunction<NY>& f)
{
    T t;
    const OpaqueFunction<NY>& g = f;
    t.template generic_function<OpaqueFunction<NY>, NY>(g, v, y);
    (void)t.template generic_function<OpaqueFunction<NY>, NY>(f, v);
}
#define INST(ORDER, SEGS, NX, NU, NP)                                                                                          \
    template struct Problem<ORDER, SEGS, NX, NU, NP>;                                                                          \
    template void use_ode<Problem<ORDER, SEGS, NX, NU, NP>::O>(Problem<ORDER, SEGS, NX, NU, NP>::O::var_t&,                     \
        Problem<ORDER, SEGS, NX, NU, NP>::O::constr_t&, Problem<ORDER, SEGS, NX, NU, NP>::O::jacobian_t&);                     \
    template void use_ode<Problem<ORDER, SEGS, NX, NU, NP>::S>(Problem<ORDER, SEGS, NX, NU, NP>::S::var_t&,                     \
        Problem<ORDER, SEGS, NX, NU, NP>::S::constr_t&, Problem<ORDER, SEGS, NX, NU, NP>::S::jacobian_t&);                     \
    template void use_cost<Problem<ORDER, SEGS, NX, NU, NP>::C, OpaqueLagrange<NX, NU, NP>, OpaqueMayer<NX>>(Problem<ORDER, SEGS, NX, NU, NP>::C::var_t&, double&,           \
        Problem<ORDER, SEGS, NX, NU, NP>::C::hessian_t&);                                                                      \
    template void use_fun<Problem<ORDER, SEGS, NX, NU, NP>::K, 3>(Problem<ORDER, SEGS, NX, NU, NP>::K::var_t&,                  \
        Problem<ORDER, SEGS, NX, NU, NP>::K::value_t<3>&, OpaqueFunction<3>&);                                                 \
    template void use_fun<Problem<ORDER, SEGS, NX, NU, NP>::K, 1>(Problem<ORDER, SEGS, NX, NU, NP>::K::var_t&,                  \
        Problem<ORDER, SEGS, NX, NU, NP>::K::value_t<1>&, OpaqueFunction<1>&);

INST(2, 2, 2, 1, 1)
INST(3, 2, 1, 2, 2)
INST(2, 3, 1, 1, 0)
INST(3, 1, 2, 1, 1)
INST(2, 1, 1, 3, 1)
