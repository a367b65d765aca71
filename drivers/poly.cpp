// Driver: instantiates the polynomial bases, projections and splines for the analyser. Never executed. The integrand is declared and
// not defined: the analysis treats it as an arbitrary polynomial.
#include <algorithm>
#include "polynomials/polynomial_math.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/projection.hpp"
#include "polynomials/splines.hpp"

struct Fun { double operator()(const double& x) const; };

template<class B> void use_basis(B& b, double& s, typename B::nodes_t& v, typename B::diff_mat_t& D)
{
    B b_;
    v = b.CPoints();
    v = b.QWeights();
    v = b.NFactors();
    D = b.D();
    s = b.eval(s, 2);
    s = b.template integrate<Fun>(s, s);
    v = B::compute_nodes();
    v = B::compute_int_weights();
    v = B::compute_quad_weights();
    v = B::compute_norm_factors();
    D = B::compute_diff_matrix();
    s = B::weight(s);
}
template<class B> void use_cheb(B& b, double& s, typename B::nodes_t& v) { s = B::eval(s); v = b.CCQWeights(); }
template<class B> void use_leg(B& b, typename B::basis_t& v) { v = B::compute_basis(); auto t = b.getGalerkinTensor(); (void)t; }
template<class B> void use_proj(double& s) { Projection<B> p{Fun()}; Projection<B> q{Fun(), s, s}; p.project(Fun(), s, s); s = p.eval(s); s = p.coeff[0]; }

#define INST_C(N) template void use_basis<polympc::Chebyshev<N>>(polympc::Chebyshev<N>&, double&, polympc::Chebyshev<N>::nodes_t&, polympc::Chebyshev<N>::diff_mat_t&); \
    template void use_cheb<polympc::Chebyshev<N>>(polympc::Chebyshev<N>&, double&, polympc::Chebyshev<N>::nodes_t&); \
    template void use_proj<polympc::Chebyshev<N>>(double&);
#define INST_L(N) template void use_basis<polympc::Legendre<N>>(polympc::Legendre<N>&, double&, polympc::Legendre<N>::nodes_t&, polympc::Legendre<N>::diff_mat_t&); \
    template void use_leg<polympc::Legendre<N>>(polympc::Legendre<N>&, polympc::Legendre<N>::basis_t&); \
    template void use_proj<polympc::Legendre<N>>(double&);
INST_C(2) INST_C(3) INST_C(4) INST_C(5) INST_C(6) INST_C(7) INST_C(8) INST_C(9)
INST_L(2) INST_L(3) INST_L(4) INST_L(5) INST_L(6) INST_L(7) INST_L(8)

template<class B> void use_splined(typename B::nodes_t& v, typename B::diff_mat_t& D)
{
    v = B::compute_nodes();
    v = B::compute_int_weights();
    v = B::compute_quad_weights();
    v = B::compute_norm_factors();
    D = B::compute_diff_matrix();
}
#define INST_S(B, K) template void use_splined<polympc::Spline<polympc::B, K>>(polympc::B::nodes_t&, polympc::B::diff_mat_t&);
INST_S(Chebyshev<3>, 2) INST_S(Chebyshev<4>, 3) INST_S(Legendre<3>, 2)

// ------------------------------------------------------------------ coefficient arithmetic
template<int N> void use_coef(Eigen::Matrix<double, N, 1>& a, Eigen::Matrix<double, N, 1>& b, Eigen::Matrix<double, N, 1>& c)
{
    c = polympc::polymath::poly_mul(a, b);
    c = polympc::polymath::poly_diff(a);
}
#define INST_P(N) template void use_coef<N>(Eigen::Matrix<double, N, 1>&, Eigen::Matrix<double, N, 1>&, Eigen::Matrix<double, N, 1>&);
INST_P(1) INST_P(2) INST_P(3) INST_P(4) INST_P(6)

// ------------------------------------------------------------------ splines
using AD1 = Eigen::AutoDiffScalar<Eigen::Matrix<double, 2, 1>>;
using AD2 = Eigen::AutoDiffScalar<Eigen::Matrix<AD1, 2, 1>>;
template<class S> void use_spline(S& s, double& x, AD1& y, AD2& z, typename S::coeffs_matrix_type& c)
{
    S s0; S s1(c, x);
    x = s.eval(x); y = s.eval(y); z = s.eval(z);
    c = s.coefficients(); x = s.segment_length();
    const S& k = s; c = k.coefficients(); x = k.segment_length();
}
template void use_spline<polympc::EquidistantCubicSpline<double>>(polympc::EquidistantCubicSpline<double>&, double&, AD1&, AD2&,
    polympc::EquidistantCubicSpline<double>::coeffs_matrix_type&);

template<int N, int R> void use_lagrange(double x, Eigen::Matrix<double, N, 1>& nodes, Eigen::Matrix<double, N, N>& basis, Eigen::Matrix<double, R, N>& values,
                                         Eigen::Matrix<double, R, 1>& out)
{
    polympc::LagrangeSpline::compute_lagrange_basis(nodes, basis);
    out = polympc::LagrangeSpline::eval(x, values, basis);
}
#define INST_LG(N, R) template void use_lagrange<N, R>(double, Eigen::Matrix<double, N, 1>&, Eigen::Matrix<double, N, N>&, Eigen::Matrix<double, R, N>&, Eigen::Matrix<double, R, 1>&);
INST_LG(2, 1) INST_LG(3, 2) INST_LG(4, 3) INST_LG(5, 1)
