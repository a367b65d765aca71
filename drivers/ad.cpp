// Driver: instantiates the automatic differentiation scalar for the analyser. Never executed. One function per operation.
#include <Eigen/Core>
#include "autodiff/AutoDiffScalar.h"
namespace ad {
using namespace Eigen;
template<class A, class S> struct Ops
{
    static A add(const A& a, const A& b) { A r = a + b; return r; }
    static A sub(const A& a, const A& b) { A r = a - b; return r; }
    static A mul(const A& a, const A& b) { A r = a * b; return r; }
    static A div(const A& a, const A& b) { A r = a / b; return r; }
    static A neg(const A& a) { A r = -a; return r; }
    static A addc(const A& a, const S& s) { A r = a + s; return r; }
    static A cadd(const A& a, const S& s) { A r = s + a; return r; }
    static A subc(const A& a, const S& s) { A r = a - s; return r; }
    static A csub(const A& a, const S& s) { A r = s - a; return r; }
    static A mulc(const A& a, const S& s) { A r = a * s; return r; }
    static A cmul(const A& a, const S& s) { A r = s * a; return r; }
    static A divc(const A& a, const S& s) { A r = a / s; return r; }
    static A iadd(const A& a, const A& b) { A r = a; r += b; return r; }
    static A isub(const A& a, const A& b) { A r = a; r -= b; return r; }
    static A imul(const A& a, const A& b) { A r = a; r *= b; return r; }
    static A idiv(const A& a, const A& b) { A r = a; r /= b; return r; }
    static A iaddc(const A& a, const S& s) { A r = a; r += s; return r; }
    static A isubc(const A& a, const S& s) { A r = a; r -= s; return r; }
    static A imulc(const A& a, const S& s) { A r = a; r *= s; return r; }
    static A idivc(const A& a, const S& s) { A r = a; r /= s; return r; }
    static A fabs_(const A& a) { using std::abs; A r = abs(a); return r; }
    static A abs2_(const A& a) { A r = abs2(a); return r; }
    static A sqrt_(const A& a) { using std::sqrt; A r = sqrt(a); return r; }
    static A cos_(const A& a) { using std::cos; A r = cos(a); return r; }
    static A sin_(const A& a) { using std::sin; A r = sin(a); return r; }
    static A tan_(const A& a) { using std::tan; A r = tan(a); return r; }
    static A asin_(const A& a) { using std::asin; A r = asin(a); return r; }
    static A acos_(const A& a) { using std::acos; A r = acos(a); return r; }
    static A exp_(const A& a) { using std::exp; A r = exp(a); return r; }
    static A log_(const A& a) { using std::log; A r = log(a); return r; }
    static A tanh_(const A& a) { using std::tanh; A r = tanh(a); return r; }
    static A sinh_(const A& a) { using std::sinh; A r = sinh(a); return r; }
    static A cosh_(const A& a) { using std::cosh; A r = cosh(a); return r; }
    static A floor_(const A& a) { using std::floor; A r = floor(a); return r; }
    static A min_(const A& a, const A& b) { return (min)(a, b); }
    static A max_(const A& a, const A& b) { return (max)(a, b); }
    static A conj_(const A& a) { A r = conj(a); return r; }
    static A real_(const A& a) { A r = real(a); return r; }
    static A mix_(const A& a, const A& b) { A r = (a + b) * (a - b) / (b * S(3)) - (-a); return r; }
    static bool lt(const A& a, const A& b) { return a < b; }
    static bool le(const A& a, const A& b) { return a <= b; }
    static bool gt(const A& a, const A& b) { return a > b; }
    static bool ge(const A& a, const A& b) { return a >= b; }
    static bool eq(const A& a, const A& b) { return a == b; }
    static bool ne(const A& a, const A& b) { return a != b; }
    static bool ltc(const A& a, const S& s) { return a < s; }
    static bool lec(const A& a, const S& s) { return a <= s; }
    static bool gtc(const A& a, const S& s) { return a > s; }
    static bool gec(const A& a, const S& s) { return a >= s; }
    static bool eqc(const A& a, const S& s) { return a == s; }
    static bool nec(const A& a, const S& s) { return a != s; }
    static bool clt(const A& a, const S& s) { return s < a; }
    static bool cle(const A& a, const S& s) { return s <= a; }
    static bool cgt(const A& a, const S& s) { return s > a; }
    static bool cge(const A& a, const S& s) { return s >= a; }
    static bool ceq(const A& a, const S& s) { return s == a; }
    static bool cne(const A& a, const S& s) { return s != a; }
    static A copy(const A& a) { A r(a); return r; }
    static A assign(const A& a) { A r; r = a; return r; }
    static A seed(const S& s) { A r(s, int(A::DerType::RowsAtCompileTime), A::DerType::RowsAtCompileTime / 2); return r; }
    static A fromc(const S& s) { A r(s); return r; }
    static A both(const S& s, const typename A::DerType& d) { A r(s, d); return r; }
    static S value(const A& a) { return a.value(); }
    static typename A::DerType derivatives(const A& a) { return a.derivatives(); }
    static A put(const A& a, const S& s, const typename A::DerType& d) { A r(a); r.value() = s; r.derivatives() = d; return r; }
};
// operations that only exist for a plain scalar below
template<class A, class S> struct Ops1
{
    static A cdiv(const A& a, const S& s) { A r = s / a; return r; }
    static A pow_(const A& a, const S& s) { using std::pow; A r = pow(a, s); return r; }
    static A pow2_(const A& a) { using std::pow; A r = pow(a, S(2)); return r; }
    static A atan2_(const A& a, const A& b) { using std::atan2; A r = atan2(a, b); return r; }
    static A minc_(const A& a, const S& s) { return (min)(a, s); }
    static A maxc_(const A& a, const S& s) { return (max)(a, s); }
    static A cmin_(const A& a, const S& s) { return (min)(s, a); }
    static A cmax_(const A& a, const S& s) { return (max)(s, a); }
};
// mixed with plain numbers
template<class A> struct OpsD
{
    static A addc(const A& a, const double& s) { A r = a + s; return r; }
    static A cadd(const A& a, const double& s) { A r = s + a; return r; }
    static A subc(const A& a, const double& s) { A r = a - s; return r; }
    static A csub(const A& a, const double& s) { A r = s - a; return r; }
    static A mulc(const A& a, const double& s) { A r = a * s; return r; }
    static A cmul(const A& a, const double& s) { A r = s * a; return r; }
    static A divc(const A& a, const double& s) { A r = a / s; return r; }
    static A cdiv(const A& a, const double& s) { A r = s / a; return r; }
    static A iaddc(const A& a, const double& s) { A r = a; r += s; return r; }
    static A isubc(const A& a, const double& s) { A r = a; r -= s; return r; }
    static A imulc(const A& a, const double& s) { A r = a; r *= s; return r; }
    static A idivc(const A& a, const double& s) { A r = a; r /= s; return r; }
    static A fromc(const double& s) { A r(s); return r; }
    static bool lt(const A& a, const double& s) { return a < s; }
    static bool gt(const A& a, const double& s) { return a > s; }
};
using AD1 = AutoDiffScalar<Matrix<double, 3, 1>>;
using AD2 = AutoDiffScalar<Matrix<AD1, 3, 1>>;
template struct Ops<AD1, double>;
template struct Ops1<AD1, double>;
template struct Ops<AD2, AD1>;
template struct OpsD<AD2>;
// a single derivative
using AS1 = AutoDiffScalar<Matrix<double, 1, 1>>;
using AS2 = AutoDiffScalar<Matrix<AS1, 1, 1>>;
template struct Ops<AS1, double>;
template struct Ops<AS2, AS1>;
template struct OpsD<AS2>;
}
