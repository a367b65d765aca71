// Stand-in for Ipopt's problem interface: the declarations the adapter implements, nothing else. Used only by the analysed driver.
#ifndef PM_STUB_IPTNLP
#define PM_STUB_IPTNLP
#include <cstddef>
namespace Ipopt {
typedef int Index;
typedef double Number;
enum ApplicationReturnStatus { Solve_Succeeded = 0, Solved_To_Acceptable_Level = 1, Infeasible_Problem_Detected = 2, Maximum_Iterations_Exceeded = -1, Internal_Error = -199 };
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, LOCAL_INFEASIBILITY, INTERNAL_ERROR };
class IpoptData;
class IpoptCalculatedQuantities;
class TNLP
{
public:
    enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 };
    virtual ~TNLP() = default;
    virtual bool get_nlp_info(Index& n, Index& m, Index& nnz_jac_g, Index& nnz_h_lag, IndexStyleEnum& index_style) = 0;
    virtual bool get_bounds_info(Index n, Number* x_l, Number* x_u, Index m, Number* g_l, Number* g_u) = 0;
    virtual bool get_starting_point(Index n, bool init_x, Number* x, bool init_z, Number* z_L, Number* z_U, Index m, bool init_lambda, Number* lambda) = 0;
    virtual bool eval_f(Index n, const Number* x, bool new_x, Number& obj_value) = 0;
    virtual bool eval_grad_f(Index n, const Number* x, bool new_x, Number* grad_f) = 0;
    virtual bool eval_g(Index n, const Number* x, bool new_x, Index m, Number* g) = 0;
    virtual bool eval_jac_g(Index n, const Number* x, bool new_x, Index m, Index nele_jac, Index* iRow, Index* jCol, Number* values) = 0;
    virtual bool eval_h(Index, const Number*, bool, Number, Index, const Number*, bool, Index, Index*, Index*, Number*) { return false; }
    virtual void finalize_solution(SolverReturn status, Index n, const Number* x, const Number* z_L, const Number* z_U, Index m, const Number* g, const Number* lambda,
                                   Number obj_value, const IpoptData* ip_data, IpoptCalculatedQuantities* ip_cq) = 0;
};
}
#endif
