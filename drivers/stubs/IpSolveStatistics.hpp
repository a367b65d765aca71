// Stand-in for Ipopt's statistics object (declarations only).
#ifndef PM_STUB_IPSTAT
#define PM_STUB_IPSTAT
#include "IpTNLP.hpp"
namespace Ipopt {
class SolveStatistics
{
public:
    Index IterationCount() const;
    Number FinalObjective() const;
    void Infeasibilities(Number& dual_inf, Number& constr_viol, Number& varbounds_violation, Number& complementarity, Number& kkt_error) const;
};
}
#endif
