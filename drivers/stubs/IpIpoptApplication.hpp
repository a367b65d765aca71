// Stand-in for Ipopt's application object (declarations only).
#ifndef PM_STUB_IPAPP
#define PM_STUB_IPAPP
#include "IpTNLP.hpp"
#include "IpSolveStatistics.hpp"
#include <string>
namespace Ipopt {
template<class T> class SmartPtr
{
    T* p = nullptr;
public:
    SmartPtr() = default;
    SmartPtr(T* q) : p(q) {}
    template<class U> SmartPtr(const SmartPtr<U>& o) : p(o.get()) {}
    T* get() const { return p; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
};
class OptionsList
{
public:
    bool SetNumericValue(const std::string&, Number);
    bool SetIntegerValue(const std::string&, Index);
    bool SetStringValue(const std::string&, const std::string&);
};
class IpoptApplication
{
public:
    SmartPtr<OptionsList> Options();
    ApplicationReturnStatus Initialize();
    ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP>&);
    SmartPtr<SolveStatistics> Statistics();
};
}
Ipopt::IpoptApplication* IpoptApplicationFactory();
#endif
