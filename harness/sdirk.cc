// AST harness: SDIRK. The operator's members are declared only.
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "CrN.hpp"
#include "EulerImp.hpp"
#include "Sdirkl.hpp"
struct odes_OpL { void init(int n,double coef); void apply(double in[],double out[]); };
template class odes::Sdirkl<odes::RKMethod1,odes_OpL>;
template class odes::Sdirkl<odes::RKMethod2,odes_OpL>;
template class odes::Sdirkl<odes::RKRS,odes_OpL>;
template class odes::Sdirkl<odes::CrN,odes_OpL>;
template class odes::Sdirkl<odes::EulerImp,odes_OpL>;
