// AST harness: Rodas
#include "rhs.hpp"
#include "Rodascc.hpp"
ODV_RHS(odes_RhsF,1008,1008,false,true,1,false,false,odes::fortranArray<1009>)
typedef odes::fortranRectangularArray<1009,13,17> BandM;
ODV_RHS(odes_RhsB,13,17,false,true,1,false,false,BandM)
// the step: three coefficient sets; autonomous or not; analytic time derivative
ODV_RHS(odes_RhsA1,1008,1008,false,false,1,false,false,odes::fortranArray<1009>)
ODV_RHS(odes_RhsA2,1008,1008,false,false,2,false,true,odes::fortranArray<1009>)
ODV_RHS(odes_RhsA3,1008,1008,false,false,3,true,false,odes::fortranArray<1009>)
ODV_RHS(odes_RhsA9,1008,1008,false,false,9,true,false,odes::fortranArray<1009>)
template class odes::Rodascc<odes_RhsF>;
template class odes::Rodascc<odes_RhsB>;
template class odes::Rodascc<odes_RhsA1>;
template class odes::Rodascc<odes_RhsA2>;
template class odes::Rodascc<odes_RhsA3>;
template class odes::Rodascc<odes_RhsA9>;
