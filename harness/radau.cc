// AST harness: Radau5
#include "rhs.hpp"
#include "Radau5cc.hpp"
ODV_RHS(odes_RhsF,1008,1008,false,true,1,false,false,odes::fortranArray<1009>)
ODV_RHS(odes_RhsA,1008,1008,false,false,1,false,false,odes::fortranArray<1009>)
typedef odes::fortranRectangularArray<1009,13,17> BandM;
ODV_RHS(odes_RhsB,13,17,false,true,1,false,false,BandM)
template class odes::Radau5cc<odes_RhsF>;
template class odes::Radau5cc<odes_RhsA>;
template class odes::Radau5cc<odes_RhsB>;
