// AST harness: Hessenberg path
#include <iostream>
#include <string>
using namespace std;
#include "protos_lapack.hpp"
#include "Matrices.hpp"
template class odes::fortranArray<1009>;
template class odes::fortranVectorF<1009>;
template int odes::dech<1009>(odes::fortranArray<1009>&,int*);
template int odes::dechc<1009>(odes::fortranArray<1009>&,odes::fortranArray<1009>&,int*);
template void odes::solh<1009>(const odes::fortranArray<1009>&,const int*,odes::fortranVector&);
template void odes::solhc<1009>(const odes::fortranArray<1009>&,const odes::fortranArray<1009>&,const int*,odes::fortranVector&,odes::fortranVector&);
template void odes::householder<1009>(const odes::fortranArray<1009>&,const double*,const odes::fortranVector&,odes::fortranVector&,bool);
template class odes::Matrices<true,true,1009,1008,1008>;
