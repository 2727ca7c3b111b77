// AST harness: matrix containers and Newton matrices
#include <iostream>
#include <string>
using namespace std;
#include "protos_lapack.hpp"
#include "Matrices.hpp"
template class odes::fortranArray<1009>;
template class odes::fortranComplexArray<1009>;
template class odes::fortranRectangularArray<1009,13,17>;
template class odes::fortranRectangularComplexArray<1009,13,17>;
template class odes::Matrices<true,false,1009,1008,1008>;
template class odes::Matrices<false,false,1009,13,17>;
template class odes::Matrices<true,true,1009,1008,1008>;
template class odes::fortranVectorF<2018>;
