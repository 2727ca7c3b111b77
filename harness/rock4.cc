// AST harness: Rock4 (general right-hand sides)
#include <cmath>
#include <iostream>
#include <string>
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
struct odes_R4 {
  int size() const;
  double rho() const;
  void operator()(double* in,double* out) const;
};
template class odes::Rock4<odes_R4>;
template class odes::ToolOMP<odes_R4>;
