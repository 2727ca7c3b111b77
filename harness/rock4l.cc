// AST harness: Rock4L (linear and affine operators)
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <string>
#include "AllocateDestroyVector.hpp"
#include "Rock4L.hpp"
struct odes_OpL {
  int size() const;
  double rho() const;
  void operator()(double* in,double* s,double a,double b,double* out) const;
  void operator()(double* in,double* s,double a,double b,double* g,double* out) const;
  void operator()(double* in,double* s,double a,double b,double c,double* out) const;
  void operator()(double* in,double* s,double a,double b,double c,double* g,double* out) const;
};
template class odes::Rock4L<odes_OpL,false>;
template class odes::Rock4L<odes_OpL,true>;
