// user problems: their members are declared only (contracts stand for them)
#pragma once
#include <iostream>
#include <string>
using namespace std;
#define ODV_RHS(NAME,NSUB,NSUP,HESS,NUM,METH,AUT,DFT,MAT) \
struct NAME { \
  static const int n=1009; static const int nsub=NSUB; static const int nsup=NSUP; \
  static const bool Hessenberg=HESS; static const bool ComputeJacobianNumerically=NUM; \
  static const int method=METH; static const bool autonomous=AUT; static const bool use_DF_t=DFT; \
  void operator()(double t,double in[],double res[]) const; \
  void Jacobian(double t,odes::fortranVector y,odes::fortranVector Fy,MAT& Jac) const; \
  void DF_t(double t,const odes::fortranVectorF<1009>& Y,odes::fortranVectorF<1009>& DFX) const; \
};
