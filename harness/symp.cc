// AST harness: symplectic Gauss methods. The right-hand side is declared only.
#include "SymplecticRK.hpp"
struct odes_F { static const int n=1009; void operator()(double* y,double* f); };
struct odes_FL { static const int n=1009; void operator()(long double* y,long double* f); };
#define G(s) template struct odes::GaussianMethod<s,double>; template struct odes::GaussianMethod<s,long double>; \
 template struct odes::Extrap<1009,s,double>; template struct odes::Extrap<1009,s,long double>;
G(1) G(2) G(3) G(4) G(5) G(6) G(7) G(8) G(9) G(10) G(11) G(12) G(13) G(14) G(15) G(16) G(17) G(18)
#define S(s) template class odes::SymplecticRK<odes_F,s,double>; template class odes::SymplecticRK<odes_FL,s,long double>;
S(2) S(3) S(4) S(5) S(6) S(7) S(8) S(9) S(10) S(11) S(12) S(13) S(14) S(15) S(16)
