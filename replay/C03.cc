// replay driver for C03: Newton matrices and solves of the full and banded classes
#include "common.hpp"
#include <memory>
#include <complex>
using namespace std;
#include "protos_lapack.hpp"
#include "Matrices.hpp"
using namespace odes;
typedef complex<double> Z;
template<int n,int kl,int ku> struct Kind{ static const bool full=(kl==n-1&&ku==n-1); };
template<int n,int kl,int ku> struct Probe: public Matrices<Kind<n,kl,ku>::full,false,n,kl,ku>{
  typedef Matrices<Kind<n,kl,ku>::full,false,n,kl,ku> B;
  typedef typename B::MatrixReal M;
  void dr(double f,M& J){ B::decomr(f,J);} void dc(double a,double b,M& J){ B::decomc(a,b,J);}
  void sr(fortranVectorF<n>& z,M& J){ B::solvereal(z,J);} void sc(fortranVectorF<n>& a,fortranVectorF<n>& b,M& J){ B::solvecomplex(a,b,J);}
};
template<int n,int kl,int ku> void run(Rng& g,int rep){
  Probe<n,kl,ku> P; typename Probe<n,kl,ku>::M J; double*pj=&J; const int sz=Kind<n,kl,ku>::full?n*n:(2*kl+ku+1)*n;
  // fill-in rows of the band storage hold garbage
  for(int r=0;r<rep;r++){
    for(int k=0;k<sz;k++) pj[k]=1e3*(k%7+1);
    vector<vector<double>> A(n,vector<double>(n,0.));
    for(int i=1;i<=n;i++) for(int j=max(1,i-kl);j<=min(n,i+ku);j++){ A[i-1][j-1]=g.u(-2,2); J(i,j)=A[i-1][j-1]; }
    vector<double> keep(pj,pj+sz);
    double f=g.u(3,9)*(g.i(0,1)?1:-1),a=g.u(2,6),b=g.u(2,6); if(r%3==2){ f*=1e6; a*=1e6; b*=1e6; }
    CASE(S("n=",n," kl=",kl," ku=",ku," fac1=",f," alpha=",a," beta=",b," order=",r%4)); if(n>1) ++nnontriv;
    fortranVectorF<n> z,u,v; vector<double> bz(n); vector<Z> bc(n);
    auto fill=[&](){ for(int i=1;i<=n;i++){ z(i)=bz[i-1]=g.u(-1,1); u(i)=g.u(-1,1); v(i)=g.u(-1,1); bc[i-1]=Z(u(i),v(i)); } };
    auto chkr=[&](const char*w){ for(int i=0;i<n;i++){ double s=f*z(i+1),m=fabs(s); for(int j=0;j<n;j++){ s-=A[i][j]*z(j+1); m+=fabs(A[i][j]*z(j+1)); } if(!(fabs(s-bz[i])<=1e-9*(m+fabs(bz[i])))) { FAIL("solve:real",S(w," n=",n," kl=",kl," ku=",ku," row ",i+1," residual ",s-bz[i])); return; } } };
    auto chkc=[&](const char*w){ for(int i=0;i<n;i++){ Z s=Z(a,b)*Z(u(i+1),v(i+1)); double m=abs(s); for(int j=0;j<n;j++){ Z t=A[i][j]*Z(u(j+1),v(j+1)); s-=t; m+=abs(t);} if(!(abs(s-bc[i])<=1e-9*(m+abs(bc[i])))) { FAIL("solve:complex",S(w," n=",n," kl=",kl," ku=",ku," row ",i+1," residual ",abs(s-bc[i]))); return; } } };
    try{
      if(r%2){ P.dr(f,J); P.dc(a,b,J);} else { P.dc(a,b,J); P.dr(f,J);}    
      fill();
      if(r%4<2){ P.sr(z,J); chkr("first"); P.sc(u,v,J); chkc("second"); }
      else { P.sc(u,v,J); chkc("first"); P.sr(z,J); chkr("second"); }
      fill(); P.sr(z,J); P.sc(u,v,J); chkr("again"); chkc("again");
      // refactorise only one of them
      if(r%2){ f*=1.5; P.dr(f,J);} else { a*=1.25; b*=0.5; P.dc(a,b,J);}    
      fill(); P.sr(z,J); P.sc(u,v,J); chkr("refactored"); chkc("refactored");
    }catch(OdesException&){ FAIL("throw",S("unexpected exception n=",n)); }
    for(int k=0;k<sz;k++) if(pj[k]!=keep[k]){ FAIL("jac",S("Jacobian modified n=",n," kl=",kl," ku=",ku)); break; }
  }
  // singular matrices are reported
  for(int k=0;k<sz;k++) pj[k]=0; for(int i=1;i<=n;i++) for(int j=max(1,i-kl);j<=min(n,i+ku);j++) J(i,j)=(i==j)?2.0:0.0;
  CASE(S("singular n=",n," kl=",kl," ku=",ku));
  bool t=false; try{ P.dr(2.0,J);}catch(OdesException&){ t=true; } if(!t) FAIL("singular:real",S("decomr accepts a singular matrix n=",n," kl=",kl," ku=",ku));
  t=false; try{ P.dc(2.0,0.0,J);}catch(OdesException&){ t=true; } if(!t) FAIL("singular:complex",S("decomc accepts a singular matrix n=",n," kl=",kl," ku=",ku));
}
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); int rep=(c>2&&!strcmp(v[2],"thorough"))?400:24;
  run<1,0,0>(g,rep); run<2,1,1>(g,rep); run<3,2,2>(g,rep); run<5,4,4>(g,rep); run<10,9,9>(g,rep); run<17,16,16>(g,rep);
  run<3,0,0>(g,rep); run<3,1,0>(g,rep); run<3,0,1>(g,rep); run<4,1,1>(g,rep); run<5,2,1>(g,rep); run<5,1,2>(g,rep); run<6,3,1>(g,rep); run<9,1,4>(g,rep); run<12,3,3>(g,rep); run<20,2,5>(g,rep); run<4,3,1>(g,rep); run<4,1,3>(g,rep);
  return finish();
}
