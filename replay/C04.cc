// replay driver for C04: Hessenberg option of the Newton matrices
#include "common.hpp"
#include <memory>
#include <complex>
using namespace std;
#include "protos_lapack.hpp"
#include "Matrices.hpp"
using namespace odes;
typedef complex<double> Z;
template<int n> struct Probe: public Matrices<true,true,n,n-1,n-1>{
  typedef Matrices<true,true,n,n-1,n-1> B; typedef typename B::MatrixReal M;
  void fresh(){ this->calhes=true; }
  void dr(double f,M& J){ B::decomr(f,J);} void dc(double a,double b,M& J){ B::decomc(a,b,J);}
  void sr(fortranVectorF<n>& z,M& J){ B::solvereal(z,J);} void sc(fortranVectorF<n>& a,fortranVectorF<n>& b,M& J){ B::solvecomplex(a,b,J);}
};
template<int n> void run(Rng& g,int rep){
  Probe<n> P;
  for(int r=0;r<rep;r++){
    typename Probe<n>::M J; vector<vector<double>> A(n,vector<double>(n,0.));
    int kind=r%6;
    for(int i=0;i<n;i++) for(int j=0;j<n;j++){
      double x=g.u(-2,2);
      if(kind==1) x=(abs(i-j)<=1)?g.i(-2,2):0.;             // tridiagonal with integers
      if(kind==2) x=(i==j)?3.0:g.u(-2,2);                      // alpha==J(j,j) below
      if(kind==3) x=(j>=i)?g.u(-2,2):((g.i(0,2)==0)?g.u(-50,50):0.); // pivoting
      if(kind==4) x=(i==j+1)?100.:((i==j)?0.5:g.i(-1,1));      // exchange at every step
      if(kind==5) x=(j==(i+1)%n)?1.:0.;                        // permutation
      A[i][j]=x; J(i+1,j+1)=x;
    }
    double f=g.u(7,15),a=g.u(2,6),b=g.u(2,6);
    if(kind==2){ a=3.0; b=7.; } if(kind==4&&r%4==0){ a=0.5; b=2.0; }
    if(kind==5&&r%2){ f=0.5; a=0.; b=0.5; }
    CASE(S("n=",n," kind=",kind," fac1=",f," alpha=",a," beta=",b)); if(n>1) ++nnontriv;
    fortranVectorF<n> z,u,v; vector<double> bz(n); vector<Z> bc(n);
    auto fill=[&](){ for(int i=1;i<=n;i++){ z(i)=bz[i-1]=g.u(-1,1); u(i)=g.u(-1,1); v(i)=g.u(-1,1); bc[i-1]=Z(u(i),v(i)); } };
    auto chkr=[&](const char*w){ double X=0; for(int i=0;i<n;i++) X=max(X,fabs(z(i+1))); for(int i=0;i<n;i++){ double s=f*z(i+1),m=fabs(f)+1; for(int j=0;j<n;j++){ s-=A[i][j]*z(j+1); m+=fabs(A[i][j]); } if(!(fabs(s-bz[i])<=1e-9*(m*X+1))) { FAIL("solve:real",S(w," n=",n," kind=",kind," row ",i+1," residual ",s-bz[i])); return; } } };
    auto chkc=[&](const char*w){ double X=0; for(int i=0;i<n;i++) X=max(X,abs(Z(u(i+1),v(i+1)))); for(int i=0;i<n;i++){ Z s=Z(a,b)*Z(u(i+1),v(i+1)); double m=abs(Z(a,b))+1; for(int j=0;j<n;j++){ s-=A[i][j]*Z(u(j+1),v(j+1)); m+=fabs(A[i][j]);} if(!(abs(s-bc[i])<=1e-9*(m*X+1))) { FAIL("solve:complex",S(w," n=",n," kind=",kind," row ",i+1," residual ",abs(s-bc[i]))); return; } } };
    try{
      P.fresh(); P.dr(f,J); P.dc(a,b,J);
      fill(); if(r%2){ P.sr(z,J); P.sc(u,v,J);} else { P.sc(u,v,J); P.sr(z,J);} chkr("first"); chkc("first");
      fill(); P.sr(z,J); P.sc(u,v,J); chkr("again"); chkc("again");
      // new step size, same Jacobian
      f*=1.5; a*=1.25; b*=0.75; if(kind==2) a=3.0; P.dr(f,J); P.dc(a,b,J);
      fill(); P.sr(z,J); P.sc(u,v,J); chkr("refactored"); chkc("refactored");
    }catch(OdesException&){ FAIL("throw",S("unexpected exception n=",n," kind=",kind," fac1=",f," alpha=",a," beta=",b)); }
  }
  // singular matrices are reported (diagonal with a zero at each position in turn)
  for(int p=0;p<n;p++){
    CASE(S("singular n=",n," position ",p+1));
    for(int w=0;w<2;w++){
      typename Probe<n>::M J; for(int i=1;i<=n;i++) for(int j=1;j<=n;j++) J(i,j)=(i==j)?((i-1==p)?2.0:1.0):0.0;
      bool t=false; P.fresh();
      try{ P.dr(w?5.0:2.0,J); if(w) P.dc(2.0,0.0,J); }catch(OdesException&){ t=true; }
      if(!t) FAIL(w?"singular:complex":"singular:real",S("a singular matrix is accepted, n=",n," zero pivot at ",p+1));
    }
    typename Probe<n>::M J; for(int i=1;i<=n;i++) for(int j=1;j<=n;j++) J(i,j)=(i==j)?((i-1==p)?2.0:1.0):0.0;
    P.fresh(); try{ P.dr(5.0,J); P.dc(2.0,1.5,J);}catch(OdesException&){ FAIL("throw",S("regular matrix reported singular n=",n)); }
  }
}
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); int rep=(c>2&&!strcmp(v[2],"thorough"))?600:36;
  run<1>(g,rep); run<2>(g,rep); run<3>(g,rep); run<4>(g,rep); run<5>(g,rep); run<6>(g,rep); run<8>(g,rep); run<13>(g,rep); run<40>(g,rep/4);
  return finish();
}
