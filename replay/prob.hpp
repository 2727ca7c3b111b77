// random problems that log every call of user code (shared by the Rodas and Radau5 drivers)
#pragma once
#include "common.hpp"
#include "fortranVector.hpp"
using namespace odes;
typedef long double LD;
struct Call{ char k; double t; vector<double> y,o; };
static vector<Call> LOG;
struct Par{ int n,nl,nu; vector<double> A,q,c; double w; };
static Par PR;
static double inj_rel=0; // relative noise (unused by default)
static void pf(double t,const double*y,double*f,bool aut){ int n=PR.n; for(int i=0;i<n;i++){ double s=0; for(int j=max(0,i-PR.nl);j<=min(n-1,i+PR.nu);j++) s+=PR.A[i*n+j]*y[j]; s+=PR.q[i]*y[i]*y[i]; if(!aut) s+=PR.c[i]*sin(PR.w*t+i); f[i]=s; } }
static void pj(double,const double*y,double*J){ int n=PR.n; for(int i=0;i<n*n;i++) J[i]=0; for(int i=0;i<n;i++){ for(int j=max(0,i-PR.nl);j<=min(n-1,i+PR.nu);j++) J[i*n+j]=PR.A[i*n+j]; J[i*n+i]+=2*PR.q[i]*y[i]; } }
template<int N,int NS,int NU,bool HESS,bool NUM,int METH,bool AUT,bool DFT> struct RP{
  static const int n=N,nsub=NS,nsup=NU; static const bool Hessenberg=HESS,ComputeJacobianNumerically=NUM; static const int method=METH; static const bool autonomous=AUT,use_DF_t=DFT;
  void operator()(double t,double y[],double f[]) const { if(LOG.size()>400000) throw 3; Call c; c.k='F'; c.t=t; c.y.assign(y,y+N); pf(t,y,f,AUT); c.o.assign(f,f+N); LOG.push_back(c); }
  template<class V,class W,class M> void Jacobian(double t,V Y,W Fy,M&J) const { Call c; c.k='J'; c.t=t; double y[N],z[N*N]; for(int i=0;i<N;i++){ y[i]=Y(i+1); c.o.push_back(Fy(i+1)); } c.y.assign(y,y+N); pj(t,y,z); for(int i=0;i<N;i++) for(int j=max(0,i-NS);j<=min(N-1,i+NU);j++) J(i+1,j+1)=z[i*N+j]; LOG.push_back(c); }
  void DF_t(double t,const fortranVectorF<N>& Y,fortranVectorF<N>&R) const { Call c; c.k='D'; c.t=t; fortranVectorF<N>&Z=const_cast<fortranVectorF<N>&>(Y); for(int i=0;i<N;i++){ c.y.push_back(Z(i+1)); double v=AUT?0:PR.c[i]*PR.w*cos(PR.w*t+i); R(i+1)=v; c.o.push_back(v); } LOG.push_back(c); }
};
struct Lu{ int n; vector<LD> a; vector<int> p; bool ok; void fac(const vector<LD>&m,int N){ n=N; a=m; p.resize(n); ok=true; for(int k=0;k<n;k++){ int b=k; for(int i=k;i<n;i++) if(fabsl(a[i*n+k])>fabsl(a[b*n+k])) b=i; p[k]=b; if(a[b*n+k]==0){ ok=false; return; } if(b!=k) for(int j=0;j<n;j++) swap(a[b*n+j],a[k*n+j]); for(int i=k+1;i<n;i++){ LD f=a[i*n+k]/=a[k*n+k]; for(int j=k+1;j<n;j++) a[i*n+j]-=f*a[k*n+j]; } } }
  vector<LD> sol(vector<LD> b){ for(int k=0;k<n;k++) swap(b[k],b[p[k]]); for(int i=0;i<n;i++) for(int j=0;j<i;j++) b[i]-=a[i*n+j]*b[j]; for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) b[i]-=a[i*n+j]*b[j]; b[i]/=a[i*n+i]; } return b; } };
// a random stable-ish problem of the class's size and band
template<class P> void random_problem(Rng&g){ PR.n=P::n; PR.nl=min(P::nsub,P::n-1); PR.nu=min(P::nsup,P::n-1); int n=PR.n; PR.A.assign(n*n,0.); PR.q.assign(n,0.); PR.c.assign(n,0.); double st=pow(10.,g.u(-1,3)); bool lin=g.i(0,3)==0;
  for(int i=0;i<n;i++){ for(int j=0;j<n;j++) PR.A[i*n+j]=i==j?-g.u(0.1,1)*(g.i(0,2)?1:st):g.u(-1,1); PR.q[i]=lin?0:g.u(-.3,.3); PR.c[i]=g.u(-2,2); } PR.w=g.u(.3,8); }
