// shared by the Rock4L replay drivers: an operator with logged calls, and the oracle of one step
#pragma once
#include "common.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4L.hpp"
using namespace odes;
static const int MSV[50]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,76,81,86,92,98,105,112,120,129,138,148};
typedef vector<double> V;
static double RHO=1; static int NRHO=0; static const double*BP=nullptr; static string BADCALL;
static long NCALL=0; static long STOPAT=-1;
// A = -Q diag(lam) Q^T + skew part, dense
struct Op{ int N; vector<double> A; 
  int size()const{return N;} double rho(){ ++NRHO; return RHO; }
  V mul(const double*x)const{ V r(N,0.); for(int i=0;i<N;i++){ long double s=0; for(int j=0;j<N;j++) s+=(long double)A[i*N+j]*x[j]; r[i]=s; } return r; }
  void chk(const double*in,const double*s,const double*g,const double*out){ ++NCALL; if(NCALL==STOPAT) throw 7; auto ov=[&](const double*p){ return p&&p<out+N&&out<p+N; }; if(ov(in)||ov(s)||ov(g)) BADCALL="the operator is asked to write into a vector it reads"; if(ov(BP)) BADCALL="the operator is asked to write into b"; if(((size_t)in|(size_t)s|(size_t)out|(size_t)g)%64) BADCALL="a vector given to the operator is not aligned"; }
  void operator()(double*in,double*s,double a,double b,double*out){ chk(in,s,0,out); V r=mul(in); for(int i=0;i<N;i++) out[i]=a*r[i]+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double*g,double*out){ chk(in,s,g,out); V r=mul(in); for(int i=0;i<N;i++) out[i]=a*(r[i]+g[i])+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ chk(in,s,0,out); V r=mul(in); for(int i=0;i<N;i++) out[i]=a*r[i]+b*in[i]+c*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ chk(in,s,g,out); V r=mul(in); for(int i=0;i<N;i++) out[i]=a*(r[i]+g[i])+b*in[i]+c*s[i]; }
};
// operator with eigenvalues -h r u, spectral radius at most hr/h, tridiagonal-like or dense
static Op mkop(Rng&g,int n,double rad){ Op o; o.N=n; o.A.assign(n*n,0.); int kind=g.i(0,2);
  if(kind==0){ for(int i=0;i<n;i++){ o.A[i*n+i]=-rad/2; if(i) o.A[i*n+i-1]=rad/4*g.u(0.9,1); if(i+1<n) o.A[i*n+i+1]=rad/4*g.u(0.9,1); } }
  else { double s=0; vector<double> B(n*n); for(auto&x:B) x=g.u(-1,1); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double a=0; for(int k=0;k<n;k++) a+=B[i*n+k]*B[j*n+k]; o.A[i*n+j]=-a; } for(int i=0;i<n;i++){ double q=0; for(int j=0;j<n;j++) q+=fabs(o.A[i*n+j]); s=max(s,q); } for(auto&x:o.A) x*=rad/s; if(kind==2) for(int i=0;i<n;i++) for(int j=0;j<i;j++){ double w=0.02*g.u(-1,1)*min(rad,1.); o.A[i*n+j]+=w; o.A[j*n+i]-=w; } }
  return o; }
static int rowof(double h,double rho,int&m){ m=(int)(sqrt((3.+h*rho)/0.353)+1); int q=max(m,5)-4; for(int r=1;r<=50;r++) if(MSV[r-1]>=q) return r; return 0; }
// one ROCK4 step for F(v)=Av+b; scale: largest intermediate magnitude
static V step(const Op&o,int row,const V&y,const V*b,double h,double&scale){ Rock4Coeffs C; int d=MSV[row-1],mr=1; for(int i=0;i<row-1;i++) mr+=2*MSV[i]-1; int n=o.N; typedef vector<long double> W; auto F=[&](const W&v){ W r(n); for(int i=0;i<n;i++){ long double s=b?(*b)[i]:0; for(int j=0;j<n;j++) s+=(long double)o.A[i*n+j]*v[j]; r[i]=s; } return r; }; auto ax=[&](const W&x,long double a,const W&z){ W r(n); for(int i=0;i<n;i++){ r[i]=x[i]+a*z[i]; scale=max(scale,(double)fabsl(a*z[i])); scale=max(scale,(double)fabsl(x[i])); } return r; };
  W Y(y.begin(),y.end()),p=Y,c=ax(Y,h*C.recf(mr),F(Y)); for(int j=2;j<=d;j++){ long double mu=C.recf(mr+2*(j-2)+1),nu=-C.recf(mr+2*(j-2)+2); W f=F(c),z(n); for(int i=0;i<n;i++) z[i]=h*mu*f[i]+(1-nu)*c[i]+nu*p[i]; p=c; c=z; }
  W k1=F(c),k2=F(ax(c,h*C.fpa(row,1),k1)),k3=F(ax(ax(c,h*C.fpa(row,2),k1),h*C.fpa(row,3),k2)),k4=F(ax(ax(ax(c,h*C.fpa(row,4),k1),h*C.fpa(row,5),k2),h*C.fpa(row,6),k3));
  W r=ax(ax(ax(ax(c,h*C.fpb(row,1),k1),h*C.fpb(row,2),k2),h*C.fpb(row,3),k3),h*C.fpb(row,4),k4); return V(r.begin(),r.end()); }
// amplification of rounding errors by the finishing polynomial for h*|A|<=x
static double ampl(int row,double x){ Rock4Coeffs C; double a21=C.fpa(row,1),a31=C.fpa(row,2),a32=C.fpa(row,3),a41=C.fpa(row,4),a42=C.fpa(row,5),a43=C.fpa(row,6),b1=C.fpb(row,1),b2=C.fpb(row,2),b3=C.fpb(row,3),b4=C.fpb(row,4); double s=MSV[row-1]+4; auto f=[](double z){ return fabs(z); }; return s*s*(1+f(b1+b2+b3+b4)*x+f(b2*a21+b3*a31+b3*a32+b4*a41+b4*a42+b4*a43)*x*x+f(a21*a32*b3+a21*a42*b4+a31*a43*b4+a32*a43*b4)*x*x*x+f(a21*a32*a43*b4)*x*x*x*x); }
