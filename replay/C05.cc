// replay driver for C05: numerical Jacobian of Radau5 and Rodas through the public interface
#include "common.hpp"
#include <map>
#include "protos_lapack.hpp"
#include "Radau5cc.hpp"
#include "Rodascc.hpp"
using namespace odes;
struct Call{ double t; vector<double> y,f; };
struct Stop{};
static vector<Call> LOG; static long stopat=-1; static unsigned long long fseed=1; static double tscale=1,stiff=1;
// a right-hand side with couplings inside the structure only
template<int N,int KL,int KU,bool HESS,bool AUT> struct Pb{
  static const int n=N,nsub=KL,nsup=KU; static const bool Hessenberg=HESS,ComputeJacobianNumerically=true;
  static const int method=1; static const bool autonomous=AUT,use_DF_t=false;
  template<class M> void Jacobian(double,fortranVector,fortranVector,M&) const {}
  template<class V> void DF_t(double,const V&,V&) const {}
  void operator()(double t,double in[],double res[]) const {
    if(stopat>=0&&(long)LOG.size()>=stopat) throw Stop();
    Rng g(fseed);
    for(int i=0;i<n;i++){ double s=AUT?0.3:sin(tscale*t+i); for(int j=max(0,i-KL);j<=min(n-1,i+KU);j++){ double a=g.u(-1,1)*stiff,b=g.u(-0.3,0.3); s+=a*in[j]+b*in[j]*in[i]; } s-=stiff*(3+i%3)*in[i]; res[i]=s; }
    Call c; c.t=t; c.y.assign(in,in+n); c.f.assign(res,res+n); LOG.push_back(c);
  }
};
static double incr(double y){ return sqrt(1e-16*max(1e-5,fabs(y))); }
template<int n,int kl,int ku,class M> void check(const char* who,M& J,const vector<double>& raw0,size_t upto,const string& cs){
  // last group of n consecutive evaluations, each moving one component of a common point
  for(long e=(long)upto;e>=n;e--){
    size_t b=e-n; vector<int> comp(n,-1); vector<double> base(n); bool ok=true; vector<int> seen(n,0);
    // the common point: component k as in any evaluation not moving k
    for(int k=0;k<n&&ok;k++){ if(n==1){ break; } if(n==2){ break; } map<double,int> cnt; for(int q=0;q<n;q++) cnt[LOG[b+q].y[k]]++; double best=0; int m=0; for(auto&z:cnt) if(z.second>m){ m=z.second; best=z.first; } base[k]=best; if(m<n-1) ok=false; }
    // base evaluation among earlier calls at this time
    long bi=-1;
    for(long q=(long)b-1;q>=0;q--){
      if(n<=2){ bool near=true; for(int k=0;k<n;k++) for(int r=0;r<n;r++) if(fabs(LOG[b+r].y[k]-LOG[q].y[k])>1.5*incr(LOG[q].y[k])) near=false; if(near){ bi=q; break; } }
      else if(LOG[q].y==base){ bi=q; break; }
    }
    if(!ok) continue;
    if(bi<0) continue;
    if(n<=2) base=LOG[bi].y;
    for(int q=0;q<n&&ok;q++){ int c=-1,m=0; for(int k=0;k<n;k++) if(LOG[b+q].y[k]!=base[k]){ c=k; m++; } if(m!=1||seen[c]) ok=false; else { seen[c]=1; comp[q]=c; } }
    if(!ok) continue;
    for(int q=0;q<n;q++){
      int j=comp[q]; Call&c=LOG[b+q]; double d=incr(base[j]);
      if(c.t!=LOG[bi].t) FAIL("time",S(who," column ",j+1," evaluated at t=",c.t," base at t=",LOG[bi].t," ",cs));
      if(fabs((c.y[j]-base[j])-d)>1e-6*d+4e-16*fabs(base[j])) FAIL("increment",S(who," column ",j+1," y=",base[j]," increment ",c.y[j]-base[j]," expected ",d," ",cs));
      for(int i=max(1,j+1-ku);i<=min(n,j+1+kl);i++){
        double w=(c.f[i-1]-LOG[bi].f[i-1])/d,v=J(i,j+1);
        if(!(fabs(w-v)<=1e-6*(fabs(w)+fabs(v))+1e-9*fabs(LOG[bi].f[i-1]))) { FAIL("quotient",S(who," J(",i,",",j+1,")=",v," difference quotient ",w," ",cs)); return; }
      }
    }
    ++nnontriv; return;
  }
  FAIL("group",S(who," no group of n evaluations, one per component around an evaluated point: ",cs));
}
template<int n,int kl,int ku> void outside(const char*who,double*p,const vector<double>&raw0,const string&cs){
  const bool full=kl==n-1&&ku==n-1; if(full) return; const int ld=2*kl+ku+1;
  for(int j=1;j<=n;j++) for(int r=0;r<ld;r++){ int i=r-kl-ku+j; bool in=i>=1&&i<=n&&i>=j-ku&&i<=j+kl; int q=(j-1)*ld+r; if(!in&&p[q]!=raw0[q]){ FAIL("outside",S(who," storage outside the structure written: column ",j," row ",i," ",cs)); return; } }
}
template<template<class> class SV,int n,int kl,int ku,bool aut> void one(const char*who,Rng&g,bool firstonly){
  typedef Pb<n,kl,ku,false,aut> P;
  double at[1]={1e-6},rt[1]={1e-6}; SV<P> R(true,at,rt); auto& J=R.Jacobian(); double*p=&J;
  if(n<=2&&!firstonly) return;
  const bool full=kl==n-1&&ku==n-1; const int sz=full?n*n:(2*kl+ku+1)*n;
  vector<double> raw0(sz,777.25); for(int i=0;i<sz;i++) p[i]=777.25;
  vector<double> y(n); for(int i=0;i<n;i++){ int m=g.i(0,4); y[i]=m==0?0.0:m==1?g.u(-1,1):m==2?-g.u(0.5,2):m==3?g.u(-1e-6,1e-6):-g.u(0,1); }
  fseed=g.next()%100000+1; tscale=g.u(0.5,4); stiff=firstonly?1:g.u(5,60); double t=g.u(-1,2),t0=t;
  string cs=S("n=",n," kl=",kl," ku=",ku," fseed=",fseed," t0=",t," aut=",aut," first=",firstonly); for(int i=0;i<min(n,6);i++) cs+=S(" y",i,"=",y[i]);
  CASE(S(who," ",cs));
  LOG.clear(); vector<double> y0=y;
  if(firstonly){
    stopat=n+1; try{ R(1e-3,t,t+1,&y[0]); FAIL("calls",S(who," fewer evaluations than columns ",cs)); }catch(Stop&){} catch(OdesException&){ FAIL("throw",cs); }
    if(y!=y0||t!=t0) FAIL("restore",S(who," solution or time changed by the Jacobian ",cs));
    if(LOG.size()>=(size_t)n+1){ if(LOG[0].t!=t0) FAIL("time",S(who," base evaluation at t=",LOG[0].t," ",cs)); check<n,kl,ku>(who,J,raw0,LOG.size(),cs); }
  } else {
    stopat=-1; try{ R(1e-2,t,t+0.4,&y[0]); }catch(OdesException&){ FAIL("throw",cs); return; }
    check<n,kl,ku>(who,J,raw0,LOG.size(),cs);
  }
  outside<n,kl,ku>(who,p,raw0,cs);
}
template<template<class> class SV> void all(const char*who,Rng&g,int rep){
  for(int r=0;r<rep;r++) for(int f=0;f<2;f++){
    bool F=f==0;
    one<SV,1,0,0,true>(who,g,F); one<SV,2,1,1,false>(who,g,F); one<SV,3,2,2,true>(who,g,F); one<SV,6,5,5,false>(who,g,F); one<SV,4,1,1,true>(who,g,F);
    one<SV,5,2,0,true>(who,g,F); one<SV,5,0,2,false>(who,g,F); one<SV,7,3,1,true>(who,g,F); one<SV,7,1,3,true>(who,g,F); one<SV,9,1,2,false>(who,g,F); one<SV,4,0,0,true>(who,g,F);
  }
}
#include <map>
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); int rep=(c>2&&!strcmp(v[2],"thorough"))?100:8;
  all<Radau5cc>("Radau5",g,rep); all<Rodascc>("Rodas",g,rep);
  return finish();
}
