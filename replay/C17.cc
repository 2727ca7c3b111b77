// replay driver for C17 (and the tableaux of C18): steps of Sdirkl against the stage equations solved directly
#include "common.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "CrN.hpp"
#include "EulerImp.hpp"
#include "Sdirkl.hpp"
using namespace odes;
static vector<vector<double> > AM; static int ninit; static double coef0; static int alias_;
static bool gsolve(vector<vector<double> > M,vector<double> b,vector<double>&x){
  int n=b.size();
  for(int k=0;k<n;k++){ int p=k; for(int i=k+1;i<n;i++) if(fabs(M[i][k])>fabs(M[p][k])) p=i; if(M[p][k]==0) return false; swap(M[p],M[k]); swap(b[p],b[k]);
    for(int i=k+1;i<n;i++){ double f=M[i][k]/M[k][k]; for(int j=k;j<n;j++) M[i][j]-=f*M[k][j]; b[i]-=f*b[k]; } }
  x.assign(n,0); for(int i=n-1;i>=0;i--){ double s=b[i]; for(int j=i+1;j<n;j++) s-=M[i][j]*x[j]; x[i]=s/M[i][i]; }
  return true;
}
struct Op{
  int n; double c;
  void init(int n_,double c_){ n=n_; c=c_; ++ninit; coef0=c_; }
  void apply(double in[],double out[]){ if(in==out){ alias_=1; return; } vector<vector<double> > M(n,vector<double>(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) M[i][j]=(i==j)-c*AM[i][j]; vector<double> b(in,in+n),x; gsolve(M,b,x); for(int i=0;i<n;i++) out[i]=x[i]; }
};
template<class RK> void one(const char*who,Rng&g,bool aff){
  RK T; const int ns=RK::nstage; int n=g.i(1,7); double dt=pow(10.,g.u(-3,0.5));
  double stiff=pow(10.,g.u(-1,2.5));
  AM.assign(n,vector<double>(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) AM[i][j]=g.u(-1,1)-(i==j)*stiff*g.u();
  string cs=S(who," n=",n," dt=",dt," affine=",aff," stiff=",stiff); CASE(cs);
  ninit=0; alias_=0; Sdirkl<RK,Op> I(n,dt,aff);
  if(ninit!=1||!close(coef0,dt*T.A[0][0],1e-14)) FAIL("init",S("operator initialised ",ninit," times, coefficient ",coef0," ",cs));
  vector<double> u(n),ph(n),v; for(int i=0;i<n;i++){ u[i]=g.u(-1,1); ph[i]=g.i(0,3)?g.u(-3,3):0; }
  for(int rep=0;rep<3;rep++){
    v=u;
    if(rep==1){ bool thrown=false; vector<double> k=u; try{ if(aff) I.step(&u[0]); else I.step(&u[0],&ph[0]); }catch(GenericException&){ thrown=true; } if(!thrown) FAIL("guard",S("the step of the other mode did not throw ",cs)); if(k!=u) FAIL("guard",S("failing call changed the array ",cs)); u=k; }
    vector<double> pc=ph;
    try{ if(aff) I.step(&u[0],&ph[0]); else I.step(&u[0]); }catch(GenericException&){ FAIL("throw",cs); return; }
    if(pc!=ph) FAIL("phi",S("forcing changed ",cs));
    vector<vector<double> > K(ns,vector<double>(n)); vector<double> w(v); double scale=0;
    for(int i=0;i<n;i++) scale=max(scale,fabs(v[i]));
    bool ok=true;
    for(int s=0;s<ns&&ok;s++){
      vector<double> b(n),Y; vector<vector<double> > M(n,vector<double>(n));
      for(int i=0;i<n;i++){ b[i]=v[i]+(aff?dt*T.A[s][s]*ph[i]:0); for(int j=0;j<s;j++) b[i]+=dt*T.A[s][j]*K[j][i]; for(int j=0;j<n;j++) M[i][j]=(i==j)-dt*T.A[s][s]*AM[i][j]; }
      ok=gsolve(M,b,Y); if(!ok) break;
      for(int i=0;i<n;i++){ K[s][i]=aff?ph[i]:0; for(int j=0;j<n;j++) K[s][i]+=AM[i][j]*Y[j]; scale=max(scale,max(fabs(Y[i]),fabs(dt*K[s][i]))); }
      for(int i=0;i<n;i++){ double bs=0; for(int j=s;j<ns;j++) bs+=T.D[j]*T.A[j][s]; w[i]+=dt*bs*K[s][i]; }
    }
    if(!ok) return;
    for(int i=0;i<n;i++) if(!(fabs(w[i]-u[i])<=1e-10*scale*(1+dt*stiff*n))) { FAIL("step",S("component ",i," is ",u[i]," the Runge-Kutta step gives ",w[i]," scale ",scale," step ",rep," ",cs)); return; }
    ++nnontriv;
    u=v; if(rep==0) for(int i=0;i<n;i++) u[i]=w[i];
  }
  if(alias_) FAIL("alias",S("operator asked to write into its input ",cs));
}
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); int rep=(c>2&&!strcmp(v[2],"thorough"))?20000:400;
  for(int r=0;r<rep;r++) for(int a=0;a<2;a++){ one<RKMethod1>("RKMethod1",g,a); one<RKMethod2>("RKMethod2",g,a); one<RKRS>("RKRS",g,a); one<CrN>("CrN",g,a); one<EulerImp>("EulerImp",g,a); }
  return finish();
}
