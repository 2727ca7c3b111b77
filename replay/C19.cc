// replay driver for C19: Gauss coefficients as compiled, and their scaling by the step
#include "common.hpp"
#include "SymplecticRK.hpp"
using namespace odes;
template<int s,class D> void one(const char*who,Rng&g,int rep){
  typedef long double R; const R tol=sizeof(D)==8?4e-12L:4e-15L;
  GaussianMethod<s,D> G; CASE(::S(who," s=",s)); ++nnontriv;
  R a[s][s],b[s],c[s]; for(int i=0;i<s;i++){ b[i]=G.b[i]; c[i]=0; for(int j=0;j<s;j++){ a[i][j]=G.A(i,j); c[i]+=a[i][j]; } }
  auto chk=[&](const char*k,int i,int j,R v){ if(!(fabsl(v)<=tol)) FAIL(k,::S(who," s=",s," ",k," condition (",i,",",j,") residual ",(double)v)); };
  for(int i=0;i<s;i++) for(int j=0;j<=i;j++) chk("symplectic",i,j,b[i]*a[i][j]+b[j]*a[j][i]-b[i]*b[j]);
  for(int k=1;k<=2*s;k++){ R v=0; for(int i=0;i<s;i++) v+=b[i]*powl(c[i],k-1); chk("quadrature",k,0,v-1.0L/k); }
  for(int k=1;k<=s;k++) for(int i=0;i<s;i++){ R v=0; for(int j=0;j<s;j++) v+=a[i][j]*powl(c[j],k-1); chk("collocation",i,k,v-powl(c[i],k)/k); }
  for(int i=0;i<s;i++) for(int j=0;j<i;j++) if(fabsl(c[i]-c[j])<1e-3L) FAIL("nodes",::S(who," s=",s," equal nodes"));
  const R eps=sizeof(D)==8?4e-16L:2e-19L;
  for(int r=0;r<rep;r++){
    D h=(D)((g.i(0,1)?1:-1)*powl(10.L,(R)g.u(-6,2))+(R)g.u(-1,1)*1e-17L); if(g.i(0,9)==0) h=1; G.change_h(h); CASE(::S(who," s=",s," change_h(",(double)h,")"));
    for(int i=0;i<s;i++){ if(!(fabsl(G.b[i]-h*b[i])<=eps*fabsl(h*b[i]))){ FAIL("scale",::S(who," s=",s," b[",i,"] after change_h(",(double)h,") is not h times the coefficient: ",(double)(G.b[i]/h-b[i]))); return; }
      for(int j=0;j<s;j++) if(!(fabsl(G.A(i,j)-h*a[i][j])<=eps*fabsl(h*a[i][j]))){ FAIL("scale",::S(who," s=",s," a[",i,"][",j,"] after change_h(",(double)h,") is not h times the coefficient: ",(double)(G.A(i,j)/h-a[i][j]))); return; } }
  }
}
template<int s,class D> void bad(const char*who){ CASE(::S(who," s=",s," must throw")); bool t=false; try{ GaussianMethod<s,D> G; }catch(OdesException&){ t=true; } if(!t) FAIL("guard",::S(who," s=",s," accepted")); }
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); int rep=(c>2&&!strcmp(v[2],"thorough"))?2000:30;
#define ONE(s) one<s,double>("double",g,rep); one<s,long double>("long double",g,rep);
  ONE(2) ONE(3) ONE(4) ONE(5) ONE(6) ONE(7) ONE(8) ONE(9) ONE(10) ONE(11) ONE(12) ONE(13) ONE(14) ONE(15) ONE(16)
#define BAD(s) bad<s,double>("double"); bad<s,long double>("long double");
  BAD(1) BAD(17) BAD(18) BAD(20) BAD(32)
  return finish();
}
