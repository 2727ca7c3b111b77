// replay driver for C06, Radau5: real integrations recomputed with the tolerances given
#include "radau.hpp"
static long runs=0,cuts=0,rejs=0;
template<class P> void one(const char*who,Rng&g,int rep){ const int n=P::n;
  for(int q=0;q<rep;q++){ random_problem<P>(g); if(g.i(0,1)) for(auto&z:PR.q) z*=g.u(0,20);
    // arrays of exactly the size the documentation asks for: anything else read is an error (AddressSanitizer)
    auto mk=[&](bool same,vector<double>&ua,vector<double>&ur){ int m=same?1:n; ua.resize(m); ur.resize(m); for(int i=0;i<m;i++){ ur[i]=pow(10.,-g.u(1.5,9)); ua[i]=ur[i]*pow(10.,g.u(-4,2)); } ua.shrink_to_fit(); ur.shrink_to_fit(); };
    bool same=g.i(0,1); vector<double> ua,ur; mk(same,ua,ur); double*pa=new double[ua.size()],*pr=new double[ur.size()]; for(size_t i=0;i<ua.size();i++) pa[i]=ua[i],pr[i]=ur[i];
    Radau5cc<P> I(same,pa,pr); delete[] pa; delete[] pr; // the values are taken when given
    for(int rr=0;rr<3;rr++){
      if(rr==1&&g.i(0,1)){ same=g.i(0,1); vector<double> a,b; mk(same,a,b); ua=a; ur=b; pa=new double[ua.size()],pr=new double[ur.size()]; for(size_t i=0;i<ua.size();i++) pa[i]=ua[i],pr[i]=ur[i]; I.setTestPolicy(same,pa,pr); delete[] pa; delete[] pr; }
      vector<double> y(n); for(double&z:y) z=g.u(-2,2)*pow(10.,g.u(-3,0)); double x=g.i(0,1)?0:g.u(-2,2),len=pow(10.,g.u(-2,1)); if(g.i(0,3)==0) len=-min(len,.5); double h=pow(10.,-g.u(0,5)),xe=x+len; Opt o;
      CASE(S(who," n=",n," case ",q,".",rr," same=",same," atol(1)=",ua[0]," rtol(1)=",ur[0]," x=",x," end=",xe," h=",h));
      Res r=rdrive<P>(I,h,x,xe,&y[0],same,ua,ur,o); runs++; cuts+=r.cut; rejs+=r.nrej; if(r.nacc) nnontriv++; if(r.bad) break; } } }
int main(int c,char**v){ WATCH=CONTROL; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?20:1;
  for(int r=0;r<m;r++){ one<RP<1,0,0,false,false,1,false,false> >("full1",g,40); one<RP<3,2,2,false,false,1,false,false> >("full3",g,60); one<RP<4,3,3,true,false,1,false,false> >("hess4",g,40); one<RP<5,1,2,false,true,1,false,false> >("band5 numeric",g,40); one<RP<6,5,5,false,false,1,false,false> >("full6",g,40); }
  printf("INFO runs=%ld unclear=%ld rejected=%ld\n",runs,cuts,rejs); return finish(); }
