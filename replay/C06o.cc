// replay driver for C06, Rodas: real integrations recomputed with the tolerances given
#include "rodas.hpp"
template<class P> void one(const char*who,Rng&g,int rep){ const int n=P::n;
  for(int q=0;q<rep;q++){ random_problem<P>(g);
    auto mk=[&](bool same,vector<double>&at,vector<double>&rt){ int m=same?1:n; double*pa=new double[m],*pr=new double[m]; (void)0; for(int i=0;i<m;i++) pa[i]=pow(10.,-g.u(1,8)),pr[i]=pow(10.,-g.u(1,8)); at.resize(n); rt.resize(n); for(int i=0;i<n;i++) at[i]=pa[same?0:i],rt[i]=pr[same?0:i]; return make_pair(pa,pr); };
    bool same=g.i(0,1); vector<double> at,rt; auto p=mk(same,at,rt); Rodascc<P> I(same,p.first,p.second); delete[] p.first; delete[] p.second;
    for(int rr=0;rr<3;rr++){
      if(rr==1&&g.i(0,1)){ same=g.i(0,1); p=mk(same,at,rt); I.setTestPolicy(same,p.first,p.second); delete[] p.first; delete[] p.second; }
      double y[P::n]; for(int i=0;i<n;i++) y[i]=g.u(-1,1)*pow(10.,g.u(-3,0)); double x=g.i(0,2)?g.u(-2,2):0,len=g.u(.05,1.5),h=len*pow(10.,g.u(-4,0)),xe=x+len; Opt o;
      CASE(S(who," n=",n," case ",q,".",rr," same=",same," atol(1)=",at[0]," rtol(1)=",rt[0]," x=",x," end=",xe," h=",h));
      Res r=drive(I,h,x,xe,y,at,rt,o); if(r.nacc) ++nnontriv; if(r.bad) break; } } }
int main(int c,char**v){ STAGES=false; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?20:2;
  for(int r=0;r<m;r++){ one<RP<1,0,0,false,false,1,false,false> >("full1",g,40); one<RP<3,2,2,false,false,2,false,false> >("full3",g,60); one<RP<4,3,3,true,false,3,false,false> >("hess4",g,40); one<RP<5,1,2,false,true,1,true,false> >("band5 numeric",g,40); one<RP<6,5,5,false,false,2,false,false> >("full6",g,40); }
  return finish(); }
