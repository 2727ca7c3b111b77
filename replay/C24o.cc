// replay driver for C24, Rodas: settings changed between integrations
#include "rodas.hpp"
template<class P> void one(const char*who,Rng&g,int rep){ const int n=P::n;
  for(int q=0;q<rep;q++){ random_problem<P>(g); double am=g.i(0,3)?g.u(0,3):g.u(5,30); if(g.i(0,2)) for(auto&z:PR.q) z*=am;
    bool same=true; vector<double> at(n),rt(n),ua(n),ur(n); auto tol=[&](){ same=g.i(0,1); for(int i=0;i<n;i++){ ur[i]=pow(10.,-g.u(1.,7.)); ua[i]=ur[i]*pow(10.,g.u(-3,1)); } for(int i=0;i<n;i++) at[i]=ua[same?0:i],rt[i]=ur[same?0:i]; }; tol();
    Opt o; Rodascc<P> I(same,&ua[0],&ur[0]);
    for(int rr=0;rr<8;rr++){ string what; int m=rr==0?g.i(0,1):g.i(0,2); for(int k=0;k<m;k++) switch(g.i(0,4)){
        case 0: o.safe=g.u(.3,.99); I.setSafe(o.safe); what+="safe "; break;
        case 1: o.gus=!o.gus; I.setGustafssonTest(o.gus); what+="gus "; break;
        case 2: o.nmax=g.i(0,2)?g.i(0,40):10000; I.setNmax(o.nmax); what+="nmax "; break;
        case 3: tol(); I.setTestPolicy(same,&ua[0],&ur[0]); what+="tolerances "; break;
        case 4: o.one=!o.one; I.performOnlyOneStep(o.one); what+="one "; break; }
      double y[P::n]; for(int i=0;i<n;i++) y[i]=g.u(-1,1); double x=g.i(0,2)?g.u(-2,2):0,len=g.u(.05,1.5),h=len*pow(10.,g.u(-4,0)); if(g.i(0,3)==0) len=-len; double xe=x+len;
      CASE(S(who," n=",n," case ",q," run ",rr," changed: ",what," x=",x," end=",xe," h=",h," safe=",o.safe," nmax=",o.nmax," one=",o.one," gus=",o.gus," same=",same," atol1=",at[0]," rtol1=",rt[0]));
      Res r=drive(I,h,x,xe,y,at,rt,o); if(r.nacc) ++nnontriv; if(r.bad) break; } } }
int main(int c,char**v){ STAGES=false; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?12:1;
  for(int r=0;r<m;r++){ one<RP<1,0,0,false,false,1,false,false> >("full1",g,40); one<RP<3,2,2,false,false,2,false,false> >("full3",g,60); one<RP<4,3,3,true,false,3,false,false> >("hess4",g,30); one<RP<5,1,2,false,true,1,true,false> >("band5 numeric",g,30); }
  return finish(); }
