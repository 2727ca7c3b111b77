// replay driver for C11: every decision of real Rodas integrations recomputed
#include "rodas.hpp"
template<class P> void one(Rng&g,int rep,const char*nm){ const int n=P::n; for(int k=0;k<rep;k++){ random_problem<P>(g); vector<double> at(n),rt(n); bool same=g.i(0,1); double a=pow(10.,g.u(-7,-2)),b=pow(10.,g.u(-7,-2)); for(int i=0;i<n;i++){ at[i]=same?a:pow(10.,g.u(-7,-2)); rt[i]=same?b:pow(10.,g.u(-7,-2)); }
    double x0=g.i(0,2)?g.u(-2,2):0,len=g.u(.05,1.5)*(g.i(0,1)?1:-1); if(len<0) for(auto&z:PR.A) z=-z; int hk=g.i(0,5); double h0=fabs(len)*pow(10.,hk==0?g.u(0,3):hk==1?g.u(-7,-4):g.u(-3,0)); if(g.i(0,3)==0) h0=-h0; if(g.i(0,19)==0) h0=g.u(2e-16,9e-16);
    if(hk==2) x0=0; if(hk==0){ for(auto&z:PR.A) z*=g.u(3,30); }
    double y[P::n]; for(int i=0;i<n;i++) y[i]=g.u(-1,1);
    Opt o; o.gus=g.i(0,2)!=0; o.safe=g.i(0,2)?0.9:g.u(.4,.99); if(g.i(0,5)==0) o.nmax=g.i(1,30); o.one=g.i(0,5)==0;
    Rodascc<P> I(same,&at[0],&rt[0]); I.setGustafssonTest(o.gus); I.setSafe(o.safe); I.setNmax(o.nmax); I.performOnlyOneStep(o.one);
    double x=x0,hh=h0; for(int q=0;q<4;q++){ double xe=q==0?x0+len:q==3?x:x+len*g.u(.02,.6); CASE(S(nm," method ",P::method," n=",n," case ",k," call ",q," x=",x," xend=",xe," h0=",hh," safe=",o.safe," gus=",o.gus," nmax=",o.nmax," one=",o.one));
      Res r=drive(I,hh,x,xe,y,at,rt,o); if(r.nrej) ++nnontriv; if(r.bad||r.threw) break;
      if(r.nacc){ if(!close(I.getfirstAcceptedStep(),r.firsth,1e-6)) FAIL("first-step",S("first accepted step reported ",I.getfirstAcceptedStep()," is ",r.firsth," | ",curcase)); }
      bool big=false; for(int i=0;i<n;i++) if(!(fabs(y[i])<1e3)) big=true; if(big) break; hh=fabs(len)*pow(10.,g.u(-4,.5)); } } }
template<int M> void meth(Rng&g,int rep){
  one<RP<3,2,2,false,false,M,false,false> >(g,rep,"full"); one<RP<2,1,1,false,false,M,true,false> >(g,rep,"full, autonomous"); one<RP<4,3,3,true,false,M,false,true> >(g,rep,"Hessenberg, user time derivative"); one<RP<3,2,2,false,true,M,false,false> >(g,rep,"full, numerical"); one<RP<5,1,2,false,false,M,true,false> >(g,rep,"banded, autonomous"); }
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); STAGES=false; int rep=th?400:40; meth<1>(g,rep); meth<2>(g,rep); meth<3>(g,rep); return finish(); }
