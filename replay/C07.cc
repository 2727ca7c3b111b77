// replay driver for C07/C08/C09: Radau5 integrations recomputed from the log of user calls
#include "radau.hpp"
#ifndef WHAT
#define WHAT STEP
#endif
static long cuts=0,runs=0,steps=0,rejs=0,fails_=0,accs=0;
template<class P> void one(const char*who,Rng&g,int rep){
  for(int q=0;q<rep;q++){ random_problem<P>(g); double am=g.i(0,3)?g.u(0,3):g.u(5,60); if(g.i(0,2)) for(auto&z:PR.q) z*=am; const int n=P::n; int nt=g.i(0,2);
    bool same=g.i(0,1); vector<double> ua(n),ur(n); for(int i=0;i<n;i++){ ur[i]=pow(10.,-g.u(2.,8.)); ua[i]=ur[i]*pow(10.,g.u(-3,1)); }
    Opt o; o.one=g.i(0,5)==0; o.gus=g.i(0,3)!=0; if(g.i(0,2)==0){ o.safe=g.u(.5,.95); o.facr=g.u(.05,.5); o.facl=g.u(1.5,8); o.thet=g.i(0,1)?g.u(.0005,.3):-1; o.nit=g.i(2,10); if(g.i(0,1)) o.fnewt=pow(10.,-g.u(1,5)); }
    if(g.i(0,9)==0) o.nmax=g.i(0,30);
    Radau5cc<P> I(same,&ua[0],&ur[0]); if(o.safe!=.9) I.setSafe(o.safe); if(o.facr!=.125) I.setFacrFacl(o.facr,o.facl); if(o.thet!=.001) I.setRecomputeJacobianTreshold(o.thet); if(o.nit!=7) I.setMaxIterationsNewton(o.nit); if(o.fnewt>0){ double tol=.1*pow(ur[0],2./3.); if(o.fnewt<=1e-16/tol*1.1) o.fnewt=-1; else I.setFnewt(o.fnewt); } if(!o.gus) I.setGustafssonTest(false); I.setNmax(o.nmax); I.performOnlyOneStep(o.one);
    for(int rr=0;rr<=nt;rr++){
      vector<double> y(n); for(double&z:y) z=g.u(-2,2); double x=g.i(0,1)?0:g.u(-2,2),len=pow(10.,g.u(-2,1)); bool back=g.i(0,3)==0; if(back) len=-min(len,.5); double h=pow(10.,-g.u(0,6)); if(g.i(0,9)==0) h=1e-17; if(g.i(0,9)==0) h=10; if(g.i(0,3)==0) h=-h; double xe=x+len; if(g.i(0,40)==0) xe=x;
      string cs=S(who," n=",n," run ",rr," x=",x," end=",xe," h=",h," same=",same," nit=",o.nit," fnewt=",o.fnewt," thet=",o.thet," nmax=",o.nmax," one=",o.one," gus=",o.gus); CASE(cs);
      Res r=rdrive<P>(I,h,x,xe,&y[0],same,ua,ur,o); runs++; cuts+=r.cut; steps+=r.steps2; rejs+=r.nrej; fails_+=r.fails; accs+=r.nacc; if(r.nacc) nnontriv++; if(r.bad) break; } }
}
int main(int c,char**v){ WATCH=WHAT;
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?12:1;
  for(int r=0;r<m;r++){
    one<RP<1,0,0,false,false,1,false,false> >("full1",g,60); one<RP<2,1,1,false,true,1,false,false> >("full2 numeric",g,60); one<RP<3,2,2,false,false,1,false,false> >("full3",g,80); one<RP<4,3,3,false,true,1,false,false> >("full4 numeric",g,40);
    one<RP<3,2,2,true,false,1,false,false> >("hess3",g,50); one<RP<5,4,4,true,true,1,false,false> >("hess5 numeric",g,30); one<RP<5,1,2,false,false,1,false,false> >("band5",g,50); one<RP<4,2,0,false,true,1,false,false> >("band4 numeric",g,50); one<RP<5,0,1,false,false,1,false,false> >("band5b",g,40); }
  printf("INFO runs=%ld unclear=%ld attempts=%ld accepted=%ld rejected=%ld newton-failures=%ld\n",runs,cuts,steps,accs,rejs,fails_);
  return finish(); }
