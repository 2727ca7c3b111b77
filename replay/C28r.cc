// replay driver for C28: the event log of Radau5 against an independent simulation; logging on and off
#include "radau.hpp"
#include "logs.hpp"
#undef LOGRADAU5
#undef RADAU5CC__H
#define Radau5cc Radau5off
#include "Radau5cc.hpp"
#undef Radau5cc
static long cuts=0,runs=0,cmpd=0,kinds[5];
template<class P> void one(const char*who,Rng&g,int rep){
  for(int q=0;q<rep;q++){ random_problem<P>(g); double am=g.i(0,3)?g.u(0,3):g.u(5,60); if(g.i(0,2)) for(auto&z:PR.q) z*=am; const int n=P::n; int nt=g.i(0,2);
    bool same=g.i(0,1); vector<double> ua(n),ur(n); for(int i=0;i<n;i++){ ur[i]=pow(10.,-g.u(2.,8.)); ua[i]=ur[i]*pow(10.,g.u(-3,1)); }
    Opt o; o.one=g.i(0,5)==0; o.gus=g.i(0,3)!=0; if(g.i(0,2)==0){ o.safe=g.u(.5,.95); o.facr=g.u(.05,.5); o.facl=g.u(1.5,8); o.thet=g.i(0,1)?g.u(.0005,.3):-1; o.nit=g.i(2,10); }
    if(g.i(0,9)==0) o.nmax=g.i(0,30);
    Radau5cc<P> I(same,&ua[0],&ur[0]); Radau5off<P> I2(same,&ua[0],&ur[0]); auto set=[&](auto&I){ if(o.safe!=.9) I.setSafe(o.safe); if(o.facr!=.125) I.setFacrFacl(o.facr,o.facl); if(o.thet!=.001) I.setRecomputeJacobianTreshold(o.thet); if(o.nit!=7) I.setMaxIterationsNewton(o.nit); if(!o.gus) I.setGustafssonTest(false); I.setNmax(o.nmax); I.performOnlyOneStep(o.one); }; set(I); set(I2);
    for(int rr=0;rr<=nt;rr++){
      vector<double> y(n); for(double&z:y) z=g.u(-2,2); double x=g.i(0,1)?0:g.u(-2,2),len=pow(10.,g.u(-2,1)); bool back=g.i(0,3)==0; if(back) len=-min(len,.5); double h=pow(10.,-g.u(0,6)); if(g.i(0,9)==0) h=1e-17; if(g.i(0,9)==0) h=10; if(g.i(0,3)==0) h=-h; double xe=x+len; if(g.i(0,20)==0) xe=x;
      CASE(S(who," n=",n," run ",rr," x=",x," end=",xe," h=",h," same=",same," nit=",o.nit," thet=",o.thet," nmax=",o.nmax," one=",o.one," gus=",o.gus)); 
      vector<double> y2=y; double x2=x,xb=x; Res r=rdrive<P>(I,h,x,xe,&y[0],same,ua,ur,o); runs++; cuts+=r.cut;
      vector<Call> C1; C1.swap(LOG); bool thr2=false; try{ I2(h,x2,xe,&y2[0]); }catch(OdesException&){ thr2=true; }catch(int){ thr2=true; }
      bool eq=thr2==r.threw&&memcmp(&x,&x2,8)==0&&memcmp(&y[0],&y2[0],8*n)==0&&C1.size()==LOG.size(); for(size_t i=0;eq&&i<C1.size();i++) eq=C1[i].k==LOG[i].k&&memcmp(&C1[i].t,&LOG[i].t,8)==0&&memcmp(&C1[i].y[0],&LOG[i].y[0],8*n)==0; if(!eq) FAIL("alters","the integration differs with logging compiled in | "+curcase);
      vector<Entry> E; if(!logtext(I.Log(),E)) break; for(auto&e:E) for(int k=0;k<5;k++) if(e.kind==KN[k]) kinds[k]++;
      if(r.bad) continue; bool whole=r.done&&!r.cut; size_t m=whole?max(E.size(),r.ev.size()):r.ev.size()?r.ev.size()-1:0; if(whole) ++cmpd,++nnontriv;
      if(whole&&E.size()!=r.ev.size()){ FAIL("entries",S(E.size()," entries, but the integration had ",r.ev.size()," events (",r.nstep," attempts, ",r.nacc," accepted, ",r.fails," Newton failures) | ",curcase)); m=min(E.size(),r.ev.size()); }
      for(size_t i=0;i<m&&i<E.size();i++){ Ev&w=r.ev[i]; if(E[i].kind!=KN[w.kind]){ FAIL("kind",S("entry ",i+1," is ",E[i].kind," expected ",KN[w.kind]," (time ",w.t,", step ",w.step,") | ",curcase)); break; } if(E[i].step!=w.step){ FAIL("step",S("entry ",i+1," (",E[i].kind,") has step ",E[i].step," expected ",w.step," | ",curcase)); break; } if(!near6(E[i].t,w.t,1e-7)){ FAIL("time",S("entry ",i+1," (",E[i].kind,") has time ",E[i].t," expected ",w.t," | ",curcase)); break; } if(E[i].hasv&&!near6(E[i].v,w.v,3e-5)){ FAIL("value",S("entry ",i+1," (",E[i].kind,") has the step ",E[i].v," expected ",w.v," | ",curcase)); break; } }
      (void)xb; } }
}
int main(int c,char**v){ WATCH=0;
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?12:1; logunit(g,th?2000:200);
  for(int r=0;r<m;r++){
    one<RP<1,0,0,false,false,1,false,false> >("full1",g,60); one<RP<2,1,1,false,true,1,false,false> >("full2 numeric",g,60); one<RP<3,2,2,false,false,1,false,false> >("full3",g,80); one<RP<4,3,3,false,true,1,false,false> >("full4 numeric",g,40);
    one<RP<3,2,2,true,false,1,false,false> >("hess3",g,50); one<RP<5,1,2,false,false,1,false,false> >("band5",g,50); }
  printf("INFO runs=%ld unclear=%ld compared=%ld success=%ld rejected=%ld failed=%ld notconverge=%ld changed=%ld\n",runs,cuts,cmpd,kinds[0],kinds[1],kinds[2],kinds[3],kinds[4]);
  return finish(); }
