// replay driver for C28: the event log of Rodas against the steps observed; logging on and off
#include "prob.hpp"
#include "logger.hpp"
#include "rodas.hpp"
#include "logs.hpp"
#undef LOGRODAS
#undef RODASCC__H
#define Rodascc Rodasoff
#include "Rodascc.hpp"
#undef Rodascc
static long runs=0,cmpd=0,ents=0;
template<class P> void one(const char*who,Rng&g,int rep){ const int n=P::n;
  for(int q=0;q<rep;q++){ random_problem<P>(g); double am=g.i(0,3)?g.u(0,3):g.u(5,60); if(g.i(0,2)) for(auto&z:PR.q) z*=am;
    bool same=g.i(0,1); vector<double> at(n),rt(n); for(int i=0;i<n;i++){ at[i]=pow(10.,g.u(-8,-2)); rt[i]=pow(10.,g.u(-8,-2)); } vector<double> a2=at,r2=rt; if(same) for(int i=0;i<n;i++) a2[i]=at[0],r2[i]=rt[0];
    Opt o; o.one=g.i(0,5)==0; o.gus=g.i(0,3)!=0; o.nmax=g.i(0,6)?10000:g.i(0,20); if(g.i(0,3)==0) o.safe=g.u(.5,1);
    Rodascc<P> I(same,&at[0],&rt[0]); Rodasoff<P> I2(same,&at[0],&rt[0]); auto set=[&](auto&I){ I.performOnlyOneStep(o.one); I.setGustafssonTest(o.gus); I.setNmax(o.nmax); if(o.safe!=.9) I.setSafe(o.safe); }; set(I); set(I2);
    for(int rr=0;rr<3;rr++){ vector<double> y(n); for(double&z:y) z=g.u(-2,2); double x=g.i(0,1)?0:g.u(-2,2),len=pow(10.,g.u(-2,1)); if(g.i(0,3)==0) len=-min(len,.5); double h=pow(10.,-g.u(0,6)); if(g.i(0,9)==0) h=10; if(g.i(0,9)==0) h=-h; double xe=x+len; if(g.i(0,20)==0) xe=x; if(g.i(0,20)==0){ x=0; h=1e-17; xe=len; }
      CASE(S(who," method ",P::method," n=",n," run ",rr," x=",x," end=",xe," h=",h," nmax=",o.nmax," one=",o.one," gus=",o.gus)); double x0=x; vector<double> y2=y; double x2=x; ++runs;
      Res r=drive<P>(I,h,x,xe,&y[0],a2,r2,o); vector<Call> C1; C1.swap(LOG); bool thr2=false; try{ I2(h,x2,xe,&y2[0]); }catch(OdesException&){ thr2=true; }catch(int){ thr2=true; }
      bool eq=C1.size()>400000||(thr2==r.threw&&memcmp(&x,&x2,8)==0&&memcmp(&y[0],&y2[0],8*n)==0&&C1.size()==LOG.size()); for(size_t i=0;eq&&C1.size()<=400000&&i<C1.size();i++) eq=C1[i].k==LOG[i].k&&memcmp(&C1[i].t,&LOG[i].t,8)==0&&memcmp(&C1[i].y[0],&LOG[i].y[0],8*n)==0; if(!eq) FAIL("alters","the integration differs with logging compiled in | "+curcase);
      vector<Entry> E; if(!logtext(I.Log(),E)) break; ents+=E.size(); for(auto&e:E) if(e.kind!="changedH"){ FAIL("kind",S("entry of kind ",e.kind," | ",curcase)); break; }
      if(r.bad) continue;
      // expected entries: the step given; then what each preparation of a step sets
      size_t k=0; string bad; auto want=[&](double t,int st,double v,double rel,const char*what){ if(!bad.empty()) return; if(k>=E.size()){ bad=S("no entry for ",what," at time ",t); return; } Entry&e=E[k++]; if(e.step!=st||!near6(e.t,t,1e-12)||!near6(e.v,v,rel)) bad=S("entry ",k," is (time ",e.t,", step ",e.step,", value ",e.v,"), expected for ",what," (",t,", ",st,", ",v,")"); };
      want(x0,0,h,1e-12,"the step given"); double pn=xe>=x0?1:-1,hm=fabs(xe-x0),cur=h; bool known=true;
      size_t a=0; bool whole=(int)r.att.size()==I.getNstep();
      while(a<r.att.size()&&bad.empty()){ size_t b=a; while(b<r.att.size()&&!r.att[b].acc) ++b; double X=r.att[a].x,H=r.att[a].h; int st=(int)a;
        if(known){ if(fabs(cur)<1e-15) { want(X,st,1e-6,1e-12,"the default step"); cur=1e-6; } double c=min(fabs(cur),hm)*pn; want(X,st,c,1e-6,"the step limited to the interval"); if((X+c*1.0001-xe)*pn>0) want(X,st,xe-X,1e-6,"the last step"); }
        else { // the step proposed by the controller is not recomputed here
          if(k>=E.size()){ bad=S("no entry for the step prepared at ",X); break; } Entry&e=E[k++]; if(e.step!=st||!near6(e.t,X,1e-10)) bad=S("entry ",k," is (time ",e.t,", step ",e.step,"), expected (",X,", ",st,")"); bool lastst=fabs(X+H-xe)<=1e-12*(fabs(X)+fabs(xe)+fabs(x0)); bool two=lastst&&(X+e.v*1.0001-xe)*pn>1.2e-6; if(lastst&&!two&&k<E.size()&&E[k].step==st) two=true; if(two) want(X,st,xe-X,1e-6,"the last step"); else if(!near6(e.v,H,1e-6)) bad=S("entry ",k," has the step ",e.v,", but the step attempted was ",H); }
        known=false; a=b+1; }
      if(!bad.empty()) FAIL("entries",bad+S(" (",I.getNstep()," attempts, ",I.getNaccpt()," accepted, ",E.size()," entries) | ",curcase)); else if(whole&&!r.threw){ ++cmpd; ++nnontriv; if(k!=E.size()) FAIL("entries",S(E.size()," entries, expected ",k," (",I.getNstep()," attempts, ",I.getNaccpt()," accepted) | ",curcase)); }
    } } }
int main(int c,char**v){ STAGES=CONTROL=false; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?400:40; logunit(g,th?2000:100);
  one<RP<3,2,2,false,false,1,false,false> >("full",g,rep); one<RP<3,2,2,false,false,2,false,true> >("full, user time derivative",g,rep); one<RP<4,3,3,false,false,3,true,false> >("full, autonomous",g,rep); one<RP<4,3,3,true,false,2,false,false> >("Hessenberg",g,rep); one<RP<3,2,2,false,true,3,false,false> >("full, numerical",g,rep); one<RP<5,1,2,false,false,1,false,false> >("banded",g,rep); one<RP<6,2,1,false,true,2,true,false> >("banded, numerical, autonomous",g,rep);
  printf("INFO runs=%ld compared=%ld entries=%ld\n",runs,cmpd,ents); return finish(); }
