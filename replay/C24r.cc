// replay driver for C24, Radau5: settings changed between integrations; every decision
// of the integrations is recomputed with the settings in force
#include "radau.hpp"
static long runs=0,cuts=0;
template<class P> void one(const char*who,Rng&g,int rep){ const int n=P::n;
  for(int q=0;q<rep;q++){ random_problem<P>(g); double am=g.i(0,3)?g.u(0,3):g.u(5,60); if(g.i(0,2)) for(auto&z:PR.q) z*=am;
    bool same=true; vector<double> ua(n),ur(n); auto tol=[&](){ same=g.i(0,1); for(int i=0;i<n;i++){ ur[i]=pow(10.,-g.u(2.,7.)); ua[i]=ur[i]*pow(10.,g.u(-3,1)); } }; tol();
    Opt o; Radau5cc<P> I(same,&ua[0],&ur[0]); auto tolst=[&](){ return .1*pow(ur[0],2./3.); };
    for(int rr=0;rr<8;rr++){ string what;
      int m=rr==0?g.i(0,1):g.i(0,3); for(int k=0;k<m;k++) switch(g.i(0,9)){
        case 0: o.safe=g.u(.3,.97); I.setSafe(o.safe); what+="safe "; break;
        case 1: o.facr=g.u(.02,.7); o.facl=g.u(1.2,12); I.setFacrFacl(o.facr,o.facl); what+="facr/facl "; break;
        case 2: o.nit=g.i(1,12); I.setMaxIterationsNewton(o.nit); what+="nit "; break;
        case 3: { double f=pow(10.,-g.u(.5,5)); if(f<=1e-16/tolst()*1.1) break; I.setFnewt(f); o.fnewt=f; what+="fnewt "; } break;
        case 4: o.thet=g.i(0,2)?g.u(.0005,.5):-1; I.setRecomputeJacobianTreshold(o.thet); what+="thet "; break;
        case 5: o.gus=!o.gus; I.setGustafssonTest(o.gus); what+="gus "; break;
        case 6: o.nmax=g.i(0,2)?g.i(0,40):10000; I.setNmax(o.nmax); what+="nmax "; break;
        case 7: tol(); I.setTestPolicy(same,&ua[0],&ur[0]); o.fnewt=-1; what+="tolerances "; break;
        case 8: { double bad[3]={1e-16/tolst()*g.u(.01,.99),0,-g.u()}; double f=bad[g.i(0,2)]; bool th=false; try{ I.setFnewt(f); }catch(OdesException&){ th=true; } if(!th) FAIL("fnewt-admitted",S("threshold ",f," accepted, least admissible is above ",1e-16/tolst()," | ",who)); what+="bad-fnewt "; } break;
        case 9: o.one=!o.one; I.performOnlyOneStep(o.one); what+="one "; break; }
      vector<double> y(n); for(double&z:y) z=g.u(-2,2); double x=g.i(0,1)?0:g.u(-2,2),len=pow(10.,g.u(-2,1)); if(g.i(0,3)==0) len=-min(len,.5); double h=pow(10.,-g.u(0,6)); double xe=x+len;
      string cs=S(who," n=",n," case ",q," run ",rr," changed: ",what," x=",x," end=",xe," h=",h," safe=",o.safe," facr=",o.facr," facl=",o.facl," nit=",o.nit," fnewt=",o.fnewt," thet=",o.thet," nmax=",o.nmax," one=",o.one," gus=",o.gus," same=",same); CASE(cs);
      Res r=rdrive<P>(I,h,x,xe,&y[0],same,ua,ur,o); runs++; cuts+=r.cut; if(r.nacc) nnontriv++; if(r.bad) return; } } }
int main(int c,char**v){ WATCH=STEP|CONTROL|ENDT|LIMIT; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?12:1;
  for(int r=0;r<m;r++){ one<RP<1,0,0,false,false,1,false,false> >("full1",g,40); one<RP<2,1,1,false,true,1,false,false> >("full2 numeric",g,30); one<RP<3,2,2,false,false,1,false,false> >("full3",g,40); one<RP<3,2,2,true,false,1,false,false> >("hess3",g,20); one<RP<5,1,2,false,false,1,false,false> >("band5",g,20); }
  printf("INFO runs=%ld unclear=%ld\n",runs,cuts); return finish(); }
