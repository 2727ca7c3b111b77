// replay driver for C24, Rock4: the tolerances in force decide the first step of every integration
#include "r4.hpp"
struct Cut{};
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?6000:600; long acc=0,rej=0,near_=0;
  for(int k=0;k<rep;k++){ Pb P; P.N=g.i(1,6); P.fs=g.i(0,5); P.amp=g.u(.1,3); P.lin=g.i(0,2)?-g.u(0.,30.):0; P.keep=true; RHO=g.u(.1,60); rhofun=nullptr;
    Rock4<Pb> I(P); double at=1e-5,rt=1e-5; fhook=[&](double*,int){ if(LOG.size()>3000) throw Cut(); };
    for(int rr=0;rr<6;rr++){ string what; if(rr&&g.i(0,1)){ at=pow(10.,g.u(-9,-1)); rt=g.i(0,3)?pow(10.,g.u(-9,-1)):0; I.setTolerances(at,rt); what="changed"; }
      V y0(P.N); for(auto&x:y0) x=g.u(-2,2); double h=pow(10.,g.u(-4,-.5)),t0=g.i(0,1)?0:g.u(-1,1); CASE(S("case ",k," run ",rr," ",what," n=",P.N," atol=",at," rtol=",rt," h=",h," rho=",RHO," t0=",t0));
      double*y=allocDoubleArray(P.N); for(int i=0;i<P.N;i++) y[i]=y0[i]; double*z=y; LOG.clear(); RHOAT.clear(); int out=0; try{ I(z,t0,t0+h,h); }catch(OdesException&){ out=1; }catch(Cut&){ out=2; }
      double h2=fabs(t0+h-t0); Row r=getrow(selectrow(h2,RHO)); { double m=sqrt((3.+h2*RHO)/0.353)+1; if(fabs(m-floor(m+.5))<1e-6){ destroyDoubleArray(z); if(out) break; continue; } }
      double e=stepcheck(r,y0,LOG[0].out,h2,1,at,rt,curcase,"step",1e-9); bool a1=LOG.size()==(size_t)(r.d+5)&&out==0; destroyDoubleArray(z); if(e<0) break; ++nnontriv;
      if(fabs(e-1)<1e-4+10*NOISE||!std::isfinite(e)) ++near_; else if((e<1)!=a1){ FAIL("tolerances",S("first step has error ",e," with the tolerances in force and was ",a1?"accepted":"rejected"," | ",curcase)); break; } else (a1?acc:rej)++;
      if(out) break; } }
  printf("INFO accepted=%ld rejected=%ld near=%ld\n",acc,rej,near_); return finish(); }
