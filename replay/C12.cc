// replay driver for C12: single Rock4 steps observed through the right-hand side
#include "r4.hpp"
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?60:3;
  for(int row=1;row<=50;row++) for(int k=0;k<rep;k++){
    Row r=getrow(row); int s=r.d+4; double h=pow(10.,g.u(-3.,0.3)); double need=0.353*s*s-3; double lo=row==1?0:0.353*pow(MSV[row-2]+4.,2)-3; double hr=lo+(need-lo)*g.u(0.05,0.95);
    Pb P; P.N=k==0?1+row%9:g.i(1,40); P.fs=g.i(0,5); P.amp=g.u(0.2,2); P.lin=-hr/h*g.u(0.02,0.4)/1.8; P.keep=true; rhofun=nullptr; RHO=hr/h;
    string cs=S("n=",P.N," degree=",r.d," h=",h," rho=",RHO," fs=",P.fs," lin=",P.lin," amp=",P.amp); CASE(cs); ++nnontriv;
    V y0(P.N); for(auto&x:y0) x=g.u(-2,2);
    double*y=allocDoubleArray(P.N); double atol=1e12,rtol=g.i(0,1)?0:g.u(0.1,10)*1e12;
    auto go=[&](double at,double rt,int&rej,V&res)->bool{ LOG.clear(); RHOAT.clear(); for(int i=0;i<P.N;i++) y[i]=y0[i]; Rock4<Pb> I(P); I.setTolerances(at,rt); bool ok=true; try{ I(y,0.,h,h);}catch(OdesException&){ ok=false; } rej=I.NbRejected(); res.assign(y,y+P.N); if(ok&&I.NbRhsComputed()!=(int)LOG.size()) FAIL("count",S("evaluations counted ",I.NbRhsComputed()," made ",LOG.size()," ",cs)); return ok; };
    int rej; V res; if(!go(atol,rtol,rej,res)){ FAIL("exception",S("a step raised an exception ",cs)); destroyDoubleArray(y); continue; }
    if(LOG.size()<1||LOG[0].in!=y0){ FAIL("first",S("the first evaluation is not at the initial value ",cs)); destroyDoubleArray(y); continue; }
    double e=stepcheck(r,y0,LOG[0].out,h,1,atol,rtol,cs,"step");
    if(e<0){ destroyDoubleArray(y); continue; }
    if(LOG.size()!=(size_t)r.d+5) FAIL("calls",S("one step made ",LOG.size()-1," evaluations, expected ",r.d+4," ",cs));
    if(res!=LOG[r.d+4].in) FAIL("result",S("the result is not the vector of the last evaluation ",cs));
    // the estimate itself: it decides acceptance exactly at one
    if(e>0) for(double q:{0.9999,1.0001}){ double f=e/q; int rj; V rs; go(atol*f,rtol*f,rj,rs); if((rj==0)!=(q<1)) FAIL("estimate",S("with tolerances making the error ",q," the step was ",rj==0?"accepted":"rejected"," ",cs)); if(rj>0){ // the rejected step must be retried from the same value and derivative
        size_t b=1+r.d+4; double fac=min(5.,max(0.1,0.8*pow(q,-0.25))); double h2=0.8*h*fac; (void)b;(void)h2; } }
    // second step: starts from the derivative at the new solution, no new evaluation at its beginning
    { LOG.clear(); RHOAT.clear(); for(int i=0;i<P.N;i++) y[i]=y0[i]; int cnt=0; double rh=RHO; Rock4<Pb> I(P); I.setTolerances(atol,rtol); I(y,0.,2*h,h); (void)cnt;(void)rh;
      V y1=LOG[r.d+4].in,f1=LOG[r.d+4].out; double e2=stepcheck(r,y1,f1,h,1+r.d+4,atol,rtol,cs,"second-step",1e-11); if(e2>=0&&(I.NbSteps()!=2)) FAIL("second",S("two steps expected, ",I.NbSteps()," ",cs)); }
    destroyDoubleArray(y);
  }
  return finish();
}
