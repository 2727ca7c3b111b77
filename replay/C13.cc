// replay driver for C13: whole Rock4 integrations; the controller is recomputed step by
// step from the evaluations of the right-hand side and the spectral radii reported
#ifdef LOGCHECK
#include "logger.hpp"
#include "r4.hpp"
#undef Rock4__h
#undef LOGROCK4
#define Rock4 Rock4off
#include "Rock4.hpp"
#undef Rock4
#include "logs.hpp"
#else
#include "r4.hpp"
#endif
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?6000:400; long nstep=0,nrejt=0,ncut=0,near_=0,zero=0;
#ifdef COUNTERS
  ONLY="count";
#endif
#ifdef LOGCHECK
  ONLY="log"; logunit(g,th?400:60);
#endif
  for(int k=0;k<rep;k++){
    Pb P; P.N=g.i(1,6); P.fs=g.i(0,5); P.amp=g.i(0,3)?g.u(0.1,3):0; P.lin=g.i(0,2)?-g.u(0.,30.):0; P.keep=true; if(k%17==0){P.amp=P.lin=0;}
    double t0=g.i(0,1)?0:g.u(-3,3),len=pow(10.,g.u(-2,1.)),te=t0+len,h0=len*pow(10.,g.u(-3,0.7)); double tol=pow(10.,g.u(-7,-1)),rtol=g.i(0,3)?tol*g.u(0.1,3):0;
    double base=pow(10.,g.u(-1,k%5==0?6:3.5)); vector<double> rl; for(int i=0;i<500;i++) rl.push_back(base*pow(10.,g.u(-0.5,0.5))*(k%23==0&&i%3==1?0:1)); rhofun=[&](){ size_t i=RHOAT.size()-1; return rl[i%500]; };
    int kick=g.i(0,3)?0:g.i(3,60); double ka=pow(10.,g.u(0,4)); unsigned long cnt=0,ks=g.next(); int kmode=g.i(0,2); fhook=[&](double*f,int n){ ++cnt; if(kick&&(kmode==0?cnt%(2*kick)<(unsigned)kick/2+1:(cnt*2654435761u+ks)%kick==0)) for(int i=0;i<n;i++) f[i]+=ka*((cnt*2654435761u+i*97)%13/6.-1); if(cnt>60000) throw 7; };
    string cs=S("case ",k," n=",P.N," t0=",t0," tend=",te," h=",h0," atol=",tol," rtol=",rtol," rho~",base," kick=",kick," ka=",ka," kmode=",kmode," amp=",P.amp," lin=",P.lin); CASE(cs);
    V y0(P.N); for(auto&x:y0) x=g.u(-2,2);
    double*y=allocDoubleArray(P.N); for(int i=0;i<P.N;i++) y[i]=y0[i];
    LOG.clear(); RHOAT.clear(); int out=0; 
#ifdef LOGCHECK
    vector<Entry> EV,WV; bool readok=true; string ltxt;
#endif
    int na=0,nr=0,nfc=0,nst=0,nsg=0; V res; double hl=0;
    { Rock4<Pb> I(P); I.setTolerances(tol,rtol); if(k%3==0){ // used object
        for(int q=0;q<2;q++){ double*z=y; try{ I(z,t0-1,t0-0.9,0.02*(q+1)); }catch(OdesException&){ out=0; }catch(int){} y=z; for(int i=0;i<P.N;i++) y[i]=y0[i]; } LOG.clear(); RHOAT.clear(); cnt=0; }
      try{ I(y,t0,te,h0); }catch(OdesException&){ out=1; }catch(int){ out=2; }
      na=I.NbAccepted(); nr=I.NbRejected(); nfc=I.NbRhsComputed(); nst=I.NbSteps(); nsg=I.NbStages(); hl=I.LastAcceptedTimeStep();
#ifdef LOGCHECK
      if(!logtext(I.Log(),EV)) readok=false;
      ltxt=I.Log().tostring();
#endif
    }
#ifdef LOGCHECK
    { vector<Call> C1=LOG; vector<size_t> R1=RHOAT; double*y2=allocDoubleArray(P.N); for(int i=0;i<P.N;i++) y2[i]=y0[i]; LOG.clear(); RHOAT.clear(); cnt=0; int out2=0; { Rock4off<Pb> I(P); I.setTolerances(tol,rtol); 
      try{ I(y2,t0,te,h0); }catch(OdesException&){ out2=1; }catch(int){ out2=2; }
      bool same=out2==out&&C1.size()==LOG.size(); for(size_t i=0;same&&i<LOG.size();i++) same=C1[i].in==LOG[i].in||(memcmp(&C1[i].in[0],&LOG[i].in[0],8*P.N)==0); if(!same) FAIL("log-results",S("another integration without logging ",cs)); else if(out<2&&memcmp(y,y2,8*P.N)) FAIL("log-results",S("another result without logging ",cs)); if(out==0&&(na!=I.NbAccepted()||nr!=I.NbRejected()||hl!=I.LastAcceptedTimeStep())) FAIL("log-results",S("other statistics without logging ",cs)); } destroyDoubleArray(y2); LOG=C1; RHOAT=R1; }
#endif
    res.assign(y,y+P.N); destroyDoubleArray(y);
    if(LOG.empty()||LOG[0].in!=y0){ FAIL("first",S("the first evaluation is not at the initial value ",cs)); continue; }
#ifdef COUNTERS
    if(out<2){ if((size_t)nfc!=LOG.size()) FAIL("count-rhs",S("right-hand sides reported ",nfc," evaluated ",LOG.size()," ",cs)); if(nst!=na+nr) FAIL("count-steps",S("steps ",nst," accepted ",na," rejected ",nr," ",cs)); }
    int smax=0;
#endif
    // simulation
    double t=t0,h=h0,errp=-1,hp=h0,facmax=5,told=0,eig=0; int nrho=0,nl=0; bool rej=false; V yc=y0,fc=LOG[0].out; size_t b=1,ir=0; int sa=0,sr=0; bool stop=false; double last=0; bool done=false;
    for(;;){
      if(!(t<te)){ done=true; break; }
      if(sa+sr>=300||fabs(yc[0])>1e4){ stop=true; break; }
      double rem=fabs(te-t); if(fabs(1.01*h/rem-1)<1e-5&&fabs(h/rem-1)>1e-5){ stop=true; break; }
      if(1.01*h>=rem) h=rem;
      { double lim=h<rem?max(1e-15,1e-15*fabs(t)):1e-15; if(h<1.1*lim){ if(h<0.9*lim){ if(out!=1) FAIL("too-small",S("a step of ",h," did not raise the exception at t=",t," ",cs)); else if(LOG.size()!=b) FAIL("too-small-calls",S("evaluations made after the step became too small ",cs)); } stop=true; break; } }
      if(b>=LOG.size()){ if(out==0) FAIL("stops-early",S("returned at t=",t," before the end, h=",h," ",cs)); else if(out==1) FAIL("exception",S("exception at t=",t," with step ",h," ",cs)); stop=true; break; }
      if(nrho==0){ if(ir>=RHOAT.size()||RHOAT[ir]!=b){ FAIL("rho-due",S("spectral radius not asked when due at t=",t," ",cs)); stop=true; break; } eig=rl[ir%500]; ++ir; }
      else if(ir<RHOAT.size()&&RHOAT[ir]==b){ FAIL("rho-extra",S("spectral radius asked when not due at t=",t," ",cs)); stop=true; break; }
      double m=sqrt((3.+h*eig)/0.353)+1; if(fabs(m-floor(m+0.5))<1e-4){ stop=true; ++near_; break; }
      double h1=h; int row=selectrow(h,eig); if(h!=h1) ++ncut; Row r=getrow(row);
      if(out!=0&&LOG.size()<b+r.d+4){ stop=true; break; }
      bool fin=true; for(size_t j=b;j<b+r.d+4&&j<LOG.size();j++) for(double x:LOG[j].in) if(!(fabs(x)<1e100)) fin=false; if(!fin){ stop=true; break; }
      double pr,ho=hobs(r,yc,fc,b,pr); if(ho==0||pr>1e-4){ if(ho!=0||h1!=h0){ stop=true; break; } } else { if(fabs(ho/h-1)>1e-3){ FAIL("step",S("step attempted ",ho," expected ",h," at t=",t," step ",sa+sr+1," ",cs)); stop=true; break; } if(h!=rem&&pr<1e-9) h=ho; }
      double e=stepcheck(r,yc,fc,h,b,tol,rtol,S("at t=",t," step ",sa+sr+1," ",cs),"step",1e-9); if(e<0){ stop=true; break; }
      ++nstep;
#ifdef COUNTERS
      smax=max(smax,r.d+4);
#endif
      const V&yn=LOG[b+r.d+3].in,&fn=LOG[b+r.d+3].out; b+=r.d+4;
      if(NOISE>1e-4||fabs(e-1)<1e-5+2*NOISE){ stop=true; ++near_; break; }
      if(e==0) ++zero;
      double fac=sqrt(sqrt(1/e)); if(errp>0&&!rej){ double fp=sqrt(sqrt(errp))*fac*fac*(h/hp); fac=fp<fac?fp:fac; } if(rej) facmax=1; { double z=0.8*fac; if(z<0.1) z=0.1; fac=z<facmax?z:facmax; } double hn=h*fac;
      if(e<1){ ++sa; facmax=2; last=h; bool end=h==rem; t=end?te:t+h; if(rej){ if(h<hn) hn=h; rej=false; nl=0; }
#ifdef LOGCHECK
        { Entry z; z.t=t; z.step=sa+sr; z.kind="success"; z.hasv=false; z.v=hn; WV.push_back(z); }
#endif
        hp=h; h=hn; errp=e; yc=yn; fc=fn; ++nrho; nrho=(nrho+1)%10; double rm=fabs(te-t); if(t<te&&fabs(1.1*h/rm-1)<1e-5){ stop=true; break; } if(1.1*h>=rm) h=rm; }
      else { ++sr; ++nrejt; rej=true;
#ifdef LOGCHECK
        { Entry z; z.t=t; z.step=sa+sr; z.kind="rejectedStep"; z.hasv=true; z.v=hn; WV.push_back(z); }
#endif
        h=0.8*hn; if(told==t){ ++nl; if(nl==10) h=1e-5; } told=t; nrho=nrho!=0?0:1; }
    }
#ifdef COUNTERS
    if(done&&!stop&&out==0){ if(nsg!=smax) FAIL("count-stages",S("stages reported ",nsg," used ",smax," ",cs)); if(na!=sa||nr!=sr||nst!=sa+sr) FAIL("count-accepted",S("steps/accepted/rejected ",nst,"/",na,"/",nr," expected ",sa+sr,"/",sa,"/",sr," ",cs)); if(sa&&!close(hl,last,1e-5)) FAIL("count-last",S("last accepted step ",hl," expected ",last," ",cs)); }
#endif
#ifdef LOGCHECK
    if(readok){ bool whole=done&&!stop&&out==0; if(EV.size()<WV.size()||(whole&&EV.size()!=WV.size())) FAIL("log-entries",S(EV.size()," entries, expected ",WV.size()," ",cs));
      else for(size_t i=0;i<WV.size();i++){ const Entry&a=EV[i],&w=WV[i]; if(a.step!=w.step||a.kind!=w.kind||!near6(a.t,w.t,1e-4)||(w.hasv&&!near6(a.v,w.v,1e-3))){ FAIL("log-entries",S("entry ",i+1," is ",a.t," ",a.step," ",a.kind," ",a.v," expected ",w.t," ",w.step," ",w.kind," ",w.v," ",cs)); break; } } }
#endif
    if(done&&!stop){ ++nnontriv; if(out!=0) FAIL("end-exception",S("exception although the end was reached ",cs)); if(b!=LOG.size()||ir!=RHOAT.size()) FAIL("end",S("work after the end time was reached: ",LOG.size()-b," evaluations ",cs)); if(res!=yc) FAIL("result",S("the array delivered is not the last accepted solution ",cs)); if(na!=sa||nr!=sr) FAIL("accepted",S("accepted/rejected ",na,"/",nr," expected ",sa,"/",sr," ",cs)); if(!close(hl,last,1e-5)) FAIL("laststep",S("last step ",hl," expected ",last," ",cs)); }
  }
  printf("INFO steps=%ld rejected=%ld cut=%ld near=%ld zero=%ld\n",nstep,nrejt,ncut,near_,zero);
  return finish();
}
