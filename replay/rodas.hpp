// Rodas: a monitor that recomputes every attempted step from the log of user calls
// with an independent implementation
#pragma once
#include "prob.hpp"
#include "Rodascc.hpp"
// the published coefficient sets
struct Co{ double C2,C3,C4,D[5],A[7][7],C[7][7],G; };
static Co coef(int m){ Co q; memset(&q,0,sizeof q); q.G=.25;
  auto set=[&](vector<double> t,vector<double> d,vector<double> a,vector<double> c){ q.C2=t[0];q.C3=t[1];q.C4=t[2]; for(int i=0;i<4;i++) q.D[i+1]=d[i]; int k=0; for(int i=2;i<=5;i++) for(int j=1;j<i;j++) q.A[i][j]=a[k++]; k=0; for(int i=2;i<=6;i++) for(int j=1;j<i;j++) q.C[i][j]=c[k++]; };
  if(m==1) set({.386,.21,.63},{.25,-.1043,.1035,-.3620000000000023e-01},{1.544,.9466785280815826,.2557011698983284,3.314825187068521,2.896124015972201,.9986419139977817,1.221224509226641,6.019134481288629,12.53708332932087,-.6878860361058950},
    {-5.6688,-2.430093356833875,-.2063599157091915,-.1073529058151375,-9.594562251023355,-20.47028614809616,7.496443313967647,-10.24680431464352,-33.99990352819905,11.70890893206160,8.083246795921522,-7.981132988064893,-31.52159432874371,16.31930543123136,-6.058818238834054});
  else if(m==2) set({.3507221,.2557041,.6817790},{.25,-.06902209999999998,-.0009671999999999459,-.08797900000000025},{1.4028884,.6581212688557198,-1.320936088384301,7.131197445744498,16.02964143958207,-5.561572550509766,22.73885722420363,67.38147284535289,-31.21877493038560,.7285641833203814},
    {-5.1043536,-2.899967805418783,4.040399359702244,-32.64449927841361,-99.35311008728094,49.99119122405989,-76.46023087151691,-278.5942120829058,153.9294840910643,10.97101866258358,-76.29701586804983,-294.2795630511232,162.0029695867566,23.65166903095270,-7.652977706771382});
  else set({.75,.21,.63},{.25,-.5,-.023504,-.0362},{3,1.831036793486759,.4955183967433795,2.304376582692669,-.05249275245743001,-1.176798761832782,-7.170454962423024,-4.741636671481785,-16.31002631330971,-1.062004044111401},
    {-12,-8.791795173947035,-2.207865586973518,10.81793056857153,6.780270611428266,19.53485944642410,34.19095006749676,15.49671153725963,54.74760875964130,14.16005392148534,34.62605830930532,15.30084976114473,56.99955578662667,18.40807009793095,-5.714285714285717});
  return q; }
struct Opt{ bool one=false,gus=true; double safe=.9; int nmax=10000; };
struct Att{ double x,h; bool acc; double err; };
struct Res{ bool threw=false; string msg; int nstep=0,nacc=0,nrej=0,nF=0,nJ=0; vector<Att> att; bool bad=false; double err1=0,firsth=0; };
static bool STAGES=true,CONTROL=true; // which failures to report
static void fs(const string&k,const string&m,Res&r){ r.bad=true; if(STAGES) FAIL(k,m+" | "+curcase); }
static void fc(const string&k,const string&m,Res&r){ r.bad=true; if(CONTROL) FAIL(k,m+" | "+curcase); }
// runs one integration and replays its log
template<class P> Res drive(Rodascc<P>&I,double h0,double&x,double xend,double*y,const vector<double>&at,const vector<double>&rt,Opt o){
  const int n=P::n; Res r; LOG.clear(); double x0=x; vector<double> y0(y,y+n);
  try{ I(h0,x,xend,y); }catch(OdesException&e){ r.threw=true; }catch(int){ fc("calls","more than 400000 calls of user functions",r); return r; }
  Co q=coef(P::method); const double U=1e-16,eps=2.3e-16; size_t id=0; double X=x0,h=h0; vector<double> Y=y0; double pn=xend>=x0?1:-1,hm=fabs(xend-x0); bool rej=false; double hacc=0,erracc=0,htol=2e-3;
  if(x0==xend){ if(!LOG.empty()||x!=x0||r.threw) fc("nothing-to-do","start equals end, but something was done",r); for(int i=0;i<n;i++) if(y[i]!=y0[i]) fc("nothing-to-do","start equals end, but the solution changed",r); return r; }
  auto isbase=[&](size_t k){ if(k>=LOG.size()||LOG[k].k!='F') return false; if(!P::ComputeJacobianNumerically) return k+1<LOG.size()&&LOG[k+1].k=='J'; if(k+n>=LOG.size()) return false; for(int j=1;j<=n;j++){ if(LOG[k+j].k!='F'||LOG[k+j].t!=LOG[k].t) return false; for(int i=0;i<n;i++) if(i!=j-1&&LOG[k+j].y[i]!=LOG[k].y[i]) return false; } return true; };
  bool last=false; vector<double> yn; bool done=false; bool limit=false;
  while(!done){
    if(id>=LOG.size()){ // no preparation: must be a failure of the step size
      if(r.threw&&.1*fabs(h)<=fabs(X)*U*1.01) return r;
      if(r.threw) fc("too-small",S("exception though the step ",h," at ",X," is not below the limit"),r); else fc("end",S("returned at x=",x," before the end ",xend),r); return r; }
    if(!isbase(id)){ fc("sequence",S("call ",id," is not the beginning of a step"),r); return r; }
    Call&B=LOG[id]; if(fabs(B.t-X)>40*eps*(fabs(X)+fabs(h)+fabs(x0))) fs("base-time",S("derivative at ",B.t," but the time is ",X),r);
    X=B.t; Y=B.y; for(double z:Y) if(!(fabs(z)<1e4)) return r; // the problem explodes
    r.nF++; r.nJ++; id++;
    vector<double> J(n*n,0.),J2(n*n,0.); 
    if(P::ComputeJacobianNumerically){ for(int j=0;j<n;j++){ Call&c=LOG[id++]; double d=c.y[j]-Y[j],de=sqrt(1e-16*max(1e-5,fabs(Y[j]))); if(!(fabs(d-de)<=1e-6*de+4*eps*fabs(Y[j]))) fs("jacobian-increment",S("increment ",d," for component ",j+1," of value ",Y[j]),r); for(int i=max(0,j-P::nsup);i<=min(n-1,j+P::nsub);i++) { J[i*n+j]=(c.o[i]-B.o[i])/de; J2[i*n+j]=(c.o[i]-B.o[i])/d+4*eps*(fabs(c.o[i])+fabs(B.o[i]))/de*((i+j)%2?1:-1); } } }
    else { Call&c=LOG[id++]; if(c.t!=X||c.y!=Y) fs("jacobian-point","Jacobian not asked at the current point",r); if(c.o!=B.o) fs("jacobian-rhs","Jacobian not given the right-hand side at the current point",r); pj(X,&Y[0],&J[0]); J2=J; for(auto&z:J2) z*=1+1e-13; }
    vector<double> FX(n,0.),FN(n,0.); // time derivative and its rounding noise
    if(!P::autonomous){ if(id>=LOG.size()){ fs("time-derivative","missing",r); return r; } Call&c=LOG[id++]; if(c.y!=Y) fs("time-derivative","not at the current solution",r);
      if(P::use_DF_t){ if(c.k!='D'){ fs("time-derivative","the user's is not used",r); return r; } if(c.t!=X) fs("time-derivative","not at the current time",r); FX=c.o; }
      else { if(c.k!='F'){ fs("time-derivative","missing",r); return r; } r.nF++; double d=c.t-X,de=sqrt(1e-16*max(1e-5,fabs(X))); if(!(fabs(d-de)<=1e-6*de+4*eps*fabs(X))) fs("time-increment",S("increment ",d," at ",X),r); for(int i=0;i<n;i++) { FX[i]=(c.o[i]-B.o[i])/de; FN[i]=4*eps*(fabs(c.o[i])+fabs(B.o[i]))/de; } } }
    if(fabs(h)<10*U) h=1e-6; h=min(fabs(h),hm)*pn; last=false; if((X+h*1.0001-xend)*pn>0){ h=xend-X; last=true; }
    for(;;){
      if(id+5>LOG.size()){ fs("stages",S("step incomplete: ",LOG.size()-id," evaluations"),r); return r; }
      double ho=LOG[id+3].t-X; 
      if(!(fabs(ho-h)<=htol*fabs(h)+8*eps*fabs(X))){ fc("step-size",S("step attempted ",ho,", expected ",h," at x=",X," (attempt ",r.nstep+1,", after a ",rej?"rejected":"accepted"," step)"),r); }
      if(!(fabs(ho-h)<=8*eps*fabs(X))) h=ho; // resynchronise
      if(!(h*pn>0)){ fc("direction",S("step ",h," towards ",xend),r); return r; }
      vector<LD> M(n*n),M2(n*n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) M[i*n+j]=(i==j?1/((LD)h*q.G):0)-J[i*n+j],M2[i*n+j]=(i==j?1/((LD)h*q.G):0)-J2[i*n+j];
      Lu L,L2; L.fac(M,n); L2.fac(M2,n); if(!L2.ok) return r; if(!L.ok) return r;
      vector<vector<LD> > K(7),K2(7); vector<LD> arg2(n); double tt[7]={0,0,X+q.C2*h,X+q.C3*h,X+q.C4*h,X+h,X+h};
      LD big=0; LD slop=1e-300; // K2: the same with perturbed data, measures the conditioning
      vector<LD> arg(n);
      for(int s=1;s<=6;s++){
        const double*f=s==1?&B.o[0]:0; 
        if(s>1){ Call&c=LOG[id++]; r.nF++; if(c.k!='F'){ fs("stages","stage is not an evaluation of the right-hand side",r); return r; } f=&c.o[0];
          if(!(fabs(c.t-tt[s])<=60*eps*(fabs(X)+fabs(h)+fabs(x0)))) fs(S("stage-time-",s),S("stage ",s," at ",c.t," expected ",tt[s]," (x=",X,", h=",h,")"),r);
          for(int i=0;i<n;i++){ LD v=Y[i],sc=fabs(Y[i]); if(s<6){ for(int j=1;j<s;j++){ v+=(LD)q.A[s][j]*K[j][i]; sc+=fabsl((LD)q.A[s][j]*K[j][i]); } } else { v=arg[i]+K[5][i]; sc=fabsl(arg[i])+fabsl(K[5][i])+big; } big=max(big,sc); }
          for(int i=0;i<n;i++){ LD v2=Y[i]; if(s<6) for(int j=1;j<s;j++) v2+=(LD)q.A[s][j]*K2[j][i]; else v2=arg2[i]+K2[5][i]; arg2[i]=v2; LD v=Y[i]; if(s<6) for(int j=1;j<s;j++) v+=(LD)q.A[s][j]*K[j][i]; else v=arg[i]+K[5][i]; slop=max(slop,30*fabsl(v-v2)); if(!(fabsl(c.y[i]-v)<=(1e-9L+3e3L*eps*fabs(X)/fabs(h))*big+slop)) fs(S("stage-",s),S("stage ",s," component ",i+1," is ",c.y[i]," expected ",(double)v," (x=",X,", h=",h,")"),r); arg[i]=v; } }
        vector<LD> b(n),b2(n); for(int i=0;i<n;i++){ double sg=((i*7+s*3)%2)?1:-1; b[i]=f[i]; b2[i]=b[i]*(1+1e-13L*sg); if(!P::autonomous&&s<=4){ b[i]+=(LD)h*q.D[s]*FX[i]; b2[i]+=(LD)h*q.D[s]*(FX[i]+sg*FN[i]); } for(int j=1;j<s;j++){ b[i]+=q.C[s][j]/(LD)h*K[j][i]; b2[i]+=q.C[s][j]/(LD)h*K2[j][i]; } }
        K[s]=L.sol(b); K2[s]=L2.sol(b2); for(int i=0;i<n;i++) big=max(big,fabsl(K[s][i]));
      }
      yn.assign(n,0); LD er=0,er2=0; bool noisy=false; for(int i=0;i<n;i++){ LD z=arg[i]+K[6][i]; yn[i]=(double)z; LD w=at[i]+rt[i]*max(fabsl(Y[i]),fabsl(z)); LD e=K[6][i]/w; er+=e*e; e=K2[6][i]/w; er2+=e*e; slop=max(slop,30*fabsl(K[6][i]-K2[6][i])); }
      double err=(double)sqrtl(er/n); r.nstep++; double en=30*fabs(err-(double)sqrtl(er2/n)); double margin=1e-3+en; (void)noisy;
      bool end=id>=LOG.size(),base=!end&&isbase(id); bool tm=r.nstep>o.nmax; Att a; a.x=X; a.h=h; a.err=err;
      if(tm){ if(!r.threw||!end) fc("limit",S("step limit ",o.nmax," passed without an exception"),r); a.acc=err<=1; r.att.push_back(a); return r; }
      bool small=end&&r.threw;
      a.acc=end||base; if(small){ a.acc=true; }
      r.att.push_back(a);
      if(fabs(err-1)>margin&&!small&&a.acc!=(err<=1)) { fc("acceptance",S("step with error ",err," was ",a.acc?"accepted":"rejected"," (x=",X,", h=",h,")"),r); if(err>1e3||!std::isfinite(err)) return r; }
      htol=2e-3+en/max(err,1e-7); double fac=max(1/6.,min(5.,sqrt(sqrt(err))/o.safe)),hn=h/fac;
      if(a.acc){ r.nacc++; if(r.nacc==1) r.firsth=h; if(o.gus){ if(r.nacc>1){ double g=hacc/h*sqrt(sqrt(err*err/erracc))/o.safe; g=max(1/6.,min(5.,g)); hn=h/max(fac,g); } hacc=h; erracc=max(1e-2,err); }
        if(fabs(hn)>hm) hn=pn*hm; if(rej) hn=pn*min(fabs(hn),fabs(h)); rej=false; double xn=X+h;
        if(!end){ LD sc=big; for(int i=0;i<n;i++) if(!(fabsl(LOG[id].y[i]-(LD)yn[i])<=(1e-9L+3e3L*eps*fabs(X)/fabs(h))*sc+slop)) fs("new-solution",S("new solution component ",i+1," is ",LOG[id].y[i]," expected ",yn[i]," (x=",X,", h=",h,")"),r); if(!(fabs(LOG[id].t-xn)<=40*eps*(fabs(X)+fabs(h)))) fc("advance",S("time after an accepted step is ",LOG[id].t," expected ",xn),r); if(last) fc("end",S("integration continues after the step to the end, x=",LOG[id].t),r); if(o.one) fc("one-step","continues after one accepted step",r); X=xn; h=hn; break; }
        // ended
        if(r.threw){ X=xn; h=hn; break; }
        done=true; if(!(fabs(x-xn)<=40*eps*(fabs(X)+fabs(h)))) fc("result-time",S("returned time ",x," expected ",xn),r);
        if(!o.one&&!(fabs(x-xend)<=4*eps*(fabs(x0)+fabs(xend)))) fc("end",S("returned at ",x," before the end ",xend),r);
        if((x-xend)*pn>4*eps*(fabs(x0)+fabs(xend))) fc("end",S("returned at ",x," beyond the end ",xend),r);
        for(int i=0;i<n;i++) if(!(fabsl(y[i]-(LD)yn[i])<=(1e-9L+3e3L*eps*fabs(X)/fabs(h))*big+slop)) fc("result",S("returned component ",i+1," is ",y[i]," expected ",yn[i]," at the end"),r);
        break; }
      r.nrej++; rej=true; last=false; if(!(fabs(hn)<fabs(h))) hn=h*.999999; h=hn;
    } }
  if(id!=LOG.size()) fc("sequence",S(LOG.size()-id," evaluations after the last step"),r);
  return r;
}
