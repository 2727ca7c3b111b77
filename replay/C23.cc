// replay driver for C23: the same integration on a used and on a fresh object
// -DWHICH=1 Radau5cc, 2 Rodascc, 3 Rock4, 4 Rock4L, 5 Sdirkl
#if WHICH<=2
#include "prob.hpp"
#if WHICH==1
#include "logger.hpp"
#include "Radau5cc.hpp"
#else
#include "Rodascc.hpp"
#endif
#else
#include "common.hpp"
#include "AllocateDestroyVector.hpp"
#if WHICH==3
#include "r4.hpp"
#elif WHICH==4
#include "rl.hpp"
#else
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "CrN.hpp"
#include "Sdirkl.hpp"
using namespace odes;
#endif
#endif
#include <malloc.h>
#include <new>
// an object constructed in memory of a known content, so that reading what was never written shows
template<class T> struct Boxed{ void*m; T*p; template<class...A> Boxed(int fill,A&&...a){ m=aligned_alloc(64,(sizeof(T)+127)/64*64); memset(m,fill,sizeof(T)); mallopt(M_PERTURB,fill?fill^255:0); p=new(m) T(std::forward<A>(a)...); } ~Boxed(){ p->~T(); free(m); } };
static bool same(const vector<double>&a,const vector<double>&b){ return a.size()==b.size()&&(a.empty()||!memcmp(&a[0],&b[0],a.size()*sizeof(double))); }
struct Out{ int th=0; vector<double> num; vector<double> calls; };
static const char*TH[]={"normal end","the library's exception","the user's exception"};
static const char**NAMES; static long pairs=0,thrown=0;
static void compare(const Out&a,const Out&b,const char*how){ ++pairs; thrown+=a.th!=0;
  if(a.th!=b.th){ FAIL(S(how,":ending"),S(TH[a.th]," on the used object, ",TH[b.th]," on the fresh one | ",curcase)); return; }
  size_t k=0; while(k<a.calls.size()&&k<b.calls.size()&&!memcmp(&a.calls[k],&b.calls[k],8)) ++k;
  if(k<a.calls.size()||k<b.calls.size()){ FAIL(S(how,":calls"),S("the data given to user code differ at number ",k," (",k<a.calls.size()?a.calls[k]:NAN," / ",k<b.calls.size()?b.calls[k]:NAN,", ",a.calls.size()," and ",b.calls.size()," in all) | ",curcase)); return; }
  for(size_t i=0;i<a.num.size();i++) if(memcmp(&a.num[i],&b.num[i],8)&&!(a.num[i]!=a.num[i]&&b.num[i]!=b.num[i])){ FAIL(S(how,":result"),S(i<8&&NAMES[i]?NAMES[i]:"value"," (",i,") is ",a.num[i]," on the used object and ",b.num[i]," on the fresh one | ",curcase)); return; } }
#if WHICH<=2
static long thrat=-1; static int spoilat=-1;
template<class P> struct TP:P{ // throws at a given call, or returns NaN
  void operator()(double t,double y[],double f[]) const { if(thrat>=0&&(long)LOG.size()>=thrat) throw 7; P::operator()(t,y,f); if(spoilat>=0&&(int)LOG.size()==spoilat) f[0]=NAN; }
};
struct Call_{ double h,x,xe; vector<double> y; int kind; };
#if WHICH==1
struct Set{ double safe=.9,facr=.125,facl=5,thet=.001,fnewt=-1; int nit=7,nmax=10000; bool one=false,gus=true,same=true; vector<double> a,r; };
#define SOLVER Radau5cc
template<class I> void apply(I&s,Set o){ s.setTestPolicy(o.same,&o.a[0],&o.r[0]); s.setSafe(o.safe); s.setFacrFacl(o.facr,o.facl); s.setRecomputeJacobianTreshold(o.thet); s.setMaxIterationsNewton(o.nit); s.setNmax(o.nmax); s.performOnlyOneStep(o.one); s.setGustafssonTest(o.gus); if(o.fnewt>0) s.setFnewt(o.fnewt); }
static Set rset(Rng&g,int n){ Set o; o.same=g.i(0,1); for(int i=0;i<n;i++){ o.r.push_back(pow(10.,-g.u(1.5,6))); o.a.push_back(o.r[i]*pow(10.,g.u(-3,1))); } if(g.i(0,1)) o.safe=g.u(.3,.97); if(g.i(0,1)){ o.facr=g.u(.02,.7); o.facl=g.u(1.2,12); } if(g.i(0,1)) o.thet=g.i(0,2)?g.u(.0005,.5):-1; if(g.i(0,1)) o.nit=g.i(2,12); if(g.i(0,3)==0) o.fnewt=pow(10.,-g.u(.5,3)); if(g.i(0,2)==0) o.nmax=g.i(0,30); else o.nmax=400; o.one=g.i(0,3)==0; o.gus=g.i(0,2)!=0; return o; }
#else
struct Set{ double safe=.9; int nmax=10000; bool one=false,gus=true,same=true; vector<double> a,r; };
#define SOLVER Rodascc
template<class I> void apply(I&s,Set o){ s.setTestPolicy(o.same,&o.a[0],&o.r[0]); s.setSafe(o.safe); s.setNmax(o.nmax); s.performOnlyOneStep(o.one); s.setGustafssonTest(o.gus); }
static Set rset(Rng&g,int n){ Set o; o.same=g.i(0,1); for(int i=0;i<n;i++){ o.r.push_back(pow(10.,-g.u(1.5,6))); o.a.push_back(o.r[i]*pow(10.,g.u(-3,1))); } if(g.i(0,1)) o.safe=g.u(.3,.97); if(g.i(0,2)==0) o.nmax=g.i(0,30); else o.nmax=400; o.one=g.i(0,3)==0; o.gus=g.i(0,2)!=0; return o; }
#endif
static const char*NM[8]={"time","steps","accepted steps","rejected steps","Jacobians","factorisations","right-hand sides","first accepted step"};
template<class I> Out integrate(I&s,const Call_&c){ Out r; LOG.clear(); vector<double> y=c.y; double x=c.x; try{ s(c.h,x,c.xe,&y[0]); }catch(OdesException&){ r.th=1; }catch(int){ r.th=2; }
  for(auto&l:LOG){ r.calls.push_back(l.k); r.calls.push_back(l.t); for(double z:l.y) r.calls.push_back(z); for(double z:l.o) r.calls.push_back(z); }
  r.num.push_back(x); r.num.push_back(s.getNstep()); r.num.push_back(s.getNaccpt()); r.num.push_back(s.getNrejct()); r.num.push_back(s.getNJac()); r.num.push_back(s.getNdec());
#if WHICH==1
  r.num.push_back(s.getNfoncCalled());
#else
  r.num.push_back(0);
#endif
  r.num.push_back(s.getNaccpt()>0?s.getfirstAcceptedStep():0); for(double z:y) r.num.push_back(z); return r; }
static Call_ rcall(Rng&g,int n){ Call_ c; c.y.resize(n); for(double&z:c.y) z=g.u(-2,2); c.x=g.i(0,1)?0:g.u(-2,2); double len=pow(10.,g.u(-2,1)); if(g.i(0,3)==0) len=-min(len,.5); c.h=pow(10.,-g.u(0,6)); if(g.i(0,9)==0) c.h=0; c.xe=c.x+len; if(g.i(0,7)==0) c.xe=c.x; return c; }
template<class P0> void one(const char*who,Rng&g,int rep){ typedef TP<P0> P; const int n=P::n; typedef SOLVER<P> I;
  for(int q=0;q<rep;q++){ random_problem<P>(g); if(g.i(0,1)) for(auto&z:PR.q) z*=g.u(0,12); Set s0=rset(g,n);
    Boxed<I> used(g.i(0,255),s0.same,&s0.a[0],&s0.r[0]); int m=g.i(1,4); string hist;
    for(int k=0;k<m;k++){ Set s=rset(g,n); if(g.i(0,1)) s=s0; Call_ c=rcall(g,n); thrat=g.i(0,3)==0?g.i(0,200):-1; spoilat=g.i(0,5)==0?g.i(1,60):-1; apply(*used.p,s); bool ch=g.i(0,4)==0; Par keep=PR; if(ch) random_problem<P>(g); Out r=integrate(*used.p,c); PR=keep; hist+=S("[x ",c.x," to ",c.xe," h ",c.h," ",TH[r.th],", ",r.num[2]," accepted ",r.num[3]," rejected",spoilat>0?", NaN":"","] "); }
    thrat=-1; spoilat=-1; bool user=g.i(0,9)==0; if(user) thrat=g.i(0,100); Set s=rset(g,n); Call_ c=rcall(g,n); if(c.x==c.xe&&g.i(0,1)) c.xe+=.5;
    CASE(S(who," n=",n," case ",q," history ",hist,"then x ",c.x," to ",c.xe," h ",c.h," y0 ",c.y[0]," nmax ",s.nmax," one ",s.one," gus ",s.gus," safe ",s.safe));
    apply(*used.p,s); Out a=integrate(*used.p,c); int f=g.i(0,255); Boxed<I> fresh(f,s0.same,&s0.a[0],&s0.r[0]); apply(*fresh.p,s); Out b=integrate(*fresh.p,c); if(a.num[2]>0) ++nnontriv; compare(a,b,"used");
    if(q%4==0){ Boxed<I> other(f^0x7f,s0.same,&s0.a[0],&s0.r[0]); apply(*other.p,s); Out d=integrate(*other.p,c); compare(d,b,"memory"); Out e=integrate(*other.p,c); compare(e,b,"again"); }
  } }
int main(int c,char**v){ NAMES=NM; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?15:1;
  for(int r=0;r<m;r++){
#if WHICH==1
    one<RP<1,0,0,false,false,1,false,false> >("full1",g,160); one<RP<3,2,2,false,true,1,false,false> >("full3 numeric",g,160); one<RP<3,2,2,false,false,1,false,false> >("full3",g,200); one<RP<4,3,3,true,false,1,false,false> >("hess4",g,120); one<RP<5,1,2,false,false,1,false,false> >("band5",g,120); one<RP<4,2,0,false,true,1,false,false> >("band4 numeric",g,80);
#else
    one<RP<1,0,0,false,false,1,false,false> >("full1",g,160); one<RP<3,2,2,false,true,2,false,false> >("full3 numeric",g,160); one<RP<3,2,2,false,false,3,true,false> >("full3 autonomous",g,160); one<RP<4,3,3,true,false,1,false,true> >("hess4 df",g,160); one<RP<5,1,2,false,false,2,false,false> >("band5",g,120); one<RP<4,2,0,false,true,3,false,true> >("band4 numeric",g,120);
#endif
  }
  printf("INFO pairs=%ld thrown=%ld\n",pairs,thrown); return finish(); }
#elif WHICH==3
static const char*NM[8]={"steps","accepted steps","rejected steps","right-hand sides","stages","last accepted step",0,0};
struct C4{ V y; double t0,te,h,a,r,base; int kick; double ka; unsigned long seed; int nan_; };
static C4 rcall(Rng&g,int n){ C4 c; c.y.resize(n); for(double&x:c.y) x=g.u(-2,2); c.t0=g.i(0,1)?0:g.u(-3,3); c.te=c.t0+pow(10.,g.u(-2,.7)); if(g.i(0,7)==0) c.te=c.t0; if(g.i(0,11)==0) c.te=c.t0-1; c.h=fabs(c.te-c.t0)*pow(10.,g.u(-3,.7)); if(g.i(0,9)==0) c.h=1e-17; c.a=pow(10.,g.u(-6,-1)); c.r=g.i(0,2)?c.a*g.u(.1,3):0; c.base=pow(10.,g.u(-1,3)); c.kick=g.i(0,2)?0:g.i(5,60); c.ka=pow(10.,g.u(0,3)); c.seed=g.next(); c.nan_=g.i(0,4)==0?g.i(1,100):-1; return c; }
static Out integrate(Rock4<Pb>&I,Pb&P,const C4&c,long thrat){ Out r; LOG.clear(); RHOAT.clear(); int n=P.N; I.setTolerances(c.a,c.r); rhofun=[&]{ return c.base*(1+(RHOAT.size()*7919)%5); }; unsigned long cnt=0; long cap=thrat>=0?thrat:20000; fhook=[&](double*f,int m){ ++cnt; if((long)cnt>cap) throw 7; if(c.nan_>0&&cnt==(unsigned long)c.nan_) f[0]=NAN; if(c.kick&&(cnt*2654435761u+c.seed)%c.kick==0) for(int i=0;i<m;i++) f[i]+=c.ka*((cnt*2654435761u+i*97)%13/6.-1); };
  double*y=allocDoubleArray(n); for(int i=0;i<n;i++) y[i]=c.y[i]; try{ I(y,c.t0,c.te,c.h); }catch(OdesException&){ r.th=1; }catch(int){ r.th=2; }
  for(auto&l:LOG) for(double z:l.in) r.calls.push_back(z); for(size_t z:RHOAT) r.calls.push_back(z);
  r.num={(double)I.NbSteps(),(double)I.NbAccepted(),(double)I.NbRejected(),(double)I.NbRhsComputed(),(double)I.NbStages(),I.NbAccepted()>0?I.LastAcceptedTimeStep():0,0,0}; for(int i=0;i<n;i++) r.num.push_back(y[i]); destroyDoubleArray(y); return r; }
int main(int c,char**v){ NAMES=NM; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?8000:700;
  for(int k=0;k<rep;k++){ Pb P; P.N=g.i(1,6); P.fs=g.i(0,5); P.amp=g.i(0,3)?g.u(.1,3):0; P.lin=g.i(0,2)?-g.u(0.,30.):0; P.keep=true; string hist; Boxed<Rock4<Pb> > used(g.i(0,255),P); int m=g.i(1,3);
    for(int q=0;q<m;q++){ C4 x=rcall(g,P.N); long ta=g.i(0,2)?-1:g.i(1,150); Out r=integrate(*used.p,P,x,ta); hist+=S("[t ",x.t0," to ",x.te," h ",x.h," ",TH[r.th],", ",r.num[1]," accepted ",r.num[2]," rejected] "); }
    C4 x=rcall(g,P.N); long ta=g.i(0,9)?-1:g.i(1,150); CASE(S("n=",P.N," case ",k," history ",hist,"then t ",x.t0," to ",x.te," h ",x.h," rho ",x.base," kick ",x.kick," nan ",x.nan_)); Out a=integrate(*used.p,P,x,ta); Boxed<Rock4<Pb> > fresh(g.i(0,255),P); Out b=integrate(*fresh.p,P,x,ta); if(a.num[1]>0) ++nnontriv; compare(a,b,"used"); Out d=integrate(*fresh.p,P,x,ta); compare(d,b,"again"); }
  printf("INFO pairs=%ld thrown=%ld\n",pairs,thrown); return finish(); }
#elif WHICH==4
static const char*NM[8]={"steps","operator calls","stages",0,0,0,0,0};
template<class I> void call(I&s,double*y,double*b,double t0,double te,double h,std::true_type){ s(y,b,t0,te,h); } template<class I> void call(I&s,double*y,double*,double t0,double te,double h,std::false_type){ s(y,t0,te,h); }
template<bool A> void run(Rng&g,int rep){ for(int k=0;k<rep;k++){ int n=g.i(1,9); double rad=pow(10.,g.u(-1,3)); Op P=mkop(g,n,rad); string hist; NCALL=0; STOPAT=-1; RHO=rad;
    auto go=[&](Rock4L<Op,A>&I,const V&y0,const V&b0,double t0,double te,double h,long stop){ Out r; NCALL=0; NRHO=0; STOPAT=stop; double*y=allocDoubleArray(n),*b=allocDoubleArray(n); for(int i=0;i<n;i++){ y[i]=y0[i]; b[i]=b0[i]; } BP=A?b:nullptr; try{ call(I,y,b,t0,te,h,std::integral_constant<bool,A>()); }catch(OdesException&){ r.th=1; }catch(int){ r.th=2; } r.calls={(double)NCALL,(double)NRHO}; r.num={(double)I.NbSteps(),(double)I.NbRhsComputed(),(double)I.NbStages(),0,0,0,0,0}; for(int i=0;i<n;i++) r.num.push_back(y[i]); destroyDoubleArray(y); destroyDoubleArray(b); BP=nullptr; return r; };
    auto rv=[&]{ V y(n); for(double&z:y) z=g.u(-2,2); return y; }; auto rt=[&](double&t0,double&te,double&h,double&rho){ t0=g.i(0,1)?0:g.u(-3,3); te=t0+pow(10.,g.u(-2,0)); h=(te-t0)*pow(10.,g.u(-1.5,.5)); if(g.i(0,9)==0) te=t0; if(g.i(0,11)==0) h=1e-17; rho=rad*(g.i(0,3)?1:g.u(1,3)); };
    Boxed<Rock4L<Op,A> > used(g.i(0,255),P); int m=g.i(1,3); double t0,te,h,rho; for(int q=0;q<m;q++){ rt(t0,te,h,rho); RHO=rho; Out r=go(*used.p,rv(),rv(),t0,te,h,g.i(0,2)?-1:g.i(1,60)); hist+=S("[t ",t0," to ",te," h ",h," ",TH[r.th],"] "); }
    rt(t0,te,h,rho); RHO=rho; V y=rv(),b=rv(); CASE(S("Rock4L affine=",A," n=",n," history ",hist,"then t ",t0," to ",te," h ",h," rho ",rho)); Out a=go(*used.p,y,b,t0,te,h,-1); Boxed<Rock4L<Op,A> > fresh(g.i(0,255),P); Out d=go(*fresh.p,y,b,t0,te,h,-1); if(a.num[0]>0) ++nnontriv; compare(a,d,"used"); Out e=go(*fresh.p,y,b,t0,te,h,-1); compare(e,d,"again"); } }
int main(int c,char**v){ NAMES=NM; Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?6000:500; run<false>(g,rep); run<true>(g,rep); printf("INFO pairs=%ld thrown=%ld\n",pairs,thrown); return finish(); }
#else
static const char*NM[8]={0,0,0,0,0,0,0,0}; static vector<double> DG; static long stop=-1,ncall=0;
struct Op{ int n; double c; void init(int n_,double c_){ n=n_; c=c_; } void apply(double in[],double out[]){ if(++ncall==stop) throw 7; vector<double> r(n); for(int i=0;i<n;i++) r[i]=in[i]/(1+c*DG[i])+(i?.1*in[i-1]:0); for(int i=0;i<n;i++) out[i]=r[i]; } };
template<class RK> void one(const char*who,Rng&g,bool aff){ int n=g.i(1,7); double dt=pow(10.,g.u(-3,.5)); DG.resize(n); for(double&z:DG) z=g.u(0,50); Boxed<Sdirkl<RK,Op> > used(g.i(0,255),n,dt,aff); string hist;
  auto go=[&](Sdirkl<RK,Op>&I,const vector<double>&u0,const vector<double>&p0,bool wrong,long st){ Out r; vector<double> u=u0,p=p0; ncall=0; stop=st; try{ if(aff!=wrong) I.step(&u[0],&p[0]); else I.step(&u[0]); }catch(GenericException&){ r.th=1; }catch(int){ r.th=2; } r.num.assign(8,0); r.num.insert(r.num.end(),u.begin(),u.end()); r.num.insert(r.num.end(),p.begin(),p.end()); r.calls={(double)ncall}; return r; };
  auto rv=[&]{ vector<double> y(n); for(double&z:y) z=g.u(-2,2); return y; }; int m=g.i(1,4); for(int q=0;q<m;q++){ bool w=g.i(0,3)==0; Out r=go(*used.p,rv(),rv(),w,g.i(0,3)?-1:g.i(1,3)); hist+=S("[",TH[r.th],"] "); }
  vector<double> u=rv(),p=rv(); CASE(S(who," n=",n," dt=",dt," affine=",aff," history ",hist)); Out a=go(*used.p,u,p,false,-1); Boxed<Sdirkl<RK,Op> > fresh(g.i(0,255),n,dt,aff); Out b=go(*fresh.p,u,p,false,-1); ++nnontriv; compare(a,b,"used"); }
int main(int c,char**v){ NAMES=NM; Rng g(c>1?atoi(v[1]):1); int rep=(c>2&&!strcmp(v[2],"thorough"))?4000:300; for(int r=0;r<rep;r++) for(int a=0;a<2;a++){ one<RKMethod1>("RKMethod1",g,a); one<RKMethod2>("RKMethod2",g,a); one<RKRS>("RKRS",g,a); one<CrN>("CrN",g,a); } printf("INFO pairs=%ld thrown=%ld\n",pairs,thrown); return finish(); }
#endif
