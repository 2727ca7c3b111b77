// replay driver for C22: integrations of failing problems end, within the step limit
// -DWHICH=1 Radau5cc, 2 Rodascc, 3 Rock4, 4 Rock4L
#if WHICH==1
#include "prob.hpp"
#include "logger.hpp"
#include "Radau5cc.hpp"
#elif WHICH==2
#include "prob.hpp"
#include "Rodascc.hpp"
#elif WHICH==3
#include "common.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
#else
#include "common.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4L.hpp"
#endif
#include <csignal>
#include <unistd.h>
using namespace odes;
static void on(int){ FAIL("endless",S("the integration does not end | ",curcase)); finish(); fflush(stdout); _exit(0); }
static void arm(int s){ signal(SIGALRM,on); alarm(s); }
struct TooMany{};
static long ncall=0,cap=0; static int mode=0,from=0; static unsigned long salt=0;
// spoils the values returned by user functions
static void spoil(double*f,int n){ ++ncall; if(ncall>cap) throw TooMany(); if(ncall<from) return; unsigned long z=ncall*2654435761u+salt;
  switch(mode){ case 0: break; case 1: f[z%n]=NAN; break; case 2: f[z%n]=INFINITY; break; case 3: for(int i=0;i<n;i++) f[i]=((z>>7)%3-1.)*1e30*(i+1); break; case 4: for(int i=0;i<n;i++) f[i]*=-1e8*((z>>5)%7); break; case 5: if(z%5==0) f[z%n]=NAN; break; case 6: for(int i=0;i<n;i++) f[i]+=((z>>9)%1000-500.); break; case 7: for(int i=0;i<n;i++) f[i]=-INFINITY; break; } }
#if WHICH<=2
static int jmode=0;
template<int N,int NS,int NU,bool HESS,bool NUM> struct Q{
  static const int n=N,nsub=NS,nsup=NU; static const bool Hessenberg=HESS,ComputeJacobianNumerically=NUM; static const int method=1; static const bool autonomous=false,use_DF_t=false;
  void operator()(double t,double y[],double f[]) const { pf(t,y,f,false); spoil(f,N); }
  template<class V,class W,class M> void Jacobian(double t,V Y,W Fy,M&J) const { (void)Fy; double y[N],z[N*N]; for(int i=0;i<N;i++) y[i]=Y(i+1); pj(t,y,z); ++ncall; if(ncall>cap) throw TooMany(); for(int i=0;i<N;i++) for(int j=max(0,i-NS);j<=min(N-1,i+NU);j++){ double v=z[i*N+j]; if(jmode==1) v=NAN; if(jmode==2) v=1e300; if(jmode==3) v=-v*1e4; if(jmode==4) v=0; if(jmode==5) v=INFINITY; J(i+1,j+1)=v; } }
  void DF_t(double,const fortranVectorF<N>&,fortranVectorF<N>&) const {}
};
template<class P> void one(const char*who,Rng&g,int rep){ const int n=P::n;
  for(int q=0;q<rep;q++){ random_problem<P>(g); mode=g.i(0,7); jmode=P::ComputeJacobianNumerically?0:g.i(0,2)?0:g.i(1,5); salt=g.next(); from=g.i(0,2)?g.i(0,200):0;
    double a=pow(10.,-g.u(1,9)),b=pow(10.,-g.u(1,9)); int nmax=g.i(0,3)?g.i(-1,400):g.i(0,5); if(g.i(0,15)==0) nmax=3000; int nit=7; double y[P::n]; for(double&z:y) z=g.u(-2,2); double x=g.i(0,1)?0:g.u(-2,2)*pow(10.,g.u(0,4)),len=pow(10.,g.u(-3,2)); if(g.i(0,3)==0) len=-len; double h=len*pow(10.,-g.u(-1,8)); if(g.i(0,9)==0) h=0; double xe=x+len;
#if WHICH==1
    Radau5cc<P> I(true,&a,&b); if(g.i(0,2)==0){ nit=g.i(-1,12); I.setMaxIterationsNewton(nit); } if(g.i(0,4)==0) I.setRecomputeJacobianTreshold(g.i(0,1)?-1:.5); if(g.i(0,4)==0) I.setGustafssonTest(false);
    cap=(long)(max(nmax,0)+2)*(3L*max(nit,1)+4+3L*n)+50; const int first=1;
#else
    Rodascc<P> I(true,&a,&b); cap=(long)(max(nmax,0)+2)*(8L+3L*n)+50; const int first=1;
#endif
    I.setNmax(nmax); for(int rr=0;rr<2;rr++){ ncall=0; double xx=x; CASE(S(who," n=",n," run ",rr," x=",x," end=",xe," h=",h," nmax=",nmax," nit=",nit," mode=",mode," from=",from," jmode=",jmode," tol=",a,",",b)); arm(20); int out=0;
      try{ I(h,xx,xe,y); }catch(OdesException&){ out=1; }catch(TooMany&){ out=2; }catch(...){ out=3; } alarm(0);
      if(out==2) FAIL("calls",S("more than ",cap," calls of user functions with step limit ",nmax," (",I.getNstep()," steps counted) | ",curcase));
      else if(out==3) FAIL("exception-type",S("something else than the library's exception | ",curcase));
      else { if(I.getNstep()>max(nmax,0)+first) FAIL("limit",S(I.getNstep()," steps were attempted with limit ",nmax," | ",curcase)); if(out==1) ++nnontriv;
#if WHICH==1
        if(out==1&&I.getNstep()<=nmax&&jmode==0&&mode==0) FAIL("exception",S("exception after ",I.getNstep()," attempted steps, limit ",nmax," | ",curcase));
#endif
      }
      for(double&z:y) z=g.u(-2,2); } } }
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int m=th?8:1;
  for(int r=0;r<m;r++){ one<Q<1,0,0,false,false> >("full1",g,60); one<Q<3,2,2,false,false> >("full3",g,120); one<Q<3,2,2,false,true> >("full3 numeric",g,80); one<Q<4,3,3,true,false> >("hess4",g,80); one<Q<5,1,2,false,false> >("band5",g,80); one<Q<4,2,0,false,true> >("band4 numeric",g,60); }
  return finish(); }
#elif WHICH==3
static double RHO=1; static int rmode=0;
struct Pb{ int N; int size()const{return N;} double rho()const{ if(rmode==1) return RHO*(1+(ncall*7919)%100); if(rmode==2) return 0; return RHO; }
  void operator()(double*y,double*f){ for(int i=0;i<N;i++) f[i]=-y[i]*(1+i)+sin(y[(i+1)%N]); spoil(f,N); } };
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?4000:500; long nthrow=0;
  for(int k=0;k<rep;k++){ Pb P; P.N=g.i(1,5); mode=g.i(0,7); if(k%4==0) mode=1; salt=g.next(); from=g.i(0,2)?g.i(0,300):0; RHO=pow(10.,g.u(-2,g.i(0,3)?3:7)); rmode=g.i(0,2); double tol=pow(10.,-g.u(1,8)),len=pow(10.,g.u(-2,.7)),t0=g.i(0,1)?0:g.u(-3,3)*pow(10.,g.u(0,6)),h=len*pow(10.,-g.u(-1,5)); bool tiny=g.i(0,5)==0; if(tiny){ t0=g.u(.5,2)*pow(10.,g.u(0,6))*(g.i(0,1)?1:-1); h=fabs(t0)*1e-16*g.u(.01,.8); mode=0; } else { double lim=4e-16*fabs(t0); if(h<lim) h=lim; }
    bool kicks=mode==3||mode==4||mode==6; cap=kicks?300000:3000000; CASE(S("Rock4 n=",P.N," t0=",t0," tend=",t0+len," h=",h," mode=",mode," from=",from," rho=",RHO," rmode=",rmode," tol=",tol));
    double*y=allocDoubleArray(P.N); for(int i=0;i<P.N;i++) y[i]=g.u(-2,2); int out=0; ncall=0; { Rock4<Pb> I(P); I.setTolerances(tol,tol); arm(20); try{ I(y,t0,t0+len,h); }catch(OdesException&){ out=1; }catch(TooMany&){ out=2; }catch(...){ out=3; } alarm(0); } destroyDoubleArray(y);
    if(out==3) FAIL("exception-type",S("something else than the library's exception | ",curcase)); if(out==2&&!kicks) FAIL("calls",S("more than ",cap," evaluations | ",curcase)); if(out==1) ++nthrow,++nnontriv; if(tiny&&out!=1) FAIL("too-small",S("a step that does not change the time did not raise the exception | ",curcase)); if((mode==1||mode==2||mode==7)&&from<5&&!tiny&&out==0) FAIL("non-finite",S("returned normally though every evaluation was not finite | ",curcase)); }
  printf("INFO thrown=%ld\n",nthrow); return finish(); }
#else
static double RHO=1;
struct Op{ int N; int size()const{return N;} double rho(){ return RHO; }
  void operator()(double*in,double*s,double a,double b,double*out){ ++ncall; if(ncall>cap) throw TooMany(); double r[16]; for(int i=0;i<N;i++) r[i]=-a*in[i]*RHO*.5+b*s[i]; for(int i=0;i<N;i++) out[i]=mode==1&&ncall>from?NAN:r[i]; }
  void operator()(double*in,double*s,double a,double b,double*g,double*out){ double r[16]; for(int i=0;i<N;i++) r[i]=a*g[i]; (*this)(in,s,a,b,out); for(int i=0;i<N;i++) out[i]+=r[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ double r[16]; for(int i=0;i<N;i++) r[i]=b*in[i]; (*this)(in,s,a,c,out); for(int i=0;i<N;i++) out[i]+=r[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ double r[16]; for(int i=0;i<N;i++) r[i]=a*g[i]+b*in[i]; (*this)(in,s,a,c,out); for(int i=0;i<N;i++) out[i]+=r[i]; } };
template<bool A> void run(Rng&g,int rep){ for(int k=0;k<rep;k++){ Op P; P.N=g.i(1,9); mode=g.i(0,3)==0; from=g.i(0,50); RHO=pow(10.,g.u(-2,2)); double len=pow(10.,g.u(-2,.7)),t0=g.i(0,1)?0:g.u(-3,3)*pow(10.,g.u(0,6)),h=len*pow(10.,-g.u(-1,2)); int tiny=g.i(0,3)==0; if(tiny){ t0=g.u(.5,2)*pow(10.,g.u(0,6))*(g.i(0,1)?1:-1); h=fabs(t0)*1e-16*g.u(.01,.8); if(g.i(0,4)==0){ t0=0; h=g.i(0,1)?1e-16:0; } } else { h=max(h,4e-16*fabs(t0)); if(g.i(0,4)==0){ RHO=0; } }
    cap=tiny?1000000:(long)(len/h*1.02+3)*170; CASE(S("Rock4L affine=",A," n=",P.N," t0=",t0," tend=",t0+len," h=",h," rho=",RHO)); double*y=allocDoubleArray(P.N),*b=allocDoubleArray(P.N); for(int i=0;i<P.N;i++) y[i]=g.u(-2,2),b[i]=g.u(-1,1); int out=0; ncall=0; { Rock4L<Op,A> I(P); arm(20); try{ if(A) I(y,b,t0,t0+len,h); else I(y,t0,t0+len,h); }catch(OdesException&){ out=1; }catch(TooMany&){ out=2; }catch(...){ out=3; } alarm(0); } destroyDoubleArray(y); destroyDoubleArray(b);
    if(out==3) FAIL("exception-type",S("something else than the library's exception | ",curcase)); if(out==2) FAIL("calls",S("more than ",cap," applications of the operator | ",curcase)); if(tiny&&out!=1) FAIL("too-small",S("a step too small did not raise the exception | ",curcase)); if(out==1) ++nnontriv; } }
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?6000:600; run<false>(g,rep); run<true>(g,rep); return finish(); }
#endif
