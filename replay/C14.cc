// replay driver for C14: the OpenMP build under ThreadSanitizer. The entry points
// of the OpenMP runtime are provided here on plain threads, so that the sanitizer
// sees every fork and join (no false reports) and thread counts and start orders vary.
#include <thread>
#include <mutex>
#include <atomic>
static int NT=4; static unsigned long ORDER=0; static long PAR=0;
static thread_local int my=0,nt=1; static std::mutex gm; static std::atomic<long> NEXT; static long WE,WI,WC;
extern "C" {
int omp_get_num_threads(){ return nt; } int omp_get_thread_num(){ return my; } int omp_get_max_threads(){ return NT; }
static void runpar(void(*f)(void*),void*d,unsigned n){ ++PAR; int k=n?n:NT; std::thread*t=new std::thread[k]; for(int i=0;i<k;i++){ int id=(int)((i+ORDER)%k); if(ORDER&1) id=k-1-id; t[i]=std::thread([=]{ my=id; nt=k; f(d); }); } for(int i=0;i<k;i++) t[i].join(); delete[] t; }
void GOMP_parallel(void(*f)(void*),void*d,unsigned n,unsigned){ runpar(f,d,n); }
static void pl(void(*f)(void*),void*d,unsigned n,long s,long e,long inc,long ch){ NEXT=s; WE=e; WI=inc; WC=ch<1?7:ch; runpar(f,d,n); }
static bool nx(long*a,long*b){ long s=NEXT.fetch_add(WC*WI,std::memory_order_relaxed); if(WI>0? s>=WE : s<=WE) return false; *a=s; long e=s+WC*WI; if(WI>0? e>WE : e<WE) e=WE; *b=e; return true; }
#define L(K) void GOMP_parallel_loop_##K(void(*f)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned){ pl(f,d,n,s,e,i,c); } bool GOMP_loop_##K##_next(long*a,long*b){ return nx(a,b); }
#define LR(K) void GOMP_parallel_loop_##K(void(*f)(void*),void*d,unsigned n,long s,long e,long i,unsigned){ pl(f,d,n,s,e,i,5); } bool GOMP_loop_##K##_next(long*a,long*b){ return nx(a,b); }
L(dynamic) L(guided) L(nonmonotonic_dynamic) L(nonmonotonic_guided) LR(runtime) LR(nonmonotonic_runtime) LR(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait(){} void GOMP_loop_end(){}
void GOMP_atomic_start(){ gm.lock(); } void GOMP_atomic_end(){ gm.unlock(); } void GOMP_critical_start(){ gm.lock(); } void GOMP_critical_end(){ gm.unlock(); }
}
#undef L
#undef LR
#include "r4.hpp"
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?150:14;
  for(int k=0;k<rep;k++){ int row=k<6?k+1:g.i(1,th?50:14);
    Row r=getrow(row); int s=r.d+4; double h=pow(10.,g.u(-3.,0.3)); double need=0.353*s*s-3; double lo=row==1?0:0.353*pow(MSV[row-2]+4.,2)-3; double hr=lo+(need-lo)*g.u(0.05,0.95);
    Pb P; P.N=k==0?1:k==1?3:k==2?2000:g.i(1,400); P.fs=g.i(0,5); P.amp=g.u(0.2,2); P.lin=-hr/h*g.u(0.02,0.4)/1.8; P.keep=true; rhofun=nullptr; RHO=hr/h; NT=k%5==0?8:g.i(1,7); ORDER=g.i(0,9);
    string cs=S("threads=",NT," order=",ORDER," n=",P.N," degree=",r.d," h=",h," rho=",RHO," fs=",P.fs," lin=",P.lin," amp=",P.amp); CASE(cs);
    V y0(P.N); for(auto&x:y0) x=g.u(-2,2);
    double*y=allocDoubleArray(P.N); double atol=1e12,rtol=g.i(0,1)?0:g.u(0.1,10)*1e12;
    auto go=[&](double at,double rt,int&rej){ LOG.clear(); RHOAT.clear(); for(int i=0;i<P.N;i++) y[i]=y0[i]; Rock4<Pb> I(P); I.setTolerances(at,rt); try{ I(y,0.,h,h);}catch(OdesException&){ } rej=I.NbRejected(); };
    int rej; PAR=0; go(atol,rtol,rej); if(PAR>0) ++nnontriv;
    if(LOG.size()<1||LOG[0].in!=y0){ FAIL("first",S("the first evaluation is not at the initial value ",cs)); destroyDoubleArray(y); continue; }
    double e=stepcheck(r,y0,LOG[0].out,h,1,atol,rtol,cs,"step");
    if(e>0) for(int q=0;q<6;q++){ double E=q%2?0.9999:1.0001,f=e/E; int rj; NT=1+(q*3)%8; go(atol*f,rtol*f,rj); if((rj==0)!=(E<1)) FAIL("norm",S("with tolerances making the error ",E," the step was ",rj==0?"accepted":"rejected"," with ",NT," threads ",cs)); }
    destroyDoubleArray(y);
  }
  return finish();
}
