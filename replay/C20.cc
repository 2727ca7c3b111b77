// replay driver for C20: symplectic step observed through the calls of the right-hand side
#include "common.hpp"
#include "SymplecticRK.hpp"
using namespace odes;
typedef __float128 Q;
static vector<vector<long double> > IN,OUT; static unsigned long long fs=1; static double amp=1; static int mode=0; static bool logging=true;
template<int N,class D> struct Pb{ static const int n=N; void operator()(D*y,D*f){
  for(int i=0;i<N;i++){ if(mode==0){ D s=0; for(int j=0;j<N;j++) s+=(D)(0.3*(((i*7+j*3+(int)(fs%13))%5)-2))*y[j]; f[i]=(D)amp*(sin(s)+(D)0.1*y[(i+1)%N]); } else f[i]=(D)amp*(D)(1+0.37*i); }
  if(mode==2) for(int i=0;i<N;i++) f[i]+=(D)1e3*y[i];
  if(logging){ IN.push_back(vector<long double>(y,y+N)); OUT.push_back(vector<long double>(f,f+N)); } } };
template<class D> D eps(){ return numeric_limits<D>::epsilon(); }
template<int N,int s,class D> void one(const char*who,Rng&g,int steps){
  typedef SymplecticRK<Pb<N,D>,s,D> SV; int itermax=400; 
  vector<D> u(N); vector<Q> exact(N); D h=(D)pow(10.,g.u(-3.,-1.2))*(g.i(0,3)?1:-1); fs=g.next()%1000; amp=g.u(0.2,1.2); mode=g.i(0,4)==0?1:0;
  for(int i=0;i<N;i++){ u[i]=(D)g.u(-2,2); if(mode==1) u[i]=(D)(1+g.u()); exact[i]=u[i]; }
  if(mode==1) h=(D)1e-4*(D)g.u(0.1,1);
  string cs=S(who," n=",N," s=",s," h=",(double)h," mode=",mode," fs=",fs," amp=",amp); CASE(cs);
  unsigned char*mem=(unsigned char*)aligned_alloc(64,(sizeof(SV)+63)/64*64); memset(mem,g.i(0,1)?0:0x11,sizeof(SV)); SV&I=*new(mem) SV(itermax);
  GaussianMethod<s,D> G; G.change_h(h); bool first=true; bool drift=false;
  for(int st=0;st<steps;st++){
    // from time to time a step that cannot converge: nothing may change
    if(st%7==3){ static SV* dummy=0; int keep=mode; D hb=h; vector<D> u0=u; IN.clear(); OUT.clear(); mode=2; bool f2=true; bool r=I.step(h*1000,&u[0],f2); mode=keep; if(r){ bool same=true; for(int i=0;i<N;i++) if(u[i]!=u0[i]) same=false; if(!same||IN.size()>=(size_t)itermax*s) FAIL("divergent",S("divergent iteration reported success ",cs)); free(mem); return; } if(memcmp(&u[0],&u0[0],0)||!(u==u0)){ FAIL("failed-step",S("failed step changed the state ",cs)); free(mem); return; } if(IN.size()!=(size_t)itermax*s) FAIL("limit",S("failed step used ",IN.size()/s," sweeps, limit ",itermax," ",cs)); }
    IN.clear(); OUT.clear(); vector<D> u0=u; bool f=st==0||st%7==3||g.i(0,3)==0; bool r=I.step(h,&u[0],f);
    if(IN.size()%s||IN.size()>(size_t)itermax*s||IN.empty()){ FAIL("sweeps",S(IN.size()," evaluations ",cs)); free(mem); return; }
    if(!r){ if(!(u==u0)) FAIL("failed-step",S("failed step changed the state ",cs)); if(IN.size()!=(size_t)itermax*s) FAIL("limit",S("gave up after ",IN.size()/s," sweeps ",cs)); continue; }
    ++nnontriv; size_t b=IN.size()-s; D sc=0; for(int i=0;i<N;i++){ sc=max(sc,(D)fabsl(u0[i])); for(int j=0;j<s;j++) sc=max(sc,(D)fabsl(h*OUT[b+j][i])); }
    // sweeps: stages of sweep k+1 from evaluations of sweep k
    for(size_t k=0;k+s<IN.size();k+=s) if(k==0||k+2*s>=IN.size()) for(int i=0;i<s;i++) for(int l=0;l<N;l++){ Q v=u0[l]; for(int j=0;j<s;j++) v+=(Q)G.A(i,j)*OUT[k+j][l]; if(!(fabsl((long double)(v-IN[k+s+i][l]))<=32*s*eps<D>()*sc)){ FAIL("sweep",S("sweep ",k/s+1," stage ",i," component ",l," is ",(double)IN[k+s+i][l]," expected ",(double)v," step ",st," ",cs)); free(mem); return; } }
    // converged: the next sweep would not change the stages
    for(int i=0;i<s;i++) for(int l=0;l<N;l++){ Q v=u0[l]; for(int j=0;j<s;j++) v+=(Q)G.A(i,j)*OUT[b+j][l]; if(!(fabsl((long double)(v-IN[b+i][l]))<=32*s*eps<D>()*sc)){ FAIL("converged",S("success reported but the last sweep moved stage ",i," component ",l," by ",(double)(v-IN[b+i][l])," step ",st," ",cs)); free(mem); return; } }
    if(!(I.lastdiff()<=1e-290)) FAIL("residual",S("success with residual ",(double)I.lastdiff()," ",cs));
    for(int l=0;l<N;l++){ Q d=0; for(int j=0;j<s;j++) d+=(Q)G.b[j]*OUT[b+j][l]; exact[l]+=d; if(mode==1||1){ Q er=(Q)u[l]-exact[l]; long double a=fabsl((long double)er),lim=2.5L*eps<D>()*(fabsl(u[l])+sc*1e-3L)+(long double)(st+1)*4*s*eps<D>()*fabsl((long double)d); if(!(a<=lim)){ FAIL("compensation",S("component ",l," differs from the exactly accumulated increments by ",(double)a," after ",st+1," steps (rounding allows ",(double)lim,") ",cs)); free(mem); return; } } }
  }
  free(mem);
}
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?60:4;
  for(int r=0;r<rep;r++){ int m=th?3000:400;
    one<1,2,double>("double",g,m); one<3,3,double>("double",g,m); one<2,5,double>("double",g,m); one<5,2,double>("double",g,m); one<2,16,double>("double",g,m/4); one<4,8,double>("double",g,m/4);
    one<1,2,long double>("long double",g,m); one<3,4,long double>("long double",g,m); one<2,9,long double>("long double",g,m/4); one<7,3,long double>("long double",g,m/2); }
  return finish();
}
