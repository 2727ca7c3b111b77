// replay driver for C21: sequences of step sizes; predicted start values
#include "common.hpp"
#include "SymplecticRK.hpp"
using namespace odes;
typedef __float128 Q;
static vector<vector<long double> > IN,OUT; static unsigned long long fs=1; static double amp=1;
template<int N,class D> struct Pb{ static const int n=N; void operator()(D*y,D*f){
  for(int i=0;i<N;i++){ D s=0; for(int j=0;j<N;j++) s+=(D)0.3*(D)(((i*7+j*3+(int)(fs%13))%5)-2)*y[j]; f[i]=(D)amp*(sin(s)+(D)0.1*y[(i+1)%N]+(D)0.2); }
  IN.push_back(vector<long double>(y,y+N)); OUT.push_back(vector<long double>(f,f+N)); } };
template<int N,int s,class D> void one(const char*who,Rng&g,int steps){
  typedef SymplecticRK<Pb<N,D>,s,D> SV; const int itermax=400; const D eps=numeric_limits<D>::epsilon();
  vector<D> u(N); fs=g.next()%1000; amp=g.u(0.2,1.2); for(int i=0;i<N;i++) u[i]=(D)g.u(-2,2);
  vector<D> hs; for(int i=0;i<4;i++) hs.push_back((D)((g.i(0,1)?1:-1)*powl(10.L,(long double)g.u(-3,-1.1))*(1+(long double)g.u()*1e-13L)));
  // a step size that differs from another one only beyond double precision
  hs.push_back(hs[0]*(1+2*eps)); hs.push_back((D)0.03125);
  string cs=S(who," n=",N," s=",s," fs=",fs," amp=",amp); CASE(cs);
  unsigned char*mem=(unsigned char*)aligned_alloc(64,(sizeof(SV)+63)/64*64); memset(mem,0x11,sizeof(SV)); SV&I=*new(mem) SV(itermax);
  GaussianMethod<s,D> G0; Extrap<N,s,D> E0; D old=1; vector<vector<long double> > last; string hist;
  for(int st=0;st<steps;st++){
    D h=hs[g.i(0,3)?(st/3)%hs.size():g.i(0,hs.size()-1)]; bool f=last.empty()||g.i(0,5)==0; bool f0=f; 
    IN.clear(); OUT.clear(); vector<D> u0=u; bool r=I.step(h,&u[0],f);
    if(IN.size()<(size_t)s){ FAIL("sweeps",cs); break; }
    bool pred=!f0&&old==h; old=h; D sc=0; for(int i=0;i<N;i++){ sc=max(sc,(D)fabsl(u0[i])); }
    string w=S(cs," step ",st," h=",(double)h);
    bool bad=false;
    for(int i=0;i<s&&!bad;i++) for(int l=0;l<N;l++){ Q v=u0[l]; Q m=fabsl(u0[l]); if(pred) for(int j=0;j<s;j++){ Q t=(Q)(D)(E0.q[s*i+j]*h)*last[j][l]; v+=t; m+=t<0?-t:t; }
      if(!(fabsl((long double)(v-IN[i][l]))<=16*s*eps*(long double)m)){ FAIL(pred?"predicted":"start",S("start value of stage ",i," component ",l," is ",(double)IN[i][l]," expected ",(double)v," ",w)); bad=true; break; } }
    for(size_t k=0;k+s<IN.size()&&!bad;k+=s) if(k==0||k+2*s>=IN.size()) for(int i=0;i<s&&!bad;i++) for(int l=0;l<N;l++){ Q v=u0[l],m=fabsl(u0[l]); for(int j=0;j<s;j++){ Q t=(Q)(D)(G0.A(i,j)*h)*OUT[k+j][l]; v+=t; m+=t<0?-t:t; }
      if(!(fabsl((long double)(v-IN[k+s+i][l]))<=4*(s+2)*eps*(long double)m)){ FAIL("coefficients",S("sweep ",k/s+1," stage ",i," component ",l," is off by ",(double)(v-IN[k+s+i][l])," ",w)); bad=true; break; } }
    if(bad) break;
    size_t b=IN.size()-s; last.assign(OUT.begin()+b,OUT.end());
    if(!r) continue; // the iteration may cycle in the last digit: reported as failure, allowed
    ++nnontriv;
    for(int l=0;l<N;l++){ Q v=u0[l],m=fabsl(u0[l]); for(int j=0;j<s;j++){ Q t=(Q)(D)(G0.b[j]*h)*OUT[b+j][l]; v+=t; m+=t<0?-t:t; } if(!(fabsl((long double)(v-u[l]))<=4*(s+2)*eps*(long double)m)){ FAIL("update",S("component ",l," after the step is off by ",(double)(v-u[l])," ",w)); bad=true; break; } }
    if(bad) break;
    for(int l=0;l<N;l++) if(!(fabsl(u[l])<20)) { u[l]=(D)0.5; last.clear(); }
  }
  free(mem);
}
template<int s,class D> void bad(const char*who){ CASE(S(who," Extrap s=",s," must throw")); bool t=false; try{ Extrap<3,s,D> G; }catch(OdesException&){ t=true; } if(!t) FAIL("guard",S(who," s=",s," accepted")); }
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?100:6;
  for(int r=0;r<rep;r++){ int m=60;
#define ONE(N,s) one<N,s,double>("double",g,m); one<N,s,long double>("long double",g,m);
    ONE(1,2) ONE(3,3) ONE(2,4) ONE(5,2) ONE(2,5) ONE(1,6) ONE(4,7) ONE(2,8) ONE(3,9) ONE(2,10) ONE(1,11) ONE(2,12) ONE(1,13) ONE(3,14) ONE(2,15) ONE(4,16) }
  bad<1,double>("double"); bad<17,double>("double"); bad<1,long double>("long double"); bad<17,long double>("long double");
  return finish();
}
