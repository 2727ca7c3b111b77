// replay driver for C01: all vector kernels against a plain reference, including aliased operands
#include "common.hpp"
#include <memory>
#include "fortranVector.hpp"
#include "switchAdr.hpp"
using namespace odes;
template<int n> void run(Rng& g){
  typedef fortranVectorF<n> V;
  V D,A,B,C,E,G; V* v[6]={addressof(D),addressof(A),addressof(B),addressof(C),addressof(E),addressof(G)};
  double ref[6][n];
  auto fill=[&](){ for(int k=0;k<6;k++) for(int i=1;i<=n;i++){ (*v[k])(i)=g.u(-2,2); ref[k][i-1]=(*v[k])(i);} };
  auto chk=[&](const char* nm,const vector<double>& want,int dst,const vector<int>& others){
    for(int i=0;i<n;i++) if(!::close((*v[dst])(i+1),want[i],1e-13,1e-13)){ FAIL(S("kernel:",nm),S(nm," n=",n," element ",i+1," got ",(*v[dst])(i+1)," want ",want[i])); break; }
    for(int o=0;o<6;o++) if(o!=dst) for(int i=0;i<n;i++) if((*v[o])(i+1)!=ref[o][i]){ FAIL(S("frame:",nm),S(nm," n=",n," modified operand ",o)); break; }
  };
  double a=g.u(-3,3),b=g.u(-3,3),c=g.u(-3,3),d=g.u(-3,3),e=g.u(-3,3);
  vector<double> w(n);
  // operand pattern: index of each operand vector (0 = destination, i.e. aliased)
  for(int pat=0;pat<4;pat++){
    int p1=pat==1?0:1,p2=pat==2?0:2,p3=pat==3?0:3,p4=4,p5=5;
    CASE(S("n=",n," aliasing pattern ",pat," a=",a," b=",b));
    if(pat) ++nnontriv;
#define W(expr) for(int i=0;i<n;i++){ double t=ref[0][i],x1=ref[p1][i],x2=ref[p2][i],x3=ref[p3][i],x4=ref[p4][i],x5=ref[p5][i]; (void)t;(void)x1;(void)x2;(void)x3;(void)x4;(void)x5; w[i]=(expr);}
    fill(); D=a; W(a) chk("fill",w,0,{});
    fill(); D=*v[p1]; W(x1) chk("assign",w,0,{});
    fill(); { vector<double> tab(n); for(int i=0;i<n;i++) tab[i]=g.u(-1,1); D=&tab[0]; for(int i=0;i<n;i++) w[i]=tab[i]; chk("assign from array",w,0,{}); }
    fill(); D+=*v[p1]; W(t+x1) chk("+=",w,0,{});
    fill(); D.setsum2(*v[p1],*v[p2]); W(x1+x2) chk("setsum2",w,0,{});
    fill(); D.sum(*v[p1],*v[p2]); W(x1+x2) chk("sum",w,0,{});
    fill(); { fortranVector Q(&(*v[p2]),n); D.sum(*v[p1],Q); W(x1+x2) chk("sum(vector)",w,0,{}); }
    fill(); D.a_Y(a,*v[p1]); W(a*x1) chk("a_Y",w,0,{});
    fill(); D.x_lc2(*v[p1],a,*v[p2],b,*v[p3]); W(x1+a*x2+b*x3) chk("x_lc2",w,0,{});
    fill(); D.x_lc3(*v[p1],a,*v[p2],b,*v[p3],c,*v[p4]); W(x1+a*x2+b*x3+c*x4) chk("x_lc3",w,0,{});
    fill(); D.x_lc4(*v[p1],a,*v[p2],b,*v[p3],c,*v[p4],d,*v[p5]); W(x1+a*x2+b*x3+c*x4+d*x5) chk("x_lc4",w,0,{});
    fill(); D.lc2(a,*v[p1],b,*v[p2]); W(a*x1+b*x2) chk("lc2",w,0,{});
    fill(); D.lc3(a,*v[p1],b,*v[p2],c,*v[p3]); W(a*x1+b*x2+c*x3) chk("lc3",w,0,{});
    fill(); D.lc4(a,*v[p1],b,*v[p2],c,*v[p3],d,*v[p4]); W(a*x1+b*x2+c*x3+d*x4) chk("lc4",w,0,{});
    fill(); D.lc5(a,*v[p1],b,*v[p2],c,*v[p3],d,*v[p4],e,*v[p5]); W(a*x1+b*x2+c*x3+d*x4+e*x5) chk("lc5",w,0,{});
    fill(); D.a_x_plus_y(a,*v[p1],*v[p2]); W(a*x1+x2) chk("a_x_plus_y",w,0,{});
  }
  fill(); { 
    CASE(S("n=",n," put / switchadr"));
    double* tab=allocDoubleArray(n); for(int i=0;i<n;i++) tab[i]=-77;
    D.put(tab); for(int i=0;i<n;i++) if(tab[i]!=ref[0][i]){ FAIL("kernel:put",S("put n=",n," element ",i," got ",tab[i]," want ",ref[0][i])); break; }
    for(int i=0;i<n;i++) if(D(i+1)!=ref[0][i]) { FAIL("frame:put",S("put changed its source, n=",n)); break; }
    destroyDoubleArray(tab);
    D.switchadr(A); for(int i=0;i<n;i++) if(D(i+1)!=ref[1][i]||A(i+1)!=ref[0][i]){ FAIL("kernel:switchadr",S("switchadr n=",n," element ",i+1)); break; }
    // both views of a switched vector agree
    w.assign(n,0); D+=B; for(int i=0;i<n;i++) if(!::close(D(i+1),ref[1][i]+ref[2][i],1e-13,1e-13)){ FAIL("kernel:switchadr-view",S("after switchadr += n=",n)); break; }
    double *p=&D,*q=&A; double p0=p[0]; switchAdr(p,q); if(p!=&A||q!=&D){ FAIL("kernel:switchAdr","switchAdr"); } (void)p0;
  }
}
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1);
  int rep=(c>2&&!strcmp(v[2],"thorough"))?400:20;
  for(int r=0;r<rep;r++){ run<1>(g); run<2>(g); run<3>(g); run<4>(g); run<5>(g); run<7>(g); run<8>(g); run<9>(g); run<16>(g); run<17>(g); run<33>(g); run<130>(g); }
  return finish();
}
