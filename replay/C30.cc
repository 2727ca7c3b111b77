// replay driver for C30: one step of the real solver for every table degree;
// diagonal operators show the stability polynomial, polynomial systems with one
// component per rooted tree show the order
#include "common.hpp"
#include "AllocateDestroyVector.hpp"
#ifdef LIN
#include "Rock4L.hpp"
#else
#include "Rock4.hpp"
#endif
using namespace odes;
static const int MSV[50]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,76,81,86,92,98,105,112,120,129,138,148};
static const vector<vector<int> > TT={{},{0},{0,0},{1},{0,0,0},{0,1},{2},{3}};
static const int SZ[8]={1,2,3,3,4,4,4,4}; static const double GA[8]={1,2,3,6,4,8,12,24};
// known finding: z where the published table exceeds one
static bool known(int d,double z,double v){ v=fabs(v); return (d==63&&z>-1581.6171&&z<-1581.58&&v<=1.1415)||((d==129||d==148)&&z>-8.9&&z<-7.9&&v<=(d==129?1.0061:1.008)); }
#ifdef LIN
struct Op{ vector<double> lam; double r; int N; int size()const{return N;} double rho()const{return r;}
  void operator()(double*in,double*s,double a,double b,double*o){ for(int i=0;i<N;i++) o[i]=lam[i]*a*in[i]+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double*g,double*o){ for(int i=0;i<N;i++) o[i]=a*(lam[i]*in[i]+g[i])+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*o){ for(int i=0;i<N;i++) o[i]=lam[i]*a*in[i]+b*in[i]+c*s[i]; }
  void operator()(double*in,double*s,double a,double b,double c,double*g,double*o){ for(int i=0;i<N;i++) o[i]=a*(lam[i]*in[i]+g[i])+b*in[i]+c*s[i]; } };
#else
struct Op{ vector<double> lam; double r; int N; bool tree; int size()const{return N;} double rho()const{return r;}
  void operator()(double*in,double*o){ if(tree) for(int i=0;i<N;i++){ double p=1; for(int c:TT[i]) p*=in[c]; o[i]=p; } else for(int i=0;i<N;i++) o[i]=lam[i]*in[i]; } };
#endif
static double* mk(int n){ return allocDoubleArray(n); }
// table entries as the solver sees them
static double R(int d,double z,int row){ Rock4Coeffs C; int mr=1; for(int i=0;i<row-1;i++) mr+=2*MSV[i]-1; long double p=1,c=1+(long double)C.recf(mr)*z; for(int j=2;j<=d;j++){ long double mu=C.recf(mr+2*(j-2)+1),nu=-(long double)C.recf(mr+2*(j-2)+2); long double n=mu*z*c+(1-nu)*c+nu*p; p=c;c=n; }
  long double k1=z*c,k2=z*(c+C.fpa(row,1)*k1),k3=z*(c+C.fpa(row,2)*k1+C.fpa(row,3)*k2),k4=z*(c+C.fpa(row,4)*k1+C.fpa(row,5)*k2+C.fpa(row,6)*k3); return c+C.fpb(row,1)*k1+C.fpb(row,2)*k2+C.fpb(row,3)*k3+C.fpb(row,4)*k4; }
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int N=th?60000:4001;
  Rock4Coeffs C;
  for(int row=1;row<=50;row++){ int d=MSV[row-1],s=d+4; double L=0.353*s*s-3;
    CASE(S("degree ",d)); ++nnontriv;
    if(C.ms(row)!=d){ FAIL("ms",S("table degree ",row," is ",C.ms(row))); continue; }
    for(int i=0;i<=N;i++){ double z=i<N*3/4?-L*(i/(N*0.75)):-L*pow(10.,-4.*(i-N*3/4)/(N*0.25)); double r=R(d,z,row); if(!(fabs(r)<=1+1e-12)&&!known(d,z,r)) { FAIL("table-stability",S("degree ",d,": stability polynomial is ",r," at z=",z)); break; } }
    if(d==63||d==129||d==148){ double a=d==63?-1581.617:-8.9,b=d==63?-1581.58:-7.9,mx=0,za=0; for(int i=0;i<=2000;i++){ double z=a+(b-a)*i/2000; double r=fabs(R(d,z,row)); if(r>mx){mx=r;za=z;} } if(mx>1&&known(d,za,mx)) printf("FAIL known-stability:%d | max |R|=%.6g at z=%.8g\n",d,mx,za); }
    // the solver's own step
    double h=1; double rho=0.999*L;
    vector<double> lam; int K=th?4000:600; for(int i=0;i<K;i++) lam.push_back(-rho*(i<K/2?i/(K/2.-1):pow(10.,-4.*(i-K/2)/(K/2.))));
    Op F; F.lam=lam; F.r=rho; F.N=K;
    double*y=mk(K); for(int i=0;i<K;i++) y[i]=1;
#ifdef LIN
    { Rock4L<Op> I(F); I(y,0.,h,h); if(I.NbStages()!=s) FAIL("degree",S("stages used ",I.NbStages()," expected ",s)); }
#else
    F.tree=false; { Rock4<Op> I(F); I.setTolerances(1e30,0.); I(y,0.,h,h); if(I.NbSteps()!=1) FAIL("steps",S("one step expected, ",I.NbSteps()," degree ",d)); }
#endif
    for(int i=0;i<K;i++){ double e=R(d,lam[i],row); if(!(fabs(y[i])<=1+1e-9)&&!known(d,lam[i],y[i])){ FAIL("step-stability",S("degree ",d,": a step amplifies the mode ",lam[i]," by ",y[i])); break; } if(!(fabs(y[i]-e)<=1e-6*(1+fabs(e)))){ FAIL("step-polynomial",S("degree ",d,": a step multiplies the mode ",lam[i]," by ",y[i]," instead of ",e)); break; }
      if(lam[i]>-1e-2&&!(fabs(y[i]-exp(lam[i]))<=1e-11)) { FAIL("order-linear",S("degree ",d,": mode ",lam[i]," multiplied by ",y[i]," exact ",exp(lam[i]))); break; } }
    destroyDoubleArray(y);
#ifndef LIN
    for(int em=0;em<2;em++){ int n=em?4:8; Op G; G.N=n; G.tree=true; double hh=g.u(0.3,2); G.r=rho/hh; double*y=mk(n); for(int i=0;i<n;i++) y[i]=0; Rock4<Op> I(G); I.setTolerances(em?1e-10:1e30,0.); I(y,0.,hh,hh);
      if(I.NbRejected()!=0||I.NbSteps()!=1) FAIL(em?"embedded-order":"steps",S("degree ",d," h=",hh,": step with an error that must vanish was rejected ",I.NbRejected()," times"));
      else for(int i=0;i<n;i++){ double e=pow(hh,SZ[i])/GA[i]; if(!(fabs(y[i]-e)<=1e-12*(1+fabs(e)))) FAIL("order",S("degree ",d,": rooted tree ",i," of order ",SZ[i]," gives ",y[i]," exact ",e," h=",hh)); }
      destroyDoubleArray(y); }
#endif
  }
  return finish();
}
