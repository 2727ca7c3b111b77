// shared by the Rock4 replay drivers: logged right-hand side and the step's oracle
#pragma once
#include "common.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
using namespace odes;
static const int MSV[50]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,26,28,30,32,34,36,38,41,44,47,50,53,56,59,63,67,71,76,81,86,92,98,105,112,120,129,138,148};
typedef vector<double> V;
struct Call{ V in,out; };
static vector<Call> LOG; static vector<size_t> RHOAT; // number of F calls before each rho call
static double RHO=1; static function<double()> rhofun; static function<void(double*,int)> fhook;
struct Pb{ int N; unsigned fs; double amp,lin; bool keep;
  int size()const{return N;}
  double rho()const{ RHOAT.push_back(LOG.size()); return rhofun?rhofun():RHO; }
  void operator()(double*y,double*f){ Call c; if(keep) c.in.assign(y,y+N);
    for(int i=0;i<N;i++) f[i]=lin*(1+(i%7)*0.13)*y[i]+amp*sin(1.7*y[(i+1+fs)%N]+0.3*i)+0.05*amp*y[i]*y[(i*3+fs)%N];
    if(fhook) fhook(f,N);
    if(keep){ c.out.assign(f,f+N); LOG.push_back(c);} else LOG.push_back(c); } };
struct Row{ int d,row; vector<double> rec; double fa[7],fb[5],fe[6]; };
static Row getrow(int row){ Rock4Coeffs C; Row r; r.row=row; r.d=MSV[row-1]; int mr=1; for(int i=0;i<row-1;i++) mr+=2*MSV[i]-1; for(int k=0;k<2*r.d-1;k++) r.rec.push_back(C.recf(mr+k)); for(int j=1;j<=6;j++) r.fa[j]=C.fpa(row,j); for(int j=1;j<=4;j++) r.fb[j]=C.fpb(row,j); for(int j=1;j<=5;j++) r.fe[j]=C.fpbe(row,j); return r; }
// combination of vectors with the magnitude of its terms
struct Lc{ V v,m; Lc(int n):v(n,0.),m(n,0.){} void a(double c,const V&x){ for(size_t i=0;i<v.size();i++){ v[i]+=c*x[i]; m[i]+=fabs(c*x[i]); } } };
// relative rounding noise of the last error estimate
static double NOISE=0;
// checks one step whose evaluations are LOG[b..b+d+3]; y,fn: state before; returns error estimate, or -1 after FAIL
static double stepcheck(const Row&r,const V&y,const V&fn,double h,size_t b,double atol,double rtol,const string&cs,const char*tag,double tol=1e-12){
  int n=y.size(),d=r.d; if(LOG.size()<b+d+4){ FAIL(S(tag,"-calls"),S("a step of degree ",d," made ",LOG.size()-b," evaluations instead of ",d+4," ",cs)); return -1; }
  auto in=[&](int j)->const V&{ return LOG[b+j].in; }; auto out=[&](int j)->const V&{ return LOG[b+j].out; };
  for(int j=0;j<d+4;j++){ Lc w(n); string nm;
    if(j==0){ w.a(1,y); w.a(h*r.rec[0],fn); nm="recurrence stage 1"; }
    else if(j<d){ double mu=r.rec[2*(j-1)+1],nu=-r.rec[2*(j-1)+2]; w.a(h*mu,out(j-1)); w.a(1-nu,in(j-1)); w.a(nu,j==1?y:in(j-2)); nm=S("recurrence stage ",j+1); }
    else { int q=j-d; // finishing: k1=out(d-1)...
      w.a(1,in(d-1)); if(q==0){ w.a(h*r.fa[1],out(d-1)); } if(q==1){ w.a(h*r.fa[2],out(d-1)); w.a(h*r.fa[3],out(d)); } if(q==2){ w.a(h*r.fa[4],out(d-1)); w.a(h*r.fa[5],out(d)); w.a(h*r.fa[6],out(d+1)); } if(q==3){ for(int k=0;k<4;k++) w.a(h*r.fb[k+1],out(d-1+k)); } nm=q<3?S("finishing stage ",q+2):string("new solution"); }
    for(int i=0;i<n;i++) if(!(fabs(w.v[i]-in(j)[i])<=tol*w.m[i]+1e-300)){ FAIL(S(tag,"-stage"),S(nm," component ",i," is ",in(j)[i]," expected ",w.v[i]," degree ",d," h=",h," ",cs)); return -1; } }
  long double e=0,nz=0; const V&yn=in(d+3); for(int i=0;i<n;i++){ long double s=0,m=0; for(int k=0;k<4;k++){ s+=h*((long double)r.fe[k+1]-r.fb[k+1])*out(d-1+k)[i]; m+=fabsl(h*(fabsl(r.fe[k+1])+fabsl(r.fb[k+1]))*out(d-1+k)[i]); } s+=h*(long double)r.fe[5]*out(d+3)[i]; m+=fabsl(h*(long double)r.fe[5]*out(d+3)[i]); long double w=atol+rtol*fabsl(yn[i]); e+=s/w*s/w; nz+=m/w*m/w; }
  NOISE=e>0?1e-14*(double)sqrtl(nz/e):0;
  return sqrtl(e/n);
}
// step observed in the first recurrence stage (0 if it cannot be told), and its relative precision
static double hobs(const Row&r,const V&y,const V&fn,size_t b,double&prec){ double num=0,den=0,ny=0; for(size_t i=0;i<y.size();i++){ double a=r.rec[0]*fn[i]; num+=a*(LOG[b].in[i]-y[i]); den+=a*a; ny+=y[i]*y[i]; } if(!(den>0)) { prec=1; return 0; } double h=num/den; prec=4e-16*(sqrt(ny/den)/fabs(h)+1); return h; }
// row the selection must give for step h and spectral radius rho (h is cut when the table ends)
static int selectrow(double&h,double rho){ int m=(int)(sqrt((3.+h*rho)/0.353)+1); if(m>152){ h=0.8*(152.*152.*0.353-3.)/rho; m=152; } m=max(m,5)-4; int row=1; while(MSV[row-1]<m) ++row; return row; }
