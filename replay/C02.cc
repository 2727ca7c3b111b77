// replay driver for C02: the matrix containers against the LAPACK layout formulas
#include "common.hpp"
#include <memory>
#include <set>
using namespace std;
#include "protos_lapack.hpp"
#include "Matrices.hpp"
using namespace odes;
template<class M> struct Raw{ double* p; Raw(M& m):p(&m){} };
template<int n> void full(Rng& g){
  typedef fortranArray<n> MR; typedef fortranComplexArray<n> MC;
  MR A,B; MC C; double *a=&A,*b=&B,*c=&C;
  CASE(S("full n=",n)); if(n>1) ++nnontriv;
  for(int k=0;k<n*n;k++){ a[k]=-1000-k; b[k]=g.u(-2,2);} for(int k=0;k<2*n*n;k++) c[k]=-5000-k;
  vector<double> ra(a,a+n*n), rc(c,c+2*n*n);
  for(int i=1;i<=n;i++) for(int j=1;j<=n;j++){
    const MR& AC=A; int o=(j-1)*n+i-1;
    if(AC(i,j)!=ra[o]) FAIL("full:read",S("n=",n," const A(",i,",",j,")"));
    double v=g.u(-1,1); A(i,j)=v; ra[o]=v;
    for(int k=0;k<n*n;k++) if(a[k]!=ra[k]){ FAIL("full:write",S("n=",n," A(",i,",",j,")=v changes/does not set cell ",k)); break; }
    double x=g.u(-1,1),y=g.u(-1,1); C.set(i,j,x,y); rc[2*o]=x; rc[2*o+1]=y;
    for(int k=0;k<2*n*n;k++) if(c[k]!=rc[k]){ FAIL("fullc:set",S("n=",n," set(",i,",",j,") cell ",k)); break; }
    if(C.Re(i,j)!=x||C.Im(i,j)!=y) FAIL("fullc:get",S("n=",n," Re/Im(",i,",",j,")"));
    C.Re(i,j)+=1; C.Im(i,j)=7; rc[2*o]+=1; rc[2*o+1]=7;
    for(int k=0;k<2*n*n;k++) if(c[k]!=rc[k]){ FAIL("fullc:ref",S("n=",n," Re/Im ref (",i,",",j,") cell ",k)); break; }
    C.set(i,j,x); rc[2*o]=x; rc[2*o+1]=0; if(c[2*o]!=x||c[2*o+1]!=0) FAIL("fullc:set1",S("n=",n," set(i,j,re) with default imaginary part"));
  }
  A.equal_minus(B); for(int k=0;k<n*n;k++) if(a[k]!=-b[k]){ FAIL("full:neg",S("n=",n," cell ",k)); break; }
  vector<double> rb(b,b+n*n); double v=g.u(-3,3); B.addDiag(v);
  for(int i=1;i<=n;i++) for(int j=1;j<=n;j++){ int o=(j-1)*n+i-1; double w=i==j?rb[o]+v:rb[o]; if(b[o]!=w){ FAIL("full:shift",S("n=",n," entry ",i,",",j," got ",b[o]," want ",w)); break; } }
}
template<int n,int kl,int ku> void band(Rng& g){
  typedef fortranRectangularArray<n,kl,ku> MR; typedef fortranRectangularComplexArray<n,kl,ku> MC;
  const int ld=2*kl+ku+1, sz=ld*n;
  MR A,B; MC C; double *a=&A,*b=&B,*c=&C;
  CASE(S("banded n=",n," kl=",kl," ku=",ku)); ++nnontriv;
  for(int k=0;k<sz;k++){ a[k]=-1000-k; b[k]=g.u(-2,2);} for(int k=0;k<2*sz;k++) c[k]=-5000-k;
  vector<double> ra(a,a+sz), rc(c,c+2*sz); set<double*> seen;
  for(int i=1;i<=n;i++) for(int j=max(1,i-kl);j<=min(n,i+ku);j++){
    const MR& AC=A; int o=(j-1)*ld+kl+ku+i-j;
    if(!seen.insert(addressof(A(i,j))).second) FAIL("band:inject",S("two entries share a cell ",i,",",j));
    if(AC(i,j)!=ra[o]) FAIL("band:read",S("n=",n," kl=",kl," ku=",ku," A(",i,",",j,")"));
    double v=g.u(-1,1); A(i,j)=v; ra[o]=v;
    for(int k=0;k<sz;k++) if(a[k]!=ra[k]){ FAIL("band:write",S("n=",n," kl=",kl," ku=",ku," A(",i,",",j,")=v cell ",k)); break; }
    double x=g.u(-1,1),y=g.u(-1,1); C.set(i,j,x,y); rc[2*o]=x; rc[2*o+1]=y;
    for(int k=0;k<2*sz;k++) if(c[k]!=rc[k]){ FAIL("bandc:set",S("n=",n," kl=",kl," ku=",ku," set(",i,",",j,") cell ",k)); break; }
    if(C.Re(i,j)!=x||C.Im(i,j)!=y) FAIL("bandc:get",S("n=",n," Re/Im(",i,",",j,")"));
    C.Re(i,j)+=1; C.Im(i,j)=7; rc[2*o]+=1; rc[2*o+1]=7;
    for(int k=0;k<2*sz;k++) if(c[k]!=rc[k]){ FAIL("bandc:ref",S("n=",n," Re/Im ref (",i,",",j,") cell ",k)); break; }
  }
  A.equal_minus(B);
  for(int i=1;i<=n;i++) for(int j=max(1,i-kl);j<=min(n,i+ku);j++) if(A(i,j)!=-B(i,j)){ FAIL("band:neg",S("n=",n," kl=",kl," ku=",ku," entry ",i,",",j)); break; }
  vector<double> rb(b,b+sz); double v=g.u(-3,3); B.addDiag(v);
  for(int i=1;i<=n;i++) for(int j=max(1,i-kl);j<=min(n,i+ku);j++){ int o=(j-1)*ld+kl+ku+i-j; double w=i==j?rb[o]+v:rb[o]; if(b[o]!=w){ FAIL("band:shift",S("n=",n," kl=",kl," ku=",ku," entry ",i,",",j," got ",b[o]," want ",w)); break; } }
}
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); int rep=(c>2&&!strcmp(v[2],"thorough"))?20:2;
  for(int r=0;r<rep;r++){
    full<1>(g); full<2>(g); full<3>(g); full<4>(g); full<7>(g); full<16>(g); full<17>(g);
    band<2,0,0>(g); band<3,1,0>(g); band<3,0,1>(g); band<3,1,1>(g); band<4,2,1>(g); band<4,1,2>(g); band<5,3,1>(g); band<5,1,3>(g); band<6,2,2>(g); band<9,4,1>(g); band<9,0,5>(g); band<12,5,0>(g); band<17,3,2>(g); band<7,5,5>(g);
  }
  return finish();
}
