// replay driver for C29: order of the Rodas methods observed by integrating, in
// one step, triangular polynomial systems with one component per rooted tree
#include "common.hpp"
#include "Rodascc.hpp"
using namespace odes;
typedef vector<int> Tree; // indices of the children in the table
static const int NT=8;
static const vector<Tree> TT={{},{0},{0,0},{1},{0,0,0},{0,1},{2},{3}};
static const int SZ[NT]={1,2,3,3,4,4,4,4}; static const double GA[NT]={1,2,3,6,4,8,12,24};
// mode 0: autonomous; 1: every leaf child is replaced by the time
template<int METH,bool AUT,bool DFT> struct Pb{
  static const int n=NT,nsub=NT-1,nsup=NT-1; static const bool Hessenberg=false,ComputeJacobianNumerically=false; static const int method=METH; static const bool autonomous=AUT,use_DF_t=DFT;
  static double val(int i,int c,double t,const double*y){ return (!AUT&&c==0)?t:y[c]; }
  void operator()(double t,double y[],double f[]) const { for(int i=0;i<NT;i++){ double p=1; for(int c:TT[i]) p*=val(i,c,t,y); f[i]=p; } }
  void Jacobian(double t,fortranVector Y,fortranVector,fortranArray<NT>&J) const {
    double y[NT]; for(int i=0;i<NT;i++) y[i]=Y(i+1);
    for(int i=0;i<NT;i++) for(int j=0;j<NT;j++){ double s=0; if(AUT||j!=0) for(size_t k=0;k<TT[i].size();k++) if(TT[i][k]==j){ double p=1; for(size_t l=0;l<TT[i].size();l++) if(l!=k) p*=val(i,TT[i][l],t,y); s+=p; } J(i+1,j+1)=s; } }
  void DF_t(double t,const fortranVectorF<NT>& Y,fortranVectorF<NT>&R) const {
    double y[NT]; fortranVectorF<NT>&Z=const_cast<fortranVectorF<NT>&>(Y); for(int i=0;i<NT;i++) y[i]=Z(i+1);
    for(int i=0;i<NT;i++){ double s=0; for(size_t k=0;k<TT[i].size();k++) if(TT[i][k]==0){ double p=1; for(size_t l=0;l<TT[i].size();l++) if(l!=k) p*=val(i,TT[i][l],t,y); s+=p; } R(i+1)=s; } }
};
template<int METH,bool AUT,bool DFT> void one(double h){
  typedef Pb<METH,AUT,DFT> P; string cs=S("method=",METH," autonomous=",AUT," analytic-DF_t=",DFT," h=",h); CASE(cs); ++nnontriv;
  double tol=(AUT||DFT)?1e-12:2e-6;
  { double at[1]={1e30},rt[1]={0}; Rodascc<P> I(true,at,rt); I.performOnlyOneStep(true); double x=0,y[NT]={0}; I(h,x,100*h,y);
    if(x!=h){ FAIL("step",S("time after one step of ",h," is ",x," ",cs)); return; }
    for(int i=0;i<NT;i++){ double e=pow(h,SZ[i])/GA[i]; if(!(fabs(y[i]-e)<=tol*(1+fabs(e))*30*max(1.,pow(fabs(h),4.)))) FAIL("order",S("rooted tree ",i," of order ",SZ[i],": one step gives ",y[i]," exact ",e," ",cs)); } }
  { double at[NT],rt[NT]; for(int i=0;i<NT;i++){ at[i]=SZ[i]<=3?1e-10*max(1.,pow(fabs(h),3.)):1e30; rt[i]=0; if(!(AUT||DFT)) at[i]*=1e5; } Rodascc<P> I(false,at,rt); I.performOnlyOneStep(true); double x=0,y[NT]={0}; I(h,x,100*h,y);
    if(x!=h) FAIL("embedded",S("the embedded solution is not exact up to order 3: a step of ",h," that must have no error there was reduced to ",x," ",cs)); }
}
template<int METH> void meth(Rng&g,int rep){ for(int r=0;r<rep;r++){ double h=r==0?1:g.u(0.2,3)*(g.i(0,1)?1:-1); one<METH,true,false>(h); one<METH,false,true>(h); one<METH,false,false>(h); } }
int main(int c,char**v){
  Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?200:12;
  meth<1>(g,rep); meth<2>(g,rep); meth<3>(g,rep);
  { CASE("unknown method 9"); bool ok=false; try{ double at[1]={1},rt[1]={1}; Rodascc<Pb<9,true,false> > I(true,at,rt); }catch(OdesException&){ ok=true; }catch(...){ } if(!ok) FAIL("method-9","no OdesException for an unknown method"); }
  { CASE("unknown method 4"); bool ok=false; try{ double at[1]={1},rt[1]={1}; Rodascc<Pb<4,true,false> > I(true,at,rt); }catch(OdesException&){ ok=true; }catch(...){ } if(!ok) FAIL("method-4","no OdesException for an unknown method"); }
  return finish();
}
