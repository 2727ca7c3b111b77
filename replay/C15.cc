// replay driver for C15: single Rock4L steps with dense operators
#include "rl.hpp"
template<bool Aff> static void one(Rng&g,int row,int n){
  int s=MSV[row-1]+4; double need=0.353*s*s-3,lo=row==1?0:0.353*pow(MSV[row-2]+4.,2)-3,hr=lo+(need-lo)*g.u(0.05,0.95),h=pow(10.,g.u(-3,0.5)); RHO=hr/h; double rad=RHO*(g.i(0,1)?0.95:pow(10.,g.u(-3,0))); Op o=mkop(g,n,rad); double am=ampl(row,h*rad); 
  string cs=S(Aff?"affine":"linear"," n=",n," degree=",MSV[row-1]," h=",h," rho=",RHO); CASE(cs);
  V y0(n),b0(n); for(auto&x:y0) x=g.u(-1,1); for(auto&x:b0) x=g.u(-1,1)*RHO;
  double*y=allocDoubleArray(n),*b=allocDoubleArray(n); for(int i=0;i<n;i++){ y[i]=y0[i]; b[i]=b0[i]; }
  BP=Aff?b:nullptr; BADCALL=""; NCALL=0; STOPAT=-1; bool ok=true; int nr=0,st=0;
  { Rock4L<Op,Aff> I(o); try{ if(Aff) I(y,b,0.,h,h); else I(y,0.,h,h); }catch(OdesException&){ ok=false; } nr=I.NbRhsComputed(); st=I.NbStages(); }
  ++nnontriv;
  if(!ok) FAIL("exception",S("a step raised an exception ",cs));
  else { double sc=0; V w=step(o,row,y0,Aff?&b0:nullptr,h,sc); for(int i=0;i<n;i++) if(!(fabs(y[i]-w[i])<=1e-15*am*sc+1e-300)){ FAIL(Aff?"affine-step":"linear-step",S("component ",i," is ",y[i]," expected ",w[i]," (allowed error ",1e-15*am*sc,") ",cs)); break; }
    for(int i=0;i<n;i++) if(b[i]!=b0[i]){ FAIL("b-modified",S("b changed ",cs)); break; }
    if(BADCALL!="") FAIL("aliasing",S(BADCALL," ",cs)); if(nr!=NCALL||NCALL!=s) FAIL("calls",S(NCALL," operator calls, counted ",nr,", expected ",s," ",cs)); if(st!=s) FAIL("stages",S("stages reported ",st," expected ",s," ",cs)); }
  destroyDoubleArray(y); destroyDoubleArray(b); }
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?40:2;
  for(int row=1;row<=50;row++) for(int k=0;k<rep;k++){ int n=k==0?1+row%11:g.i(1,24); one<false>(g,row,n); one<true>(g,row,n); }
  return finish(); }
