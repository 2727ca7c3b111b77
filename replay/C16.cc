// replay driver for C16: Rock4L integrations against the oracle of the steps
#include "rl.hpp"
template<bool Aff> static void one(Rng&g,int k){
  int n=g.i(1,6); double t0=g.i(0,1)?0:g.u(-5,5),h=pow(10.,g.u(-2,0.3)); int ns=g.i(0,7); double frac=g.i(0,4)==0?0:g.i(0,2)==0?g.u(0,0.02):g.i(0,2)==0?g.u(0.97,1):g.u(0,1); double te=t0+h*(ns+frac); if(k%11==0) te=t0+h*ns*(1+1e-15); if(k%29==0) te=t0; 
  RHO=pow(10.,g.u(-2,4.3))/h; if(k%5==0){ int s=g.i(5,160); RHO=(0.353*pow(s-0.5,2)-3)/h; } if(RHO<0) RHO=0; Op o=mkop(g,n,min(RHO,g.u(0.1,3)/h)); bool used=k%3==0,bad=k%13==0;
  string cs=S(Aff?"affine":"linear"," n=",n," t0=",t0," tend=",te," h=",h," rho=",RHO," used=",used," frac=",frac); CASE(cs);
  V y0(n),b0(n); for(auto&x:y0) x=g.u(-1,1); for(auto&x:b0) x=g.u(-1,1);
  double*y=allocDoubleArray(n),*b=allocDoubleArray(n); auto reset=[&](){ for(int i=0;i<n;i++){ y[i]=y0[i]; b[i]=b0[i]; } }; reset();
  BP=Aff?b:nullptr; BADCALL=""; STOPAT=-1; bool ok=true; int nr=0,st=0,nst=0; double tt=0;
  { Rock4L<Op,Aff> I(o); if(used){ double R=RHO; RHO=1; try{ if(Aff) I(y,b,0.,1.,0.3); else I(y,0.,1.,0.3);}catch(OdesException&){ FAIL("exception",S("exception in an easy integration ",cs)); } RHO=R; reset(); }
    if(bad){ bool th=false; NCALL=0; try{ if(!Aff) I(y,b,t0,te,h); else I(y,t0,te,h);}catch(OdesException&){ th=true; } for(int i=0;i<n;i++) if(y[i]!=y0[i]) th=false; if(!th||NCALL) FAIL("mode",S("the overload of the other mode did not raise the exception at once ",cs)); reset(); }
    NCALL=0; NRHO=0; try{ if(Aff) I(y,b,t0,te,h); else I(y,t0,te,h); }catch(OdesException&){ ok=false; } nr=I.NbRhsComputed(); st=I.NbStages(); nst=I.NbSteps(); tt=I.Time(); }
  // oracle
  V w=y0; double t=t0; int s=0,sm=0; long calls=0; bool over=false,skip=false; double sc=0,am=1;
  while(t<te){ double rem=te-t; if(fabs(1.01*h/rem-1)<1e-9) skip=true; double d=1.01*h>=rem?rem:h; if(d<1e-15||(d<rem&&d<=1e-15*fabs(t))){ over=true; break; } double mm=sqrt((3.+d*RHO)/0.353)+1; if(fabs(mm-floor(mm+0.5))<1e-9) skip=true; int m; int r=rowof(d,RHO,m); if(m>152){ over=true; break; } am=max(am,ampl(r,0)); w=step(o,r,w,Aff?&b0:nullptr,d,sc); calls+=MSV[r-1]+4; sm=max(sm,MSV[r-1]+4); ++s; t= d==rem?te:t+d; }
  if(!skip){ ++nnontriv;
    if(ok==over) FAIL("guard",S(over?"no exception although more stages than tabulated are needed ":"exception although every step is admissible ",cs));
    else { for(int i=0;i<n;i++) if(!(fabs(y[i]-w[i])<=1e-13*(s+1)*am*sc+1e-300)){ FAIL("solution",S("component ",i," is ",y[i]," expected ",w[i]," after ",s," steps ",cs)); break; }
      if(nst!=s||nr!=calls||NCALL!=calls||st!=sm) FAIL("counters",S("steps ",nst,"/",s," calls ",nr,"/",NCALL,"/",calls," stages ",st,"/",sm," ",cs));
      if(tt!=t&&!(over&&fabs(tt-t)<=1e-14*(fabs(t)+fabs(te)))) FAIL("time",S("time reported ",tt," expected ",t," ",cs)); if(NRHO!=1) FAIL("rho",S("spectral radius asked ",NRHO," times ",cs)); } }
  for(int i=0;i<n;i++) if(b[i]!=b0[i]){ FAIL("b-modified",S("b changed ",cs)); break; } if(BADCALL!="") FAIL("aliasing",S(BADCALL," ",cs));
  destroyDoubleArray(y); destroyDoubleArray(b); }
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?20000:800;
#ifdef COUNTERS
  ONLY="counters";
#endif
  for(int k=0;k<rep;k++){ one<false>(g,k); one<true>(g,k); }
  return finish(); }
