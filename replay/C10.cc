// replay driver for C10: every stage of real Rodas integrations against an independent implementation
#include "rodas.hpp"
template<class P> void one(Rng&g,int rep,const char*nm){ const int n=P::n; for(int k=0;k<rep;k++){ random_problem<P>(g); vector<double> at(n),rt(n); bool same=g.i(0,1); double a=pow(10.,g.u(-6,-2)),b=pow(10.,g.u(-6,-2)); for(int i=0;i<n;i++){ at[i]=same?a:pow(10.,g.u(-6,-2)); rt[i]=same?b:pow(10.,g.u(-6,-2)); }
    double x0=g.i(0,2)?g.u(-2,2):0,len=g.u(.05,1.5)*(g.i(0,3)?1:-1); if(len<0) for(auto&z:PR.A) z=-z; double h0=fabs(len)*pow(10.,g.u(-4,.3)); double y[P::n]; for(int i=0;i<n;i++) y[i]=g.u(-1,1);
    CASE(S(nm," method ",P::method," n=",n," case ",k," seed-state, x0=",x0," xend=",x0+len," h0=",h0)); Rodascc<P> I(same,&at[0],&rt[0]); Opt o; double x=x0; int e=same?1:n; (void)e; Res r=drive(I,h0,x,x0+len,y,at,rt,o); if(r.nstep>1) ++nnontriv;
    for(int rpt=0;rpt<2&&!r.bad&&!r.threw;rpt++){ double x2=x+len*g.u(.1,.5); CASE(S(nm," method ",P::method," continued")); r=drive(I,fabs(len)*pow(10.,g.u(-3,0)),x,x2,y,at,rt,o); if(r.nrej) ++nnontriv; } } }
template<int M> void meth(Rng&g,int rep){
  one<RP<3,2,2,false,false,M,false,false> >(g,rep,"full"); one<RP<3,2,2,false,false,M,false,true> >(g,rep,"full, user time derivative"); one<RP<4,3,3,false,false,M,true,false> >(g,rep,"full, autonomous");
  one<RP<4,3,3,true,false,M,false,false> >(g,rep,"Hessenberg"); one<RP<3,2,2,false,true,M,false,false> >(g,rep,"full, numerical"); one<RP<5,1,2,false,false,M,false,false> >(g,rep,"banded"); one<RP<6,2,1,false,true,M,true,false> >(g,rep,"banded, numerical, autonomous"); one<RP<4,3,3,true,true,M,true,false> >(g,rep,"Hessenberg, numerical, autonomous"); one<RP<2,1,1,false,false,M,true,true> >(g,rep,"n=2, autonomous with DF_t"); }
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); CONTROL=false; int rep=th?300:12; meth<1>(g,rep); meth<2>(g,rep); meth<3>(g,rep); return finish(); }
