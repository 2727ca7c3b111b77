// replay driver for C25: Rodas counters recounted from the log of user calls
#include "rodas.hpp"
static long cut=0,runs=0,thr=0,rejs=0;
template<class P> void one(const char*who,Rng&g,int rep){ const int n=P::n;
  for(int q=0;q<rep;q++){ random_problem<P>(g); double am=g.i(0,3)?g.u(0,3):g.u(5,60); if(g.i(0,2)) for(auto&z:PR.q) z*=am;
    bool same=g.i(0,1); vector<double> at(n),rt(n); for(int i=0;i<n;i++){ at[i]=pow(10.,g.u(-8,-2)); rt[i]=pow(10.,g.u(-8,-2)); }
    Rodascc<P> I(same,&at[0],&rt[0]); bool ones=g.i(0,5)==0,gus=g.i(0,3)!=0; int nmax=g.i(0,6)?10000:g.i(0,20); I.performOnlyOneStep(ones); I.setGustafssonTest(gus); I.setNmax(nmax); if(g.i(0,3)==0) I.setSafe(g.u(.5,1)); Co C=coef(P::method);
    for(int rr=0;rr<3;rr++){ double y[P::n]; for(double&z:y) z=g.u(-2,2); double x=g.i(0,1)?0:g.u(-2,2),len=pow(10.,g.u(-2,1)); if(g.i(0,3)==0) len=-min(len,.5); double h=pow(10.,-g.u(0,6)); if(g.i(0,9)==0) h=10; double xe=x+len; if(g.i(0,30)==0) xe=x; if(g.i(0,30)==0) { x=1e3; h=1e-14; xe=x+1; }
      CASE(S(who," method ",P::method," n=",n," x=",x," end=",xe," h=",h," nmax=",nmax," one=",ones," gus=",gus)); LOG.clear(); double x0=x; bool threw=false; ++runs;
      try{ I(h,x,xe,y); }catch(OdesException&){ threw=true; ++thr; }catch(int){ ++cut; continue; }
      // recount
      size_t k=0; int base=0,att=0,rej=0,first=0; double fh=0; bool ok=true; int groups=0; double X=x0;
      while(k<LOG.size()&&ok){ auto B=LOG[k].t; bool nb=false;
        if(P::ComputeJacobianNumerically){ nb=k+n<LOG.size(); for(int j=1;nb&&j<=n;j++) if(LOG[k+j].k!='F'||LOG[k+j].t!=B) nb=false; } else nb=k+1<LOG.size()&&LOG[k+1].k=='J';
        if(nb){ if(base) rej+=base>1?groups-1:0; ++base; X=B; groups=0; k+=1+(P::ComputeJacobianNumerically?n:1); if(!P::autonomous) ++k; }
        if(!base||k+5>LOG.size()){ ok=false; break; }
        for(int j=0;j<5;j++) if(LOG[k+j].k!='F'||LOG[k+j].t!=LOG[k+j].t) ok=false; 
        if(base==1) fh=(LOG[k].t-X)/C.C2; ++groups; ++att; k+=5; }
      if(!ok){ ++cut; continue; } (void)first;
      bool limit=threw&&att>nmax; int acc=base; 
      if(limit){ // whether the last attempt was accepted is not visible in the calls
        int a=I.getNaccpt(); if(a!=base&&a!=base-1) FAIL("accepted",S("accepted ",a," expected ",base," or ",base-1," | ",curcase)); acc=a; if(base>1) rej+=groups-(a==base); }
      else if(base>1) rej+=groups-1;
      if(rej) ++rejs; if(acc>1) ++nnontriv;
      auto c=[&](const char*nm,long got,long want){ if(got!=want) FAIL(nm,S(nm," is ",got," but the integration had ",want," (",att," attempts, ",acc," accepted)",threw?" exception":""," | ",curcase)); };
      c("getNstep",I.getNstep(),att); c("getNaccpt",I.getNaccpt(),acc); c("getNrejct",I.getNrejct(),rej); c("getNJac",I.getNJac(),base); c("getNdec",I.getNdec(),att);
      if(acc&&!(limit&&base==1)&&!(fabs(I.getfirstAcceptedStep()-fh)<=1e-6*fabs(fh)+1e-13*(fabs(x0)+1))) FAIL("getfirstAcceptedStep",S("first accepted step ",I.getfirstAcceptedStep()," used ",fh," | ",curcase));
    } } }
template<int M> void meth(Rng&g,int rep){
  one<RP<3,2,2,false,false,M,false,false> >("full",g,rep); one<RP<3,2,2,false,false,M,false,true> >("full, user time derivative",g,rep); one<RP<4,3,3,false,false,M,true,false> >("full, autonomous",g,rep);
  one<RP<4,3,3,true,false,M,false,false> >("Hessenberg",g,rep); one<RP<3,2,2,false,true,M,false,false> >("full, numerical",g,rep); one<RP<5,1,2,false,false,M,false,false> >("banded",g,rep); one<RP<6,2,1,false,true,M,true,false> >("banded, numerical, autonomous",g,rep); one<RP<2,1,1,false,false,M,true,true> >("n=2, autonomous with DF_t",g,rep); }
int main(int c,char**v){ Rng g(c>1?atoi(v[1]):1); bool th=c>2&&!strcmp(v[2],"thorough"); int rep=th?400:40; meth<1>(g,rep); meth<2>(g,rep); meth<3>(g,rep);
  printf("INFO runs=%ld cut=%ld exceptions=%ld with-rejections=%ld\n",runs,cut,thr,rejs); return finish(); }
