// shared by the replay drivers: deterministic random numbers, reporting
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <functional>
#include <limits>
using namespace std;
struct Rng{
  unsigned long long s;
  Rng(unsigned long long x):s(x*2862933555777941757ULL+3037000493ULL){for(int i=0;i<4;i++)next();}
  unsigned long long next(){ s^=s<<13; s^=s>>7; s^=s<<17; return s; }
  double u(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double u(double a,double b){ return a+(b-a)*u(); }
  int i(int a,int b){ return a+(int)(next()%(unsigned long long)(b-a+1)); }
};
static int nfail=0; static long ncases=0, nnontriv=0;
static string curcase;
inline void CASE(const string& s){ ++ncases; curcase=s; if(ncases<=4000){ printf("CASE %s\n",s.c_str()); fflush(stdout);} }
static string ONLY; // when set: only failures whose key begins so are reported
inline void FAIL(const string& key,const string& what){ if(!ONLY.empty()&&key.compare(0,ONLY.size(),ONLY)) return; ++nfail; if(nfail<60){ printf("FAIL %s | %s\n",key.c_str(),what.c_str()); fflush(stdout);} }
inline int finish(){ printf("INFO cases=%ld nontrivial=%ld fails=%d\n",ncases,nnontriv,nfail); return 0; }
template<class...A> string S(A...a){ ostringstream o; o.precision(17); int d[]={0,((void)(o<<a),0)...}; (void)d; return o.str(); }
inline bool close(double a,double b,double rel=1e-11,double abs_=1e-300){
  if(!(std::isfinite(a)&&std::isfinite(b))) return a==b||(std::isnan(a)&&std::isnan(b));
  return fabs(a-b)<=abs_+rel*(fabs(a)+fabs(b));
}
