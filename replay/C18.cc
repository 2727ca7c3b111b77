// replay driver for C18: order conditions of the compiled tableaux
#include "common.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "CrN.hpp"
#include "EulerImp.hpp"
using namespace odes;
typedef long double R;
template<class T> void one(const char*who,int order){
  T t; const int n=T::nstage; R A[n][n],b[n],c[n],S=1; CASE(who); ++nnontriv;
  for(int i=0;i<n;i++){ c[i]=0; for(int j=0;j<n;j++){ A[i][j]=j<=i?t.A[i][j]:0; c[i]+=A[i][j]; S+=fabsl(A[i][j]); } }
  for(int i=0;i<n;i++){ b[i]=0; for(int j=i;j<n;j++) b[i]+=(R)t.D[j]*t.A[j][i]; }
  for(int i=0;i<n;i++){ if(t.A[i][i]!=t.A[0][0]||t.A[i][i]==0) FAIL("diagonal",::S(who)); if(!(fabsl(c[i]-t.S[i])<=1e-13)) FAIL("rowsum",::S(who," row ",i," sum ",(double)c[i]," S ",t.S[i])); }
  auto chk=[&](const char*nm,int p,R v,R w){ if(p<=order&&!(fabsl(v-w)<=1e-12*S)) FAIL("order",::S(who," condition ",nm," value ",(double)v," expected ",(double)w)); };
  R s1=0,s2=0,s3=0,s4=0,a1=0,a2=0,a3=0,a4=0;
  for(int i=0;i<n;i++){ R ac=0,acc=0,aac=0; for(int j=0;j<n;j++){ ac+=A[i][j]*c[j]; acc+=A[i][j]*c[j]*c[j]; for(int k=0;k<n;k++) aac+=A[i][j]*A[j][k]*c[k]; }
    s1+=b[i]; s2+=b[i]*c[i]; s3+=b[i]*c[i]*c[i]; s4+=b[i]*c[i]*c[i]*c[i]; a1+=b[i]*ac; a2+=b[i]*c[i]*ac; a3+=b[i]*acc; a4+=b[i]*aac; }
  chk("1",1,s1,1); chk("c",2,s2,.5L); chk("cc",3,s3,1/3.L); chk("Ac",3,a1,1/6.L); chk("ccc",4,s4,.25L); chk("cAc",4,a2,.125L); chk("Acc",4,a3,1/12.L); chk("AAc",4,a4,1/24.L);
}
int main(){ one<RKMethod1>("RKMethod1",4); one<RKMethod2>("RKMethod2",4); one<RKRS>("RKRS",2); one<CrN>("CrN",2); one<EulerImp>("EulerImp",1); return finish(); }
