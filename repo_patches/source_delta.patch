From 62473c1dc33db4d3742414968b67fc21ecde19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 01/33] fix: fortranVectorF::put copies into the caller's array

---
 common/include/fortranVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index b361a26..d3f1b95 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -407,10 +407,10 @@ public:
     inline void put(double _x[])
     {
       //std::copy(y,y+n,x);
-      ASSUME_ALIGNED(x);ASSUME_ALIGNED(_x);
+      ASSUME_ALIGNED(x);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
-	y[i]=x[i];
+	_x[i]=x[i];
     }
     //! print
     void print(string s="") const
-- 
2.43.0


From a81153a75b5828cc7590af7f58c9ec740ee3114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 02/33] fix: complex Hessenberg elimination with a purely
 imaginary pivot row entry

---
 common/include/Hessenberg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 377a6db..405a190 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -167,7 +167,7 @@ template<int n> int dechc(fortranArray<n>& Ar,fortranArray<n>& Ai,int ip[])
 		else if(tr==0.0)
 		  for(int i=kp1;i<=na;i++)
 		    {
-		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*tr;
+		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*ti;
 		      Ar(i,j)+=prodr;           Ai(i,j)+=prodi;
 		    }
 		else
-- 
2.43.0


From c0fd64084eab802d48d83720bebf88f85c2100f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 03/33] fix: Householder transformation of a system of order
 one

---
 common/include/Hessenberg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 405a190..0309933 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -255,6 +255,7 @@ template<int n> void householder(const fortranArray<n>& A,const double tau[],
 				 bool direct)
 {
   Y=X;
+  if(n<2) return;// no reflexion.
   int jbeg,jend,jinc;
   if(direct)
     {
-- 
2.43.0


From 3dc5b6f2f2d20a88363a35390b6456b4a7b90170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 04/33] fix: report a singular complex matrix in the Hessenberg
 case

---
 common/include/Matrices.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index e08dea0..25d5235 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -293,7 +293,10 @@ namespace odes
 	    }
 	  E2R(j,j)+=alpha; E2I(j,j)=beta;
 	}
-      dechc(E2R,E2I,ipi);
+      int info=dechc(E2R,E2I,ipi);
+      if(info!=0)
+	throw OdesException("odes::Matrices::Matrices, decomc (dechc): ",
+			       info);
     }
     inline void solvecomplex(fortranVectorF<n>& Zr,fortranVectorF<n>& Zi,
 			     const fortranArray<n>& Jac)
-- 
2.43.0


From 9de2fbf9a0b14cde664b4836899d27ad5d239b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 05/33] fix: release the Hessenberg work array the way it was
 allocated

---
 common/include/Matrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index 25d5235..ba05b37 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -250,9 +250,9 @@ namespace odes
 	  k=work[0];
 	  if(lwork<k)
 	    {
-	      if(work!=0) delete[] work;
+	      if(work!=0) destroyDoubleArray(work);
 	      lwork=k;
-	      work=new double[lwork];
+	      work=allocDoubleArray(lwork);
 	    }
 	  dgehrd_(&nn,&ilo,&ihi,&Jac,&lda,tau,work,&k,&info);
 	  if(info!=0)
-- 
2.43.0


From 38d14fa21c5d43c16300c6cc10ac998b8c4b206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 06/33] fix: parenthesise the argument of ABS

---
 Radau5-NG/include/Radau5cc.hpp        | 2 +-
 Rock4-L/include/rock4.hpp             | 2 +-
 Rock4-NG/include/ToolOMP.hpp          | 2 +-
 Rodas-NG/include/Rodascc.hpp          | 2 +-
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 common/include/Hessenberg.hpp         | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 22d5e0c..0c202ca 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -14,7 +14,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/Rock4-L/include/rock4.hpp b/Rock4-L/include/rock4.hpp
index 84a6a98..d5f64c8 100644
--- a/Rock4-L/include/rock4.hpp
+++ b/Rock4-L/include/rock4.hpp
@@ -6,7 +6,7 @@
 #include <utility>
 #include <math.h>
 #include "tbb/tbb.h"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define P2(x)  ((x*x))
 using namespace std;
 using namespace tbb;
diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 55dfd29..576689b 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -3,7 +3,7 @@
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
 #include "OdesException.hpp"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes {
   ///////////////////////////////////////////////////////////////////////////
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 13f62e4..e3780fc 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -13,7 +13,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index e3400ba..4929ba2 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -6,7 +6,7 @@
 #include "Extrap.hpp"
 #include <iostream>
 #define MAX(x,y) ((x)>(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes{
 ///////////////////////////////////////////////////////////////////////////
diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 0309933..65d9f6c 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -4,7 +4,7 @@
 #include "fortranVector.hpp"
 using namespace odes;
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 /////////////////////////////////////////////////////////////////////////////
 /// All what is necessary to compute with Hessenberg matrices (but not
 /// the reduction of a full matrix to Hessenberg form (see Matrices.hpp).
-- 
2.43.0


From c3eb5f688e2d85c2d7d32342008f4254f5635c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 07/33] fix: Rodas vector tolerances start at the first entry
 of the user's arrays

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index e3780fc..4a050e5 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -232,8 +232,8 @@ namespace odes
 #include "Ivdep.hpp"
 	  for(int i=1;i<=n;i++)
 	    {
-	      rtol(i)=_rtol[i];
-	      atol(i)=_atol[i];
+	      rtol(i)=_rtol[i-1];
+	      atol(i)=_atol[i-1];
 	    }
 	}
     }
-- 
2.43.0


From 23020239ccc4ef74435c82943b0d3652868661d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 08/33] fix: Rodas applies the step limit to repeatedly
 rejected steps too

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 4a050e5..1747e76 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -465,10 +465,10 @@ namespace odes
 		  h=hnew;
 		  if(naccpt>1) ++nrejct;
 		}
+	      if(nstep>nmax)
+		throw OdesException("Rodas(): nstep too large:",nstep);
 	    }
 	  while(reject);
-	  if(nstep>nmax)
-	    throw OdesException("Rodas(): nstep too large:",nstep);
 	  if(onlyOneStep) break;
 	}
       
-- 
2.43.0


From 0bef3571dc8508efc613d680fbe8e585bd778369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 09/33] fix: Rodas counts rejections as soon as one step has
 been accepted

---
 Rodas-NG/include/Rodascc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 1747e76..865dd95 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -463,7 +463,7 @@ namespace odes
 		  reject=true;
 		  last=false;
 		  h=hnew;
-		  if(naccpt>1) ++nrejct;
+		  if(naccpt>=1) ++nrejct;
 		}
 	      if(nstep>nmax)
 		throw OdesException("Rodas(): nstep too large:",nstep);
-- 
2.43.0


From 59c424ef2f08e24f2f05995e0fb3928aaf1cfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 10/33] fix: Radau5 restarts the Newton iteration after it did
 not converge

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0c202ca..054d019 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -545,6 +545,7 @@ namespace odes
 		    //h/=2.; 
 		    seth(x,h*0.5);
 		    hhfac=0.5;
+		    redonewton=true; reject=true; last=false;
 		    if(!caljac) 
 		      {
 			if(ComputeJacobianNumerically)
-- 
2.43.0


From 8856516737724cf4d0dcb2709ad23a362d60314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 11/33] fix: Radau5 applies the step limit inside the Newton
 retry loop

---
 Radau5-NG/include/Radau5cc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 054d019..9c173d6 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -497,10 +497,10 @@ namespace odes
       for(;;)
 	{
 	  
-	  if(nstep>nmax)
-	    throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
-				  nmax);
 	  do{//20 in Hairer.
+	    if(nstep>nmax)
+	      throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
+				  nmax);
 	    ++nstep;
 	    // starting values for newton iteration:
 	    xph=x+h;
-- 
2.43.0


From 0accc5030d06cd5f36751550b243747a021c2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 12/33] fix: Radau5 defines hopt when the first step is the
 last one

---
 Radau5-NG/include/Radau5cc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 9c173d6..f0535e0 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -476,7 +476,6 @@ namespace odes
 	  seth(x,xend-x);
 	  last=true;
 	}
-      else
       hopt=h;
       xold=x;
 
-- 
2.43.0


From e3435a112ca273773f880cac616d2d6515f2677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 13/33] fix: Radau5 keeps the step ratio limits given by
 setFacrFacl

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index f0535e0..af05231 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -456,7 +456,7 @@ namespace odes
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
       reject=false,last=false;
-      cfac=safe*(1+2*nit); facr=1.e+0/8.e+0; facl=5.e+0;
+      cfac=safe*(1+2*nit);
       int reason=0;
       nstep=0; ndec=0;
       //h=_h;
-- 
2.43.0


From 96352a4a7b27b37daeb100d71e84743bbf189c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 14/33] fix: Radau5 resets the Newton convergence factor at
 each integration

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index af05231..f7c7f40 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -455,7 +455,7 @@ namespace odes
       //-------------------
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
-      reject=false,last=false;
+      reject=false,last=false; faccon=1.;
       cfac=safe*(1+2*nit);
       int reason=0;
       nstep=0; ndec=0;
-- 
2.43.0


From 90dc647200606a26426f74d999e502432fe4ae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 15/33] fix: Radau5 one-step mode advances time and statistics
 with the solution

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index f7c7f40..1159b7e 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -589,7 +589,6 @@ namespace odes
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-	      if(onlyOneStep) {Y+=Z3;break;}
 	      //step accepted
 	      if(naccpt==0) firstAcceptedStep=h;
 	      first=false;++naccpt;
@@ -609,6 +608,7 @@ namespace odes
 	      xold=x,hold=h;
 	      x=xph;
 	      Y+=Z3;
+	      if(onlyOneStep) break;
 	      
 	      double uC2M1=1./C2M1,uC2=1./C2;
 #include "Ivdep.hpp"
-- 
2.43.0


From a76b500fc7a5faf7a259388b3dbd8539ae1dd7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 16/33] fix: Radau5 starting values extrapolate the collocation
 polynomial

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 1159b7e..4498011 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -618,7 +618,7 @@ namespace odes
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save2(i)=((Z1(i)-Z2(i))*uC1MC2-save1(i))*uC1M1;
-	      double aaa=(uC1MC2-uC1M1)*uC2,bbb=uC1MC2*uC2;
+	      double aaa=(uC1MC2-1./C1)*uC2,bbb=uC1MC2*uC2;
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save3(i)=save2(i)-aaa*Z1(i)+bbb*Z2(i); 
-- 
2.43.0


From 2d61fc0f2b70e80de3e7058d9dba6c2d5829b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 17/33] fix: Rock4 sums the error norm as an OpenMP reduction

---
 Rock4-NG/include/ToolOMP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 576689b..789ffa8 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -143,7 +143,7 @@ namespace odes {
       ASSUME_ALIGNED(x3);  ASSUME_ALIGNED(x4); 
       ASSUME_ALIGNED(x5);  ASSUME_ALIGNED(y);
 #ifdef ROCK4_OMP
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:ret)
 #endif       
       for(int i=0;i<size;i++)
 	{
-- 
2.43.0


From 4454abc796613ada511ac9bbd6fcbcd2c7fb5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 18/33] fix: Radau5 and Rodas return at once when there is
 nothing to integrate

---
 Radau5-NG/include/Radau5cc.hpp | 3 ++-
 Rodas-NG/include/Rodascc.hpp   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 4498011..a9fd5a0 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -463,7 +463,8 @@ namespace odes
       seth(x,_h);
       fortranVectorF<n> y0;
       fortranVector Y(y,n);
-      xend=_xend;
+      xend=_xend; newt=0;
+      if(xend==x) return;
       posneg=SIGN(xend-x);
       hmax=xend-x;
       hmaxn=MIN(ABS(hmax),ABS(xend-x));
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 865dd95..eaffdb2 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -329,6 +329,7 @@ namespace odes
       fortranVectorF<n> Y;
       Y=y;
       xend=_xend;
+      if(xend==x) return;
       posneg=SIGN(xend-x);
       hmax=xend-x;
       hmaxn=MIN(ABS(hmax),ABS(xend-x));
-- 
2.43.0


From a8e1cfbd459196357309f272c04cab653396851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 19/33] fix: Rock4 ends exactly at the end time

---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 7351e97..04b3f70 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -249,7 +249,7 @@ namespace odes {
 	    {
 	      //accepted step.
 	      ++nacc; facmax=2.0e0;
-	      t+=h;
+	      t= h==ABS(tend-t)? tend:t+h;
 	      hlast=h;
 	      if (reject)
 		{
-- 
2.43.0


From 97b329c8a1c367810f06604d83137fe710a87dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 20/33] fix: Rock4L ends exactly at the end time

---
 Rock4-L/include/Rock4L.hpp | 752 ++++++++++++++++++-------------------
 1 file changed, 376 insertions(+), 376 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index c663f4f..e1932ca 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -1,376 +1,376 @@
-#ifndef Rock4__h
-#define Rock4__h
-#include "Rock4Coeffs.hpp"
-#include "MacrosForCompilers.hpp"
-#include "AllocateDestroyVector.hpp"
-#include "OdesException.hpp"
-#include "switchAdr.hpp"
-#include <cmath>
-#include <cstdlib>
-using namespace std;
-namespace odes{
-///////////////////////////////////////////////////////////////////////////
-/// A replacement for A. Abdulle rock4.f code for Rock4 method.
-///  *We treat here linear and affine case* ie RHS must be:
-///        x-> Ax
-///    or 
-///        x-> Ax+ B with B independent of time.
-///
-/// Template arguments:
-///      - Fonc: Object function which defines the problem.
-///      - Affine: true iff we treat the affine case.
-///              
-///  The class Fonc must define the following public methods:
-///      1) contructor:  
-///                Fonc(int n) n: size (number of unknowns).
-///      2) destructor.
-///      3)  double rho()
-///            return spectral radius of A: 
-///      4) int size()        
-///            return n, the size of vectors (see contructor).
-///      5) void operator()(double * in, double * s, 
-///                            double a, double b,double *out)
-///           compute out[]= A*a* in[] +b s[]
-///      6) void operator()(double * in, double * s, 
-///                             double a, double b, double *g,double *out)
-///           compute out[]=A*a*in[]+ b*s[] +g[]
-///      7) void operator()(double * in, double * s,
-///                              double a, double b,double c,double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]
-///      8)  void operator()(double * in, double * s, 
-///                              double a, double b,double c,double *g,
-///                              double *out)
-///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
-///
-///    where in[], s[], g[] and out[] are vectors of size n.        
-//////////////////////////////////////////////////////////////////////////
-  template<class Fonc,bool Affine=false> class Rock4L
-  {
-    Fonc* Fp;
-    const int size;
-    double atol,rtol;//tolerances for time steps adaptation.
-    double uround,told;
-    double t; 
-    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
-    double *BigArray;
-    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
-    Rock4Coeffs Coeffs;
-    double ac[5][4],bc[5],hc[5];
-
-    //! We want to compute polynomial for the 2nd formula in Horner form.
-    //! so we must compute the coefficients in this form.
-    void makeHornerCoeffs()
-    {
-      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
-      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
-	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
-      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
-	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
-      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
-      hc[0]=1.;
-    } 
-    //! make sub arrays.
-    inline void splitBigArray()
-    {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
-    }
-    //! permutate 3 adresses g0,g1,g2.
-    //! \param g0 
-    //! \param g1 
-    //! \param g2
-    inline void permut3(double *&g0,double *&g1,double *&g2)
-    {
-      double *temp=g0;
-      g0=g1; g1=g2;g2=temp;
-    }
-   
-    //! find degree of formula.
-    void mdegre(int& mdeg)
-    {
-      mp[2]=1;
-      //-------- Find the degree.--------      
-      for(int i=1;i<=50;i++)
-	{
-	  if ((Coeffs.ms(i)/mdeg)>=1)
-	    {
-	      mdeg=Coeffs.ms(i);
-	      mp[1]=i;
-	      break;
-	    }
-	  else
-	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
-	}
-    }
-    //! The heart of the computation; perform a dt step, in the linear
-    //! case.
-    //! \param y IN/OUT.
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay
-     void kernel1(double *y,double dt)
-    {
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=dt*Coeffs.fpa(mz,1);
-      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
-      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
-      ac[4][3]=dt*Coeffs.fpa(mz,6);
-      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
-      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-
-      //
- 
-      F(g0,g0,hc[4],hc[3],k1);
-      F(k1,g0,1.0,hc[2],temp);
-      F(temp,g0,1.0,hc[1],k1);
-      F(k1,g0,1.0,hc[0],y);
-      //
-      funccal+=4;
-
-    }
-    //! The heart of the computation; perform a dt step, in the affine
-    //! case.
-    //! \param y IN/OUT.
-    //! \param b the constant in time part of the RHS
-    //! \param dt time step.
-    //! \note we solve dy/dt= Ay + B, with a constant B.
-    void kernel2(double *y,double *b,double dt)
-    {
-   
-      //g1=temp;
-      Fonc& F=*Fp;// told=0.;
-      double mz=mp[1],mr=mp[2];
-
-      splitBigArray();
-      //
-      //3 terms recurrence formula:
-      //
-      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
- 
-      for(int i=2;i<=mdeg;i++)
-	{
-	  if(i==2)
-	    {
-	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
-	      double temp2=1.0-temp3;
-	      F(g1,y,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-
-	    }
-	  else
-	    {
-	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
-	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
-	      double temp2=1.0-temp3;
-	      F(g1,g0,temp1,temp2,temp3,b,g2);
-	      permut3(g0,g1,g2);
-	    }
-	}
-      switchAdr(g1,g0);
-      temp=g1;
-      funccal+=mdeg+1;
-      ++nsteps;
-      //
-      // result of the recurrence is always in g0.
-      //
-      // The second RK formula (4 steps).
-      //
-      //coefficients:
-      
-      ac[2][1]=Coeffs.fpa(mz,1);
-      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
-      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
-      ac[4][3]=Coeffs.fpa(mz,6);
-      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
-      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
-      makeHornerCoeffs();
-      double dt2=dt*dt, dt3= dt2*dt;
-      //
-      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
-
-      // now we have a polynomial of degree 3 to evaluate: 
-      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
-      F(g1,k1,1.0,hc[2]*dt,g2);
-      F(g2,k1,1.0,hc[1],g1);
-      // finish:
-      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
-#include "Ivdep.hpp"
-      for(int i=0;i<size;i++)
-	y[i]=g0[i]+g1[i];
-      
-      funccal+=4;
-
-    }
-
-  public:
-    //! constructor
-    //! \param  F RHS.
-    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
-    {
-      int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
-      splitBigArray();
-       // do not allocate Vtemp. 
-      uround=1.e-16;
-    }
-    //! destructor
-    ~Rock4L()
-    {
-      //Suppress(BigArray);
-      destroyDoubleArray(BigArray);
-    }
-    
-    //! number of stages used (we count both methods).
-    inline int NbStages() const {return nstagesmax;}
-    //! number of RHS computed
-    inline int NbRhsComputed() const {return funccal;}
-    //! number of steps performed.
-    inline int NbSteps() const {return nsteps;}
-    //! return a correctly aligned vector, for unknowns.
-    //inline double* alloc_vec() {return Allocate(size);} 
-    //! delete a vector allocated with alloc_vec()
-    //inline void delete_vec(double * v){Suppress(v);}
-    //! number of unknowns.
-    inline int nbUnkn() const {return size;}
-    //! value of "time":
-    inline double Time() const {return t;}
-    
-    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note  we solve dy/dt= Ay.
-    void operator()(double *y,double t0,double tend, double _h)
-    {
-      if(Affine)
-	throw OdesException("Rock4::operator() called as affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel1(y,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
-    //! \param  y IN/OUT. Initial values on input, final values on output.
-    //! \param b RHS.
-    //! \param t0 initial value of time
-    //! \param tend final time.
-    //! \param _h proposed time step.
-    //! \note We integrate from t0 to tend
-    //! \note we solve dy/dt= Ay+b.
-    void operator()(double *y,double *b, double t0,double tend, double _h)
-    {
-      if(!Affine)
-	throw OdesException("Rock4::operator() called as not affine");
-      int mdego=0; nsteps=0;
-      nrej=0; nacc=0;nstagesmax=0;
-      Fonc& F=*Fp;
-      int pass=0;
-      funccal=0;
-      t=t0;
-      double h=_h;
-      told=0.0;
-      double eigmax=F.rho();
-      
-      while(t<tend)
-	{
-	  if(1.01e0*h>=abs(tend-t))
-	    h=abs(tend-t);
-
-	  if (h<10.0e0*uround)
-	    throw OdesException("Rock4: step too small h=",h,"limit:",
-				     10.0e0*uround);
-
-	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
-	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
-				   "You should decrease time step");
-	  mdeg=max(mdeg,5)-4;
-	  if(mdeg!=mdego)
-	    {
-	      mdegre(mdeg);
-	      mdego=mdeg;
-	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
-	    }
-	  kernel2(y,b,h);
-	  t+=h;
-	  if(t+h>tend) h=tend-t;
-	}
-    }
-  };
-};
-
-#endif
+#ifndef Rock4__h
+#define Rock4__h
+#include "Rock4Coeffs.hpp"
+#include "MacrosForCompilers.hpp"
+#include "AllocateDestroyVector.hpp"
+#include "OdesException.hpp"
+#include "switchAdr.hpp"
+#include <cmath>
+#include <cstdlib>
+using namespace std;
+namespace odes{
+///////////////////////////////////////////////////////////////////////////
+/// A replacement for A. Abdulle rock4.f code for Rock4 method.
+///  *We treat here linear and affine case* ie RHS must be:
+///        x-> Ax
+///    or 
+///        x-> Ax+ B with B independent of time.
+///
+/// Template arguments:
+///      - Fonc: Object function which defines the problem.
+///      - Affine: true iff we treat the affine case.
+///              
+///  The class Fonc must define the following public methods:
+///      1) contructor:  
+///                Fonc(int n) n: size (number of unknowns).
+///      2) destructor.
+///      3)  double rho()
+///            return spectral radius of A: 
+///      4) int size()        
+///            return n, the size of vectors (see contructor).
+///      5) void operator()(double * in, double * s, 
+///                            double a, double b,double *out)
+///           compute out[]= A*a* in[] +b s[]
+///      6) void operator()(double * in, double * s, 
+///                             double a, double b, double *g,double *out)
+///           compute out[]=A*a*in[]+ b*s[] +g[]
+///      7) void operator()(double * in, double * s,
+///                              double a, double b,double c,double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]
+///      8)  void operator()(double * in, double * s, 
+///                              double a, double b,double c,double *g,
+///                              double *out)
+///           compute out[]==A*a*in[]+ b*in[] + c*s[]+ g[]
+///
+///    where in[], s[], g[] and out[] are vectors of size n.        
+//////////////////////////////////////////////////////////////////////////
+  template<class Fonc,bool Affine=false> class Rock4L
+  {
+    Fonc* Fp;
+    const int size;
+    double atol,rtol;//tolerances for time steps adaptation.
+    double uround,told;
+    double t; 
+    double *fn,*k1,*k2,*temp,*g0,*g1,*g2;
+    double *BigArray;
+    int mp[3],mdeg,funccal,nrej,nsteps,nacc,nstagesmax,sizesplit;
+    Rock4Coeffs Coeffs;
+    double ac[5][4],bc[5],hc[5];
+
+    //! We want to compute polynomial for the 2nd formula in Horner form.
+    //! so we must compute the coefficients in this form.
+    void makeHornerCoeffs()
+    {
+      hc[4]=ac[2][1]*ac[3][2]*ac[4][3]*bc[4]; 
+      hc[3]=ac[2][1]*ac[3][2]*bc[3] + ac[2][1]*ac[4][2]*bc[4] + 
+	ac[3][1]*ac[4][3]*bc[4] + ac[3][2]*ac[4][3]*bc[4];
+      hc[2]= ac[2][1]*bc[2] + ac[3][1]*bc[3] + ac[3][2]*bc[3] + 
+	ac[4][1]*bc[4] + ac[4][2]*bc[4] + ac[4][3]*bc[4];
+      hc[1]= bc[1] + bc[2] + bc[3] + bc[4];
+      hc[0]=1.;
+    } 
+    //! make sub arrays.
+    inline void splitBigArray()
+    {
+      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+    }
+    //! permutate 3 adresses g0,g1,g2.
+    //! \param g0 
+    //! \param g1 
+    //! \param g2
+    inline void permut3(double *&g0,double *&g1,double *&g2)
+    {
+      double *temp=g0;
+      g0=g1; g1=g2;g2=temp;
+    }
+   
+    //! find degree of formula.
+    void mdegre(int& mdeg)
+    {
+      mp[2]=1;
+      //-------- Find the degree.--------      
+      for(int i=1;i<=50;i++)
+	{
+	  if ((Coeffs.ms(i)/mdeg)>=1)
+	    {
+	      mdeg=Coeffs.ms(i);
+	      mp[1]=i;
+	      break;
+	    }
+	  else
+	    mp[2]=mp[2]+Coeffs.ms(i)*2-1;
+	}
+    }
+    //! The heart of the computation; perform a dt step, in the linear
+    //! case.
+    //! \param y IN/OUT.
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay
+     void kernel1(double *y,double dt)
+    {
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=dt*Coeffs.fpa(mz,1);
+      ac[3][1]=dt*Coeffs.fpa(mz,2);ac[3][2]=dt*Coeffs.fpa(mz,3);
+      ac[4][1]=dt*Coeffs.fpa(mz,4);ac[4][2]=dt*Coeffs.fpa(mz,5);
+      ac[4][3]=dt*Coeffs.fpa(mz,6);
+      bc[1]=dt*Coeffs.fpb(mz,1);bc[2]=dt*Coeffs.fpb(mz,2);
+      bc[3]=dt*Coeffs.fpb(mz,3);bc[4]=dt*Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+
+      //
+ 
+      F(g0,g0,hc[4],hc[3],k1);
+      F(k1,g0,1.0,hc[2],temp);
+      F(temp,g0,1.0,hc[1],k1);
+      F(k1,g0,1.0,hc[0],y);
+      //
+      funccal+=4;
+
+    }
+    //! The heart of the computation; perform a dt step, in the affine
+    //! case.
+    //! \param y IN/OUT.
+    //! \param b the constant in time part of the RHS
+    //! \param dt time step.
+    //! \note we solve dy/dt= Ay + B, with a constant B.
+    void kernel2(double *y,double *b,double dt)
+    {
+   
+      //g1=temp;
+      Fonc& F=*Fp;// told=0.;
+      double mz=mp[1],mr=mp[2];
+
+      splitBigArray();
+      //
+      //3 terms recurrence formula:
+      //
+      F(y,y,dt*Coeffs.recf(mr) ,1.0,b,g1);
+ 
+      for(int i=2;i<=mdeg;i++)
+	{
+	  if(i==2)
+	    {
+	      double temp1=dt*Coeffs.recf(mr+1),temp3=-Coeffs.recf(mr+2);
+	      double temp2=1.0-temp3;
+	      F(g1,y,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+
+	    }
+	  else
+	    {
+	      double temp1=dt*Coeffs.recf(mr+2*(i-2)+1);
+	      double temp3=-Coeffs.recf(mr+2*(i-2)+2);
+	      double temp2=1.0-temp3;
+	      F(g1,g0,temp1,temp2,temp3,b,g2);
+	      permut3(g0,g1,g2);
+	    }
+	}
+      switchAdr(g1,g0);
+      temp=g1;
+      funccal+=mdeg+1;
+      ++nsteps;
+      //
+      // result of the recurrence is always in g0.
+      //
+      // The second RK formula (4 steps).
+      //
+      //coefficients:
+      
+      ac[2][1]=Coeffs.fpa(mz,1);
+      ac[3][1]=Coeffs.fpa(mz,2);ac[3][2]=Coeffs.fpa(mz,3);
+      ac[4][1]=Coeffs.fpa(mz,4);ac[4][2]=Coeffs.fpa(mz,5);
+      ac[4][3]=Coeffs.fpa(mz,6);
+      bc[1]=Coeffs.fpb(mz,1);bc[2]=Coeffs.fpb(mz,2);
+      bc[3]=Coeffs.fpb(mz,3);bc[4]=Coeffs.fpb(mz,4);
+      makeHornerCoeffs();
+      double dt2=dt*dt, dt3= dt2*dt;
+      //
+      F(g0,b,dt,dt,k1);// dt A g0+ dt b -> k1
+
+      // now we have a polynomial of degree 3 to evaluate: 
+      F(k1,k1,hc[4]*dt3,hc[3]*dt2,g1);
+      F(g1,k1,1.0,hc[2]*dt,g2);
+      F(g2,k1,1.0,hc[1],g1);
+      // finish:
+      ASSUME_ALIGNED(y);ASSUME_ALIGNED(g0);ASSUME_ALIGNED(g1);
+#include "Ivdep.hpp"
+      for(int i=0;i<size;i++)
+	y[i]=g0[i]+g1[i];
+      
+      funccal+=4;
+
+    }
+
+  public:
+    //! constructor
+    //! \param  F RHS.
+    Rock4L(Fonc& F): Fp(&F),size(Fp->size())
+    {
+      int bk=BLOCK_FACTOR/sizeof(double);
+      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
+      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      splitBigArray();
+       // do not allocate Vtemp. 
+      uround=1.e-16;
+    }
+    //! destructor
+    ~Rock4L()
+    {
+      //Suppress(BigArray);
+      destroyDoubleArray(BigArray);
+    }
+    
+    //! number of stages used (we count both methods).
+    inline int NbStages() const {return nstagesmax;}
+    //! number of RHS computed
+    inline int NbRhsComputed() const {return funccal;}
+    //! number of steps performed.
+    inline int NbSteps() const {return nsteps;}
+    //! return a correctly aligned vector, for unknowns.
+    //inline double* alloc_vec() {return Allocate(size);} 
+    //! delete a vector allocated with alloc_vec()
+    //inline void delete_vec(double * v){Suppress(v);}
+    //! number of unknowns.
+    inline int nbUnkn() const {return size;}
+    //! value of "time":
+    inline double Time() const {return t;}
+    
+    //! operator() performs the step IN THE LINEAR CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note  we solve dy/dt= Ay.
+    void operator()(double *y,double t0,double tend, double _h)
+    {
+      if(Affine)
+	throw OdesException("Rock4::operator() called as affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel1(y,h);
+	  t= h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+    //! operator() performs the step IN THE AFFINE CASE, delegating to kernel1.
+    //! \param  y IN/OUT. Initial values on input, final values on output.
+    //! \param b RHS.
+    //! \param t0 initial value of time
+    //! \param tend final time.
+    //! \param _h proposed time step.
+    //! \note We integrate from t0 to tend
+    //! \note we solve dy/dt= Ay+b.
+    void operator()(double *y,double *b, double t0,double tend, double _h)
+    {
+      if(!Affine)
+	throw OdesException("Rock4::operator() called as not affine");
+      int mdego=0; nsteps=0;
+      nrej=0; nacc=0;nstagesmax=0;
+      Fonc& F=*Fp;
+      int pass=0;
+      funccal=0;
+      t=t0;
+      double h=_h;
+      told=0.0;
+      double eigmax=F.rho();
+      
+      while(t<tend)
+	{
+	  if(1.01e0*h>=abs(tend-t))
+	    h=abs(tend-t);
+
+	  if (h<10.0e0*uround)
+	    throw OdesException("Rock4: step too small h=",h,"limit:",
+				     10.0e0*uround);
+
+	  ++pass;
+	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (mdeg>152)
+	    throw OdesException("Rock4: degree limited to 152."
+				   "Here you need:",mdeg,
+				   "You should decrease time step");
+	  mdeg=max(mdeg,5)-4;
+	  if(mdeg!=mdego)
+	    {
+	      mdegre(mdeg);
+	      mdego=mdeg;
+	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
+	    }
+	  kernel2(y,b,h);
+	  t= h==abs(tend-t)? tend:t+h;
+	  if(t+h>tend) h=tend-t;
+	}
+    }
+  };
+};
+
+#endif
-- 
2.43.0


From 5c459144e7a0555d35a11cda370c12724098c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 21/33] fix: Rock4L counts the operator applications it
 performs

---
 Rock4-L/include/Rock4L.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index e1932ca..58371b4 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -138,7 +138,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
@@ -205,7 +205,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
-- 
2.43.0


From d9ab2c1a99a851746aed0aee838837b5ca7a2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 22/33] fix: Rock4L splits its work array at aligned addresses

---
 Rock4-L/include/Rock4L.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 58371b4..050e80d 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -72,7 +72,7 @@ namespace odes{
     //! make sub arrays.
     inline void splitBigArray()
     {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+      k1=BigArray; g0=k1+sizesplit; g1=g0+sizesplit; g2=g1+sizesplit;
     }
     //! permutate 3 adresses g0,g1,g2.
     //! \param g0 
@@ -245,8 +245,8 @@ namespace odes{
     Rock4L(Fonc& F): Fp(&F),size(Fp->size())
     {
       int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      sizesplit=bk*(size/bk+ (size%bk==0? 0:1));
+      BigArray=allocDoubleArray(4*sizesplit);//Allocate(4*size);
       splitBigArray();
        // do not allocate Vtemp. 
       uround=1.e-16;
-- 
2.43.0


From ababc72a4804f49832c2efe418f2f8a228a8d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 23/33] fix: Rock4 starts each integration with an empty log

---
 Rock4-NG/include/Rock4.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 04b3f70..6cde0be 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -189,6 +189,9 @@ namespace odes {
     //! \note *BEWARE* adress y can be changed!
     void operator()(double *&y,double t0,double tend, double _h)
     {
+#ifdef LOGROCK4
+      Logit.clear();
+#endif
       int mdego=0; nsteps=0;
       nrej=0; nacc=0;nstagesmax=0;
       double eigmax=0.0;
-- 
2.43.0


From 01eec725c000321c4eab7bc95efe091b1f5b85d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 24/33] fix: predicted stage values use the stage and component
 strides of the stage arrays

---
 SymplecticRK/include/Extrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index ce8baa2..923107c 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -42,12 +42,12 @@ namespace odes{
       for(int i=0;i<nsteps;i++)
 	{
 	  for(int l=0;l<n;l++)
-	    Y[nsteps*i+l]=u[l];
+	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
 	      double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
-		Y[nsteps*i+l]+=beta*F[nsteps*j+l];
+		Y[n*i+l]+=beta*F[n*j+l];
 	    }
 	}
 	    
-- 
2.43.0


From ad6d72a45686dcec031abdc28fa15801d8069b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 25/33] fix: symplectic coefficients keep the working precision

---
 SymplecticRK/include/Extrap.hpp         | 4 ++--
 SymplecticRK/include/GaussianMethod.hpp | 2 +-
 SymplecticRK/include/SymplecticRK.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index 923107c..dcd3b15 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -25,7 +25,7 @@ namespace odes{
     ~Extrap(){}
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
        // copy coefficients in q[].
       extrapcoeffs<nsteps,Double>(q);
@@ -45,7 +45,7 @@ namespace odes{
 	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
-	      double beta=q[nsteps*i+j];
+	      Double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
 		Y[n*i+l]+=beta*F[n*j+l];
 	    }
diff --git a/SymplecticRK/include/GaussianMethod.hpp b/SymplecticRK/include/GaussianMethod.hpp
index 64afba4..4fc0334 100644
--- a/SymplecticRK/include/GaussianMethod.hpp
+++ b/SymplecticRK/include/GaussianMethod.hpp
@@ -76,7 +76,7 @@ namespace odes{
     }
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
       //init();
       icoeffs<nsteps,long double>(a,b);
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 4929ba2..454d95e 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -127,7 +127,7 @@ public:
 	
 	for(int i=0;i<nsteps;i++)
 	  {
-	    double bi=G.b[i];
+	    Double bi=G.b[i];
 #include "Ivdep.hpp"
 	    for(int j=0;j<n;j++)
 	      delta[j]+=bi*Y1[i*n+j];
-- 
2.43.0


From 9539071d343bc315f2244c3976adbe2c7e2ad10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 26/33] fix: Crank-Nicolson final weight is B.A^{-1}=2

---
 SDIRKL/include/CrN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SDIRKL/include/CrN.hpp b/SDIRKL/include/CrN.hpp
index 531d5c7..c0603bc 100644
--- a/SDIRKL/include/CrN.hpp
+++ b/SDIRKL/include/CrN.hpp
@@ -15,7 +15,7 @@ struct CrN
   CrN()
   {
     A[0][0]=0.5;
-    D[0]=1.;
+    D[0]=2.;
     S[0]=0.5;
     name="CrN";
   }
-- 
2.43.0


From d7d5f337a46fd65f8b0d75c04fc2cbf7ad299c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 27/33] fix: banded print loops over the columns of its row

---
 common/include/fortranRectangularArray.hpp        | 2 +-
 common/include/fortranRectangularComplexArray.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index c31c02b..a47fdf7 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -108,7 +108,7 @@ public:
     cout<<s<<endl;
     for(int i=1;i<=n;i++)
       {
-  	for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+  	for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
   	  cout<<operator()(i,j)<<" ";
   	cout<<endl;
       }
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 6959aeb..29879a1 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -106,14 +106,14 @@ namespace odes{
       cout<<s<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Re(i,j)<<" ";
     	  cout<<endl;
     	}
       cout<<"---"<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Im(i,j)<<" ";
     	  cout<<endl;
     	}    
-- 
2.43.0


From babc01c93e57501ad335b4903a3eb50470118e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 28/33] fix: copies of vectors and matrices own their storage

---
 common/include/fortranArray.hpp               |  7 +++++++
 common/include/fortranComplexArray.hpp        | 13 ++++++++++++
 common/include/fortranRectangularArray.hpp    | 13 ++++++++++++
 .../fortranRectangularComplexArray.hpp        | 13 ++++++++++++
 common/include/fortranVector.hpp              | 21 +++++++++++++++++++
 5 files changed, 67 insertions(+)

diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index c988d23..9c28856 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -26,11 +26,18 @@ public:
   //! constructor (copy).
   fortranArray(const fortranArray<n>& AA )
   {
+    x=allocDoubleArray(n2);
     ASSUME_ALIGNED(x);ASSUME_ALIGNED(AA.x);
 #include "Ivdep.hpp"
     for(int i=0;i<n*n;i++)
       x[i]=AA.x[i];
   }
+  //! operator=
+  void operator=(const fortranArray<n>& AA )
+  {
+    for(int i=0;i<n2;i++)
+      x[i]=AA.x[i];
+  }
   //! destructor
   ~fortranArray()
   {
diff --git a/common/include/fortranComplexArray.hpp b/common/include/fortranComplexArray.hpp
index c74a6be..a1d4fd8 100644
--- a/common/include/fortranComplexArray.hpp
+++ b/common/include/fortranComplexArray.hpp
@@ -31,6 +31,19 @@ namespace odes{
 // #endif
       x=allocDoubleArray(size);
     }
+    //! constructor (copy).
+    fortranComplexArray(const fortranComplexArray& AA)
+    {
+      x=allocDoubleArray(size);
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+    }
+    //! operator=
+    void operator=(const fortranComplexArray& AA)
+    {
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+    }
     //! destructor
     ~fortranComplexArray()
     {
diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index a47fdf7..b13294f 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -38,6 +38,19 @@ public:
 //     x=new double[size];
 // #endif
   }
+  //! constructor (copy).
+  fortranRectangularArray(const fortranRectangularArray& AA)
+  {
+    x=allocDoubleArray(size);
+    for(int i=0;i<size;i++)
+      x[i]=AA.x[i];
+  }
+  //! operator=
+  void operator=(const fortranRectangularArray& AA)
+  {
+    for(int i=0;i<size;i++)
+      x[i]=AA.x[i];
+  }
   //! destructor
   ~fortranRectangularArray()
   {
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 29879a1..3b682f3 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -39,6 +39,19 @@ namespace odes{
 // #endif
       x=allocDoubleArray(size);
     }
+    //! constructor (copy).
+    fortranRectangularComplexArray(const fortranRectangularComplexArray& AA)
+    {
+      x=allocDoubleArray(size);
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+    }
+    //! operator=
+    void operator=(const fortranRectangularComplexArray& AA)
+    {
+      for(int i=0;i<size;i++)
+        x[i]=AA.x[i];
+    }
     //! destructor
     ~fortranRectangularComplexArray()
     {
diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index d3f1b95..23b6b7c 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -53,6 +53,19 @@ public:
     deletable=false;
     x=_x; size=_size;;
   }
+  //! constructor (copy).
+  //! \note the copy of a vector which owns its storage owns its own; a copy of
+  //! an adopted vector refers to the same array.
+  fortranVector(const fortranVector& V): x(V.x),size(V.size),
+					 deletable(V.deletable)
+  {
+    if(deletable)
+      {
+	x=allocDoubleArray(size);
+	for(int i=0;i<size;i++)
+	  x[i]=V.x[i];
+      }
+  }
   //! destructor
   ~fortranVector()
   {
@@ -156,6 +169,14 @@ public:
       y=allocDoubleArray(n);
       x=&(y[0]); size=n;deletable=false;
     }
+    //! constructor (copy).
+    fortranVectorF(const fortranVectorF<n>& V): fortranVector()
+    {
+      y=allocDoubleArray(n);
+      x=&(y[0]); size=n;deletable=false;
+      for(int i=0;i<n;i++)
+	y[i]=V.y[i];
+    }
     //! destructor
     ~fortranVectorF()
     {
-- 
2.43.0


From ef585db3b73f9e62562cd6c8ac0ea891f7c64760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 29/33] fix: Rock4 kernel keeps its buffers distinct when the
 right-hand side throws

---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 6cde0be..5c95bec 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -58,7 +58,7 @@ namespace odes {
     //! \note return error estimator value.
      double kernel(double * Restrict &y,double dt)
     {
-      double *g1=temp;
+      double *&g1=temp;
       Fonc& F=*Fp;// told=0.;
       double mz=mp[1],mr=mp[2];
 
-- 
2.43.0


From 05b3ad3ef8b72759ea48e03c6a88d0643c767013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 30/33] fix: Radau5cc counts the right-hand side evaluation of
 the second error estimate

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index a9fd5a0..a698f8b 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -267,6 +267,7 @@ namespace odes
 	 {
 	   CONT1.sum(CONT1,y);
 	   F(t,&CONT1,&F1);
+	   ++nfonccalled;
 	   CONT1.sum(F1,F2);
 	   solvereal(CONT1,Jac);
 	   err=0.0;
-- 
2.43.0


From e8a1bb6eefce1bb410837f380c9d88a1fefddc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 31/33] fix: Radau5cc iterated for ever with an iteration limit
 below one and diverging Newton iterations

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index a698f8b..29878e3 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -225,7 +225,7 @@ namespace odes
 		  leave=true; whyDoWeLeave=converged;
 		}
 	    }
-	  if(newt==nit)
+	  if(newt>=nit)
 	    {
 	      leave=true; whyDoWeLeave=didNotConverge;
 	    }
-- 
2.43.0


From 65bc8192e0e80dc25ef652edf9a5d07163ef1949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 32/33] fix: Rock4 and Rock4L looped for ever with steps too
 small to change the time

---
 Rock4-L/include/Rock4L.hpp | 6 ++++--
 Rock4-NG/include/Rock4.hpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 050e80d..0e62b74 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -299,7 +299,8 @@ namespace odes{
 	  if(1.01e0*h>=abs(tend-t))
 	    h=abs(tend-t);
 
-	  if (h<10.0e0*uround)
+	  // too small, or too small to change t:
+	  if (h<10.0e0*uround || (h<abs(tend-t) && h<=10.0e0*uround*abs(t)))
 	    throw OdesException("Rock4: step too small h=",h,"limit:",
 				     10.0e0*uround);
 
@@ -348,7 +349,8 @@ namespace odes{
 	  if(1.01e0*h>=abs(tend-t))
 	    h=abs(tend-t);
 
-	  if (h<10.0e0*uround)
+	  // too small, or too small to change t:
+	  if (h<10.0e0*uround || (h<abs(tend-t) && h<=10.0e0*uround*abs(t)))
 	    throw OdesException("Rock4: step too small h=",h,"limit:",
 				     10.0e0*uround);
 
diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 5c95bec..0bb8f44 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -211,7 +211,8 @@ namespace odes {
 	  if(1.01e0*h>=ABS(tend-t))
 	    h=ABS(tend-t);
 
-	  if (h<10.0e0*uround)
+	  // too small, or too small to change t:
+	  if (h<10.0e0*uround || (h<ABS(tend-t) && h<=10.0e0*uround*ABS(t)))
 	    throw OdesException("Rock4: step too small h=",h,"limit:",
 				     10.0e0*uround);
 	  if(nrho==0)
-- 
2.43.0


From 9ece5938f1c8afc9c85f9de7ab054c53cef81f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 33/33] fix: Rock4 reports the number of stages used

NbStages() returned the degree of the last step's first polynomial (four
less than the stages of both methods, and not the largest one used); the
largest number of stages was already being recorded.
---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 0bb8f44..fd2e503 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -164,7 +164,7 @@ namespace odes {
       atol=_atol; rtol=_rtol;
     }
     //! number of stages used (we count both methods).
-    inline int NbStages() const {return mdeg;}
+    inline int NbStages() const {return nstagesmax;}
     //! number of RHS computed
     inline int NbRhsComputed() const {return funccal;}
     //! number of steps performed.
-- 
2.43.0

