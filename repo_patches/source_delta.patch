From 513f6ce66aa9d0c7238cd4bc8d7106142c11d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 01/17] fix: evaluate Lagrange polynomials of the mixed model
 with Q R^-T

Q/R' of the original was translated to an elementwise quotient, so the values did not match the
Lagrange polynomials computed by bcdfo_computeLj (whichmodel=1, p1 = n+1 or q).
---
 sqpdfo/bcdfo_evalL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_evalL.py b/sqpdfo/bcdfo_evalL.py
index 9bcad8a..ddbf052 100644
--- a/sqpdfo/bcdfo_evalL.py
+++ b/sqpdfo/bcdfo_evalL.py
@@ -67,7 +67,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
         if (p1 == n + 1 or p1 == q):
 #        evaluate Minimum L2 norm Lagrange polynomial (p1 == n+1 or p1 == q)
 
-            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (QZ / RZ.T)),x,xbase,scale,shift_Y)
+            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (numpy.linalg.solve(RZ,QZ.T).T)),x,xbase,scale,shift_Y)
         else:
 #       evaluate Minimum Frobenius norm Lagrange polynomial (p1 <= q)
 #
-- 
2.43.0


From 58515ac610b76bab0f2f06a53f3417e36d3892c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 02/17] fix: minimum-Frobenius-norm models and Lagrange
 polynomials

The branch n+1 < p1 < q of whichmodel=1 used undefined names (P_i, Lj, bcdfo_evalZ_), a float slice bound and a
wrongly shaped base point, so every call raised instead of building the interpolation model.
---
 sqpdfo/bcdfo_computeLj.py |  7 ++++---
 sqpdfo/bcdfo_computeP.py  | 10 ++++------
 sqpdfo/bcdfo_evalL.py     |  9 +++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/sqpdfo/bcdfo_computeLj.py b/sqpdfo/bcdfo_computeLj.py
index 1ed35fc..6970ea6 100644
--- a/sqpdfo/bcdfo_computeLj.py
+++ b/sqpdfo/bcdfo_computeLj.py
@@ -81,12 +81,13 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
                 Y=Y / scaleY
 #       compute the right-hand side of the system
             rhs=concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 + n +1 - j,1)],axis=0)
-            mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))).T
+            mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))
+            Lj=zeros_(1,q)
 #       constant and linear part of P
-            Lj[0:n + 1]=mualpha[p1:p1 + n + 1].T
+            Lj[:,0:n + 1]=mualpha[p1:p1 + n + 1].T
 #       quadratic part of P
             M=bcdfo_evalZ_(Y,q).T
-            Lj[n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
+            Lj[:,n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
     elif (whichmodel == 2):
 #    build Minimum L2 norm Lagrange polynomials (p1 <= q)
 #    (QZ and RZ are the factors of Z = M')
diff --git a/sqpdfo/bcdfo_computeP.py b/sqpdfo/bcdfo_computeP.py
index 716d14e..6d922bd 100644
--- a/sqpdfo/bcdfo_computeP.py
+++ b/sqpdfo/bcdfo_computeP.py
@@ -96,16 +96,14 @@ def bcdfo_computeP_(QZ=None,RZ=None,Y_=None,fY=None,whichmodel=None,P_old=None,i
                 Y=Y / scaleY
 #       compute right-hand side with function values and zero
 
-            P=array([])
             for i in range(0,n_rhs):
-                rhs=concatenate_([fY[i,:],zeros_(1,n + 1)], axis=1)
-                mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))).T
+                rhs=concatenate_([fY[[i],:],zeros_(1,n + 1)], axis=1)
+                mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))
 #                 constant and linear part of P
-                P_i[0:n + 1]=mualpha[p1:p1 + n + 1].T
+                P[[i],0:n + 1]=mualpha[p1:p1 + n + 1].T
 #                 quadratic part of P
                 M=bcdfo_evalZ_(Y,q).T
-                P_i[n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1].T)
-                P=concatenate_([P, P_i])
+                P[[i],n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1]).T
     elif (whichmodel == 2):
         P=(QZ.dot((numpy.linalg.solve(RZ.T,fY.T)))).T
     elif (whichmodel == 3):
diff --git a/sqpdfo/bcdfo_evalL.py b/sqpdfo/bcdfo_evalL.py
index ddbf052..59a381c 100644
--- a/sqpdfo/bcdfo_evalL.py
+++ b/sqpdfo/bcdfo_evalL.py
@@ -2,6 +2,7 @@
 
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_evalP import bcdfo_evalP_
+from sqpdfo.bcdfo_evalZ import bcdfo_evalZ_
 import numpy
 from copy import copy
     
@@ -55,7 +56,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
     n,p1=size_(Y,nargout=2)
     I=eye_(p1)
     lc=length_(choice_set)
-    q=((n + 1) * (n + 2)) / 2
+    q=int(((n + 1) * (n + 2)) / 2)
     values=zeros_(p1,1)
     if (whichmodel == 3 and p1 < q):
 #     for underdetermined regression model use min l2-norm model
@@ -74,10 +75,10 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
 #        If shifting is active, the matrix of the interpoaltion points is first
 #        shifted and scaled (to compute M correctly).
             if (shift_Y):
-                xbase=copy(Y[:,0])
+                y0=copy(Y[:,0])
                 scaleY=0
                 for i in range(0,p1):
-                    Y[:,i]=Y[:,i] - xbase
+                    Y[:,i]=Y[:,i] - y0
                     scaleY=max_(scaleY,norm_(Y[:,i]))
                 Y=Y / scaleY
             M=bcdfo_evalZ_(Y,q).T
@@ -86,7 +87,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
                 phi=bcdfo_evalZ_((x - xbase) * scale[1],q)
             else:
                 phi=bcdfo_evalZ_(x,q)
-            values[choice_set]=concatenate_([  I[choice_set,:],  zeros_(lc,n + 1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))],axis=1)
+            values[choice_set]=concatenate_([I[choice_set,:],zeros_(lc,n + 1)],axis=1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]],axis=0))))
     elif (whichmodel == 2):
 #    evaluate Minimum L2 norm Lagrange polynomial (p1 <= q)
         if (p1 < q):
-- 
2.43.0


From 3b48652f2da2c65ff4b6924200449c96052c5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 03/17] fix: periodic restart of the BFGS matrix used an
 undefined function

---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..821d1a1 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and info.nsimul[1] % options.bfgs_restart == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
-- 
2.43.0


From c15d4d362346f77082c26785ab649752dcc47e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 04/17] fix: options.bfgs_restart has a default

---
 sqpdfo/sqpdfo_options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..64cdfcc 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From 116cd1b8ccd98aedb802a8c8d63ae92ece9b7e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 05/17] fix: hard case of the trust-region solver (ragged
 polynomial coefficients)

---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..a40d838 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri)[0,0],nscri ** 2 - Delta ** 2])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 6aeca7998c2bcf6d21d6849c039d1897443a2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 06/17] fix: constraint values of the trial point when all
 recorded constraint values are zero

---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..edf299c 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -786,7 +786,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         
             fxplus=copy(fX[m])
             
-            if ceX.any():
+            if me > 0:
                 ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
                 ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
                 ceplus = copy(array([ceX[:,m]]).T)
-- 
2.43.0


From 594828aff1052d07fcadb9451b4326c3cca267e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 07/17] fix: failed evaluation while repairing the
 interpolation set is reported

---
 sqpdfo/sqpdfo_main.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index edf299c..37a38b6 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -510,7 +510,13 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    indfix,indfree,fxmax,neval,xstatus,c.inY,\
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
-                                   
+
+                if (info.flag):
+
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
+
                 fY[j]=fX[m]
                 
                 if mi > 0:
-- 
2.43.0


From e32748a1811abb7075b702790040a62ee80ce8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 08/17] fix: hard case of the trust-region solver with a 1x1
 radius

---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index a40d838..3fa7e9f 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri)[0,0],nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([numpy.ravel(t)[0] for t in (norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2)])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From 83413b62a14c406c266816e4abb3ed6f4cd2b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 09/17] fix: slack variables of an earlier run are not carried
 over to a problem without inequalities

---
 sqpdfo/sqpdfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..ac8d067 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -128,6 +128,10 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         options = copy(options_)
 
     # Handling of inequalities as slack variables
+    # (without inequalities, the slacks of an earlier run must not be kept)
+
+    glob.set_nbr_slacks(0)
+    glob.set_slacks(None)
 
     if mi:
 
-- 
2.43.0


From 2ea6e30724284b05616e7567c4a88ce658249de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 10/17] fix: constraint derivatives are defined when the first
 step is rejected

---
 sqpdfo/sqpdfo_main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 37a38b6..bef57d0 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -186,12 +186,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     
     if mi > 0:
         ciY=copy(ciX[:,ind_Y])
+        gci=copy(info.ai)
     else:
         ciY=array([])
         gci=array([])
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
+        gce=copy(info.ae)
     else:
         ceY=array([])
         gce=array([])
-- 
2.43.0


From f900df02f623c21dc02079f12cd0fd56693d8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 11/17] fix: variables fixed by equal bounds

---
 sqpdfo/sqpdfo.py             |  6 +++---
 sqpdfo/sqpdfo_augmX_evalf.py |  7 +++++--
 sqpdfo/sqpdfo_prelim.py      | 10 +++++-----
 sqpdfo/sqpdfo_solve_TR_bc.py |  7 +++++++
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index ac8d067..8b5001c 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -333,11 +333,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Re-assemble gradient at return
     if (nfix > 0):
         I=eye_(n + nfix)
-        x=I[:,indfix] * xfix[indfix] + I[:,indfree].dot(x)
-        gx=I[:,indfix] * zeros_(nfix,1) + I[:,indfree].dot(gx)
+        x=I[:,indfix].dot(xfix[indfix]) + I[:,indfree].dot(x)
+        gx=I[:,indfix].dot(zeros_(nfix,1)) + I[:,indfree].dot(gx)
         Ilm=eye_(n + nfix + me + mi)
         indfree_lm=setdiff_(range(0,n + nfix + me + mi),indfix)
-        lm=Ilm[:,indfix] * zeros_(nfix,1) + Ilm[:,indfree_lm] * lm
+        lm=Ilm[:,indfix].dot(zeros_(nfix,1)) + Ilm[:,indfree_lm].dot(lm)
         n=n + nfix
 
     #  Rescale x if necessary
diff --git a/sqpdfo/sqpdfo_augmX_evalf.py b/sqpdfo/sqpdfo_augmX_evalf.py
index d802a1e..fd62de2 100644
--- a/sqpdfo/sqpdfo_augmX_evalf.py
+++ b/sqpdfo/sqpdfo_augmX_evalf.py
@@ -80,8 +80,11 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
     #  Augment X with full-dimensional y, scale if user-defined and evaluate f at y
 
     if (nfix > 0):
-        yfull=I[:,indfix] * xfix[indfix] + I[:,indfree] * y
-        X[:,m]=yfull
+        yfull=I[:,indfix].dot(xfix[indfix]) + I[:,indfree].dot(y)
+        try:
+            X[:,[m]]=yfull
+        except IndexError:
+            X=concatenate_([X,yfull],axis=1)
         if (scaleX):
             yfull=yfull / scalefacX
         info.nsimul[1]=info.nsimul[1] + 1
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 276812c..923ab8a 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -243,7 +243,7 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 cur_degree=2 * nfree + 1
             else:
                 if (cur_degree == pquad):
-                    cur_degree=((nfree + 1) * (nfree + 2)) / 2
+                    cur_degree=((nfree + 1) * (nfree + 2)) // 2
         if (rep_degree == plin):
             rep_degree=nfree + 1
         else:
@@ -251,11 +251,11 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
                 rep_degree=2 * nfree + 1
             else:
                 if (rep_degree == pquad):
-                    rep_degree=((nfree + 1) * (nfree + 2)) / 2
+                    rep_degree=((nfree + 1) * (nfree + 2)) // 2
                     
         plin=nfree + 1
         pdiag=2 * nfree + 1
-        pquad=((nfree + 1) * (nfree + 2)) / 2
+        pquad=((nfree + 1) * (nfree + 2)) // 2
         n=copy(nfree)
         
     else:
@@ -407,8 +407,8 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
 
                 if (nfix > 0):
                     I=eye_(n + nfix)
-                    x=I[:,indfix] * zeros_(nfix,1) + I[:,indfree].dot( x )
-                    gx=I[:,indfix] * zeros_(nfix,1) + I[:,indfree].dot( gx )
+                    x=I[:,indfix].dot(zeros_(nfix,1)) + I[:,indfree].dot( x )
+                    gx=I[:,indfix].dot(zeros_(nfix,1)) + I[:,indfree].dot( gx )
                     
                 return n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta0,nfix,indfix,xfix,\
                 vstatus,xstatus,sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,\
diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 9dbf7d1..0db34f1 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -51,6 +51,13 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
     delta_min=1e-08
     slnew=zeros_like(sl)
 
+    # keep the bounds of the free variables (and of the slacks) only
+    if len(lb) > n + nbr_slacks:
+        n_full=len(lb) - nbr_slacks
+        lb=concatenate_([lb[indfree],lb[n_full:]])
+        ub=concatenate_([ub[indfree],ub[n_full:]])
+        indfree=arange(0,n)
+
     plevel_r=0 # printing level for the restoration step (0; nothing, >0: something)
     if options.verbose >= 5: 
         plevel_r=1 
-- 
2.43.0


From c8ac7a4ecd057b87a33b06b06dbf61c0e2375272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 12/17] fix: choice of the best sample point (bounds per
 component, position 1, penalty not truncated)

---
 sqpdfo/sqpdfo_find_smallf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..332df1e 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -89,7 +89,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     ind_insideBounds=array([])
     
     for i in range(0,cur_degree):
-        if((isempty_(find_(logical_or_(Y[:,i] < xl[indfree] , Y[:,i] > xu[indfree]),1)))\
+        if((isempty_(find_(logical_or_(Y[:,[i]] < xl[indfree] , Y[:,[i]] > xu[indfree]),1)))\
             and (isempty_(find_(dummy_set == ind_Y[i],1)))):
             ind_insideBounds=concatenate_([ind_insideBounds,[i]],axis=1)
         else:
@@ -107,7 +107,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
             for i in range(0,cur_degree):
                 norm_ceY[i]=norm_(ceY[:,i])
 
-    meritY=fY + int(sigma) * norm_ceY
+    meritY=(fY + sigma * norm_ceY).reshape(-1)
     
     #  Find the smallest function value among them
 
@@ -116,7 +116,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From cd205d4987ee5919768aadc8a3420b343a894397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 13/17] fix: info.f is the value at the returned point

---
 sqpdfo/sqpdfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 8b5001c..34fe28e 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -343,8 +343,8 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     #  Rescale x if necessary
     if (scaleX):
         x=x / scalefacX
+    info.f=fx
     info_best=copy(info)
-    info_best.f=fx
     x=X[:,i_xbest]
     sqpdfo_finish_(nb,mi,me,info_best,options,values)
 
-- 
2.43.0


From f726df3a95239cbac2c58d9d78bc6d6c9695b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 14/17] fix: reference values of the merit function follow the
 iterate when it moves during a geometry improvement

---
 sqpdfo/sqpdfo_main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index bef57d0..05746a1 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -545,6 +545,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                               indfree,x,lb,ub,fx,dstatus,whichmodel,scale,shift_Y,\
                               delta,normgx,kappa_ill,sigma,info,nargout=12)
 
+            #  A rejection of the previous step says nothing about the new iterate.
+
+            if i_xbest != i_xold:
+                radius_has_been_rejected=copy(False)
+
             #  Compute new model(s).
 
             fcmodel=bcdfo_computeP_(QZ,RZ,Y,concatenate_([fY.reshape(1,-1),ciY,ceY]),\
@@ -1475,7 +1480,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 # Recover ce at the current iterate
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=fx
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0


From 4753c9fde960a1d34d12177040607e1ce86bd5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 15/17] fix: reference values of the merit function follow the
 iterate when the trial point replaces a far or close sample point

---
 sqpdfo/sqpdfo_main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 05746a1..15bec17 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -1263,6 +1263,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                         glob.set_slacks(slplus)
                                     
                                 i_xbest=copy(m)
+                                radius_has_been_rejected=copy(False)
                                 
                                 if (not shift_Y):
                                     x=Y[:,[0]]
@@ -1386,6 +1387,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                             glob.set_slacks(slplus)
                                         
                                     i_xbest=copy(m)
+                                    radius_has_been_rejected=copy(False)
                                     
                                     if (not shift_Y):
                                         x=copy(Y[:,[0]])
-- 
2.43.0


From 9d4143527fe792b3b7e7de9ab2765ca43901f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 16/17] fix: blls: measure the optimality of a Cauchy point
 with no free variable instead of assuming it

---
 sqpdfo/blls.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index 078046d..3303694 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -193,13 +193,13 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
    ##########################################################################
    #       Beyond the Cauchy point: nested subspace minimization            #
    ##########################################################################
-   # The Cauchy point is optimal for the problem because either there is no 
-   # free variable left (which implies opt = 0) or because the residual is 
-   # zero: terminate as s is the problem's solution.
+   # There is no free variable left at the Cauchy point or the residual is zero:
+   # no subspace to search.  A vertex need not be optimal, so measure its
+   # optimality; the loop terminates if it is the problem's solution.
         if (lfree == 0 or resn <= epsres):
             if (verbose > 1):
                 fprintf_('   No nested subspace search\n')
-            opt=0  #  Forces termination
+            opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
       # There are free variables at the Cauchy point: start a nested 
       # subspace search.
         else: # ( lfree > 0 && resn > epsres )
-- 
2.43.0


From d1116f5b9b5edba44b2cb1f7c25d33bf456b29ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:17 +0000
Subject: [PATCH 17/17] fix: composite step: the slack step of a shortened
 tangential step was added twice after the first active-set round

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 0db34f1..7c553da 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -364,10 +364,12 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             r_slsl = r_sl[n:n+nbr_slacks]
             t_slsl = t_sl[n:n+nbr_slacks]
             
+            # slacks before the tangential step
             if iter_active == 1:
-                slnew = sl + r_slsl + t_slsl
+                slr = sl + r_slsl
             else:
-                slnew = slnew + t_slsl
+                slr = copy(slnew)
+            slnew = slr + t_slsl
                 
             # check slacks to stay in their bounds
             
@@ -540,7 +542,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             
             if nbr_slacks:
                 aT=concatenate_([eye_(n+nbr_slacks),-eye_(n+nbr_slacks)])
-                aTx=aT.dot(concatenate_([xr,sl+r_sl[n:n+nbr_slacks]]))
+                aTx=aT.dot(concatenate_([xr,slr]))
                 alpha=concatenate_([ub[0:n+nbr_slacks],-lb[0:n+nbr_slacks]])
             else:
                 aT=concatenate_([eye_(n),- eye_(n)])
@@ -571,10 +573,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             step=r_sl + tstep
             
             if nbr_slacks:
-                if iter_active == 1:
-                    slnew = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
-                else:
-                    slnew = slnew + tstep[n:n+nbr_slacks]
+                slnew = slr + tstep[n:n+nbr_slacks]
             
             if options.verbose == 3:
                 disp_('t = (',str(tstep[0:n].T),')')
-- 
2.43.0

