From 4fcb3eacd44df3df953ebee05d7419d6263f0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:28 +0000
Subject: [PATCH 01/58] fix: sprm, rm and sudire can be used when fitted with
 copy=False

---
 src/direpack/sprm/rm.py       | 3 +++
 src/direpack/sprm/sprm.py     | 3 +++
 src/direpack/sudire/sudire.py | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 4a2d835..3dfd6d3 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -92,6 +92,9 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (self.fun in ("Hampel", "Huber", "Fair")):
             raise MyException(
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 46345b3..0d14168 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -159,6 +159,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if self.copy:
             self.X = copy.deepcopy(X)
             self.y = copy.deepcopy(y)
+        else:
+            self.X = X
+            self.y = y
         (n, p) = X.shape
         if not (type(self.n_components) == int) | (self.n_components <= 0):
             raise MyException(
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 62d8474..f490bd1 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -248,9 +248,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Initiate some parameters and data frames
         if self.copy:
             X0 = copy.deepcopy(X)
-            self.X0 = X0
         else:
             X0 = X
+        self.X0 = X0
         X = convert_X_input(X0)
         n, p = X0.shape
         trimming = self.trimming
-- 
2.43.0


From d1c2d87be2c7d3beb6d8efe93fc610752fa9ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:28 +0000
Subject: [PATCH 02/58] fix: sprm starting cutoffs are defined when no PCA
 start is requested

---
 src/direpack/sprm/sprm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 0d14168..ce405ca 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -269,6 +269,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Urc = np.array(U[:, 0:relcomp])
             Us = scaling.fit_transform(Urc)
         else:
+            relcomp = p
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-- 
2.43.0


From e4d05b8d98d484ac9d40d9f79ab85037b1e94033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:28 +0000
Subject: [PATCH 03/58] fix: rm without scaling works for every centring option

---
 src/direpack/sprm/rm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index 3dfd6d3..cb36a1b 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -239,8 +239,8 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
                     np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"), b))
                 )
         else:
+            ytil = np.array(np.matmul(X, b)).reshape(-1)
             if self.centre == "mean":
-                ytil = np.array(np.matmul(X, b)).reshape(-1)
                 intercept = np.mean(y - ytil)
             else:
                 intercept = np.median(y - ytil)
-- 
2.43.0


From c41c0ccaaed885eb220c293fef0f224d2af72540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:28 +0000
Subject: [PATCH 04/58] fix: sprm and rm run up to maxit iterations and report
 non-convergence

---
 src/direpack/sprm/rm.py   | 4 ++--
 src/direpack/sprm/sprm.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/rm.py b/src/direpack/sprm/rm.py
index cb36a1b..4a4358d 100644
--- a/src/direpack/sprm/rm.py
+++ b/src/direpack/sprm/rm.py
@@ -177,7 +177,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
         rold = 1e-5
         difference = 1
 
-        while (difference > self.tol) & (loops < self.maxit):
+        while (difference > self.tol) & (loops <= self.maxit):
             b = np.linalg.lstsq(Xw, yw, rcond=None)
             b = np.array(b[0]).reshape(-1, 1)
             yp = np.dot(Xs, b).reshape(-1)
@@ -208,7 +208,7 @@ class rm(_BaseComposition, BaseEstimator, RegressorMixin):
             Xw = np.multiply(Xs, WEmat).astype("float64")
             yw = ys * np.sqrt(we)
             loops += 1
-        if difference > self.maxit:
+        if difference > self.tol:
             print(
                 "Warning: Method did not converge. The scaled difference between norms of the coefficient vectors is "
                 + str(round(difference, 4))
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index ce405ca..b1ec22d 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -329,7 +329,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             "None",
             self.copy,
         )
-        while (difference > self.tol) & (loops < self.maxit):
+        while (difference > self.tol) & (loops <= self.maxit):
             res_snipls.fit(Xw, yw)
             T = np.divide(res_snipls.x_scores_,
                           WEmat[:, 0: (self.n_components)])
@@ -379,7 +379,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xw = np.multiply(Xs, WEmat).astype("float64")
             yw = ys * np.sqrt(we)
             loops += 1
-        if difference > self.maxit:
+        if difference > self.tol:
             print(
                 "Warning: Method did not converge. The scaled difference between norms of the coefficient vectors is "
                 + str(round(difference, 4))
-- 
2.43.0


From 65f3151a61c8a759c00ca4dfe286ce143aaa3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 05/58] fix: ppdire on whitened data maps the weights back with
 a matrix product

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d7ee7b8..705a7d5 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -640,7 +640,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             pi = np.dot(E.T,ti) / (nti**2)
             if self.whiten_data:
                 wi /= np.sqrt((wi**2).sum())
-                wi = K*wi
+                wi = np.dot(K,wi)
             wi0 = wi
             wi = np.array(wi)
             if len(W[:,i].shape) == 1:
-- 
2.43.0


From 3c4add99234387cc9bd481bcceef9017e1726786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 06/58] fix: ppdire with compression keeps the coefficient
 vector a column

---
 src/direpack/ppdire/ppdire.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 705a7d5..6c6a2f5 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -697,15 +697,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             R = np.matmul(V[:,0:p],R)
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
-            bi = B[:,h-1]
+            bi = B[:,[h-1]]
             if self.center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
             else:
                 Xs = X0
-                mX = np.zeros((1,p))
-                sX = np.ones((1,p))
+                mX = np.zeros((1,X0.shape[1]))
+                sX = np.ones((1,X0.shape[1]))
         
         bi = bi.astype("float64")
         if flag != 'one-block':            
-- 
2.43.0


From 7643deb709b051ed8c7a1020fcef36114089a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 07/58] fix: ppdire grid optimizer handles one and two
 variables

---
 src/direpack/ppdire/ppdire.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 6c6a2f5..1d8bef4 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -447,13 +447,12 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             if optmax != 1:
                 alphamat *= optmax
         
-            if p>2:
-                anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
-                anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-                nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
-                alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
-                if optmax != 1:
-                    alphamat2 *= opt_args['optmax']
+            anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
+            anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
+            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+            alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
+            if optmax != 1:
+                alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
@@ -489,10 +488,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         for i in range(0,h):
 
             if self.optimizer=='grid':
-                if p==2:
+                if p==1:
+                    wi = np.ones((1,1))
+                    Maxobjf[i] = self.most.fit(E,**opt_args)
+
+                elif p==2:
                     wi,maximo = gridplane(E,self.most,
                                           pi_arguments=opt_args
                                           )
+                    Maxobjf[i] = maximo
            
                 elif p>2:
                 
-- 
2.43.0


From fb51f08503bfff244d4c470648ab6f14db256a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 08/58] fix: ppdire regression options apply when y is passed
 positionally

---
 src/direpack/ppdire/ppdire.py | 52 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 1d8bef4..b2488d2 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -250,35 +250,35 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         else:
             flag = 'two-block'
             y = kwargs.get('y')
-                            
-            if 'quantile' not in kwargs:
-                quantile = .5
+
+        if 'quantile' not in kwargs:
+            quantile = .5
+        else:
+            quantile = kwargs.get('quantile')
+            
+        if self.regopt == 'robust':
+        
+            if 'fun' not in kwargs:
+                fun = 'Hampel'
             else:
-                quantile = kwargs.get('quantile')
-                
-            if self.regopt == 'robust':
+                fun = kwargs.get('fun')
             
-                if 'fun' not in kwargs:
-                    fun = 'Hampel'
-                else:
-                    fun = kwargs.get('fun')
-                
-                if 'probp1' not in kwargs:
-                    probp1 = 0.95
-                else:
-                    probp1 = kwargs.get('probp1')
-                
-                if 'probp2' not in kwargs:
-                    probp2 = 0.975
-                else:
-                    probp2 = kwargs.get('probp2')
-                
-                if 'probp3' not in kwargs:
-                    probp3 = 0.99
-                else:
-                    probp3 = kwargs.get('probp3')
-
+            if 'probp1' not in kwargs:
+                probp1 = 0.95
+            else:
+                probp1 = kwargs.get('probp1')
             
+            if 'probp2' not in kwargs:
+                probp2 = 0.975
+            else:
+                probp2 = kwargs.get('probp2')
+            
+            if 'probp3' not in kwargs:
+                probp3 = 0.99
+            else:
+                probp3 = kwargs.get('probp3')
+
+        
         if self.projection_index == dicomo:
             
             if self.pi_arguments['mode'] in ('M3','cos','cok'):
-- 
2.43.0


From ff0342af2634816fb28172bf459380ed2016936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 09/58] fix: ppdire.fit(h=...) applies to the individual call
 only

---
 src/direpack/ppdire/ppdire.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index b2488d2..f6e4b59 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -227,7 +227,6 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             h = self.n_components
         else:
             h = kwargs.pop('h')
-            self.n_components = h
             
         if 'dmetric' not in kwargs:
             dmetric = 'euclidean'
-- 
2.43.0


From 9e36fe62529de93b28343732a26e7db70ca05341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:15 +0000
Subject: [PATCH 10/58] fix: ppdire and sudire leave their options alone when
 whitening

---
 src/direpack/ppdire/ppdire.py | 19 +++++-----
 src/direpack/sudire/sudire.py | 65 ++++++++++++++++++-----------------
 2 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index f6e4b59..961c218 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -311,14 +311,17 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Whitening step is recommended for ICA')
             
         # Pre-processing adjustment if whitening
+        center_data = self.center_data
+        scale_x = self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_x = False
+            compression = False
             print('All results produced are for whitened data')
         
         # Centring and scaling
-        if self.scale_data:
+        if scale_x:
             if self.center=='mean':
                 scale = 'std'
             elif ((self.center=='median')|(self.center=='l1median')):
@@ -328,7 +331,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             warnings.warn('Without scaling, convergence to optima is not given')
             
          # Data Compression for flat tables if required                
-        if ((p>n) and self.compression):
+        if ((p>n) and compression):
             V,S,U = np.linalg.svd(X.T,full_matrices=False)
             X = np.matmul(U.T,np.diag(S))
             n,p = X.shape
@@ -349,7 +352,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         # Initiate centring object and scale X data 
         centring = VersatileScaler(center=self.center,scale=scale,trimming=trimming)      
   
-        if self.center_data:
+        if center_data:
             Xs = centring.fit_transform(X)
             mX = centring.col_loc_
             sX = centring.col_sca_
@@ -383,7 +386,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
                 
-            if self.center_data:
+            if center_data:
                 ys = centring.fit_transform(y)
                 my = centring.col_loc_
                 sy = centring.col_sca_ 
@@ -701,7 +704,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             W = np.matmul(V[:,0:p],W)
             P = np.matmul(V[:,0:p],P)
             bi = B[:,[h-1]]
-            if self.center_data:
+            if center_data:
                 Xs = centring.fit_transform(X0)
                 mX = centring.col_loc_
                 sX = centring.col_sca_
diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index f490bd1..1b7a14a 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -263,10 +263,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         # Pre-processing adjustment if whitening
+        center_data = self.center_data
+        scale_data = self.scale_data
+        compression = self.compression
         if self.whiten_data:
-            self.center_data = True
-            self.scale_data = False
-            self.compression = False
+            center_data = True
+            scale_data = False
+            compression = False
             print("All results produced are for whitened data")
         # Store original X data mean and varcov matrix.
         varmatx = np.cov(X, rowvar=0)
@@ -274,7 +277,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         N2 = inv(sqrtm(varmatx))
 
         # Data Compression for flat tables if required
-        if (p > n) and self.compression:
+        if (p > n) and compression:
             V, S, U = np.linalg.svd(X.T, full_matrices=False)
             X = np.matmul(U.T, np.diag(S))
             n, p = X.shape
@@ -297,7 +300,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
 
             # Centring and scaling
             # centering :
-        if self.center_data:
+        if center_data:
             if self.center != "mean":
                 centring = VersatileScaler(
                     center=self.center, scale="None", trimming=self.trimming
@@ -313,7 +316,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = X0
             mX = np.zeros((1, p))
             sX = np.ones((1, p))
-        if self.scale_data:
+        if scale_data:
             if self.center == "mean":
                 scale = "std"
                 N2 = inv(sqrtm(varmatx))
@@ -362,7 +365,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if self.copy:
                 y0 = copy.deepcopy(y)
                 self.y0 = y0
-            if self.center_data:
+            if center_data:
                 ys = y  # dont center y
                 my = np.mean(y, axis=0)
                 sy = np.sqrt(np.var(y, axis=0))
@@ -380,10 +383,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -394,10 +397,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -408,22 +411,22 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 self.n_slices,
                 self.n_components,
                 self.response_type,
-                self.center_data,
-                self.scale_data,
+                center_data,
+                scale_data,
             )
-            if self.scale_data:
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "phd":
-            P = PHD(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = PHD(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
         elif self.sudiremeth == "iht":
-            P = IHT(Xs, ys, self.n_components, self.center_data, self.scale_data)
-            if self.scale_data:
+            P = IHT(Xs, ys, self.n_components, center_data, scale_data)
+            if scale_data:
                 P = np.matmul(N2, P)
             projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
             T = np.matmul(self.X0, P)
@@ -432,23 +435,23 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             ## choose starting value for DCOV-SDR
             if self.optimizer_start is None:
                 save_start = SAVE(
-                    Xs, ys, 3, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 3, self.n_components, center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     save_start = np.matmul(N2, save_start)
                 sir_start = SIR(
-                    Xs, ys, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, ys, 6, self.n_components, center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     sir_start = np.matmul(N2, sir_start)
                 beta_save = orth(save_start)
                 dc_save = dc.distance_covariance_sqr(np.matmul(Xs, beta_save), y)
                 beta_sir = orth(sir_start)
                 dc_sir = dc.distance_covariance_sqr(np.matmul(Xs, beta_sir), y)
                 DR_start = DR(
-                    Xs, y, 6, self.n_components, self.center_data, self.scale_data
+                    Xs, y, 6, self.n_components, center_data, scale_data
                 )
-                if self.scale_data:
+                if scale_data:
                     DR_start = np.matmul(N2, DR_start)
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
@@ -478,7 +481,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                                 "args": (Xs, self.n_components, i, j),
                             }
                         )
-                if self.scale_data:
+                if scale_data:
                     self.optimizer_constraints = tuple(const_z)
                 else:
                     self.optimizer_constraints = tuple(const_x)
@@ -503,7 +506,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 constraints=self.optimizer_constraints,
                 options=self.optimizer_options,
             )
-            if self.scale_data:
+            if scale_data:
                 dcov_res = np.matmul(
                     N2, np.reshape(res.x, (-1, self.n_components), order="F")
                 )
@@ -522,7 +525,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=self.optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_ball.x, (-1, self.n_components), order="F")
                     )
@@ -539,7 +542,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=self.optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(res_mdd.x, (-1, self.n_components), order="F")
                     )
@@ -556,7 +559,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     constraints=self.optimizer_constraints,
                     options=self.optimizer_options,
                 )
-                if self.scale_data:
+                if scale_data:
                     P = np.matmul(
                         N2, np.reshape(opt_res.x, (-1, self.n_components), order="F")
                     )
-- 
2.43.0


From 696c3207fee49cc3aaf85f82fdab119f1fbd0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:15 +0000
Subject: [PATCH 11/58] fix: optimizer options supplied by the user are not
 modified

---
 src/direpack/ipopt_temp/ipopt_wrapper.py |  3 +--
 src/direpack/ppdire/ppdire.py            | 17 ++++++++---------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/direpack/ipopt_temp/ipopt_wrapper.py b/src/direpack/ipopt_temp/ipopt_wrapper.py
index a855b0c..914d690 100644
--- a/src/direpack/ipopt_temp/ipopt_wrapper.py
+++ b/src/direpack/ipopt_temp/ipopt_wrapper.py
@@ -205,8 +205,7 @@ def minimize_ipopt(fun, x0, args=(), kwargs=None, method=None, jac=None, hess=No
 
     cl, cu = get_constraint_bounds(constraints, x0)
 
-    if options is None:
-        options = {}
+    options = {} if options is None else dict(options)
 
     nlp = cyipopt.Problem(n = len(_x0),
                           m = len(cl),
diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 961c218..ef79eb5 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -427,8 +427,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
         if self.optimizer=='grid':
             # Define grid optimization ranges
-            if 'ndir' not in self.optimizer_options:
-                self.optimizer_options['ndir'] = 1000
+            optimizer_options = {'ndir': 1000, **self.optimizer_options}
             optrange = np.sign(self.optrange)
             optmax = self.optrange[1]
             stop0s = np.arcsin(optrange[0])
@@ -437,7 +436,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             stop0c = np.arccos(optrange[1])
             anglestart = max(stop0c,stop0s)
             anglestop = max(stop1c,stop1s)
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=False)            
+            nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=False)            
             alphamat = np.array([np.cos(nangle), np.sin(nangle)])
             opt_args['_stop0c'] = stop0c
             opt_args['_stop0s'] = stop0s
@@ -451,15 +450,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         
             anglestart = min(opt_args['_stop0c'],opt_args['_stop0s'])
             anglestop = min(opt_args['_stop1c'],opt_args['_stop1s'])
-            nangle = np.linspace(anglestart,anglestop,self.optimizer_options['ndir'],endpoint=True)
+            nangle = np.linspace(anglestart,anglestop,optimizer_options['ndir'],endpoint=True)
             alphamat2 = np.array([np.cos(nangle), np.sin(nangle)])
             if optmax != 1:
                 alphamat2 *= opt_args['optmax']
                 
             # Arguments for grid plane
             opt_args['alphamat'] = alphamat,
-            opt_args['ndir'] = self.optimizer_options['ndir'],
-            opt_args['maxiter'] = self.optimizer_options['maxiter']
+            opt_args['ndir'] = optimizer_options['ndir'],
+            opt_args['maxiter'] = optimizer_options['maxiter']
             if type(opt_args['ndir'] is tuple): 
                 opt_args['ndir'] = opt_args['ndir'][0]
             
@@ -467,7 +466,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             grid_args_2 = { 
                      'alpha': self.alpha,
                      'alphamat': alphamat2,
-                     'ndir': self.optimizer_options['ndir'],
+                     'ndir': optimizer_options['ndir'],
                      'trimming': self.trimming,
                      'biascorr': biascorr, 
                      'dmetric' : 'euclidean',
@@ -537,9 +536,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     objf = -1000
                     afinbest = afin
                     ii = 0
-                    maxiter_2j = 2**round(np.log2(self.optimizer_options['maxiter'])) 
+                    maxiter_2j = 2**round(np.log2(optimizer_options['maxiter'])) 
                 
-                    while ((ii < self.optimizer_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
+                    while ((ii < optimizer_options['maxiter'] + 1) and (abs(objfold - objf)/abs(objf) > 1e-4)):
                         for j in np.arange(0,p):
                             projmat = np.array([np.array(Zopt[:,0]).reshape(-1),
                                          np.array(Z[:,j]).reshape(-1)]).T
-- 
2.43.0


From 9fb53ac6e3bf00cb48f1490296ed305bd2c89eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 12/58] fix: ppdire publishes the attributes its documentation
 promises

---
 src/direpack/ppdire/ppdire.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index ef79eb5..d1c4d92 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -409,6 +409,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         B_scaled = np.zeros((p,h))
         C = np.zeros((h,1))
         Xev = np.zeros((h,1))
+        yev = np.zeros((h,1))
         assovec = np.zeros((h,1))
         Maxobjf = np.zeros((h,1))
 
@@ -653,6 +654,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             W[:,i] = wi
             T[:,i] = np.array(ti).reshape(-1)
             P[:,i] = np.array(pi).reshape(-1)
+            Xev[i] = nti**2 * np.sum(np.square(pi)) / np.sum(np.square(Xs)) * 100
             
             if flag != 'one-block':
                 criteval = self.most.fit(np.dot(E,wi0),
@@ -687,6 +689,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 # end regression if
                 
                 C[i] = ci
+                yev[i] = np.sum(np.square(nti*C[i])) / np.sum(np.square(ys)) * 100
                 bi = np.dot(R,C[0:(i+1)])
                 bi_scaled = bi
                 bi = np.multiply(np.reshape(sy/sX,(p,1)),bi)
@@ -740,12 +743,15 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             setattr(self,"residuals_",r)
             setattr(self,"fitted_",yfit)
             setattr(self,"y_loadings_",C)
+            setattr(self,"C_",C)
+            setattr(self,"y_ev_",yev)
             setattr(self,"y_loc_",my)
             setattr(self,"y_sca_",sy)
                 
         setattr(self,"x_weights_",W)
         setattr(self,"x_loadings_",P)
         setattr(self,"x_rotations_",R)
+        setattr(self,"x_Rweights_",R)
         setattr(self,"x_scores_",T)
         setattr(self,"x_ev_",Xev)
         setattr(self,"crit_values_",assovec)
-- 
2.43.0


From 97a1ba63e8813b3661e3bd722883f0946fce9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 13/58] fix: sudire publishes the location and scale of y

---
 src/direpack/sudire/sudire.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 1b7a14a..ccd09fb 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -581,6 +581,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "whitening_", K)
         setattr(self, "x_loc_", mX)
         setattr(self, "x_sca_", sX)
+        if flag != "one-block":
+            setattr(self, "y_loc_", my)
+            setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
         if self.return_scaling_object and self.center != "mean":
-- 
2.43.0


From fd6627c8684efa95af040402ad6213a3a37a5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 14/58] fix: snipls publishes its scaled intercept

---
 src/direpack/sprm/snipls.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 9092331..40b7388 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -251,10 +251,13 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         yp_rescaled = dot(X, B_rescaled)
         if self.centre == "mean":
             intercept = np.nanmean(y - yp_rescaled)
+            b0 = np.nanmean(y0 - dot(X0, B))
         elif self.centre == "None":
             intercept = 0
+            b0 = 0
         else:
             intercept = np.nanmedian(y - yp_rescaled)
+            b0 = np.nanmedian(y0 - dot(X0, B))
         yfit = yp_rescaled + intercept
         yfit = yfit.reshape(-1)
         r = y.ravel() - yfit
@@ -265,6 +268,7 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "coef_", B_rescaled)
         setattr(self, "coef_scaled_", B)
         setattr(self, "intercept_", intercept)
+        setattr(self, "intercept_scaled_", b0)
         setattr(self, "x_ev_", Xev)
         setattr(self, "y_ev_", yev)
         setattr(self, "fitted_", yfit)
-- 
2.43.0


From 815a990df6ff8860c0a5888d3f32f68de085e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 15/58] fix: snipls never returns uninitialised memory when no
 variable is retained

---
 src/direpack/sprm/snipls.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index 40b7388..b499b6a 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -160,12 +160,12 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             S = np.matmul(X0.T, X0)
             dot = np.dot
         s0 = dot(X0.T, y0)
-        T = np.empty((n, self.n_components), float)
-        W = np.empty((p, self.n_components), float)
-        P = np.empty((p, self.n_components), float)
-        C = np.empty((self.n_components, 1), float)
-        Xev = np.empty((self.n_components, 1), float)
-        yev = np.empty((self.n_components, 1), float)
+        T = np.zeros((n, self.n_components), float)
+        W = np.zeros((p, self.n_components), float)
+        P = np.zeros((p, self.n_components), float)
+        C = np.zeros((self.n_components, 1), float)
+        Xev = np.zeros((self.n_components, 1), float)
+        yev = np.zeros((self.n_components, 1), float)
         B = np.empty((p, 1), float)
         oldgoodies = np.array([])
         Xi = X0
-- 
2.43.0


From a78dd358835000b6dec4c89f274ad25d732a5889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 16/58] fix: sudire refits from its options, not from the
 optimizer state of an earlier fit

---
 src/direpack/sudire/sudire.py | 51 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index ccd09fb..b2ee93d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -432,8 +432,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             T = np.matmul(self.X0, P)
         else:  # SDR obtained through optimization of some function
 
+            optimizer_start = self.optimizer_start
+            optimizer_constraints = self.optimizer_constraints
+            optimizer_arguments = self.optimizer_arguments
             ## choose starting value for DCOV-SDR
-            if self.optimizer_start is None:
+            if optimizer_start is None:
                 save_start = SAVE(
                     Xs, ys, 3, self.n_components, center_data, scale_data
                 )
@@ -456,13 +459,13 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 beta_DR = orth(DR_start)
                 dc_DR = dc.distance_covariance_sqr(np.matmul(Xs, beta_DR), y)
                 if dc_save >= dc_sir and dc_save >= dc_DR:
-                    self.optimizer_start = save_start.flatten(order="F")
+                    optimizer_start = save_start.flatten(order="F")
                 elif dc_sir >= dc_save and dc_sir >= dc_DR:
-                    self.optimizer_start = sir_start.flatten(order="F")
+                    optimizer_start = sir_start.flatten(order="F")
                 else:
-                    self.optimizer_start = DR_start.flatten(order="F")
+                    optimizer_start = DR_start.flatten(order="F")
             ## add constraints for the optimization
-            if self.optimizer_constraints is None:
+            if optimizer_constraints is None:
                 const_x = []
                 const_z = []
                 for i in range(0, self.n_components):
@@ -482,12 +485,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                             }
                         )
                 if scale_data:
-                    self.optimizer_constraints = tuple(const_z)
+                    optimizer_constraints = tuple(const_z)
                 else:
-                    self.optimizer_constraints = tuple(const_x)
-            if self.optimizer_arguments is None:
+                    optimizer_constraints = tuple(const_x)
+            if optimizer_arguments is None:
                 N2 = inv(sqrtm(varmatx))
-                self.optimizer_arguments = (
+                optimizer_arguments = (
                     Xs,
                     ys,
                     self.n_components,
@@ -501,9 +504,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             # perform DCOV-SDR optimization
             res = minimize_ipopt(
                 dcov_trim,
-                self.optimizer_start,
-                args=self.optimizer_arguments,
-                constraints=self.optimizer_constraints,
+                optimizer_start,
+                args=optimizer_arguments,
+                constraints=optimizer_constraints,
                 options=self.optimizer_options,
             )
             if scale_data:
@@ -517,12 +520,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "bcov-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_ball = minimize_ipopt(
                     ballcov_func,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if scale_data:
@@ -534,12 +537,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             elif self.sudiremeth == "mdd-sdr":
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 res_mdd = minimize_ipopt(
                     mdd_trim,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if scale_data:
@@ -551,12 +554,12 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
             else:  ## user defined function
-                self.optimizer_start = dcov_res.flatten(order="F")
+                optimizer_start = dcov_res.flatten(order="F")
                 opt_res = minimize_ipopt(
                     self.sudiremeth,
-                    self.optimizer_start,
-                    args=self.optimizer_arguments,
-                    constraints=self.optimizer_constraints,
+                    optimizer_start,
+                    args=optimizer_arguments,
+                    constraints=optimizer_constraints,
                     options=self.optimizer_options,
                 )
                 if scale_data:
-- 
2.43.0


From 0c0bda81c8d21d2a47e059e01e2b8d2bb6fb87c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 17/58] fix: sprm, snipls and dicomo do not overwrite their
 options while fitting

---
 src/direpack/dicomo/dicomo.py | 41 ++++++++++++++++++-----------------
 src/direpack/sprm/snipls.py   | 17 ++++++++-------
 src/direpack/sprm/sprm.py     | 36 +++++++++++++++---------------
 3 files changed, 49 insertions(+), 45 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 8004edb..d7550b3 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -141,6 +141,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         else:
             order = kwargs.get('order')
             
+        center = self.center
         if self.mode == 'var':
             mode = 'mom' 
             order=2
@@ -148,17 +149,17 @@ class dicomo(_BaseComposition,BaseEstimator):
             mode = 'com'
             order=2
         elif self.mode == 'std':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order=2
             num_power = 0.5
         elif self.mode == 'skew':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 3
             num_power = 1.5
         elif self.mode == 'kurt':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'mom'
             order = 4
             num_power = 2
@@ -167,7 +168,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 Fisher = kwargs.get('Fisher')
         elif self.mode == 'cos':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -175,7 +176,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'M3':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 3
             if 'standardized' not in kwargs:
@@ -183,7 +184,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 standardized = kwargs.get('standardized')
         elif self.mode == 'cok':
-            self.center = 'mean'
+            center = 'mean'
             mode = 'com'
             order = 4
             if 'standardized' not in kwargs:
@@ -217,7 +218,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         if n==0:
             raise(MyException('Please feed data with length > 0'))
             
-        if self.center == 'median':
+        if center == 'median':
             locest = np.median
         else:
             locest = trim_mean
@@ -318,13 +319,13 @@ class dicomo(_BaseComposition,BaseEstimator):
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
                     if (mode in ['mdd','mdc']):
-                        como=np.sqrt(difference_divergence(x,y,center=self.center,trimming=trimming,biascorr=biascorr))
+                        como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
                         if mode=='mdd':
                             self.moment_ = como 
                         else:
-                            xmom=difference_divergence(x,x,center=self.center,trimming=trimming,biascorr=biascorr)
-                            ymom=difference_divergence(y,y,center=self.center,trimming=trimming,biascorr=biascorr)
+                            xmom=difference_divergence(x,x,center=center,trimming=trimming,biascorr=biascorr)
+                            ymom=difference_divergence(y,y,center=center,trimming=trimming,biascorr=biascorr)
                             self.x_moment_ = xmom
                             self.y_moment_ = ymom
                             mode = 'corr'
@@ -332,7 +333,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                     else:
                         dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric) 
                         bcov_res=Ball.bcov_test(x,y,num_permutations=0)[0]
                         self.moment_ = bcov_res
@@ -340,7 +341,7 @@ class dicomo(_BaseComposition,BaseEstimator):
                 
                 
             
-            elif (calcmode=='fast' and self.center =='mean' and trimming == 0 and order==2):
+            elif (calcmode=='fast' and center =='mean' and trimming == 0 and order==2):
                 if mode != 'com':
                     if biascorr:
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
@@ -373,18 +374,18 @@ class dicomo(_BaseComposition,BaseEstimator):
             else:
                 dmx, n1 = distance_matrix_centered(x,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                 
                 # Variance
                 if mode!='com':
                     
-                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    xmom = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         
                     self.x_moment_ = xmom
                     
                     if self.mode in ('std','skew','kurt'):
-                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2mom =distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         xmom /= x2mom**num_power
                         
                     if mode=='mom':
@@ -404,10 +405,10 @@ class dicomo(_BaseComposition,BaseEstimator):
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-                                                   center=self.center,
+                                                   center=center,
                                                    dmetric=dmetric)
                     
-                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                    como = distance_moment(dmx,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                     
                     self.co_moment_ = como
                     
@@ -415,14 +416,14 @@ class dicomo(_BaseComposition,BaseEstimator):
                         self.moment_ = como
                         
                     if self.mode in ('cok','cos'):
-                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        x2sd = distance_moment(dmx,dmx,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         x2sd = np.sqrt(x2sd)
-                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=self.center,trimming=trimming,order=2,option=option)
+                        y2sd = distance_moment(dmy,dmy,n1=n1,biascorr=biascorr,center=center,trimming=trimming,order=2,option=option)
                         y2sd = np.sqrt(y2sd)
                     
                     if mode in ['corr','continuum','cok','cos']:
                         
-                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=self.center,trimming=trimming,order=order,option=option)
+                        ymom = distance_moment(dmy,dmy,n1=n,biascorr=biascorr,center=center,trimming=trimming,order=order,option=option)
                         self.y_moment_ = ymom
                     
         if mode == 'corr': 
diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index b499b6a..f6c57da 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -112,18 +112,19 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     Response data
 
         """
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
             X = X.to_numpy()
         (n, p) = X.shape
         if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
@@ -210,10 +211,10 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             )
             yev[i - 1] = np.nansum(nth ** 2 * (ch ** 2)) / \
                 np.nansum(np.power(y0, 2)) * 100
-            if type(self.columns) == bool:
+            if type(columns) == bool:
                 colret = goodies
             else:
-                colret = self.columns[np.setdiff1d(range(0, p), elimvars)]
+                colret = columns[np.setdiff1d(range(0, p), elimvars)]
             if self.verbose:
                 print(
                     "Variables retained for "
diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index b1ec22d..e507333 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -192,31 +192,33 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 raise MyException(
                     "Wrong choise of parameters for Hampel function. Use 0<probp1<hampelp2<hampelp3<=1"
                 )
-        if type(self.columns) is list:
-            self.columns = np.array(self.columns)
-        elif type(self.columns) is bool:
-            if type(X) != ps.core.frame.DataFrame and self.columns:
+        columns = self.columns
+        scale = self.scale
+        if type(columns) is list:
+            columns = np.array(columns)
+        elif type(columns) is bool:
+            if type(X) != ps.core.frame.DataFrame and columns:
                 raise (
                     MyException(
                         "Columns set to true can only extract column names for data frame input"
                     )
                 )
         if type(X) == ps.core.frame.DataFrame:
-            if type(self.columns) is bool and self.columns:
-                self.columns = X.columns
+            if type(columns) is bool and columns:
+                columns = X.columns
         X = _check_input(X)
         y = _check_input(y)
         ny = y.shape[0]
         if ny != n:
             raise MyException("Number of cases in y and X must be identical.")
 
-        if self.scale == "scaleTau2":
+        if scale == "scaleTau2":
             if (mad(X) == 0).any():
                 # kstepLTS divides by MAD. Zero MAD leads to nan -> detect zero MAD, scale by MAD and remove zero MAD variable.
-                self.scale = "mad"
+                scale = "mad"
                 warnings.warn("Scale set to `mad`")
 
-        scaling = VersatileScaler(center=self.centre, scale=self.scale)
+        scaling = VersatileScaler(center=self.centre, scale=scale)
         Xs = scaling.fit_transform(X).astype("float64")
         mX = scaling.col_loc_
         sX = scaling.col_sca_
@@ -232,10 +234,10 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         zero_scale = np.where(sX < 1e-5)[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
-            if type(self.columns) != bool:
+            if type(columns) != bool:
                 warntext = (
                     "Zero scale variables with indices "
-                    + str(self.columns[zero_scale])
+                    + str(columns[zero_scale])
                     + " detected and removed"
                 )
             else:
@@ -250,8 +252,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Xs = Xs[:, vars_to_keep]
             X = X[:, vars_to_keep]
             sX = sX[vars_to_keep]
-            if type(self.columns) != bool:
-                self.columns = self.columns[vars_to_keep]
+            if type(columns) != bool:
+                columns = columns[vars_to_keep]
             p = len(vars_to_keep)
             if self.n_components > p:
                 raise MyException(
@@ -273,7 +275,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             Us = Xs
         wx = np.sqrt(np.array(np.sum(np.square(Us), 1), dtype=np.float64))
         wx = wx / np.median(wx)
-        if [self.centre, self.scale] == ["median", "mad"]:
+        if [self.centre, scale] == ["median", "mad"]:
             wy = np.array(abs(ys), dtype=np.float64)
         else:
             wy = (y - np.median(y, axis=0)) / (
@@ -324,7 +326,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.eta,
             self.n_components,
             self.verbose,
-            self.columns,
+            columns,
             "mean",
             "None",
             self.copy,
@@ -340,7 +342,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 r = abs(r) / (1.4826 * np.median(abs(r)))
             else:
                 r = abs(r) / (1.4826 * np.median(abs(r[r != 0])))
-            scalet = self.scale
+            scalet = scale
             if scalet == "None":
                 scalingt.set_params(scale="mad")
             dt = scalingt.fit_transform(T)
@@ -418,7 +420,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             intercept = np.median(y - yp_rescaled, axis=0)
         # This median calculation produces slightly different result in R and Py
         yfit = yp_rescaled + intercept
-        if self.scale != "None":
+        if scale != "None":
             if self.centre == "mean":
                 b0 = np.mean(ys.astype("float64") -
                              np.matmul(Xs.astype("float64"), b))
-- 
2.43.0


From 9054796efb3f95f758c3b9b49d1f5dfda850e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 18/58] fix: capi keeps every option and evaluates the
 projection index it is set to

---
 src/direpack/ppdire/capi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/capi.py b/src/direpack/ppdire/capi.py
index 312faf9..2b41604 100644
--- a/src/direpack/ppdire/capi.py
+++ b/src/direpack/ppdire/capi.py
@@ -66,7 +66,7 @@ class capi(_BaseComposition, BaseEstimator):
         self.projection_index = projection_index
         self.pi_arguments = pi_arguments
         self.weights = weights
-        self.most = self.projection_index(**self.pi_arguments)
+        self.centring = centring
         self.scaling = scaling
         self.options = options
         self.capi_index_ = None
@@ -86,6 +86,7 @@ class capi(_BaseComposition, BaseEstimator):
             options = np.arange(1, 4)
         else:
             options = np.array(self.options, ndmin=1)
+        self.most = self.projection_index(**self.pi_arguments)
         moments = np.zeros(6)
         fit_arguments = {"order": 0, "y": y}
         fit_arguments = {**kwargs, **fit_arguments}
-- 
2.43.0


From cca3e036f117eaa578880343c1e449895172a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 19/58] fix: inverse_transform undoes the scaling of constant
 columns

---
 src/direpack/preprocessing/robcent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index bc6c176..3a1ae96 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -58,7 +58,11 @@ from ..utils.utils import (
     _check_input,
 )
 from ._preproc_utilities import *
-from ._preproc_utilities import _check_trimming, wrap_univ
+from ._preproc_utilities import (
+    _check_trimming,
+    _handle_zeros_in_scale,
+    wrap_univ,
+)
 
 __all__ = ["VersatileScaler", "robcent", "versatile_scale", "Wrapper", "wrap"]
 
@@ -194,7 +198,9 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         else:
             Xs = self.datas_
 
-        return np.multiply(Xs, self.scale_) + self.center_
+        return (
+            np.multiply(Xs, _handle_zeros_in_scale(self.scale_)) + self.center_
+        )
 
 
 # For backwards compatibility
-- 
2.43.0


From e26684d18df5574ca138298026283feef0ba0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 20/58] fix: scalers treat a single new case as a case and
 refuse other column counts

---
 src/direpack/preprocessing/robcent.py | 11 ++++++-----
 src/direpack/utils/utils.py           | 16 ++++++++++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/direpack/preprocessing/robcent.py b/src/direpack/preprocessing/robcent.py
index 3a1ae96..801a307 100644
--- a/src/direpack/preprocessing/robcent.py
+++ b/src/direpack/preprocessing/robcent.py
@@ -56,6 +56,7 @@ from ..utils.utils import (
     convert_X_input,
     convert_y_input,
     _check_input,
+    _check_columns,
 )
 from ._preproc_utilities import *
 from ._preproc_utilities import (
@@ -157,8 +158,8 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Center and/or scale training data to pre-estimated location and scale
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_columns(X, len(self.center_))
 
         Xs = scale_data(X, self.center_, self.scale_)
         setattr(self, "datas_", Xs)
@@ -171,7 +172,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_columns(Xn, len(self.col_loc_))
         Xns = scale_data(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datans_", Xns)
 
@@ -194,7 +195,7 @@ class VersatileScaler(_BaseComposition, TransformerMixin, BaseEstimator):
 
         check_is_fitted(self, ["center_", "scale_"])
         if Xs is not None:
-            Xs = _check_input(Xs)
+            Xs = _check_columns(Xs, len(self.center_))
         else:
             Xs = self.datas_
 
@@ -300,8 +301,8 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Project data points to their wrapped counterparts
         """
 
-        X = _check_input(X)
         check_is_fitted(self, ["center_", "scale_"])
+        X = _check_columns(X, len(self.center_))
 
         Xw = wrap(X, self.center_, self.scale_)
         setattr(self, "dataw_", Xw)
@@ -314,7 +315,7 @@ class Wrapper(_BaseComposition, TransformerMixin, BaseEstimator):
         Number of columns needs to match.
         """
 
-        Xn = _check_input(Xn)
+        Xn = _check_columns(Xn, len(self.col_loc_))
         Xnw = wrap(Xn, self.col_loc_, self.col_sca_)
         setattr(self, "datanw_", Xnw)
 
diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 4f42933..801a13a 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -80,6 +80,22 @@ def _check_input(X):
     return(X)
 
 
+def _check_columns(X, p):
+    """
+    Check new data against the p columns a transformer was fitted to. A single
+    case can be provided as a vector or as a one row table.
+    """
+
+    Xc = _check_input(X)
+    if Xc.shape == (p, 1) and np.shape(X) in ((p,), (1, p)):
+        Xc = Xc.reshape((1, p))
+    if Xc.shape[1] != p:
+        raise ValueError(
+            "New data must have same number of columns as the ones the model has been trained with"
+        )
+    return Xc
+
+
 def nandot(X, y):
 
     p, n = X.shape
-- 
2.43.0


From 75edbe9eea0417da623897346a0b5bafb01c6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 21/58] fix: wrapping new data uses the location and scale of
 the training data

---
 src/direpack/preprocessing/_preproc_utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 2d60438..322d4ae 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -333,9 +333,11 @@ def wrap_univ(dd, scale=False, locX=None, scaleX=None):
     if dd.dtype == "O":
         dd = dd.astype("float")
     if scale:
-        locX = median(dd)
-        scaleX = mad(dd)
-        xi = (dd - locX) / scaleX
+        if locX is None:
+            locX = median(dd)
+        if scaleX is None:
+            scaleX = mad(dd)
+        xi = (dd - locX) / _handle_zeros_in_scale(scaleX)
     else:
         xi = np.array(dd)
     indMid = np.where((np.abs(xi) < c) & (np.abs(xi) >= b))[0]
-- 
2.43.0


From b1da85ba18a34390abc6fb15a8d27d0c7018b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 22/58] fix: generalized spatial sign functions accept their
 documented options

---
 src/direpack/preprocessing/gsspp.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/direpack/preprocessing/gsspp.py b/src/direpack/preprocessing/gsspp.py
index baf33bb..33a95c9 100644
--- a/src/direpack/preprocessing/gsspp.py
+++ b/src/direpack/preprocessing/gsspp.py
@@ -103,9 +103,6 @@ def gen_ss_pp(X,center='l1median',fun='linear_redescending'):
     Outputs: the pre-processed data 
     """    
     
-    if type(center) is str: 
-        center = eval(center)
-            
     if type(fun) is str: 
         fun = eval(fun)
     
@@ -151,8 +148,10 @@ def gen_ss_covmat(X,center='kstepLTS',fun=linear_redescending):
     rc = VersatileScaler(center=center, scale='None')
     n,p = X.shape
     Xm = rc.fit_transform(X)
+    if type(fun) is str: 
+        fun = eval(fun)
     Xgss = _gsspp(Xm,p,n,fun=fun)
-    return(Xgss.T*Xgss/n)
+    return(np.matmul(Xgss.T,Xgss)/n)
     
     
 
-- 
2.43.0


From 9f6c4e0cbadc97eb5a9251d874e4a9d7a787abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 23/58] fix: Huber and Hampel weights leave the distances they
 are given intact

---
 src/direpack/sprm/_m_support_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 1a13cbc..58b5f73 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -15,13 +15,14 @@ def Fair(x, probct, *args):
 
 
 def Huber(x, probct, *args):
-    x[np.where(x <= probct)[0]] = 1
-    x[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
-    return x
+    wx = np.array(x, dtype=np.float64)
+    wx[np.where(x <= probct)[0]] = 1
+    wx[np.where(x > probct)] = probct / abs(x[np.where(x > probct)])
+    return wx
 
 
 def Hampel(x, probct, hampelb, hampelr):
-    wx = x
+    wx = np.array(x, dtype=np.float64)
     wx[np.where(x <= probct)[0]] = 1
     wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
         x[np.where((x > probct) & (x <= hampelb))[0]]
-- 
2.43.0


From 9817f66cada3176d6cfbb44726ada08c6e1a9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:36 +0000
Subject: [PATCH 24/58] fix: robust_loss accepts pandas objects whatever their
 index

---
 src/direpack/cross_validation/_cv_support_functions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/direpack/cross_validation/_cv_support_functions.py b/src/direpack/cross_validation/_cv_support_functions.py
index 56a7f23..1bd0c96 100644
--- a/src/direpack/cross_validation/_cv_support_functions.py
+++ b/src/direpack/cross_validation/_cv_support_functions.py
@@ -46,12 +46,8 @@ def robust_loss(y,ypred,lfun=mean_squared_error,fun=Hampel,probct=norm.ppf(0.975
         loss, float
     """            
     
-    if len(ypred.shape) > 1:
-        ypred = np.array(ypred).reshape(-1)
-    ypred = ypred.astype('float64')
-    if len(y.shape) > 1:
-        y = np.array(y).reshape(-1)
-    y = y.astype('float64')
+    ypred = np.array(ypred).reshape(-1).astype('float64')
+    y = np.array(y).reshape(-1).astype('float64')
     r = y - ypred
     w = fun(r,probct,hampelb,hampelr)
     return(lfun(y,ypred,sample_weight=w))
-- 
2.43.0


From 6da39a14b16c9364a82fd65529d5d890792517ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 25/58] fix: plots raise the errors they construct

---
 src/direpack/plot/ppdire_plot.py | 4 ++--
 src/direpack/plot/sprm_plot.py   | 8 ++++----
 src/direpack/plot/sudire_plot.py | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index 147bbf3..c35b292 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -73,7 +73,7 @@ class ppdire_plot(ppdire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise(ValueError('In onlyval=True mode, new cases Xn need to be provided'))
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -131,7 +131,7 @@ class ppdire_plot(ppdire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise(ValueError('In onlyval=True mode, new cases Xn need to be provided'))
         if not(len(Xn)==0):
             Tv = np.array(self.res_ppdire.transform(Xn))
             labelvr = label + ' Test'  
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 948ebdc..aed2c17 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -107,7 +107,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise(ValueError('In onlyval=True mode, new cases Xn need to be provided'))
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -231,7 +231,7 @@ class sprm_plot(sprm):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[2])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise(ValueError('In onlyval=True mode, new cases Xn need to be provided'))
         if not(len(Xn)==0):
             Tv = np.array(self.res_sprm.transform(Xn))
             labelvr = label[0] + ' Test' + ' Regular'
@@ -301,13 +301,13 @@ class sprm_plot(sprm):
             elif mode == 'y':
                 wc = self.res_sprm.y_caseweights_
             else:
-                ValueError('Options for mode are overall, x or y')
+                raise(ValueError('Options for mode are overall, x or y'))
             labelc = label[0] + ' Training' 
         else:
             wc = []
             labelc=[]
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise(ValueError('In onlyval=True mode, new cases Xn need to be provided'))
         if not(len(Xn)==0):
             wv = self.res_sprm.weightnewx(Xn)
             labelv = label[0] + ' Test'
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d4024c3..d9a652f 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -73,7 +73,7 @@ class sudire_plot(sudire):
             
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise(ValueError('In onlyval=True mode, new cases Xn need to be provided'))
         if not(len(Xn)==0):
             if len(ytruev.shape) >1:
                 ytruev = np.array(ytruev).reshape(-1).astype('float64')
@@ -130,7 +130,7 @@ class sudire_plot(sudire):
                     zorder=1,edgecolors=self.colors[4],marker=self.markers[0])
         else:
             if (len(Xn)==0):
-                ValueError('In onlyval=True mode, new cases Xn need to be provided')
+                raise(ValueError('In onlyval=True mode, new cases Xn need to be provided'))
         if not(len(Xn)==0):
             Tv = np.array(self.res_sudire.transform(Xn))
             ax1.scatter(Tv[:,components[0]], Tv[:,components[1]],c=self.colors[5],label=label,
-- 
2.43.0


From f382e23f6a0e009b03767bd5479fddc956cbabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 26/58] fix: plots annotate every named case

---
 src/direpack/plot/ppdire_plot.py |  8 ++++----
 src/direpack/plot/sprm_plot.py   | 12 ++++++------
 src/direpack/plot/sudire_plot.py |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index c35b292..a3605cf 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -93,10 +93,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -143,10 +143,10 @@ class ppdire_plot(ppdire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index aed2c17..017165e 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -137,10 +137,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -256,10 +256,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
@@ -325,10 +325,10 @@ class sprm_plot(sprm):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (name_indices[i+1],wc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
         if len(title)>0:
             pp.title(title)
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index d9a652f..fd2cceb 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -93,10 +93,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (ytruec[i],ypredc[i]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (ytruev[i],ypredv[i]))
         if len(title)>0:
             pp.title(title)
@@ -141,10 +141,10 @@ class sudire_plot(sudire):
             pp.legend(loc=legend_pos)
         if len(names)>0:
             if not(onlyval):
-                for i in range(0,len(names)-1):
+                for i in range(0,len(names)):
                     ax1.annotate(names[i], (Tc[i,components[0]], Tc[i,components[1]]))
         if len(namesv)>0:
-            for i in range(0,len(namesv)-1):
+            for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (Tv[i,components[0]], Tv[i,components[1]]))
         if len(title)>0:
             pp.title(title)
-- 
2.43.0


From d47dbd8b21a678d89f6d25159105ed98b91d6736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 27/58] fix: dicomo accepts its documented martingale
 difference correlation mode

---
 src/direpack/dicomo/dicomo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d7550b3..56a4787 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -70,7 +70,7 @@ class dicomo(_BaseComposition,BaseEstimator):
         self.est=est
         self.center=center
         self.liest = ['arithmetic','distance','sign','entropy']
-        self.limo = ['mom','var','std','skew','kurt','com','cov','cok','cos','corr','continuum','M3', 'mdd','ballcov']
+        self.limo = ['mom','var','std','skew','kurt','com','cov','cok','cos','corr','continuum','M3', 'mdd','mdc','ballcov']
         self.licenter = ['mean','median']
         if not(self.mode in self.limo):
             raise(MyException("Only models allowed are: 'mom','var','skew','kurt','com','cov','cos','cok','corr','continuum','M3','mdd','mdc','ballcov'"))
-- 
2.43.0


From 9375ae91731b2e3afd1c4cccf4035553315be76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 28/58] fix: dicomo refuses estimator classes it does not
 implement

---
 src/direpack/dicomo/dicomo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 56a4787..d2bdb2f 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -69,13 +69,13 @@ class dicomo(_BaseComposition,BaseEstimator):
         self.mode = mode
         self.est=est
         self.center=center
-        self.liest = ['arithmetic','distance','sign','entropy']
+        self.liest = ['arithmetic','distance']
         self.limo = ['mom','var','std','skew','kurt','com','cov','cok','cos','corr','continuum','M3', 'mdd','mdc','ballcov']
         self.licenter = ['mean','median']
         if not(self.mode in self.limo):
             raise(MyException("Only models allowed are: 'mom','var','skew','kurt','com','cov','cos','cok','corr','continuum','M3','mdd','mdc','ballcov'"))
         if not(self.est in self.liest):
-            raise(MyException('Only estimator classes allowed are: "arithmetic", "distance", "sign", "entropy"'))
+            raise(MyException('Only estimator classes allowed are: "arithmetic", "distance"'))
         if not(self.center in self.licenter):
             raise(MyException('Only centring classes allowed are: "mean", "median"'))
         if (self.est=='arithmetic' and self.mode in ['mdd','mdc']):
-- 
2.43.0


From 6829549acab34c599ec0a5d9c88069d863b6077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 29/58] fix: dicomo distance co-moments accept a vector as
 second block

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index d2bdb2f..b27010e 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -402,6 +402,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please feed data with length > 0'))
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length'))
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     
                     dmy, n2 = distance_matrix_centered(y,biascorr=biascorr,
                                                    trimming=trimming,
-- 
2.43.0


From ca5035715451cae614784dd9b7efd903c320c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 30/58] fix: distance_moment does not modify the distance
 matrices it is given

---
 src/direpack/dicomo/_dicomo_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/dicomo/_dicomo_utils.py b/src/direpack/dicomo/_dicomo_utils.py
index fae2edf..69320a4 100644
--- a/src/direpack/dicomo/_dicomo_utils.py
+++ b/src/direpack/dicomo/_dicomo_utils.py
@@ -300,11 +300,11 @@ def distance_moment(dmx,dmy,**kwargs):
     if order>2:
         i = 1
         while i < iter_stop_1:  
-            dmx *= dmx
+            dmx = dmx * dmx
             i += 1
         i = 1
         while i < iter_stop_2:  
-            dmy *= dmy
+            dmy = dmy * dmy
             i += 1
         
         
-- 
2.43.0


From a076b42ad53889185a504759150d90909d8180e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 31/58] fix: sprm.weightnewx leaves the fitted model as it was

---
 src/direpack/sprm/sprm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index e507333..b7f2c78 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -523,7 +523,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Tn = self.transform(Xn)
-        scaling = self.scalingt_
+        scaling = copy.deepcopy(self.scalingt_)
         scalet = self.scale
         if scalet == "None":
             scaling.set_params(scale="mad")
-- 
2.43.0


From 56ae5060095833af75c385b085065fc4b3fbb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 32/58] fix: martingale difference correlation accepts a vector
 as second block

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index b27010e..89be305 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -318,6 +318,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         raise(MyException('Please feed data with length > 0'))
                     if n1!=n:
                         raise(MyException('Please feed x and y data of equal length')) 
+                    if len(y.shape)==1:
+                        y = np.array(y).reshape((n,1))
                     if (mode in ['mdd','mdc']):
                         como=np.sqrt(difference_divergence(x,y,center=center,trimming=trimming,biascorr=biascorr))
                         self.co_moment_ = como
-- 
2.43.0


From fae16e80b55ca3366aa1a99f1dac656558b56f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:43 +0000
Subject: [PATCH 33/58] fix: snipls: rotation matrix keeps one column per
 component when no variable is retained

---
 src/direpack/sprm/snipls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index f6c57da..c99fed2 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -245,7 +245,7 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         else:
             B = np.empty((p, 1))
             B.fill(0)
-            R = B
+            R = np.zeros((p, self.n_components))
             T = np.empty((n, self.n_components))
             T.fill(0)
         B_rescaled = np.multiply(np.array(sy / sX).reshape((p, 1)), B)
-- 
2.43.0


From d2240b4644ad576fd2bda007be15acc3060a9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:43 +0000
Subject: [PATCH 34/58] fix: sudire: scores of data frame input are an array
 like those of array input

---
 src/direpack/sudire/sudire.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index b2ee93d..d844c37 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -250,8 +250,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             X0 = copy.deepcopy(X)
         else:
             X0 = X
+        X0 = convert_X_input(X0)
         self.X0 = X0
-        X = convert_X_input(X0)
+        X = X0
         n, p = X0.shape
         trimming = self.trimming
 
-- 
2.43.0


From ccc284273f6d57a1e257329e455a1cfe13f3d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:43 +0000
Subject: [PATCH 35/58] fix: ppdire: a fit starts without the results of an
 earlier fit

---
 src/direpack/ppdire/ppdire.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index d1c4d92..3afd41c 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -223,6 +223,10 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
         # Collect optional fit arguments
         biascorr = kwargs.pop('biascorr',False)
             
+        # Results of an earlier fit do not belong to this one
+        for name in [a for a in vars(self) if a.endswith('_')]:
+            delattr(self,name)
+
         if 'h' not in kwargs:
             h = self.n_components
         else:
-- 
2.43.0


From 4123dc8f7601b45e1cd2c273178355a611a4ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:43 +0000
Subject: [PATCH 36/58] fix: sudire: a fit starts without the results of an
 earlier fit

---
 src/direpack/sudire/sudire.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index d844c37..76e148d 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -227,6 +227,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         -------
         """
 
+        # Results of an earlier fit do not belong to this one
+        for name in [a for a in vars(self) if a.endswith("_")]:
+            delattr(self, name)
+
         # Collect optional fit arguments
 
         if "dmetric" not in kwargs:
-- 
2.43.0


From 893443c15f6a04f6a52ca4199c3623e37daf5907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 37/58] fix: sudire: no scaling object is returned when the
 data are neither centred nor scaled

---
 src/direpack/sudire/sudire.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 76e148d..cc0dfac 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -594,7 +594,11 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
         setattr(self, "ols_obj_", ols_obj)
-        if self.return_scaling_object and self.center != "mean":
+        if (
+            self.return_scaling_object
+            and self.center != "mean"
+            and (center_data or scale_data)
+        ):
             setattr(self, "scaling_object_", centring)
         return self
 
-- 
2.43.0


From 809099f4732c34c66b571eb26a8599a377a66c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 38/58] fix: sudire: predict adds the intercept column for a
 single new case as well

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index cc0dfac..83c5d96 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -662,7 +662,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 )
             )
         Xns = self.transform(Xn)
-        Xns = sm.add_constant(Xns)  # adding a constant
+        Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
         return ys
 
-- 
2.43.0


From ef464b29254b8fa1c6f750f5f315fe66a86c008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 39/58] fix: a response given as one-column data frame keeps
 its orientation

---
 src/direpack/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/utils/utils.py b/src/direpack/utils/utils.py
index 801a13a..8543833 100644
--- a/src/direpack/utils/utils.py
+++ b/src/direpack/utils/utils.py
@@ -24,7 +24,7 @@ def convert_X_input(X):
 def convert_y_input(y):
 
     if type(y) in [ps.core.frame.DataFrame, ps.core.series.Series]:
-        y = y.to_numpy().T.astype('float64')
+        y = y.to_numpy().astype('float64')
     return(y)
 
 
-- 
2.43.0


From dcefa5d13d4e98cbbcbc28cdee13cc1d79f27a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:24 +0000
Subject: [PATCH 40/58] fix: ppdire: dimensions follow the data when
 compression is abandoned

---
 src/direpack/ppdire/ppdire.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 3afd41c..6ef9479 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -344,10 +344,8 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                 warnings.warn('Due to low scales in data, compression would induce zero scales.' 
                               + '\n' + 'Proceeding without compression.')
                 dimensions = False
-                if copy:
-                    X = copy.deepcopy(X0)
-                else:
-                    X = X0
+                X = convert_X_input(copy.deepcopy(X0))
+                n,p = X.shape
             else:
                 dimensions = True
         else:
-- 
2.43.0


From 19299b33769d0bf4eee9e5f99faef228fab0584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:30 +0000
Subject: [PATCH 41/58] fix: ppdire: the scaled intercept belongs to the scaled
 coefficients

---
 src/direpack/ppdire/ppdire.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 6ef9479..53d14b2 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -729,9 +729,9 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
             yfit = np.matmul(X,bi) + intercept
             if not(scale == 'None'):
                 if (self.center == "mean"):
-                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),bi))
+                    b0 = np.mean(ys - np.matmul(Xs.astype("float64"),B_scaled[:,[h-1]].astype("float64")))
                 else:
-                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),bi)))
+                    b0 = np.median(np.array(ys.astype("float64") - np.matmul(Xs.astype("float64"),B_scaled[:,[h-1]].astype("float64"))))
             else:
                 b0 = intercept
             
-- 
2.43.0


From 0edcc0fb2d814bbe261a79e082ac0d8e529ed3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:30 +0000
Subject: [PATCH 42/58] fix: kstepLTS: convergence is judged relative to the
 spread of the data

---
 src/direpack/preprocessing/_preproc_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index 322d4ae..bafe5cb 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -225,7 +225,7 @@ def kstepLTS(X, maxit=5, tol=1e-10, **kwargs):
         cutdist = np.sort(dists, axis=0)[int(np.floor((n + 1) / 2)) - 1]
         hsubset = np.where(dists <= cutdist)[0]
         m2 = np.array(mean(X[hsubset, :])).reshape((p,))
-        unconverged = max(abs(m1 - m2)) > tol
+        unconverged = max(abs(m1 - m2)) > tol * np.sqrt(cutdist)
         iteration += 1
         m1 = copy.deepcopy(m2)
 
-- 
2.43.0


From 5c93fc430811cd2b5324a2a89caec0ac7d908c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:10 +0000
Subject: [PATCH 43/58] fix: sprm: zero scale variables are recognised whatever
 unit the data are in

---
 src/direpack/sprm/sprm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index b7f2c78..0b4c4d9 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -231,7 +231,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         setattr(self, "y_sca_", sy)
         ys = np.array(ys).reshape(-1)
 
-        zero_scale = np.where(sX < 1e-5)[0]
+        zero_scale = np.where(sX <= 1e-10 * np.max(np.abs(X), axis=0))[0]
         vars_to_keep = np.arange(0, p)
         if len(zero_scale) > 0:
             if type(columns) != bool:
-- 
2.43.0


From c7ed170933be0e0d1a7ce5209ca5ac55cd5e9a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:10 +0000
Subject: [PATCH 44/58] fix: dicomo: data frames give the same moments as
 arrays

---
 src/direpack/dicomo/dicomo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 89be305..22ff94f 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -209,6 +209,9 @@ class dicomo(_BaseComposition,BaseEstimator):
         n = len(x)
         ntrim = round(n * (1-trimming)) 
         
+        x = np.asarray(x)
+        if 'y' in kwargs:
+            kwargs['y'] = np.asarray(kwargs['y'])
         if len(x.shape)==1:
             x = np.array(x).reshape((n,1))
         
-- 
2.43.0


From 4f85c97595ee3da3627dcb76fad52f6891dce258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:34 +0000
Subject: [PATCH 45/58] fix: ppdire: quantile regression on the scaled response
 like the other regression options

---
 src/direpack/ppdire/ppdire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/ppdire/ppdire.py b/src/direpack/ppdire/ppdire.py
index 53d14b2..46f1fc4 100644
--- a/src/direpack/ppdire/ppdire.py
+++ b/src/direpack/ppdire/ppdire.py
@@ -685,7 +685,7 @@ class ppdire(_BaseComposition,BaseEstimator,TransformerMixin,RegressorMixin):
                     linfit.fit(ti,ys)
                     ci = linfit.coef_
                 elif self.regopt == 'quantile':
-                    linfit = QuantReg(y,ti)
+                    linfit = QuantReg(ys,ti)
                     model = linfit.fit(q=quantile)
                     ci = model.params
                 # end regression if
-- 
2.43.0


From 014f277371e6251b635e9ece5728c9159d7cd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:16 +0000
Subject: [PATCH 46/58] fix: dicomo: bias correction of the co-kurtosis applies
 to its standardised value

---
 src/direpack/dicomo/dicomo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 22ff94f..7d0ac8d 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -287,7 +287,6 @@ class dicomo(_BaseComposition,BaseEstimator):
                         
                     if ((self.mode == 'cok') and biascorr): # biascorr is only exact if standardized
                         como -= como/(ntrim**2)
-                        como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
 
                 
                 if mode in ['corr','continuum']:
@@ -445,6 +444,8 @@ class dicomo(_BaseComposition,BaseEstimator):
             iter_stop_1 = order - option
             como /= np.power(x2sd,iter_stop_1)
             como /= np.power(y2sd,iter_stop_2)
+            if ((self.mode == 'cok') and biascorr and self.est=='arithmetic'):
+                como -= 3*(ntrim-1)**2.0 / ((ntrim-2)*(ntrim-3))
             if ((self.mode == 'cok') and not Fisher): # Not very meaningful for co-moment
                 como += 3
             self.moment_=como
-- 
2.43.0


From 24d6a01f8e678a1b5faa05bff677e90a94a83ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:46 +0000
Subject: [PATCH 47/58] fix: sprm: constructor stores n_components and eta as
 given, conversion happens in fit

---
 src/direpack/sprm/sprm.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/direpack/sprm/sprm.py b/src/direpack/sprm/sprm.py
index 0b4c4d9..72f947d 100644
--- a/src/direpack/sprm/sprm.py
+++ b/src/direpack/sprm/sprm.py
@@ -119,8 +119,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         columns=False,
         copy=True,
     ):
-        self.n_components = int(n_components)
-        self.eta = float(eta)
+        self.n_components = n_components
+        self.eta = eta
         self.fun = fun
         self.probp1 = probp1
         self.probp2 = probp2
@@ -163,18 +163,13 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             self.X = X
             self.y = y
         (n, p) = X.shape
-        if not (type(self.n_components) == int) | (self.n_components <= 0):
-            raise MyException(
-                "Number of components has to be a positive integer")
-        if (self.n_components > n) | (self.n_components > p):
+        n_components = int(self.n_components)
+        eta = float(self.eta)
+        if (n_components > n) | (n_components > p):
             raise MyException("The number of components is too large.")
-        if self.n_components <= 0:
+        if n_components <= 0:
             raise MyException("The number of components has to be positive.")
-        if not (type(self.eta) == float):
-            raise MyException(
-                "Sparsity parameter eta has to be a floating point number"
-            )
-        if (self.eta < 0) | (self.eta >= 1):
+        if (eta < 0) | (eta >= 1):
             raise MyException("eta has to come from the interval [0,1)")
         if not (self.fun in ("Hampel", "Huber", "Fair")):
             raise MyException(
@@ -255,7 +250,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             if type(columns) != bool:
                 columns = columns[vars_to_keep]
             p = len(vars_to_keep)
-            if self.n_components > p:
+            if n_components > p:
                 raise MyException(
                     "Upon removal of zero scale variables, the number of components is too large. Please reduce to {p} maximally."
                 )
@@ -323,8 +318,8 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         difference = 1
         # Begin at iteration
         res_snipls = snipls(
-            self.eta,
-            self.n_components,
+            eta,
+            n_components,
             self.verbose,
             columns,
             "mean",
@@ -334,7 +329,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         while (difference > self.tol) & (loops <= self.maxit):
             res_snipls.fit(Xw, yw)
             T = np.divide(res_snipls.x_scores_,
-                          WEmat[:, 0: (self.n_components)])
+                          WEmat[:, 0: (n_components)])
             b = res_snipls.coef_
             yp = res_snipls.fitted_
             r = ys - yp
@@ -358,9 +353,9 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 wte = Huber(wtn, self.probctx_)
                 wye = Huber(wye, self.probcty_)
             if self.fun == "Hampel":
-                self.probctx_ = chi2.ppf(self.probp1, self.n_components)
-                self.hampelbx_ = chi2.ppf(self.probp2, self.n_components)
-                self.hampelrx_ = chi2.ppf(self.probp3, self.n_components)
+                self.probctx_ = chi2.ppf(self.probp1, n_components)
+                self.hampelbx_ = chi2.ppf(self.probp2, n_components)
+                self.hampelrx_ = chi2.ppf(self.probp3, n_components)
                 wte = Hampel(wtn, self.probctx_,
                              self.hampelbx_, self.hampelrx_)
                 wye = Hampel(wye, self.probcty_,
@@ -405,7 +400,7 @@ class sprm(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         if self.verbose:
             print(
                 "Final Model: Variables retained for "
-                + str(self.n_components)
+                + str(n_components)
                 + " latent variables: \n"
                 + str(res_snipls.colret_)
                 + "\n"
-- 
2.43.0


From 45aaf822192e0edbff9734264038f4e4919ba2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:46 +0000
Subject: [PATCH 48/58] fix: snipls: refuse more components than cases or
 variables, also when set through set_params

---
 src/direpack/sprm/snipls.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/direpack/sprm/snipls.py b/src/direpack/sprm/snipls.py
index c99fed2..4bc637c 100644
--- a/src/direpack/sprm/snipls.py
+++ b/src/direpack/sprm/snipls.py
@@ -131,6 +131,12 @@ class snipls(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             y = y.to_numpy()
         X = _check_input(X)
         y = _check_input(y)
+        if self.eta < 0 or self.eta >= 1:
+            raise MyException("eta has to come from the interval [0,1)")
+        if self.n_components <= 0:
+            raise MyException("The number of components has to be positive.")
+        if self.n_components > n or self.n_components > p:
+            raise MyException("The number of components is too large.")
         ny = y.shape[0]
         if ny != n:
             if y.ndim == 2:
-- 
2.43.0


From bbfbddac17716ad7b1ab910297603bcf56c41aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:37 +0000
Subject: [PATCH 49/58] fix: dicomo: refuse a trimming fraction outside its
 range whatever the centring and sample size

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index 7d0ac8d..f68ffcd 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -12,6 +12,7 @@ from sklearn.base import BaseEstimator
 from sklearn.utils.metaestimators import _BaseComposition
 from statsmodels import robust as srs
 from ._dicomo_utils import *
+from ..preprocessing._preproc_utilities import _check_trimming
 import dcor as dc
 # Optional: if Ballcov required, import Ball 
 # import Ball
@@ -115,6 +116,7 @@ class dicomo(_BaseComposition,BaseEstimator):
             trimming = 0
         else:
             trimming = kwargs.get('trimming')
+        _check_trimming(trimming)
             
         if 'biascorr' not in kwargs:
             biascorr = False
-- 
2.43.0


From 6ea6e277314bcea8b55d1a1da37d4303e68efc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:37 +0000
Subject: [PATCH 50/58] fix: sudire: refuse a trimming fraction outside its
 range for every centring

---
 src/direpack/sudire/sudire.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 83c5d96..cee4e6e 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -6,6 +6,7 @@ import copy
 from sklearn.utils.metaestimators import _BaseComposition
 from sklearn.base import RegressorMixin, BaseEstimator, TransformerMixin, defaultdict
 from ..preprocessing.robcent import VersatileScaler
+from ..preprocessing._preproc_utilities import _check_trimming
 from ._sudire_utils import *
 from scipy.linalg import orth
 import warnings
@@ -259,6 +260,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         X = X0
         n, p = X0.shape
         trimming = self.trimming
+        _check_trimming(trimming)
 
         # Check dimensions
         if self.n_components > min(n, p):
-- 
2.43.0


From 09f7a2076f47e4615b0dfb5fc58c1ac679a591b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 51/58] fix: scaleTau2: columns with zero mad have zero scale,
 integer data are accepted

---
 src/direpack/preprocessing/_preproc_utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/direpack/preprocessing/_preproc_utilities.py b/src/direpack/preprocessing/_preproc_utilities.py
index bafe5cb..4af6d31 100644
--- a/src/direpack/preprocessing/_preproc_utilities.py
+++ b/src/direpack/preprocessing/_preproc_utilities.py
@@ -245,7 +245,7 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
         the scale estimate
     """
 
-    x = copy.deepcopy(x0)
+    x = np.array(x0, dtype="float64")
     n, p = x.shape
     if np.isnan(x).any():
         summ = np.nansum
@@ -254,15 +254,16 @@ def scaleTau2(x0, c1=4.5, c2=3, consistency=True, **kwargs):
     medx = median(x)
     xc = abs(x - medx)
     sigma0 = median(xc)
+    sigma = _handle_zeros_in_scale(sigma0)
     if c1 > 0:
-        xc /= sigma0 * c1
+        xc /= sigma * c1
         w = 1 - np.square(xc)
         w = np.square((abs(w) + w) / 2)
         mu = summ(np.multiply(x, w)) / summ(w)
     else:
         mu = medx
     x -= mu
-    x /= sigma0
+    x /= sigma
     rho = np.square(x)
     rho[np.where(rho > c2**2)[0]] = c2**2
     if consistency:
-- 
2.43.0


From 521ee9483d402777ae24cfbb829ef1dc713ee76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 52/58] fix: Hampel weights are defined when the last cut-off
 is infinite (probp3=1)

---
 src/direpack/sprm/_m_support_functions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/direpack/sprm/_m_support_functions.py b/src/direpack/sprm/_m_support_functions.py
index 58b5f73..5054fb6 100644
--- a/src/direpack/sprm/_m_support_functions.py
+++ b/src/direpack/sprm/_m_support_functions.py
@@ -27,10 +27,14 @@ def Hampel(x, probct, hampelb, hampelr):
     wx[np.where((x > probct) & (x <= hampelb))[0]] = probct / abs(
         x[np.where((x > probct) & (x <= hampelb))[0]]
     )
-    wx[np.where((x > hampelb) & (x <= hampelr))[0]] = np.divide(
-        probct * (hampelr - (x[np.where((x > hampelb) & (x <= hampelr))[0]])),
-        (hampelr - hampelb) * abs(x[np.where((x > hampelb) & (x <= hampelr))[0]]),
-    )
+    if np.isinf(hampelr):
+        # no upper cut-off (probp3=1): the weights do not descend to zero
+        wx[np.where(x > hampelb)[0]] = probct / abs(x[np.where(x > hampelb)[0]])
+    else:
+        wx[np.where((x > hampelb) & (x <= hampelr))[0]] = np.divide(
+            probct * (hampelr - (x[np.where((x > hampelb) & (x <= hampelr))[0]])),
+            (hampelr - hampelb) * abs(x[np.where((x > hampelb) & (x <= hampelr))[0]]),
+        )
     wx[np.where(x > hampelr)[0]] = 0
     return wx
 
-- 
2.43.0


From 921ae788685fbac79991ab587ce3cff9df9517d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:02 +0000
Subject: [PATCH 53/58] fix: plots set the background of their own axes, not
 matplotlib's global default

---
 src/direpack/plot/ppdire_plot.py |  4 ++--
 src/direpack/plot/sprm_plot.py   | 10 +++++-----
 src/direpack/plot/sudire_plot.py |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/direpack/plot/ppdire_plot.py b/src/direpack/plot/ppdire_plot.py
index a3605cf..585c485 100644
--- a/src/direpack/plot/ppdire_plot.py
+++ b/src/direpack/plot/ppdire_plot.py
@@ -58,8 +58,8 @@ class ppdire_plot(ppdire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_ppdire.y0
             if len(ytruec.shape) >1:
@@ -122,8 +122,8 @@ class ppdire_plot(ppdire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_ppdire.x_scores_)
             labelcr = label + ' Training'
diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 017165e..442d7ba 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -84,8 +84,8 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_sprm.y
             if len(ytruec.shape) >1:
@@ -159,8 +159,8 @@ class sprm_plot(sprm):
         """
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
             x_plot = columns[self.res_sprm.non_zero_scale_vars_]
@@ -211,8 +211,8 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_sprm.x_scores_)
             labelcr = label[0] + ' Training' + ' Regular'
@@ -291,8 +291,8 @@ class sprm_plot(sprm):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             if mode=='overall':
                 wc = self.res_sprm.caseweights_
@@ -373,8 +373,8 @@ class sprm_plot_cv(GridSearchCV,sprm):
             setattr(self,'cv_score_table_',cv_score_table_)
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         # Filter out rows with NaN values to avoid tricontour errors
         data = self.cv_score_table_.values
         valid_mask = np.isfinite(data[:,2])
diff --git a/src/direpack/plot/sudire_plot.py b/src/direpack/plot/sudire_plot.py
index fd2cceb..7d3b2eb 100644
--- a/src/direpack/plot/sudire_plot.py
+++ b/src/direpack/plot/sudire_plot.py
@@ -58,8 +58,8 @@ class sudire_plot(sudire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             ytruec = self.res_sudire.y0
             if len(ytruec.shape) >1:
@@ -122,8 +122,8 @@ class sudire_plot(sudire):
             label = 'none'
         fig = pp.figure()
         fig.set_facecolor(self.colors[0])
-        pp.rcParams['axes.facecolor'] = self.colors[1]
         ax1 = fig.add_subplot(111)
+        ax1.set_facecolor(self.colors[1])
         if (not(onlyval)):
             Tc = np.array(self.res_sudire.x_scores_)
             ax1.scatter(Tc[:,components[0]], Tc[:,components[1]], c=self.colors[2], label=label, 
-- 
2.43.0


From 45fb13bd31262f519040a3e3f86f1aa6cb53774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:58 +0000
Subject: [PATCH 54/58] fix: sprm_plot.plot_caseweights annotates the right bar
 and does not run past the last case

---
 src/direpack/plot/sprm_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 442d7ba..31cd362 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -326,7 +326,7 @@ class sprm_plot(sprm):
         if len(names)>0:
             if not(onlyval):
                 for i in range(0,len(names)):
-                    ax1.annotate(names[i], (name_indices[i+1],wc[i]))
+                    ax1.annotate(names[i], (name_indices[i],wc[i]))
         if len(namesv)>0:
             for i in range(0,len(namesv)):
                 ax1.annotate(namesv[i], (name_indices[len(wc)+i],wv[i]))
-- 
2.43.0


From 6e6320704800fd4f54520d15f49d667400a1ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:58 +0000
Subject: [PATCH 55/58] fix: sprm_plot.plot_coeffs accepts variable names as a
 list or tuple, as documented

---
 src/direpack/plot/sprm_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/direpack/plot/sprm_plot.py b/src/direpack/plot/sprm_plot.py
index 31cd362..db55bfb 100644
--- a/src/direpack/plot/sprm_plot.py
+++ b/src/direpack/plot/sprm_plot.py
@@ -163,6 +163,7 @@ class sprm_plot(sprm):
         ax1.set_facecolor(self.colors[1])
         p = len(self.res_sprm.non_zero_scale_vars_)
         if len(columns) > 0:
+            columns = np.asarray(columns)
             x_plot = columns[self.res_sprm.non_zero_scale_vars_]
             x_labels = columns[self.res_sprm.non_zero_scale_vars_]
         else:
-- 
2.43.0


From ffb174689a0e263231ca613440045ace69ea86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:13 +0000
Subject: [PATCH 56/58] fix: dicomo: the fast algorithm gives the distance
 standard deviation, not the variance

---
 src/direpack/dicomo/dicomo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/direpack/dicomo/dicomo.py b/src/direpack/dicomo/dicomo.py
index f68ffcd..94e3b08 100644
--- a/src/direpack/dicomo/dicomo.py
+++ b/src/direpack/dicomo/dicomo.py
@@ -353,6 +353,8 @@ class dicomo(_BaseComposition,BaseEstimator):
                         xmom = np.sqrt(dc.u_distance_covariance_sqr(x,x))
                     else:
                         xmom = np.sqrt(dc.distance_covariance_sqr(x,x))
+                    if self.mode == 'std':
+                        xmom = np.sqrt(xmom)
                     self.moment_ = xmom
                 if mode !='mom':
                     if 'y' not in kwargs:
-- 
2.43.0


From 434cf59b17d2c4ad7c679a09ad0fbb17987e5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:14 +0000
Subject: [PATCH 57/58] fix: sudire: the distance metric given to the
 constructor is used

---
 src/direpack/sudire/sudire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index cee4e6e..9b93fd7 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -235,7 +235,7 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
         # Collect optional fit arguments
 
         if "dmetric" not in kwargs:
-            dmetric = "euclidean"
+            dmetric = self.dmetric
         else:
             dmetric = kwargs.get("dmetric")
         if "biascorr" not in kwargs:
-- 
2.43.0


From 4c4efdcb17c44e49a73e8293e03033a184621ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:14 +0000
Subject: [PATCH 58/58] fix: sudire: fit_ols=False skips the regression after
 the dimension reduction

---
 src/direpack/sudire/sudire.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/direpack/sudire/sudire.py b/src/direpack/sudire/sudire.py
index 9b93fd7..b17d0d9 100644
--- a/src/direpack/sudire/sudire.py
+++ b/src/direpack/sudire/sudire.py
@@ -578,8 +578,9 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                 projMat = np.matmul(np.matmul(P, inv(np.matmul(P.T, P))), P.T)
                 T = np.matmul(self.X0, P)
         # perform OLS regression
-        T_reg = sm.add_constant(T)  # adding a constant
-        ols_obj = sm.OLS(ys, T_reg).fit()
+        if self.fit_ols:
+            T_reg = sm.add_constant(T)  # adding a constant
+            ols_obj = sm.OLS(ys, T_reg).fit()
 
         # Re-adjust estimates to original dimensions if data have been compressed
         if dimensions:
@@ -595,7 +596,8 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
             setattr(self, "y_loc_", my)
             setattr(self, "y_sca_", sy)
         setattr(self, "scaling_", scale)
-        setattr(self, "ols_obj_", ols_obj)
+        if self.fit_ols:
+            setattr(self, "ols_obj_", ols_obj)
         if (
             self.return_scaling_object
             and self.center != "mean"
@@ -663,6 +665,10 @@ class sudire(_BaseComposition, BaseEstimator, TransformerMixin, RegressorMixin):
                     "New data must have same number of columns as the ones the model has been trained with"
                 )
             )
+        if not hasattr(self, "ols_obj_"):
+            raise (
+                MyException("Prediction needs the regression fitted with fit_ols=True")
+            )
         Xns = self.transform(Xn)
         Xns = sm.add_constant(Xns, has_constant="add")  # adding a constant
         ys = self.ols_obj_.predict(Xns)
-- 
2.43.0

