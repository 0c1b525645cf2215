From c1b006c26f557cf1a764d425914b48175f9b6805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 01/62] fix: MPS.load restores the bond-dimension limit instead
 of the length

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b0a70b..6889658 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1292,7 +1292,7 @@ class MPS:
         with open(filename+'.pickle', 'rb') as f:
             mps=pickle.load(f)
         self._N=mps._N
-        self._D=mps._N
+        self._D=mps._D
         self._obc=mps._obc
         self._dtype=mps._dtype
         self._schmidt_thresh=mps._schmidt_thresh
-- 
2.43.0


From 9c92df8a643741a6d783f5bcdecdb9340e1ef219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 02/62] fix: MPS.__copy__ copies the boundary type

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 6889658..499fe0e 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -325,7 +325,7 @@ class MPS:
         cop._position=self._position
         cop._gamma=copy.deepcopy(self._gamma)
         cop._lambda=copy.deepcopy(self._lambda)
-        cop._obc-self._obc
+        cop._obc=self._obc
         cop._dtype=self._dtype
         cop._schmidt_thresh=self._schmidt_thresh
         cop._r_thresh=self._r_thresh
-- 
2.43.0


From c845a5c9288c854d82e53ae2857b7bac263a1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 03/62] fix: MPS.__iadd__ replaces the bond matrix and centre
 position together with the tensors

---
 lib/mpslib/mps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 499fe0e..2250bd5 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -546,8 +546,14 @@ class MPS:
         adds self with other;
         leaves self unnormalized
         """
-        self._tensors=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
-        self._Z=1.0 
+        res=self+other
+        self._D=res._D
+        self._dtype=res._dtype
+        self._tensors=res._tensors
+        self._mat=res._mat
+        self._connector=res._connector
+        self._position=res._position
+        self._Z=res._Z
         return self
     
     def __sub__(self,other):
-- 
2.43.0


From abf7864759c3e7031ad08c5f6dd0025beecea81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 04/62] fix: MPS.__neg__ negates the state, not each of its
 tensors

---
 lib/mpslib/mps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 2250bd5..de6b649 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -458,7 +458,8 @@ class MPS:
         return self.__imag__(*args,**kwargs)
     
 
-    __neg__ = generate_unary_deferer(opr.neg)
+    def __neg__(self):
+        return self*(-1)
     __pos__ = generate_unary_deferer(opr.pos)
     __abs__ = generate_unary_deferer(abs)
     __invert__ = generate_unary_deferer(opr.invert)
-- 
2.43.0


From f6e67eabd41bfa9feb85873e2ef704e4f8035ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 05/62] fix: MPS.conj, conjugate and imag run, and conjugate
 the whole state

---
 lib/mpslib/mps.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index de6b649..cca75ae 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -352,7 +352,7 @@ class MPS:
                    the operation to be applied to the mps tensors
         *args,**kwargs: arguments of operation
         """
-        for n in range(len(res)):
+        for n in range(len(self)):
             self[n]=operation(self[n],*args,**kwargs)
 
 
@@ -377,13 +377,18 @@ class MPS:
         in-place complex conjugation of the MPS
         """
         self.__in_place_unary_operations__(np.conj,*args,**kwargs)
+        self._mat=np.conj(self._mat)
+        self._connector=np.conj(self._connector)
+        self._Z=np.conj(self._Z)
+        self._gamma=[np.conj(g) for g in self._gamma]
+        self._lambda=[np.conj(l) for l in self._lambda]
     
     def __conjugate__(self,*args,**kwargs):
         """
         returns the complex conjugated MPS
         """
-        res=self.__unary_operations__(np.conj,*args,**kwargs)
-        res._qflow=utils.flipsigns(res._qflow)                
+        res=self.__copy__()
+        res.__conj__(*args,**kwargs)
         return res
 
 
@@ -391,13 +396,13 @@ class MPS:
         """
         returns the complex conjugated MPS
         """
-        return self.__conjugate__(self,*args,**kwargs)
+        return self.__conjugate__(*args,**kwargs)
 
     def conj(self,*args,**kwargs):
         """
         in-place complex conjugation of the MPS
         """        
-        return self.__conj__(self,*args,**kwargs)
+        return self.__conj__(*args,**kwargs)
 
     def __exp__(self,*args,**kwargs):
         """
@@ -442,7 +447,7 @@ class MPS:
         
         return self.__real__(*args,**kwargs)
 
-    def __imag_(self,*args,**kwargs):
+    def __imag__(self,*args,**kwargs):
         """
         return a new MPS with the imaginary part of self
         """
-- 
2.43.0


From 7df6be7687f4c2152dcc4d2538d693aa08679601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 06/62] fix: MPS.fromList accepts its default centre matrix

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index cca75ae..2590530 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -264,7 +264,7 @@ class MPS:
         """
 
         mps=cls(tensors,schmidt_thresh,r_thresh)
-        if all(mat)!=None:
+        if mat is not None:
             mps._mat=np.copy(mat)
         mps.__position__(0)        
         mps.__position__(mps._N)
-- 
2.43.0


From 73274b76ad04bfa9c3d1fb47b500384cd95ea6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 07/62] fix: orthonormalising a vanishing tensor gives a
 vanishing state instead of NaN

---
 lib/mpslib/mpsfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b2d61db..4300b4a 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -760,7 +760,8 @@ def prepareTensor(tensor,direction,fixphase=None):
 
         #normalize the bond matrix
         Z=np.linalg.norm(r)        
-        r/=Z
+        if Z>0:
+            r/=Z
         [size1,size2]=q.shape
         out=np.transpose(np.reshape(q,(d,l1,size2)),(1,2,0))
     
@@ -785,7 +786,8 @@ def prepareTensor(tensor,direction,fixphase=None):
         r=np.conjugate(np.transpose(r_,(1,0)))
         #normalize the bond matrix
         Z=np.linalg.norm(r)
-        r/=Z
+        if Z>0:
+            r/=Z
 
     return out,r,Z
 
-- 
2.43.0


From 0ffa2ebccaa8161481692bc396c7b358677ef022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 08/62] fix: MPS.applyTwoSiteGate works with its default
 bond-dimension limit

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 2590530..b3f81fa 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1216,6 +1216,8 @@ class MPS:
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
         Strunc=S[S>thresh]
+        if Dmax is None:
+            Dmax=len(S)
         tw=sum(S[min(len(Strunc),Dmax)::]**2)
         Strunc=S[0:min(len(Strunc),Dmax)]
         Strunc/=np.linalg.norm(Strunc)
-- 
2.43.0


From fa379d93716f48d7bbda4c5fe4df0c3770629bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 09/62] fix: gates update the dtype of the state they are
 applied to

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index b3f81fa..e1ecfab 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1209,6 +1209,7 @@ class MPS:
         """
         assert(len(gate.shape)==4)
         assert(site<len(self)-1)
+        self._dtype=np.result_type(self._dtype,gate.dtype)
         #print("in applyToSite; site+1=",site+1,"thresh=",thresh)
         self.__position__(site+1)        
         newState=ncon.ncon([self.__tensor__(site,clear=True),self._tensors[site+1],gate],[[-1,1,2],[1,-4,3],[2,3,-2,-3]])
@@ -1246,6 +1247,7 @@ class MPS:
         """
         assert(len(gate.shape)==2)
         assert(site<len(self))
+        self._dtype=np.result_type(self._dtype,gate.dtype)
         if preserve_position==True:
             self.__position__(site+1)
             tensor=ncon.ncon([self.__tensor__(site,clear=True),gate],[[-1,-2,1],[1,-3]])
-- 
2.43.0


From 0c2d944a2d6d895de53960522f88d38aee7243a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 10/62] fix: measureMatrixElementList returns its result and
 includes the norms of both states

---
 lib/mpslib/mps.py          | 4 ++--
 lib/mpslib/mpsfunctions.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e1ecfab..a1b1fc0 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -832,7 +832,7 @@ class MPS:
         it back to its original position; this might cause some overhead
         """
         
-        self.__measureMatrixElementList__(mps,ops,lb,rb)
+        return self.__measureMatrixElementList__(mps,ops,lb,rb)
         
     def __measureMatrixElementList__(self,mps,ops,lb=None,rb=None):
 
@@ -857,7 +857,7 @@ class MPS:
                 v2=np.copy(mps._mat[0][0])
                 self.__position__(pos)
                 mps.__position__(mpspos)                
-                return L*v1*np.conj(v2)
+                return L*v1*np.conj(v2)*self._Z*np.conj(mps._Z)
 
 
     def measureLocal(self,op,site,lb=None,rb=None):
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 4300b4a..82ee688 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -489,7 +489,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype)
+    dtype=np.result_type(*([m.dtype for m in mps1]+[m.dtype for m in mps2]+[o.dtype for o in operators]))
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0


From 36e7e4cf4155494e9c528508907573b8ffb62ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 11/62] fix: overlap includes the boundary bond matrices of
 both states

---
 lib/mpslib/mpsfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 82ee688..c50a5b3 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -71,9 +71,11 @@ def overlap(mps1,mps2):
         L=addELayer(L,mps1[n],mps2[n],direction=1)
         
     if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):        
+        v1=mps1._mat[0,0]
+        v2=mps2._mat[0,0]
         mps1.__position__(pos1)
         mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*mps1._Z*np.conj(mps2._Z)
+    return np.trace(L[:,:,0])*v1*np.conj(v2)*mps1._Z*np.conj(mps2._Z)
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From 445351a9eca5779cb2fe6faffcc3d85bfa532c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 12/62] fix: adding states of different dtypes keeps imaginary
 parts

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c50a5b3..b31197d 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -165,7 +165,7 @@ def directsum(m1,m2):
     returns: the direct sum of two matrices
     """
 
-    dtype=type(m1[0,0])
+    dtype=np.result_type(m1.dtype,m2.dtype)
     out=np.zeros((list(map(sum,zip(m1.shape,m2.shape)))),dtype=dtype)
     out[0:m1.shape[0],0:m1.shape[1]]=m1
     out[m1.shape[0]:m1.shape[0]+m2.shape[0],m1.shape[1]:m1.shape[1]+m2.shape[1]]=m2
@@ -181,7 +181,7 @@ def addMPS(mps1,Z1,mps2,Z2,obc=True):
     if len(mps1)!=len(mps2):
         raise ValueError("addMPS(mps1,mps2): mps1 and mps2 have different length")
     
-    dtype=int
+    dtype=np.result_type(int,type(Z1),type(Z2))
 
     for n in range(len(mps1)):
         dtype=np.result_type(dtype,mps1[n].dtype)
-- 
2.43.0


From cc0ebac01ad018f24cd087fc69054bbe66af73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 13/62] fix: MPS.measure handles Jordan-Wigner strings, mixed
 local dimensions and complex operators

---
 lib/mpslib/mps.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index a1b1fc0..5fec7bf 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -928,31 +928,32 @@ class MPS:
             sys.exit('mps.py.__measure__(self,ops,sites): sites are not in increasing order')
         if not self._obc==True:
             warnings.warn('calculating observable for an infinite MPS; be sure that it is regauged correctly')
+        dtype=np.result_type(self._dtype,*([o.dtype for o in ops]+([] if P is None else [p.dtype for p in P])))
         s=0
         self.__position__(sites[-1]+1)
         #the parity of the operator string one wants to measure:
         par=len(ops)%2
         if par==0 or P==None:
-            L=np.zeros((self[sites[s]].shape[0],self[sites[s]].shape[0],1)).astype(self._dtype)
+            L=np.zeros((self[sites[s]].shape[0],self[sites[s]].shape[0],1)).astype(dtype)
             L[:,:,0]=np.copy(np.eye(self[sites[s]].shape[0]))
         elif par==1 and P!=None:
             #for fermionic modes one has to take into consideration the fermionic minus signs from the start (if len(ops) is odd)
-            L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(self._dtype)
+            L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(dtype)
             L[:,:,0]=np.copy(np.eye(self[0].shape[0]))
-            for n in range(sites[s]-1):
-                L=mf.addLayer(L,self[n],P[n],self[n],1)
+            for n in range(sites[s]):
+                L=mf.addLayer(L,self[n],np.reshape(P[n],(1,1,P[n].shape[0],P[n].shape[1])),self[n],1)
 
         while s<len(sites):
             if s<len(sites):
                 n=s
-                op=np.eye(self[s].shape[2])
+                op=np.eye(self[sites[s]].shape[2])
                 while n<len(sites) and sites[n]==sites[s]:
                     op=op.dot(ops[n])
                     par=(par+1)%2
                     n+=1
 
             assert(sites[s]==sites[n-1])
-            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(self._dtype)
+            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(dtype)
             if P==None or par==0:
                 mpo[0,0,:,:]=op
             elif P!=None and par==1:
-- 
2.43.0


From 47cf7ae0755a51e24708af901b0fd9697d3f76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 14/62] fix: overlap of two lists of tensors

---
 lib/mpslib/mpsfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b31197d..acb70d1 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -75,7 +75,8 @@ def overlap(mps1,mps2):
         v2=mps2._mat[0,0]
         mps1.__position__(pos1)
         mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*v1*np.conj(v2)*mps1._Z*np.conj(mps2._Z)
+        return np.trace(L[:,:,0])*v1*np.conj(v2)*mps1._Z*np.conj(mps2._Z)
+    return np.trace(L[:,:,0])
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From d5bfbc4dd519efbd3f64ae9356ce46f3b88227ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 15/62] fix: MPS.measure works with a rectangular centre matrix

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 5fec7bf..e856cee 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -970,8 +970,8 @@ class MPS:
 
         assert(self._position==sites[-1]+1)
 
-        R=np.zeros((self[sites[s-1]].shape[1],self[sites[s-1]].shape[1],1))
-        R[:,:,0]=np.eye(self[sites[s-1]].shape[1])
+        R=np.zeros((self._mat.shape[1],self._mat.shape[1],1))
+        R[:,:,0]=np.eye(self._mat.shape[1])
         Z=np.trace(self._mat.dot(herm(self._mat)))
         if not((np.abs(np.trace(self._mat.dot(herm(self._mat))))-1.0)<1E-10):
             warnings.warn('mps.py.measure(self,ops,sites): state is not normalized')
-- 
2.43.0


From bfb21c23e24677fb078e62049f3e6079794a8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 16/62] fix: ncon must not modify the order list it is given

---
 lib/ncon/ncon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ncon/ncon.py b/lib/ncon/ncon.py
index ac005b2..1202651 100644
--- a/lib/ncon/ncon.py
+++ b/lib/ncon/ncon.py
@@ -40,6 +40,9 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        # connect_graph appends to order; do not change the caller's list
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From a2c02aa478350910b9ff88c0a0cf0768dd8d5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 17/62] fix: binarybasis must not go through floating point
 (wrong words above 53 sites)

---
 lib/utils/binaryoperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/binaryoperations.py b/lib/utils/binaryoperations.py
index 923a77c..adba6bc 100644
--- a/lib/utils/binaryoperations.py
+++ b/lib/utils/binaryoperations.py
@@ -37,7 +37,7 @@ def binarybasis(N,Nup):
         for p in range(Nup-1,N):
             rest=binarybasis(p,Nup-1)
             for n in rest:
-                basis.append(np.uint64(n+2**p))
+                basis.append(setBit(n,p))
         return basis
 
 
-- 
2.43.0


From 9c0c0152133aee9b082b4a0dad8498af3446dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:44 +0000
Subject: [PATCH 18/62] fix: conjugate-gradient weight was undefined without
 steepest-descent steps (stdereset=0)

---
 lib/utils/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 68971b4..11945f1 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -737,7 +737,7 @@ def determineNonLinearCGBeta(nlcgupperthresh,nlcglowerthresh,nlcgnormtol,nlcgres
                 betanew=beta
                 dostde=False
                 itstde=0
-            elif (itstde<stdereset) and (dostde==False):
+            elif dostde==False:
                 betanew=beta
 
         
-- 
2.43.0


From c942181b5f69d84d7a4b3ba8527a936cc6949ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 19/62] fix: Lanczos eigenvectors of a complex operator for a
 real initial state

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 93447fd..53bf2d9 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -104,7 +104,7 @@ class LanczosEngine:
         eta,u=np.linalg.eigh(self._Heff)
         states=[]
         for n2 in range(min(self._numeig,len(eta))):
-            state=np.zeros(initialstate.shape,dtype=initialstate.dtype)
+            state=np.zeros(initialstate.shape,dtype=np.result_type(dtype,initialstate.dtype))
             for n1 in range(len(self._vecs)):
                 state+=self._vecs[n1]*u[n1,n2]
             states.append(state/np.sqrt(self._dot(state.conjugate(),state)))
-- 
2.43.0


From 4d6ab045c8cf050b75cfb2e6a222c2e040fe472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 20/62] fix: Krylov propagator dropped imaginary parts for real
 time steps

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 53bf2d9..4b6327d 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -133,7 +133,7 @@ class LanczosTimeEvolution(LanczosEngine):
         dt: time increment
         verbose: verbosity flag
         """
-        self._dtype=type(dt)        
+        self._dtype=np.result_type(type(dt),self._matvec(state).dtype,state.dtype)
         self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
-- 
2.43.0


From e81eb6511d7958eafb3a9cb4d38adfa917d031fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 21/62] fix: Krylov propagator lost the norm of its input and
 the last Krylov vector

---
 lib/Lanczos/LanczosEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 4b6327d..377d754 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -138,7 +138,7 @@ class LanczosTimeEvolution(LanczosEngine):
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
         result=np.zeros(state.shape,dtype=self._dtype)
-        for n in range(min(self._ncv,self._Heff.shape[0])):
+        for n in range(self._Heff.shape[0]):
             result+=self._vecs[n]*U[n,0]
-        return result
+        return result*np.sqrt(self._dot(state.conjugate(),state))
         
-- 
2.43.0


From 72aedfbcad93854a34fbb86758c7061e74db31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 22/62] fix: two-site gates for reversed pairs and for chains
 of two sites

---
 lib/mpslib/Hamiltonians.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index decd5a4..4708862 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -47,7 +47,7 @@ class MPO:
       mpo1 = self._mpo[n][-1, :, :, :]
       mpo2 = self._mpo[m][:, 0, :, :]
       nl = n
-      mr = m
+      nr = m
     if n > m:
       mpo1 = self._mpo[m][-1, :, :, :]
       mpo2 = self._mpo[n][:, 0, :, :]
@@ -71,6 +71,10 @@ class MPO:
       for s in range(1, mpo1.shape[0] - 1):
         h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
       h += np.kron(mpo1[-1, :, :], mpo2[-1, :, :] / 2.0)
+    else:
+      h = np.kron(mpo1[0, :, :], mpo2[0, :, :])
+      for s in range(1, mpo1.shape[0]):
+        h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
     Gate = np.reshape(sp.linalg.expm(tau * h), (d1, d2, d1, d2))
     #Gate=np.reshape(np.eye(4),(d1,d2,d1,d2))
 
-- 
2.43.0


From caebf8d242360b136427c3d78c6f0489d0dfb60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 23/62] fix: TFI_2 for open boundaries used an undefined field
 attribute

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 4708862..34d841b 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -113,7 +113,7 @@ class TFI_2(MPO):
       self._mpo = []
       temp = np.zeros((1, 3, 2, 2), self.dtype)
       #Bx
-      temp[0, 0, :, :] = self._Bz[0] * sig_x
+      temp[0, 0, :, :] = self._Bx[0] * sig_x
       #Sz
       temp[0, 1, :, :] = self._Jz[0] * sig_z
       #11
@@ -143,7 +143,7 @@ class TFI_2(MPO):
       #Sz
       temp[1, 0, :, :] = sig_z
       #Bx Sx
-      temp[2, 0, :, :] = sig_x * self._Bz[-1]
+      temp[2, 0, :, :] = sig_x * self._Bx[-1]
       self._mpo.append(np.copy(temp))
 
     if obc == False:
-- 
2.43.0


From 2be0190470ae276d41ee55a25aee8d20ae2373e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 24/62] fix: XXZflipped used the first coupling for every flip
 term

---
 lib/mpslib/Hamiltonians.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 34d841b..ce36455 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -537,11 +537,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
@@ -586,11 +586,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
-- 
2.43.0


From 96e1d73e9cfd2bb841b82ff8811cd20badcaac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 25/62] fix: XXZflipped default data type cannot hold its
 sigma_y

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index ce36455..937e5d3 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -497,7 +497,7 @@ class XXZflipped(MPO):
     again the famous Heisenberg Hamiltonian, but in a slightly less common form
     """
 
-  def __init__(self, Delta, J, obc=True, dtype=float):
+  def __init__(self, Delta, J, obc=True, dtype=complex):
     self._Delta = Delta
     self._J = J
     self._dtype = dtype
-- 
2.43.0


From efa13d71418579344b8860334707fe0c7a37696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 26/62] fix: SpinlessFermions for infinite boundaries: coupling
 count and hopping sign

---
 lib/mpslib/Hamiltonians.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 937e5d3..565a2b5 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -608,7 +608,10 @@ class SpinlessFermions(MPO):
 
   def __init__(self, interaction, hopping, chempot, obc, dtype=complex):
     assert (len(interaction) == len(hopping))
-    assert (len(interaction) == len(chempot) - 1)
+    if obc == True:
+      assert (len(interaction) == len(chempot) - 1)
+    if obc == False:
+      assert (len(interaction) == len(chempot))
 
     self._mpo = []
     self._interaction = interaction
@@ -657,13 +660,13 @@ class SpinlessFermions(MPO):
       for n in range(self._N):
         tensor = np.zeros((5, 5, 2, 2)).astype(dtype)
         tensor[0, 0, :, :] = np.eye(2)
-        tensor[1, 0, :, :] = c.dot(P)
-        tensor[2, 0, :, :] = herm(c).dot(P)
+        tensor[1, 0, :, :] = c
+        tensor[2, 0, :, :] = herm(c)
         tensor[3, 0, :, :] = herm(c).dot(c)
         tensor[4, 0, :, :] = chempot[n] * herm(c).dot(c)
 
-        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c)
-        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c
+        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c).dot(P)
+        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c.dot(P)
         tensor[4, 3, :, :] = interaction[n] * herm(c).dot(c)
         tensor[4, 4, :, :] = np.eye(2)
         self._mpo.append(np.copy(tensor))
-- 
2.43.0


From 427ecb93095ad2fd02e09c397bd85bc0bea6fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 27/62] fix: HubbardChain for infinite boundaries could not be
 given its boundary hopping

---
 lib/mpslib/Hamiltonians.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 565a2b5..6106d63 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -950,8 +950,12 @@ class HubbardChain(MPO):
 
     assert (len(mu_up) == self._N)
     assert (len(mu_down) == self._N)
-    assert (len(t_up) == self._N - 1)
-    assert (len(t_down) == self._N - 1)
+    if obc == True:
+      assert (len(t_up) == self._N - 1)
+      assert (len(t_down) == self._N - 1)
+    if obc == False:
+      assert (len(t_up) == self._N)
+      assert (len(t_down) == self._N)
 
     self._mpo = []
     c = np.zeros((2, 2), dtype=self.dtype)
-- 
2.43.0


From f2f72a480e3d70027abd3085620f031420c02696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 28/62] fix: MPO.fromMPO used an undefined attribute

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 6106d63..e06563c 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -25,7 +25,7 @@ class MPO:
   @classmethod
   def fromMPO(cls, other):
     #a list of mpo-tensors, to be initialized in the derived class
-    return cls(other._mpolist)
+    return cls(other._mpo)
 
   @classmethod
   def fromlist(cls, mpolist):
-- 
2.43.0


From 56f7dc48dee08dc0fb309882dbe37a5a1c683621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 29/62] fix: operators built from a list had no data type

---
 lib/mpslib/Hamiltonians.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index e06563c..642eb5d 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -21,6 +21,7 @@ class MPO:
     #a list of mpo-tensors, to be initialized in the derived class
     self._mpo = copy.deepcopy(mpos)
     self._N = len(self._mpo)
+    self._dtype = np.result_type(*self._mpo) if len(self._mpo) > 0 else float
 
   @classmethod
   def fromMPO(cls, other):
-- 
2.43.0


From 35177bac0076625e49c0447e77818e0f8e15eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 30/62] fix: zero-site effective product took the wrong bond
 dimension on the left

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index acb70d1..d609e3d 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -994,7 +994,7 @@ def HAproductZeroSite(L,mpo,mps,R,position,vec):
 
     #contracts vec on the left site of mps
     if position=='left':
-        chi1=np.shape(mps)[1]
+        chi1=np.shape(mps)[0]
         mat=np.reshape(vec,(chi1,chi1))
         R1=addLayer(R,mps,mpo,mps,-1)
         term1=np.tensordot(L,mat,([0],[0]))
-- 
2.43.0


From df3a5964286d82328629bdd1c7bcb1ebc1aad8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 31/62] fix: MPS.applyMPO used an undefined name

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e856cee..fdf1632 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1272,10 +1272,10 @@ class MPS:
         """
         applies an mpo to an mps; no truncation is done
         """
-        assert(len(mpo)==len(mps))
+        assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
-        for n in range(len(mps)):
+        for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
             if n==0:
-- 
2.43.0


From 2e87fdc59455cbceb85528c10678df881bc53804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 32/62] fix: setting a tensor of an MPS updates its dtype

---
 lib/mpslib/mps.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index fdf1632..6e34ffd 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -341,6 +341,7 @@ class MPS:
     def __setitem__(self,n,tensor):
         assert((n<len(self)) and (abs(n)<=len(self)))        
         self._tensors[n]=np.copy(tensor)
+        self._dtype=np.result_type(self._dtype,self._tensors[n].dtype)
 
 
     def __in_place_unary_operations__(self,operation,*args,**kwargs):
-- 
2.43.0


From f61ae3831247a8540f8ebd000b11d2261b70a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 33/62] fix: left environments have one entry per bond after
 Container.update and truncateMPS

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 5019a22..9a46b21 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -113,7 +113,7 @@ class Container:
         """
         self._mps.truncate(schmidt_thresh=truncation_threshold,D=D,nmaxit=100000,tol=tol,ncv=ncv,pinv=pinv,r_thresh=1E-14)
         self._mps.position(0)
-        self._L=[]*len(self._mps)
+        self._L=[None]*len(self._mps)
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
@@ -165,7 +165,7 @@ class Container:
         returns: self
         """
         self._mps.position(0)
-        self._L=[]*len(self._mps)        
+        self._L=[None]*len(self._mps)        
         self._L.insert(0,self._lb)
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
-- 
2.43.0


From 8060ac3cebb9a495795c0fabd62113be2a9b9a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 34/62] fix: single-site DMRG leaves a normalised state with
 matching environments

---
 lib/mpslib/engines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 9a46b21..46301f7 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -289,6 +289,8 @@ class DMRGengine(Container):
                     print()
                     print ('reached maximum iteration number ',Nmax)
                 break
+        #the bond matrix is still the placeholder left behind by optimize; absorb it
+        self.position(1)
         self._mps.resetZ()
         return e
 
-- 
2.43.0


From 701035488862b960551425a3042a3e5f556abc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 35/62] fix: the clock of a time evolution advances whatever
 the verbosity

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 46301f7..bab4081 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1253,8 +1253,8 @@ class TimeEvolutionEngine(Container):
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))
                 stdout.write("\rTEBD engine: t=%4.4f truncated weight=%.16f at D/Dmax=%i/%i, truncation threshold=%1.16f, |dt|=%1.5f"%(self._t0,self._tw,np.max(self.mps.D),Dmax,tr_thresh,np.abs(dt)))
                 stdout.flush()
             if verbose>=2:
@@ -1377,8 +1377,8 @@ class TimeEvolutionEngine(Container):
 
                 self._mps._mat=mat
                 self._mps._position=n
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))                
                 stdout.write("\rTDVP engine using %s solver: t=%4.4f, D=%i, |dt|=%1.5f"%(solver,self._t0,np.max(self._mps.D),np.abs(dt)))
                 stdout.flush()
             if verbose>=2:                
-- 
2.43.0


From 51d6eed36846ff96db741eaf6b26227514c8b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 36/62] fix: TEBD for zero steps must not apply a half step

---
 lib/mpslib/engines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index bab4081..b531074 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1249,7 +1249,8 @@ class TimeEvolutionEngine(Container):
 
         #even half-step:
         current='None'
-        self.applyEven(dt/2.0,Dmax,tr_thresh)
+        if numsteps>0:
+            self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
-- 
2.43.0


From 1fa28924f6705fe87fd040db02a63b7719d13448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 37/62] fix: TimeEvolutionEngine.TEBD returns an engine

---
 lib/mpslib/engines.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index b531074..3f50ae4 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1094,11 +1094,7 @@ class TimeEvolutionEngine(Container):
                        if None, obc are assumed
         """
         
-        cls._gates=copy.deepcopy(gatecontainer)
-        cls._mps=copy.deepcopy(mps)
-        cls._mpo=copy.deepcopy(mpo)
-        cls._filename=filename        
-        return cls
+        return cls(mps,gatecontainer,filename)
 
     @classmethod
     def TDVP(cls,mps,mpo,filename,lb=None,rb=None):
-- 
2.43.0


From 4062773352b30f01516716d79f1f2f4eb3afda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 38/62] fix: DMRG checkpoints hold the normalised state of the
 finished sweep

---
 lib/mpslib/engines.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 3f50ae4..928046a 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -277,6 +277,9 @@ class DMRGengine(Container):
                 self.position(n+1)                
                 e,opt=self.optimize(n,tol,ncv,numvecs,solver,Ndiag,nmaxlan,landelta,landeltaEta,verbose)                
                 self.mps[n]=opt
+            #the bond matrix is still the placeholder left behind by optimize; absorb it
+            self.position(1)
+            self._mps.resetZ()
                     
             if np.abs(e-energy)<Econv:
                 converged=True
@@ -289,9 +292,6 @@ class DMRGengine(Container):
                     print()
                     print ('reached maximum iteration number ',Nmax)
                 break
-        #the bond matrix is still the placeholder left behind by optimize; absorb it
-        self.position(1)
-        self._mps.resetZ()
         return e
 
     def simulate(self,*args,**kwargs):
@@ -397,6 +397,7 @@ class DMRGengine(Container):
                 self._R[self._mps._N-1-n]=mf.addLayer(self._R[self._mps._N-1-n-1],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
 
             self._mps.__position__(0)
+            self._mps.resetZ()
             self._R[self._mps._N-1-n]=mf.addLayer(self._R[self._mps._N-1-n-1],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
             if np.abs(e-energy)<Econv:
                 converged=True
-- 
2.43.0


From 3712974b4cd42659454a548395b804850da05f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:44 +0000
Subject: [PATCH 39/62] fix: time-evolution checkpoints carry the number of
 completed steps, and only the last one is kept

---
 lib/mpslib/engines.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 928046a..6de2f70 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1257,6 +1257,7 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:
                 print('')
+            self._it=self._it+1
             #if this is a cp step, save between two half-steps
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
@@ -1274,8 +1275,10 @@ class TimeEvolutionEngine(Container):
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    newname=self._filename+'_tebd_cp'+str(self._it)
-                    self.save(newname)                    
+                    if (not keep_cp) and os.path.exists(current+'.pickle'):
+                        os.remove(current+'.pickle')
+                    current=self._filename+'_tebd_cp'+str(self._it)
+                    self.save(current)
             #if step is not a cp step:
             else:
                 #do a regular full step, unless step is the last step
@@ -1284,7 +1287,6 @@ class TimeEvolutionEngine(Container):
                 #if step is the last step, do a half step
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-            self._it=self._it+1
             self._mps.resetZ()
         return self._tw,self._t0
 
@@ -1381,6 +1383,7 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:                
                 print('')
+            self._it=self._it+1
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
                 if not keep_cp:
                     if os.path.exists(current+'.pickle'):
@@ -1391,7 +1394,6 @@ class TimeEvolutionEngine(Container):
                     current=self._filename+'_tdvp_cp'+str(self._it)
                     self.save(current)
 
-            self._it=self._it+1
         self._mps.position(0)
         self._mps.resetZ()        
         return self._t0
-- 
2.43.0


From 6265720bc8adf337ef0d289f902c4edfa1256b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 40/62] fix: solve_ivp solvers of the TDVP evolve forward in
 time, in imaginary time, and real initial states

---
 lib/mpslib/engines.py      |  8 ++++----
 lib/mpslib/mpsfunctions.py | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 6de2f70..9509967 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1325,7 +1325,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 #evolve tensor forward
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':
                     evTen=mf.evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim) #clear=True resets self._mat to identity
                 elif solver=='SEXPMV':                    
@@ -1338,7 +1338,7 @@ class TimeEvolutionEngine(Container):
                 #evolve matrix backward                    
                 if n<(self._mps._N-1):
                     if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                     elif solver=='LAN':                        
                         evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,krylov_dimension=krylov_dim)
                     elif solver=='SEXPMV':                                            
@@ -1354,7 +1354,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 self._R[self._mps._N-n-1]=mf.addLayer(self._R[self._mps._N-n-2],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                    
-                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
+                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
                 elif solver=='LAN':                
                     evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                    
@@ -1365,7 +1365,7 @@ class TimeEvolutionEngine(Container):
             
                 #evolve tensor forward: the back-evolved center matrix is absorbed into the left-side tensor, and the product is evolved forward in time
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                                    
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':                                
                     evTen=mf. evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                                        
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index d609e3d..12188ba 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1346,28 +1346,31 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
 
 
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
+    """
+    evolves "mps" by exp(-1j*tau*H), with a real (real time) or complex (imaginary time) "tau"
+    """
     [chi1,chi2,d]=np.shape(mps)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)),method=method,rtol=rtol,atol=atol)    
+    fac=-1j*np.exp(1j*np.angle(tau))
+    out=solve_ivp(lambda t,y:fac*mv(y),t_span=(0.0,np.abs(tau)),y0=np.reshape(mps,(chi1*chi2*d)).astype(complex),method=method,rtol=rtol,atol=atol)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
-    
+    """
+    evolves "mat" by exp(-1j*tau*H), with a real (real time) or complex (imaginary time) "tau"
+    """
     [chi1,chi2]=np.shape(mat)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)),method=method,rtol=rtol,atol=atol)
+    fac=-1j*np.exp(1j*np.angle(tau))
+    out=solve_ivp(lambda t,y:fac*mv(y),t_span=(0.0,np.abs(tau)),y0=np.reshape(mat,(chi1*chi2)).astype(complex),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From 51a11487ee4023bc818b72f238a9c6b4cc6c6c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 41/62] fix: gexpmv works for operators of dimension one and
 two

---
 lib/mpslib/sexpmv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 5ccabf5..457bc7d 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -9,6 +9,7 @@ and http://www.maths.uq.edu.au/expokit
 @author: Ashley Milsted
 """
 from __future__ import absolute_import, division, print_function
+import numpy as np
 import scipy as sp
 import scipy.linalg as la
 from math import sqrt, log10, copysign, trunc
@@ -29,6 +30,10 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       else:
             matvec = lambda v: sp.dot(A,v)
 
+      if n <= 2: #too small for a Krylov space: use the exact exponential
+            mat = np.array([matvec(e) for e in np.eye(n)]).T
+            return la.expm(t*mat).dot(v), True, 1, False, n
+
       if m is None:
             m = min(20, n-1)
       
-- 
2.43.0


From cdf42ae200587282bd3f8b2d75928afe1296923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 42/62] fix: two-site DMRG and TDVP update the right
 environments when they move the centre back to the first bond

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 9509967..9cb16f4 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -326,7 +326,7 @@ class DMRGengine(Container):
         converged=False
         energy=100000.0
         it=1
-        self._mps.__position__(0)        
+        self.position(0)
         while not converged:
             for n in range(0,self._mps._N-2):
                 self._mps.__position__(n+1)
@@ -1315,7 +1315,7 @@ class TimeEvolutionEngine(Container):
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
         current='None'
-        self._mps.__position__(0)
+        self.position(0)
         for step in range(numsteps):
             for n in range(self._mps._N):
                 if n==self._mps._N-1:
-- 
2.43.0


From 40519380255b8ff99749b28849aed46ee9b167a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 43/62] fix: measuring through an engine does not change the
 gauge its environments were built in

---
 lib/mpslib/engines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 9cb16f4..678d42c 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -81,7 +81,8 @@ class Container:
         --------------------------------------------
         a list of floats containing the expectation values
         """
-        return self.mps.measureList(operators)
+        #measuring moves the center site, which can change the gauge of the tensors: use a copy
+        return copy.deepcopy(self.mps).measureList(operators)
     def truncateMPS(self,truncation_threshold=1E-10,D=None,tol=1E-10,ncv=20,pinv=1E-200):
         """
         Container.truncateMPS(truncation_threshold=1E-10,D=None,tol=1E-10,ncv=20,pinv=1E-200):
-- 
2.43.0


From 1b64d7149cd091b7c9e1976d3c6d21b0a95180c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 44/62] fix: a new checkpoint is written before the previous
 one is removed

---
 lib/mpslib/engines.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 678d42c..0226c50 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1264,22 +1264,20 @@ class TimeEvolutionEngine(Container):
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
                 if step<(numsteps-1):                
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    if not keep_cp:
-                        if os.path.exists(current+'.pickle'):
-                            os.remove(current+'.pickle')
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
-                    else:
-                        current=self._filename+'_tebd_cp'+str(self._it)
-                        self.save(current)
+                    previous=current
+                    current=self._filename+'_tebd_cp'+str(self._it)
+                    self.save(current)
+                    if (not keep_cp) and (previous!=current) and os.path.exists(previous+'.pickle'):
+                        os.remove(previous+'.pickle')
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-                    if (not keep_cp) and os.path.exists(current+'.pickle'):
-                        os.remove(current+'.pickle')
+                    previous=current
                     current=self._filename+'_tebd_cp'+str(self._it)
                     self.save(current)
+                    if (not keep_cp) and (previous!=current) and os.path.exists(previous+'.pickle'):
+                        os.remove(previous+'.pickle')
             #if step is not a cp step:
             else:
                 #do a regular full step, unless step is the last step
@@ -1386,14 +1384,11 @@ class TimeEvolutionEngine(Container):
                 print('')
             self._it=self._it+1
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
-                if not keep_cp:
-                    if os.path.exists(current+'.pickle'):
-                        os.remove(current+'.pickle')
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
-                else:
-                    current=self._filename+'_tdvp_cp'+str(self._it)
-                    self.save(current)
+                previous=current
+                current=self._filename+'_tdvp_cp'+str(self._it)
+                self.save(current)
+                if (not keep_cp) and (previous!=current) and os.path.exists(previous+'.pickle'):
+                    os.remove(previous+'.pickle')
 
         self._mps.position(0)
         self._mps.resetZ()        
-- 
2.43.0


From 8f14710497ec8ee9ba6f43667921ed3e2533d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 45/62] fix: the dominant transfer-matrix eigenvector is also
 found for small bond dimensions

---
 lib/mpslib/mpsfunctions.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 12188ba..656320a 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1591,6 +1591,24 @@ def GeneralizedMatrixVectorProduct(direction,A,B,vector):
     warnings.warn('GeneralizedMatrixVectorProduct(direction,A,B,vector) is deprecated; used MixedTransferOperator instead')
     return MixedTransferOperator(direction=direction,mpsA=B,mpsB=A,vector=vector)
 
+def dominantEigs(LOP,k,which,v0,maxiter,tol,ncv):
+    """
+    the k eigenpairs of a linear operator selected by "which"; operators which are 
+    too small for the sparse arnoldi solver are diagonalized densely
+    """
+    n=LOP.shape[0]
+    if k<n-1:
+        return sp.sparse.linalg.eigs(LOP,k=k,which=which,v0=v0,maxiter=maxiter,tol=tol,ncv=ncv)
+    mat=np.stack([LOP.matvec(e) for e in np.eye(n,dtype=LOP.dtype)],axis=1)
+    eta=np.linalg.eigvals(mat)
+    order=np.argsort(-np.abs(eta) if which=='LM' else -np.real(eta),kind='stable')[0:k]
+    eta=eta[order]
+    #the null space is more accurate than the eigenvectors of a non-normal matrix
+    eta=[np.real(e) if np.isrealobj(mat) and np.imag(e)==0.0 else e for e in eta]
+    vec=np.stack([np.conj(np.linalg.svd(mat-e*np.eye(n))[2][-1,:]) for e in eta],axis=1)
+    return np.array(eta),vec
+
+
 def TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,which='LR'):
     """
     TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,which='LR'):
@@ -1612,7 +1630,7 @@ def TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,w
     LOP=LinearOperator((chi1*chi1,chi2*chi2),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
 
     try:
-        eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
+        eta,vec=dominantEigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
         m=np.argmax(np.real(eta))
         while np.abs(np.imag(eta[m]))/np.abs(np.real(eta[m]))>1E-5:
             print ('found TM eigenvalue eta ={0} with large imaginary part (ARPACK BUG); recalculating with a new initial state'.format(eta))
@@ -1685,7 +1703,7 @@ def UnitcellTMeigs(mps,direction,numeig,init=None,nmax=800,tolerance=1e-12,ncv=1
     
     mv=fct.partial(UnitcellTransferOperator,*[direction,mps])
     LOP=LinearOperator((D1l*D1l,D2r*D2r),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
-    eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
+    eta,vec=dominantEigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
     m=np.argmax(np.real(eta))
 
     while np.abs(np.imag(eta[m]))/np.abs(np.real(eta[m]))>1E-4:
@@ -1719,7 +1737,7 @@ def MixedUnitcellTMeigs(mps1,mps2,direction,numeig,init=None,nmax=800,tolerance=
 
     mv=fct.partial(MixedUnitcellTransferOperator,*[direction,mps2,mps1])
     LOP=LinearOperator((D1lmps1*D1lmps2,D2rmps1*D2rmps2),matvec=mv,rmatvec=None,matmat=None,dtype=mps1[0].dtype)
-    eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
+    eta,vec=dominantEigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
     m=np.argmax(np.abs(eta))
     if direction<0:
         return eta[m],np.reshape(vec[:,m],D1lmps1*D1lmps2),numeig
-- 
2.43.0


From 969c78f0f3ce26543988bff0216825b5dc45e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 46/62] fix: the canonical form of an infinite state closes the
 unit cell

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 656320a..58bef7e 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2355,6 +2355,8 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
             Lam[n]=S
             if n>0:
                 Gamma[n-1]=np.transpose(np.tensordot(Gamma[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
+        #the remaining unitary belongs to the closing bond (it commutes with Lam[-1])
+        Gamma[-1]=np.transpose(np.tensordot(Gamma[-1],U,([1],[0])),(0,2,1))
         return Gamma,Lam
 
     else:
-- 
2.43.0


From 228cbba595b85d28200c2d9a0c763e5df383a903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 47/62] fix: truncating an infinite state to a bond dimension
 works without a threshold

---
 lib/mpslib/mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 6e34ffd..9ca1894 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1020,7 +1020,9 @@ class MPS:
                     self.__absorbCenterMatrix__(direction=-1)
                     self.__absorbConnector__('right')
 
-                self._mat=mf.regaugeIMPS(self._tensors,gauge='symmetric',ldens=None,rdens=None,truncate=schmidt_thresh,D=D,nmaxit=nmaxit,tol=tol,ncv=ncv,pinv=pinv,thresh=1E-8)
+                #regaugeIMPS only truncates if its threshold is larger than 1E-15
+                thresh=schmidt_thresh if D==None else max(schmidt_thresh,2E-15)
+                self._mat=mf.regaugeIMPS(self._tensors,gauge='symmetric',ldens=None,rdens=None,truncate=thresh,D=D,nmaxit=nmaxit,tol=tol,ncv=ncv,pinv=pinv,thresh=1E-8)
                 self._connector=np.diag(1.0/np.diag(self._mat)) #note that regaugeIMPS returns in any case a diagonal matrix
                 self._position=self._N
 
-- 
2.43.0


From d690c4aac7edfdc91c86c25bf5da93075f13c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 48/62] fix: truncating an infinite state keeps the largest
 Schmidt values on the bonds inside the unit cell

---
 lib/mpslib/mpsfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 58bef7e..c284549 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2231,12 +2231,15 @@ def regaugeIMPS(mps,gauge,ldens=None,rdens=None,truncate=1E-16,D=None,nmaxit=100
                 if n<(N-1):
                     mps[n+1]=np.tensordot(rest,mps[n+1],([1],[0]))
             
+            #the weights on the inner bonds are Schmidt values only if those of the closing bond are included on both sides
+            mps[N-1]=np.transpose(np.tensordot(mps[N-1],np.diag(lam),([1],[0])),(0,2,1))
             for n in range(N-1,0,-1):
                 U,S,tensor,Z=prepareTruncate(mps[n],direction=-1,D=D,thresh=truncate,r_thresh=1E-14)
                 mps[n]=np.copy(tensor)
                 if n>0:
                     mps[n-1]=np.transpose(np.tensordot(mps[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
 
+            mps[N-1]=np.transpose(np.tensordot(mps[N-1],np.diag(1.0/lam),([1],[0])),(0,2,1))
             Z=np.trace(np.tensordot(mps[0],np.conj(mps[0]),([1,2],[1,2])))/np.shape(mps[0])[0]
             mps[0]=mps[0]/np.sqrt(Z)
             return regaugeIMPS(mps,gauge='symmetric',ldens=None,rdens=None,truncate=1E-16,D=10,nmaxit=nmaxit,tol=tol,ncv=ncv,pinv=pinv,thresh=thresh)
-- 
2.43.0


From 8835240c1467cdd1dab08699c33211ec8f51be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 49/62] fix: one-site MPS objects can be used in the transfer
 operators

---
 lib/mpslib/mpsfunctions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c284549..6ce20ac 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1513,7 +1513,7 @@ def TransferOperator(direction,mps,vector):
         A=mps
         [D1,D2,d]= A.shape
     elif isinstance(mps,MPSL.MPS):
-        if len(A)>1:
+        if len(mps)>1:
             raise ValueError("in TransferOperator: got an MPS object of len(MPS)>1; can only handle single-site objects")
         A=mps[0]
         [D1,D2,d]= A.shape
@@ -1545,9 +1545,9 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,MPSL.MPS):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsB of len(mpsB)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB[0]
@@ -1555,15 +1555,15 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,np.ndarray):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB
         [D1A,D2A,dA]= Lower.shape
         [D1B,D2B,dB]= Upper.shape
     elif isinstance(mpsB,MPSL.MPS) and isinstance(mpsA,np.ndarray):
-        if len(B)>1:
-            raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
+        if len(mpsB)>1:
+            raise ValueError("in TransferOperator: got an MPS object mpsB of len(mpsB)>1; can only handle single-site objects")
         Upper=mpsA
         Lower=mpsB[0]
         [D1A,D2A,dA]= Lower.shape
-- 
2.43.0


From 3b7ecdde1df046af1f8366127079522770bc87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 50/62] fix: the mixed unit-cell transfer operator uses its own
 arguments

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 6ce20ac..7fad080 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1675,15 +1675,15 @@ def UnitcellTransferOperator(direction,mps,vector):
 #mps1 is the lower (conjugated) MPS, mps2 the upper (unconjugated) MPS
 def MixedUnitcellTransferOperator(direction,Upper,Lower,vector):
     x=np.copy(vector)
-    assert(len(mps1)==len(mps2))
+    assert(len(Upper)==len(Lower))
     if direction>0:
         #bring the vector in matrix form
-        for n in range(len(mps1)):
+        for n in range(len(Upper)):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
     if direction<0:
         #bring the vector in matrix form
-        for n in range(len(mps1)-1,-1,-1):
+        for n in range(len(Upper)-1,-1,-1):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
 
-- 
2.43.0


From 16f1df56dbf878fd502d09e531d9bc6197543eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 51/62] fix: negative momenta are not treated as zero momentum

---
 lib/mpslib/mpsfunctions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 7fad080..5364c15 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2565,13 +2565,13 @@ def OneMinusPseudoTransferOperator(Upper,Lower,r,l,direction,momentum,vector):
     [chiL1,chiL2,dL]=np.shape(Lower)
     if direction>0:
         x=np.reshape(vector,(chiU1,chiL1))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(x,r,([0,1],[0,1]))*l,(chiU2*chiL2))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
     if direction<0:
         x=np.reshape(vector,(chiU2,chiL2))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(l,x,([0,1],[0,1]))*r,(chiU1*chiL1))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
@@ -2619,7 +2619,7 @@ def TDVPGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=2000,dir
     """
     
     warnings.warn('mpsfunctions.TDVPGMRES is deprecated; use mpsfunctions.RENORMBLOCKHAMGMRES instead')
-    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction)
+    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction,momentum)
 
 #calculates the reduced block hamiltonian for left or right side (depending on dir)
 def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=200,direction=1,momentum=0.0):
@@ -2641,7 +2641,9 @@ def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteratio
     """
     
     x0=None
-    dtype=tensorU.dtype
+    dtype=np.result_type(tensorU.dtype,tensorL.dtype,inhom.dtype)
+    if np.abs(momentum)>=1E-8:
+        dtype=np.result_type(dtype,complex)
     if np.any(x0==None):
         x0=np.random.random_sample(inhom.shape).astype(dtype)
     [chiU1,chiU2,d]=np.shape(tensorU)
-- 
2.43.0


From b719587476f1e076c4e43057ae38a68498150978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 52/62] fix: the energy of an infinite environment is that of
 one unit cell

---
 lib/mpslib/mpsfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 5364c15..01d1703 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1943,12 +1943,13 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction>0:
         mpo=np.zeros((1,B2,d1,d2),dtype=dtype)
         mpo[0,:,:,:]=mpopbc[NUC-1][-1,:,:,:]
+        mpo[0,0,:,:]=0.0 #this site belongs to the previous unit cell, only its coupling to the current one is needed
         L=initializeLayer(mps[NUC-1],np.eye(D1r),mps[NUC-1],mpo,1)
 
         for n in range(0,len(mps)):
             L=addLayer(L,mps[n],mpopbc[n],mps[n],1)    
 
-        h=np.trace(L[:,:,0].dot(rdens[-1]))
+        h=np.tensordot(L[:,:,0],rdens[-1],([0,1],[0,1]))
         inhom=np.reshape(L[:,:,0]-h*np.transpose(np.eye(D2r)),D2r*D2r) 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D1l*D1l)),thresh,imax,datatype=dtype,direction=1)
         L[:,:,0]=np.reshape(k2,(D2r,D2r))
@@ -1957,11 +1958,12 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction<0:
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
+        mpo[-1,0,:,:]=0.0 #this site belongs to the next unit cell, only its coupling to the current one is needed
         R=initializeLayer(mps[0],np.eye(D2l),mps[0],mpo,-1)
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
 
-        h=np.trace(R[:,:,-1].dot(ldens[0]))
+        h=np.tensordot(R[:,:,-1],ldens[0],([0,1],[0,1]))
         inhom=np.reshape(R[:,:,-1]-h*np.transpose(np.eye(D1l)),D1l*D1l)
 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D2r*D2r)),thresh,imax,datatype=dtype,direction=-1)
-- 
2.43.0


From 30ee107397383e4a3532374366d2caadffbe96f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 53/62] fix: getBoundaryHams returns the same values whichever
 end it starts from

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 01d1703..21f0771 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1873,7 +1873,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
         
         lb=np.copy(f0l)
         rb=np.copy(f0r)
-        return lb,rb,lbound,rbound
+        return lb,rb,lbound,rbound,hl,hr
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-- 
2.43.0


From 5e1e828ab5339bebdb3b03d02d0ff919907b9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 54/62] fix: projected environments project with the right
 index order

---
 lib/mpslib/mpsfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 21f0771..3aecbfc 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1117,12 +1117,12 @@ def getRprojected(mps,mpo,rightboundary,ldens,rdens):
     R.append(addLayer(rightboundary,mps[-1],mpo[-1],mps[-1],-1))
     lmat=ldens[-2]
     rmat=rdens[-2]
-    R[0][:,:,-1]=R[0][:,:,-1]-np.trace(R[0][:,:,-1].dot(lmat))*rmat
+    R[0][:,:,-1]=R[0][:,:,-1]-np.tensordot(R[0][:,:,-1],lmat,([0,1],[0,1]))*rmat
     for n in range(1,N):
         R.append(addLayer(R[n-1],mps[N-1-n],mpo[N-1-n],mps[N-1-n],-1))
         lmat=ldens[N-1-n]
         rmat=rdens[N-1-n]
-        R[n][:,:,-1]=R[n][:,:,-1]-np.trace(R[n][:,:,-1].dot(lmat))*rmat
+        R[n][:,:,-1]=R[n][:,:,-1]-np.tensordot(R[n][:,:,-1],lmat,([0,1],[0,1]))*rmat
     return R
 
 
@@ -1147,12 +1147,12 @@ def getLprojected(mps,mpo,leftboundary,ldens,rdens):
     L.append(addLayer(leftboundary,mps[0],mpo[0],mps[0],1))
     rmat=rdens[1]
     lmat=ldens[1]    
-    L[0][:,:,0]=L[0][:,:,0]-np.trace(L[0][:,:,0].dot(rmat))*lmat
+    L[0][:,:,0]=L[0][:,:,0]-np.tensordot(L[0][:,:,0],rmat,([0,1],[0,1]))*lmat
     for n in range(1,N):
         L.append(addLayer(L[n-1],mps[n],mpo[n],mps[n],1))
         rmat=rdens[n+1]
         lmat=ldens[n+1]
-        L[n][:,:,0]=L[n][:,:,0]-np.trace(L[n][:,:,0].dot(rmat))*lmat
+        L[n][:,:,0]=L[n][:,:,0]-np.tensordot(L[n][:,:,0],rmat,([0,1],[0,1]))*lmat
 
     return L
 
-- 
2.43.0


From e6c3e2c1d7eb85d6b7f4345da4699dfb754a16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 55/62] fix: the right environment of a unit cell with
 different local dimensions takes its boundary operator from the first site

---
 lib/mpslib/mpsfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3aecbfc..99bf0b3 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1956,6 +1956,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         return np.copy(L),h
 
     if direction<0:
+        [B1,B2,d1,d2]=np.shape(mpopbc[0])
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
         mpo[-1,0,:,:]=0.0 #this site belongs to the next unit cell, only its coupling to the current one is needed
-- 
2.43.0


From c57afdf06d723a775e2eadadf37072f50f057a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 56/62] fix: the growing search joins the halves of an odd unit
 cell at the right bond

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 0226c50..d424517 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -475,7 +475,7 @@ class IDMRGengine(DMRGengine):
         for n in range(self._mps._N):
             self._mps._tensors[n]=mps[n]
             
-        self._mps._position=int(self._mps._N/2)
+        self._mps._position=self._mps._N-int(self._mps._N/2)
         self._mps._mat=lamR.dot(self._mps._connector).dot(lamL)
         self._mps._connector=connector
         self._mps.__position__(0)
-- 
2.43.0


From 029ca9021aff3165c4a25732eb327db7e0e84efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 57/62] fix: the uniform search can follow more than one
 eigenvector

---
 lib/mpslib/engines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index d424517..69d7852 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -942,10 +942,10 @@ class VUMPSengine(Container):
         self._gradnorm=np.linalg.norm(AC_-ncon.ncon([self._A,C_],[[-1,1,-3],[1,-2]]))
 
         if self._solver=='AR':
-            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=1,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
+            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=self._arnumvecs,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
             e2,self._mat=mf.eigshbond(self._lb,self._mpo[1],self._A,self._rb,self._mat,position='right',tolerance=self._artol_,numvecs=self._arnumvecs,numcv=self._arncv)
             if self._arnumvecs>1:        
-                self._mat/=np.linalg.norm(self._mat[0])
+                self._mat/=np.linalg.norm(self._mat)
                 self._gap=e1[1]-e1[0]
                 self._mps[0]=mps[0]
             else:
-- 
2.43.0


From 9f46f92724a10d7a5e08226e66a468acb2747578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 58/62] fix: eigshbond returns the requested number of
 eigenvectors

---
 lib/mpslib/mpsfunctions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 99bf0b3..c1d644b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1433,15 +1433,15 @@ def eigshbond(L,mpo,mps,R,mat0,position,tolerance=1e-6,numvecs=1,numcv=10,numvec
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p))
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
-            es=[]
-            vs=[]
-            esorted=np.sort(e)
-            for n in range(numvecs_returned):
-                es.append(esorted[n])
-                ind=np.nonzero(e==esorted[n])
-                vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p)))
+        es=[]
+        vs=[]
+        esorted=np.sort(e)
+        for n in range(numvecs_returned):
+            es.append(esorted[n])
+            ind=np.nonzero(e==esorted[n])
+            vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p)))
         return es,vs
         
     #if position=='left':
-- 
2.43.0


From 9b562de56139fc18dc39511032b7de2124bb9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 59/62] fix: the canonical form of a finite state includes its
 centre matrix

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c1d644b..db7c869 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2301,7 +2301,7 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         assert(mps[len(mps)-1].shape[1]==1)
         #make a copy of the state
         if isinstance(mps,MPSL.MPS):
-            Gamma=copy.deepcopy(mps._tensors)
+            Gamma=mps.tolist()
         elif isinstance(mps,list):
             Gamma=copy.deepcopy(mps)
         else:
-- 
2.43.0


From e6f071a90199be4be603d1e69ad2b23082fd67c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 60/62] fix: gexpmv gave up half way on operators of small
 dimension

---
 lib/mpslib/sexpmv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 457bc7d..50f459f 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -30,7 +30,7 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       else:
             matvec = lambda v: sp.dot(A,v)
 
-      if n <= 2: #too small for a Krylov space: use the exact exponential
+      if n <= 2 or (m is None and n <= 20): #a Krylov space would be all of the space or nearly so, and of low order: use the exact exponential
             mat = np.array([matvec(e) for e in np.eye(n)]).T
             return la.expm(t*mat).dot(v), True, 1, False, n
 
-- 
2.43.0


From cbe73333374acfaecf0967bec3a0fff384dbbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 61/62] fix: gexpmv overflowed when the Krylov space is
 exhausted

---
 lib/mpslib/sexpmv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 50f459f..391b9b4 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -203,11 +203,12 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
 
             #suggested value for the next stepsize ...
 
+            err_loc = max( err_loc, rndoff ) #the estimate vanishes when the Krylov space is exhausted
+
             t_new = gamma * t_step * (t_step*tol/err_loc)**xm
             p1 = 10.0**(round( log10( t_new )-SQR1 )-1)
             t_new = trunc( t_new/p1 + 0.55 ) * p1
 
-            err_loc = max( err_loc, rndoff )
 
             #update the time covered ...
 
-- 
2.43.0


From 9dc659ca7fbc2bb5a87fb4fedf619d8990308d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 62/62] fix: prepareTensorSVD with fixphase doubled the phases
 of u instead of removing them

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index db7c869..0c1bb5b 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -622,8 +622,8 @@ def prepareTensorSVD(tensor,direction,fixphase=False):
         if fixphase==True:
             phase=np.angle(np.diag(u))
             unit=np.diag(np.exp(-1j*phase))
-            u=u.dot(herm(unit))
-            v=unit.dot(v)
+            u=u.dot(unit)
+            v=herm(unit).dot(v)
         Z=np.linalg.norm(s)            
         s/=Z
         [size1,size2]=u.shape
-- 
2.43.0

