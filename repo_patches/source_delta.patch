From f45a036b6bdc68284f10d0fc7b2fe4451994e248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 001/101] fix: appending a chain with a pipe: select the pipe
 for the brackets, which know the number of outputs

---
 BayesicFitting/source/Model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..cdcf2d9 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -420,11 +420,13 @@ class Model( FixedModel ):
             if self.lastndout != model.ndim :
                 raise ValueError( "Trying to pipe incompatible models:  %d | %d"%
                                 (self.lastndout, model.ndim) )
-            model.selectPipe( self.ndim, model.ndim, model.ndout )
 
         if model._next is not None :
             model = Brackets( model )     # provide brackets if model is a chain
 
+        if operation == self.PIP :
+            model.selectPipe( self.ndim, model.ndim, model.ndout )
+
         last = self
         while last._next != None:
             last = last._next
@@ -1727,10 +1729,12 @@ class Brackets( Model ):
     #  *************************************************************************
     def __init__( self, model, copy=None, **kwargs ):
 
+        setatt( self, "model", model, type=Model )
+        setatt( self, "ndout", model.lastndout )
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
-        setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters )
 
         next = model
         deep = 1
-- 
2.43.0


From 19899149e6d1f2ff3512840d9f7721beeba0f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 002/101] fix: isolateModel shares the parameters with the
 chain it was taken from

---
 BayesicFitting/source/Model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index cdcf2d9..7c24587 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -304,10 +304,10 @@ class Model( FixedModel ):
 
                 n2 = np + last.npbase
                 # hard overwrite of the base parameters (over the chain parameters)
-                setatt( mdl, "parameters", self._head.parameters[np:n2] )
+                setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
                 if self.stdevs is not None :
-                    setatt( mdl, "stdevs", self._head.stdevs[np:n2] )
+                    setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
                 setatt( mdl, "_npchain", mdl.npbase )      # only extract one model
-- 
2.43.0


From 96a7480a21bc5c9127e74133551e25d5f08a6f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 003/101] fix: derivative and partial of chains with more than
 one input or output

---
 BayesicFitting/source/Model.py | 53 ++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 7c24587..019b12d 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -573,24 +573,22 @@ class Model( FixedModel ):
 
 #        print( "Model2  ", self.shortName(), df.shape, nextdf.shape, self._operation )
 
-        isnotlist = self.ndim == 1 or self.ndout == 1
         if self._operation == self.NOP :
             df = nextdf
 
         elif self._operation == self.ADD :
-            df = ( df + nextdf if isnotlist else 
-                 [ d + n for d,n in zip( df, nextdf )] )
+            df = self._lincomb( df, 1.0, nextdf, 1.0 )
 
         elif self._operation == self.SUB :
-            df = df - nextdf
+            df = self._lincomb( df, 1.0, nextdf, -1.0 )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            df = df * nextres + nextdf * result
+            df = self._lincomb( df, nextres, nextdf, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            df = ( df * nextres - nextdf * result ) / ( nextres * nextres )
+            df = self._lincomb( df, 1 / nextres, nextdf, - result / ( nextres * nextres ) )
 
         elif self._operation == self.PIP :
 #            nextres = 'dummy'           ## not needed, but needs something
@@ -609,6 +607,38 @@ class Model( FixedModel ):
         return model._recursiveDerivative( xdata, param[np:], result, df,
                     useNum=useNum )
 
+    def _lincomb( self, df1, f1, df2, f2 ) :
+        """
+        Return the linear combination of 2 derivatives: df1 * f1 + df2 * f2.
+
+        Parameters
+        ----------
+        df1, df2 : array or list of arrays
+            derivatives of the form [N], [N,O], [N,I] or [O][N,I]
+        f1, f2 : float or array
+            factors of the form [N] or [N,O]
+        """
+        return [d1 + d2 for d1, d2 in zip( self._scale( df1, f1 ), self._scale( df2, f2 ) )] \
+            if isinstance( df1, list ) else self._scale( df1, f1 ) + self._scale( df2, f2 )
+
+    def _scale( self, df, factor ) :
+        """
+        Return derivatives or partials multiplied by a factor for each (output of a) datapoint.
+
+        Parameters
+        ----------
+        df : array or list of arrays
+            derivatives of the form [N], [N,O], [N,I] or [O][N,I]
+            or partials of the form [N,P] or [O][N,P]
+        factor : float or array
+            of the form [N] or [N,O]
+        """
+        factor = numpy.asarray( factor )
+        if isinstance( df, list ) :
+            return [( d.T * ( factor[:,k] if factor.ndim > 1 else factor ) ).T
+                    for k,d in enumerate( df )]
+        return df * factor if factor.ndim > 1 else ( df.T * factor ).T
+
     #  *****PARTIAL*************************************************************
     def partial( self, xdata, param, useNum=False ):
         """
@@ -650,18 +680,17 @@ class Model( FixedModel ):
                         super( ).partial( xd, par ) )
 
         if self._operation == self.SUB :
-            nextpartial = numpy.negative( nextpartial )
+            nextpartial = self._scale( nextpartial, -1.0 )
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.multiply( partial.transpose(), nextres ).transpose()
-            nextpartial = numpy.multiply( nextpartial.transpose(), result ).transpose()
+            partial = self._scale( partial, nextres )
+            nextpartial = self._scale( nextpartial, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.divide( partial.transpose(), nextres ).transpose()
-            invres = - result / ( nextres * nextres )
-            nextpartial = numpy.multiply( nextpartial.transpose(), invres ).transpose()
+            partial = self._scale( partial, 1 / nextres )
+            nextpartial = self._scale( nextpartial, - result / ( nextres * nextres ) )
 
         elif self._operation == self.PIP :
 
-- 
2.43.0


From d679f92631371aaded766b1c4156237f9074994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 004/101] fix: partial and derivative evaluate a piped model at
 the input of the chain

---
 BayesicFitting/source/Model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 019b12d..03e08fa 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -598,7 +598,7 @@ class Model( FixedModel ):
 
         if self._next is None :
             return df
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
         result = self.operate( result, par, nextres )
 
@@ -710,10 +710,10 @@ class Model( FixedModel ):
         model = self._next
         if model is None:
             return partial
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
-        result = self.operate( result, param[at:], nextres )
+        result = self.operate( result, par, nextres )
         #  append the partials of the _next model
         at += np
         return model._recursivePartial( xdata, param, at, result, partial,
-- 
2.43.0


From 551f2f038bda8e1db09f108e26bb7c4c2accd3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 005/101] fix: priors and limits of compound models: look at
 all links, also inside brackets

---
 BayesicFitting/source/BaseModel.py |  8 +----
 BayesicFitting/source/Model.py     | 58 +++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..898c52d 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -440,11 +440,5 @@ class BaseModel( object ):
         if fitindex is None :
             return all( p.hasLimits() for p in self.priors )
         else :
-            haslim = True
-            npr = len( self.priors )
-            for k in fitindex :
-                if k >= npr :
-                    return haslim
-                haslim = haslim and self.priors[k].hasLimits()
-            return haslim
+            return all( self.basePrior( k ).hasLimits() for k in fitindex if k < self.npbase )
 
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 03e08fa..3eb2253 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1044,12 +1044,23 @@ class Model( FixedModel ):
         isBound : bool
             Also check if the prior is bound.
         """
-        hasp = True
         mdl = self
-        while mdl is not None and hasp :
-            hasp = hasp and super( Model, self ).hasPriors( isBound=isBound )
+        while mdl is not None :
+            if mdl.npbase > 0 and not mdl.baseHasPriors( isBound=isBound ) :
+                return False
             mdl = mdl._next
-        return hasp
+        return True
+
+    def baseHasPriors( self, isBound=True ) :
+        """
+        Return True when this link of the chain has priors for all its parameters.
+
+        Parameters
+        ----------
+        isBound : bool
+            Also check if the prior is bound.
+        """
+        return super( Model, self ).hasPriors( isBound=isBound )
 
     def getPrior( self, kpar ):
         """
@@ -1240,7 +1251,7 @@ class Model( FixedModel ):
         haslim = True
         mdl = self
         while mdl is not None :
-            haslim = haslim and super( Model, mdl ).hasLimits( fitindex=fitindex )
+            haslim = haslim and mdl.baseHasLimits( fitindex=fitindex )
             if not haslim :
                 return haslim
             if fitindex is not None :
@@ -1249,6 +1260,17 @@ class Model( FixedModel ):
             mdl = mdl._next
         return haslim
 
+    def baseHasLimits( self, fitindex=None ):
+        """
+        Return true if limits has been set for this link of the chain.
+
+        Parameters
+        ----------
+        fitindex    list of indices to be fitted.
+
+        """
+        return super( Model, self ).hasLimits( fitindex=fitindex )
+
 
     #  ****** UNIT <--> DOMAIN ********************************************
     def unit2Domain( self, uvalue, kpar=None ):
@@ -1318,17 +1340,8 @@ class Model( FixedModel ):
         return part
 
     def nextPrior( self ) :
-        mdl = self
-        k = 0
-        while True :
-            try :
-                yield mdl.priors[k]
-            except :
-                yield mdl.priors[-1]
-            k += 1
-            if k >= mdl.npbase :
-                mdl = mdl._next
-                k = 0
+        for k in range( self.npchain ) :
+            yield self.getPrior( k )
 
 
     #  *****SOME DUMMY METHODS TO ALLOW LINEAR MODELS IN NONLIN FITTERS********
@@ -1887,7 +1900,7 @@ class Brackets( Model ):
         """
         return self.model.getPrior( k )
 
-    def hasPriors( self, isBound=True ) :
+    def baseHasPriors( self, isBound=True ) :
         """
         Return True when the model has priors for all its parameters.
 
@@ -1898,6 +1911,17 @@ class Brackets( Model ):
         """
         return self.model.hasPriors( isBound=isBound )
 
+    def baseHasLimits( self, fitindex=None ) :
+        """
+        Return True if the model inside the brackets has limits set.
+
+        Parameters
+        ----------
+        fitindex    list of indices to be fitted.
+
+        """
+        return self.model.hasLimits( fitindex=fitindex )
+
 
     #  ******Brackets Parameter NAME*******************************************************************
 
-- 
2.43.0


From b8650010eadc1d7611daac8a31dacb996d7fc622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 006/101] fix: setLimits with only low or only high limits

---
 BayesicFitting/source/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 3eb2253..e704e7b 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1189,7 +1189,7 @@ class Model( FixedModel ):
             upper limits on the parameters
 
         """
-        ml = 0
+        nl = nh = ml = 0
         if lowLimits is not None :
             lowLimits = Tools.toArray( lowLimits )
             nl = len( lowLimits )
-- 
2.43.0


From a36af6f9b43bba96144e820e62e3ed64cdb0b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 007/101] fix: name of brackets

---
 BayesicFitting/source/Model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e704e7b..6eaaaf8 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1868,8 +1868,11 @@ class Brackets( Model ):
         return self.model.getPrior( kpar )
     """
 
-    def nextPrior( self ) :
-        yield self.model.nextPrior()
+    def baseName( self ) :
+        """
+        Return the name of the model.
+        """
+        return "Brackets"
 
     def _toString( self, indent="", npars=0 ) :
         opname = [" null\n", " +\n", " -\n", " *\n", " /\n", " |\n" ]
-- 
2.43.0


From 2b7cc8d3a6811b565f8c33ec3b114e2b5ef9a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 008/101] fix: check for zero when a parameter is fixed by a
 model

---
 BayesicFitting/source/BaseModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index 898c52d..00def27 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -253,11 +253,12 @@ class BaseModel( object ):
 
         """
         for k in self.nonZero :
-            if param[k] == 0 :
+            zero = ( param[k] == 0 )
+            if numpy.any( zero ) :
                 msg = ( ( self.shortName() + ": " + self.baseParameterName( k ) +
                             " ( =parameter[%d] ) equals zero."%k ) )
                 warnings.warn( msg )
-                param[k] = self.tiny
+                param[k] = numpy.where( zero, self.tiny, param[k] )
 
     def isDynamic( self ) :
         """
-- 
2.43.0


From 5f4fd5313674061d6bbaf4637091d57112f49cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 009/101] fix: numeric partials and derivatives: more outputs,
 fixed parameters, no analytic version

---
 BayesicFitting/source/FixedModel.py | 37 ++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e7c37fa..bf3f460 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -328,12 +328,16 @@ class FixedModel( BaseModel ):
 
         """
         nxdata = Tools.length( xdata )
-        partial = numpy.zeros( ( nxdata, self.npbase ), dtype=float  )
+        if parlist is None :
+            parlist = numpy.arange( self.npbase )
+        if self.ndout == 1 :
+            partial = numpy.zeros( ( nxdata, len( parlist ) ), dtype=float  )
+        else :
+            partial = [numpy.zeros( ( nxdata, len( parlist ) ), dtype=float )
+                       for k in range( self.ndout )]
         dpg = Tools.makeNext( self.deltaP, 0 )
 
         par = params.copy()
-        if parlist is None :
-            parlist = numpy.arange( self.npbase )
 
         for i, k in enumerate( parlist ) :
             dp = next( dpg )
@@ -341,7 +345,12 @@ class FixedModel( BaseModel ):
             r1 = FixedModel.result( self, xdata, par )
             par[k] -= dp
             r2 = FixedModel.result( self, xdata, par )
-            partial[:,i] = ( r1 - r2 ) / dp
+            dr = ( r1 - r2 ) / dp
+            if self.ndout == 1 :
+                partial[:,i] = dr
+            else :
+                for j in range( self.ndout ) :
+                    partial[j][:,i] = dr[:,j]
             par[k] = params[k]
         try :
             dpg.close()
@@ -369,9 +378,19 @@ class FixedModel( BaseModel ):
         if parlist is None :
             return FixedModel.numPartial( self, xdata, param, parlist=parlist )
 
-        par = param[parlist]
-        pl = numpy.arange( len( par ), dtype=int )
-        return FixedModel.numPartial( self, xdata, par, parlist=pl )
+        ## param is the expanded list, including the values of the fixed parameters
+        partial = numpy.zeros( ( Tools.length( xdata ), len( parlist ) ), dtype=float )
+        dpg = Tools.makeNext( self.deltaP, 0 )
+        par = param.copy()
+        for i, k in enumerate( parlist ) :
+            dp = next( dpg )
+            par[k] = param[k] + 0.5 * dp
+            r1 = self.baseResult( xdata, par )
+            par[k] = param[k] - 0.5 * dp
+            r2 = self.baseResult( xdata, par )
+            partial[:,i] = ( r1 - r2 ) / dp
+            par[k] = param[k]
+        return partial
 
     def derivative( self, xdata, param ) :
         """
@@ -391,7 +410,7 @@ class FixedModel( BaseModel ):
             values for the parameters. (default: self.parameters)
 
         """
-        if len( self.mlist ) == 0 :
+        if len( self.mlist ) == 0 and hasattr( self, "baseDerivative" ) :
             params = self.expand( xdata, param )
             return self.baseDerivative( xdata, params )
         else :
@@ -446,7 +465,7 @@ class FixedModel( BaseModel ):
                 r1 = FixedModel.result( self, x, param )
                 x[:,i] -= 2 * dx
                 r2 = FixedModel.result( self, x, param )
-                df[:,i] = ( r1 - r2 ) / ( 2 * dx )
+                df[:,i] = ( r1[:,k] - r2[:,k] ) / ( 2 * dx )
             dfdx += [df]
         return dfdx
 
-- 
2.43.0


From 10fb7e5e2c697dafe1a5b1c63e19641e3b789a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 010/101] fix: RepeatingModel: copy, zero components, compound
 models inside, results

---
 BayesicFitting/source/RepeatingModel.py | 45 ++++++++++++++-----------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..80806b3 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -150,9 +150,10 @@ class RepeatingModel( Model, Dynamic ):
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = 0 if ncomp == 0 else ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
 
+        kwargs.setdefault( "ndim", model.ndim )
         super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
 
         self.ncomp = ncomp
@@ -165,7 +166,8 @@ class RepeatingModel( Model, Dynamic ):
         else :
             self.minComp = copy.minComp
             self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
+            if self.isDynamic() :
+                growPrior = copy.growPrior.copy()
             same = copy.same
 
         self.setSame( same )
@@ -183,7 +185,8 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), minComp=self.minComp,
+                    maxComp=self.maxComp, dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
@@ -199,11 +202,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         self.same = same
         if same is None :
-            self.index = numpy.arange( self.model.npbase, dtype=int )
+            self.index = numpy.arange( self.model.npchain, dtype=int )
             return
 
         index = []
-        for k in range( self.model.npbase ) :
+        for k in range( self.model.npchain ) :
             if k not in self.same :
                 index += [k]
         self.index = numpy.asarray( index, dtype=int )
@@ -232,7 +235,7 @@ class RepeatingModel( Model, Dynamic ):
 
         location = self.npbase
 
-        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npbase
+        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npchain
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -272,7 +275,7 @@ class RepeatingModel( Model, Dynamic ):
             return False
 
         location = self.npbase
-        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npbase )
+        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npchain )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -304,7 +307,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp <= 1 :
             return param
 
-        off = self.model.npbase + offset
+        off = self.model.npchain + offset
         src = numpy.arange( self.ncomp ) * self.deltaNpar + off
         per = rng.permutation( self.ncomp )
         for i in self.index :
@@ -348,12 +351,11 @@ class RepeatingModel( Model, Dynamic ):
              values for the parameters
 
         """
-#        result = numpy.zeros( Tools.length( xdata ), dtype=float )
-        result = 0.0
+        result = numpy.zeros( Tools.length( xdata ), dtype=float )
         if self.ncomp == 0 :
             return result
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
 
@@ -389,9 +391,9 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return partial
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
-        full = numpy.arange( self.model.npbase, dtype=int )
+        full = numpy.arange( self.model.npchain, dtype=int )
         k = 1
         while True :
             partial[:,full] += self.model.partial( xdata, pars )
@@ -421,11 +423,11 @@ class RepeatingModel( Model, Dynamic ):
              values for the parameters
 
         """
-        dfdx = numpy.zeros( Tools.length( xdata ), dtype=float )
+        dfdx = numpy.zeros_like( xdata, dtype=float )
         if self.ncomp == 0 :
             return dfdx
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
         while True :
@@ -465,12 +467,17 @@ class RepeatingModel( Model, Dynamic ):
         """
         if kpar < self.model.npars :
             self.model.setPrior( kpar, prior=prior, **kwargs )
+        elif kpar >= self.npbase and self._next is not None :
+            self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-                               self.model.shortname() )
+                               self.model.shortName() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def baseHasPriors( self, isBound=True ) :
+        return self.model.hasPriors( isBound=isBound )
+
+    def baseHasLimits( self, fitindex=None ) :
+        return self.model.hasLimits()
 
     def basePrior( self, kpar ):
         """
@@ -500,7 +507,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if self.same is None or i not in self.same else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From 3b6cccdec362691754ee6f7267d6e6f1b2999397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 011/101] fix: CombiModel: copies keep parameters, priors in a
 chain

---
 BayesicFitting/source/CombiModel.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..aebe706 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -155,6 +155,14 @@ class CombiModel( BracketModel ):
                     values  multiplied to each of the key-th parameters
 
         """
+        if copy is not None :
+            super( CombiModel, self ).__init__( model, copy=copy, **kwargs )
+            for name in ["nmp", "nrepeat", "npcmax"] :
+                setatt( self, name, getattr( copy, name ) )
+            for name in ["addindex", "addvalue", "mulindex", "mulvalue", "select", "expandindex"] :
+                setatt( self, name, getattr( copy, name ).copy() )
+            return
+
         mdl = model.copy()
         for k in range( 1, nrepeat ) :
             if oper == 'add' :
@@ -172,14 +180,6 @@ class CombiModel( BracketModel ):
 
         self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
-        if copy is not None :
-            setatt( self, "addindex", copy.addindex.copy() )
-            setatt( self, "addvalue", copy.addvalue.copy() )
-            setatt( self, "mulindex", copy.mulindex.copy() )
-            setatt( self, "mulvalue", copy.mulvalue.copy() )
-            setatt( self, "select", copy.select.copy() )
-            setatt( self, "expandindex", copy.expandindex.copy() )
-
         setatt( self, "_npchain", len( self.select ) )
         setatt( self, "npbase", self._npchain )
         setatt( self, "npmax", self.npbase )
@@ -187,12 +187,7 @@ class CombiModel( BracketModel ):
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model.copy(), copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
@@ -389,7 +384,9 @@ class CombiModel( BracketModel ):
         kpar : int
             index of the parameter to be selected.
         """
-#        print( kpar, self.parameters[kpar] )
+        if kpar >= self.npbase :
+            return super( CombiModel, self ).getPrior( kpar )
+
         try :
             return self.model.getPrior( kpar )
         except IndexError :
-- 
2.43.0


From 87dc4f049d074b89eb631741dda07fabd86f23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 012/101] fix: derivative of EtalonDriftModel

---
 BayesicFitting/source/EtalonDriftModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index 89c78c1..1fb0ef7 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -131,9 +131,9 @@ class EtalonDriftModel( NonLinearModel ):
         dd = 1 + p1 * sx * sx
 
         dd *= dd
-        df = - 2 * math.pi * params[0] * p1 * params[2] * sx * numpy.cos( x ) / dd
+        df = - 2 * math.pi * params[0] * p1 * sx * numpy.cos( x ) / dd
 
-        return [df * params[2], df * params[4]].T
+        return numpy.array( [df * params[2], df * params[4]] ).T
 
     def basePartial( self, xdata, params, parlist=None ):
         """
-- 
2.43.0


From c21a4a0d333211c864d2359331a58ed4ce478c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 013/101] fix: partial of PseudoVoigtModel with fixed
 parameters

---
 BayesicFitting/source/PseudoVoigtModel.py | 24 ++++++-----------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e98b035..36c96ef 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -158,25 +158,13 @@ class PseudoVoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        pl = parlist
-        if parlist is not None and 3 in pl :
-            pl = parlist.copy()
-            pl.remove( 3 )
-
         pars = params[:3]
-        partial = ( params[3] * self.lorentz.basePartial( xdata, pars, parlist=pl ) +
-                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars, parlist=pl ) )
-
-        if parlist is None or 3 in parlist :
-            part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
-            (n0,n1) = partial.shape
-            shp = ( n0, n1+1 )
-            pp = numpy.zeros( shp, dtype=float )
-            pp[:,:n1] = partial
-            pp[:,n1] = part3
-            partial = pp
-
-        return partial
+        partial = ( params[3] * self.lorentz.basePartial( xdata, pars ).T +
+                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars ).T ).T
+        part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
+        partial = numpy.column_stack( ( partial, part3 ) )
+
+        return partial if parlist is None else partial[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
-- 
2.43.0


From 8fa1dd5e741fadadab25d17ca5898eb2f4da55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 014/101] fix: derivative of SplinesModel for other orders and
 for fixed parameters

---
 BayesicFitting/source/SplinesModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..e89be58 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -220,7 +220,7 @@ class SplinesModel( LinearModel ):
             i += 1
         partial[ki,i] = x[ki]
 
-        if parlist is None or len( parlist ) == np :
+        if parlist is None :
             return partial
 
         return partial[:,parlist]
@@ -239,7 +239,7 @@ class SplinesModel( LinearModel ):
 
         """
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, 3, dtype=float ) )
+                           numpy.full( self.npmax - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From db1257e1b5849f710ad37b6b4685bd8d89c61260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 015/101] fix: derivative of SineSplineModel and
 SineSplineDriftModel

---
 BayesicFitting/source/SineSplineDriftModel.py | 15 ++++++++-------
 BayesicFitting/source/SineSplineModel.py      |  7 ++++---
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..1dfcdd5 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -197,16 +197,17 @@ class SineSplineDriftModel( NonLinearModel ):
 
         """
         nd = self.degree + 1
-        drift = 2 * math.pi * xdata * self.pm.result( xdata, params[:nd] )
+        nh = ( self.npbase - nd ) // 2
+        poly = self.pm.result( xdata, params[:nd] )
+        drift = 2 * math.pi * xdata * poly
         cx = numpy.cos( drift )
         sx = numpy.sin( drift )
-        pdx = self.pm.baseDerivative( xdata, params )
-        cdx = cx * pdx
-        sdx = sx * pdx
+        # derivative of drift to x
+        pdx = 2 * math.pi * ( poly + xdata * self.pm.baseDerivative( xdata, params[:nd] ) )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return 2 * math.pi * ( cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx )
+        cadx = self.cm.baseDerivative( xdata, params[nd:nd+nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nd+nh:] )
+        return cadx * cx + sadx * sx + pdx * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..b685745 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -181,9 +181,10 @@ class SineSplineModel( LinearModel ):
         cx = numpy.cos( tx )
         sx = numpy.sin( tx )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return tpf * ( cadx * cx - amps[0] * sx + sadx * sx + amps[1] * cx )
+        nh = self.npbase // 2
+        cadx = self.cm.baseDerivative( xdata, params[:nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nh:] )
+        return cadx * cx + sadx * sx + tpf * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
-- 
2.43.0


From e5ac337475affd318a571da91982b624f725b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 016/101] fix: isolateModel takes the standard deviations from
 the chain, if it has them

---
 BayesicFitting/source/Model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 6eaaaf8..bbe5965 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -306,7 +306,7 @@ class Model( FixedModel ):
                 # hard overwrite of the base parameters (over the chain parameters)
                 setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
-                if self.stdevs is not None :
+                if self._head.stdevs is not None :
                     setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
-- 
2.43.0


From d2ffeb78d04d4afbded4c60934760af3b9acc921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 017/101] fix: keep holds for the fit where it is given, also
 in stdevs, npfit and limitsFit

---
 BayesicFitting/source/BaseFitter.py  | 96 +++++++++++++---------------
 BayesicFitting/source/CurveFitter.py |  2 -
 2 files changed, 43 insertions(+), 55 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..ab13c55 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -267,15 +267,13 @@ class BaseFitter( object ):
         if accuracy is not None :
             self.fitWgts /= ( accuracy * accuracy )
            
-        if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
+        # keep of this call overrides the one of the fitter; also in what is derived from the fit
+        self.fitIndex = self.keepFixed( self.keep if keep is None else keep )
 
         if self.fitIndex is None :
-            self.npfit = self.model.npchain
             return ( numpy.arange( self.model.npchain, dtype=int ), 
                      ydata, self.fitWgts )
 
-        self.npfit = len( self.fitIndex )
         return ( self.fitIndex, ydata, self.fitWgts )
 
     def fitpostscript( self, ydata, plot=False ) :
@@ -311,11 +309,11 @@ class BaseFitter( object ):
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
-            fitIndex = numpy.arange( self.model.npchain )      # start from scratch
-            fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
-            self.model.parameters[list(keep.keys())] = list( keep.values() )
-            return fitIndex
+            fitIndex = [k for k in range( self.model.npchain ) if k not in keep]
+            self.npfit = len( fitIndex )
+            for k in keep :
+                self.model.parameters[k] = keep[k]
+            return numpy.asarray( fitIndex, dtype=int )
 
     def insertParameters( self, fitpar, index=None, into=None ) :
         """
@@ -393,54 +391,46 @@ class BaseFitter( object ):
         """
         pars = self.fit( ydata, weights=weights, keep=keep )          # perform the fit
 
-        if self.model.priors is None :                  # no priors -> no limits
-            return pars
-
-        sfix = self.keep                                # save original fixed setting
-
-        npchain = self.model.npchain
-        params = self.model.parameters
-        index = self.fitIndex
-#        print( "index  ", fmt( index ) )
-        if index is None :
-            index = [*range( npchain )]                 # unpack range object into list
-            fix = {}
-        else :
-            fix = sfix.copy()
-
-        if keep is not None :
-            for k in keep.keys() : 
-                fix[k] = keep[k]
-
-#        print( "index  ", fmt( index ) )
-#        print( "fix    ", fmt( fix ) )
-
-        ool = 0
-        for k in index :                                    # check limits for params
-            if params[k] < self.model.getPrior( k ).lowLimit :
-                params[k] = self.model.getPrior( k ).lowLimit
-                fix[k] = params[k]
-                ool += 1
-            elif params[k] > self.model.getPrior( k ).highLimit :
-                params[k] = self.model.getPrior( k ).highLimit
-                fix[k] = params[k]
-                ool += 1
-
-        if ool > 0 :                                        # some transgressions
-            print( "ool    ", fmt( ool ), fmt( fix ) )
-            self.keepFixed( fix )                           # fix them
+        if keep is None :
+            keep = self.keep
+        fix = {} if keep is None else dict( keep )
+
+        while True :
+            limits = self.getLimits()
+            # check limits for the parameters that are not fixed already
+            ool = { k : min( max( pars[k], limits[0][k] ), limits[1][k] )
+                    for k in range( self.model.npchain ) if k not in fix }
+            ool = { k : v for k,v in ool.items() if v != pars[k] }
+            if len( ool ) == 0 :
+                break
+            fix.update( ool )                               # fix the transgressions
             pars = self.fit( ydata, weights=weights, keep=fix )      # run fit again
-#            print( "pars   ", fmt( pars, max=None ) )
-#            print( fmt( sfix ) )
-            self.keepFixed( sfix )                          # reset original fitIndex
-            if sfix is not None :                           # select parameters
-                pars = [self.model.parameters[k] for k in self.fitIndex]
-                fix = list( set( fix ) - set( sfix ) )
-#            warnings.warn( "Parameters ", fix, " exceeded limits." )
 
         return pars                                         # return parameters
 
 
+    def getLimits( self, index=None ) :
+        """
+        Return the limits on the parameters as set in the model: ( low, high ).
+
+        Parameters
+        ----------
+        index : None or array_like of int
+            list of parameter indices, for which limits are returned (None is all)
+        """
+        if index is None :
+            index = range( self.model.npchain )
+        low = numpy.full( len( index ), -math.inf )
+        high = numpy.full( len( index ), math.inf )
+        for i,k in enumerate( index ) :
+            try :
+                prior = self.model.getPrior( k )
+            except IndexError :                             # no limits set
+                continue
+            low[i] = prior.lowLimit
+            high[i] = prior.highLimit
+        return ( low, high )
+
     def fit( self, ydata, weights=None, keep=None ) :
         """
         Return model parameters fitted to the data.
@@ -765,7 +755,7 @@ class BaseFitter( object ):
         cov = self.covariance
 
         stdevs = numpy.sqrt( cov.diagonal() )
-        if self.keep is None :
+        if self.fitIndex is None :
             self.model.stdevs = stdevs
         else :
             intostd = numpy.zeros( self.model.npchain, dtype=float )
diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..b078d3b 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -135,8 +135,6 @@ class CurveFitter( IterativeFitter ):
             bounds = ( -numpy.inf, numpy.inf )
 
         # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
 
         # Make initial parameters
         p0 = self.model.parameters if inipar is None else inipar
-- 
2.43.0


From c929da8d4b9bf0cb686bee146df1c95a09a09156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 018/101] fix: getLogZ uses limits of all links and only those
 of fitted parameters, and the hessian at the solution

---
 BayesicFitting/source/BaseFitter.py | 32 +++++++++++------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index ab13c55..530bd01 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -918,32 +918,24 @@ class BaseFitter( object ):
         if self.npfit == 0 :
             return self.logLikelihood + self.logOccam
 
-        priors = self.model.priors
+        npchain = self.model.npchain
         if limits is not None :
             prirange = Tools.toArray( limits[1] ) - Tools.toArray( limits[0] )
         elif self.model.hasLimits() :
-            prirange = [p.getIntegral() for p in priors]        # convert to list
-        elif self.model.npchain > 0 :
-            raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
-
-        priorlength = Tools.length( prirange )                         # maybe less than npar
-        prirange = numpy.log( numpy.asarray( prirange ) )
-
-        if priorlength == 1 :
-            spr += prirange[0]
-        elif limits is None and self.fitIndex is not None :
-            fi = self.fitIndex
-            q = numpy.where( fi < priorlength )
-            fq = fi[q]
-            priorlength = len( fq )
-            spr += numpy.sum( prirange[fq] )
+            prirange = [self.model.getPrior( k ).getIntegral() for k in range( npchain )]
         else :
-            spr += numpy.sum( prirange )
+            raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
 
-        if priorlength < self.npfit :                          # add enough times the last one
-            spr += ( self.npfit - priorlength ) * prirange[-1]
+        prirange = Tools.toArray( prirange )
+        priorlength = len( prirange )                          # maybe less than npar
+        if priorlength < npchain :                             # add enough times the last one
+            prirange = numpy.append( prirange, [prirange[-1]] * ( npchain - priorlength ) )
+        if self.fitIndex is not None :
+            prirange = prirange[self.fitIndex]
+        spr += numpy.sum( numpy.log( prirange ) )
 
-        lidet = math.log( numpy.linalg.det( self.hessian ) )
+        hessian = self.getHessian( index=self.fitIndex )
+        lidet = math.log( numpy.linalg.det( hessian ) )
 
         # implementing eq 18 (Kester 2002) term by term
         self.logOccam += -spr + 0.5 * ( self.npfit *
-- 
2.43.0


From 5a2ced0c67bd7f0eb3e413e3cc056fcbca29c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 019/101] fix: occam factor of the noise scale in getLogZ

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 530bd01..183b110 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -899,7 +899,7 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi * dof ) - scalerange
+            self.logOccam = 0.5 * math.log( math.pi / dof )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
-- 
2.43.0


From 0939a6340a7ef1f70bb2f74951d40782f21fa84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 020/101] fix: Fitter and QRFitter combine kept parameters,
 weights, accuracy and normalization

---
 BayesicFitting/source/Fitter.py   |  5 +++--
 BayesicFitting/source/QRFitter.py | 20 +++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 0b1e9c8..ac86776 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -130,7 +130,7 @@ class Fitter( BaseFitter ):
                     accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitWgts )
+            self.chiSquared( ydata, weights=fitWgts )
             return numpy.asarray( 0 )
 
         hessian = self.getHessian( weights=fitWgts, index=fitIndex )
@@ -144,7 +144,8 @@ class Fitter( BaseFitter ):
         if fitWgts is not None :
             ydatacopy *= fitWgts
         if hasattr( self, "normdfdp" ) :
-            ydatacopy = numpy.append( ydatacopy, self.normdata * self.normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata * self.normweight )
 
         vector = self.getVector( ydatacopy, index=fitIndex )
 #        print( fmt( hessian ) )
diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..3d397e3 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -77,7 +77,8 @@ class QRFitter( BaseFitter ):
             Only for linear fitters, setting it to false might improve efficiency.
             It only works properly when the model, the x-data etc are exactly the
             same in the previous run.
-            Whenever weights are used, it always needs a new decomposition.
+            When the weights or the kept parameters differ from the previous run,
+            a new decomposition is made anyway.
 
     qrmat : matrix
         matrix formed by q * inverse( r ), where q,r is the QR decomposition
@@ -114,6 +115,7 @@ class QRFitter( BaseFitter ):
 
         self.needsNewDecomposition = True
         self.qrmat = None
+        self.qrbasis = None
 
     def fit( self, ydata, weights=None, accuracy=None, keep=None ):
         """
@@ -140,7 +142,7 @@ class QRFitter( BaseFitter ):
                         accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitwgts )
+            self.chiSquared( ydata, weights=fitwgts )
             return numpy.asarray( 0 )
 
         ydatacopy = ydata.copy( )
@@ -153,16 +155,19 @@ class QRFitter( BaseFitter ):
 #        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
 #                 numpy.sqrt( fitwgts ) )
 
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        # they multiply the residuals, the square of which is to be minimized.
+        wgts = numpy.sqrt( numpy.full_like( ydata, fitwgts, dtype=float ) )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
-            ydatacopy = numpy.append( ydatacopy, self.normdata )
-            wgts = numpy.append( wgts, normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata )
+            wgts = numpy.append( wgts, numpy.sqrt( self.normweight ) )
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        # the decomposition is only valid for the same weights and the same parameters
+        basis = numpy.append( wgts, fi )
+        if self.needsNewDecomposition or not numpy.array_equal( basis, self.qrbasis ) :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -171,6 +176,7 @@ class QRFitter( BaseFitter ):
 
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
+            self.qrbasis = basis
             self.needsNewDecomposition = False
 
         params = numpy.dot( self.qrmat, ydatacopy )
-- 
2.43.0


From d4f8ff597d1fa1ae23b3f04f2114fe9ded9db867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:47 +0000
Subject: [PATCH 021/101] fix: CurveFitter with limits and kept parameters

---
 BayesicFitting/source/CurveFitter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index b078d3b..67daee9 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -129,17 +129,16 @@ class CurveFitter( IterativeFitter ):
         # Check for limits
         if limits is not None :
             bounds = limits
-        elif self.model.priors :
-            bounds = self.model.getLimits()
         else :
-            bounds = ( -numpy.inf, numpy.inf )
+            bounds = self.getLimits()
 
-        # Make requested fitIndex; save original one.
+        # limits of the fitted parameters only
+        npchain = self.model.npchain
+        bounds = [numpy.broadcast_to( lim, npchain )[fitIndex] for lim in bounds]
 
         # Make initial parameters
         p0 = self.model.parameters if inipar is None else inipar
-        if fitIndex is not None :
-            p0 = p0[fitIndex]
+        p0 = numpy.asarray( p0 )[fitIndex]
 
         ydat = ydata
         # Normalize the data when needed.
-- 
2.43.0


From 646aaac06eb4979f841c434236f7bd7c03ffe4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 022/101] fix: LevenbergMarquardtFitter leaves its initial
 parameters alone and keeps what is to be kept

---
 .../source/LevenbergMarquardtFitter.py        | 34 +++++++++----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..2cf501e 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -181,7 +181,9 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                         accuracy=accuracy, keep=keep )
 
 
-        trypar = self.model.parameters if par0 is None else par0
+        trypar = self.model.parameters.copy()
+        if par0 is not None :
+            trypar[fitIndex] = numpy.asarray( par0 )[fitIndex]
 
 #        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
 #            par0 = par0[fitIndex]
@@ -259,7 +261,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             if onEdge :
                 newpar = edgePar
 
-            trypar = self.insertParameters( newpar, index=fi, into=params )
+            trypar = self.insertParameters( newpar, index=fi, into=params.copy() )
 
             trychi = self.chiSquaredExtra( data, trypar, weights=weights )
 
@@ -308,22 +310,18 @@ class LevenbergMarquardtFitter( IterativeFitter ):
         """
         onedge = False
 #        if self.model.priors is not None and self.model.priors.hasLimits( ):
-        if self.model.priors is not None :
-            fitin = []
-            for i,k in enumerate( fitindex ) :
-                pr = self.model.getPrior( k )
-                if pr.hasLowLimit( ) and fitpar[i] < pr.lowLimit :
-                    fitpar[i] = pr.lowLimit
-                    onedge = True
-                elif pr.hasHighLimit( ) and fitpar[i] > pr.highLimit :
-                    fitpar[i] = pr.highLimit
-                    onedge = True
-                else:
-                    fitin += [k]
-
-            return ( onedge, fitpar, fitin )
-        else:
-            return ( onedge, fitpar, fitindex )
+        fitin = []
+        low, high = self.getLimits( index=fitindex )
+        for i,k in enumerate( fitindex ) :
+            if fitpar[i] < low[i] :
+                fitpar[i] = low[i]
+                onedge = True
+            elif fitpar[i] > high[i] :
+                fitpar[i] = high[i]
+                onedge = True
+            else:
+                fitin += [k]
+        return ( onedge, fitpar, fitin )
 
 
 
-- 
2.43.0


From 9ff63fa0fec5301ee99f82e5531dd3a3e9ccd4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 023/101] fix: AnnealingAmoeba keeps its best point, its
 simplex and its arguments apart; AmoebaFitter limits with kept parameters

---
 BayesicFitting/source/AmoebaFitter.py    |  8 +++++++-
 BayesicFitting/source/AnnealingAmoeba.py | 10 ++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..682c1d7 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -168,8 +168,14 @@ class AmoebaFitter( MaxLikelihoodFitter ):
 
         if par0 is None :
             par0 = self.model.parameters
-        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
+        npchain = self.model.npchain
+        par0 = numpy.asarray( par0 )
+        if len( par0 ) == npchain :
             par0 = par0[fitIndex]
+        if limits is not None :             # of the fitted parameters only
+            limits = [numpy.broadcast_to( lim, npchain )[fitIndex] for lim in limits]
+        if Tools.length( size ) == npchain :
+            size = Tools.toArray( size )[fitIndex]
 
         kwargs = {}
         if size is not None :
diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..3975af6 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -234,6 +234,8 @@ class AnnealingAmoeba( object ):
             size of the simplex
 
         """
+        xini = numpy.array( xini, dtype=float )         # leave the originals as they are
+        step = numpy.array( step, dtype=float )
         nfit = len( xini )
 
         i = 0
@@ -278,7 +280,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
@@ -451,7 +453,7 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
 
@@ -552,7 +554,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
@@ -565,7 +567,7 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
-- 
2.43.0


From 9c6346f29a257c84accb68ca488801d7ee388bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 024/101] fix: ScipyFitter uses initial parameters, limits and
 the hessian of chisq

---
 BayesicFitting/source/MaxLikelihoodFitter.py |  3 ++-
 BayesicFitting/source/ScipyFitter.py         | 17 +++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..cbfc9ad 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,8 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        return 2 * self._outer.getHessian( params=param, weights=self._weights, index=self._index )
 
 class _LogL( _Chisq ) :
     """
diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..fef39dc 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -3,6 +3,7 @@ import warnings
 
 # unconstrained minimization
 from scipy.optimize import minimize
+from scipy.optimize import Bounds
 
 from .MaxLikelihoodFitter import MaxLikelihoodFitter
 #from ConvergenceError import ConvergenceError
@@ -165,7 +166,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
@@ -225,14 +226,13 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        inipar = self.model.parameters if par0 is None else numpy.asarray( par0 )
+        inipar = inipar[fitIndex]
 
-        # Check for limits in the prior
-        if limits is not None and self.model.priors :
-            try :
-                limits = ( self.model.lowLimits[fitIndex], self.model.highLimits[fitIndex] )
-            except :
-                limits = ( self.model.lowLimits, self.model.highLimits )
+        # Take the limits of the parameters that are fitted
+        if limits is not None :
+            npchain = self.model.npchain
+            limits = Bounds( *[numpy.broadcast_to( lim, npchain )[fitIndex] for lim in limits] )
 
         if self.method is None:
             # Select automatically
@@ -346,6 +346,7 @@ class ScipyFitter( MaxLikelihoodFitter ):
             self.chisq = res["fun"]
         else :
             self.logLikelihood = -res["fun"]
+            self.chisq = self.chiSquared( data, weights=weights )
 
 
 #        self.chisq = res["fun"]
-- 
2.43.0


From ffca8162e10c5a0ba5e3004b3e4fb461b614e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 025/101] fix: RobustShell without iterations

---
 BayesicFitting/source/RobustShell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/RobustShell.py b/BayesicFitting/source/RobustShell.py
index 9410403..28050db 100644
--- a/BayesicFitting/source/RobustShell.py
+++ b/BayesicFitting/source/RobustShell.py
@@ -231,6 +231,7 @@ class RobustShell( IterativeFitter ):
         param = self.fitter.fit( data, weights, **kwargs )
         self.npfit = self.fitter.npfit
         chi = self.fitter.chisq
+        trychi = chi
 
         while self.iter < self.maxIter :
 
-- 
2.43.0


From 0685b731820ed2bfc420ea4161823113d955a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 026/101] fix: ScipyFitter stays silent about chisq with an
 error distribution

---
 BayesicFitting/source/ScipyFitter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index fef39dc..1107ba3 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -346,7 +346,6 @@ class ScipyFitter( MaxLikelihoodFitter ):
             self.chisq = res["fun"]
         else :
             self.logLikelihood = -res["fun"]
-            self.chisq = self.chiSquared( data, weights=weights )
 
 
 #        self.chisq = res["fun"]
-- 
2.43.0


From e0585fd933da4c366365f1e80fb85ded2ad444d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 027/101] fix: range of the noise scale in getLogZ also when
 all parameters are kept

---
 BayesicFitting/source/BaseFitter.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 183b110..de968b1 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -899,7 +899,7 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi / dof )
+            self.logOccam = 0.5 * math.log( math.pi / dof ) - math.log( scalerange )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
@@ -907,9 +907,6 @@ class BaseFitter( object ):
             s2 = scale * scale
             self.logOccam = 0.0
 
-        # add integral over the scale prior, if scale is to be fitted.
-        spr = math.log( scalerange ) if autoScale else 0.0
-
         # obtain the loglikelihood.
         self.logLikelihood = self.getLogLikelihood( autoscale=autoScale, var=s2 )
 #        print( "BF2    ", self.logLikelihood )
@@ -932,7 +929,7 @@ class BaseFitter( object ):
             prirange = numpy.append( prirange, [prirange[-1]] * ( npchain - priorlength ) )
         if self.fitIndex is not None :
             prirange = prirange[self.fitIndex]
-        spr += numpy.sum( numpy.log( prirange ) )
+        spr = numpy.sum( numpy.log( prirange ) )
 
         hessian = self.getHessian( index=self.fitIndex )
         lidet = math.log( numpy.linalg.det( hessian ) )
-- 
2.43.0


From c9f1c8104fd0ed07fcaf09241db11e4b7f43ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 028/101] fix: check degeneracy of the simplex per dimension

---
 BayesicFitting/source/AnnealingAmoeba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 3975af6..015b8e4 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -328,10 +328,10 @@ class AnnealingAmoeba( object ):
         for i in range( dim[1] ) :
             same = True
             pre = simplex[0,i]
-            same = all( sim == pre for sim in simplex[i,:] )
+            same = all( sim == pre for sim in simplex[:,i] )
 
             if same:
-                print( simplex[i,:] )
+                print( simplex[:,i] )
                 raise ValueError( "Simplex is degenerate at index %d"%i )
 
     def setValues( self ):
-- 
2.43.0


From 12c4c09cff6b1fd077f188b977d7d790ac8e5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 029/101] fix: limits of a prior can be set again, or removed

---
 BayesicFitting/source/Prior.py | 53 +++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..144f0bd 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -175,34 +175,40 @@ class Prior( object ):
         """
 #        print( "Prior 1 ", limits )
         if limits is None :
-            self.lowLimit  = self._lowDomain
-            self.highLimit = self._highDomain
+            low  = self._lowDomain
+            high = self._highDomain
             reset = False
         else :
-            self.lowLimit  = limits[0] if limits[0] is not None else self._lowDomain
-            self.highLimit = limits[1] if limits[1] is not None else self._highDomain
+            low  = limits[0] if limits[0] is not None else self._lowDomain
+            high = limits[1] if limits[1] is not None else self._highDomain
             reset = ( limits[0] is not None ) or ( limits[1] is not None )
 
-#        print( "Prior 2 ", self.lowLimit, self.highLimit )
-        if not ( self._lowDomain <= self.lowLimit < self.highLimit <= self._highDomain ) :
-            print( self._lowDomain, self.lowLimit, self.highLimit, self._highDomain )
+#        print( "Prior 2 ", low, high )
+        if not ( self._lowDomain <= low < high <= self._highDomain ) :
+            print( self._lowDomain, low, high, self._highDomain )
             raise ValueError( "Limits out of order or out of domain" )
 
-        try :
-            self._umin = 0.0            ## only for re-setting the limits
-            self._urng = 1.0
-            umax = self.domain2Unit( self.highLimit )
-            self._umin = self.domain2Unit( self.lowLimit )
-            self._urng = umax - self._umin
-        except Exception :
-            self._urng = math.inf
+        self.lowLimit  = low
+        self.highLimit = high
+        self._setUnitRange()
 
 #        print( "Prior 3 ", self._umin, self._urng )
 
         if math.isinf( self._urng ) :
 #            warnings.warn( "%s needs limits" % self.__str__() )
+            # back to the functions without limits
+            for name in ["unit2Domain", "baseUnit2Domain", "domain2Unit", "baseDomain2Unit", "circular"] :
+                self.__dict__.pop( name, None )
             return
 
+        if self.isCircular() :
+            if reset :
+                self.circular = high - low              # the new period
+            else :
+                self.circular = False
+                setatt( self, "unit2Domain", self.limitedUnit2Domain )
+                setatt( self, "domain2Unit", self.limitedDomain2Unit )
+
         if hasattr( self, "baseUnit2Domain" ) : return			# aleady reset
 
         # reset the functions
@@ -212,6 +218,20 @@ class Prior( object ):
             setatt( self, "baseDomain2Unit", self.domain2Unit )
             setatt( self, "domain2Unit", self.limitedDomain2Unit )
 
+    def _setUnitRange( self ) :
+        """
+        Set the range of the (unlimited) unit values between the limits.
+        """
+        d2u = self.baseDomain2Unit if hasattr( self, "baseDomain2Unit" ) else self.domain2Unit
+        try :
+            self._umin = d2u( self.lowLimit )
+            self._urng = d2u( self.highLimit ) - self._umin
+        except Exception :
+            self._urng = math.inf
+
+        if hasattr( self, "limint" ) :
+            self.limint = self._urng
+
     def setPriorAttributes( self, limits, circular ) :
         """
         Set circular attributes.
@@ -316,8 +336,7 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.setLimits( None )
 
     def setAttributes( self, limits=None, scale=None ) :
         """
-- 
2.43.0


From 39e62139737d1fddcb6585757509cb6a4e8bd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 030/101] fix: limits of a prior hold when its scale or center
 is changed

---
 BayesicFitting/source/Prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index 144f0bd..cd091cb 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -311,6 +311,8 @@ class Prior( object ):
 
         if name in keys :
             setatt( self, name, value )
+            if name in ["center", "scale"] and "_urng" in self.__dict__ :
+                self._setUnitRange()
         else :
             raise AttributeError( repr( self ) + " object has no attribute " + name )
 
-- 
2.43.0


From 0962910bd3b8758e7fb3d07e59a316d25c9991ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 031/101] fix: copy of a prior has the same limits

---
 BayesicFitting/source/ExponentialPrior.py | 4 +++-
 BayesicFitting/source/Prior.py            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..a955582 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,10 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
+        cp = ExponentialPrior( scale=self.scale, hilimit=self.limits[1],
             prior=self )
+        cp.setLimits( self.limits )
+        return cp
 
     def shortName( self ) :
         return "ExponentialPrior"
diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index cd091cb..5478c3a 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -254,7 +254,9 @@ class Prior( object ):
         else :
             period = circular
 
-            if hasattr( self, "center" ) :
+            if limits is not None :
+                self.setLimits( limits )
+            elif hasattr( self, "center" ) :
                 self.setLimits( limits=[self.center - period / 2, self.center + period / 2] )
             else :
                 self.setLimits( limits=[0,period] )
-- 
2.43.0


From 919a78b8d178d4f232ed2c769c802f67a6fed08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 032/101] fix: result of an unbound JeffreysPrior is undefined,
 not 0

---
 BayesicFitting/source/JeffreysPrior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/JeffreysPrior.py b/BayesicFitting/source/JeffreysPrior.py
index 1659ee0..1b5bc9d 100644
--- a/BayesicFitting/source/JeffreysPrior.py
+++ b/BayesicFitting/source/JeffreysPrior.py
@@ -133,7 +133,7 @@ class JeffreysPrior( Prior ):
             value within the domain of a parameter
 
         """
-        if math.isnan( self._urng ) :
+        if math.isinf( self._urng ) :
             raise AttributeError( "Limits are needed for JeffreysPrior" )
         try :
             return 0 if self.isOutOfLimits( x ) else 1.0 / ( x * self._urng )
-- 
2.43.0


From b19352bc42c351810ebf157877a33c48eeddac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 033/101] fix: residuals of an error distribution without
 hyperparameters

---
 BayesicFitting/source/ErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..a66a4d9 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -189,7 +189,7 @@ class ErrorDistribution( object ):
             param = problem.model.parameters
         else :
             nh = self.nphypar
-            param = allpars[:-nh]
+            param = allpars[:-nh] if nh > 0 else allpars
 
         return problem.residuals( param )
 
-- 
2.43.0


From a70920d7c454eeafc4600774d39f48bdb117d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 034/101] fix: copy of an error distribution has
 hyperparameters of its own

---
 BayesicFitting/source/ErrorDistribution.py            | 6 +++---
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 --
 BayesicFitting/source/MixedErrorDistribution.py       | 3 +++
 BayesicFitting/source/ModelDistribution.py            | 2 +-
 BayesicFitting/source/NoiseScale.py                   | 2 +-
 BayesicFitting/source/ScaledErrorDistribution.py      | 7 ++-----
 6 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index a66a4d9..6ad8dd1 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -98,10 +98,10 @@ class ErrorDistribution( object ):
             self.deltaP = 0.000001
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
-        else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+        else :
+            self.hyperpar = [hp.copy() for hp in copy.hyperpar]
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = None if copy.fixed is None else copy.fixed.copy()
             self.constrain = copy.constrain
 
     def copy( self ):
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..7576fd2 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..1963cc9 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -91,6 +91,9 @@ class MixedErrorDistribution( ErrorDistribution ):
         """
         super( MixedErrorDistribution, self ).__init__( copy=copy )
 
+        if copy is not None :
+            errdis1 = copy.errdis1.copy()
+            errdis2 = copy.errdis2.copy()
         self.errdis1 = errdis1
         self.errdis2 = errdis2
         if copy is None :
diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 6ef8682..9a353a8 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -99,7 +99,7 @@ class ModelDistribution( ScaledErrorDistribution ):
 
     def copy( self ):
         """ Return copy of this.  """
-        return ModelDistribution( copy=self, arbiter=self.arbiter )
+        return ModelDistribution( copy=self, arbiter=self.arbiter, **self.kwarbs )
 
     def acceptWeight( self ):
         """
diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..61c1812 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,8 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
-
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From 4bd4dae7708ce2797c4cf3f29d76efcb510fc731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 035/101] fix: hyperparameter with limits is not fixed

---
 BayesicFitting/source/HyperParameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 728d61b..a118f0e 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -84,10 +84,12 @@ class HyperParameter( object ):
         self.stdev = None
         self.prior = prior
         if prior is not None :
-            self.prior.setLimits( limits )
+            if limits is not None :
+                self.prior.setLimits( limits )
             self.isFixed = False
         elif limits is not None :
             self.prior = JeffreysPrior( limits=limits ) 
+            self.isFixed = False
 
 
         if copy is not None :
-- 
2.43.0


From 45651b89cb324b31158594e31f85f0bd7fbd36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 036/101] fix: set priors on the hyperparameters of an error
 distribution

---
 BayesicFitting/source/ErrorDistribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 6ad8dd1..c909124 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -289,8 +289,11 @@ class ErrorDistribution( object ):
         priors  : (list of) Prior
             prior distribution for the hyperparameters
         """
+        if self.nphypar == 1 and not isinstance( priors, (list,tuple) ) :
+            priors = [priors]
         for spp,pr in zip( self.hyperpar, priors ) :
-            spp.setPrior( pr )
+            spp.prior = pr
+            spp.isFixed = False
 
     def setLimits( self, limits ) :
         """
-- 
2.43.0


From 8870eff7ed772a43fdf2bc045c50e0445b272a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 037/101] fix: set limits on all hyperparameters of an error
 distribution

---
 BayesicFitting/source/ScaledErrorDistribution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index 61c1812..246d93c 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -95,8 +95,9 @@ class ScaledErrorDistribution( ErrorDistribution ):
             high : float or array_like
                 high limits
         """
-        if self.hyperpar[0].prior is None :
-            self.hyperpar[0].prior = JeffreysPrior()
+        for hp in self.hyperpar :
+            if hp.prior is None :
+                hp.prior = JeffreysPrior()
 
         super( ScaledErrorDistribution, self ).setLimits( limits )
 
-- 
2.43.0


From adeff0c8679970018a41dde4c040ae6bfcb02138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 038/101] fix: sign, weights and scale in the hessian of the
 gaussian log likelihood

---
 .../source/GaussErrorDistribution.py          | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index 0d7a6ba..c1c35d4 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -275,22 +275,31 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         np = problem.npars
         param = allpars[:np]
         scale = allpars[np]
-        s2 = scale * scale
+        s2 = scale * scale + problem.varyy
 
-        fi = fitIndex if fitIndex[-1] != np else fitIndex[-1:]
+        last = fitIndex[-1]
+        fitscale = last == np or last == -1
+        fi = fitIndex[:-1] if fitscale else fitIndex
 
         nf = len( fi )
         design = problem.partial( param )[:,fi]
         design = design.transpose()
-        deswgt = design
+        deswgt = design / s2
         if problem.hasWeights() :
-            deswgt *= problem.weights
+            deswgt = deswgt * problem.weights
 
         hessian = numpy.zeros( ( nh, nh ), dtype=float )
-        hessian[:nf,:nf] = numpy.inner( design, deswgt ) / s2
-
-        if fitIndex[-1] == np :
-            hessian[nf,nf] = 2 * ( problem.ndata - nf ) / s2
+        hessian[:nf,:nf] = - numpy.inner( design, deswgt )
+
+        if fitscale :
+            ( res2, resw ) = problem.weightedResSq( allpars, extra=True )
+            wgt = problem.weights if problem.hasWeights() else 1.0
+            s2 = s2 + numpy.zeros_like( res2 )
+            ss = scale * scale
+            hess = ( res2 * ( s2 - 4 * ss ) / s2 - wgt * ( s2 - 2 * ss ) ) / ( s2 * s2 )
+            hessian[nf,nf] = numpy.sum( hess )
+            hessian[:nf,nf] = numpy.inner( design, -2 * scale * resw / ( s2 * s2 ) )
+            hessian[nf,:nf] = hessian[:nf,nf]
 
         return hessian
 
-- 
2.43.0


From fc461401119bb2651e5a73cb11f4343d3a1c7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 039/101] fix: norm of the 2-dimensional gauss distribution

---
 BayesicFitting/source/Gauss2dErrorDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 7b66d74..52f2ff4 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -59,7 +59,7 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
     Author       Do Kester.
 
     """
-    LOG2PI = math.log( 2 * math.pi )
+    LOG2PI = 2 * math.log( 2 * math.pi )            # for 2 dimensions
 
 
     #  *********CONSTRUCTORS***************************************************
@@ -143,7 +143,7 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
             else :
                 norm = problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )  
         else :
-            norm = numpy.sum( problem.weights * ( LOG2PI + numpy.log( det ) ) ) 
+            norm = numpy.sum( problem.weights * ( self.LOG2PI + numpy.log( det ) ) ) 
 
         return -0.5 * ( norm + chisq )
 
-- 
2.43.0


From 5bac85da1523b1e57aa2d39f92e1133ea1c67f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 040/101] fix: sign in the alternative partial of the Bernoulli
 distribution

---
 BayesicFitting/source/BernoulliErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 26b9b78..010883a 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -176,7 +176,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         dLdM = numpy.zeros_like( mock )
 
         if problem.model.lastndout == 1 :
-            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, 1 - mock )
+            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
             return dL
 
-- 
2.43.0


From 825a8176203d06a044e1dc7d2ce8daf03526eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 041/101] fix: mixture of error distributions with any number
 of hyperparameters

---
 .../source/MixedErrorDistribution.py          | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 1963cc9..07f05fd 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -127,6 +127,20 @@ class MixedErrorDistribution( ErrorDistribution ):
         return self.errdis1.acceptWeight() and self.errdis2.acceptWeight()
 
 
+    def splitParam( self, allpars ) :
+        """
+        Return the parameter lists for errdis1 and errdis2.
+
+        Parameters
+        ----------
+        allpars : array_like
+            list of all parameters in the problem
+        """
+        n1 = self.errdis1.nphypar
+        n2 = self.errdis2.nphypar
+        np = len( allpars ) - n1 - n2 - 1
+        return ( allpars[:np+n1], numpy.append( allpars[:np], allpars[np+n1:-1] ) )
+
     #  *********LIKELIHOODS***************************************************
     def logLdata( self, problem, allpars, mockdata=None ) :
         """
@@ -146,11 +160,7 @@ class MixedErrorDistribution( ErrorDistribution ):
             mockdata = problem.result( allpars[:problem.npars] )
 
         f = allpars[-1]
-        n1 = self.errdis1.nphypar
-        n2 = self.errdis2.nphypar
-        p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        ( p1, p2 ) = self.splitParam( allpars )
 
         if f <= 0 :
             return self.errdis2.logLdata( problem, p2, mockdata=mockdata )
@@ -183,24 +193,14 @@ class MixedErrorDistribution( ErrorDistribution ):
         # make allpars lists (p1,p2)for errdis1&2; shift hyperpars in p2
         f = allpars[-1]
         emf = 1 - f
-        n1 = self.errdis1.nphypar
         n2 = self.errdis2.nphypar
-        p1 = allpars[:-n2-1]
-        p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
-
+        ( p1, p2 ) = self.splitParam( allpars )
 
         # make fitIndex (f1,f2) for errdis1&2
-        fitIndex = numpy.asarray( fitIndex )
-        q = numpy.where( fitIndex >= 0 )
-        f1 = fitIndex[q]
-        f2 = f1.copy()
-        if -3 in fitIndex :
-            f1 = numpy.append( f1, [-1] )
-        if -2 in fitIndex :
-            f2 = numpy.append( f2, [-1] )
-
-        # make fitindices (f1,f2) for errdis1&2
+        # -1 is the fraction; errdis2 has -n2-1 .. -2; errdis1 has the ones before that.
+        f1 = [k if k >= 0 else k + n2 + 1 for k in fitIndex if k >= 0 or k < - n2 - 1]
+        f2 = [k if k >= 0 else k + 1 for k in fitIndex if k >= 0 or - n2 - 1 <= k < -1]
+
         lhd1 = numpy.exp( self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
         lhd2 = numpy.exp( self.errdis2.logLdata( problem, p2, mockdata=mockdata ) )
         pg1 = self.errdis1.nextPartialData( problem, p1, f1, mockdata=mockdata )
@@ -228,12 +228,12 @@ class MixedErrorDistribution( ErrorDistribution ):
             if fi == -1 :           ## partialLogL for fraction f
                 yield ( ( lhd1 - lhd2 ) * fff )
 
-            elif fi == -2 :         ## partialLogL for sigma of errdis2
+            elif - n2 - 1 <= fi < -1 :  ## partialLogL for hyperparameters of errdis2
                 npg2 = next( pg2 )
 
                 yield ( emf * lhd2 * fff * npg2 )
 
-            elif fi == -3 :         ## partialLogL for sigma of errdis1
+            elif fi < - n2 - 1 :    ## partialLogL for hyperparameters of errdis1
                 npg1 = next( pg1 )
 
                 yield ( f * lhd1 * fff * npg1 )
-- 
2.43.0


From e60196fc322d6ccf553a8569a2f6eeede6fe98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 042/101] fix: keep the accuracies of a ErrorsInXandYProblem
 when they are squared

---
 BayesicFitting/source/ErrorsInXandYProblem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..f421149 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -207,7 +207,7 @@ class ErrorsInXandYProblem( Problem ):
                 varxy = covar[0,1] if cdim == 2 else covar[:,0,1]
         else :
             if covar is None :
-                accuracy = numpy.asarray( accuracy )
+                accuracy = numpy.asarray( accuracy, dtype=float )
                 adim = accuracy.ndim
 #                print( "SetAcc  ", accuracy, adim )
                 varxy = 0.0
@@ -225,9 +225,9 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
-- 
2.43.0


From 87dcb7a386c31931bc4e01007677b3e27853d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 043/101] fix: scalar accuracy and lists of weights in a
 MultipleOutputProblem

---
 BayesicFitting/source/MultipleOutputProblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index eda8994..69f36d3 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -92,7 +92,8 @@ class MultipleOutputProblem( Problem ):
         Expand and flatten the arrays.
 
         """
-        if weights is not None :
+        if weights is not None and numpy.ndim( weights ) > 0 :
+            weights = numpy.asarray( weights )
             if len( weights.shape ) == 1 :
                 wgts = numpy.zeros( ( len( weights ), ndout ), dtype=float )
                 for k in range( ndout ) :
-- 
2.43.0


From 232574457c70af54cf048a0d8bb9936146f3cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 044/101] fix: count all outputs of a MultipleOutputProblem

---
 BayesicFitting/source/CauchyErrorDistribution.py |  8 ++++----
 BayesicFitting/source/MultipleOutputProblem.py   | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 71cbc1b..338a6e7 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -114,7 +114,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         """
         res = self.getResiduals( problem, allpars=allpars )
         self.res2 = res * res
-        self.sumweight = problem.sumweight
+        self.sumweight = len( res )
 
         scale = scipy.optimize.bisect( self.funct, 0.001, 100.0 )
         return scale
@@ -151,10 +151,10 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         res = problem.residuals( allpars[:-1] )
         res2 = numpy.square( res )
         if isinstance( scale, float ) :
-            logL = ( problem.ndata * ( math.log( scale ) - self.LOGPI ) -
+            logL = ( len( res2 ) * ( math.log( scale ) - self.LOGPI ) -
                      numpy.sum( numpy.log( res2 + s2 ) ) )
         else :
-            logL = ( -problem.ndata * self.LOGPI + 
+            logL = ( -len( res2 ) * self.LOGPI + 
                     numpy.sum( numpy.log( scale / ( res2 + s2 ) ) ) )
 
         return logL
@@ -219,7 +219,7 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = 2 * numpy.sum( res * dM[:,k] / r2s )
                 i += 1
             else :
-                dL[-1] = problem.ndata / scale - numpy.sum( 2 * scale / r2s )
+                dL[-1] = len( res ) / scale - numpy.sum( 2 * scale / r2s )
 
         return dL
 
diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index 69f36d3..ca8fd03 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -102,6 +102,19 @@ class MultipleOutputProblem( Problem ):
             weights = weights.flatten()
         return weights
 
+    def __getattr__( self, name ) :
+        """
+        Return value belonging to attribute with name.
+
+        Parameters
+        ----------
+        name : string
+            name of the attribute
+        """
+        if name == 'sumweight' and not self.hasWeights() :
+            return self.ydata.size              # all outputs count
+        return super().__getattr__( name )
+
     #  *****RESULT**************************************************************
     def result( self, param ):
         """
-- 
2.43.0


From a142af2fba5de73cb6010b08f63415acdac2208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 045/101] fix: residuals in the UniformErrorDistribution

---
 BayesicFitting/source/UniformErrorDistribution.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 6b42734..5b1cb7c 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -172,11 +172,8 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             as calculated by the model
 
         """
-        if mockdata is None :
-            mockdata = problem.result( allpars[:-1] )
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
-
-        ares = numpy.abs( problem.ydata - mockdata )
+        ares = numpy.abs( problem.residuals( allpars[:-1], mockdata=mockdata ) )
 
         lld = numpy.where( ares < scale, -numpy.log( 2 * scale ), -math.inf )
         if problem.weights is not None :
-- 
2.43.0


From 05ed6f362f4d2ed53d6f536a7807c2d14fc682cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 046/101] fix: keepFixed keeps hyperparameters fixed

---
 BayesicFitting/source/ErrorDistribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index c909124..be79254 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -269,12 +269,14 @@ class ErrorDistribution( object ):
         # Reset all fixed to False
         for s in self.hyperpar :
             s.fixed = False
+            s.isFixed = s.prior is None
 
         if fixed is None :
             return None
 
         for f in fixed.keys() :
             self.hyperpar[f].fixed = True
+            self.hyperpar[f].isFixed = True
             self.hyperpar[f].hypar = fixed[f]
 
         return fixed
-- 
2.43.0


From 77acc03dd76bc58462e607e9c5be5a0572936898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 047/101] fix: set limits on all hyperparameters of any error
 distribution

---
 BayesicFitting/source/ErrorDistribution.py       | 5 +++++
 BayesicFitting/source/ScaledErrorDistribution.py | 4 ----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index be79254..46de758 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -2,6 +2,7 @@ import numpy as numpy
 import math
 
 from .HyperParameter import HyperParameter
+from .JeffreysPrior import JeffreysPrior
 from . import Tools
 from .Tools import setAttribute as setatt
 from .Formatter import formatter as fmt
@@ -309,6 +310,10 @@ class ErrorDistribution( object ):
             high : float or array_like
                 high limits
         """
+        for spp in self.hyperpar :
+            if spp.prior is None :
+                spp.prior = JeffreysPrior()
+
         if self.nphypar == 1 :
             self.hyperpar[0].setLimits( limits )
             return
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index 246d93c..3b2225b 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -95,10 +95,6 @@ class ScaledErrorDistribution( ErrorDistribution ):
             high : float or array_like
                 high limits
         """
-        for hp in self.hyperpar :
-            if hp.prior is None :
-                hp.prior = JeffreysPrior()
-
         super( ScaledErrorDistribution, self ).setLimits( limits )
 
 
-- 
2.43.0


From de41c4044c55e2d09659e005dcc93ddb8d00a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 048/101] fix: hyperparameters of the copy of a mixed error
 distribution

---
 BayesicFitting/source/MixedErrorDistribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 07f05fd..fd8a527 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -96,11 +96,13 @@ class MixedErrorDistribution( ErrorDistribution ):
             errdis2 = copy.errdis2.copy()
         self.errdis1 = errdis1
         self.errdis2 = errdis2
+        self.hyperpar = errdis1.hyperpar + errdis2.hyperpar
         if copy is None :
-            self.hyperpar = errdis1.hyperpar + errdis2.hyperpar
             fprior = UniformPrior( )
             fraction = HyperParameter( hypar=fraction, prior=fprior, limits=limits )
-            self.hyperpar += [fraction]
+        else :
+            fraction = copy.hyperpar[-1].copy()
+        self.hyperpar += [fraction]
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From cd08c15736a945833cbe468c4c27f95273806ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 049/101] fix: names of the hyperparameters of a mixed error
 distribution

---
 BayesicFitting/source/MixedErrorDistribution.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index fd8a527..f4e03bf 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -241,6 +241,23 @@ class MixedErrorDistribution( ErrorDistribution ):
                 yield ( f * lhd1 * fff * npg1 )
 
 
+    def hyparname( self, k ) :
+        """
+        Return name of the hyperparameter
+
+        Parameters
+        ----------
+        k : int
+            index of the hyperparameter
+        """
+        n1 = self.errdis1.nphypar
+        n2 = self.errdis2.nphypar
+        if k < n1 :
+            return self.errdis1.hyparname( k )
+        if k < n1 + n2 :
+            return self.errdis2.hyparname( k - n1 )
+        return "fraction"
+
     def __str__( self ) :
         n1 = re.match( "^[a-zA-Z_]*", self.errdis1.__str__() ).group(0)
         n2 = re.match( "^[a-zA-Z_]*", self.errdis2.__str__() ).group(0)
-- 
2.43.0


From e3d00edea0b7628085f20471d28e9be397fb7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 050/101] fix: scale of the ExponentialErrorDistribution from
 the residuals

---
 BayesicFitting/source/ExponentialErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 7576fd2..c3e0aad 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -235,7 +235,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         """
         power = allpars[-1]
         chi = self.getChipow( problem, allpars=allpars )
-        return math.pow( chi / problem.sumweight, 1.0 / power )
+        return math.pow( power * chi / problem.sumweight, 1.0 / power )
 
 
     def partialLogL_alt( self, problem, allpars, fitIndex ) :
-- 
2.43.0


From 9c8f6c8b4d7077b48dfed7a950d1bc4686c8015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 051/101] fix: alternative partial of the
 LaplaceErrorDistribution to the scale

---
 BayesicFitting/source/LaplaceErrorDistribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index 91bf692..e9c3564 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -231,7 +231,7 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
                 dL[i] = numpy.sum( wgt * dM[:,k] )
                 i += 1
             else :
-                dL[-1] = self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight
+                dL[-1] = ( self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight ) / scale
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
-- 
2.43.0


From d5726ffbc74ca67628c64e9d0487b5aefbb25aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 052/101] fix: selection of parameters in the alternative
 partial of the Bernoulli distribution

---
 BayesicFitting/source/BernoulliErrorDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 010883a..63c3116 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -178,7 +178,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         if problem.model.lastndout == 1 :
             dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
-            return dL
+            return dL[fitIndex]
 
         for k in range( problem.model.lastndout ) :
             q = numpy.where( problem.ydata == k )
@@ -186,7 +186,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
 
         dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
 
-        return dL
+        return dL[fitIndex]
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
-- 
2.43.0


From 90f04e3fef3220f21876b442de1a179a870768ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 053/101] fix: partials of the ExponentialErrorDistribution
 where a residual is 0

---
 BayesicFitting/source/ExponentialErrorDistribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index c3e0aad..897a64e 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -265,7 +265,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if problem.weights is not None :
             rsp = rsp * problem.weights
 
-        dLdm = power * rsp / res
+        dLdm = power * rsp / numpy.where( res == 0, 1.0, res )      # 0 when res is 0
         dM = problem.partial( allpars[:-2] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
@@ -280,7 +280,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
                 # special.psi( x ) is the same as special.polygamma( 1, x )
                 dldp = problem.sumweight * ( power + special.psi( 1.0 / power ) )
                 dldp /= ( power * power )
-                dldp -= ( numpy.sum( rsp * numpy.log( ars ) ) )
+                dldp -= ( numpy.sum( special.xlogy( rsp, ars ) ) )
                 dL[-1] = dldp
 
         return dL
@@ -317,7 +317,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         else :
             wgt = 1.0
 
-        dLdm = power * rsp / res
+        dLdm = power * rsp / numpy.where( res == 0, 1.0, res )      # 0 when res is 0
         dM = problem.partial( param )
 ##      TBD import mockdata into partial
 #        dM = problem.partial( param, mockdata=mockdata )
@@ -331,7 +331,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
             elif k == -2 :
                 yield ( power * rsp - wgt ) / scale
             else :
-                yield dlp - rsp * numpy.log( ars )
+                yield dlp - special.xlogy( rsp, ars )
 
 #        return
 
-- 
2.43.0


From d7590fff7325ab081ffef2f9eede1101f96b82b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 054/101] fix: list of parameters to be fitted when some are
 kept and hyperparameters are fixed

---
 BayesicFitting/source/NestedSampler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..252fa77 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -538,14 +538,15 @@ class NestedSampler( object ):
         nh = self.distribution.nphypar
         if keep is not None :
             fitl = []
-            kkeys = list( keep.keys() )
             for k in range( np + nh ) :
-                if k in kkeys :
+                kh = k - np - nh                            # index, counted from the end
+                kf = k if k < np else kh                    # index as it is in fitlist
+                if k in keep :
                     allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
+                elif kf in keep :
+                    allpars[k] = keep[kf]                   # save keep.value in allpars
+                elif kf in fitlist :
+                    fitl += [kf]                            # list of pars to be fitted
             fitlist = fitl
 
         return ( fitlist, allpars )
-- 
2.43.0


From 17a78d8a7402404a9a129ac35f8c8185d6f3e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 055/101] fix: logZ and evidence in the list of samples after a
 run

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 252fa77..4e2471d 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -470,7 +470,7 @@ class NestedSampler( object ):
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
-- 
2.43.0


From 553529c9c9089252edf666dddaa44bb4c15d38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 056/101] fix: information is updated with the likelihood of
 the walker itself

---
 BayesicFitting/source/NestedSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 4e2471d..5a5749b 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -770,7 +770,7 @@ class NestedSampler( object ):
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            self.info = ( math.exp( logWeight - logZnew ) * self.walkers[kw].logL +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
-- 
2.43.0


From ba89a4f6bd3244a3e471141705c7bdfd819199ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 057/101] fix: the remaining walkers are sorted before they
 become samples

---
 BayesicFitting/source/NestedSampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 5a5749b..6602406 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -467,6 +467,7 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )    # the best one is the last sample
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-- 
2.43.0


From e61e3376050095c454f720b4dde13c113ceee9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 058/101] fix: the list of samples is not longer than maxsize

---
 BayesicFitting/source/NestedSampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 6602406..818f629 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -469,6 +469,7 @@ class NestedSampler( object ):
         # End of Sampling: Update and store the remaining walkers
         self.walkers.sort( key=self.walkerLogL )    # the best one is the last sample
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
+        self.samples.weed( self.maxsize )           # remove overflow in samplelist
 
         # Calculate weighted average and stdevs for the parameters;
         self.samples.logZ = self.logZ
-- 
2.43.0


From 271e7478cb472e6e47cbbcebcef5b63c38e9aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 059/101] fix: a second run of a NestedSampler starts anew

---
 BayesicFitting/source/NestedSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index 818f629..c60a9dc 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -410,6 +410,8 @@ class NestedSampler( object ):
             "test"      plot iterations but dont show (for testing)
         """
         keep = self.initSample( keep=keep )
+        self.iteration = 0
+        self.samples = SampleList( self.problem.model, 0, ndata=self.problem.ndata )
 
         if ( self.problem.hasAccuracy and self.walkers[0].fitIndex[-1] < 0 and 
                 not isinstance( self.distribution, GaussErrorDistribution ) ) :
-- 
2.43.0


From d91dee96e1c8b9dd059c40576db72afe135ca999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 060/101] fix: ranges of the RandomEngine when some parameters
 are kept

---
 BayesicFitting/source/RandomEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..474da18 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -121,7 +121,7 @@ class RandomEngine( Engine ):
         t = 0
         for tt in range( self.nstep ) :
             ptry = param.copy()
-            uval = self.rng.uniform( um, ux, nap )
+            uval = self.rng.uniform( um[fi], ux[fi], nf )
             ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
-- 
2.43.0


From 705cfcfc16185502a7d4b5f5cf4d26d17cf238a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 061/101] fix: check of walkers with nuisance parameters

---
 BayesicFitting/source/Explorer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..0bb4997 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -254,10 +254,11 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
+        nuisance = walker.problem.npars - walker.problem.model.npars
+        walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        if walker.problem.npars < len( walker.allpars ) - self.errdis.nphypar :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
-- 
2.43.0


From 4d3d16466193ceb781ca8997ac4d081ab5bf13b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 062/101] fix: PhantomSampler replaces at least one walker

---
 BayesicFitting/source/PhantomSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..258629e 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
-- 
2.43.0


From b952abe47eeef48c850129fcc5fe920b70585856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 063/101] fix: PhantomSampler starts with as many walkers as
 its ensemble

---
 BayesicFitting/source/NestedSampler.py  | 9 ++++++++-
 BayesicFitting/source/PhantomSampler.py | 9 +++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index c60a9dc..95c39bf 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -431,7 +431,7 @@ class NestedSampler( object ):
             # Explore all walker(s)
             explorer.explore( range( self.ensemble ), self.lowLhood, self.iteration )
             self.iteration = 0                  # reset iteration number
-
+            self.cropWalkers( )
 
         self.logZ = -sys.float_info.max
         self.logdZ = 0
@@ -858,6 +858,13 @@ class NestedSampler( object ):
 
 
 
+    def cropWalkers( self ) :
+        """
+        Bring the walker list back to the size of the ensemble.
+        Nothing to be done here.
+        """
+        pass
+
     def updateWalkers( self, explorer, worst ) :
         """
         Update the walkerlist in place.
diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 258629e..df80966 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -234,6 +234,15 @@ class PhantomSampler( NestedSampler ):
         return super().initSample( ensemble=self.initEnsemble, keep=keep )
 
 
+    def cropWalkers( self ) :
+        """
+        Bring the walker list, that was extended by the initial exploration,
+        back to the size of the ensemble.
+        """
+        while len( self.walkers ) > self.initEnsemble :
+            del( self.walkers[self.rng.randint( len( self.walkers ) )] )
+
+
     def updateWalkers( self, explorer, worst ) :
         """
         Update the walkerlist while appending the new (phantom) walkers to the list
-- 
2.43.0


From a8515dd2e90502b7e39715c0fb0225873928ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 064/101] fix: no range of the parameters from a single phantom

---
 BayesicFitting/source/PhantomCollection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index c88c940..e24c6b8 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -146,7 +146,7 @@ class PhantomCollection( object ):
         self.lowLhood = lowLhood
         self.phantoms = self.phantoms.cropOnLow( lowLhood )
 
-        if len( self.phantoms ) == 0 :
+        if len( self.phantoms ) < 2 :
             self.paramMin = None
             self.paramMax = None
         else :
-- 
2.43.0


From 1edd07ef31676f74157372a3d4b3908ea207a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 065/101] fix: averages and standard deviations in a SampleList
 are those of its samples

---
 BayesicFitting/source/SampleList.py | 35 ++++++++++++-----------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..93d3f29 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -143,18 +143,15 @@ class SampleList( list ):
         if name == "parameters" :
             return self.getParameters()
         elif name == "stdevs" or name == "standardDeviations" :
-            self.getParameters()
-            return self.stdevs
+            return self.averageParameters()[1]
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
-            self.getHypars()
-            return self.stdevHypar
+        elif name == "stdevHypars" :
+            return self.averstd( "hyper" )[1]
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
-            self.getNuisance()
-            return self.stdevNuis
+            return self.averstd( "nuisance" )[1]
         elif name == "scale" :
             return self.hypars[0]
         elif name == "stdevScale" :
@@ -295,12 +292,16 @@ class SampleList( list ):
         ------
             ValueError when using Dynamic Models
 
+        """
+        return self.averageParameters()[0]
+
+    def averageParameters( self ):
+        """
+        Return the average of the parameters and the standard deviations.
         """
         mdl = self[0].model
         if not ( mdl.hasPriors() and any( [mdl.getPrior( k ).isCircular() for k in range( mdl.npchain )] ) ) :
-            ( a, s ) = self.averstd( "parameters" )
-            self.stdevs = s
-            return a
+            return self.averstd( "parameters" )
 
         par, wgt = self.getParAndWgtEvolution()
         np = self[0].model.npchain
@@ -311,10 +312,7 @@ class SampleList( list ):
             clh = None if not pr.isCircular() else pr.getLimits()
             param[k], stdev[k] = Tools.average( par[:,k], weights=wgt, circular=clh )
 
-        self.parameters = param
-        self.stdevs = stdev
-
-        return self.parameters
+        return ( param, stdev )
 
     def getHypars( self ) :
         """
@@ -335,18 +333,13 @@ class SampleList( list ):
         self.hypars = hypar
         return self.hypars
         """
-        ( a, s ) = self.averstd( "hyper" )
-        self.stdevHypars = s
-        self.hypars = a
-        return a
+        return self.averstd( "hyper" )[0]
 
     def getNuisance( self ) :
         """
         Return the average of the nuisance parameters (if present)
         """
-        ( a, s ) = self.averstd( "nuisance" )
-        self.stdevNuis = s
-        return a
+        return self.averstd( "nuisance" )[0]
 
     def averstd( self, name ) :
         """
-- 
2.43.0


From d4b960a9410262027d9399c00996c5c2e19ed946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 066/101] fix: evolution of the parameters of dynamic models is
 zero-padded

---
 BayesicFitting/source/SampleList.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 93d3f29..ddb2a1f 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -404,13 +404,16 @@ class SampleList( list ):
             the parameter to be selected. Default: all
 
         """
-        pe = []
-        for sample in self :
-            pe += [sample.parameters]
+        nap = max( [len( s.parameters ) for s in self], default=0 )
+
+        pe = numpy.zeros( ( len( self ), nap ), dtype=float )
+        for k, sample in enumerate( self ) :
+            pe[k,:len( sample.parameters )] = sample.parameters
+
         if kpar is None :
-            return numpy.asarray( pe )
+            return pe
         else :
-            return numpy.asarray( pe )[:,kpar]
+            return pe[:,kpar]
 
     def getParAndWgtEvolution( self ):
         """
@@ -421,12 +424,7 @@ class SampleList( list ):
         to get the actual number.
 
         """
-        pe = []
-        we = []
-        for sample in self :
-            pe += [sample.parameters]
-            we += [sample.logW]
-        return ( numpy.asarray( pe ), numpy.exp( numpy.asarray( we ) ) )
+        return ( self.getParameterEvolution(), self.getWeightEvolution() )
 
 
     def getNumberOfParametersEvolution( self ):
-- 
2.43.0


From 9811e0d7408fea98a2342ad678f6402ff9c3f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 067/101] fix: monteCarloError of a SampleList is that of the
 xdata it is given

---
 BayesicFitting/source/SampleList.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index ddb2a1f..8e3f1e6 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -524,7 +524,7 @@ class SampleList( list ):
             sumwgt += wgt
 
 #        self.error = numpy.sqrt( ( error - result * result ) / self.ndata )
-        self.error = numpy.sqrt( error - result * result )
+        self.error = numpy.sqrt( numpy.maximum( error - result * result, 0 ) )
         self.result = result
 
         return self.result
@@ -549,7 +549,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From 5f49ef031efc6a0b585d11181f14806eff908cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 068/101] fix: no range of the parameters before there are
 phantoms

---
 BayesicFitting/source/PhantomCollection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index e24c6b8..36e08b6 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -90,6 +90,8 @@ class PhantomCollection( object ):
         else :
             self.phantoms = WalkerList( )
             self.lowLhood = -math.inf
+            self.paramMin = None
+            self.paramMax = None
 
     def __str__( self ):
         """ Return the name of this object.  """
-- 
2.43.0


From e42006dddd87554b7764ea0edb56f5f2e7afc3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 069/101] fix: hyperparameters of a walker do not include its
 nuisance parameters

---
 BayesicFitting/source/Walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Walker.py b/BayesicFitting/source/Walker.py
index 9a597e9..9e123bb 100644
--- a/BayesicFitting/source/Walker.py
+++ b/BayesicFitting/source/Walker.py
@@ -148,7 +148,7 @@ class Walker( object ):
             np = self.problem.model.npars
             return self.allpars[:np]
         elif name == "hypars" :
-            np = self.problem.model.npars
+            np = self.problem.npars
             if len( self.allpars ) > np :
                 return self.allpars[np:]
             else :
-- 
2.43.0


From 780f058a4f012697d64aae7539b919e3d7baeea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 070/101] fix: fit index when a parameter is removed that is
 not in it

---
 BayesicFitting/source/Dynamic.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/BayesicFitting/source/Dynamic.py b/BayesicFitting/source/Dynamic.py
index 76ee319..01f62bc 100644
--- a/BayesicFitting/source/Dynamic.py
+++ b/BayesicFitting/source/Dynamic.py
@@ -325,31 +325,15 @@ class Dynamic( object ):
         offset : int
             start index of the parameters of the dynamic model in param
         """
-        lfin = len( findex )
-        newfi = numpy.zeros( lfin + dnp, dtype=int )
-
-        k = 0
         kol = offset + location
-
         kh = kol if dnp > 0 else kol + dnp
-#        while findex[k] >=0 and findex[k] < kh :    ## copy first parts
-        while k < lfin and findex[k] >=0 and findex[k] < kh :    ## copy first parts
-            newfi[k] = findex[k]
-            k += 1
-        kl = k if dnp > 0 else k - dnp              ## where we are if findex
-
-        for i in range( dnp ) :                     ## insert extra indices if dnp>0
-            newfi[k] = kol + i
-            k += 1
-
-        for j in range( kl, lfin ) :                 ## copy the tail
-            if findex[j] >= 0 :
-                newfi[k] = findex[j] + dnp           ## in/de-crease indices
-            else :
-                newfi[k] = findex[j]                 ## negitive indices for hyperpars
-            k += 1
 
-        return newfi
+        newfi = [k for k in findex if 0 <= k < kh]          ## copy first parts
+        newfi += [kol + i for i in range( dnp )]            ## insert extra indices if dnp>0
+        newfi += [k + dnp for k in findex if k >= kol]      ## in/de-crease indices of the tail
+        newfi += [k for k in findex if k < 0]               ## negative indices for hyperpars
+
+        return numpy.asarray( newfi, dtype=int )
 
 
     def shuffle( self, param, offset, np, rng ) :
-- 
2.43.0


From 789ce2bac6915091338869d543bc7880863e996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 071/101] fix: a DecisionTreeModel made from a code has a
 parameter for each leaf

---
 BayesicFitting/source/DecisionTreeModel.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..5acd7fb 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -142,7 +142,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         Dynamic.__init__( self, dynamic=dynamic )
 
         if depth == 0 or code is not None :
-            nparams = 1
+            nparams = 1 if code is None else self.codeLeaf( code )
             setatt( self, "left", None )
             setatt( self, "rite", None )
             setatt( self, "split", None )
@@ -187,7 +187,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 growPrior = ExponentialPrior( scale=2 )
             setatt( self, "growPrior", growPrior )
             setatt( self, "itypes", itypes )
-            setatt( self, "ncomp", ( 0x1 << depth ) - 1 )
+            setatt( self, "ncomp", nparams - 1 )
 #            setatt( self, "nsplit", 3 )
 #            self.setLimits( 0, 1 )
             setatt( self, "nsplit", self.NSPLITPRIOR )
@@ -553,6 +553,17 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         return ( [c1,c2], [self.dimension] + d1 + d2, [sm] + s1 + s2 )
 
+    def codeLeaf( self, code ) :
+        """
+        Return the number of leaves of the tree with this code.
+
+        Parameters
+        ----------
+        code : int or list
+            from encode()
+        """
+        return sum( self.codeLeaf( c ) for c in code ) if isinstance( code, list ) else code
+
     def decode( self, code, kdim, splim, kbr ) :
         """
         Resurrect the DTM from the code generated by encode().
-- 
2.43.0


From 1b984039ce66b90ea9220713c002d7053bd836ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 072/101] fix: DecisionTreeModel in a chain; removing a branch
 leaves the parameters of other branches

---
 BayesicFitting/source/DecisionTreeModel.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 5acd7fb..24aa711 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -784,7 +784,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
@@ -836,6 +836,13 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         if parent is None :
             return False
 
+        ## first leaf of the branch, and the change in the number of leafs
+        leafs = [child for child in self.walk() if child.isLeaf()]
+        below = [child for child in parent.walk() if child.isLeaf()]
+        first = next( k for k,child in enumerate( leafs ) if child is below[0] )
+        dnp = 1 - len( below )
+        if self.minComp is not None and self.ncomp + dnp < self.minComp :
+            return False
 
         ## Erase the branch by putting the leafs to None
         setatt( parent, "left", None )
@@ -844,8 +851,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        ## remove the parameter at location, and more of the same branch. Keep one of them
+        location = min( location, first + 1 ) - dnp
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
-- 
2.43.0


From cf791b5b34b9794ba75cfaf0952c709a55dbb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 073/101] fix: branches of a DecisionTreeModel have either a
 split or a mask, which is not empty

---
 BayesicFitting/source/DecisionTreeModel.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 24aa711..34847d4 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -256,8 +256,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if itype == 0 :         ## float
             setatt( self, "split", split )
+            setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
             setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
+            setatt( self, "split", None )
 
     def isLeaf( self ) :
         """
@@ -848,6 +850,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         setatt( parent, "left", None )
         setatt( parent, "rite", None )
         setatt( parent, "split", None )
+        setatt( parent, "mask", None )
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
@@ -905,19 +908,24 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## shift nearby
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
+                setatt( parent, "mask", None )
             elif itype == 1 :                           ## make new mask
                 if parent.mask is None :
                     mask = rng.randint( 2 ) + 1
                 else :                                  ## exchange bits
                     mask = 2 if parent.mask == 1 else 1
-                setatt( parent, "mask", mask )
+                setatt( parent, "mask", int( mask ) )
+                setatt( parent, "split", None )
             else :
-                if parent.mask is None :                ## make new mask
-                    mask = rng.randint( 0x1 << itype ) + 1
-                else :                                  ## change 1 bit
-                    kr = rng.randint( itype )
-                    mask = parent.mask ^ ( 0x1 << kr )
-                setatt( parent, "mask", mask )
+                mask = 0
+                while mask == 0 :                       ## at least 1 bit
+                    if parent.mask is None :            ## make new mask
+                        mask = rng.randint( 0x1 << itype ) + 1
+                    else :                              ## change 1 bit
+                        kr = rng.randint( itype )
+                        mask = parent.mask ^ ( 0x1 << kr )
+                setatt( parent, "mask", int( mask ) )
+                setatt( parent, "split", None )
 
         else :
             parent = self.findBranch( location )
-- 
2.43.0


From 5ec6fac20580f9e29e9b4d10326b8046c238271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 074/101] fix: unknown data (NaN) do not decide where the
 others go in a DecisionTreeModel

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 34847d4..91c9ff9 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -289,8 +289,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         xd = Tools.getColumnData( xdata, self.dimension )[plist]        ## working data
 
         if self.split is not None :
-            mn = numpy.min( xd )
-            mx = numpy.max( xd )
+            mn = numpy.nanmin( xd )
+            mx = numpy.nanmax( xd )
 
             split = mn + ( mx - mn ) * self.split
             ### add NAN values to the smallest fraction
-- 
2.43.0


From 820473f4655861bad49458cd9bffad19b7e9835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 075/101] fix: copy of a DecisionTreeModel stays non-dynamic

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 91c9ff9..2a90b44 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -216,7 +216,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable, dynamic=self.dynamic )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
-- 
2.43.0


From 870a5e151ea2d10950f122170231d410b172fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 076/101] fix: copy of a SplinesDynamicModel keeps its border

---
 BayesicFitting/source/SplinesDynamicModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..0c2e1cb 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -156,7 +156,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         if dynamic is None :
             dynamic = self.dynamic
 
-        return SplinesDynamicModel( knots=self.knots, modifiable=modifiable,
+        return SplinesDynamicModel( knots=self.knots, border=self.border, modifiable=modifiable,
                                     dynamic=dynamic, copy=self )
 
     def __setattr__( self, name, value ) :
-- 
2.43.0


From aad0d65e0a4d86560a83bb5df415eff6ee3561f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 077/101] fix: SplinesDynamicModel grows and shrinks within the
 limits of its own priors

---
 BayesicFitting/source/SplinesDynamicModel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 0c2e1cb..6024ea4 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -247,8 +247,10 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
 #        print( "grow    ", nrknots, location, offset, k, kl, newkn )
 
-        mdlpar[kl-1] *= 0.7
-        value = mdlpar[kl-1]
+        value = 0.7 * mdlpar[kl-1]
+        if self.baseHasPriors( isBound=False ) :            # location is in this model, kl in the chain
+            value = self.getPrior( location - 1 ).stayInLimits( value )
+        mdlpar[kl-1] = value
         mdlpar = self.alterParameters( mdlpar, location, dnp, offset, value=value )
 
         setatt( self._head, "parameters", mdlpar )
@@ -299,10 +301,13 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            value = ( self.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
+        ## location is in this model, kl in the chain
+        prior = self.getPrior( location - 1 ) if self.baseHasPriors( isBound=False ) else None
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
+        if prior is not None and prior.isOutOfLimits( value ) :
+            value = ( prior.stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
+
+        if prior is not None and prior.isOutOfLimits( value ) :
             print( "New shrink value out of limit" )
             print( "Knots ", k, fmt( r1 ), fmt( r2 ), fmt( dis ), fmt( self.knots, max=None ) )
             print( "Pars  ", fmt( mdlpar, max=None ) )
-- 
2.43.0


From e2f28d074e6f5c8560c38b1c7043be672226b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:44 +0000
Subject: [PATCH 078/101] fix: a dynamic model in a chain, or with fixed
 hyperparameters, can be started

---
 BayesicFitting/source/StartEngine.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..c5bf40a 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -92,26 +92,24 @@ class StartEngine( Engine ):
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
-
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
 
-        ktry = 0
-        while True :
-
-            if model.isDynamic() :
-                np0 = model.npars
-                off = 0
+        dynamic = model is not None and model.isDynamic()
+        if dynamic :
+            np0 = model.npars
+            off = 0
 
-                ## find the model in the chain that is actually dynamic
-                while model is not None and not isinstance( model, Dynamic ) :
-                    off += model.npbase
-                    model = model._next
+            ## find the model in the chain that is actually dynamic
+            while model is not None and not isinstance( model, Dynamic ) :
+                off += model.npbase
+                model = model._next
 
+        ktry = 0
+        while True :
 
+            if dynamic :
 #                print( "SE   ", model.ncomp, model.maxComp, self.errdis )
                 npbase = model.npbase
                 ## Grow the dynamic model a number of times according to growPrior
@@ -120,11 +118,10 @@ class StartEngine( Engine ):
                     np1 = model.npars
                     dnp = np1 - np0
                     fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
+                    allp = model.alterParameters( allp, npbase, dnp, off, value=0 )
                     npbase = model.npbase
                     np0 = np1
 
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
-
             uval = self.rng.rand( len( fitIndex ) )
 
 #            print( "SE FI  ", fitIndex )
-- 
2.43.0


From d80003f1fee74af11bf9f7eeaeac86d2eccb22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 079/101] fix: the last knot of a SplinesDynamicModel is kept
 in place

---
 BayesicFitting/source/SplinesDynamicModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 6024ea4..ee0debe 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -341,7 +341,7 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
     def vary( self, rng=None, location=None ) :
 
         nrknots = len( self.knots )
-        if nrknots <= 2 or location == 0 or location == nrknots :
+        if nrknots <= 2 or location == 0 or location == nrknots - 1 :
             return False
 
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
-- 
2.43.0


From 721e52f9310de0719ae23437fcbec3e4e36bf608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 080/101] fix: the structure of a modifiable model in a chain
 is varied too

---
 BayesicFitting/source/Model.py           | 11 +++++++++++
 BayesicFitting/source/StructureEngine.py |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index bbe5965..a4b258f 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1034,6 +1034,17 @@ class Model( FixedModel ):
 
         return False
 
+    def isModifiable( self ) :
+        """
+        Return whether the model can change its structure.
+        """
+        if super( Model, self ).isModifiable() :
+            return True
+        elif self._next is not None :
+            return self._next.isModifiable()
+
+        return False
+
     #  *****PRIOR***************************************************************
     def hasPriors( self, isBound=True ) :
         """
diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..1a4e76b 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,11 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model = self.walkers[kw].problem.model
+        while not isinstance( model, Modifiable ) :
+            model = model._next
+
+        perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
-- 
2.43.0


From d6f07784f215ee72333afe28135c4da9ceb0d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:31 +0000
Subject: [PATCH 081/101] fix: SplinesDynamicModel does not look forever for
 room for a knot

---
 BayesicFitting/source/SplinesDynamicModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index ee0debe..67ed3e6 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -214,6 +214,9 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         if not force and self.maxKnots is not None and self.knots.size >= self.maxKnots :
             return False
 
+        if numpy.max( numpy.diff( self.knots ) ) <= 2 * self.minDistance :
+            return False                    ## no room for another knot
+
 #        print( "SDg p0 ", fmt( self._head.parameters, max=None ) )
 
         nrknots = len( self.knots )
-- 
2.43.0


From 77bb472fb4fc1b85fe3b493871f4a4f302beabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 082/101] fix: SplinesDynamicModel does not look forever for
 room to move a knot

---
 BayesicFitting/source/SplinesDynamicModel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 67ed3e6..f73a34f 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -350,6 +350,8 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
 
         newkn = self.knots[kk]
+        if self.knots[kk+1] - self.knots[kk-1] <= 2 * self.minDistance :
+            return False                    ## no room to move
 
         while True :
             rn = ( rng.rand() + rng.rand() ) - 1
-- 
2.43.0


From 0aeb571bc28c5ca1ae1affb69142f9993b78624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:13 +0000
Subject: [PATCH 083/101] fix: DecisionTreeModel makes a new mask when a branch
 gets another dimension

---
 BayesicFitting/source/DecisionTreeModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 2a90b44..3709256 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -919,7 +919,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             else :
                 mask = 0
                 while mask == 0 :                       ## at least 1 bit
-                    if parent.mask is None :            ## make new mask
+                    if parent.mask is None or kdim != parent.dimension :    ## make new mask
                         mask = rng.randint( 0x1 << itype ) + 1
                     else :                              ## change 1 bit
                         kr = rng.randint( itype )
-- 
2.43.0


From ec0d146642f0c5115f2f0e887dc46358b32f049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 084/101] fix: a DecisionTreeModel without branches has a
 result for each of the data

---
 BayesicFitting/source/DecisionTreeModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 3709256..46c90ec 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -325,7 +325,8 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            res[:] = params[0]
+            return res
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
-- 
2.43.0


From 86deee00d114257d74e86c228e2da28fe199a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 085/101] fix: partials of a DecisionTreeModel for a list of
 parameters

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 46c90ec..c06177e 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -366,7 +366,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         """
         ndata = Tools.length( xdata )
-        plist = numpy.arange( ndata, dtype=int ) if parlist is None else parlist
+        plist = numpy.arange( ndata, dtype=int )
 
         kpar = 0
         if self.isLeaf() :
@@ -376,7 +376,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         part, kpar = self.recursivePartial( xdata, kpar, plist, part )
 
-        return part
+        return part if parlist is None else part[:,parlist]
 
     def recursivePartial( self, xdata, kpar, plist, part ) :
         """ For internal use only """
-- 
2.43.0


From e51525e9d884f6b6dbe9876305769d671bbe48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:50 +0000
Subject: [PATCH 086/101] fix: copy of a DecisionTreeModel keeps the limits on
 its size

---
 BayesicFitting/source/DecisionTreeModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index c06177e..86b1684 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -194,6 +194,10 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
             self.setLimits( lowLimits=0.0, highLimits=1.0 )
         else :
             setatt( self, "growPrior", copy.growPrior )
+            if copy.minComp is not None :
+                setatt( self, "minComp", copy.minComp )
+            if copy.maxComp is not None :
+                setatt( self, "maxComp", copy.maxComp )
             setatt( self, "ncomp", copy.ncomp )
             setatt( self, "nsplit", copy.nsplit )
             setatt( self, "itypes", copy.itypes )
-- 
2.43.0


From a0d46276b7585006b3975c267b37741fe8da9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 087/101] fix: limits of some of the parameters are those of
 these parameters only

---
 BayesicFitting/source/BaseModel.py      | 2 ++
 BayesicFitting/source/RepeatingModel.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index 00def27..7dfd060 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -436,6 +436,8 @@ class BaseModel( object ):
         """
         if self.npbase == 0 :
             return True
+        if fitindex is not None and all( k >= self.npbase for k in fitindex ) :
+            return True
         if self.priors is None :
             return False
         if fitindex is None :
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 80806b3..137a692 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -477,7 +477,9 @@ class RepeatingModel( Model, Dynamic ):
         return self.model.hasPriors( isBound=isBound )
 
     def baseHasLimits( self, fitindex=None ) :
-        return self.model.hasLimits()
+        if fitindex is not None :
+            fitindex = numpy.array( [self.par2model( k )[0] for k in fitindex if k < self.npbase], dtype=int )
+        return self.model.hasLimits( fitindex=fitindex )
 
     def basePrior( self, kpar ):
         """
-- 
2.43.0


From 36cd176582e12162ead225e7c7742fa11b0ec2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 088/101] fix: ChordEngine does not leave the domain from a
 parameter at its limit

---
 BayesicFitting/source/ChordEngine.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index d52dcb0..5400474 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -177,15 +177,18 @@ class ChordEngine( Engine ):
             ## append travel times wrt usav (==0) to all edges umin and umax
             ## tt contains entrance times as negative values
             ## and exit times as positive values.
-            tt = numpy.append( ( umin - usav ) / vel, ( umax - usav ) / vel )
+            tt0 = ( umin - usav ) / vel
+            tt1 = ( umax - usav ) / vel
+            tt = numpy.append( tt0, tt1 )
             if self.verbose > 4 :
                 print( "uvel  ", fma( vel ) )
                 print( "ttb   ", fma( tt[:10] ) )
                 print( "tte   ", fma( tt[10:] ) )
 
             ## find smallest entrance and exit times
-            t1 = numpy.min( numpy.where( tt > 0, tt, +math.inf ) )
-            t0 = numpy.max( numpy.where( tt < 0, tt, -math.inf ) )
+            ## a parameter exactly on an edge can only move inward.
+            t1 = numpy.min( numpy.maximum( tt0, tt1 ) )
+            t0 = numpy.max( numpy.minimum( tt0, tt1 ) )
 
             ## same now for the values at the edges of the unit box (0,1)
             if self.debug :
@@ -211,7 +214,7 @@ class ChordEngine( Engine ):
                 kk += 1
 
                 # assert t0 < 0 < t1, "%f < %f < %f"%(t0,0,t1)
-                if not ( t0 < 0 < t1 and math.isfinite( t0 ) and math.isfinite( t1 ) ) : 
+                if not ( t0 <= 0 <= t1 and t0 < t1 and math.isfinite( t0 ) and math.isfinite( t1 ) ) : 
                     break
 
                 ## dt is timestep wrt. usav (at 0)
-- 
2.43.0


From fcb381e2671efb62ba99eb462152770bb6d9476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:27 +0000
Subject: [PATCH 089/101] fix: engines on a walker without parameters to move

---
 BayesicFitting/source/ChordEngine.py    | 2 ++
 BayesicFitting/source/GalileanEngine.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index 5400474..1aa2764 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -129,6 +129,8 @@ class ChordEngine( Engine ):
         problem = walker.problem
         fitIndex = walker.fitIndex
         np = len( fitIndex )
+        if np == 0 :                    ## nothing to move
+            return 0
 
         param = walker.allpars
         usav = self.domain2Unit( problem, param[fitIndex], kpar=fitIndex )
diff --git a/BayesicFitting/source/GalileanEngine.py b/BayesicFitting/source/GalileanEngine.py
index 137872d..2ea63f4 100644
--- a/BayesicFitting/source/GalileanEngine.py
+++ b/BayesicFitting/source/GalileanEngine.py
@@ -121,6 +121,8 @@ class GalileanEngine( Engine ):
         Lhood = walker.logL
         allpars = walker.allpars
         fitIndex = walker.fitIndex
+        if len( fitIndex ) == 0 :       ## nothing to move
+            return 0
 
         inside = 0
         Ltry = 0
-- 
2.43.0


From 924be72a879be64c75d736faca5e3a74870a2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 090/101] fix: order engines change the walker they are asked
 to, not the one at its id

---
 BayesicFitting/source/LoopEngine.py    | 2 +-
 BayesicFitting/source/MoveEngine.py    | 2 +-
 BayesicFitting/source/NearEngine.py    | 2 +-
 BayesicFitting/source/ReverseEngine.py | 2 +-
 BayesicFitting/source/ShuffleEngine.py | 2 +-
 BayesicFitting/source/SwitchEngine.py  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 8eea677..be4bff4 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -163,7 +163,7 @@ class LoopEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 
         else :
             self.reportFailed()
diff --git a/BayesicFitting/source/MoveEngine.py b/BayesicFitting/source/MoveEngine.py
index e91661e..8e1504e 100644
--- a/BayesicFitting/source/MoveEngine.py
+++ b/BayesicFitting/source/MoveEngine.py
@@ -112,7 +112,7 @@ class MoveEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 ## check if better than Lbest in walkers[-1]
                 ## self.checkBest( problem, ptry, Ltry )
diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 9de6026..d2f446b 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -155,7 +155,7 @@ class NearEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
             t = 1
 
         else :
diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..e1b8c71 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -100,7 +100,7 @@ class ReverseEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..75dc2c0 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -114,7 +114,7 @@ class ShuffleEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
diff --git a/BayesicFitting/source/SwitchEngine.py b/BayesicFitting/source/SwitchEngine.py
index 8aa85e4..c3d2a2f 100644
--- a/BayesicFitting/source/SwitchEngine.py
+++ b/BayesicFitting/source/SwitchEngine.py
@@ -115,7 +115,7 @@ class SwitchEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 #            param = walker.allpars
 
             return 2
-- 
2.43.0


From a4d5287f7a7b59f34ec7f560efab5a3762821805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 091/101] fix: ShuffleEngine can be executed by the explorer

---
 BayesicFitting/source/ShuffleEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index 75dc2c0..87b9642 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def execute( self, kw, lowLhood, append=False, iteration=0 ):
         """
         Execute the engine by diffusing the parameters.
 
-- 
2.43.0


From 4c8cc24a5de2c9c56d221515c0749665b80a5b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:55 +0000
Subject: [PATCH 092/101] fix: StartOrderEngine uses its own random numbers

---
 BayesicFitting/source/StartOrderEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..fb43246 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,7 +90,7 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-- 
2.43.0


From 68824b77e81748e58690cd5c57319fd0c20dea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 093/101] fix: ReverseEngine reports no moves when it did not
 move

---
 BayesicFitting/source/ReverseEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index e1b8c71..e58092b 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -110,6 +110,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # nr of succesfull steps
 
 
-- 
2.43.0


From 8c46c60b474fe675157e1a7837686b9597780c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 094/101] fix: NearEngine uses the distance between the nodes
 also when it is spherical or tabulated

---
 BayesicFitting/source/NearEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index d2f446b..3210e8d 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -117,13 +117,13 @@ class NearEngine( OrderEngine ):
         n0 = ptry[0]
         nsel = [n0,ptry[1]]
         if self.nearest[n0] < 0 :                                   # not yet calculated
-            dmin = problem.distance( xd[nsel,:], [0,1] )[0]         # need only one distance
+            dmin = problem.distance( xd, nsel )[0]                  # need only one distance
 #            print( 0, fmt( nsel ), fmt( dmin ), fmt( dmin ) )
         
             kmin = 1
             for k in range( 2, np ) :                               # find nearest
                 nsel[1] = ptry[k]
-                d = problem.distance( xd[nsel,:], [0,1] )[0]
+                d = problem.distance( xd, nsel )[0]
 #                print( k, fmt( nsel ), fmt( d ), fmt( dmin ) )
                 if d < dmin :
                     dmin = d
-- 
2.43.0


From 17df59ff9e9213cd6bac0247b726ab83183fd355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 095/101] fix: NearEngine reports no move when the nearest
 neighbour is already there

---
 BayesicFitting/source/NearEngine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 3210e8d..2b85875 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -131,10 +131,10 @@ class NearEngine( OrderEngine ):
             self.nearest[n0] = ptry[kmin]                           # store for later use
 
         else :                                                      # it is stored
-            np = self.nearest[n0]                                   # get the nearest
-            kmin = numpy.where( ptry == np )[0][0]                  # find where NN is in ptry
+            nn = self.nearest[n0]                                   # get the nearest
+            kmin = numpy.where( ptry == nn )[0][0]                  # find where NN is in ptry
 
-        if kmin == 1 :                                              # it is already the NN 
+        if kmin == 1 or kmin == np - 1 :                            # it is already the NN 
             self.reportFailed()
             return 0
 
-- 
2.43.0


From 0bdb97d8409e76654949686979154aae91624344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 096/101] fix: LoopEngine finds the crossings of a vertical
 section

---
 BayesicFitting/source/LoopEngine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index be4bff4..9f71d0f 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -121,6 +121,8 @@ class LoopEngine( OrderEngine ):
         x2, y2 = tuple( problem.xdata[k2,dims] )
         if x1 == x2 :
             dims = [dims[1], dims[0]]           ## reverse dimensional order
+            x1, y1 = y1, x1
+            x2, y2 = y2, x2
             m1 = 0                              ## slope of point k1 to k2
         else :
             m1 = ( y2 - y1 ) / ( x2 - x1 )
-- 
2.43.0


From 9940b5439acfe080ff2d7063a539a7212dd225ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 097/101] fix: tabulated distances can be given as a list

---
 BayesicFitting/source/SalesmanProblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index f52c624..cb2986d 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -118,7 +118,7 @@ class SalesmanProblem( OrderProblem ):
             elif dis == "t" :
                 self.distance = self.tabulated
                 self.disname = self.DISNAMES[4]
-                self.table = table
+                self.table = numpy.asarray( table )
             else :
                 warnings.warn( "Unknown distance ", distance, " Using euclidic in stead" )
                 self.distance = self.euclidic
-- 
2.43.0


From e9069855fb2b810a0c36a87c38c92cde809d7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 098/101] fix: minimum of a distance defined by the user

---
 BayesicFitting/source/SalesmanProblem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BayesicFitting/source/SalesmanProblem.py b/BayesicFitting/source/SalesmanProblem.py
index cb2986d..03f1c56 100644
--- a/BayesicFitting/source/SalesmanProblem.py
+++ b/BayesicFitting/source/SalesmanProblem.py
@@ -298,6 +298,12 @@ class SalesmanProblem( OrderProblem ):
         ndata = len( self.xdata[:,0] )
         pars = numpy.arange( ndata, dtype=int )
         md = self.distance( self.xdata, pars ).min()
+        if self.disname == self.DISNAMES[0] :       # user defined: callable( xdata, pars )
+            for i in range( ndata ) :
+                for j in range( i ) :
+                    md = min( md, self.distance( self.xdata, pars[[i,j]] ).min() )
+            return md
+
         for roll in range( 2, ndata ) :
             md = self.distance( self.xdata, pars, roll=roll ).min( initial=md )
 
-- 
2.43.0


From a7a5595c0b6fd025c1af4f06a8dbdc6dbc35bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 099/101] fix: NestedSolver with a distribution

---
 BayesicFitting/source/NestedSolver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/NestedSolver.py b/BayesicFitting/source/NestedSolver.py
index 4deebb1..2019b7e 100644
--- a/BayesicFitting/source/NestedSolver.py
+++ b/BayesicFitting/source/NestedSolver.py
@@ -224,7 +224,7 @@ class NestedSolver( NestedSampler ):
         return str( "NestedSolver" )
 
     #  *********DISTRIBUTIONS***************************************************
-    def setErrorDistribution( self, name=None, scale=1.0, power=2.0 ):
+    def setErrorDistribution( self, name=None, limits=None, scale=1.0, power=2.0 ):
         """
         Set the error distribution for calculating the likelihood.
 
@@ -232,6 +232,8 @@ class NestedSolver( NestedSampler ):
         ----------
         name : string
             name of distribution
+        limits : None
+            not used: a cost function has no hyperparameters
         scale : float
             fixed scale of distribution
         power : float
-- 
2.43.0


From c34a5cf15082637e69a38f0dd38cbf7c9acd35e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 100/101] fix: check of walkers without a model

---
 BayesicFitting/source/Explorer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index 0bb4997..95c1d03 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -254,8 +254,10 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        nuisance = walker.problem.npars - walker.problem.model.npars
-        walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
+        model = walker.problem.model
+        if model is not None :                  # order problems have no model
+            nuisance = walker.problem.npars - model.npars
+            walker.check( nhyp=self.errdis.nphypar, nuisance=nuisance )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
         if walker.problem.npars < len( walker.allpars ) - self.errdis.nphypar :
@@ -272,6 +274,9 @@ class Explorer( object ):
             raise ValueError( "Inconsistency between stored logL %f and calculated logL %f" %
                                 ( walker.logL, wlogL ) )
 
+        if model is None :
+            return
+
         for ki in walker.fitIndex :
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
-- 
2.43.0


From 59ba29c35afd63ab823207506805394f760a6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:31 +0000
Subject: [PATCH 101/101] fix: LoopEngine finds where two sections cross

---
 BayesicFitting/source/LoopEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 9f71d0f..0ff60f1 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -142,7 +142,7 @@ class LoopEngine( OrderEngine ):
 
             else :
                 m3 = ( y4 - y3 ) / ( x4 - x3 )
-                xc = ( y3 - y1 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
+                xc = ( y1 - y3 + m3 * x3 - m1 * x1 ) / ( m3 - m1 )
                 if Tools.isBetween( x1, xc, x2 ) and Tools.isBetween( x3, xc, x4 ) :
                     break
 
-- 
2.43.0

