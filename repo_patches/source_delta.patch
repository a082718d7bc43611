From 9f24c594dba0d21d8154802eb173e74d43ef764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 01/44] fix: priors and limits of compound models that contain
 brackets, one-sided limits

---
 BayesicFitting/source/Model.py          | 38 ++++++++++++-------------
 BayesicFitting/source/RepeatingModel.py |  4 +--
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index e839d66..0ac1a2b 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1016,10 +1016,14 @@ class Model( FixedModel ):
         hasp = True
         mdl = self
         while mdl is not None and hasp :
-            hasp = hasp and super( Model, self ).hasPriors( isBound=isBound )
+            hasp = mdl.npbase == 0 or mdl.baseHasPriors( isBound=isBound )
             mdl = mdl._next
         return hasp
 
+    def baseHasPriors( self, isBound=True ) :
+        """ Same as hasPriors, for this model only, not for the chain. """
+        return super( Model, self ).hasPriors( isBound=isBound )
+
     def getPrior( self, kpar ):
         """
         Return the prior of the indicated parameter.
@@ -1147,7 +1151,7 @@ class Model( FixedModel ):
             upper limits on the parameters
 
         """
-        ml = 0
+        ml = nl = nh = 0
         if lowLimits is not None :
             lowLimits = Tools.toArray( lowLimits )
             nl = len( lowLimits )
@@ -1209,7 +1213,7 @@ class Model( FixedModel ):
         haslim = True
         mdl = self
         while mdl is not None :
-            haslim = haslim and super( Model, mdl ).hasLimits( fitindex=fitindex )
+            haslim = haslim and mdl.baseHasLimits( fitindex=fitindex )
             if not haslim :
                 return haslim
             if fitindex is not None :
@@ -1218,6 +1222,10 @@ class Model( FixedModel ):
             mdl = mdl._next
         return haslim
 
+    def baseHasLimits( self, fitindex=None ) :
+        """ Same as hasLimits, for this model only, not for the chain. """
+        return super( Model, self ).hasLimits( fitindex=fitindex )
+
 
     #  ****** UNIT <--> DOMAIN ********************************************
     def unit2Domain( self, uvalue, kpar=None ):
@@ -1287,18 +1295,9 @@ class Model( FixedModel ):
         return part
 
     def nextPrior( self ) :
-        mdl = self
-        k = 0
-        while True :
-            try :
-                yield mdl.priors[k]
-            except :
-                yield mdl.priors[-1]
-            k += 1
-            if k >= mdl.npbase :
-                mdl = mdl._next
-                k = 0
-
+        """ Generator yielding the priors of all parameters in the chain. """
+        for k in range( self.npchain ) :
+            yield self.getPrior( k )
 
     #  *****SOME DUMMY METHODS TO ALLOW LINEAR MODELS IN NONLIN FITTERS********
     def isMixed( self ):
@@ -1822,9 +1821,6 @@ class Brackets( Model ):
         return self.model.getPrior( kpar )
     """
 
-    def nextPrior( self ) :
-        yield self.model.nextPrior()
-
     def _toString( self, indent="", npars=0 ) :
         opname = [" null\n", " +\n", " -\n", " *\n", " /\n", " |\n" ]
         np = self.npbase
@@ -1854,7 +1850,7 @@ class Brackets( Model ):
         """
         return self.model.getPrior( k )
 
-    def hasPriors( self, isBound=True ) :
+    def baseHasPriors( self, isBound=True ) :
         """
         Return True when the model has priors for all its parameters.
 
@@ -1865,6 +1861,10 @@ class Brackets( Model ):
         """
         return self.model.hasPriors( isBound=isBound )
 
+    def baseHasLimits( self, fitindex=None ) :
+        """ Return True when limits are set for the model inside the brackets. """
+        return self.model.hasLimits( fitindex=fitindex )
+
 
     #  ******Brackets Parameter NAME*******************************************************************
 
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index d26922f..a586e97 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -469,8 +469,8 @@ class RepeatingModel( Model, Dynamic ):
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
                                self.model.shortname() )
 
-    def hasPriors( self ) :
-        return self.model.hasPriors()
+    def baseHasPriors( self, isBound=True ) :
+        return self.model.hasPriors( isBound=isBound )
 
     def basePrior( self, kpar ):
         """
-- 
2.43.0


From 2fdad81a250dfbb9d8f981453361424ca3672244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 02/44] fix: pipes to models in brackets, chains beyond a pipe,
 multi-output partials/derivatives in compound models

---
 BayesicFitting/source/Model.py | 64 +++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 0ac1a2b..a1a092f 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -420,11 +420,13 @@ class Model( FixedModel ):
             if self.lastndout != model.ndim :
                 raise ValueError( "Trying to pipe incompatible models:  %d | %d"%
                                 (self.lastndout, model.ndim) )
-            model.selectPipe( self.ndim, model.ndim, model.ndout )
 
         if model._next is not None :
             model = Brackets( model )     # provide brackets if model is a chain
 
+        if operation == self.PIP :
+            model.selectPipe( self.ndim, model.ndim, model.ndout )
+
         last = self
         while last._next != None:
             last = last._next
@@ -580,15 +582,19 @@ class Model( FixedModel ):
                  [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.SUB :
-            df = df - nextdf
+            df = ( df - nextdf if isnotlist else 
+                 [ d - n for d,n in zip( df, nextdf )] )
 
-        elif self._operation == self.MUL :
+        elif self._operation == self.MUL or self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            df = df * nextres + nextdf * result
-
-        elif self._operation == self.DIV :
-            nextres = super( Model, self ).result( xdata, par )
-            df = ( df * nextres - nextdf * result ) / ( nextres * nextres )
+            if self._operation == self.MUL :
+                f0, f1 = nextres, result
+            else :
+                f0, f1 = 1 / nextres, - result / ( nextres * nextres )
+            df = self._scale( df, f0 )
+            nextdf = self._scale( nextdf, f1 )
+            df = ( df + nextdf if isnotlist else 
+                 [ d + n for d,n in zip( df, nextdf )] )
 
         elif self._operation == self.PIP :
 #            nextres = 'dummy'           ## not needed, but needs something
@@ -598,7 +604,7 @@ class Model( FixedModel ):
 
         if self._next is None :
             return df
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
         result = self.operate( result, par, nextres )
 
@@ -652,14 +658,14 @@ class Model( FixedModel ):
 
         elif self._operation == self.MUL :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.multiply( partial.transpose(), nextres ).transpose()
-            nextpartial = numpy.multiply( nextpartial.transpose(), result ).transpose()
+            partial = self._scale( partial, nextres )
+            nextpartial = self._scale( nextpartial, result )
 
         elif self._operation == self.DIV :
             nextres = super( Model, self ).result( xdata, par )
-            partial = numpy.divide( partial.transpose(), nextres ).transpose()
+            partial = self._scale( partial, 1 / nextres )
             invres = - result / ( nextres * nextres )
-            nextpartial = numpy.multiply( nextpartial.transpose(), invres ).transpose()
+            nextpartial = self._scale( nextpartial, invres )
 
         elif self._operation == self.PIP :
 
@@ -669,26 +675,42 @@ class Model( FixedModel ):
 
             partial = self.pipePartial( partial, dHdG )
 
-        if not isinstance( partial, list ) :
-            partial = ( nextpartial if partial is None
-                    else numpy.append( partial, nextpartial, axis=1 ) )
+        if partial is None :
+            partial = nextpartial
+        elif isinstance( nextpartial, numpy.ndarray ) and nextpartial.ndim == 2 :
+            partial = numpy.append( partial, nextpartial, axis=1 )
         else :
-            for k in range( len( partial ) ) :
-                partial[k] = numpy.append( partial[k], nextpartial[k], axis=1 )
+            partial = [ numpy.append( p, n, axis=1 ) for p,n in zip( partial, nextpartial ) ]
 
         model = self._next
         if model is None:
             return partial
-        if nextres is None:
+        if nextres is None and self._operation != self.PIP :
             nextres = super( Model, self ).result( xdata, par )
 
-        result = self.operate( result, param[at:], nextres )
+        result = self.operate( result, par, nextres )
         #  append the partials of the _next model
         at += np
         return model._recursivePartial( xdata, param, at, result, partial,
                     useNum=useNum )
 
 
+    def _scale( self, der, fac ) :
+        """
+        Return the partials/derivatives, multiplied by a factor at each data point.
+
+        Parameters
+        ----------
+        der : array or list of array
+            partials or derivatives (a list of them when there are more outputs)
+        fac : array
+            (multidimensional) factors
+        """
+        if isinstance( der, ( list, tuple ) ) :
+            return [ numpy.multiply( d.transpose(), f ).transpose() for d,f in zip( der, fac.transpose() ) ]
+
+        return numpy.multiply( der.transpose(), fac.transpose() ).transpose()
+
     def selectPipe( self,  ndim, ninter, ndout ) :
 
         # Models G pars p and H pars q
@@ -1730,6 +1752,8 @@ class Brackets( Model ):
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
         setatt( self, "parameters", model.parameters )
+        if model.lastndout > 1 :
+            setatt( self, "ndout", model.lastndout )
 
         next = model
         deep = 1
-- 
2.43.0


From c4b211764146730f4bf89cc7012460bcc263814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 03/44] fix: check on zero parameters when a parameter is
 replaced by a model

---
 BayesicFitting/source/BaseModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index a3c5818..d8dbb3d 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -253,11 +253,12 @@ class BaseModel( object ):
 
         """
         for k in self.nonZero :
-            if param[k] == 0 :
+            if numpy.any( param[k] == 0 ) :
                 msg = ( ( self.shortName() + ": " + self.baseParameterName( k ) +
                             " ( =parameter[%d] ) equals zero."%k ) )
                 warnings.warn( msg )
-                param[k] = self.tiny
+                param[k] = self.tiny if numpy.ndim( param[k] ) == 0 else numpy.where(
+                            param[k] == 0, self.tiny, param[k] )
 
     def isDynamic( self ) :
         """
-- 
2.43.0


From 1ce168f998047462f4bd2dfb761d9b7f3123c2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 04/44] fix: partials of SplinesModel, BasicSplinesModel and
 PseudoVoigtModel with a model as fixed parameter

---
 BayesicFitting/source/BasicSplinesModel.py | 10 ++++++----
 BayesicFitting/source/PseudoVoigtModel.py  | 23 +++++++---------------
 BayesicFitting/source/SplinesModel.py      |  2 +-
 3 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index a2c3bcd..776f0f4 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -460,6 +460,9 @@ class BasicSplinesModel( SplinesModel ):
             parameters to the model (ignored in LinearModels)
 
         """
+        if len( self.mlist ) > 0 :              # some parameters are arrays
+            return super( BasicSplinesModel, self ).baseResult( xdata, params )
+
         np = self.npmax
         na = self.order + 1
 
@@ -491,12 +494,11 @@ class BasicSplinesModel( SplinesModel ):
             list of indices active parameters (or None for all)
 
         """
-        np = self.npbase
-        ni = Tools.length( xdata )
-        partial = numpy.zeros( ( ni, np), dtype=float )
-
         if parlist is None :
             parlist = range( self.npmax )
+        np = len( parlist )
+        ni = Tools.length( xdata )
+        partial = numpy.zeros( ( ni, np), dtype=float )
 
         x2k = self.makeKnotIndices( xdata )
         for k,kb in enumerate( parlist ) :
diff --git a/BayesicFitting/source/PseudoVoigtModel.py b/BayesicFitting/source/PseudoVoigtModel.py
index e98b035..4798b54 100644
--- a/BayesicFitting/source/PseudoVoigtModel.py
+++ b/BayesicFitting/source/PseudoVoigtModel.py
@@ -158,23 +158,14 @@ class PseudoVoigtModel( NonLinearModel ):
             list of indices active parameters (or None for all)
 
         """
-        pl = parlist
-        if parlist is not None and 3 in pl :
-            pl = parlist.copy()
-            pl.remove( 3 )
-
         pars = params[:3]
-        partial = ( params[3] * self.lorentz.basePartial( xdata, pars, parlist=pl ) +
-                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars, parlist=pl ) )
-
-        if parlist is None or 3 in parlist :
-            part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
-            (n0,n1) = partial.shape
-            shp = ( n0, n1+1 )
-            pp = numpy.zeros( shp, dtype=float )
-            pp[:,:n1] = partial
-            pp[:,n1] = part3
-            partial = pp
+        part2 = ( params[3] * self.lorentz.basePartial( xdata, pars ).transpose() +
+                 ( 1 - params[3] ) * self.gauss.basePartial( xdata, pars ).transpose() )
+        part3 = self.lorentz.baseResult( xdata, pars ) - self.gauss.baseResult( xdata, pars )
+
+        partial = numpy.append( part2, [part3], axis=0 ).transpose()
+        if parlist is not None :
+            partial = partial[:,parlist]
 
         return partial
 
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 84eda44..494b333 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -220,7 +220,7 @@ class SplinesModel( LinearModel ):
             i += 1
         partial[ki,i] = x[ki]
 
-        if parlist is None or len( parlist ) == np :
+        if parlist is None :
             return partial
 
         return partial[:,parlist]
-- 
2.43.0


From 4e7d48375df25531f2225342756267abd7a933c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 05/44] fix: RepeatingModel of compound or multi-dimensional
 models, names, copies and zero components

---
 BayesicFitting/source/RepeatingModel.py | 32 +++++++++++++------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index a586e97..655e1e5 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -150,10 +150,10 @@ class RepeatingModel( Model, Dynamic ):
         if ncomp < minComp or ( maxComp is not None and ncomp > maxComp ) :
             raise ValueError( "ncomp outside range of [min..max] range" )
 
-        np = ncomp * model.npchain - ( ncomp - 1 ) * Tools.length( same )
+        np = ncomp * model.npchain - max( ncomp - 1, 0 ) * Tools.length( same )
         self.isDyna = dynamic and ( maxComp is None or minComp < maxComp )
 
-        super( RepeatingModel, self ).__init__( np, copy=copy, **kwargs )
+        super( RepeatingModel, self ).__init__( np, ndim=model.ndim, copy=copy, **kwargs )
 
         self.ncomp = ncomp
         self.model = model
@@ -165,7 +165,8 @@ class RepeatingModel( Model, Dynamic ):
         else :
             self.minComp = copy.minComp
             self.maxComp = copy.maxComp
-            growPrior = copy.growPrior.copy()
+            if self.isDyna :
+                growPrior = copy.growPrior.copy()
             same = copy.same
 
         self.setSame( same )
@@ -183,7 +184,8 @@ class RepeatingModel( Model, Dynamic ):
 
     def copy( self ):
         """ Copy method.  """
-        return RepeatingModel( self.ncomp, self.model, isDynamic=self.isDyna, copy=self )
+        return RepeatingModel( self.ncomp, self.model.copy(), same=self.same,
+                    dynamic=self.isDyna, copy=self )
 
     def changeNComp( self, dn ) :
         setatt( self, "ncomp", self.ncomp + dn )
@@ -199,11 +201,11 @@ class RepeatingModel( Model, Dynamic ):
         """
         self.same = same
         if same is None :
-            self.index = numpy.arange( self.model.npbase, dtype=int )
+            self.index = numpy.arange( self.model.npchain, dtype=int )
             return
 
         index = []
-        for k in range( self.model.npbase ) :
+        for k in range( self.model.npchain ) :
             if k not in self.same :
                 index += [k]
         self.index = numpy.asarray( index, dtype=int )
@@ -232,7 +234,7 @@ class RepeatingModel( Model, Dynamic ):
 
         location = self.npbase
 
-        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npbase
+        dnp = self.deltaNpar if self.ncomp > 0 else self.model.npchain
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -272,7 +274,7 @@ class RepeatingModel( Model, Dynamic ):
             return False
 
         location = self.npbase
-        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npbase )
+        dnp = -( self.deltaNpar if self.ncomp > 1 else self.model.npchain )
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -304,7 +306,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp <= 1 :
             return param
 
-        off = self.model.npbase + offset
+        off = self.model.npchain + offset
         src = numpy.arange( self.ncomp ) * self.deltaNpar + off
         per = rng.permutation( self.ncomp )
         for i in self.index :
@@ -349,11 +351,11 @@ class RepeatingModel( Model, Dynamic ):
 
         """
 #        result = numpy.zeros( Tools.length( xdata ), dtype=float )
-        result = 0.0
+        result = 0.0 if self.ncomp > 0 else numpy.zeros( Tools.length( xdata ), dtype=float )
         if self.ncomp == 0 :
             return result
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
 
@@ -389,9 +391,9 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return partial
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
-        full = numpy.arange( self.model.npbase, dtype=int )
+        full = numpy.arange( self.model.npchain, dtype=int )
         k = 1
         while True :
             partial[:,full] += self.model.partial( xdata, pars )
@@ -425,7 +427,7 @@ class RepeatingModel( Model, Dynamic ):
         if self.ncomp == 0 :
             return dfdx
 
-        ke = self.model.npbase
+        ke = self.model.npchain
         pars = params[:ke].copy()
         k = 1
         while True :
@@ -500,7 +502,7 @@ class RepeatingModel( Model, Dynamic ):
         """
         i,k = self.par2model( k )
         return ( self.model.getParameterName( i ) + 
-                    ( "_%d" % k if i not in self.same else "" ) )
+                    ( "_%d" % k if i in self.index else "" ) )
 
     def baseParameterUnit( self, k ):
         """
-- 
2.43.0


From b823379fe6edb5e689ca3c07269402425a2e9daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 06/44] fix: derivatives to x of EtalonDriftModel,
 SplinesModel, SineSplineModel, SineSplineDriftModel; numeric fallback of
 derivatives

---
 BayesicFitting/source/EtalonDriftModel.py     |  4 ++--
 BayesicFitting/source/FixedModel.py           |  4 ++--
 BayesicFitting/source/SineSplineDriftModel.py | 14 +++++++-------
 BayesicFitting/source/SineSplineModel.py      |  7 ++++---
 BayesicFitting/source/SplinesModel.py         |  2 +-
 5 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/BayesicFitting/source/EtalonDriftModel.py b/BayesicFitting/source/EtalonDriftModel.py
index 89c78c1..fed8516 100644
--- a/BayesicFitting/source/EtalonDriftModel.py
+++ b/BayesicFitting/source/EtalonDriftModel.py
@@ -131,9 +131,9 @@ class EtalonDriftModel( NonLinearModel ):
         dd = 1 + p1 * sx * sx
 
         dd *= dd
-        df = - 2 * math.pi * params[0] * p1 * params[2] * sx * numpy.cos( x ) / dd
+        df = - 2 * math.pi * params[0] * p1 * sx * numpy.cos( x ) / dd
 
-        return [df * params[2], df * params[4]].T
+        return numpy.asarray( [df * params[2], df * params[4]] ).T
 
     def basePartial( self, xdata, params, parlist=None ):
         """
diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index e7c37fa..889c72b 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -391,7 +391,7 @@ class FixedModel( BaseModel ):
             values for the parameters. (default: self.parameters)
 
         """
-        if len( self.mlist ) == 0 :
+        if len( self.mlist ) == 0 and hasattr( self, "baseDerivative" ) :
             params = self.expand( xdata, param )
             return self.baseDerivative( xdata, params )
         else :
@@ -446,7 +446,7 @@ class FixedModel( BaseModel ):
                 r1 = FixedModel.result( self, x, param )
                 x[:,i] -= 2 * dx
                 r2 = FixedModel.result( self, x, param )
-                df[:,i] = ( r1 - r2 ) / ( 2 * dx )
+                df[:,i] = ( r1[:,k] - r2[:,k] ) / ( 2 * dx )
             dfdx += [df]
         return dfdx
 
diff --git a/BayesicFitting/source/SineSplineDriftModel.py b/BayesicFitting/source/SineSplineDriftModel.py
index cbf3c44..0c8fa21 100644
--- a/BayesicFitting/source/SineSplineDriftModel.py
+++ b/BayesicFitting/source/SineSplineDriftModel.py
@@ -197,16 +197,16 @@ class SineSplineDriftModel( NonLinearModel ):
 
         """
         nd = self.degree + 1
-        drift = 2 * math.pi * xdata * self.pm.result( xdata, params[:nd] )
+        nh = ( self.npbase - nd ) // 2
+        pm = self.pm.result( xdata, params[:nd] )
+        drift = 2 * math.pi * xdata * pm
         cx = numpy.cos( drift )
         sx = numpy.sin( drift )
-        pdx = self.pm.baseDerivative( xdata, params )
-        cdx = cx * pdx
-        sdx = sx * pdx
+        pdx = 2 * math.pi * ( pm + xdata * self.pm.baseDerivative( xdata, params[:nd] ) )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return 2 * math.pi * ( cadx * cx - amps[0] * sdx + sadx * sx + amps[1] * cdx )
+        cadx = self.cm.baseDerivative( xdata, params[nd:nd+nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nd+nh:] )
+        return cadx * cx + sadx * sx + pdx * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/SineSplineModel.py b/BayesicFitting/source/SineSplineModel.py
index 178c1be..b685745 100644
--- a/BayesicFitting/source/SineSplineModel.py
+++ b/BayesicFitting/source/SineSplineModel.py
@@ -181,9 +181,10 @@ class SineSplineModel( LinearModel ):
         cx = numpy.cos( tx )
         sx = numpy.sin( tx )
         amps = self.getAmplitudes( xdata, params )
-        cadx = self.cm.baseDerivative( xdata, params )
-        sadx = self.sm.baseDerivative( xdata, params )
-        return tpf * ( cadx * cx - amps[0] * sx + sadx * sx + amps[1] * cx )
+        nh = self.npbase // 2
+        cadx = self.cm.baseDerivative( xdata, params[:nh] )
+        sadx = self.sm.baseDerivative( xdata, params[nh:] )
+        return cadx * cx + sadx * sx + tpf * ( amps[1] * cx - amps[0] * sx )
 
     def getAmplitudes( self, xdata, params ) :
         """
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index 494b333..e89be58 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -239,7 +239,7 @@ class SplinesModel( LinearModel ):
 
         """
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
-                           numpy.full( self.npbase - self.order - 1, 3, dtype=float ) )
+                           numpy.full( self.npmax - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
         pars = pars[1:]
         return SplinesModel( knots=self.knots, order=self.order-1 ).result( xdata, pars )
-- 
2.43.0


From 1df4376495aa23ba4ad48ca79c4534d03bbffbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 07/44] fix: UserModel and AstropyModel in compound models and
 with fixed parameters; numeric partials with a model as fixed parameter

---
 BayesicFitting/source/AstropyModel.py | 14 -----------
 BayesicFitting/source/FixedModel.py   | 34 +++++++++++++++++++++++----
 BayesicFitting/source/UserModel.py    | 18 ++++++++------
 3 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/BayesicFitting/source/AstropyModel.py b/BayesicFitting/source/AstropyModel.py
index 30afacf..09625b2 100644
--- a/BayesicFitting/source/AstropyModel.py
+++ b/BayesicFitting/source/AstropyModel.py
@@ -158,20 +158,6 @@ class AstropyModel( Model ):
 
         return partial
 
-    def baseDerivative( self, xdata, params ) :
-        """
-        Return the derivative df/dx at each xdata (=x).
-
-        Parameters
-        ----------
-        xdata : array_like
-            values at which to calculate the result
-        params : array_like
-            values for the parameters.
-
-        """
-        self.numDerivative( xdata, params )
-
     def baseName( self ):
         """
         Returns a string representation of the model.
diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 889c72b..6521428 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -367,11 +367,35 @@ class FixedModel( BaseModel ):
                     "using numeric partials." )
 
         if parlist is None :
-            return FixedModel.numPartial( self, xdata, param, parlist=parlist )
+            parlist = numpy.arange( self.npmax )
+
+        partial = numpy.zeros( ( Tools.length( xdata ), len( parlist ) ), dtype=float )
+        par = param.copy()
+        for i,k in enumerate( parlist ) :
+            dp = self.deltaP[min( i, len( self.deltaP ) - 1 )]
+            par[k] = param[k] + 0.5 * dp
+            r1 = self.baseResult( xdata, par )
+            par[k] = param[k] - 0.5 * dp
+            r2 = self.baseResult( xdata, par )
+            partial[:,i] = ( r1 - r2 ) / dp
+            par[k] = param[k]
+
+        return partial
+
+    def baseDerivative( self, xdata, param ) :
+        """
+        Replacement for models that dont define a derivative.
+
+        Parameters
+        ----------
+        xdata : array_like
+            values at which to calculate the result
+        param : array_like
+            values for the parameters.
 
-        par = param[parlist]
-        pl = numpy.arange( len( par ), dtype=int )
-        return FixedModel.numPartial( self, xdata, par, parlist=pl )
+        """
+        par = param if self.fixed is None else param[self.parlist]
+        return FixedModel.numDerivative( self, xdata, par )
 
     def derivative( self, xdata, param ) :
         """
@@ -391,7 +415,7 @@ class FixedModel( BaseModel ):
             values for the parameters. (default: self.parameters)
 
         """
-        if len( self.mlist ) == 0 and hasattr( self, "baseDerivative" ) :
+        if len( self.mlist ) == 0 :
             params = self.expand( xdata, param )
             return self.baseDerivative( xdata, params )
         else :
diff --git a/BayesicFitting/source/UserModel.py b/BayesicFitting/source/UserModel.py
index 0680a63..43f96be 100644
--- a/BayesicFitting/source/UserModel.py
+++ b/BayesicFitting/source/UserModel.py
@@ -127,19 +127,19 @@ class UserModel( Model ):
             setatt( self, "userDerivative", copy.userDerivative )
             setatt( self, "userName", copy.userName, type=str )
         else :
-            self.setMethod( "userPartial", userPartial, numeric=self.numPartial )
-            self.setMethod( "userDerivative", userDeriv, numeric=self.numDerivative )
+            self.setMethod( "userPartial", userPartial, optional=True )
+            self.setMethod( "userDerivative", userDeriv, optional=True )
             setatt( self, "userName", userName, type=str )
 
     def copy( self ):
         """ Copy method.  """
-        return UserModel( self.npars, self.baseResult, ndim=self.ndim, copy=self )
+        return UserModel( self.npmax, self.userResult, ndim=self.ndim, copy=self )
 
-    def setMethod( self, name, userMethod, numeric=None ) :
+    def setMethod( self, name, userMethod, optional=False ) :
         if callable( userMethod ) :
             setatt( self, name, userMethod )
-        elif callable( numeric ) :
-            setatt( self, name, numeric )
+        elif optional and userMethod is None :
+            setatt( self, name, None )
             warnings.warn( "Using numeric approximations for %s" % name )
         else :
             raise ValueError( "%s %s is not callable" % ( name, str( userMethod ) ) )
@@ -172,10 +172,12 @@ class UserModel( Model ):
             list of indices active parameters (or None for all)
 
         """
+        if self.userPartial is None :
+            return super().basePartial( xdata, params, parlist=parlist )
         if parlist is None :
             return self.userPartial( xdata, params )
         else :
-            return self.userPartial( xdata, params )[parlist]
+            return self.userPartial( xdata, params )[:,parlist]
 
     def baseDerivative( self, xdata, params ) :
         """
@@ -189,6 +191,8 @@ class UserModel( Model ):
             values for the parameters.
 
         """
+        if self.userDerivative is None :
+            return super().baseDerivative( xdata, params )
         return self.userDerivative( xdata, params )
 
     def baseName( self ):
-- 
2.43.0


From 98521718ec9f077ba6da54951173bea1bbc69c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 08/44] fix: priors keep mapping, density and limits consistent
 when limits or scale change, and in copies

---
 BayesicFitting/source/ExponentialPrior.py |  4 +-
 BayesicFitting/source/Prior.py            | 66 ++++++++++++-----------
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/BayesicFitting/source/ExponentialPrior.py b/BayesicFitting/source/ExponentialPrior.py
index af0ed5e..fa837d9 100644
--- a/BayesicFitting/source/ExponentialPrior.py
+++ b/BayesicFitting/source/ExponentialPrior.py
@@ -84,8 +84,10 @@ class ExponentialPrior( LaplacePrior ):
 
     def copy( self ):
         """ Copy the prior """
-        return ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
+        prior = ExponentialPrior( scale=self.scale, hilimit=self.limits[1], 
             prior=self )
+        prior.setLimits( self.limits )
+        return prior
 
     def shortName( self ) :
         return "ExponentialPrior"
diff --git a/BayesicFitting/source/Prior.py b/BayesicFitting/source/Prior.py
index c910226..00cf7bc 100644
--- a/BayesicFitting/source/Prior.py
+++ b/BayesicFitting/source/Prior.py
@@ -173,43 +173,42 @@ class Prior( object ):
         ValueError when low limit is larger than high limit or out of Domain
 
         """
-#        print( "Prior 1 ", limits )
-        if limits is None :
-            self.lowLimit  = self._lowDomain
-            self.highLimit = self._highDomain
-            reset = False
-        else :
-            self.lowLimit  = limits[0] if limits[0] is not None else self._lowDomain
-            self.highLimit = limits[1] if limits[1] is not None else self._highDomain
-            reset = ( limits[0] is not None ) or ( limits[1] is not None )
+        lowlim, highlim = ( None, None ) if limits is None else limits
+        if lowlim is None  : lowlim  = self._lowDomain
+        if highlim is None : highlim = self._highDomain
 
-#        print( "Prior 2 ", self.lowLimit, self.highLimit )
-        if not ( self._lowDomain <= self.lowLimit < self.highLimit <= self._highDomain ) :
-            print( self._lowDomain, self.lowLimit, self.highLimit, self._highDomain )
+        if not ( self._lowDomain <= lowlim < highlim <= self._highDomain ) :
+            print( self._lowDomain, lowlim, highlim, self._highDomain )
             raise ValueError( "Limits out of order or out of domain" )
 
+        self.lowLimit  = lowlim
+        self.highLimit = highlim
+
+        # find the original (not limited) functions.
+        if not hasattr( self, "baseUnit2Domain" ) :
+            setatt( self, "baseUnit2Domain", self.unit2Domain )
+            setatt( self, "baseDomain2Unit", self.domain2Unit )
+
         try :
-            self._umin = 0.0            ## only for re-setting the limits
-            self._urng = 1.0
-            umax = self.domain2Unit( self.highLimit )
-            self._umin = self.domain2Unit( self.lowLimit )
-            self._urng = umax - self._umin
+            self._umin = self.baseDomain2Unit( self.lowLimit )
+            self._urng = self.baseDomain2Unit( self.highLimit ) - self._umin
         except Exception :
+            self._umin = 0.0
             self._urng = math.inf
 
-#        print( "Prior 3 ", self._umin, self._urng )
-
-        if math.isinf( self._urng ) :
-#            warnings.warn( "%s needs limits" % self.__str__() )
+        if math.isinf( self._urng ) :       # not bound: return to the original functions
+            self.circular = False
+            setatt( self, "unit2Domain", self.baseUnit2Domain )
+            setatt( self, "domain2Unit", self.baseDomain2Unit )
             return
 
-        if hasattr( self, "baseUnit2Domain" ) : return			# aleady reset
-
-        # reset the functions
-        if reset :
-            setatt( self, "baseUnit2Domain", self.unit2Domain )
+        self.limint = self._urng
+        # set the functions
+        if self.isCircular() :
+            setatt( self, "unit2Domain", self.circularUnit2Domain )
+            setatt( self, "domain2Unit", self.circularDomain2Unit )
+        else :
             setatt( self, "unit2Domain", self.limitedUnit2Domain )
-            setatt( self, "baseDomain2Unit", self.domain2Unit )
             setatt( self, "domain2Unit", self.limitedDomain2Unit )
 
     def setPriorAttributes( self, limits, circular ) :
@@ -234,7 +233,9 @@ class Prior( object ):
         else :
             period = circular
 
-            if hasattr( self, "center" ) :
+            if limits is not None and all( l is not None and math.isfinite( l ) for l in limits ) :
+                self.setLimits( limits )
+            elif hasattr( self, "center" ) :
                 self.setLimits( limits=[self.center - period / 2, self.center + period / 2] )
             else :
                 self.setLimits( limits=[0,period] )
@@ -316,8 +317,7 @@ class Prior( object ):
 
     def unsetLimits( self ):
         """ Remove all limits.  """
-        self.lowLimit = self._lowDomain
-        self.highLimit = self._highDomain
+        self.setLimits( None )
 
     def setAttributes( self, limits=None, scale=None ) :
         """
@@ -330,10 +330,12 @@ class Prior( object ):
         scale : float or None
             scale factor
         """
-        if limits is not None :
-            self.setLimits( limits=limits )
         if scale is not None :
             self.scale = scale
+            if limits is None :             # the mapping within the limits changes
+                limits = self.limits
+        if limits is not None :
+            self.setLimits( limits=limits )
 
     def isOutOfLimits( self, par ):
         """
-- 
2.43.0


From c6d6e327f0f2169da6cfbaaaf735d62570b09123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 09/44] fix: copies of models have their own priors and
 parameters; copy and partials of CombiModel

---
 BayesicFitting/source/BaseModel.py      |  3 +-
 BayesicFitting/source/CombiModel.py     | 41 ++++++++-----------------
 BayesicFitting/source/Model.py          |  7 +++--
 BayesicFitting/source/RepeatingModel.py |  2 +-
 4 files changed, 20 insertions(+), 33 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index d8dbb3d..ef8ecdf 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -123,7 +123,8 @@ class BaseModel( object ):
         else :
             setatt( self, "npbase", copy.npbase )
             setatt( self, "ndim", copy.ndim )
-            setatt( self, "priors", None if copy.priors is None else copy.priors.copy() )
+            setatt( self, "priors", None if copy.priors is None else
+                                [prior.copy() for prior in copy.priors] )
             setatt( self, "posIndex", copy.posIndex )
             setatt( self, "nonZero", copy.nonZero )
             setatt( self, "deltaP", copy.deltaP )
diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 3ca1902..99d2f1a 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -164,7 +164,14 @@ class CombiModel( BracketModel ):
             else :
                 raise ValueError( "Unknown operation : " + oper )
 
-        super( CombiModel, self ).__init__( mdl, **kwargs )
+        super( CombiModel, self ).__init__( mdl, copy=copy, **kwargs )
+
+        if copy is not None :
+            for name in ["nmp", "nrepeat", "npcmax"] :
+                setatt( self, name, getattr( copy, name ) )
+            for name in ["addindex", "addvalue", "mulindex", "mulvalue", "select", "expandindex"] :
+                setatt( self, name, getattr( copy, name ).copy() )
+            return
 
         setatt( self, "nmp", model.npchain )
         setatt( self, "nrepeat", nrepeat )
@@ -172,14 +179,6 @@ class CombiModel( BracketModel ):
 
         self.combine( addCombi=addCombi, mulCombi=mulCombi )
 
-        if copy is not None :
-            setatt( self, "addindex", copy.addindex.copy() )
-            setatt( self, "addvalue", copy.addvalue.copy() )
-            setatt( self, "mulindex", copy.mulindex.copy() )
-            setatt( self, "mulvalue", copy.mulvalue.copy() )
-            setatt( self, "select", copy.select.copy() )
-            setatt( self, "expandindex", copy.expandindex.copy() )
-
         setatt( self, "_npchain", len( self.select ) )
         setatt( self, "npbase", self._npchain )
         setatt( self, "npmax", self.npbase )
@@ -187,12 +186,7 @@ class CombiModel( BracketModel ):
 
     def copy( self ):
         """ Copy method.  """
-        oper = "add"
-        if self.model._next and self.model._next._operation == 3 :
-            oper = "mul"
-
-        return CombiModel( self.model.isolateModel( 0 ), nrepeat=self.nrepeat,
-                    oper=oper, copy=self )
+        return CombiModel( self.model.copy(), copy=self )
 
     def combine( self, addCombi=None, mulCombi=None ) :
         """
@@ -313,19 +307,10 @@ class CombiModel( BracketModel ):
         """
         exppar = self.expandParameters( params )
         fulldp = super( CombiModel, self ).basePartial( xdata, exppar )
-        partial = fulldp[:,self.select]
-        kk = 0
-        for i,k in enumerate( self.addindex ) :
-            if i % self.nrepeat == 0 :
-                kk = k
-            else :
-                partial[:,kk] += fulldp[:,k]
-        for i,k in enumerate( self.mulindex ) :
-            if i % self.nrepeat == 0 :
-                kk = k
-                partial[:,kk] *= self.mulvalue[i]
-            else :
-                partial[:,kk] += fulldp[:,k] * self.mulvalue[i]
+        fulldp[:,self.mulindex] *= self.mulvalue
+        partial = numpy.zeros( ( fulldp.shape[0], len( self.select ) ), dtype=float )
+        for k,kk in enumerate( self.expandindex ) :
+            partial[:,kk] += fulldp[:,k]
         return partial
 
     def baseDerivative( self, xdata, params ) :
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index a1a092f..7ef8d9f 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -304,10 +304,10 @@ class Model( FixedModel ):
 
                 n2 = np + last.npbase
                 # hard overwrite of the base parameters (over the chain parameters)
-                setatt( mdl, "parameters", self._head.parameters[np:n2] )
+                setatt( mdl, "parameters", self._head.parameters[np:n2].copy() )
 
                 if self.stdevs is not None :
-                    setatt( mdl, "stdevs", self._head.stdevs[np:n2] )
+                    setatt( mdl, "stdevs", self._head.stdevs[np:n2].copy() )
                 else :
                     setatt( mdl, "stdevs", None )
                 setatt( mdl, "_npchain", mdl.npbase )      # only extract one model
@@ -1751,7 +1751,8 @@ class Brackets( Model ):
         super( Brackets, self ).__init__( model.npchain, ndim=model.ndim,
                                 copy=copy, **kwargs )
         setatt( self, "model", model, type=Model )
-        setatt( self, "parameters", model.parameters )
+        if copy is None :
+            setatt( self, "parameters", model.parameters )
         if model.lastndout > 1 :
             setatt( self, "ndout", model.lastndout )
 
diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 655e1e5..6dd68ec 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -469,7 +469,7 @@ class RepeatingModel( Model, Dynamic ):
             self.model.setPrior( kpar, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
-                               self.model.shortname() )
+                               self.model.shortName() )
 
     def baseHasPriors( self, isBound=True ) :
         return self.model.hasPriors( isBound=isBound )
-- 
2.43.0


From 378d9f49fee446b240eda8ed2621be5ec5c45b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 10/44] fix: DecisionTreeModel and SplinesDynamicModel in a
 compound, shrinking, varying and copying

---
 BayesicFitting/source/DecisionTreeModel.py   | 24 ++++++++++++++++----
 BayesicFitting/source/SplinesDynamicModel.py | 20 +++++++++++-----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/BayesicFitting/source/DecisionTreeModel.py b/BayesicFitting/source/DecisionTreeModel.py
index 0016c91..2712961 100644
--- a/BayesicFitting/source/DecisionTreeModel.py
+++ b/BayesicFitting/source/DecisionTreeModel.py
@@ -216,7 +216,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
     def copy( self ):
         """ Copy method.  """
 
-        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable )
+        dtm = DecisionTreeModel( copy=self, modifiable=self.modifiable, dynamic=self.dynamic )
 
         if self.dimension is not None :
             setatt( dtm, "dimension", self.dimension )
@@ -256,7 +256,9 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         if itype == 0 :         ## float
             setatt( self, "split", split )
+            setatt( self, "mask", None )
         else :                  ## boolean (1) or categorial (>1)
+            setatt( self, "split", None )
             setatt( self, "mask", int( split * ( 0x1 << itype ) + 1 ) )
 
     def isLeaf( self ) :
@@ -323,7 +325,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         kpar = 0
         if self.isLeaf() :
-            return params[0]
+            return res + params[0]
 
         res, kpar = self.recursiveResult( xdata, params, kpar, plist, res )
 
@@ -773,7 +775,7 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
 
         ## count leafs (parameters) and branches (components)
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
+        dnp = cleaf - self.npbase
 
         ## duplicate the parameter
         value = self._head.parameters[offset+location]
@@ -830,11 +832,18 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
         setatt( parent, "left", None )
         setatt( parent, "rite", None )
         setatt( parent, "split", None )
+        setatt( parent, "mask", None )
         setatt( parent, "dimension", None )
 
         cleaf, cbran = self.count()
-        dnp = cleaf - self.npars
-        location = min( location - dnp, self.npars )
+        dnp = cleaf - self.npbase
+
+        ## location of the remaining leaf: the removed parameters are located before it
+        location = - dnp
+        for child in self.walk() :
+            if child is parent : break
+            if child.isLeaf() : location += 1
+
         self.alterParameterSize( dnp, offset, location=location )
 
         head = self._head
@@ -887,11 +896,13 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## shift nearby
                     split = ( self.nsplit * parent.split + rng.rand() ) / ( self.nsplit + 1 )
                 setatt( parent, "split", split )
+                setatt( parent, "mask", None )
             elif itype == 1 :                           ## make new mask
                 if parent.mask is None :
                     mask = rng.randint( 2 ) + 1
                 else :                                  ## exchange bits
                     mask = 2 if parent.mask == 1 else 1
+                setatt( parent, "split", None )
                 setatt( parent, "mask", mask )
             else :
                 if parent.mask is None :                ## make new mask
@@ -899,6 +910,9 @@ class DecisionTreeModel( Modifiable, Dynamic, LinearModel ):
                 else :                                  ## change 1 bit
                     kr = rng.randint( itype )
                     mask = parent.mask ^ ( 0x1 << kr )
+                    if not 0 < mask <= ( 0x1 << itype ) :   ## not for this dimension
+                        mask = rng.randint( 0x1 << itype ) + 1
+                setatt( parent, "split", None )
                 setatt( parent, "mask", mask )
 
         else :
diff --git a/BayesicFitting/source/SplinesDynamicModel.py b/BayesicFitting/source/SplinesDynamicModel.py
index 8574247..933026b 100644
--- a/BayesicFitting/source/SplinesDynamicModel.py
+++ b/BayesicFitting/source/SplinesDynamicModel.py
@@ -156,8 +156,8 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         if dynamic is None :
             dynamic = self.dynamic
 
-        return SplinesDynamicModel( knots=self.knots, modifiable=modifiable,
-                                    dynamic=dynamic, copy=self )
+        return SplinesDynamicModel( knots=self.knots, border=self.border,
+                                    modifiable=modifiable, dynamic=dynamic, copy=self )
 
     def __setattr__( self, name, value ) :
         if self.setDynamicAttribute( name, value ) :
@@ -216,6 +216,10 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
 
 #        print( "SDg p0 ", fmt( self._head.parameters, max=None ) )
 
+        ## no room left for another knot
+        if numpy.max( numpy.diff( self.knots ) ) <= 2 * self.minDistance :
+            return False
+
         nrknots = len( self.knots )
         npars = self.npbase
         while True :
@@ -299,10 +303,10 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
         ## new value is the weighted average of the joined parameters
         value = 1.4 * ( mdlpar[kl] * r1 + mdlpar[kl+1] * r2 )
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
-            value = ( self.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
+        if head.getPrior( kl ).isOutOfLimits( value ) :
+            value = ( head.getPrior( kl ).stayInLimits( value ) + mdlpar[kl] + mdlpar[kl+1] ) / 3
 
-        if self.getPrior( kl ).isOutOfLimits( value ) :
+        if head.getPrior( kl ).isOutOfLimits( value ) :
             print( "New shrink value out of limit" )
             print( "Knots ", k, fmt( r1 ), fmt( r2 ), fmt( dis ), fmt( self.knots, max=None ) )
             print( "Pars  ", fmt( mdlpar, max=None ) )
@@ -336,11 +340,15 @@ class SplinesDynamicModel( Modifiable, Dynamic, BasicSplinesModel ):
     def vary( self, rng=None, location=None ) :
 
         nrknots = len( self.knots )
-        if nrknots <= 2 or location == 0 or location == nrknots :
+        if nrknots <= 2 or location == 0 or location == nrknots - 1 :
             return False
 
         kk = location if location is not None else rng.randint( nrknots - 2 ) + 1
 
+        ## no room left to move the knot
+        if self.knots[kk+1] - self.knots[kk-1] <= 2 * self.minDistance :
+            return False
+
         newkn = self.knots[kk]
 
         while True :
-- 
2.43.0


From 78109b4aeb54565b88e393d237ffc2211efb6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 11/44] fix: kernels as function of x^2 and of integers, 2-d
 kernel derivative in the center, order 0 splines with one interval

---
 BayesicFitting/source/BSplinesModel.py  |  4 ++--
 BayesicFitting/source/Kernel2dModel.py  |  4 ++--
 BayesicFitting/source/SplinesModel.py   |  3 +++
 BayesicFitting/source/kernels/Kernel.py |  3 ++-
 BayesicFitting/source/kernels/Tophat.py | 22 +++++++++++-----------
 5 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/BSplinesModel.py b/BayesicFitting/source/BSplinesModel.py
index b297ffa..dae4dfb 100644
--- a/BayesicFitting/source/BSplinesModel.py
+++ b/BayesicFitting/source/BSplinesModel.py
@@ -226,7 +226,7 @@ class BSplinesModel( LinearModel ):
                    "  knots : ", self.knots[0], self.knots[-1] )
             raise ValueError( "Input data need to fall strictly in the domain spanned by knots" )
 
-        partial = Tools.toArray( self._bspline.collmat( xdata ), ndim=2 )
+        partial = numpy.reshape( self._bspline.collmat( xdata ), ( -1, self.npbase ) )
 
         return partial
 
@@ -244,7 +244,7 @@ class BSplinesModel( LinearModel ):
         """
         xd = numpy.where( xdata == self.knots[-1], ( 1.0 - self.eps ) * self.knots[-1], xdata )
 
-        partial = Tools.toArray( self._bspline.collmat( xd, deriv_order=1 ), ndim=2 )
+        partial = numpy.reshape( self._bspline.collmat( xd, deriv_order=1 ), ( -1, self.npbase ) )
 
         return numpy.inner( params, partial )
 
diff --git a/BayesicFitting/source/Kernel2dModel.py b/BayesicFitting/source/Kernel2dModel.py
index 3b05ada..c545f27 100644
--- a/BayesicFitting/source/Kernel2dModel.py
+++ b/BayesicFitting/source/Kernel2dModel.py
@@ -266,8 +266,8 @@ class BaseShape2d( object ):
         x = ( xdata[:,0] - params[1] ) / params[3]
         y = ( xdata[:,1] - params[2] ) / params[kp]
         r = numpy.sqrt( x * x + y * y )
-        drdx = x / r
-        drdy = y / r
+        drdx = numpy.where( r == 0, 1.0, x / r )
+        drdy = numpy.where( r == 0, 1.0, y / r )
         df = [params[0] * self.kernel.partial( r ) * drdx / params[3],
               params[0] * self.kernel.partial( r ) * drdy / params[kp]]
         return df
diff --git a/BayesicFitting/source/SplinesModel.py b/BayesicFitting/source/SplinesModel.py
index e89be58..8158171 100644
--- a/BayesicFitting/source/SplinesModel.py
+++ b/BayesicFitting/source/SplinesModel.py
@@ -238,6 +238,9 @@ class SplinesModel( LinearModel ):
             parameters to the model
 
         """
+        if self.order == 0 :                        ## piecewise constant
+            return numpy.zeros( Tools.length( xdata ), dtype=float )
+
         ff = numpy.append( numpy.arange( self.order + 1, dtype=float ),
                            numpy.full( self.npmax - self.order - 1, self.order, dtype=float ) )
         pars = params * ff
diff --git a/BayesicFitting/source/kernels/Kernel.py b/BayesicFitting/source/kernels/Kernel.py
index b633d70..7227444 100644
--- a/BayesicFitting/source/kernels/Kernel.py
+++ b/BayesicFitting/source/kernels/Kernel.py
@@ -1,3 +1,4 @@
+import numpy
 
 __author__ = "Do Kester"
 __year__ = 2017
@@ -128,7 +129,7 @@ class Kernel( object ):
         Parameters: x the square of the input value
 
         """
-        pass
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         """
diff --git a/BayesicFitting/source/kernels/Tophat.py b/BayesicFitting/source/kernels/Tophat.py
index 0c18024..f291b92 100644
--- a/BayesicFitting/source/kernels/Tophat.py
+++ b/BayesicFitting/source/kernels/Tophat.py
@@ -83,7 +83,7 @@ class Tophat( Kernel ):
         return self.conv.result( x )
 
     def resultsq( self, xsq ):
-        return self.result( xsq )                   #  the same
+        return self.result( numpy.sqrt( xsq ) )
 
     def partial( self, x ):
         return self.conv.partial( x )
@@ -114,7 +114,7 @@ class Conv1( object ) :
 class Conv2( object ) :
 
     def result( self, x ) :
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 1.5 )[0]
         res = numpy.zeros_like( x )
@@ -132,7 +132,7 @@ class Conv2( object ) :
         return res
 
     def partial( self, x ):
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 1.5 )[0]
         res = numpy.zeros_like( x )
@@ -151,7 +151,7 @@ class Conv2( object ) :
 
 class Conv3( object ) :
     def result( self, x ) :
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.0 )[0]
         res = numpy.zeros_like( x )
@@ -170,7 +170,7 @@ class Conv3( object ) :
         return res
 
     def partial( self, x ):
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.0 )[0]
         res = numpy.zeros_like( x )
@@ -190,7 +190,7 @@ class Conv3( object ) :
 
 class Conv4( object ) :
     def result( self, x ) :
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.5 )[0]
         res = numpy.zeros_like( x )
@@ -211,7 +211,7 @@ class Conv4( object ) :
         return res
 
     def partial( self, x ):
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 2.5 )[0]
         res = numpy.zeros_like( x )
@@ -233,7 +233,7 @@ class Conv4( object ) :
 
 class Conv5( object ) :
     def result( self, x ) :
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.0 )[0]
         res = numpy.zeros_like( x )
@@ -255,7 +255,7 @@ class Conv5( object ) :
         return res
 
     def partial( self, x ):
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.0 )[0]
         res = numpy.zeros_like( x )
@@ -278,7 +278,7 @@ class Conv5( object ) :
 
 class Conv6( object ) :
     def result( self, x ) :
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.5 )[0]
         res = numpy.zeros_like( x )
@@ -307,7 +307,7 @@ class Conv6( object ) :
         return res
 
     def partial( self, x ):
-        x = numpy.array( x, ndmin=1 )
+        x = numpy.array( x, dtype=float, ndmin=1 )
         ax = numpy.abs( x )
         q = numpy.where( ax < 3.5 )[0]
         res = numpy.zeros_like( x )
-- 
2.43.0


From 84a82f786f6b18a39b330e0fad5f1de61ef0a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 12/44] fix: copies of error distributions keep the value,
 limits and independence of the hyper parameters; exponential gradient at zero
 residual

---
 BayesicFitting/source/ErrorDistribution.py    |  8 ++--
 .../source/ExponentialErrorDistribution.py    | 39 ++++++++++++++-----
 BayesicFitting/source/HyperParameter.py       | 19 +++++++--
 BayesicFitting/source/NoiseScale.py           |  2 +-
 .../source/ScaledErrorDistribution.py         |  7 +---
 5 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/ErrorDistribution.py b/BayesicFitting/source/ErrorDistribution.py
index 0840573..46e41a7 100644
--- a/BayesicFitting/source/ErrorDistribution.py
+++ b/BayesicFitting/source/ErrorDistribution.py
@@ -98,10 +98,10 @@ class ErrorDistribution( object ):
             self.deltaP = 0.000001
             self.fixed = self.keepFixed( fixed )
             self.constrain = constrain
-        else :                          ### TBC do we need copies here ????
-            self.hyperpar = copy.hyperpar
+        else :
+            self.hyperpar = [h.copy() for h in copy.hyperpar]
             self.deltaP = copy.deltaP
-            self.fixed = self.keepFixed( copy.fixed )
+            self.fixed = copy.fixed
             self.constrain = copy.constrain
 
     def copy( self ):
@@ -269,12 +269,14 @@ class ErrorDistribution( object ):
         # Reset all fixed to False
         for s in self.hyperpar :
             s.fixed = False
+            s.isFixed = s.prior is None
 
         if fixed is None :
             return None
 
         for f in fixed.keys() :
             self.hyperpar[f].fixed = True
+            self.hyperpar[f].isFixed = True
             self.hyperpar[f].hypar = fixed[f]
 
         return fixed
diff --git a/BayesicFitting/source/ExponentialErrorDistribution.py b/BayesicFitting/source/ExponentialErrorDistribution.py
index 557c552..dd7740d 100644
--- a/BayesicFitting/source/ExponentialErrorDistribution.py
+++ b/BayesicFitting/source/ExponentialErrorDistribution.py
@@ -115,8 +115,6 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if copy is None :
             self.hyperpar = [NoiseScale( scale=scale, limits=slim ),
                              HyperParameter( hypar=power, limits=plim )]
-        else :
-            self.hyperpar = copy.hyperpar
 
     def copy( self ):
         """ Return copy of this.  """
@@ -240,6 +238,29 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         return math.pow( chi / problem.sumweight, 1.0 / power )
 
 
+    def getDLdM( self, problem, res, ars, scale, power ) :
+        """
+        Return the partial derivative of the elements of log( likelihood ) to the model result.
+
+        Parameters
+        ----------
+        problem : Problem
+            to be solved
+        res : array_like
+            residuals
+        ars : array_like
+            absolute values of res / scale
+        scale : float or array_like
+            of the distribution
+        power : float
+            of the distribution
+        """
+        dldm = numpy.zeros_like( ars )
+        q = ars > 0
+        dldm[q] = power * numpy.power( ars[q], power - 1 )
+        dldm = numpy.copysign( dldm, res ) / scale
+        return dldm if problem.weights is None else dldm * problem.weights
+
     def partialLogL_alt( self, problem, allpars, fitIndex ) :
         """
         Return the partial derivative of log( likelihood ) to the parameters.
@@ -267,7 +288,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         if problem.weights is not None :
             rsp = rsp * problem.weights
 
-        dLdm = power * rsp / res
+        dLdm = self.getDLdM( problem, res, ars, scale, power )
         dM = problem.partial( allpars[:-2] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
@@ -275,15 +296,15 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         for  k in fitIndex :
             if k >= 0 :
                 dL[i] = numpy.sum( dLdm * dM[:,k] )
-                i += 1
             elif k == -2 :
-                dL[-2] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
+                dL[i] = - problem.sumweight / scale + power * numpy.sum( rsp ) / scale
             else :
                 # special.psi( x ) is the same as special.polygamma( 1, x )
                 dldp = problem.sumweight * ( power + special.psi( 1.0 / power ) )
                 dldp /= ( power * power )
-                dldp -= ( numpy.sum( rsp * numpy.log( ars ) ) )
-                dL[-1] = dldp
+                dldp -= ( numpy.sum( special.xlogy( rsp, ars ) ) )
+                dL[i] = dldp
+            i += 1
 
         return dL
 
@@ -319,7 +340,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
         else :
             wgt = 1.0
 
-        dLdm = power * rsp / res
+        dLdm = self.getDLdM( problem, res, ars, scale, power )
         dM = problem.partial( param )
 ##      TBD import mockdata into partial
 #        dM = problem.partial( param, mockdata=mockdata )
@@ -333,7 +354,7 @@ class ExponentialErrorDistribution( ScaledErrorDistribution ):
             elif k == -2 :
                 yield ( power * rsp - wgt ) / scale
             else :
-                yield dlp - rsp * numpy.log( ars )
+                yield dlp - special.xlogy( rsp, ars )
 
 #        return
 
diff --git a/BayesicFitting/source/HyperParameter.py b/BayesicFitting/source/HyperParameter.py
index 728d61b..558e7cc 100644
--- a/BayesicFitting/source/HyperParameter.py
+++ b/BayesicFitting/source/HyperParameter.py
@@ -87,8 +87,8 @@ class HyperParameter( object ):
             self.prior.setLimits( limits )
             self.isFixed = False
         elif limits is not None :
-            self.prior = JeffreysPrior( limits=limits ) 
-
+            self.prior = JeffreysPrior( limits=limits )
+            self.isFixed = False
 
         if copy is not None :
             self.hypar = copy.hypar
@@ -120,10 +120,23 @@ class HyperParameter( object ):
             the [low,high] limits.
 
         """
-        self.checkPrior()
+        if self.prior is None :
+            self.prior = JeffreysPrior()
         self.prior.setLimits( limits )
         self.isFixed = False
 
+    def setPrior( self, prior ) :
+        """
+        Set the prior. The hyperparameter is not fixed anymore.
+
+        Parameters
+        ----------
+        prior : Prior
+            the prior for the hyperparameter
+        """
+        self.prior = prior
+        self.isFixed = False
+
     def getLimits( self ):
         """ Return the limits on the scale. """
         return self.prior.getLimits( )
diff --git a/BayesicFitting/source/NoiseScale.py b/BayesicFitting/source/NoiseScale.py
index 1a4c4b4..0aa0494 100644
--- a/BayesicFitting/source/NoiseScale.py
+++ b/BayesicFitting/source/NoiseScale.py
@@ -92,7 +92,7 @@ class NoiseScale( HyperParameter ):
         if limits is not None and prior is None :
             prior = JeffreysPrior()
         super( NoiseScale, self ).__init__( hypar=scale, isFixed=isFixed,
-                        prior=prior, limits=limits )
+                        prior=prior, limits=limits, copy=copy )
         self.minimum = False
 
         if copy is not None :
diff --git a/BayesicFitting/source/ScaledErrorDistribution.py b/BayesicFitting/source/ScaledErrorDistribution.py
index cce4db6..61c1812 100644
--- a/BayesicFitting/source/ScaledErrorDistribution.py
+++ b/BayesicFitting/source/ScaledErrorDistribution.py
@@ -76,11 +76,8 @@ class ScaledErrorDistribution( ErrorDistribution ):
 
         if copy is None :
             self.hyperpar = NoiseScale( scale=scale, limits=limits )
-        else :
-            self.hyperpar = copy.hyperpar                   ## TBC copy ???
-
-        if limits is None :
-            self.fixed = self.keepFixed( {0: scale} )
+            if limits is None :
+                self.fixed = self.keepFixed( {0: scale} )
 
     def copy( self ):
         """ Return copy of this.  """
-- 
2.43.0


From 2701e446e8a2cd6f458f2ae29fb8c51c8f841651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 13/44] fix: likelihoods and gradients of Uniform (cyclic, zero
 weight), Gauss2d, Mixed, Bernoulli, Laplace distributions

---
 .../source/BernoulliErrorDistribution.py      |  6 +-
 .../source/CauchyErrorDistribution.py         |  4 +-
 .../source/Gauss2dErrorDistribution.py        | 19 +++---
 .../source/GaussErrorDistribution.py          |  4 +-
 .../source/LaplaceErrorDistribution.py        |  5 +-
 .../source/MixedErrorDistribution.py          | 58 ++++++++-----------
 .../source/UniformErrorDistribution.py        | 14 +++--
 7 files changed, 51 insertions(+), 59 deletions(-)

diff --git a/BayesicFitting/source/BernoulliErrorDistribution.py b/BayesicFitting/source/BernoulliErrorDistribution.py
index 26b9b78..63c3116 100644
--- a/BayesicFitting/source/BernoulliErrorDistribution.py
+++ b/BayesicFitting/source/BernoulliErrorDistribution.py
@@ -176,9 +176,9 @@ class BernoulliErrorDistribution( ErrorDistribution ):
         dLdM = numpy.zeros_like( mock )
 
         if problem.model.lastndout == 1 :
-            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, 1 - mock )
+            dLdM = 1.0 / numpy.where( problem.ydata == 0, mock, mock - 1 )
             dL = numpy.sum( numpy.multiply( dLdM, dM.T ), axis=1 )
-            return dL
+            return dL[fitIndex]
 
         for k in range( problem.model.lastndout ) :
             q = numpy.where( problem.ydata == k )
@@ -186,7 +186,7 @@ class BernoulliErrorDistribution( ErrorDistribution ):
 
         dL = numpy.tensordot( dLdM, numpy.asarray( dM ), axes=([0,1],[1,0]) )
 
-        return dL
+        return dL[fitIndex]
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
         """
diff --git a/BayesicFitting/source/CauchyErrorDistribution.py b/BayesicFitting/source/CauchyErrorDistribution.py
index 71cbc1b..7fadfdf 100644
--- a/BayesicFitting/source/CauchyErrorDistribution.py
+++ b/BayesicFitting/source/CauchyErrorDistribution.py
@@ -217,9 +217,9 @@ class CauchyErrorDistribution( ScaledErrorDistribution ):
         for k in fitIndex :
             if k >= 0 :
                 dL[i] = 2 * numpy.sum( res * dM[:,k] / r2s )
-                i += 1
             else :
-                dL[-1] = problem.ndata / scale - numpy.sum( 2 * scale / r2s )
+                dL[i] = problem.ndata / scale - numpy.sum( 2 * scale / r2s )
+            i += 1
 
         return dL
 
diff --git a/BayesicFitting/source/Gauss2dErrorDistribution.py b/BayesicFitting/source/Gauss2dErrorDistribution.py
index 7b66d74..e751d76 100644
--- a/BayesicFitting/source/Gauss2dErrorDistribution.py
+++ b/BayesicFitting/source/Gauss2dErrorDistribution.py
@@ -2,7 +2,6 @@ import numpy as numpy
 import math
 
 from .GaussErrorDistribution import GaussErrorDistribution
-from .Formatter import formatter as fmt
 
 __author__ = "Do Kester"
 __year__ = 2022
@@ -139,11 +138,11 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         if problem.weights is None :
             if det.size == 1 : 
-                norm = problem.ndata * ( self.LOG2PI + math.log( det ) )
+                norm = problem.ndata * ( 2 * self.LOG2PI + math.log( det ) )
             else :
-                norm = problem.ndata * self.LOG2PI + numpy.sum( numpy.log( det ) )  
+                norm = problem.ndata * 2 * self.LOG2PI + numpy.sum( numpy.log( det ) )  
         else :
-            norm = numpy.sum( problem.weights * ( LOG2PI + numpy.log( det ) ) ) 
+            norm = numpy.sum( problem.weights * ( 2 * self.LOG2PI + numpy.log( det ) ) ) 
 
         return -0.5 * ( norm + chisq )
 
@@ -167,7 +166,7 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
 
         rot2 = problem.weightedResSq( allpars, mockdata=mockdata )
 
-        norm = self.LOG2PI + numpy.log( det )
+        norm = 2 * self.LOG2PI + numpy.log( det )
         if problem.weights is not None :
             norm *= problem.weights
 
@@ -201,19 +200,15 @@ class Gauss2dErrorDistribution( GaussErrorDistribution ):
         dM = problem.partial( allpars[:-1] )
 
         dL = numpy.zeros( len( fitIndex ), dtype=float )
-        print( "G2dED   ", rot2.shape, res.shape, res2.shape, dM.shape, dL.shape ), 
-        print( fmt( dM, max=None ) )
-        print( "LLD    ", fmt( res, max=None ) )
-
         i = 0
         for  k in fitIndex :
             if k < 0 :              # model accuracy
                 wgt = 1 if problem.weights is None else problem.weights
-                dL[-1] = - modelscale / det * numpy.sum( ( problem.varxx + problem.varyy +
-                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) 
+                dL[i] = numpy.sum( - modelscale / det * ( ( problem.varxx + problem.varyy +
+                    2 * modelscale * modelscale ) * ( wgt - rot2 ) + res2 ) )
             else :
                 dL[i] = numpy.sum( res * dM[:,k] )
-                i += 1
+            i += 1
 
         return dL
 
diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index 0d7a6ba..a24ae61 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -203,11 +203,11 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         for  k in fitIndex :
             if k >= 0 :
                 dL[i] = numpy.sum( res * dM[:,k] / s2 )
-                i += 1
             else :
                 sc = scale / s2
                 s4 = sc / s2
-                dL[-1] = numpy.sum( res2 * s4 - wgt * sc )
+                dL[i] = numpy.sum( res2 * s4 - wgt * sc )
+            i += 1
 
 #                dL[-1] = ( numpy.sum( res2 ) / s2 - problem.sumweight ) * scale / s2
 #                dL[-1] = ( numpy.sum( res2 ) / s2 - problem.sumweight ) / scale 
diff --git a/BayesicFitting/source/LaplaceErrorDistribution.py b/BayesicFitting/source/LaplaceErrorDistribution.py
index 91bf692..36feb5c 100644
--- a/BayesicFitting/source/LaplaceErrorDistribution.py
+++ b/BayesicFitting/source/LaplaceErrorDistribution.py
@@ -229,9 +229,10 @@ class LaplaceErrorDistribution( ScaledErrorDistribution ):
         for k in fitIndex :
             if k >= 0 :
                 dL[i] = numpy.sum( wgt * dM[:,k] )
-                i += 1
             else :
-                dL[-1] = self.getSumRes( problem, allpars=allpars, scale=scale ) - problem.sumweight
+                dL[i] = numpy.sum( ( self.getSumRes( problem, allpars=allpars, scale=scale ) -
+                                     problem.sumweight ) / scale )
+            i += 1
         return dL
 
     def nextPartialData( self, problem, allpars, fitIndex, mockdata=None ) :
diff --git a/BayesicFitting/source/MixedErrorDistribution.py b/BayesicFitting/source/MixedErrorDistribution.py
index 89f013a..6c72fef 100644
--- a/BayesicFitting/source/MixedErrorDistribution.py
+++ b/BayesicFitting/source/MixedErrorDistribution.py
@@ -147,7 +147,7 @@ class MixedErrorDistribution( ErrorDistribution ):
         n2 = self.errdis2.nphypar
         p1 = allpars[:-n2-1]
         p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        if n2 > 0 : p2[-n2:] = allpars[-n2-1:-1]
 
         if f <= 0 :
             return self.errdis2.logLdata( problem, p2, mockdata=mockdata )
@@ -184,7 +184,7 @@ class MixedErrorDistribution( ErrorDistribution ):
         n2 = self.errdis2.nphypar
         p1 = allpars[:-n2-1]
         p2 = allpars[:-n1-1].copy()
-        p2[-n2:] = allpars[-n2-1:-1]
+        if n2 > 0 : p2[-n2:] = allpars[-n2-1:-1]
 
 
         # make fitIndex (f1,f2) for errdis1&2
@@ -192,49 +192,41 @@ class MixedErrorDistribution( ErrorDistribution ):
         q = numpy.where( fitIndex >= 0 )
         f1 = fitIndex[q]
         f2 = f1.copy()
-        if -3 in fitIndex :
-            f1 = numpy.append( f1, [-1] )
-        if -2 in fitIndex :
-            f2 = numpy.append( f2, [-1] )
-
-        # make fitindices (f1,f2) for errdis1&2
-        lhd1 = numpy.exp( self.errdis1.logLdata( problem, p1, mockdata=mockdata ) )
-        lhd2 = numpy.exp( self.errdis2.logLdata( problem, p2, mockdata=mockdata ) )
+        for fi in fitIndex :
+            if -n2 - 1 <= fi < -1 :                 # hyperpar of errdis2
+                f2 = numpy.append( f2, [fi + 1] )
+            elif fi < -1 :                          # hyperpar of errdis1
+                f1 = numpy.append( f1, [fi + n2 + 1] )
+
+        lld1 = self.errdis1.logLdata( problem, p1, mockdata=mockdata )
+        lld2 = self.errdis2.logLdata( problem, p2, mockdata=mockdata )
         pg1 = self.errdis1.nextPartialData( problem, p1, f1, mockdata=mockdata )
         pg2 = self.errdis2.nextPartialData( problem, p2, f2, mockdata=mockdata )
 
-        ff1 = f * lhd1 + emf * lhd2
-
-        # Where the mixed likelihood (=ff1) is indistinguishable from 0,
-        # its partials also must be zero. In those locations we can replace
-        # the inverse of ff1, needed in calculating the partials, by 0.
-        fff = numpy.zeros_like( ff1 )
-        q = numpy.where( ff1 > sys.float_info.min )
-        fff[q] = 1.0 / ff1[q]
-
-#        fff = numpy.where( ff1 < sys.float_info.min, 0.0, 1.0 / ff1 )
+        ## Ratios of the likelihoods to the mixed likelihood. Calculated from the logs
+        ## as the likelihoods themselves might underflow.
+        ## Where the mixed likelihood is 0, set the ratios to 0.
+        with numpy.errstate( divide='ignore' ) :
+            lmix = numpy.logaddexp( lld1 + numpy.log( f ), lld2 + numpy.log( emf ) )
+        lmix = numpy.where( numpy.isfinite( lmix ), lmix, math.inf )
+        rat1 = numpy.exp( lld1 - lmix )
+        rat2 = numpy.exp( lld2 - lmix )
 
         for fi in fitIndex :
             if fi >= 0 :            ## partialLogL for model parameters
                 npg1 = next( pg1 )
                 npg2 = next( pg2 )
 
-                yield ( fff * ( f * lhd1 * npg1 +
-                              emf * lhd2 * npg2 ) )
-
-            if fi == -1 :           ## partialLogL for fraction f
-                yield ( ( lhd1 - lhd2 ) * fff )
+                yield ( f * rat1 * npg1 + emf * rat2 * npg2 )
 
-            elif fi == -2 :         ## partialLogL for sigma of errdis2
-                npg2 = next( pg2 )
-
-                yield ( emf * lhd2 * fff * npg2 )
-
-            elif fi == -3 :         ## partialLogL for sigma of errdis1
-                npg1 = next( pg1 )
+            elif fi == -1 :         ## partialLogL for fraction f
+                yield ( rat1 - rat2 )
 
-                yield ( f * lhd1 * fff * npg1 )
+            elif fi >= -n2 - 1 :    ## partialLogL for hyperpars of errdis2
+                yield ( emf * rat2 * next( pg2 ) )
 
+            else :                  ## partialLogL for hyperpars of errdis1
+                yield ( f * rat1 * next( pg1 ) )
 
     def __str__( self ) :
         n1 = re.match( "^[a-zA-Z_]*", self.errdis1.__str__() ).group(0)
diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 6b42734..53e9785 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -146,7 +146,11 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         ares = numpy.abs( problem.residuals( allpars[:-1] ) )
 
-        if all( ares < scale ) :
+        inside = ares < scale
+        if problem.hasWeights() :
+            inside = numpy.logical_or( inside, problem.weights == 0 )
+
+        if all( inside ) :
             if isinstance( scale, float ) :
                 return - numpy.log( 2 * scale ) * problem.sumweight
             elif problem.hasWeights() :
@@ -172,15 +176,15 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
             as calculated by the model
 
         """
-        if mockdata is None :
-            mockdata = problem.result( allpars[:-1] )
         scale = allpars[-1] if not problem.hasAccuracy else problem.accuracy
 
-        ares = numpy.abs( problem.ydata - mockdata )
+        ares = numpy.abs( problem.residuals( allpars[:problem.npars], mockdata=mockdata ) )
 
         lld = numpy.where( ares < scale, -numpy.log( 2 * scale ), -math.inf )
         if problem.weights is not None :
-            lld *= problem.weights
+            wgt = problem.weights
+            ## zero weights mean no contribution, also when out of range
+            lld = numpy.where( wgt == 0, 0.0, lld ) * wgt
         return lld
 
 
-- 
2.43.0


From 7d61e16079e12c45156ca825b0e2f0fd338b1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 14/44] fix: MultipleOutputProblem counts all data,
 ErrorsInXandYProblem leaves input accuracies alone

---
 BayesicFitting/source/ErrorsInXandYProblem.py  |  7 ++++---
 BayesicFitting/source/MultipleOutputProblem.py | 10 +++++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/BayesicFitting/source/ErrorsInXandYProblem.py b/BayesicFitting/source/ErrorsInXandYProblem.py
index a9b0761..782e512 100644
--- a/BayesicFitting/source/ErrorsInXandYProblem.py
+++ b/BayesicFitting/source/ErrorsInXandYProblem.py
@@ -225,9 +225,10 @@ class ErrorsInXandYProblem( Problem ):
                     if accuracy.shape[-1] == 3 :
                         varxy = accuracy[:,2]
 
-                varxy *= varyy * varxx
-                varyy *= varyy
-                varxx *= varxx
+                ## not in place : these might be views on (the same) input
+                varxy = varxy * varyy * varxx
+                varyy = varyy * varyy
+                varxx = varxx * varxx
             else :
                 raise AttributeError( "Covar and Accuracy are mutually exclusive" )
 
diff --git a/BayesicFitting/source/MultipleOutputProblem.py b/BayesicFitting/source/MultipleOutputProblem.py
index eda8994..d6dcd05 100644
--- a/BayesicFitting/source/MultipleOutputProblem.py
+++ b/BayesicFitting/source/MultipleOutputProblem.py
@@ -92,7 +92,8 @@ class MultipleOutputProblem( Problem ):
         Expand and flatten the arrays.
 
         """
-        if weights is not None :
+        if weights is not None and numpy.ndim( weights ) > 0 :
+            weights = numpy.asarray( weights )
             if len( weights.shape ) == 1 :
                 wgts = numpy.zeros( ( len( weights ), ndout ), dtype=float )
                 for k in range( ndout ) :
@@ -101,6 +102,13 @@ class MultipleOutputProblem( Problem ):
             weights = weights.flatten()
         return weights
 
+    def __getattr__( self, name ) :
+        """ ndata counts all values in ydata.  """
+        if name == 'ndata' :
+            self.ndata = self.ydata.size
+            return self.ndata
+        return super().__getattr__( name )
+
     #  *****RESULT**************************************************************
     def result( self, param ):
         """
-- 
2.43.0


From 41090fc34403662c81f9df8d55e673de0ea60baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 15/44] fix: ModelDistribution and EvidenceProblem use weights
 and accuracies; log likelihood of weighted fits with accuracies

---
 BayesicFitting/source/BaseFitter.py        |  5 ++++-
 BayesicFitting/source/EvidenceProblem.py   |  7 +++++--
 BayesicFitting/source/ModelDistribution.py | 10 ++++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 4082a88..1ef1205 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -864,7 +864,10 @@ class BaseFitter( object ):
 
         if self.accuracy is not None :
             if Tools.length( self.accuracy ) > 1 :
-                slacc = numpy.sum( numpy.log( self.accuracy ) )
+                slacc = numpy.log( self.accuracy )
+                if self.weights is not None :
+                    slacc = slacc * self.weights
+                slacc = numpy.sum( slacc )
             else :
                 slacc = self.sumwgt * numpy.log( self.accuracy )
         else :
diff --git a/BayesicFitting/source/EvidenceProblem.py b/BayesicFitting/source/EvidenceProblem.py
index 927d38e..b6bfbd7 100644
--- a/BayesicFitting/source/EvidenceProblem.py
+++ b/BayesicFitting/source/EvidenceProblem.py
@@ -53,7 +53,7 @@ class EvidenceProblem( ClassicProblem ):
     """
 
     #  *************************************************************************
-    def __init__( self, model=None, xdata=None, ydata=None, weights=None, copy=None ):
+    def __init__( self, model=None, xdata=None, ydata=None, weights=None, accuracy=None, copy=None ):
         """
         Constructor for classic problems.
 
@@ -67,6 +67,9 @@ class EvidenceProblem( ClassicProblem ):
             dependent variable
         weights : array_like or None
             weights associated with ydata
+        accuracy : float or ndarray of shape (ndata,)
+            accuracy scale for the datapoints
+            all the same or one for each data point
         copy : Problem
             to be copied
 
@@ -75,7 +78,7 @@ class EvidenceProblem( ClassicProblem ):
             raise ValueError( "Model needs to be dynamic or modifiable" )
 
         super( ).__init__( model=model, xdata=xdata, ydata=ydata, weights=weights,
-                           copy=copy )
+                           accuracy=accuracy, copy=copy )
 
 
     def copy( self ):
diff --git a/BayesicFitting/source/ModelDistribution.py b/BayesicFitting/source/ModelDistribution.py
index 6ef8682..030320d 100644
--- a/BayesicFitting/source/ModelDistribution.py
+++ b/BayesicFitting/source/ModelDistribution.py
@@ -99,7 +99,7 @@ class ModelDistribution( ScaledErrorDistribution ):
 
     def copy( self ):
         """ Return copy of this.  """
-        return ModelDistribution( copy=self, arbiter=self.arbiter )
+        return ModelDistribution( copy=self, arbiter=self.arbiter, **self.kwarbs )
 
     def acceptWeight( self ):
         """
@@ -201,8 +201,14 @@ class ModelDistribution( ScaledErrorDistribution ):
 
 #        print( "MD Fitr    ", ftr ) 
 
+        fitargs = {}
+        if problem.hasWeights() :
+            fitargs['weights'] = problem.weights
+        if problem.hasAccuracy :
+            fitargs['accuracy'] = problem.accuracy
+
         try :
-            pars = ftr.fit( problem.ydata )
+            pars = ftr.fit( problem.ydata, **fitargs )
             evidence = ftr.getLogZ( limits=mdl.getLimits(), noiseLimits=noiselim )
 
             allpars[:mdl.npars] = pars
-- 
2.43.0


From b3cc4017d126f023219c7d32a96ffcf67b548c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 16/44] fix: linear fitters: kept parameters, weights,
 normalisation, limits, stale decompositions and hessians, evidence of the
 noise scale

---
 BayesicFitting/source/BaseFitter.py | 111 ++++++++++++----------------
 BayesicFitting/source/Fitter.py     |   7 +-
 BayesicFitting/source/QRFitter.py   |  20 ++---
 3 files changed, 62 insertions(+), 76 deletions(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 1ef1205..60f568e 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -190,7 +190,7 @@ class BaseFitter( object ):
 
             ndim = 1 if self.xdata.ndim <= 1 else self.xdata.shape[1]
 
-        ninp = Tools.length( xdata )
+        ninp = Tools.length( self.xdata if map else xdata )
         self.nxdata = ninp
         self.ndim = ndim
         self.model = model
@@ -255,7 +255,10 @@ class BaseFitter( object ):
             ydata = numpy.asarray( ydata )
             if weights is not None :
                 weights = numpy.asarray( weights )
+            if Tools.length( accuracy ) > 1 :
+                accuracy = numpy.asarray( accuracy )
 
+        self.__dict__.pop( "hessian", None )                # of a previous fit
         self.weights = weights
         self.accuracy = accuracy
 
@@ -267,15 +270,14 @@ class BaseFitter( object ):
         if accuracy is not None :
             self.fitWgts /= ( accuracy * accuracy )
            
-        if keep is not None :
-            return ( self.keepFixed( keep ), ydata, self.fitWgts )
+        if keep is None :
+            keep = self.keep
+        self.fitIndex = self.keepFixed( keep )              # valid for this fit
 
         if self.fitIndex is None :
-            self.npfit = self.model.npchain
             return ( numpy.arange( self.model.npchain, dtype=int ), 
                      ydata, self.fitWgts )
 
-        self.npfit = len( self.fitIndex )
         return ( self.fitIndex, ydata, self.fitWgts )
 
     def fitpostscript( self, ydata, plot=False ) :
@@ -311,10 +313,11 @@ class BaseFitter( object ):
             return None
         else :
 #            print( "Keep  ", keep )
-            self.npfit = len( keep )
-            fitIndex = numpy.arange( self.model.npchain )      # start from scratch
-            fitIndex = numpy.setxor1d( fitIndex, list( keep.keys() ) )
-            self.model.parameters[list(keep.keys())] = list( keep.values() )
+            fitIndex = [k for k in range( self.model.npchain ) if k not in keep]
+            fitIndex = numpy.array( fitIndex, dtype=int )      # start from scratch
+            self.npfit = len( fitIndex )
+            for k in keep.keys() :
+                self.model.parameters[k] = keep[k]
             return fitIndex
 
     def insertParameters( self, fitpar, index=None, into=None ) :
@@ -359,7 +362,7 @@ class BaseFitter( object ):
             They are only used in this call of fit.
 
         """
-        self.model.parameters = self.fit( ydata, weights=weights, keep=keep )
+        self.fit( ydata, weights=weights, keep=keep )       # sets model.parameters
         return self.yfit
 
 
@@ -393,50 +396,31 @@ class BaseFitter( object ):
         """
         pars = self.fit( ydata, weights=weights, keep=keep )          # perform the fit
 
-        if self.model.priors is None :                  # no priors -> no limits
-            return pars
-
-        sfix = self.keep                                # save original fixed setting
-
-        npchain = self.model.npchain
-        params = self.model.parameters
-        index = self.fitIndex
-#        print( "index  ", fmt( index ) )
-        if index is None :
-            index = [*range( npchain )]                 # unpack range object into list
-            fix = {}
-        else :
-            fix = sfix.copy()
-
-        if keep is not None :
-            for k in keep.keys() : 
-                fix[k] = keep[k]
-
-#        print( "index  ", fmt( index ) )
-#        print( "fix    ", fmt( fix ) )
-
-        ool = 0
-        for k in index :                                    # check limits for params
-            if params[k] < self.model.getPrior( k ).lowLimit :
-                params[k] = self.model.getPrior( k ).lowLimit
-                fix[k] = params[k]
-                ool += 1
-            elif params[k] > self.model.getPrior( k ).highLimit :
-                params[k] = self.model.getPrior( k ).highLimit
-                fix[k] = params[k]
-                ool += 1
-
-        if ool > 0 :                                        # some transgressions
-            print( "ool    ", fmt( ool ), fmt( fix ) )
-            self.keepFixed( fix )                           # fix them
-            pars = self.fit( ydata, weights=weights, keep=fix )      # run fit again
-#            print( "pars   ", fmt( pars, max=None ) )
-#            print( fmt( sfix ) )
-            self.keepFixed( sfix )                          # reset original fitIndex
-            if sfix is not None :                           # select parameters
-                pars = [self.model.parameters[k] for k in self.fitIndex]
-                fix = list( set( fix ) - set( sfix ) )
-#            warnings.warn( "Parameters ", fix, " exceeded limits." )
+        if keep is None :
+            keep = self.keep
+        fix = {} if keep is None else dict( keep )
+
+        while True :
+            params = self.model.parameters
+            ool = 0
+            for k in range( self.model.npchain ) :          # check limits for params
+                if k in fix : continue
+                try :
+                    prior = self.model.getPrior( k )
+                except IndexError :                         # no prior -> no limits
+                    continue
+                if prior is None : continue
+                if prior.lowLimit is not None and params[k] < prior.lowLimit :
+                    fix[k] = prior.lowLimit
+                    ool += 1
+                elif prior.highLimit is not None and params[k] > prior.highLimit :
+                    fix[k] = prior.highLimit
+                    ool += 1
+
+            if ool == 0 : break
+
+            # some transgressions: fix them and run the fit again
+            pars = self.fit( ydata, weights=weights, keep=fix )
 
         return pars                                         # return parameters
 
@@ -516,7 +500,7 @@ class BaseFitter( object ):
         elif name == 'design' :
             return self.getDesign()
         elif name == 'hessian' :
-            return self.getHessian()
+            return self.getHessian( index=self.fitIndex )
         elif name == 'covariance' :
             return self.getCovarianceMatrix()
         elif name == 'stdevs' or name == 'standardDeviations' :
@@ -765,7 +749,7 @@ class BaseFitter( object ):
         cov = self.covariance
 
         stdevs = numpy.sqrt( cov.diagonal() )
-        if self.keep is None :
+        if self.fitIndex is None :
             self.model.stdevs = stdevs
         else :
             intostd = numpy.zeros( self.model.npchain, dtype=float )
@@ -912,7 +896,7 @@ class BaseFitter( object ):
             scalerange = math.log( noiseLimits[1] ) - math.log( noiseLimits[0] )
             autoScale = True
             s2 = self.makeVariance( )
-            self.logOccam = 0.5 * math.log( math.pi * dof ) - scalerange
+            self.logOccam = 0.5 * math.log( math.pi / dof ) - math.log( scalerange )
         else :
             autoScale = False
             scale = 1.0 if self.fixedScale is None else self.fixedScale
@@ -920,8 +904,7 @@ class BaseFitter( object ):
             s2 = scale * scale
             self.logOccam = 0.0
 
-        # add integral over the scale prior, if scale is to be fitted.
-        spr = math.log( scalerange ) if autoScale else 0.0
+        spr = 0.0
 
         # obtain the loglikelihood.
         self.logLikelihood = self.getLogLikelihood( autoscale=autoScale, var=s2 )
@@ -931,11 +914,11 @@ class BaseFitter( object ):
         if self.npfit == 0 :
             return self.logLikelihood + self.logOccam
 
-        priors = self.model.priors
         if limits is not None :
             prirange = Tools.toArray( limits[1] ) - Tools.toArray( limits[0] )
         elif self.model.hasLimits() :
-            prirange = [p.getIntegral() for p in priors]        # convert to list
+            prirange = [self.model.getPrior( k ).getIntegral()
+                            for k in range( self.model.npchain )]
         elif self.model.npchain > 0 :
             raise ValueError( "No limits provided on the parameters. Cannot calculate evidence." )
 
@@ -943,8 +926,8 @@ class BaseFitter( object ):
         prirange = numpy.log( numpy.asarray( prirange ) )
 
         if priorlength == 1 :
-            spr += prirange[0]
-        elif limits is None and self.fitIndex is not None :
+            spr += prirange.item()
+        elif priorlength == self.model.npchain and self.fitIndex is not None :
             fi = self.fitIndex
             q = numpy.where( fi < priorlength )
             fq = fi[q]
@@ -956,7 +939,7 @@ class BaseFitter( object ):
         if priorlength < self.npfit :                          # add enough times the last one
             spr += ( self.npfit - priorlength ) * prirange[-1]
 
-        lidet = math.log( numpy.linalg.det( self.hessian ) )
+        lidet = math.log( numpy.linalg.det( self.getHessian( index=self.fitIndex ) ) )
 
         # implementing eq 18 (Kester 2002) term by term
         self.logOccam += -spr + 0.5 * ( self.npfit *
diff --git a/BayesicFitting/source/Fitter.py b/BayesicFitting/source/Fitter.py
index 0b1e9c8..9907e84 100644
--- a/BayesicFitting/source/Fitter.py
+++ b/BayesicFitting/source/Fitter.py
@@ -130,7 +130,7 @@ class Fitter( BaseFitter ):
                     accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitWgts )
+            self.chiSquared( ydata, weights=fitWgts )
             return numpy.asarray( 0 )
 
         hessian = self.getHessian( weights=fitWgts, index=fitIndex )
@@ -142,9 +142,10 @@ class Fitter( BaseFitter ):
             ydatacopy = numpy.subtract( ydatacopy, self.model.result( self.xdata, fxpar) )
 
         if fitWgts is not None :
-            ydatacopy *= fitWgts
+            ydatacopy = ydatacopy * fitWgts
         if hasattr( self, "normdfdp" ) :
-            ydatacopy = numpy.append( ydatacopy, self.normdata * self.normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata * self.normweight )
 
         vector = self.getVector( ydatacopy, index=fitIndex )
 #        print( fmt( hessian ) )
diff --git a/BayesicFitting/source/QRFitter.py b/BayesicFitting/source/QRFitter.py
index b0be4f6..3ce39f8 100644
--- a/BayesicFitting/source/QRFitter.py
+++ b/BayesicFitting/source/QRFitter.py
@@ -114,6 +114,7 @@ class QRFitter( BaseFitter ):
 
         self.needsNewDecomposition = True
         self.qrmat = None
+        self.decomposed = None
 
     def fit( self, ydata, weights=None, accuracy=None, keep=None ):
         """
@@ -140,7 +141,7 @@ class QRFitter( BaseFitter ):
                         accuracy=accuracy, keep=keep )
 
         if self.model.isNullModel() :
-            self.chiSquared( ydata, fitwgts )
+            self.chiSquared( ydata, weights=fitwgts )
             return numpy.asarray( 0 )
 
         ydatacopy = ydata.copy( )
@@ -150,19 +151,19 @@ class QRFitter( BaseFitter ):
             fxpar[fi] = 0.0
             ydatacopy = numpy.subtract( ydatacopy, self.model.result( self.xdata, fxpar) )
 
-#        wgts = ( numpy.ones_like( ydata, dtype=float ) if fitwgts is None else
-#                 numpy.sqrt( fitwgts ) )
-
-        wgts = numpy.full_like( ydata, fitwgts, dtype=float )
+        wgts = numpy.full_like( ydata, numpy.sqrt( fitwgts ), dtype=float )
 
         if hasattr( self, "normdata" ) :
-            normweight = math.sqrt( self.normweight )
-            ydatacopy = numpy.append( ydatacopy, self.normdata )
-            wgts = numpy.append( wgts, normweight )
+            normdata = self.normdata - numpy.inner( self.normdfdp, fxpar )
+            ydatacopy = numpy.append( ydatacopy, normdata )
+            wgts = numpy.append( wgts, numpy.sqrt( self.normweight ) )
 
         ydatacopy = ydatacopy * wgts
 
-        if self.needsNewDecomposition or weights is not None:
+        # the decomposition can be reused when neither weights nor parameter set changed
+        current = ( wgts, numpy.arange( self.model.npchain ) if fi is None else fi )
+        if ( self.needsNewDecomposition or self.decomposed is None or
+             not all( map( numpy.array_equal, current, self.decomposed ) ) ) :
             design = ( self.getDesign( index=fi ).transpose() * wgts ).transpose()
 
             # The QR decomposition in numpy has a different interface from that in scipy.
@@ -172,6 +173,7 @@ class QRFitter( BaseFitter ):
             q, r = numpy.linalg.qr( design )
             self.qrmat = numpy.dot( numpy.linalg.inv( r ), q.transpose() )
             self.needsNewDecomposition = False
+            self.decomposed = current
 
         params = numpy.dot( self.qrmat, ydatacopy )
 
-- 
2.43.0


From d62e90f52f516829b97b97641ffb7b85664da7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 17/44] fix: AnnealingAmoeba: vertices, optimum and limits stay
 consistent; kept parameters have no limits; NaN regions

---
 BayesicFitting/source/AmoebaFitter.py    |  8 ++-
 BayesicFitting/source/AnnealingAmoeba.py | 64 ++++++++++++++++--------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/BayesicFitting/source/AmoebaFitter.py b/BayesicFitting/source/AmoebaFitter.py
index 7cada9a..0f716b3 100644
--- a/BayesicFitting/source/AmoebaFitter.py
+++ b/BayesicFitting/source/AmoebaFitter.py
@@ -168,8 +168,14 @@ class AmoebaFitter( MaxLikelihoodFitter ):
 
         if par0 is None :
             par0 = self.model.parameters
-        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
+        npchain = self.model.npchain
+        par0 = numpy.asarray( par0, dtype=float )
+        if len( fitIndex ) < len( par0 ) :
             par0 = par0[fitIndex]
+        if limits is not None :             # limits of the parameters that need fitting
+            limits = [numpy.asarray( lim, dtype=float ) for lim in limits]
+            limits = [lim[fitIndex] if lim.ndim > 0 and len( lim ) == npchain else lim
+                        for lim in limits]
 
         kwargs = {}
         if size is not None :
diff --git a/BayesicFitting/source/AnnealingAmoeba.py b/BayesicFitting/source/AnnealingAmoeba.py
index 29d9ee9..2d04fde 100644
--- a/BayesicFitting/source/AnnealingAmoeba.py
+++ b/BayesicFitting/source/AnnealingAmoeba.py
@@ -235,6 +235,8 @@ class AnnealingAmoeba( object ):
 
         """
         nfit = len( xini )
+        xini = numpy.array( xini, dtype=float )         # keep the input as is
+        step = numpy.array( step, dtype=float )
 
         i = 0
         for ir in xini :
@@ -278,7 +280,7 @@ class AnnealingAmoeba( object ):
         """
         Return True if it has low limits > -inf.
         """
-        return self.lolimits is not None and self.hilimits[k] > -math.inf
+        return self.lolimits is not None and self.lolimits[k] > -math.inf
 
     def hasHighLimits( self, k ) :
         """
@@ -326,7 +328,7 @@ class AnnealingAmoeba( object ):
         for i in range( dim[1] ) :
             same = True
             pre = simplex[0,i]
-            same = all( sim == pre for sim in simplex[i,:] )
+            same = all( sim == pre for sim in simplex[:,i] )
 
             if same:
                 print( simplex[i,:] )
@@ -343,6 +345,8 @@ class AnnealingAmoeba( object ):
             if not numpy.isfinite( cost ) :
                 corner += 0.01 * numpy.sum( self.simplex, 0 )
                 cost = self.func( corner )
+                if math.isnan( cost ) :         # no value here: worse than anything
+                    cost = math.inf
 
             self.values[i] = cost
             if i == 0 or self.values[i] < self.fopt:
@@ -451,7 +455,7 @@ class AnnealingAmoeba( object ):
                     self.values[0] = self.values[ilo]
                     self.values[ilo] = swap
 
-                    swap = self.simplex[0,:]
+                    swap = self.simplex[0,:].copy()
                     self.simplex[0,:] = self.simplex[ilo,:]
                     self.simplex[ilo,:] = swap
 
@@ -461,6 +465,7 @@ class AnnealingAmoeba( object ):
                 if abs( self.fopt - ylo ) > tol :
                     self.simplex[ilo,:] = self.xopt[:]
                     self.values[ilo] = self.fopt
+                    self.sum = numpy.sum( self.simplex, axis=0 )
 
                     move = "replace"
                     if self.iter < maxiter:
@@ -475,35 +480,23 @@ class AnnealingAmoeba( object ):
 
             trans += 2
             factor = -ALPHA
-            while True:
-                ytry = self.trialStep( ihi, yhi, factor )
-                factor = self.randomRange( -ALPHA )
-                if not math.isnan( ytry ) : break
+            ytry = self.finiteStep( self.trialStep, ( ihi, yhi ), factor, -ALPHA )
             move = "reflect"					# reflect worst over the others
 
             if ytry < ylo:                      # when succesfull move further
                 factor = GAMMA
-                while True:
-                    ytry = self.trialStep( ihi, yhi, factor )
-                    factor = self.randomRange( GAMMA )
-                    if not math.isnan( ytry ) : break
+                ytry = self.finiteStep( self.trialStep, ( ihi, yhi ), factor, GAMMA )
                 move = "extrapolate"			# reflect twice as far
 
             elif ytry >= ynhi:                  # not better than next hi : contract
                 ysave = yhi
                 factor = beta
-                while True:
-                    ytry = self.trialStep( ihi, yhi, factor )
-                    factor = self.randomRange( beta )
-                    if not math.isnan( ytry ) : break
+                ytry = self.finiteStep( self.trialStep, ( ihi, yhi ), factor, beta )
                 move = "contract"				# contract in direction of others
 
                 if ytry >= ysave :              # not better that saved one : shrink
                     factor = beta
-                    while True:
-                        ytry = self.inflateSimplex( ilo, factor )
-                        factor = self.randomRange( beta )
-                        if not math.isnan( ytry ) : break
+                    ytry = self.finiteStep( self.inflateSimplex, ( ilo, ), factor, beta )
                     trans += nfit
                     move = "shrink" 			# shrink simplex on best point
             else:
@@ -552,7 +545,7 @@ class AnnealingAmoeba( object ):
         (ndim,nfit) = self.simplex.shape
         milo = [k for k in range( ilo )] + [k for k in range( ilo+1, ndim )]
         for i in milo :
-            inpar = self.simplex[i,:]
+            inpar = self.simplex[i,:].copy()
             self.simplex[i,:] = factor * inpar + emf * self.simplex[ilo,:]
 
             self.simplex[i,:] = self.stayInLimits( inpar, self.simplex[i,:] )
@@ -565,12 +558,41 @@ class AnnealingAmoeba( object ):
                 ylo = self.values[i]
                 if self.values[i] < self.fopt:
                     self.fopt = ylo
-                    self.xopt = p
+                    self.xopt = p.copy()
 
         self.sum = numpy.sum( self.simplex, axis=0 )
 
         return ylo
 
+    def finiteStep( self, step, args, factor, newfactor, maxtry=100 ):
+        """
+        Repeat the step with varying factors until the function value is not a NaN.
+
+        Parameters
+        ----------
+        step : callable
+            one of trialStep, inflateSimplex
+        args : tuple
+            arguments for step
+        factor : float
+            factor for the first try
+        newfactor : float
+            factor (to be randomized) for the next tries
+        maxtry : int
+            maximum number of tries
+
+        Raises
+        ------
+        ConvergenceError when only NaNs are found.
+
+        """
+        for k in range( maxtry ) :
+            ytry = step( *args, factor )
+            factor = self.randomRange( newfactor )
+            if not math.isnan( ytry ) :
+                return ytry
+        raise ConvergenceError( "AnnealingAmoeba: function yields NaNs only" )
+
     def trialStep( self, ihi, yhi, factor ):
         """
         Do a trial step to improve the worst (highest) point.
-- 
2.43.0


From db71b5f37ffaf727fbc504900dc6607d00c43b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 18/44] fix: iterative fitters: start, limits and kept
 parameters are honoured, hessian and gradient belong to the result

---
 BayesicFitting/source/CurveFitter.py          | 20 ++----
 .../source/GaussErrorDistribution.py          |  8 ++-
 BayesicFitting/source/IterativeFitter.py      | 32 +++++++++
 .../source/LevenbergMarquardtFitter.py        | 69 +++++++------------
 BayesicFitting/source/MaxLikelihoodFitter.py  | 10 ++-
 BayesicFitting/source/ScipyFitter.py          | 63 +++++++++--------
 6 files changed, 105 insertions(+), 97 deletions(-)

diff --git a/BayesicFitting/source/CurveFitter.py b/BayesicFitting/source/CurveFitter.py
index f3d32d7..19d578a 100644
--- a/BayesicFitting/source/CurveFitter.py
+++ b/BayesicFitting/source/CurveFitter.py
@@ -126,21 +126,12 @@ class CurveFitter( IterativeFitter ):
             wgts = numpy.where( weights == 0, 1e-20, weights )      # avoid division by 0
             sigma = 1 / numpy.sqrt( wgts )
 
-        # Check for limits
-        if limits is not None :
-            bounds = limits
-        elif self.model.priors :
-            bounds = self.model.getLimits()
-        else :
-            bounds = ( -numpy.inf, numpy.inf )
-
-        # Make requested fitIndex; save original one.
-        if keep is not None :
-            self.fitIndex = self.keepFixed( keep )
+        # limits of the parameters that need fitting.
+        bounds = tuple( b[fitIndex] for b in self.getBounds( limits ) )
 
         # Make initial parameters
-        p0 = self.model.parameters if inipar is None else inipar
-        if fitIndex is not None :
+        p0 = numpy.asarray( self.model.parameters if inipar is None else inipar )
+        if len( p0 ) == self.model.npchain :
             p0 = p0[fitIndex]
 
         ydat = ydata
@@ -199,8 +190,7 @@ class CurveFitter( IterativeFitter ):
         params = self.insertParameters( params )
         res = self.model.result( xdata, params )
         if hasattr( self, "normdfdp" ) :
-            extra = numpy.inner( self.normdfdp, params )
-            res = numpy.append( res, [extra] )
+            res = numpy.append( res, numpy.inner( self.normdfdp, params ) )
 
         return res
 
diff --git a/BayesicFitting/source/GaussErrorDistribution.py b/BayesicFitting/source/GaussErrorDistribution.py
index a24ae61..b31d4ee 100644
--- a/BayesicFitting/source/GaussErrorDistribution.py
+++ b/BayesicFitting/source/GaussErrorDistribution.py
@@ -277,17 +277,19 @@ class GaussErrorDistribution( ScaledErrorDistribution ):
         scale = allpars[np]
         s2 = scale * scale
 
-        fi = fitIndex if fitIndex[-1] != np else fitIndex[-1:]
+        fi = fitIndex if fitIndex[-1] != np else fitIndex[:-1]
 
         nf = len( fi )
         design = problem.partial( param )[:,fi]
         design = design.transpose()
         deswgt = design
         if problem.hasWeights() :
-            deswgt *= problem.weights
+            deswgt = deswgt * problem.weights
+        if problem.hasAccuracy :
+            deswgt = deswgt / ( problem.accuracy * problem.accuracy )
 
         hessian = numpy.zeros( ( nh, nh ), dtype=float )
-        hessian[:nf,:nf] = numpy.inner( design, deswgt ) / s2
+        hessian[:nf,:nf] = - numpy.inner( design, deswgt ) / s2
 
         if fitIndex[-1] == np :
             hessian[nf,nf] = 2 * ( problem.ndata - nf ) / s2
diff --git a/BayesicFitting/source/IterativeFitter.py b/BayesicFitting/source/IterativeFitter.py
index d62fdb6..dfdafb2 100644
--- a/BayesicFitting/source/IterativeFitter.py
+++ b/BayesicFitting/source/IterativeFitter.py
@@ -121,6 +121,38 @@ class IterativeFitter( BaseFitter ):
         self.plotfreq = 0
 
     #  *************************************************************************
+    def getBounds( self, limits=None ) :
+        """
+        Return low and high limits for all parameters of the model.
+
+        Parameters
+        ----------
+        limits : None or list of 2 floats or list of 2 array_like
+            None : from the priors of the model, infinite if there are none
+            [lo,hi] : low and high limits for all (fitted) parameters
+            [la,ha] : low array and high array limits for all (fitted) parameters
+        """
+        npchain = self.model.npchain
+        bounds = ( numpy.full( npchain, -numpy.inf ), numpy.full( npchain, +numpy.inf ) )
+        if limits is not None :
+            for b, lim in zip( bounds, limits ) :
+                nlim = numpy.size( lim )
+                if self.fitIndex is None or nlim == npchain :
+                    b[:] = lim
+                else :
+                    b[self.fitIndex] = lim
+            return bounds
+
+        for k in range( npchain ) :
+            try :
+                prior = self.model.getPrior( k )
+            except IndexError :                     # no prior, no limits
+                continue
+            if prior is None : continue
+            bounds[0][k] = prior.lowLimit
+            bounds[1][k] = prior.highLimit
+        return bounds
+
     def setParameters( self, params ):
         """
         Initialize the parameters of the model
diff --git a/BayesicFitting/source/LevenbergMarquardtFitter.py b/BayesicFitting/source/LevenbergMarquardtFitter.py
index 1e21cac..5bfa533 100644
--- a/BayesicFitting/source/LevenbergMarquardtFitter.py
+++ b/BayesicFitting/source/LevenbergMarquardtFitter.py
@@ -181,10 +181,14 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                         accuracy=accuracy, keep=keep )
 
 
-        trypar = self.model.parameters if par0 is None else par0
+        self.bounds = self.getBounds( limits )
 
-#        if fitIndex is not None and len( fitIndex ) < len( par0 ) :
-#            par0 = par0[fitIndex]
+        trypar = self.model.parameters.copy()
+        if par0 is not None :               # initial values of the parameters to be fitted
+            par0 = numpy.asarray( par0, dtype=float )
+            trypar[fitIndex] = par0[fitIndex] if len( par0 ) == len( trypar ) else par0
+        low, high = self.bounds             # start inside the limits
+        trypar[fitIndex] = numpy.clip( trypar[fitIndex], low[fitIndex], high[fitIndex] )
 
         self.chi = self.chiSquaredExtra( data, trypar, weights=fitWgts ) + 1
 
@@ -204,6 +208,7 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                 self.chi = trychi
                 self.report( verbose, trypar, trychi, more=math.log10( self.lamda ), force=True )
                 self.converged = True
+                self.getHessian( params=trypar, weights=fitWgts, index=fitIndex )
 
                 self.fitpostscript( data, plot=plot )
                 return trypar                   # we are done.
@@ -241,9 +246,22 @@ class LevenbergMarquardtFitter( IterativeFitter ):
             nres = ( self.normdata - numpy.inner( self.normdfdp, params ) ) * self.normweight
             residu = numpy.append( residu, nres )
 
-        vector = self.getVector( residu, index=fi )
+        design = self.getDesign( params=params, index=fi )
+        vector = numpy.inner( design.transpose(), residu )
+
+        # parameters that are pushed over their limits stay there
+        low, high = self.bounds
+        free = numpy.logical_not( ( ( params[fi] <= low[fi] ) & ( vector < 0 ) ) |
+                                  ( ( params[fi] >= high[fi] ) & ( vector > 0 ) ) )
+        if not numpy.all( free ) :
+            fi = fi[free]
+            vector = vector[free]
+            hessian = hessian[free,:][:,free]
 
         nfit = len( fi )
+        if nfit == 0 :
+            self.iter += 1
+            return ( params, self.chiSquaredExtra( data, params, weights=weights ) )
         fitpar = params[fi]
 
         while self.iter < maxiter :
@@ -253,13 +271,9 @@ class LevenbergMarquardtFitter( IterativeFitter ):
 
             newpar = fitpar + 0.5 * numpy.linalg.solve( hessian, vector )
 
-            onEdge, edgePar, edgeInd = self.checkLimits( newpar, fi )
-            onEdge = False
+            newpar = numpy.minimum( numpy.maximum( newpar, low[fi] ), high[fi] )
 
-            if onEdge :
-                newpar = edgePar
-
-            trypar = self.insertParameters( newpar, index=fi, into=params )
+            trypar = self.insertParameters( newpar, index=fi, into=params.copy() )
 
             trychi = self.chiSquaredExtra( data, trypar, weights=weights )
 
@@ -271,14 +285,6 @@ class LevenbergMarquardtFitter( IterativeFitter ):
                          force=(verbose >= 3) )
 
             if trychi <= self.chi:
-
-                if onEdge :                        # further convergence on the edge plane(s)
-                    self.chi = trychi
-                    self.model.parameters = trypar
-                    trypar, trychi = self.trialfit( trypar, edgeInd, data, weights,
-                            verbose, maxiter )
-
-
                 return ( trypar, trychi )          #  succesfull step
 
             if self.lamda < 1e20 :
@@ -301,30 +307,3 @@ class LevenbergMarquardtFitter( IterativeFitter ):
     def __str__( self ):
         """ Return name of the fitter.  """
         return "LevenbergMarquardtFitter"
-
-    def checkLimits(  self, fitpar, fitindex ):
-        """
-
-        """
-        onedge = False
-#        if self.model.priors is not None and self.model.priors.hasLimits( ):
-        if self.model.priors is not None :
-            fitin = []
-            for i,k in enumerate( fitindex ) :
-                pr = self.model.getPrior( k )
-                if pr.hasLowLimit( ) and fitpar[i] < pr.lowLimit :
-                    fitpar[i] = pr.lowLimit
-                    onedge = True
-                elif pr.hasHighLimit( ) and fitpar[i] > pr.highLimit :
-                    fitpar[i] = pr.highLimit
-                    onedge = True
-                else:
-                    fitin += [k]
-
-            return ( onedge, fitpar, fitin )
-        else:
-            return ( onedge, fitpar, fitindex )
-
-
-
-
diff --git a/BayesicFitting/source/MaxLikelihoodFitter.py b/BayesicFitting/source/MaxLikelihoodFitter.py
index ce577b0..0b183cb 100644
--- a/BayesicFitting/source/MaxLikelihoodFitter.py
+++ b/BayesicFitting/source/MaxLikelihoodFitter.py
@@ -271,7 +271,8 @@ class _Chisq( object ):
         """
         Return the Hessian matrix.
         """
-        return self._outer.getHessian( params=par, weights=self._weights, index=self._index )
+        param = self._outer.insertParameters( par, index=self._index )
+        return 2 * self._outer.getHessian( params=param, weights=self._weights, index=self._index )
 
 class _LogL( _Chisq ) :
     """
@@ -304,8 +305,13 @@ class _LogL( _Chisq ) :
 
         super( _LogL, self ).__init__( outer, data, weights, index=index )
 
+        # accuracies are combined into the weights only for Gaussian errors
+        accuracy = None
+        if errdis != 'gauss' :
+            weights = outer.weights
+            accuracy = outer.accuracy
         self.problem = ClassicProblem( outer.model, xdata=outer.xdata, ydata=data,
-            weights=weights )
+            weights=weights, accuracy=accuracy )
 
         if errdis == 'gauss' :
             self.errdis = GaussErrorDistribution( scale=scale )
diff --git a/BayesicFitting/source/ScipyFitter.py b/BayesicFitting/source/ScipyFitter.py
index 967f174..ef67009 100644
--- a/BayesicFitting/source/ScipyFitter.py
+++ b/BayesicFitting/source/ScipyFitter.py
@@ -165,13 +165,11 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         self.userGradient = gradient
         self.userHessp = hessp
-        self.method = str.upper( method )
+        self.method = None if method is None else str.upper( method )
         self.norm = numpy.inf
         self.debug = False
         self.ngrad = 0
 
-        numpy.set_printoptions(formatter={'float': '{: 0.3f}'.format})
-
 
     #  *************************************************************************
     def fit( self, data, weights=None, par0=None, keep=None, limits=None,
@@ -225,14 +223,21 @@ class ScipyFitter( MaxLikelihoodFitter ):
         fitIndex, data, weights = self.fitprolog( data, weights=weights, 
                         accuracy=accuracy, keep=keep )
 
-        inipar = self.model.parameters[fitIndex]
+        npchain = self.model.npchain
+        inipar = numpy.asarray( self.model.parameters if par0 is None else par0, dtype=float )
+        if len( inipar ) == npchain :
+            inipar = inipar[fitIndex]
+
+        # make limits into a ( low, high ) pair for each of the fitted parameters
+        if limits is not None :
+            bounds = [numpy.asarray( lim, dtype=float ) for lim in limits]
+            bounds = [b[fitIndex] if b.ndim > 0 and len( b ) == npchain else
+                        numpy.broadcast_to( b, len( fitIndex ) ) for b in bounds]
+            limits = list( zip( *bounds ) )
 
-        # Check for limits in the prior
-        if limits is not None and self.model.priors :
-            try :
-                limits = ( self.model.lowLimits[fitIndex], self.model.highLimits[fitIndex] )
-            except :
-                limits = ( self.model.lowLimits, self.model.highLimits )
+        if tolerance is None : tolerance = self.tolerance
+        if maxiter is not None :
+            options.setdefault( 'maxiter', maxiter )
 
         if self.method is None:
             # Select automatically
@@ -245,8 +250,6 @@ class ScipyFitter( MaxLikelihoodFitter ):
 
         (func,gradient,hess) = self.makeFuncs( data, weights=weights, index=fitIndex )
 
-        print( self.method )
-
         # - hessp
         useHessian = self.method in ('NEWTON-CG', 'DOGLEG', 'TRUST-NCG')
         if ( not useHessian and hasattr( self, "userHessp" ) and self.userHessp is not None ) :
@@ -281,64 +284,62 @@ class ScipyFitter( MaxLikelihoodFitter ):
             options = {}
 
         if self.method == 'NELDER-MEAD':
-            options.setdefault( 'xatol', self.tolerance )
-            options.setdefault( 'fatol', self.tolerance )
+            options.setdefault( 'xatol', tolerance )
+            options.setdefault( 'fatol', tolerance )
             options.setdefault( 'maxiter', self.maxIter )
             res = minimize( func, inipar, method="Nelder-Mead",
                     callback=callback, options=options )
         elif self.method == 'POWELL':
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
             options.setdefault( 'maxiter', self.maxIter )
             res = minimize( func, inipar, method="Powell",
                     callback=callback, options=options )
         elif self.method == 'CG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             options.setdefault( 'maxiter', self.maxIter )
             res = minimize( func, inipar, jac=gradient, method="CG",
                     callback=callback, options=options )
         elif self.method == 'BFGS':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             options.setdefault( 'maxiter', self.maxIter )
             res = minimize( func, inipar, jac=gradient, method="BFGS",
                     callback=callback, options=options )
         elif self.method == 'NEWTON-CG':
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'xtol', tolerance )
             options.setdefault( 'maxiter', self.maxIter )
             res = minimize( func, inipar, jac=gradient, method="Newton-CG",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         elif self.method == 'L-BFGS-B':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="L-BFGS-B",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'TNC':
-            options.setdefault( 'gtol', self.tolerance )
-            options.setdefault( 'ftol', self.tolerance )
-            options.setdefault( 'xtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
+            options.setdefault( 'ftol', tolerance )
+            options.setdefault( 'xtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="TNC",
                     bounds=limits, callback=callback, options=options )
         elif self.method == 'COBYLA':
-            options.setdefault( 'tol', self.tolerance )
+            options.setdefault( 'tol', tolerance )
             res = minimize( func, inipar, method="COBYLA",
                     constraints=constraints, callback=callback, options=options )
         elif self.method == 'SLSQP':
-            options.setdefault( 'ftol', self.tolerance )
+            options.setdefault( 'ftol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="SLSQP",
                     bounds=limits, constraints=constraints, callback=callback, options=options )
         elif self.method == 'DOGLEG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="dogleg",
                     hess=hess, callback=callback, options=options )
         elif self.method == 'TRUST-NCG':
-            options.setdefault( 'gtol', self.tolerance )
+            options.setdefault( 'gtol', tolerance )
             res = minimize( func, inipar, jac=gradient, method="trust-ncg",
                     hess=hess, hessp=self.userHessp, callback=callback, options=options )
         else:
             raise ValueError('Unknown solver %s' % self.method)
 
-        print( res )
-
         parameters = self.insertParameters( res["x"], index=fitIndex )
         self.model.parameters = parameters
 
@@ -347,8 +348,6 @@ class ScipyFitter( MaxLikelihoodFitter ):
         else :
             self.logLikelihood = -res["fun"]
 
-
-#        self.chisq = res["fun"]
         self.ntrans = res["nfev"]
 #        print( self.method, self.method != "COBYLA" )
         if self.method != "COBYLA" :
-- 
2.43.0


From 7975413a23d8fcf25016971c27a2f5bd286a047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 19/44] fix: RandomEngine draws each fitted parameter in its
 own range; storing a phantom does not renumber the walker

---
 BayesicFitting/source/RandomEngine.py | 2 +-
 BayesicFitting/source/WalkerList.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 9d3fa11..e337877 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -122,7 +122,7 @@ class RandomEngine( Engine ):
         for tt in range( self.nstep ) :
             ptry = param.copy()
             uval = self.rng.uniform( um, ux, nap )
-            ptry[fi] = self.unit2Domain( problem, uval, kpar=fi )
+            ptry[fi] = self.unit2Domain( problem, uval[fi], kpar=fi )
 
             Ltry = self.errdis.logLikelihood( problem, ptry )
 
diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index 75e75b2..a24a568 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -179,7 +179,8 @@ class WalkerList( list ):
         """
         klow = self.firstIndex( walker.logL )
         if klow is None :
-            self.setWalker( walker, 0 )
+            self.append( walker )               # keep its id
+            self._count += 1
             return self
 
         cnt = self._count
-- 
2.43.0


From c846f09cb47691039f1e8525a554fbb2ee7db8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 20/44] fix: StructureEngine finds the modifiable part in a
 chain of models

---
 BayesicFitting/source/StructureEngine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index 787b0e1..f0f3ae3 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -100,7 +100,11 @@ class StructureEngine( Engine ):
         self.reportCall()
 
         t = 0
-        perm = self.rng.permutation( self.walkers[kw].problem.model.ncomp - 2 )     ## TBC
+        model = self.walkers[kw].problem.model
+        while not isinstance( model, Modifiable ) :         # find the modifiable part of the chain
+            model = model._next
+
+        perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
             update = len( self.walkers ) if append else kw
             dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
-- 
2.43.0


From 6fa4cb100e8ccf0f252673e128dbbbf962fa07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 21/44] fix: engines make no moves when a walker has no
 parameters to fit

---
 BayesicFitting/source/ChordEngine.py    | 4 ++++
 BayesicFitting/source/GalileanEngine.py | 3 +++
 BayesicFitting/source/RandomEngine.py   | 2 ++
 BayesicFitting/source/StepEngine.py     | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index d52dcb0..552bb08 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -130,6 +130,10 @@ class ChordEngine( Engine ):
         fitIndex = walker.fitIndex
         np = len( fitIndex )
 
+        if np == 0 :                            # no parameters to move
+            return 0
+
+
         param = walker.allpars
         usav = self.domain2Unit( problem, param[fitIndex], kpar=fitIndex )
         self.plotter.start( param=param )
diff --git a/BayesicFitting/source/GalileanEngine.py b/BayesicFitting/source/GalileanEngine.py
index 137872d..60394f5 100644
--- a/BayesicFitting/source/GalileanEngine.py
+++ b/BayesicFitting/source/GalileanEngine.py
@@ -122,6 +122,9 @@ class GalileanEngine( Engine ):
         allpars = walker.allpars
         fitIndex = walker.fitIndex
 
+        if len( fitIndex ) == 0 :               # no parameters to move
+            return 0
+
         inside = 0
         Ltry = 0
         size = self.size
diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index e337877..1b863a2 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -103,6 +103,8 @@ class RandomEngine( Engine ):
         problem = walker.problem
         fi = walker.fitIndex
         nf = len( fi )
+        if nf == 0 :                            # no parameters to move
+            return 0
         param = walker.allpars
         
         ## Make a unit box to find a new walker in
diff --git a/BayesicFitting/source/StepEngine.py b/BayesicFitting/source/StepEngine.py
index 2399048..bc3d2d6 100644
--- a/BayesicFitting/source/StepEngine.py
+++ b/BayesicFitting/source/StepEngine.py
@@ -104,6 +104,8 @@ class StepEngine( Engine ):
         problem = walker.problem
         fitIndex = walker.fitIndex
         np = len( fitIndex )
+        if np == 0 :                            # no parameters to move
+            return 0
 
         param = walker.allpars
         urange, umin = self.getUnitRange( problem, lowLhood )
-- 
2.43.0


From 455ab7982c8d974d89804857f53b20d610181294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 22/44] fix: StartEngine keeps fixed (hyper)parameters of
 dynamic models and the offset in a chain

---
 BayesicFitting/source/StartEngine.py | 40 +++++++++++++---------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index d059b18..93b60cd 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -92,38 +92,36 @@ class StartEngine( Engine ):
         fitIndex = walker.fitIndex
         allp = walker.allpars.copy()
 
-        npar = len( allp )
-        onp = problem.npars
 
         maxtrials = self.maxtrials
         if hasattr( self.errdis, "constrain" ) and callable( self.errdis.constrain ) :
             maxtrials *= 100
 
+        dynamic = model.isDynamic()
+        if dynamic :
+            off = 0
+            ## find the model in the chain that is actually dynamic
+            while model is not None and not isinstance( model, Dynamic ) :
+                off += model.npbase
+                model = model._next
+            npb0 = model.npbase
+
         ktry = 0
         while True :
 
-            if model.isDynamic() :
-                np0 = model.npars
-                off = 0
-
-                ## find the model in the chain that is actually dynamic
-                while model is not None and not isinstance( model, Dynamic ) :
-                    off += model.npbase
-                    model = model._next
-
-
-#                print( "SE   ", model.ncomp, model.maxComp, self.errdis )
-                npbase = model.npbase
+            if dynamic :
                 ## Grow the dynamic model a number of times according to growPrior
-                while ( model.ncomp < model.growPrior.unit2Domain( self.rng.rand() ) and
-                        model.grow( offset=off, rng=self.rng ) ) :
-                    np1 = model.npars
-                    dnp = np1 - np0
-                    fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
+                while ( model.ncomp < model.growPrior.unit2Domain( self.rng.rand() ) ) :
                     npbase = model.npbase
-                    np0 = np1
+                    if not model.grow( offset=off, rng=self.rng ) :
+                        break
+                    dnp = model.npbase - npbase
+                    fitIndex = model.alterFitindex( fitIndex, npbase, dnp, off )
 
-                allp = numpy.zeros( npar + np0 - onp, dtype=float )
+                ## make room for the new parameters; keep the values of fixed (hyper)parameters
+                nold = off + npb0
+                allp = numpy.concatenate( ( walker.allpars[:nold], numpy.zeros( model.npbase - npb0 ),
+                                            walker.allpars[nold:] ) )
 
             uval = self.rng.rand( len( fitIndex ) )
 
-- 
2.43.0


From 031c0149838c56685b577a3a2e9db301cbc30cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 23/44] fix: PhantomSampler keeps its survivors and works for
 small ensembles

---
 BayesicFitting/source/PhantomSampler.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/PhantomSampler.py b/BayesicFitting/source/PhantomSampler.py
index 58c6858..a7d98c3 100644
--- a/BayesicFitting/source/PhantomSampler.py
+++ b/BayesicFitting/source/PhantomSampler.py
@@ -225,7 +225,7 @@ class PhantomSampler( NestedSampler ):
 
     def __getattr__( self, name ) :
         if name == "worst" :
-            return int( ( len( self.walkers ) * self.step ) // 100 )
+            return max( 1, int( ( len( self.walkers ) * self.step ) // 100 ) )
         else :
             return super().__getattr__( name )
 
@@ -247,6 +247,13 @@ class PhantomSampler( NestedSampler ):
         """
         self.walkers[:worst] = []
 
+        # after the initial exploration there might be too many; keep an arbitrary subset
+        if len( self.walkers ) > self.initEnsemble :
+            worst = max( 1, int( self.initEnsemble * self.step // 100 ) )
+            while len( self.walkers ) > self.initEnsemble - worst :
+                del( self.walkers[self.rng.randint( len( self.walkers ) )] )
+        ks = len( self.walkers )            # the survivors; after these come the new ones
+
 #        e0 = self.engines[0]
 #        print( "updateW  ", worst, len( self.walkers ), fma( e0.unitRange, linelength=200 ) )
 
@@ -259,7 +266,6 @@ class PhantomSampler( NestedSampler ):
 
 
         while len( self.walkers ) > self.initEnsemble :
-            ks = self.initEnsemble - self.step
             k = ks + self.rng.randint( self.ensemble - ks - 1 )
 #            print( k, self.ensemble, len( self.walkers ), self.walkers[-1].logL )
             del( self.walkers[k] )
-- 
2.43.0


From ff8f247aaade72175abaab1fcb7525bd19762944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 24/44] fix: SampleList standard deviations of hyperparameters
 and errors at other abscissae

---
 BayesicFitting/source/SampleList.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/SampleList.py b/BayesicFitting/source/SampleList.py
index 563b888..5d014b8 100644
--- a/BayesicFitting/source/SampleList.py
+++ b/BayesicFitting/source/SampleList.py
@@ -147,9 +147,9 @@ class SampleList( list ):
             return self.stdevs
         elif name == "hypars" :
             return self.getHypars()
-        elif name == "stdevHypar" :
+        elif name == "stdevHypars" :
             self.getHypars()
-            return self.stdevHypar
+            return self.stdevHypars
         elif name == "nuisance" :
             return self.getNuisance()
         elif name == "stdevNuis" :
@@ -311,10 +311,9 @@ class SampleList( list ):
             clh = None if not pr.isCircular() else pr.getLimits()
             param[k], stdev[k] = Tools.average( par[:,k], weights=wgt, circular=clh )
 
-        self.parameters = param
         self.stdevs = stdev
 
-        return self.parameters
+        return param
 
     def getHypars( self ) :
         """
@@ -337,7 +336,6 @@ class SampleList( list ):
         """
         ( a, s ) = self.averstd( "hyper" )
         self.stdevHypars = s
-        self.hypars = a
         return a
 
     def getNuisance( self ) :
@@ -533,7 +531,7 @@ class SampleList( list ):
             sumwgt += wgt
 
 #        self.error = numpy.sqrt( ( error - result * result ) / self.ndata )
-        self.error = numpy.sqrt( error - result * result )
+        self.error = numpy.sqrt( numpy.maximum( error - result * result, 0 ) )
         self.result = result
 
         return self.result
@@ -558,7 +556,6 @@ class SampleList( list ):
             standard deviations at each input point
 
         """
-        if Tools.length( xdata ) != len( self.result ):
-            self.average( xdata )
+        self.average( xdata )
         return self.error
 
-- 
2.43.0


From 5ba6caea49f0bacb52dad94daa78c86a4aa3a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 25/44] fix: bestBoost respects priors, weights and kept
 parameters

---
 BayesicFitting/source/Engine.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 11ce21f..3ed05c2 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -200,7 +200,7 @@ class Engine( object ):
         """
         wlist = self.phantoms.getList( walker )
 
-        if wlist is None or wlist[-1].logL >= walker.logL :
+        if wlist is None or len( wlist ) == 0 or wlist[-1].logL >= walker.logL :
             return
 
 #        print( "Best   ", fmt( walker.logL ) )
@@ -208,19 +208,28 @@ class Engine( object ):
 
         problem = walker.problem
         nh = self.errdis.nphypar
-        par0 = walker.allpars[:-nh]
+        np = problem.model.npars
+        if np + nh != len( walker.allpars ) :       # there are nuisance parameters
+            return
+
+        par0 = walker.allpars[:np]
+        keep = { k : par0[k] for k in range( np ) if k not in walker.fitIndex }
         try :
             self.fitter.model = problem.model
-            pars = self.fitter.fit( problem.ydata, par0=par0 )
+            pars = self.fitter.fit( problem.ydata, par0=par0, keep=keep, weights=problem.weights )
         except :
             return
 
-        if nh == 0 :
-            ptry = pars
-        elif walker.fitIndex[-1] == -1 :
-            ptry = numpy.append( pars, self.fitter.getScale() )
-        else :
-            ptry = numpy.append( pars, walker.allpars[-1] )
+        ptry = walker.allpars.copy()
+        ptry[:np] = pars
+        if nh > 0 and -nh in walker.fitIndex :
+            ptry[-nh] = self.fitter.getScale()
+
+        # dont go outside the priors
+        for k in walker.fitIndex :
+            prior = problem.model.getPrior( k ) if k >= 0 else self.errdis.hyperpar[k].prior
+            if prior.isOutOfLimits( ptry[k] ) :
+                return
 
         Ltry = self.errdis.logLikelihood( problem, ptry )
 
-- 
2.43.0


From 3cf794a9f61e49df0590c4510d4f0e7abedd4f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 26/44] fix: NestedSampler accounts for all of the prior mass,
 starts afresh at each sample() and accepts all forms of keep

---
 BayesicFitting/source/NestedSampler.py | 38 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/BayesicFitting/source/NestedSampler.py b/BayesicFitting/source/NestedSampler.py
index a8efa2b..259f34b 100644
--- a/BayesicFitting/source/NestedSampler.py
+++ b/BayesicFitting/source/NestedSampler.py
@@ -434,7 +434,7 @@ class NestedSampler( object ):
         self.logZ = -sys.float_info.max
         self.logdZ = 0
         self.info = 0
-        self.logWidth = math.log( 1.0 - math.exp( -1.0 / self.ensemble ) )
+        self.logWidth = 0.0                     # log of the prior mass that is left
 
 #        TBD put self.logWidth in the saved file too
 #        if self.optionalRestart() :
@@ -467,10 +467,11 @@ class NestedSampler( object ):
 
 
         # End of Sampling: Update and store the remaining walkers
+        self.walkers.sort( key=self.walkerLogL )
         self.updateEvidence( self.ensemble )        # Update Evidence Z and Information H
 
         # Calculate weighted average and stdevs for the parameters;
-        self.samples.LogZ = self.logZ
+        self.samples.logZ = self.logZ
         self.samples.info = self.info
         self.samples.normalize( )
 
@@ -491,10 +492,17 @@ class NestedSampler( object ):
 
         if ensemble is None :
             ensemble = self.ensemble
+
+        # start afresh: nothing is left of a previous call to sample
+        self.iteration = 0
+        self.samples = SampleList( self.problem.model, 0, ndata=self.problem.ndata )
+        self.phantoms = PhantomCollection( dynamic=self.problem.isDynamic() )
+
         self.initWalkers( ensemble, allpars, fitIndex )
 
         for eng in self.engines :
             eng.walkers = self.walkers
+            eng.phantoms = self.phantoms
             eng.lastWalkerId = len( self.walkers )
             if self.bestBoost :
                 eng.bestBoost( self.problem, myFitter=self.myFitter )
@@ -537,16 +545,10 @@ class NestedSampler( object ):
 
         nh = self.distribution.nphypar
         if keep is not None :
-            fitl = []
-            kkeys = list( keep.keys() )
-            for k in range( np + nh ) :
-                if k in kkeys :
-                    allpars[k] = keep[k]                    # save keep.value in allpars
-                elif fitlist[k] in kkeys :
-                    allpars[k] = keep[fitlist[k]]           # save keep.value in allpars
-                else :
-                    fitl += [fitlist[k]]                    # list of pars to be fitted
-            fitlist = fitl
+            for k in keep.keys() :
+                allpars[k] = keep[k]                        # save keep.value in allpars
+                kk = k if k < np else k - np - nh           # hyperpars are counted from the end
+                fitlist = [f for f in fitlist if f != kk]   # list of pars to be fitted
 
         return ( fitlist, allpars )
 
@@ -763,13 +765,17 @@ class NestedSampler( object ):
         """
 
         for kw in range( worst ) :
-            logWeight = self.logWidth + self.walkers[kw].logL + self.walkers[kw].logPrior
+            # each of the nw remaining walkers represents this part of the prior mass
+            nw = self.ensemble - kw
+            width = self.logWidth + math.log( 1.0 - math.exp( -1.0 / nw ) )
+            logLhood = self.walkers[kw].logL + self.walkers[kw].logPrior
+            logWeight = width + logLhood
 
             # update evidence, logZ
             logZnew = numpy.logaddexp( self.logZ, logWeight )
 
             # update Information, H
-            self.info = ( math.exp( logWeight - logZnew ) * self.lowLhood +
+            self.info = ( math.exp( logWeight - logZnew ) * logLhood +
                     math.exp( self.logZ - logZnew ) * ( self.info + self.logZ ) - logZnew )
 
             if math.isnan( self.info ) :
@@ -780,7 +786,7 @@ class NestedSampler( object ):
             smpl = self.walkers[kw].toSample( logWeight )
             self.samples.add( smpl )
 
-            self.logWidth -= 1.0 / ( self.ensemble - kw )
+            self.logWidth -= 1.0 / nw
 
         self.logdZ = logWeight - self.logZ
 
@@ -884,7 +890,7 @@ class NestedSampler( object ):
                 self.copyWalker = self.copyWalkerFromDynamicPhantoms
             else :
                 self.copyWalker = self.copyWalkerFromPhantoms
-        elif name == "bestUpdate" :
+        elif name == "bestBoost" :
 
             self.myFitter = None
             if Tools.subclassof( value, BaseFitter ) :
-- 
2.43.0


From f5ed6c3f06540cdd02b0d809f45f7b4b11b29419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 27/44] fix: BasicSplinesModel.copy keeps the order when it
 counts its parameters

---
 BayesicFitting/source/BasicSplinesModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index 776f0f4..5c29846 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -180,7 +180,7 @@ class BasicSplinesModel( SplinesModel ):
 
 
     def copy( self ):
-        return BasicSplinesModel( knots=self.knots, border=self.border, copy=self )
+        return BasicSplinesModel( knots=self.knots, order=self.order, border=self.border, copy=self )
 
     def __setattr__( self, name, value ):
         """
-- 
2.43.0


From 981e5d14904d9953639a40cce0287566ceae6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 28/44] fix: PhantomCollection can be used by several threads

---
 BayesicFitting/source/PhantomCollection.py | 30 +++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index c88c940..3e1530a 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -1,5 +1,6 @@
 import numpy as numpy
 import math
+from threading import RLock
 
 from .Walker import Walker
 from .WalkerList import WalkerList
@@ -65,6 +66,7 @@ class PhantomCollection( object ):
     #  *********CONSTRUCTORS***************************************************
 
     MINPARS = 5
+    lock = RLock()              # the collection is shared by all exploring threads
 
     def __init__( self, dynamic=False ):
         """
@@ -128,8 +130,9 @@ class PhantomCollection( object ):
         walker : Walker
             to be added to the PhantomCollection
         """
-        self.ncalls += 1
-        self.phantoms = self.phantoms.insertWalker( walker )
+        with self.lock :
+            self.ncalls += 1
+            self.phantoms = self.phantoms.insertWalker( walker )
 
     def calculateParamMinmax( self, lowLhood, np=0 ):
         """
@@ -167,10 +170,11 @@ class PhantomCollection( object ):
             number of parameters (not used in this implementation)
 
         """
-        if lowLhood > self.lowLhood :
-            self.calculateParamMinmax( lowLhood, np=np )
+        with self.lock :
+            if lowLhood > self.lowLhood :
+                self.calculateParamMinmax( lowLhood, np=np )
 
-        return ( self.paramMin, self.paramMax )
+            return ( self.paramMin, self.paramMax )
 
     ##  Dynamic methods
 
@@ -210,12 +214,13 @@ class PhantomCollection( object ):
         pars : 1d array
             parameters
         """
-        self.ncalls += 1
         np = walker.problem.npars
-        if not np in self.phantoms :
-            self.phantoms[np] = WalkerList()
+        with self.lock :
+            self.ncalls += 1
+            if not np in self.phantoms :
+                self.phantoms[np] = WalkerList()
 
-        self.phantoms[np] = self.phantoms[np].insertWalker( walker )
+            self.phantoms[np] = self.phantoms[np].insertWalker( walker )
 
     def calculateDynamic( self, lowLhood, np=0 ):
         """
@@ -259,9 +264,10 @@ class PhantomCollection( object ):
             number of parameters
 
         """
-        if not np in self.lowLhood or lowLhood > self.lowLhood[np] or self.paramMin[np] is None :
-            self.calculateDynamic( lowLhood, np=np )
-        return ( self.paramMin[np], self.paramMax[np] )
+        with self.lock :
+            if not np in self.lowLhood or lowLhood > self.lowLhood[np] or self.paramMin[np] is None :
+                self.calculateDynamic( lowLhood, np=np )
+            return ( self.paramMin[np], self.paramMax[np] )
 
 
 
-- 
2.43.0


From 0d6e064b82b2c13787966ac908f9d8fa921a7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 29/44] fix: orbit models can be evaluated in several threads

---
 BayesicFitting/source/Kepplers2ndLaw.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/Kepplers2ndLaw.py b/BayesicFitting/source/Kepplers2ndLaw.py
index 7670fee..14294bb 100644
--- a/BayesicFitting/source/Kepplers2ndLaw.py
+++ b/BayesicFitting/source/Kepplers2ndLaw.py
@@ -1,6 +1,7 @@
 import numpy as numpy
 import math
 import warnings
+from threading import local
 
 from . import Tools
 from .Tools import setAttribute as setatt
@@ -30,7 +31,7 @@ __status__ = "Perpetual Beta"
 #  *
 #  *    2018 - 2020 Do Kester
 
-class Kepplers2ndLaw( object ):
+class Kepplers2ndLaw( local ):
     """
     Class for calculating Kepplers second law for planetary motion.
 
@@ -48,10 +49,16 @@ class Kepplers2ndLaw( object ):
 
     The parameters are initialized at [0.0, 1.0, 1.0, 0.0].
 
+    The intermediate results, kept as attributes, are local to the thread.
+
     """
     TWOPI = 2 * math.pi
     MAXITER = 100
 
+    def __reduce__( self ) :
+        """ Copy and pickle without the (thread local) intermediate results. """
+        return ( type( self ), () )
+
     def meanAnomaly( self, xdata, params ) :
         """
         Return the mean anomaly.
@@ -149,7 +156,7 @@ class Kepplers2ndLaw( object ):
         else :
             print( "EA0: No convergence at iter %d for eccentricity %8.4f" % ( iter, eccen ) )
 
-        setatt( self, "iter", iter )
+        self.iter = iter
         return E
 
     def eccentricAnomaly1( self, xdata, params ) :
@@ -186,7 +193,7 @@ class Kepplers2ndLaw( object ):
         else :
             print( "EA1: No convergence at iter %d for eccentricity %8.4f" % ( iter, eccen ) )
 
-        setatt( self, "iter", iter )
+        self.iter = iter
         return E
 
     def eccentricAnomaly2( self, xdata, params, Estart=None ) :
@@ -240,9 +247,9 @@ class Kepplers2ndLaw( object ):
 
             print( "EA2: No convergence at iter %d for eccentricity %8.4f" % ( iter, eccen ) )
 
-        setatt( self, "iter", iter )
-        setatt( self, "sinE", sinE )
-        setatt( self, "cosE", cosE )
+        self.iter = iter
+        self.sinE = sinE
+        self.cosE = cosE
 
         return E
 
@@ -340,7 +347,7 @@ class Kepplers2ndLaw( object ):
 
         v = 2 * numpy.arctan2( ef * self.sinE, 1 + cosE )
 
-        setatt( self, "eccAnomaly", E )
+        self.eccAnomaly = E
         ## return radius and true anomaly
         return ( r, v )
 
-- 
2.43.0


From c32e6f1ec5b1c09385a397a947ccbe5edf531bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 30/44] fix: Explorer reports an error in a thread only once

---
 BayesicFitting/source/Explorer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index ab2bf6f..4fc0e89 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -140,6 +140,7 @@ class Explorer( object ):
         if len( threadErrors ) > 0: #check if there are any errors
             for e in threadErrors:
                 print( e )
+            threadErrors.clear()                # they have been reported
             raise Exception( "Thread Error" )
 
     def exploreWalker( self, kw, lowLhood, engines, rng ):
-- 
2.43.0


From 37ff8a0bd694bac91a8e48a0d57f8ca462e1d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 31/44] fix: walkers can be appended by several threads

---
 BayesicFitting/source/BirthEngine.py     |  4 ++--
 BayesicFitting/source/ChordEngine.py     |  2 +-
 BayesicFitting/source/DeathEngine.py     |  4 ++--
 BayesicFitting/source/Engine.py          | 11 +++++++++--
 BayesicFitting/source/GalileanEngine.py  |  2 +-
 BayesicFitting/source/GibbsEngine.py     |  2 +-
 BayesicFitting/source/RandomEngine.py    |  4 ++--
 BayesicFitting/source/StepEngine.py      |  2 +-
 BayesicFitting/source/StructureEngine.py | 18 ++++++++++--------
 BayesicFitting/source/WalkerList.py      | 19 +++++++++++++++----
 10 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/BayesicFitting/source/BirthEngine.py b/BayesicFitting/source/BirthEngine.py
index babd4e4..7a66694 100644
--- a/BayesicFitting/source/BirthEngine.py
+++ b/BayesicFitting/source/BirthEngine.py
@@ -149,8 +149,8 @@ class BirthEngine( Engine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess()
-                update = len( self.walkers ) if append else kw
-                self.setWalker( update, problem, ptry, Ltry, fitIndex=ftry )
+                update = None if append else kw          ## None: append to the list
+                update = self.setWalker( update, problem, ptry, Ltry, fitIndex=ftry )
                 wlkr = self.walkers[update]
                 wlkr.check( nhyp=nhyp )
                 return dnp
diff --git a/BayesicFitting/source/ChordEngine.py b/BayesicFitting/source/ChordEngine.py
index 552bb08..4f93fa9 100644
--- a/BayesicFitting/source/ChordEngine.py
+++ b/BayesicFitting/source/ChordEngine.py
@@ -258,7 +258,7 @@ class ChordEngine( Engine ):
                     reset = False
 
                     ## update the walker
-                    update = len( self.walkers ) if append else kw
+                    update = None if append else kw          ## None: append to the list
                     self.setWalker( update, problem, ptry, Ltry, fitIndex=fitIndex )
 
                     break
diff --git a/BayesicFitting/source/DeathEngine.py b/BayesicFitting/source/DeathEngine.py
index 940ecee..7544a2a 100644
--- a/BayesicFitting/source/DeathEngine.py
+++ b/BayesicFitting/source/DeathEngine.py
@@ -143,8 +143,8 @@ class DeathEngine( Engine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess()
-            update = len( self.walkers ) if append else kw
-            self.setWalker( update, problem, ptry, Ltry, fitIndex=ftry )
+            update = None if append else kw          ## None: append to the list
+            update = self.setWalker( update, problem, ptry, Ltry, fitIndex=ftry )
             wlkr = self.walkers[update]
             wlkr.check( nhyp=nhyp )
             return abs( dnp )
diff --git a/BayesicFitting/source/Engine.py b/BayesicFitting/source/Engine.py
index 3ed05c2..133ae8e 100644
--- a/BayesicFitting/source/Engine.py
+++ b/BayesicFitting/source/Engine.py
@@ -161,6 +161,7 @@ class Engine( object ):
 
         kw : int
             index in walkerlist, of the walker to be replaced
+            None : append the walker to the walkerlist
         problem : Problem
             the problem in the walker
         allpars : array_like
@@ -171,9 +172,14 @@ class Engine( object ):
             Copy this walker or create new one
         fitIndex : array_like
             (new) fitIndex
+
+        Returns
+        -------
+        index : int
+            index in the walkerlist where the walker is set
         """
         if walker is None :
-            id = 0 if kw >= len( self.walkers ) else self.walkers[kw].id
+            id = 0 if kw is None or kw >= len( self.walkers ) else self.walkers[kw].id
             wlkr = Walker( id, problem, allpars, fitIndex )
         else :
             wlkr = walker.copy()
@@ -182,9 +188,10 @@ class Engine( object ):
         wlkr.logL = logL
         self.checkBest( wlkr )
 
-        self.walkers.setWalker( wlkr, kw )
+        kw = self.walkers.setWalker( wlkr, kw )
 
         self.phantoms.storeItems( wlkr )
+        return kw
 
     def noBoost( self, walker ) :
         pass
diff --git a/BayesicFitting/source/GalileanEngine.py b/BayesicFitting/source/GalileanEngine.py
index 60394f5..4f40d2d 100644
--- a/BayesicFitting/source/GalileanEngine.py
+++ b/BayesicFitting/source/GalileanEngine.py
@@ -209,7 +209,7 @@ class GalileanEngine( Engine ):
                 size = self.size
 
                 ## update the walker
-                update = len( self.walkers ) if append else kw
+                update = None if append else kw          ## None: append to the list
                 self.setWalker( update, problem, allpars, Lhood, walker=walker,
                                 fitIndex=fitIndex )
 
diff --git a/BayesicFitting/source/GibbsEngine.py b/BayesicFitting/source/GibbsEngine.py
index bd71526..4c558e2 100644
--- a/BayesicFitting/source/GibbsEngine.py
+++ b/BayesicFitting/source/GibbsEngine.py
@@ -152,7 +152,7 @@ class GibbsEngine( Engine ):
                     self.reportSuccess( )
                     param = ptry
 
-                    update = len( self.walkers ) if append else kw
+                    update = None if append else kw          ## None: append to the list
                     self.setWalker( update, problem, param, Ltry, fitIndex=fitIndex )
                     steps += 1
                     break
diff --git a/BayesicFitting/source/RandomEngine.py b/BayesicFitting/source/RandomEngine.py
index 1b863a2..3883651 100644
--- a/BayesicFitting/source/RandomEngine.py
+++ b/BayesicFitting/source/RandomEngine.py
@@ -131,7 +131,7 @@ class RandomEngine( Engine ):
             if Ltry >= lowLhood :       ## Lucky, in 1 step a truely random point
                 self.plotter.move( param, ptry, col=0, sym=2 )
                 self.reportSuccess()
-                update = len( self.walkers ) if append else kw
+                update = None if append else kw          ## None: append to the list
                 self.setWalker( update, problem, ptry, Ltry, fitIndex=fi )
 
                 self.plotter.stop( param=ptry, name="RandomEngine" )
@@ -152,7 +152,7 @@ class RandomEngine( Engine ):
                 if Ltry >= lowLhood:
                     self.reportSuccess( )
                     self.plotter.move( param, ptry, col=0, sym=4 )
-                    update = len( self.walkers ) if append else kw
+                    update = None if append else kw          ## None: append to the list
                     self.setWalker( update, problem, ptry, Ltry, fitIndex=fi )
                     param = ptry
                     t += 1
diff --git a/BayesicFitting/source/StepEngine.py b/BayesicFitting/source/StepEngine.py
index bc3d2d6..784d657 100644
--- a/BayesicFitting/source/StepEngine.py
+++ b/BayesicFitting/source/StepEngine.py
@@ -160,7 +160,7 @@ class StepEngine( Engine ):
 #                self.calcJourney( utry - usav )
                 self.reportSuccess( )
 
-                update = len( self.walkers ) if append else kw
+                update = None if append else kw          ## None: append to the list
                 self.setWalker( update, problem, ptry, Ltry, fitIndex=fitIndex )
                 param = ptry
                 usav = utry
diff --git a/BayesicFitting/source/StructureEngine.py b/BayesicFitting/source/StructureEngine.py
index f0f3ae3..95a33ec 100644
--- a/BayesicFitting/source/StructureEngine.py
+++ b/BayesicFitting/source/StructureEngine.py
@@ -106,10 +106,8 @@ class StructureEngine( Engine ):
 
         perm = self.rng.permutation( model.ncomp - 2 )     ## TBC
         for p in perm :
-            update = len( self.walkers ) if append else kw
-            dt = self.executeOnce( kw, lowLhood, update, location=p+1 )
-            if dt > 0 :
-                kw = update
+            update = None if append else kw          ## None: append to the list
+            dt, kw = self.executeOnce( kw, lowLhood, update, location=p+1 )
             t += dt
 
         return t
@@ -117,6 +115,10 @@ class StructureEngine( Engine ):
     def executeOnce( self, wlkrid, lowLhood, update, location=None ) :
         """
         One execution call.
+
+        Returns
+        -------
+        (int,int) : number of successfull moves, index of the present walker
         """
 
         walker = self.walkers[wlkrid]
@@ -142,7 +144,7 @@ class StructureEngine( Engine ):
 
         if not model.vary( location=location, rng=self.rng ):
             self.reportReject()
-            return 0
+            return 0, wlkrid
 
         problem.model = model._head
         Ltry = self.errdis.logLikelihood( problem, ptry )
@@ -153,14 +155,14 @@ class StructureEngine( Engine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess()
-            self.setWalker( update, problem, ptry, Ltry, fitIndex=ftry )
+            update = self.setWalker( update, problem, ptry, Ltry, fitIndex=ftry )
             wlkr = self.walkers[update]
 
             wlkr.check( nhyp=self.errdis.nphypar )
 
-            return 1
+            return 1, update
 
         self.reportFailed()
-        return 0
+        return 0, wlkrid
 
 
diff --git a/BayesicFitting/source/WalkerList.py b/BayesicFitting/source/WalkerList.py
index a24a568..e600290 100644
--- a/BayesicFitting/source/WalkerList.py
+++ b/BayesicFitting/source/WalkerList.py
@@ -1,6 +1,7 @@
 import numpy as numpy
 from astropy import units
 import math
+from threading import RLock
 from . import Tools
 from .Tools import setAttribute as setatt
 from .Walker import Walker
@@ -54,6 +55,8 @@ class WalkerList( list ):
     Author       Do Kester
 
     """
+    _lock = RLock()             # walkers can be set from several threads
+
     def __init__( self, problem=None, ensemble=0, allpars=None, fitIndex=None, 
                   walker=None,  walkerlist=None ):
         """
@@ -108,18 +111,26 @@ class WalkerList( list ):
         ----------
         walker : Walker
             the list to take to copy from
-        index : int
+        index : int or None
             the index at which to set
+            None or not in the list : append
+
+        Returns
+        -------
+        int : index where it is set
+
         """
 #        print( "setWalker  ", id( self ), len( self ), walker.id, index )
 
-        if index < len( self ) :
-            self[index] = walker
+        with self._lock :
+            if index is not None and index < len( self ) :
+                self[index] = walker
+                return index
 
-        else :
             walker.id = self._count
             self._count += 1
             self.append( walker )
+            return len( self ) - 1
 
     def copy( self, src, des, wlist=None, start=0 ):
         """
-- 
2.43.0


From 1c23503c057e7520983bba4ad429412cca710446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 32/44] fix: order engines act on the walker they are asked to
 move

They wrote to the walker at position walker.id; take the seeded random
generator in the start engine; accept the arguments of the Explorer in
ShuffleEngine; no moves reported when nothing moved; no check on the model
for problems that have none.
---
 BayesicFitting/source/Explorer.py         | 8 ++++++--
 BayesicFitting/source/LoopEngine.py       | 2 +-
 BayesicFitting/source/MoveEngine.py       | 2 +-
 BayesicFitting/source/NearEngine.py       | 2 +-
 BayesicFitting/source/ReverseEngine.py    | 4 ++--
 BayesicFitting/source/ShuffleEngine.py    | 9 +++++++--
 BayesicFitting/source/StartEngine.py      | 4 ++--
 BayesicFitting/source/StartOrderEngine.py | 4 ++--
 BayesicFitting/source/SwitchEngine.py     | 2 +-
 9 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/Explorer.py b/BayesicFitting/source/Explorer.py
index 4fc0e89..dcb5b18 100644
--- a/BayesicFitting/source/Explorer.py
+++ b/BayesicFitting/source/Explorer.py
@@ -255,10 +255,11 @@ class Explorer( object ):
         ValueError at inconsistency.
 
         """
-        walker.check( nhyp=self.errdis.nphypar )
+        if walker.problem.model is not None :
+            walker.check( nhyp=self.errdis.nphypar )
 
         wlogL = self.errdis.logLikelihood( walker.problem, walker.allpars )
-        if walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
+        if walker.problem.model is not None and walker.problem.model.npars < len( walker.allpars ) - self.errdis.nphypar :
             Tools.printclass( walker )
             print( "Iteration %4d %4d %10.3f  %10.3f" % ( self.iteration, walker.id, walker.logL, wlogL ) )
             print( fmt( walker.allpars, max=None ) )
@@ -272,6 +273,9 @@ class Explorer( object ):
             raise ValueError( "Inconsistency between stored logL %f and calculated logL %f" %
                                 ( walker.logL, wlogL ) )
 
+        if walker.problem.model is None :       # no model, no priors
+            return
+
         for ki in walker.fitIndex :
 #            if walker.fitIndex[ki] >= 0 :
             if ki < 0 :
diff --git a/BayesicFitting/source/LoopEngine.py b/BayesicFitting/source/LoopEngine.py
index 8eea677..be4bff4 100644
--- a/BayesicFitting/source/LoopEngine.py
+++ b/BayesicFitting/source/LoopEngine.py
@@ -163,7 +163,7 @@ class LoopEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 
         else :
             self.reportFailed()
diff --git a/BayesicFitting/source/MoveEngine.py b/BayesicFitting/source/MoveEngine.py
index e91661e..8e1504e 100644
--- a/BayesicFitting/source/MoveEngine.py
+++ b/BayesicFitting/source/MoveEngine.py
@@ -112,7 +112,7 @@ class MoveEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 ## check if better than Lbest in walkers[-1]
                 ## self.checkBest( problem, ptry, Ltry )
diff --git a/BayesicFitting/source/NearEngine.py b/BayesicFitting/source/NearEngine.py
index 9de6026..d2f446b 100644
--- a/BayesicFitting/source/NearEngine.py
+++ b/BayesicFitting/source/NearEngine.py
@@ -155,7 +155,7 @@ class NearEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
             t = 1
 
         else :
diff --git a/BayesicFitting/source/ReverseEngine.py b/BayesicFitting/source/ReverseEngine.py
index cc009ef..e58092b 100644
--- a/BayesicFitting/source/ReverseEngine.py
+++ b/BayesicFitting/source/ReverseEngine.py
@@ -100,7 +100,7 @@ class ReverseEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
@@ -110,6 +110,6 @@ class ReverseEngine( OrderEngine ):
 
         self.reportReject()
 
-        return t                        # nr of succesfull steps
+        return 0                        # nr of succesfull steps
 
 
diff --git a/BayesicFitting/source/ShuffleEngine.py b/BayesicFitting/source/ShuffleEngine.py
index e5ef5cf..a34293e 100644
--- a/BayesicFitting/source/ShuffleEngine.py
+++ b/BayesicFitting/source/ShuffleEngine.py
@@ -75,7 +75,7 @@ class ShuffleEngine( OrderEngine ):
         return str( "ShuffleEngine" )
 
     #  *********EXECUTE***************************************************
-    def execute( self, kw, lowLhood ):
+    def execute( self, kw, lowLhood, append=False, iteration=0 ):
         """
         Execute the engine by diffusing the parameters.
 
@@ -85,12 +85,17 @@ class ShuffleEngine( OrderEngine ):
             id of walker to diffuse
         lowLhood : float
             lower limit in logLikelihood
+        append : bool
+            not used here
+        iteration : int
+            iteration number
 
         Returns
         -------
         int : the number of successfull moves
 
         """
+        self.reportCall()
         walker = self.walkers[kw]
         problem = walker.problem
         np = problem.npars
@@ -114,7 +119,7 @@ class ShuffleEngine( OrderEngine ):
 
             if Ltry >= lowLhood:
                 self.reportSuccess( )
-                self.setWalker( walker.id, problem, ptry, Ltry )
+                self.setWalker( kw, problem, ptry, Ltry )
 
                 return t
 
diff --git a/BayesicFitting/source/StartEngine.py b/BayesicFitting/source/StartEngine.py
index 93b60cd..237640a 100644
--- a/BayesicFitting/source/StartEngine.py
+++ b/BayesicFitting/source/StartEngine.py
@@ -141,9 +141,9 @@ class StartEngine( Engine ):
             else :
                 ktry += 1
 
-        self.setWalker( walker.id, problem, allp, logL, fitIndex=fitIndex )
+        self.setWalker( kw, problem, allp, logL, fitIndex=fitIndex )
 
-        wlkr = self.walkers[walker.id]
+        wlkr = self.walkers[kw]
 #        print( walker.id, wlkr.id, wlkr.problem.model.npars, len( wlkr.allpars ), fmt( wlkr.logL ) )
 
         nhyp = self.errdis.nphypar 
diff --git a/BayesicFitting/source/StartOrderEngine.py b/BayesicFitting/source/StartOrderEngine.py
index 467ce5f..a4f7051 100644
--- a/BayesicFitting/source/StartOrderEngine.py
+++ b/BayesicFitting/source/StartOrderEngine.py
@@ -90,11 +90,11 @@ class StartOrderEngine( OrderEngine ):
 
         problem = walker.problem
 #        print( walker.allpars )
-        par = numpy.random.permutation( walker.allpars )
+        par = self.rng.permutation( walker.allpars )
 #        print( par )
 
         logL = self.errdis.logLikelihood( problem, par )
-        self.setWalker( walker.id, problem, par, logL )
+        self.setWalker( kw, problem, par, logL )
 
         return len( par )
 
diff --git a/BayesicFitting/source/SwitchEngine.py b/BayesicFitting/source/SwitchEngine.py
index 8aa85e4..c3d2a2f 100644
--- a/BayesicFitting/source/SwitchEngine.py
+++ b/BayesicFitting/source/SwitchEngine.py
@@ -115,7 +115,7 @@ class SwitchEngine( OrderEngine ):
 
         if Ltry >= lowLhood:
             self.reportSuccess( )
-            self.setWalker( walker.id, problem, ptry, Ltry )
+            self.setWalker( kw, problem, ptry, Ltry )
 #            param = walker.allpars
 
             return 2
-- 
2.43.0


From 9ea355bface65da2ad61432f93f69c0ad13e342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 33/44] fix: the range of the parameters of phantoms is known
 before a level is set

---
 BayesicFitting/source/PhantomCollection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/PhantomCollection.py b/BayesicFitting/source/PhantomCollection.py
index 3e1530a..66e1a88 100644
--- a/BayesicFitting/source/PhantomCollection.py
+++ b/BayesicFitting/source/PhantomCollection.py
@@ -92,6 +92,8 @@ class PhantomCollection( object ):
         else :
             self.phantoms = WalkerList( )
             self.lowLhood = -math.inf
+            self.paramMin = None
+            self.paramMax = None
 
     def __str__( self ):
         """ Return the name of this object.  """
@@ -171,7 +173,7 @@ class PhantomCollection( object ):
 
         """
         with self.lock :
-            if lowLhood > self.lowLhood :
+            if lowLhood > self.lowLhood or self.paramMin is None :
                 self.calculateParamMinmax( lowLhood, np=np )
 
             return ( self.paramMin, self.paramMax )
-- 
2.43.0


From d8427eeb4dff61fc9f5ef3ac62c887c880376650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 34/44] fix: orbits: derivatives near apastron, axis and mass
 of RadialVelocityModel, sign in Kepler equation

---
 BayesicFitting/source/Kepplers2ndLaw.py      | 23 ++++----------------
 BayesicFitting/source/RadialVelocityModel.py |  6 ++---
 2 files changed, 7 insertions(+), 22 deletions(-)

diff --git a/BayesicFitting/source/Kepplers2ndLaw.py b/BayesicFitting/source/Kepplers2ndLaw.py
index 14294bb..fb3cd01 100644
--- a/BayesicFitting/source/Kepplers2ndLaw.py
+++ b/BayesicFitting/source/Kepplers2ndLaw.py
@@ -149,7 +149,7 @@ class Kepplers2ndLaw( local ):
         ## calculate the eccentric anomaly E
         while iter < self.MAXITER :
             sinE = numpy.sin( Ep )
-            E = M - eccen * sinE
+            E = M + eccen * sinE
             iter += 1
             if all( numpy.abs( E - Ep ) < 1e-8 ) : break
             Ep = E
@@ -379,12 +379,7 @@ class Kepplers2ndLaw( local ):
 
         dr = semimaj * eccen * sinE
 
-        ef = ( 1 + eccen ) / ( 1 - eccen )
-        c2 = numpy.where( cosE <= -0.9999999999, 1e10, 1 / ( 1 + cosE ) )
-        t2 = ( 1 - cosE ) * c2          ## = tan^2( E/2 )       from Wiki:
-        c2 *= 2                         ## = 1 / cos^2( E/2 )   trig identities
-        dv = math.sqrt ( ef ) * c2
-        dv /= ( ef * t2 + 1 )
+        dv = math.sqrt( 1 - eccen * eccen ) / ( 1 - eccen * cosE )
 
         return ( dr, dv )
 
@@ -441,18 +436,8 @@ class Kepplers2ndLaw( local ):
         dvdP = dvdE * dEdP
         dvdp = dvdE * dEdp
 
-        ef = ( 1 + eccen ) / ( 1 - eccen )
-        sef = math.sqrt( ef )
-        e2 = ( 1 - eccen ) * ( 1 - eccen )
-
-        c2 = numpy.where( cosE <= -0.9999999999, 1e10, 1 / ( 1 + cosE ) )
-
-        tanE = sinE * c2                ## for tan( E/2 )
-
-        dd1 = 2 * tanE / ( sef * e2 )
-        dd2 = dd1 + 2 * sef * dEde * c2
-        dvde = dd2 / ( 1 + ef * tanE * tanE )
-        dvde = numpy.where( numpy.isnan( dvde ), 0.0, dvde )
+        # direct dependence on e plus the dependence via E
+        dvde = sinE / ( math.sqrt( 1 - eccen * eccen ) * drda ) + dvdE * dEde
 
         return ( drde, drda, drdP, drdp, dvde, dvdP, dvdp )
 
diff --git a/BayesicFitting/source/RadialVelocityModel.py b/BayesicFitting/source/RadialVelocityModel.py
index a715168..84c2997 100644
--- a/BayesicFitting/source/RadialVelocityModel.py
+++ b/BayesicFitting/source/RadialVelocityModel.py
@@ -102,7 +102,7 @@ class RadialVelocityModel( NonLinearModel ) :
         """
         if name == "semimajoraxis" :
             p = self.parameters
-            return p[0] * p[1] * math.sqrt ( 1 - p[2] * p[2] ) / self.TWOPI
+            return p[1] * p[2] * math.sqrt( 1 - p[0] * p[0] ) / self.TWOPI
         else :
             return super( RadialVelocityModel, self ).__getattr__( name )
 
@@ -116,8 +116,8 @@ class RadialVelocityModel( NonLinearModel ) :
             mass of the host star in solar masses.
         """
         p = self.parameters
-        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[0] *
-                 math.pow( p[1], 1.0 / 3.0 ) * math.sqrt( 1 - p[2] * p[2] ) )
+        return ( 4.91e-3 * math.pow( stellarmass, 2.0 / 3.0 ) * p[1] *
+                 math.pow( p[2], 1.0 / 3.0 ) * math.sqrt( 1 - p[0] * p[0] ) )
 
     def baseResult( self, xdata, params ):
         """
-- 
2.43.0


From 7689101835e6fdb55732e3719bb86a9e04d9e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 35/44] fix: helpers: logFactorial of one number,
 ImageAssistant in F order, MonteCarlo with its own random numbers

---
 BayesicFitting/source/ImageAssistant.py |  4 ++--
 BayesicFitting/source/LogFactorial.py   |  3 ++-
 BayesicFitting/source/MonteCarlo.py     | 10 +++++-----
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/ImageAssistant.py b/BayesicFitting/source/ImageAssistant.py
index 866dd67..dccc1cd 100644
--- a/BayesicFitting/source/ImageAssistant.py
+++ b/BayesicFitting/source/ImageAssistant.py
@@ -168,7 +168,7 @@ class ImageAssistant( object ):
         ya : array_like
             map to be reshaped
         """
-        return numpy.reshape( ya.copy(), ya.size, order=self.order )
+        return numpy.reshape( ya.copy(), ya.size )
 
     def resizeData( self, res, shape=None ):
         """
@@ -185,7 +185,7 @@ class ImageAssistant( object ):
         if shape is None :
             shape = self.shape
 
-        return numpy.reshape( res, shape, order=self.order )
+        return numpy.reshape( res, shape )
 
 
 
diff --git a/BayesicFitting/source/LogFactorial.py b/BayesicFitting/source/LogFactorial.py
index 63f1176..2d33fdf 100644
--- a/BayesicFitting/source/LogFactorial.py
+++ b/BayesicFitting/source/LogFactorial.py
@@ -97,7 +97,8 @@ def logFactorial( k ):
              359.1342053695754544]
 
 
-    if Tools.length( k ) == 1 :
+    if numpy.ndim( k ) == 0 :
+        k = int( k )
         return ( logfact[k] if k < 100 else
             0.9189385332046727 + ( k + 0.5 ) * math.log( k ) - k + 1.0 / ( 12.0 * k ) )
 
diff --git a/BayesicFitting/source/MonteCarlo.py b/BayesicFitting/source/MonteCarlo.py
index db66888..8208bc7 100644
--- a/BayesicFitting/source/MonteCarlo.py
+++ b/BayesicFitting/source/MonteCarlo.py
@@ -97,14 +97,14 @@ class MonteCarlo( object ):
         self.model = model
         self.index = index
         self.mcycles = mcycles
-        self._random = numpy.random
-        self._random.seed( seed )
+        self.seed = seed
+        self._random = numpy.random.RandomState( seed )
         self.decompose( covariance )
 
     def decompose( self, covariance ):
         val, vec = numpy.linalg.eigh( covariance )
         self._eigenvectors = vec
-        self._eigenvalues = numpy.sqrt( val )
+        self._eigenvalues = numpy.sqrt( numpy.maximum( val, 0.0 ) )
 
     #  *****MONTE CARLO ERROR***************************************************
     def getError( self, xdata=None ):
@@ -135,7 +135,7 @@ class MonteCarlo( object ):
             sm2 += numpy.square( model )
         sm1 /= self.mcycles
         sm2 /= self.mcycles
-        return numpy.sqrt( sm2  - sm1 * sm1 )
+        return numpy.sqrt( numpy.maximum( sm2  - sm1 * sm1, 0.0 ) )
 
     def randomVariant( self, xdata ):
         """
@@ -162,7 +162,7 @@ class MonteCarlo( object ):
     #  *************************************************************************
     def __str__( self ):
         """ Return name of the class.  """
-        return "MonteCarlo with seed %d and %d cycles" % (self._random.seed, self.mcycles)
+        return "MonteCarlo with seed %d and %d cycles" % ( self.seed, self.mcycles )
 
 
 
-- 
2.43.0


From d3381fa61b6a5359a7651c7ec3a23859a50e12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 36/44] fix: hasLimits with fitindex as list, and for models in
 the chain without fitted parameters

---
 BayesicFitting/source/BaseModel.py | 17 +++++------------
 BayesicFitting/source/Model.py     |  3 +--
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/BayesicFitting/source/BaseModel.py b/BayesicFitting/source/BaseModel.py
index ef8ecdf..34c0e20 100644
--- a/BayesicFitting/source/BaseModel.py
+++ b/BayesicFitting/source/BaseModel.py
@@ -437,16 +437,9 @@ class BaseModel( object ):
         """
         if self.npbase == 0 :
             return True
-        if self.priors is None :
-            return False
-        if fitindex is None :
-            return all( p.hasLimits() for p in self.priors )
-        else :
-            haslim = True
-            npr = len( self.priors )
-            for k in fitindex :
-                if k >= npr :
-                    return haslim
-                haslim = haslim and self.priors[k].hasLimits()
-            return haslim
+        if fitindex is not None :
+            fitindex = [k for k in fitindex if k < self.npbase]
+            return ( len( fitindex ) == 0 or self.priors is not None and
+                     all( self.basePrior( k ).hasLimits() for k in fitindex ) )
+        return self.priors is not None and all( p.hasLimits() for p in self.priors )
 
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index 7ef8d9f..aff871f 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1239,8 +1239,7 @@ class Model( FixedModel ):
             if not haslim :
                 return haslim
             if fitindex is not None :
-                q = numpy.where( fitindex >= mdl.npbase )
-                fitindex = fitindex[q] - mdl.npbase
+                fitindex = [k - mdl.npbase for k in fitindex if k >= mdl.npbase]
             mdl = mdl._next
         return haslim
 
-- 
2.43.0


From 9abf56ecb7b090db3ac7ef0fb6a4baa0c39d754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 37/44] fix: CombiModel: priors of tied parameters are those of
 the combined models; next models keep theirs

---
 BayesicFitting/source/CombiModel.py | 55 ++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/BayesicFitting/source/CombiModel.py b/BayesicFitting/source/CombiModel.py
index 99d2f1a..02558e6 100644
--- a/BayesicFitting/source/CombiModel.py
+++ b/BayesicFitting/source/CombiModel.py
@@ -362,24 +362,63 @@ class CombiModel( BracketModel ):
         """
         return self.model.getParameterUnit( self.select[k] % self.nmp )
 
+    def setPrior( self, kpar, prior=None, **kwargs ) :
+        """
+        Set the prior for parameter kpar, possibly further in the chain.
+
+        Parameters that are connected to an earlier one get the prior of that one.
+
+        Parameters
+        ----------
+        kpar : int
+            index of the parameter
+        prior : Prior
+            prior for parameter kpar
+        kwargs : keyword arguments
+            attributes to be passed to the prior
+        """
+        if kpar >= self.npbase :
+            return super( ).setPrior( kpar, prior=prior, **kwargs )
+
+        k0 = self.select[kpar-1] + 1 if kpar > 0 else 0
+        for k in range( k0, self.select[kpar] ) :
+            self.model.setPrior( k, prior=self.getPrior( self.expandindex[k] ) )
+        self.model.setPrior( self.select[kpar], prior=prior, **kwargs )
+
     def getPrior( self, kpar ) :
         """
-        Return the prior for parameter kpar.
+        Return the prior for parameter kpar, possibly further in the chain.
 
-        First try at the kpar location, possibly further in the chain;
+        First try at the location of the parameter in the combined models.
         Upon failure try at the equivalent position in the head model
-    
+
         Parameters
         ----------
         kpar : int
             index of the parameter to be selected.
         """
-#        print( kpar, self.parameters[kpar] )
+        if kpar >= self.npbase :
+            return super( ).getPrior( kpar )
+
+        try :
+            return self.model.getPrior( self.select[kpar] )
+        except IndexError :
+            return self.model.getPrior( self.select[kpar] % self.nmp )
+
+    def baseHasPriors( self, isBound=True ) :
+        """ True when all parameters of this model have (bound) priors. """
+        try :
+            return all( [self.getPrior( k ).isBound() or not isBound for k in range( self.npbase )] )
+        except IndexError :
+            return False
+
+    def baseHasLimits( self, fitindex=None ) :
+        """ True when all (fitted) parameters of this model have limits. """
+        if fitindex is None :
+            fitindex = range( self.npbase )
         try :
-            return self.model.getPrior( kpar )
+            return all( [self.getPrior( k ).hasLimits() for k in fitindex if k < self.npbase] )
         except IndexError :
-            k = self.select[kpar] % self.nmp
-#            print( k, self.expandindex[kpar], self.nmp, self.select[kpar] )
-            return self.model.getPrior( k )
+            return False
 
 
-- 
2.43.0


From 7cccfcd6c7916a09ed429d2690121c2045edcf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 38/44] fix: RepeatingModel: setPrior further in the chain;
 hasLimits knows the limits of the repeated model

---
 BayesicFitting/source/RepeatingModel.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/RepeatingModel.py b/BayesicFitting/source/RepeatingModel.py
index 6dd68ec..3075b02 100644
--- a/BayesicFitting/source/RepeatingModel.py
+++ b/BayesicFitting/source/RepeatingModel.py
@@ -465,7 +465,9 @@ class RepeatingModel( Model, Dynamic ):
             When more Priors are set than fit inside the repeated model
 
         """
-        if kpar < self.model.npars :
+        if kpar >= self.npbase and self._next is not None :
+            self._next.setPrior( kpar - self.npbase, prior=prior, **kwargs )
+        elif kpar < self.model.npars :
             self.model.setPrior( kpar, prior=prior, **kwargs )
         else :
             raise IndexError( "RepeatingModel cannot have more priors than %s" %
@@ -474,6 +476,12 @@ class RepeatingModel( Model, Dynamic ):
     def baseHasPriors( self, isBound=True ) :
         return self.model.hasPriors( isBound=isBound )
 
+    def baseHasLimits( self, fitindex=None ) :
+        """ Limits are stored in the repeated model """
+        if fitindex is not None :
+            fitindex = [self.par2model( k )[0] for k in fitindex if k < self.npbase]
+        return self.npbase == 0 or self.model.hasLimits( fitindex=fitindex )
+
     def basePrior( self, kpar ):
         """
         Return the prior for parameter with index kpar.
-- 
2.43.0


From 94cdc077229508a38d9444663dc1beee68956abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 39/44] fix: FootballModel: priors of next models in the chain
 are not shadowed

---
 BayesicFitting/source/FootballModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/FootballModel.py b/BayesicFitting/source/FootballModel.py
index ad80153..3b0d32d 100644
--- a/BayesicFitting/source/FootballModel.py
+++ b/BayesicFitting/source/FootballModel.py
@@ -129,7 +129,7 @@ class FootballModel( NonLinearModel ):
         """ Copy method.  """
         return FootballModel( self.nteams, complexity=self.complexity, copy=self )
 
-    def getPrior( self, k ) :
+    def basePrior( self, k ) :
         """
         Return the prior of the parameter, indicated by k modulo the complexity
 
@@ -138,7 +138,7 @@ class FootballModel( NonLinearModel ):
         k : int
             parameter number.
         """
-        return self.basePrior( k % self.complexity )
+        return super( ).basePrior( k % self.complexity )
         
 
     def __setattr__( self, name, value ):
-- 
2.43.0


From 7b8b1dd86e01683c90e6ab31fce5f5a3d21a31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 40/44] fix: FixedModel: names of parameters of a model that
 replaces a parameter

---
 BayesicFitting/source/FixedModel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 6521428..b5c0877 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -221,9 +221,7 @@ class FixedModel( BaseModel ):
 
         for m in self.mlist :
             mdl = self.fixed[m]
-            while mdl is not None:
-                nms += mdl.parNames
-                mdl = mdl._next
+            nms += [mdl.getParameterName( k ) for k in range( mdl.npchain )]
         return nms
 
     #  *****RESULT**************************************************************
-- 
2.43.0


From 029dba3f9757e92c3eb3e900e1366ecdae2a4a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:46 +0000
Subject: [PATCH 41/44] fix: numeric partials of models with more than one
 output

---
 BayesicFitting/source/FixedModel.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index b5c0877..9cdbc0c 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -325,27 +325,27 @@ class FixedModel( BaseModel ):
             list of indices active parameters (or None for all)
 
         """
-        nxdata = Tools.length( xdata )
-        partial = numpy.zeros( ( nxdata, self.npbase ), dtype=float  )
         dpg = Tools.makeNext( self.deltaP, 0 )
 
         par = params.copy()
         if parlist is None :
             parlist = numpy.arange( self.npbase )
 
+        dfdp = numpy.zeros( ( len( parlist ), Tools.length( xdata ) ) +
+                            ( (self.ndout,) if self.ndout > 1 else () ), dtype=float )
         for i, k in enumerate( parlist ) :
             dp = next( dpg )
             par[k] += 0.5 * dp
             r1 = FixedModel.result( self, xdata, par )
             par[k] -= dp
             r2 = FixedModel.result( self, xdata, par )
-            partial[:,i] = ( r1 - r2 ) / dp
+            dfdp[i] = ( r1 - r2 ) / dp
             par[k] = params[k]
         try :
             dpg.close()
         except :
             pass
-        return partial
+        return dfdp.T if self.ndout <= 1 else [df.T for df in numpy.moveaxis( dfdp, 2, 0 )]
 
     def basePartial( self, xdata, param, parlist=None ) :
         """
@@ -367,7 +367,8 @@ class FixedModel( BaseModel ):
         if parlist is None :
             parlist = numpy.arange( self.npmax )
 
-        partial = numpy.zeros( ( Tools.length( xdata ), len( parlist ) ), dtype=float )
+        dfdp = numpy.zeros( ( len( parlist ), Tools.length( xdata ) ) +
+                            ( (self.ndout,) if self.ndout > 1 else () ), dtype=float )
         par = param.copy()
         for i,k in enumerate( parlist ) :
             dp = self.deltaP[min( i, len( self.deltaP ) - 1 )]
@@ -375,10 +376,10 @@ class FixedModel( BaseModel ):
             r1 = self.baseResult( xdata, par )
             par[k] = param[k] - 0.5 * dp
             r2 = self.baseResult( xdata, par )
-            partial[:,i] = ( r1 - r2 ) / dp
+            dfdp[i] = ( r1 - r2 ) / dp
             par[k] = param[k]
 
-        return partial
+        return dfdp.T if self.ndout <= 1 else [df.T for df in numpy.moveaxis( dfdp, 2, 0 )]
 
     def baseDerivative( self, xdata, param ) :
         """
-- 
2.43.0


From b4cd358cbd9a5348835ba39882a0b8ca6378b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:39 +0000
Subject: [PATCH 42/44] fix: evaluate the spline, Pade and harmonic models and
 all numeric derivatives properly at integer xdata

---
 BayesicFitting/source/BasicSplinesModel.py |  6 +++---
 BayesicFitting/source/FixedModel.py        |  8 ++++----
 BayesicFitting/source/HarmonicModel.py     |  2 +-
 BayesicFitting/source/Model.py             |  6 +++---
 BayesicFitting/source/PadeModel.py         | 24 +++++++++++-----------
 5 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/BayesicFitting/source/BasicSplinesModel.py b/BayesicFitting/source/BasicSplinesModel.py
index 5c29846..843af14 100644
--- a/BayesicFitting/source/BasicSplinesModel.py
+++ b/BayesicFitting/source/BasicSplinesModel.py
@@ -469,7 +469,7 @@ class BasicSplinesModel( SplinesModel ):
         x2k = self.makeKnotIndices( xdata )
 
         pa = numpy.inner( self.basis, params )
-        res = numpy.zeros_like( xdata )
+        res = numpy.zeros_like( xdata, dtype=float )
         for k, kn in enumerate( self.knots[:-1] ) :
             q = numpy.where( x2k == k )
             xc = xdata[q] - kn
@@ -546,7 +546,7 @@ class BasicSplinesModel( SplinesModel ):
         poly : PolynomialModel
             model to calculate the splines
         """
-        blob = numpy.zeros_like( xdata )
+        blob = numpy.zeros_like( xdata, dtype=float )
 
         kn = self.knots[:-1]
         for k, kn in enumerate( self.knots[:-1] ) :
@@ -569,7 +569,7 @@ class BasicSplinesModel( SplinesModel ):
             parameters to the model
 
         """
-        dfdx = numpy.zeros_like( xdata )
+        dfdx = numpy.zeros_like( xdata, dtype=float )
         if self.order == 0 :
             return dfdx
 
diff --git a/BayesicFitting/source/FixedModel.py b/BayesicFitting/source/FixedModel.py
index 9cdbc0c..1a33ebd 100644
--- a/BayesicFitting/source/FixedModel.py
+++ b/BayesicFitting/source/FixedModel.py
@@ -449,9 +449,9 @@ class FixedModel( BaseModel ):
 
         ## More dimensional input; one output
         if self.ndout == 1 :
-            df = numpy.zeros_like( xdata )
+            df = numpy.zeros_like( xdata, dtype=float )
             for i in range( self.ndim ) :
-                x = xdata.copy()
+                x = numpy.array( xdata, dtype=float )
                 x[:,i] += dx
                 r1 = FixedModel.result( self, x, param )
                 x[:,i] -= 2 * dx
@@ -462,9 +462,9 @@ class FixedModel( BaseModel ):
         ## more dimensional input and output
         dfdx = []
         for k in range( self.ndout ) :
-            df = numpy.zeros_like( xdata )
+            df = numpy.zeros_like( xdata, dtype=float )
             for i in range( self.ndim ) :
-                x = xdata.copy()
+                x = numpy.array( xdata, dtype=float )
                 x[:,i] += dx
                 r1 = FixedModel.result( self, x, param )
                 x[:,i] -= 2 * dx
diff --git a/BayesicFitting/source/HarmonicModel.py b/BayesicFitting/source/HarmonicModel.py
index 535f2e4..f667a09 100644
--- a/BayesicFitting/source/HarmonicModel.py
+++ b/BayesicFitting/source/HarmonicModel.py
@@ -166,7 +166,7 @@ class HarmonicModel( LinearModel ):
             parameters of the model.
 
         """
-        df = numpy.zeros_like( xdata )
+        df = numpy.zeros_like( xdata, dtype=float )
         tp = 2 * math.pi / self.period
         x = tp * xdata
         j = 0
diff --git a/BayesicFitting/source/Model.py b/BayesicFitting/source/Model.py
index aff871f..a6658ea 100644
--- a/BayesicFitting/source/Model.py
+++ b/BayesicFitting/source/Model.py
@@ -1716,14 +1716,14 @@ class Model( FixedModel ):
 
         ## More dimensions in xdata
         if self.lastndout == 1 :
-            df = numpy.zeros_like( xdata )
+            df = numpy.zeros_like( xdata, dtype=float )
             assignDF = self.assignDF1
         else :
-            df = [ numpy.zeros_like( xdata ) for k in range( self.lastndout ) ]
+            df = [ numpy.zeros_like( xdata, dtype=float ) for k in range( self.lastndout ) ]
             assignDF = self.assignDF2
 
         for i in range( self.ndim ) :
-            x = xdata.copy()
+            x = numpy.array( xdata, dtype=float )
             
             x[:,i] += dx
             r1 = self.result( x, param )
diff --git a/BayesicFitting/source/PadeModel.py b/BayesicFitting/source/PadeModel.py
index e7b7cfc..ad8bfff 100644
--- a/BayesicFitting/source/PadeModel.py
+++ b/BayesicFitting/source/PadeModel.py
@@ -156,16 +156,16 @@ class PadeModel( NonLinearModel ):
             parameters for the model.
 
         """
-        nm = numpy.zeros_like( xdata )
-        xx = numpy.ones_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
+        xx = numpy.ones_like( xdata, dtype=float )
         k = 0
         while k <= self.num :
             nm += params[k] * xx
             xx *= xdata
             k += 1
 
-        dn = numpy.zeros_like( xdata )
-        xx = numpy.ones_like( xdata )
+        dn = numpy.zeros_like( xdata, dtype=float )
+        xx = numpy.ones_like( xdata, dtype=float )
         while k < self.npmax :
             dn += params[k] * xx
             xx *= xdata
@@ -191,7 +191,7 @@ class PadeModel( NonLinearModel ):
         partial = numpy.zeros( ( nxdata, self.npmax ), dtype=float )
 
         xx = numpy.ones( nxdata )
-        nm = numpy.zeros_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
         k = 0
         while k <= self.num:
             partial[:,k] = xx
@@ -200,7 +200,7 @@ class PadeModel( NonLinearModel ):
             k += 1
 
         xx = numpy.ones( nxdata )
-        dn = numpy.zeros_like( xdata )
+        dn = numpy.zeros_like( xdata, dtype=float )
         while k < self.npmax :
             partial[:,k] = -xx * nm
             dn += params[k] * xx
@@ -232,12 +232,12 @@ class PadeModel( NonLinearModel ):
             parameters for the model.
 
         """
-        nm = numpy.zeros_like( xdata )
-        dn = numpy.zeros_like( xdata )
-        dnm = numpy.zeros_like( xdata )
-        ddn = numpy.zeros_like( xdata )
+        nm = numpy.zeros_like( xdata, dtype=float )
+        dn = numpy.zeros_like( xdata, dtype=float )
+        dnm = numpy.zeros_like( xdata, dtype=float )
+        ddn = numpy.zeros_like( xdata, dtype=float )
 
-        xx = numpy.ones_like( xdata )
+        xx = numpy.ones_like( xdata, dtype=float )
         nm += params[0] * xx
         k = 1
         while k <= self.num:
@@ -246,7 +246,7 @@ class PadeModel( NonLinearModel ):
             nm += params[k] * xx
             k += 1
 
-        xx = numpy.ones_like( xdata )
+        xx = numpy.ones_like( xdata, dtype=float )
         dn += params[k] * xx
         k += 1
         while k < self.npmax :
-- 
2.43.0


From 95dcbc57b381a00bfe4b5d4a75d58085ffaf1e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:10 +0000
Subject: [PATCH 43/44] fix: accept a list of accuracies in the fitters and
 problems

---
 BayesicFitting/source/BaseFitter.py | 2 +-
 BayesicFitting/source/Problem.py    | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/BayesicFitting/source/BaseFitter.py b/BayesicFitting/source/BaseFitter.py
index 60f568e..5455e18 100644
--- a/BayesicFitting/source/BaseFitter.py
+++ b/BayesicFitting/source/BaseFitter.py
@@ -472,7 +472,7 @@ class BaseFitter( object ):
         if  accuracy is not None :
             if not numpy.all( numpy.isfinite( accuracy ) ) :
                 raise ValueError( "Fitter: NaNs or Infs in accuracy" )
-            if not numpy.all( accuracy > 0 ) :
+            if not numpy.all( numpy.greater( accuracy, 0 ) ) :
                 raise ValueError( "Fitter: zeros or negatives in accuracy" )
 
     def __getattr__( self, name ) :
diff --git a/BayesicFitting/source/Problem.py b/BayesicFitting/source/Problem.py
index c8e369a..ca63fa1 100644
--- a/BayesicFitting/source/Problem.py
+++ b/BayesicFitting/source/Problem.py
@@ -184,6 +184,8 @@ class Problem( object ):
             When None the value is set to 0 (for easy computational reasons)
         """
         self.hasAccuracy = accuracy is not None
+        if numpy.ndim( accuracy ) > 0 :
+            accuracy = numpy.asarray( accuracy )
         self.accuracy = accuracy if self.hasAccuracy else 0
         self.varyy = self.accuracy * self.accuracy
 
-- 
2.43.0


From 981ab9d96a97bed8cff01e756b55b29eacd1b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:52 +0000
Subject: [PATCH 44/44] fix: partials per datum of UniformErrorDistribution for
 more than one output

---
 BayesicFitting/source/UniformErrorDistribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BayesicFitting/source/UniformErrorDistribution.py b/BayesicFitting/source/UniformErrorDistribution.py
index 53e9785..dc013c0 100644
--- a/BayesicFitting/source/UniformErrorDistribution.py
+++ b/BayesicFitting/source/UniformErrorDistribution.py
@@ -229,11 +229,11 @@ class UniformErrorDistribution( ScaledErrorDistribution ):
 
         """
         scale = allpars[-1]
-        pll = numpy.zeros_like( problem.ydata )
+        pll = numpy.zeros( problem.ndata, dtype=float )
         if problem.weights is not None :
             wgt = problem.weights
         else :
-            wgt = numpy.ones_like( problem.ydata )
+            wgt = numpy.ones( problem.ndata, dtype=float )
 
         for k in fitIndex :
             if k >= 0 :
-- 
2.43.0

