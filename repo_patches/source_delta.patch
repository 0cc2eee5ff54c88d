From 32e8b96ed5abf677c8d00b45126a8e1167c88447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:29 +0000
Subject: [PATCH 01/75] fix: let linstep/logstep default to the range and
 reject bad grids without side effects

---
 package/inference/pie/realparam.py | 34 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..e211dbb 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -125,17 +125,17 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
-        self.stype = lin_steps
+        # Default to the allowed range; check everything before changing state.
         if lo is None:
-            self.slo = self.lo
-        else:
-            self.slo = lo
+            lo = self.lo
         if hi is None:
-            self.shi = self.hi
-        else:
-            self.shi = hi
+            hi = self.hi
+        delta = (hi-lo)/(n-1.)
+        self.stype = lin_steps
+        self.slo = lo
+        self.shi = hi
         self.steps = n
-        self.delta = (hi-lo)/(n-1.)
+        self.delta = delta
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
@@ -152,19 +152,19 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
+        # Default to the allowed range; check everything before changing state.
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
+        fac = exp(log(hi/lo)/(n-1.))
         self.stype = log_steps
-        if lo:
-            self.slo = lo
-        else:
-            self.slo = self.lo
-        if hi:
-            self.shi = hi
-        else:
-            self.shi = self.hi
+        self.slo = lo
+        self.shi = hi
         self.steps = n
-        self.fac = exp(log(hi/lo)/(n-1.))
+        self.fac = fac
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
-- 
2.43.0


From 4e1b2e2f7676122c55d6038f8fc4502bbc7455a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:29 +0000
Subject: [PATCH 02/75] fix: vary() validates its arguments before changing the
 parameter

---
 package/inference/pie/realparam.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index e211dbb..d768975 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -227,23 +227,28 @@ class RealParamHandler(ScalarParamHandler):
         return self.step_num
 
     def vary(self, start=None, delta=None, range=None):
+        # Check everything before changing state, so a rejected call has no effect.
         if not range:
             if not self.bounded:
                 raise ValueError('Need a range for varying parameter!')
+            lo, hi = self.lo, self.hi
         else:
+            lo, hi = float(min(range)), float(max(range))
+        # *** Perhaps use a default delta (& warn if so)?
+        if delta is None and self.delta is None:
+            raise ValueError('Need a delta for varying parameter!')
+        if start is None:
+            if self._value is None:
+                raise ValueError('Need a start value for varying parameter!')
+        elif not (start >= lo and start <= hi):
+            raise ParamRangeError("Value out of parameter's allowed range!")
+        if range:
             self.range(range)
         if delta is not None:
             self.delta = delta
-        else:  # *** Perhaps use a default delta (& warn if so)?
-            if self.delta == None:
-                raise ValueError('Need a delta for varying parameter!')
         self._set_status(varying)
-        # *** Can harm be done by setting status before verifying
-        # the start value?
-        if start != None:
-            self.set_value(start)  # Note: this will verify in range.
-        elif self._value == None:
-            raise ValueError('Need a start value for varying parameter!')
+        if start is not None:
+            self.set_value(start)
 
     def check(self, percent=1.):
         if self.status != varying:
-- 
2.43.0


From 50c2a389a9d1b01f56680c6b2de31e7c392d5239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:29 +0000
Subject: [PATCH 03/75] fix: set_params() changes nothing when it rejects the
 values

---
 package/inference/pie/inference_base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..a11bc8d 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -338,6 +338,14 @@ class Inference(HasAutoNamed):
         This is valid only if all params are either fixed or varying."""
         # *** Should this just skip stepped params rather than quit?
         # *** Should it check there are no "extras" in the passed pv?
+        # Check everything first, so a rejected call changes no params.
+        for name in self.params:
+            param = getattr(self, name)
+            if param.status not in (fixed, varying):
+                raise ParamError('Use set_params only when params are fixed or varying!')
+            value = getattr(pv, name)
+            if param.bounded and not (value >= param.lo and value <= param.hi):
+                raise ParamRangeError("Value out of parameter's allowed range!")
         for name in self.params:
             param = getattr(self, name)
             if param.status == fixed:
-- 
2.43.0


From 94fb8bf2b2e8cce8631a4c37910133852d9767a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:34 +0000
Subject: [PATCH 04/75] fix: del_listener() removes the listener instead of
 raising

---
 package/inference/pie/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index f8a3113..a427767 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -164,7 +164,7 @@ class ParamHandler(object):
 
     def del_listener(self, listener):
         try:
-            self.listener.remove(listener)
+            self.listeners.remove(listener)
         except ValueError:
             pass
 
-- 
2.43.0


From 3d17c2082a6c7c1fc8b2cb4f739002c23782a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:59 +0000
Subject: [PATCH 05/75] fix: leave the inference at the optimum after
 optimize()

---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index a11bc8d..8d8c442 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -536,6 +536,8 @@ class Inference(HasAutoNamed):
                                              ftol=1.e-3, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # The minimizer's last evaluation need not be at the optimum; go there.
+        extremum = self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
-- 
2.43.0


From be1c91c9878fd68f0f7614e67b7099c66d90dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:59 +0000
Subject: [PATCH 06/75] fix: do_grid() ignores vargrid when no params vary, as
 documented

---
 package/inference/pie/inference_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 8d8c442..cc8a6fa 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -471,7 +471,7 @@ class Inference(HasAutoNamed):
         if self.varying_params:
             results.opt_val = opt_val
             results.opt_ind = opt_ind
-        if vargrid:
+        if vargrid and self.varying_params:
             vresults.opt_ind = opt_ind
             return results, vresults
         else:
-- 
2.43.0


From 40243997fc6c3c774c8aa46db8a1ddf6a1161f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:59 +0000
Subject: [PATCH 07/75] fix: do_grid() covers the whole grid even if stepping
 was under way

---
 package/inference/pie/inference_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index cc8a6fa..93934ef 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -429,6 +429,7 @@ class Inference(HasAutoNamed):
             vresults = VectorGrid(self.stepping_params, self.varying_params)
         opt_val = None
         nstep = 0
+        self.reset_steps()  # cover the whole grid, wherever stepping was left
         # *** Put try/except around score/optimize so we can return a partial
         # grid if there is a failure after successful calculations.
         while True:
-- 
2.43.0


From 38f091bd6524add7ae4cd0901a06694f26d2bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:59 +0000
Subject: [PATCH 08/75] fix: subclasses no longer add their params/predictors
 to the parent class's lists

---
 package/inference/pie/param.py     | 9 +++++----
 package/inference/pie/predictor.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index a427767..bcfcc3a 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -84,11 +84,12 @@ class Param(AutoNamed):
         self.name = name
         self.value_name = '__' + name + '_val'
         self.handler_name = '__' + name + '_hndlr'
-        # Keep a list of param names in the class dict.
-        try:
+        # Keep a list of param names in the class dict, starting with any
+        # inherited names (without touching the parent's list).
+        if 'param_names' not in cls.__dict__:
+            cls.param_names = list(getattr(cls, 'param_names', []))
+        if name not in cls.param_names:
             cls.param_names.append(name)
-        except AttributeError:
-            cls.param_names = [name]
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index be542d3..2710744 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -58,11 +58,12 @@ class Predictor(AutoNamed):
         pielog.debug('Predictor instance in %s is named %s', cls, name)
         self.name = name
         self.handler_name = '__' + name + '_hndlr'
-        # Keep a list of predictor names in the class dict.
-        try:
+        # Keep a list of predictor names in the class dict, starting with any
+        # inherited names (without touching the parent's list).
+        if 'predictor_names' not in cls.__dict__:
+            cls.predictor_names = list(getattr(cls, 'predictor_names', []))
+        if name not in cls.predictor_names:
             cls.predictor_names.append(name)
-        except AttributeError:
-            cls.predictor_names = [name]
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From 1568b97337bba6fefdbb0a3237745aa903f89670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:59 +0000
Subject: [PATCH 09/75] fix: take params and predictors from the class
 definitions instead of scanning source text

---
 package/inference/pie/inference_base.py | 106 +++---------------------
 1 file changed, 11 insertions(+), 95 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 93934ef..e0920c1 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -2,8 +2,6 @@
 Utilities and base class for inferences.
 """
 
-import inspect
-
 from .param import *
 from .autoname import HasAutoNamed
 from .signalmodel import SignalModel, StopStepping
@@ -85,101 +83,19 @@ class Inference(HasAutoNamed):
         # *** Provide hooks for storing state or calculating candidate state
         # before storing it, to facilitate MCMC.
 
-        # Reorder the param names associated with this inference to reflect
-        # the order in the source code (the metaclass will order them in a
-        # shuffled order, the order of keys in the class dict).
-        # First, get the SignalModel and Predictors mixin classes.
-        for cls in self.__class__.__bases__:
-            if SignalModel in cls.__bases__:
+        # Get the params and predictors of the SignalModel and PredictorSet
+        # mixin classes, in the order in which the user defined them (class
+        # dicts are ordered, so that is the order of the classes' name lists).
+        # Note that the PredictorSet mixin class may have params.
+        mixins = [cls for cls in self.__class__.__mro__ if not issubclass(cls, Inference)]
+        for cls in reversed(mixins):  # end with the most derived classes
+            if issubclass(cls, SignalModel):
                 self.signal_class = cls
-            elif PredictorSet in cls.__bases__:
+            elif issubclass(cls, PredictorSet):
                 self.pred_class = cls
-        # Get the names of params and predictors from the mixins.
-        # Get them from source if available, to preserve the order
-        # in which the user defined them.
-        # Be careful gathering params; the PredictorSet mixin class
-        # may have params.
-        try:
-            unordered = self.signal_class.param_names[:]
-            self.params = self._get_signal_names(unordered)
-        except:
-            self.params = []
-        try:
-            unordered = self.pred_class.param_names[:]
-        except:
-            unordered = []
-        oparams, self.predictors = self._get_pred_names(unordered)
-        self.params.extend(oparams)
-        # Make sure params are unique; i.e., that the Predictors class
-        # hasn't duplicated a param name.
-        if len(set(self.params)) != len(self.params):
-            raise InferenceError('A parameter name is duplicated within this inference!')
-
-    def _get_signal_names(self, signal_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.signal_class)[0]
-            for line in source:
-                line = line.strip()
-                for param in signal_params:
-                    # *** Use a regexp here to match any white space b/4 '='.
-                    if line.startswith(param+' =') or line.startswith(param+'='):
-                        oparams.append(param)
-                        signal_params.remove(param)
-            if signal_params != []:
-                raise InferenceError('Some params not defined in SignalModel source!')
-        except IOError:  # Only in the unlikely event of interactive model def'n
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names
-        except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names
-        return oparams
-
-    def _get_pred_names(self, pred_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.pred_class)[0]
-            if pred_params:
-                for line in source:
-                    line = line.strip()
-                    for param in pred_params:
-                        if line.startswith(param+' =') or line.startswith(param+'='):
-                            oparams.append(param)
-                            pred_params.remove(param)
-                if pred_params != []:
-                    raise InferenceError('Some params not defined in Predictors source!')
-            # Now do the same to get the Predictor order.
-            opreds = []
-            preds = self.pred_class.predictor_names[:]
-            for line in source:
-                line = line.strip()
-                for pred in preds:
-                    if line.startswith(pred+' =') or line.startswith(pred+'='):
-                        opreds.append(pred)
-                        preds.remove(pred)
-            if preds != []:
-                raise InferenceError('Some Predictor(s) not defined in Predictors source!')
-        except IOError:  # Only in the unlikely event of interactive pred. def'n
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        return oparams, opreds
+        self.params = list(getattr(self.signal_class, 'param_names', []))
+        self.params.extend(getattr(self.pred_class, 'param_names', []))
+        self.predictors = list(getattr(self.pred_class, 'predictor_names', []))
         # Make sure params are unique; i.e., that the Predictors class
         # hasn't duplicated a param name.
         if len(set(self.params)) != len(self.params):
-- 
2.43.0


From 3fde42708321d6e01aac35626763c25d25e8276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:25 +0000
Subject: [PATCH 10/75] fix: MinBracket stops on a flat function instead of
 looping for ever

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 7dbd9e2..a389b9a 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -20,7 +20,7 @@ class MinBracket:
         self.x2 = self.xm + GOLD*(self.xm - self.x1)
         self.f2 = f(self.x2)
         while 1:
-            if (self.fm < self.f2):
+            if (self.fm <= self.f2):  # stop if flat, too
                 break
             d1 = (self.xm - self.x1)
             d2 = (self.xm - self.x2)
-- 
2.43.0


From 262f832ff6e43678fec8d21cb0e1e1ade5d4bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:08 +0000
Subject: [PATCH 11/75] fix: mapped fits work from a bound and never leave the
 allowed range

---
 package/inference/pie/inference_base.py |  2 +-
 package/inference/pie/realparam.py      | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index e0920c1..1836404 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -431,7 +431,7 @@ class Inference(HasAutoNamed):
                 except ParamRangeError:
                     param.set_value(v-param.delta)
                     uv2 = param._unbounded_get_value()
-                    d.append(uv-uv2)
+                    d.append(uv2-uv)
                 param.set_value(v)
                 p.append(uv)
         else:
diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index d768975..809a8ae 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -265,13 +265,12 @@ class RealParamHandler(ScalarParamHandler):
         if not self.bounded:
             raise ValueError('No bounds defined for parameter!')
         else:
-            # Handle roundoff error near boundaries.
-            # *** Make the constants platform-independent.
-            # if self._value <= self.lo:
-            # return -1.e-323
-            # elif self._value >= self.hi:
-            # return 1.e308
-            # else:
+            # Keep boundary values finite; 40 is as close to a boundary as
+            # roundoff can resolve.
+            if self._value <= self.lo:
+                return -40.
+            elif self._value >= self.hi:
+                return 40.
             return log(self._value-self.lo) - log(self.hi-self._value)
 
     def _unbounded_set_value(self, uvalue):
@@ -293,7 +292,8 @@ class RealParamHandler(ScalarParamHandler):
                 # Use _set_value, since this should be in range.  In fact,
                 # I've found just-barely out-of-range results (presumably due
                 # to roundoff at limits) that trigger exceptions using set_value.
-                self._set_value((self.lo + self.hi*expv)/(1. + expv))
+                value = (self.lo + self.hi*expv)/(1. + expv)
+                self._set_value(min(max(value, self.lo), self.hi))
 
     def show(self):
         """Return a string containing the name, value, and doc for the param."""
-- 
2.43.0


From 71813903dfe7bfd8599aa721158376a8306d4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:40 +0000
Subject: [PATCH 12/75] fix: optimize() honours the minimization tolerance

---
 package/inference/pie/inference_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 1836404..1201ccc 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -413,6 +413,7 @@ class Inference(HasAutoNamed):
         if tol is None:
             if self.min_tol is None:
                 raise InferenceError('No minimization tolerance has been specified!')
+            tol = self.min_tol
         # Most methods require a vector of starting param values and
         # a scale for each; collect this info here (transformed if necessary).
         p, d = [], []
@@ -450,7 +451,7 @@ class Inference(HasAutoNamed):
             # subspace.
             dd = 0.2 * identity(len(d)) * array(d, float)
             params, extremum, extra = powell(self._score, params[:], drxns=dd,
-                                             ftol=1.e-3, maxit=200, shuffle=True)
+                                             ftol=tol, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
         # The minimizer's last evaluation need not be at the optimum; go there.
-- 
2.43.0


From 6a068d80b71a001251be90008d89dc616bf43291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 13/75] fix: accept data as one table or a list of rows, and
 vector locations

---
 package/inference/pie/gaussian.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..7c177c5 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -247,7 +247,7 @@ class SampledGaussian(Predictor):
         with each tuple of the form (locn, value, sigma) for a datum.
         """
         if len(args) == 3:
-            self._locns, self._vals, self._sigmas = args
+            self._locns, self._vals, self._sigmas = [array(arg, float) for arg in args]
             if len(self._locns) != len(self._vals) or \
             len(self._vals) != len(self._sigmas):
                 raise DataError('Mismatch in lengths of arguments!')
@@ -255,9 +255,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = array(all[:,0], float)
+                self._vals = array(all[:,1], float)
+                self._sigmas = array(all[:,2], float)
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -268,9 +268,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns, float)
+                self._vals = array(self._vals, float)
+                self._sigmas = array(self._sigmas, float)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -279,6 +279,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From e09f66c9c22683b7a2849443c52fdbe669f4b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 14/75] fix: sim() accepts arrays of locns/sigmas, copies them
 and updates ndata

---
 package/inference/pie/gaussian.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 7c177c5..43e8a54 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -108,21 +108,21 @@ class SampledGaussianHandler(PredictorHandler):
         number of data.  If both are present, the number of data can be
         different than that in the original data set.
         """
+        # Use copies, so later changes don't affect the caller's arrays.
+        if locns is not None:
+            locns = array(locns, float)
+        if sigmas is not None:
+            sigmas = array(sigmas, float)
+        n = self.ndata if locns is None else len(locns)
+        if n != (self.ndata if sigmas is None else len(sigmas)):
+            raise ValueError('locns/sigmas length mismatch!')
         self.changing_data()
         # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
-            if len(locns) != len(sigmas):
-                raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
-            if len(locns) != self.ndata:
-                raise ValueError('Incorrect number of locns!')
+        if locns is not None:
             self.locns = locns
-        elif sigmas:
-            if len(sigmas) != self.ndata:
-                raise ValueError('Incorrect number of sigmas!')
+        if sigmas is not None:
             self.sigmas = sigmas
+        self.ndata = n
         self.get_prdxns()
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
-- 
2.43.0


From d17f5df9bc1e56f4c0c171aa6552bda2ca8189a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:05 +0000
Subject: [PATCH 15/75] fix: sim1() no longer ignores a location at zero

---
 package/inference/pie/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 43e8a54..798bb66 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -138,10 +138,10 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
+        if locn is not None:
             # *** Verify locn dimension!
             self.locns[n] = locn
-        if sigma:
+        if sigma is not None:
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
-- 
2.43.0


From d537c39806f8b14070790b4fca22d07dd986eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:54 +0000
Subject: [PATCH 16/75] fix: add_sim() simulates the additional data and counts
 them once

---
 package/inference/pie/gaussian.py | 33 +++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 798bb66..624806f 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -157,28 +157,23 @@ class SampledGaussianHandler(PredictorHandler):
         If arrays are passed as locns & sigmas, simulate the appropriate
         mutiple additional data.
         """
+        if locn is not None and sigma is not None:
+            locns, sigmas = (locn,), (sigma,)
+        elif locns is None or sigmas is None:
+            raise ValueError('Need both the location(s) and sigma(s)!')
+        if len(locns) != len(sigmas):
+            raise ValueError('locns/sigmas length mismatch!')
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
-            self.locns = concatenate( (self.locns, (locn,)) )
-            self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
-            if len(locns) != len(sigmas):
-                raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
-            self.locns = concatenate( (self.locns, locns) )
-            self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
-        if len(self.locns.shape) == 1:
-            self.dimen = 1
-        elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
-        else:
-            raise DataError('Locations should be scalars or 1-d arrays!')
-        # Update predictions.
+        n = self.ndata
+        self.ndata += len(locns)
+        self.locns = concatenate( (self.locns, locns) )
+        self.sigmas = concatenate( (self.sigmas, sigmas) )
+        # Update predictions and sample the new data via Gaussians.
         self.get_prdxns()
-        
+        new = self.prdxns[n:] + self.sigmas[n:]*stdnorm.rvs(self.ndata-n)
+        self.vals = concatenate( (self.vals, new) )
+
 
 # *** Add method to restore to original (not simulated) data?
 # May have to allow explicit caching to define "original" data
-- 
2.43.0


From 80871dfdcf7c9cc4983cb1ea4309d48c6388c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 17/75] fix: stores open archives named with their suffix

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From be93751056577f64617cba1aa047e49f47d4e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 18/75] fix: contents() of a store lists names, each once

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From fd78bf790d761d9598b7cac987d3951977326cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 19/75] fix: AttrStore.save() touches no file if the attributes
 cannot be pickled

---
 package/inference/utils/ioutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..0446ae8 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -323,8 +323,9 @@ class AttrStore(object):
         for name, val in list(self._new.items()):
             attrs[name] = val
         # Backup any existing file, and save the attrs to a new file.
+        pickled = pkl.dumps(attrs, -1)  # use highest protocol
         ofile = safe_open(fname, 'b')
-        pkl.dump(attrs, ofile, -1)  # use highest protocol
+        ofile.write(pickled)
         ofile.close()
 
     def contents(self):
-- 
2.43.0


From f8e79425509b6bf90ca828296b3c5e2ffc285cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 20/75] fix: ArrayStore saves arrays named 'file' and reloads
 object arrays

---
 package/inference/utils/ioutils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0446ae8..3c6782b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,9 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import ndarray, savez, load
+from zipfile import ZipFile
+from numpy import ndarray, load
+from numpy.lib.format import write_array
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
@@ -109,7 +111,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-            self._npz = load(fname)
+            self._npz = load(fname, allow_pickle=True)
         else:
             self._npz = None
         self._fname = fname
@@ -191,7 +193,11 @@ class ArrayStore(object):
             arrays[name] = val
         # Backup any existing file, and save the arrays to a new file.
         backup(fname)
-        savez(fname, **arrays)
+        # (NumPy's savez cannot save an array named 'file'.)
+        with ZipFile(fname, 'w') as npz:
+            for name, val in arrays.items():
+                with npz.open(name + '.npy', 'w', force_zip64=True) as ofile:
+                    write_array(ofile, val)
 
     def contents(self):
         """
-- 
2.43.0


From 9d2738ee044627e03572433b27153cfd4aaea883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 21/75] fix: safe_open() passes keyword arguments to the opener

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3c6782b..9796857 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -35,10 +35,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From f259afcb08a0e06424ff39036a9d0e798a00cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 22/75] fix: save and restore the whole RNG state, in binary
 files

---
 package/inference/utils/rng.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..8c4a341 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,8 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        # (ID, (key, pos, has_gauss, cached_gaussian)) for MT
+        id, state = state[0], state[1:]
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -24,7 +25,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +36,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
@@ -43,7 +44,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0


From 1d5058f4a072f5041f72ff87eb33157071b7d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:26 +0000
Subject: [PATCH 23/75] fix: LabeledMaxList honours a dynamic range of 1

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..3c03198 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -99,7 +99,7 @@ class LabeledMaxList:
                 del self.list[self.nmax]
 
         # Check the dynamic range spanned by list members if necessary.
-        if self.dynrange:
+        if self.dynrange is not None:
             top = self.list[0][0]
             i = lo        # We must start at lo in case we inserted at the end.
             while i < len(self.list):
-- 
2.43.0


From fad7035d03629884ff3e839079e4316fdbe317bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:26 +0000
Subject: [PATCH 24/75] fix: limiting the range of an empty list of maxima does
 nothing

---
 package/inference/grid/grid1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 3c03198..cca583d 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -114,6 +114,8 @@ class LabeledMaxList:
         quantity of interest."""
 
         logrange = log(dynrange)
+        if not self.list:
+            return
         top = self.list[0][0]
         i = 1
         while i < len(self.list):
-- 
2.43.0


From e102f7a84a161869ccba715138539e65cb0669e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:47 +0000
Subject: [PATCH 25/75] fix: refine reverse-sense interval lists over the
 requested range

---
 package/inference/grid/grid1d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index cca583d..907a9e8 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -283,8 +283,7 @@ class RefinedIntervalList1D:
             lo = max(lo, self.lo)
             hi = min(hi, self.hi)
         else:
-            lo = max(hi, self.lo)
-            hi = min(lo, self.hi)
+            lo, hi = max(hi, self.lo), min(lo, self.hi)
         if hi <= lo:
             raise ValueError("Interval does not overlap base interval!")
 
-- 
2.43.0


From 8c35003da7f0bfb53f19477dc3eb25c8c4110aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:47 +0000
Subject: [PATCH 26/75] fix: refined intervals of a log list are log intervals

---
 package/inference/grid/grid1d.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 907a9e8..ff047a3 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -183,6 +183,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
@@ -218,6 +219,7 @@ class RefinedIntervalList1D:
                 raise ValueError("Zero boundary for log interval!")
         else:
             raise ValueError("Interval stype must be Lin or Log!")
+        self.stype = stype
         self.base = BasicInterval(self.lo, self.hi, n, stype=stype)
 
         # Initialize the list with the base interval.
@@ -309,9 +311,8 @@ class RefinedIntervalList1D:
         hi_int = int_hi.locate(hi)  # returns (i, lo, hi) of grid point pair
         if hi != hi_int[1]:  # if not lo, it's within the grid space; set to hi
             hi = hi_int[2]
-        # Test if resolved.  Use lo_int rather than hi_int, because if
-        # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        # Test if resolved.
+        if 5*step > int_lo.step:  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
@@ -324,12 +325,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, BasicInterval(lo, hi, n, self.stype))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m, self.stype))
             self.merge()
             return
 
@@ -339,19 +340,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -382,7 +383,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, BasicInterval(lo, hi, n, self.stype))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
-- 
2.43.0


From f1e21411d21f8891b71d6a18ee90e3f026d9a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:05 +0000
Subject: [PATCH 27/75] fix: interval endpoints are located without roundoff

---
 package/inference/grid/grid1d.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index ff047a3..b817b47 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -161,18 +161,23 @@ class BasicInterval:
     def locate(self, x):
         """Locate x in the interval, returning the subinterval
         number and endpoints (i, l, h).  This assumes x is
-        in fact in the interval.  If x=hi, then i=n, and l=h=hi."""
+        in fact in the interval.  If x=hi, then i=n-1, and l=h=hi."""
 
+        # Be exact at the right endpoint, whatever the roundoff.
+        if x >= self.hi:
+            return (self.n-1, self.hi, self.hi)
         if self.isLin:
             i = int(floor((x-self.lo)/self.step))
+            i = min(i, self.n-2)
             l = self.lo + i*self.step
             h = l + self.step
         else:
             i = int(floor(log(x/self.lo)/self.step))
+            i = min(i, self.n-2)
             l = self.lo * exp(i*self.step)
             h = l * self.fac
-        if (i == self.n-1):
-            h = l
+        if (i == self.n-2):
+            h = self.hi
         return (i, l, h)
 
     def resample(self, n):
-- 
2.43.0


From 5d7b4684574561f2e7e83bfa90d14175a3a69b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:05 +0000
Subject: [PATCH 28/75] fix: splitting an interval at one of its points keeps
 its other points

---
 package/inference/grid/grid1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index b817b47..680e723 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -276,10 +276,12 @@ class RefinedIntervalList1D:
     def _numPts(self, lo, hi, step):
         """Calculate the step size for a candidate inserted interval."""
 
+        # Don't add a point when the range is a multiple of the step apart
+        # from roundoff.
         if self.isLin:
-            return int(ceil((hi-lo)/step)) + 1
+            return int(ceil((hi-lo)/step - 1.e-6)) + 1
         else:
-            return int(ceil(log(hi/lo)/step)) + 1
+            return int(ceil(log(hi/lo)/step - 1.e-6)) + 1
 
     def update(self, lo, hi, n):
         """Update the interval list to include a new interval."""
-- 
2.43.0


From 45f7e36fb093242bd78c66419a2e5d44d0fe0f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:08 +0000
Subject: [PATCH 29/75] fix: evaluate and report grids exactly at their right
 endpoint

---
 package/inference/grid/grid1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 680e723..d17f4a0 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -523,7 +523,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
@@ -657,7 +657,9 @@ class BasicGrid1D:
         # Get abscissa value, using a stored value if available.  If the ordinates
         # have been calculated, get the ordinate; otherwise use None.
         if (self.absc is None):
-            if self.isLin:
+            if i == self.n-1:  # as in stepfunc
+                x = self.hi
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From e4e75d44f6a992d65a0047eac0d01c14c20650ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:08 +0000
Subject: [PATCH 30/75] fix: vecfunc() records maxima in an empty list of
 maxima

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index d17f4a0..b005784 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -604,7 +604,7 @@ class BasicGrid1D:
 
         # Now look for local maxima, with special treatment for
         # possible "half peaks" at the ends.
-        if self.lml:
+        if self.lml is not None:
             for i in range(2,self.n):
                 if self.valSeq:
                     y3 = self.vals[i-2:i+1, select]
-- 
2.43.0


From ecd7b78ccbd853f418ab50edd3c8933b3faba2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:08 +0000
Subject: [PATCH 31/75] fix: iterate over the points of a Grid1D

---
 package/inference/grid/grid1d.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index b005784..f13a514 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -881,13 +881,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(len(self)):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
-- 
2.43.0


From 3276d43b1c537f6d143e02088137de929a8e156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:08 +0000
Subject: [PATCH 32/75] fix: Grid1D.logtrapzd_mom() without moments returns the
 log integral

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index f13a514..2aba6ea 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -974,7 +974,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From 640e1f69ee12195f2178c3054f18339cd3323dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:08 +0000
Subject: [PATCH 33/75] fix: firstpass() starts afresh when a grid is reused

---
 package/inference/grid/grid1d.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 2aba6ea..c844829 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -520,6 +520,8 @@ class BasicGrid1D:
         The notify parameter allows monitoring of progress."""
 
         x1, x2 = None, None
+        self.valSeq = None
+        self.absc = None
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
@@ -887,6 +889,12 @@ class Grid1D:
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
 
+        # Forget any previous function's maxima and refinements.
+        base = self.base
+        del self.lml.list[:]
+        self.ilist = RefinedIntervalList1D(base.lo, base.hi, base.n, self.stype)
+        self.totpts = base.n
+        self.glist = [base]
         self.func = f
         self.select = select
         self.base.stepfunc(f, select=select, notify=notify)
-- 
2.43.0


From c87063113bcd3e577102575e544b903d7e97c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 34/75] fix: calculating moments leaves the grid points as they
 are

---
 package/inference/grid/grid1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index c844829..4afe778 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -767,6 +767,7 @@ class BasicGrid1D:
                 self.absc = self.lo + self.step*fromfunction(lambda i: i, [self.n])
             else:
                 self.absc = self.lo * exp(self.step*fromfunction(lambda i: i, [self.n]))
+            self.absc[-1] = self.hi  # avoid roundoff error at endpoint
         w = self.absc[1:] - self.absc[:-1]
 
         # Pick out the values to use if we have a grid of tuples.
-- 
2.43.0


From eed82a6a8a0e81250368736aabde75f54a29155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 35/75] fix: xvalues() never writes beyond its list of
 crossings

---
 package/inference/grid/_gridquad.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..349021d 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -102,6 +102,10 @@ cf2py intent(out) xvals, nx, ok
 	do 20 i=1, n-1
 	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
-- 
2.43.0


From b3a38c54c4ac989695f6ed2832195c300018c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 36/75] fix: xvalues() finds crossings that fall on a grid
 point

---
 package/inference/grid/_gridquad.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 349021d..d99ad26 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -100,7 +100,7 @@ cf2py intent(out) xvals, nx, ok
 	ok = .true.
 	nx = 0
 	do 20 i=1, n-1
-	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
+	    if (yarr(i) .le. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
@@ -108,7 +108,7 @@ cf2py intent(out) xvals, nx, ok
 	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
-	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
+	    else if (yarr(i+1) .le. ycrit .and. yarr(i) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
-- 
2.43.0


From 368d2b2cb230ac441df80097a5032eded5e4d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 37/75] fix: HPD boundaries next to zero density (log density
 -inf) are not NaN

---
 package/inference/grid/_gridquad.f | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index d99ad26..8dce1f9 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -106,16 +106,16 @@ cf2py intent(out) xvals, nx, ok
 	            ok = .false.
 	            return
 	        endif
-	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
-     *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
+	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) /
+     *            (1. + (yarr(i+1) - ycrit) / (ycrit - yarr(i)))
 	    else if (yarr(i+1) .le. ycrit .and. yarr(i) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
 	            return
 	        endif
-	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
-     *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
+	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) /
+     *            (1. + (yarr(i+1) - ycrit) / (ycrit - yarr(i)))
 	    endif
 20	continue
 
-- 
2.43.0


From 81ae014bed8a6b4d1a11ab8f53dcf0936b537a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 38/75] fix: the HPD normalisation includes cells where the
 density is flat at its minimum

---
 package/inference/grid/hpd.py     | 4 ++--
 package/inference/grid/hpdgrid.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..82b5833 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -128,7 +128,7 @@ class HPD1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -243,7 +243,7 @@ class HPD2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..fedcb7c 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -137,7 +137,7 @@ class HPDGrid1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -261,7 +261,7 @@ class HPDGrid2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
-- 
2.43.0


From 591c3718c74c9fd6a98e43e0f0e8bf938d589680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 39/75] fix: find HPD regions of densities with little contrast

---
 package/inference/grid/hpd.py     | 14 ++++++--------
 package/inference/grid/hpdgrid.py | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 82b5833..b00bf15 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -165,11 +165,10 @@ class HPD1D(object):
             p = sig2prob(1, snsig)
         else:
             lr1 = log(prob2ratio(1, p))
-        # Use the guess to bracket the solution and then solve.
-        lr2 = lr1 - 0.1
-        # print 'Guesses:', lr1, lr2
+        # Use the guess to bracket the solution and then solve.  No density is
+        # above the mode, so log ratio 0 is always at one end of a bracket.
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        lr1, lr2 = zbracket(self._diff, 0., lr1)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
@@ -271,11 +270,10 @@ class HPD2D(object):
         else:
             lr1 = log(prob2ratio(1, p))
         p = float(p)  # Otherwise it may be a scalar array.
-        # Use this to bracket the solution and then solve.
-        lr2 = lr1 - 0.1
-        # print 'Guesses:', lr1, lr2
+        # Use this to bracket the solution and then solve.  No density is
+        # above the mode, so log ratio 0 is always at one end of a bracket.
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        lr1, lr2 = zbracket(self._diff, 0., lr1)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index fedcb7c..f7cf515 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -175,11 +175,10 @@ class HPDGrid1D(object):
         else:
             lr1 = log(prob2ratio(1, p))
         # p = float(p)  # Old workaround for a now-fixed scalar array bug.
-        # Use the guess to bracket the solution and then solve.
-        lr2 = lr1 - 0.1
-        # print 'Guesses:', lr1, lr2
+        # Use the guess to bracket the solution and then solve.  No density is
+        # above the mode, so log ratio 0 is always at one end of a bracket.
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        lr1, lr2 = zbracket(self._diff, 0., lr1)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
@@ -289,11 +288,10 @@ class HPDGrid2D(object):
         else:
             lr1 = log(prob2ratio(1, p))
         p = float(p)  # Otherwise it may be a scalar array.
-        # Use this to bracket the solution and then solve.
-        lr2 = lr1 - 0.1
-        # print 'Guesses:', lr1, lr2
+        # Use this to bracket the solution and then solve.  No density is
+        # above the mode, so log ratio 0 is always at one end of a bracket.
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        lr1, lr2 = zbracket(self._diff, 0., lr1)
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-- 
2.43.0


From 3ab9335146785d7c497a6fe418f7289b6b30454c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 40/75] fix: HPD levels and boundaries on log grids refer to
 p(log x)

---
 package/inference/grid/hpd.py     | 21 ++++++++++-----------
 package/inference/grid/hpdgrid.py | 25 ++++++++++++-------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index b00bf15..dc56eb6 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -121,12 +121,12 @@ class HPD1D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid step type!')
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
+        self.gridpdf = logpdf
         if not self.linstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i] = self.spdf[i]*x
+            self.gridpdf = logpdf + log(self.xvals)
+        self.max = self.gridpdf.max()
+        self.spdf = exp(self.gridpdf-self.max)  # scaled PDF
         # Find the overall normalization for spdf.
         self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -176,7 +176,7 @@ class HPD1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, self.gridpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
@@ -232,15 +232,14 @@ class HPD2D(object):
             self.dy = log(yhi/ylo)/(self.ny-1)
         else:
             raise ValueError('Invalid ystep type!')
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # For log steps, change variables to log(x or y).
+        self.gridpdf = logpdf
         if not self.xlinstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i,:] = self.spdf[i,:]*x
+            self.gridpdf = self.gridpdf + log(self.xvals)[:,None]
         if not self.ylinstep:
-            for j, y in enumerate(self.yvals):
-                self.spdf[:,j] = self.spdf[:,j]*y
+            self.gridpdf = self.gridpdf + log(self.yvals)
+        self.max = self.gridpdf.max()
+        self.spdf = exp(self.gridpdf-self.max)  # Scaled PDF
         # Find the overall normalization for spdf.
         self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index f7cf515..e7afef3 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -130,12 +130,12 @@ class HPDGrid1D(object):
         for i, x in enumerate(self.xvals):
             logpdf[i] = log_pdf(x)
         self.logpdf = logpdf
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
+        self.gridpdf = logpdf
         if not self.linstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i] = self.spdf[i]*x
+            self.gridpdf = logpdf + log(self.xvals)
+        self.max = self.gridpdf.max()
+        self.spdf = exp(self.gridpdf-self.max)  # scaled PDF
         # Find the overall normalization for spdf.
         self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -186,7 +186,7 @@ class HPDGrid1D(object):
         self.deltas.append(logratio)
         self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, self.gridpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
@@ -200,7 +200,7 @@ class HPDGrid1D(object):
         return self.fracgt(logratio) - self._target
 
     def plot(self):
-        pl.plot(self.xvals, exp(self.logpdf))
+        pl.plot(self.xvals, exp(self.gridpdf))
         xl, xu = self.xvals[0], self.xvals[-1]
         for level in self.levels:
             plevel = exp(level)
@@ -250,15 +250,14 @@ class HPDGrid2D(object):
             for j,y in enumerate(self.yvals):
                 logpdf[i,j] = log_pdf(x,y)
         self.logpdf = logpdf
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # For log steps, change variables to log(x or y).
+        self.gridpdf = logpdf
         if not self.xlinstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i,:] = self.spdf[i,:]*x
+            self.gridpdf = self.gridpdf + log(self.xvals)[:,None]
         if not self.ylinstep:
-            for j, y in enumerate(self.yvals):
-                self.spdf[:,j] = self.spdf[:,j]*y
+            self.gridpdf = self.gridpdf + log(self.yvals)
+        self.max = self.gridpdf.max()
+        self.spdf = exp(self.gridpdf-self.max)  # Scaled PDF
         # Find the overall normalization for spdf.
         self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
@@ -307,4 +306,4 @@ class HPDGrid2D(object):
     def plot(self):
         x,y = pl.meshgrid(self.xvals,self.yvals)
         pl.figure()
-        pl.contour(x,y,self.logpdf,self.levels)
+        pl.contour(x,y,self.gridpdf,self.levels)
-- 
2.43.0


From 6297d35970bc5459a74ffff1e6d72bd47174a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 41/75] fix: HPD2D keeps its upper y bound

---
 package/inference/grid/hpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index dc56eb6..2c80be4 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -220,7 +220,7 @@ class HPD2D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid xstep type!')
-        self.ylo, selfyxhi = ylo, yhi
+        self.ylo, self.yhi = ylo, yhi
         self.ny = logpdf.shape[1]
         if ystep == 'linear' or ystep == 'lin':
             self.ylinstep = True
-- 
2.43.0


From db24a489a0328ae2fd95a01fb32c2586ffbac464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:26 +0000
Subject: [PATCH 42/75] fix: the n-dim normal density at nsig standard
 deviations

---
 package/inference/grid/hpd.py     | 6 +++---
 package/inference/grid/hpdgrid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 2c80be4..3c783ad 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5*nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5*nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5*nsig**2)
 
 
 class HPD1D(object):
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index e7afef3..2802e09 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5*nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5*nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5*nsig**2)
 
 
 class HPDGrid1D(object):
-- 
2.43.0


From ffaa060cd215751032ecb91a808266dd14b92008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 43/75] fix: zbracket() accepts a bracket found by its last
 expansion

---
 package/inference/utils/numutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 71340db..3a208e3 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -207,6 +207,8 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
                 f2 = func(*(x2,)+args)
             else:
                 f2 = func(x2)
+    if f1*f2 < 0.:  # found by the last expansion
+        return x1, x2
     # We only make it here if bracketing failed.
     raise RuntimeError('Zero bracketing failed!')
 
-- 
2.43.0


From 3f8eae70883cd4a52567f9f0194a61c926e91129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 44/75] fix: zbracket() recognizes sign changes of tiny values

---
 package/inference/utils/numutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 3a208e3..5d1ac75 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -193,7 +193,7 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
     tries = 0
     while tries < maxtries:
         tries += 1
-        if f1*f2 < 0.:
+        if f1 < 0. < f2 or f2 < 0. < f1:
             return x1, x2
         if abs(f1) < abs(f2):
             x1 += expand*(x1-x2)
@@ -207,7 +207,7 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
                 f2 = func(*(x2,)+args)
             else:
                 f2 = func(x2)
-    if f1*f2 < 0.:  # found by the last expansion
+    if f1 < 0. < f2 or f2 < 0. < f1:  # found by the last expansion
         return x1, x2
     # We only make it here if bracketing failed.
     raise RuntimeError('Zero bracketing failed!')
-- 
2.43.0


From b443fcd2c20ce6ee21b82229286721f5a174f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 45/75] fix: LogSummer reports zero standard deviation despite
 roundoff

---
 package/inference/utils/numutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 5d1ac75..9618303 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -143,7 +143,7 @@ class LogSummer:
             dif = 2*lmean - l2
             lsig = 0.5*l2
             if dif > -40:	# Otherwise the (-mean**2) part is below roundoff.
-                lsig += 0.5*log(1. - exp(dif))
+                lsig += 0.5*log(max(0., 1. - exp(dif)))
             return self.n, self.logSum, self.sigSum, lmean, lsig
         else:
             return self.n, self.logSum, lmean
-- 
2.43.0


From 47cf5f22d1424a3d098a211e0988686dbb79cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 46/75] fix: powell() works on its own copy of the directions

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index a389b9a..a1ce96e 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -182,7 +182,7 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
     n = len(p)
     if drxns is None:
         drxns = identity(n)
-        drxns = array(drxns, float)
+    drxns = array(drxns, float)  # copy; updated (and perhaps shuffled) below
     if shuffle:
         vec = drxns[0].copy()  # must copy!
         for i in range(n-1):
-- 
2.43.0


From cfe6a1ee9168318d31bb7a001c8bee820b00544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 47/75] fix: OnOff.pnsig(0) returns the probability of no
 signal counts

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..ab9086d 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,7 +202,7 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
-- 
2.43.0


From 6321526a46d868d1087369f722bce6278cce59b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 48/75] fix: OnOff.pnsig() returns a copy of the cached
 probabilities

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index ab9086d..cb09826 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -207,7 +207,7 @@ class OnOff(object):
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From 33ed956cfb54385f47ae18919c79f287e66b8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 49/75] fix: OnOff evaluates integer arrays of signal rates in
 floating point

---
 package/inference/count/onoff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index cb09826..65bd2d9 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -9,7 +9,7 @@ By Tom Loredo
 """
 
 
-from numpy import zeros_like
+from numpy import zeros
 from ._cbmlike import sigctp, psigc, slml_offset, vslml_offset, slmlike, \
     vslmlike, slmliked
 
@@ -106,7 +106,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -164,7 +164,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From 59838e39d945b44220478a9ca85bd275a1f3c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:16 +0000
Subject: [PATCH 50/75] fix: dllsteps() and obsinfo() leave the caller's arrays
 alone

---
 package/inference/deriv/obsinfo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..a38254d 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,8 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
+
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -25,7 +27,9 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     """
     if maxll is None:
         maxll = loglike(mle)
-    deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
+    # pk_scales works in place; pass copies.
+    deltas, status = pk_scales(loglike, array(mle, float), maxll, dll,
+                               array(guess, float), maxiter, tol)
     if status == 3:
         raise RuntimeError('Failed to converge in solving for dll scale!')
     elif status == 2:
@@ -66,4 +70,5 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # to plain 2nd differences, with no extrapolation).
     if maxll is None:
         maxll = loglike(mle)
-    return ninfol(loglike, mle, maxll, deltas, niter+1)
+    # ninfol works in place; pass it a copy.
+    return ninfol(loglike, array(mle, float), maxll, deltas, niter+1)
-- 
2.43.0


From 6f03d4073cb557fca39bd8ecca6230da7534f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:16 +0000
Subject: [PATCH 51/75] fix: dllsteps() reports a flat direction instead of
 searching forever

---
 package/inference/deriv/_obsinfo.f | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index acfe4ee..8e08bd4 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -55,7 +55,8 @@ cf2py intent(in,out) dx
 cf2py intent(out) status
 
 c+++  Locals:
-        integer i, nit
+        integer i, nit, ngrow, maxgr
+        parameter (maxgr = 200)
         real*8 f_c, s, x0, fnew, del, fp, dfdx
 
         status = 1
@@ -70,6 +71,7 @@ c---  Loop thru the parameters.
 
 c===  For first guess, use a quadratic approximation.
             s = 1.
+            ngrow = 0
             x0 = x(i)
 10          x(i) = x0 + s*dx(i)
             fnew = f(n, x)
@@ -80,6 +82,11 @@ c            print *, 'guess: ', i, x0, x(i), fnew
             endif
             del = fmax - fnew
             if (del .le. 0.) then
+                ngrow = ngrow + 1
+                if (ngrow .gt. maxgr) then
+                    status = 3
+                    return
+                endif
                 s = 1.3 * s
                 go to 10
             endif
-- 
2.43.0


From 3a6a711dbfc5ed4f4a80d38ba18df63ebece8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 52/75] fix: turn the alternate polygons of the circularly
 symmetric cubature rules

---
 expt/integrate/make_ECF_rules.py           | 19 ++++---
 package/inference/integrate/_cub2d_auto.py | 64 +++++++++++-----------
 2 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/expt/integrate/make_ECF_rules.py b/expt/integrate/make_ECF_rules.py
index b56f069..ceea1e5 100644
--- a/expt/integrate/make_ECF_rules.py
+++ b/expt/integrate/make_ECF_rules.py
@@ -154,7 +154,10 @@ def struct_handler(line_gen, result, arg):
             row = line_gen.next().split()
             n = int(row[1])
             r, w = float(row[2]), float(row[3])
-            result.circ_spec.append((n, r, w))
+            # An optional "*" marks a polygon turned by half its angular step;
+            # the online tables do not show the orientations of the polygons.
+            turned = len(row) > 4 and row[4] == '*'
+            result.circ_spec.append((n, r, w, turned))
             npts += n
 
 @event_handler(r'^Rule struct:\s*(?P<arg>.*?)\s*$')
@@ -317,7 +320,7 @@ def ${name}(func):
             raise ValueError('Circularly symmetric rules valid only for 2-D!')
         self.abscissas = []
         self.weights = []
-        for n, r, wt in self.circ_spec:
+        for n, r, wt, turned in self.circ_spec:
             if n == 1:
                 if r != 0.:
                     raise ValueError('Nonzero radius in 1-pt circular rule!')
@@ -327,6 +330,8 @@ def ${name}(func):
                 # Note we need a grid over n+1 angles; the 1st and last
                 # points correspond so we drop the last.
                 angles = linspace(0., 2*pi, n+1)[:-1]
+                if turned:
+                    angles = angles + pi/n
                 xvals, yvals = r*cos(angles), r*sin(angles)
                 for x, y in zip(xvals, yvals):
                     self.abscissas.append(array([x,y]))
@@ -578,7 +583,7 @@ Degree: 9
 Points: 19 [ 6-gon ] 
 Structure: Circular symmetric
 i	r(i)	w(i)
-1	6	2.E0 	2.4543692606170259E-2
+1	6	2.E0 	2.4543692606170259E-2	*
 2	6	1.1024690870412086E0 	3.2447320274634297E-1
 3	6	2.3752273089667399E0 	5.5031089588349583E-3
 4	1	0.E0 	1.0144726277217040E0
@@ -591,9 +596,9 @@ Degree: 11
 Points: 28 [ 4-gon ] 
 Structure: Circular symmetric 
 i	r(i)	w(i)
-1	8	2.2360679774997896E0 	7.5398223686155037E-3
-2	4	1.3765979318520745E0 	1.5137267598023796E-1
-3	4	2.6825150931410771E0 	1.0294743039068897E-3
+1	8	2.2360679774997896E0 	7.5398223686155037E-3	*
+2	4	1.3765979318520745E0 	1.5137267598023796E-1	*
+3	4	2.6825150931410771E0 	1.0294743039068897E-3	*
 4	4	6.1791116665497929E-1 	5.2680403237854616E-1
 5	4	1.5261898960020960E0 	9.0730267409198283E-2
 6	4	2.9220203379272203E0 	3.8206858832799763E-4
@@ -606,7 +611,7 @@ Degree: 13
 Points: 41 [ 10-gon ] 
 Structure: Circular symmetric
 i	r(i)	w(i)
-1	10	2.4494897427831780E0 	2.4240684055476799E-3
+1	10	2.4494897427831780E0 	2.4240684055476799E-3	*
 2	10	9.2897653516474092E-1 	1.9404444552734862E-1
 3	10	1.7162505238049738E0 	4.4486553170629952E-2
 4	10	3.0727002354041088E0 	1.1853582819051242E-4
diff --git a/package/inference/integrate/_cub2d_auto.py b/package/inference/integrate/_cub2d_auto.py
index c80c7ad..9001c27 100644
--- a/package/inference/integrate/_cub2d_auto.py
+++ b/package/inference/integrate/_cub2d_auto.py
@@ -292,16 +292,16 @@ def e2r2_5_9a(func):
 
 
 e2r2_13_41_absc = array(
-    [[   2.4494897427831779e+00,    0.0000000000000000e+00],
-     [   1.9816788294587098e+00,    1.4397739464496353e+00],
-     [   7.5693395806712094e-01,    2.3296031814720810e+00],
-     [  -7.5693395806712049e-01,    2.3296031814720810e+00],
-     [  -1.9816788294587093e+00,    1.4397739464496355e+00],
-     [  -2.4494897427831779e+00,    2.9997597730436923e-16],
-     [  -1.9816788294587100e+00,   -1.4397739464496351e+00],
-     [  -7.5693395806712116e-01,   -2.3296031814720810e+00],
-     [   7.5693395806712016e-01,   -2.3296031814720810e+00],
-     [   1.9816788294587091e+00,   -1.4397739464496360e+00],
+    [[   2.3296031814720810e+00,    7.5693395806712060e-01],
+     [   1.4397739464496353e+00,    1.9816788294587098e+00],
+     [   0.0000000000000000e+00,    2.4494897427831779e+00],
+     [  -1.4397739464496351e+00,    1.9816788294587098e+00],
+     [  -2.3296031814720810e+00,    7.5693395806712094e-01],
+     [  -2.3296031814720815e+00,   -7.5693395806711938e-01],
+     [  -1.4397739464496355e+00,   -1.9816788294587093e+00],
+     [   0.0000000000000000e+00,   -2.4494897427831779e+00],
+     [   1.4397739464496349e+00,   -1.9816788294587100e+00],
+     [   2.3296031814720810e+00,   -7.5693395806712116e-01],
      [   9.2897653516474088e-01,    0.0000000000000000e+00],
      [   7.5155780432383135e-01,    5.4603870709559477e-01],
      [   2.8706953674146096e-01,    8.8350918725372063e-01],
@@ -365,12 +365,12 @@ def e2r2_13_41(func):
 
 
 e2r2_9_19a_absc = array(
-    [[   2.0000000000000000e+00,    0.0000000000000000e+00],
-     [   1.0000000000000002e+00,    1.7320508075688772e+00],
-     [  -9.9999999999999967e-01,    1.7320508075688774e+00],
-     [  -2.0000000000000000e+00,    2.4492935982947064e-16],
-     [  -1.0000000000000009e+00,   -1.7320508075688767e+00],
-     [   9.9999999999999867e-01,   -1.7320508075688781e+00],
+    [[   1.7320508075688774e+00,    9.9999999999999989e-01],
+     [   0.0000000000000000e+00,    2.0000000000000000e+00],
+     [  -1.7320508075688774e+00,    9.9999999999999989e-01],
+     [  -1.7320508075688776e+00,   -9.9999999999999944e-01],
+     [   0.0000000000000000e+00,   -2.0000000000000000e+00],
+     [   1.7320508075688767e+00,   -1.0000000000000009e+00],
      [   1.1024690870412086e+00,    0.0000000000000000e+00],
      [   5.5123454352060441e-01,    9.5476623626472401e-01],
      [  -5.5123454352060408e-01,    9.5476623626472423e-01],
@@ -405,22 +405,22 @@ def e2r2_9_19a(func):
 
 
 e2r2_11_28c_absc = array(
-    [[   2.2360679774997898e+00,    0.0000000000000000e+00],
-     [   1.5811388300841895e+00,    1.5811388300841898e+00],
-     [   1.3691967456605067e-16,    2.2360679774997898e+00],
-     [  -1.5811388300841895e+00,    1.5811388300841898e+00],
-     [  -2.2360679774997898e+00,    2.7383934913210134e-16],
-     [  -1.5811388300841902e+00,   -1.5811388300841893e+00],
-     [  -4.1075902369815199e-16,   -2.2360679774997898e+00],
-     [   1.5811388300841893e+00,   -1.5811388300841902e+00],
-     [   1.3765979318520745e+00,    0.0000000000000000e+00],
-     [   8.4292312547775463e-17,    1.3765979318520745e+00],
-     [  -1.3765979318520745e+00,    1.6858462509555093e-16],
-     [  -2.5287693764332635e-16,   -1.3765979318520745e+00],
-     [   2.6825150931410771e+00,    0.0000000000000000e+00],
-     [   1.6425667612398419e-16,    2.6825150931410771e+00],
-     [  -2.6825150931410771e+00,    3.2851335224796838e-16],
-     [  -4.9277002837195262e-16,   -2.6825150931410771e+00],
+    [[   2.0658574377159642e+00,    8.5570616863128390e-01],
+     [   8.5570616863128401e-01,    2.0658574377159642e+00],
+     [  -8.5570616863128379e-01,    2.0658574377159642e+00],
+     [  -2.0658574377159642e+00,    8.5570616863128413e-01],
+     [  -2.0658574377159646e+00,   -8.5570616863128368e-01],
+     [  -8.5570616863128512e-01,   -2.0658574377159638e+00],
+     [   8.5570616863128446e-01,   -2.0658574377159642e+00],
+     [   2.0658574377159638e+00,   -8.5570616863128524e-01],
+     [   9.7340173257997875e-01,    9.7340173257997864e-01],
+     [  -9.7340173257997864e-01,    9.7340173257997875e-01],
+     [  -9.7340173257997886e-01,   -9.7340173257997864e-01],
+     [   9.7340173257997842e-01,   -9.7340173257997886e-01],
+     [   1.8968246129953188e+00,    1.8968246129953186e+00],
+     [  -1.8968246129953186e+00,    1.8968246129953188e+00],
+     [  -1.8968246129953192e+00,   -1.8968246129953186e+00],
+     [   1.8968246129953183e+00,   -1.8968246129953192e+00],
      [   6.1791116665497925e-01,    0.0000000000000000e+00],
      [   3.7836146620071352e-17,    6.1791116665497925e-01],
      [  -6.1791116665497925e-01,    7.5672293240142704e-17],
-- 
2.43.0


From bc0115d0647768c56611f47e873d6aa8a1e52822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 53/75] fix: adapt() honours maxfac and wrkfac and reports
 invalid requests

---
 package/inference/integrate/adapt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..d1a75ff 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -60,7 +60,7 @@ def adapt_sizes(ndim, maxfac=100):
   """
   rulcls = 2**ndim + 2*ndim**2 + 6*ndim + 1
   minpts, maxpts = rulcls, maxfac*rulcls
-  lenwrk = (2*ndim + 3) * (1 + maxfac) / 2
+  lenwrk = (2*ndim + 3) * (1 + maxfac) // 2
   return minpts, maxpts, lenwrk
 
 
@@ -82,7 +82,9 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  minpts, maxpts, lenwrk = adapt_sizes(len(lower), maxfac)
+  # There must be room for at least one subregion and two totals.
+  lenwrk = max(int(wrkfac*lenwrk), 2*len(lower) + 5)
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
@@ -91,3 +93,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('Invalid dimension or number of points!')
-- 
2.43.0


From 0498f61664d8ad3ab1211d243ff834766929e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 54/75] fix: adapt_vec() calculates its array sizes as integers

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From 6f4ad97cf2036e5d18dcab0db68727f32d3baa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:10 +0000
Subject: [PATCH 55/75] fix: ADAPT counts the evaluation at the centre of each
 subregion

---
 package/inference/integrate/adapt_py.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/integrate/adapt_py.f b/package/inference/integrate/adapt_py.f
index 7e615ad..715feb7 100644
--- a/package/inference/integrate/adapt_py.f
+++ b/package/inference/integrate/adapt_py.f
@@ -271,7 +271,7 @@ c      write(9,'(3(1pg12.4))') z(1), z(2), F(S,Z)
    40  CONTINUE
        IF (SUM0.EQ.SUM0+DIFMAX/TWO) DIVAXN = MOD(DIVAXO,S) + 1
       BASEST = INTVLS(MINORD)
-      FUNCLS = INTCLS + 4*S
+      FUNCLS = INTCLS + 4*S + 1
       RETURN
       END
 c-----------------------------------------------------------------------
-- 
2.43.0


From 17c874053bc251a65a223c119faa39a65186414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:37 +0000
Subject: [PATCH 56/75] fix: obs_info() used a stale score and left the
 parameters displaced from the mode

---
 package/inference/pie/bayes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 07abfc2..6b62ebf 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -69,7 +69,7 @@ class BayesianInference(Inference):
         """
         # *** Expand docstring.
         # Treat the current state as the mode.
-        logp_max = self._log_like + self._log_prior
+        logp_max = self.score()
         mode = []
         for param in self.varying_params:
             mode.append(param.get_value())
@@ -82,9 +82,13 @@ class BayesianInference(Inference):
                 deltas.append(param.delta)
         else:
             deltas = steps
-        deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
-        # Use those step sizes for estimating the observed info matrix.
-        info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        try:
+            deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
+            # Use those step sizes for estimating the observed info matrix.
+            info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        finally:
+            # The evaluations move the parameters; return to the mode.
+            self._logp_func(mode)
         if err:
             return info, ierr
         else:
-- 
2.43.0


From df23a35a7d4c6687b907a92c70ef9168dd937a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:20 +0000
Subject: [PATCH 57/75] fix: stepping a bounded parameter to NaN is rejected
 like any other value outside its range

---
 package/inference/pie/realparam.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 809a8ae..3f4e69a 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -120,10 +120,10 @@ class RealParamHandler(ScalarParamHandler):
     def linstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n equal steps."""
         if self.bounded and lo != None:
-            if lo < self.lo or lo > self.hi:
+            if not (self.lo <= lo <= self.hi):
                 raise ParamRangeError("lo step out of parameter's allowed range!")
         if self.bounded and hi != None:
-            if hi < self.lo or hi > self.hi:
+            if not (self.lo <= hi <= self.hi):
                 raise ParamRangeError("hi step out of parameter's allowed range!")
         # Default to the allowed range; check everything before changing state.
         if lo is None:
@@ -147,10 +147,10 @@ class RealParamHandler(ScalarParamHandler):
     def logstep(self, lo=None, hi=None, n=10):
         """Step from lo to hi (inclusive) in n logarithmic steps."""
         if self.bounded and lo != None:
-            if lo < self.lo or lo > self.hi:
+            if not (self.lo <= lo <= self.hi):
                 raise ParamRangeError("lo step out of parameter's allowed range!")
         if self.bounded and hi != None:
-            if hi < self.lo or hi > self.hi:
+            if not (self.lo <= hi <= self.hi):
                 raise ParamRangeError("hi step out of parameter's allowed range!")
         # Default to the allowed range; check everything before changing state.
         if lo is None:
-- 
2.43.0


From 482dcf0b316d97724c39bccdea375ad234bf0fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:48 +0000
Subject: [PATCH 58/75] fix: a failed evaluation of the basis no longer
 corrupts the stored design matrix

---
 package/inference/gauss/vecba.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index b2f336a..0b152f7 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -98,14 +98,16 @@ class BA:
             args = list(args)
             args.append(aux)
             args = tuple(args)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
             g = self.basis[a]
-            self.modvals[a,:] = g(*args) / self.sigs
+            modvals[a,:] = g(*args) / self.sigs
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.std_smpls)
+            vba.metricAnalysis(modvals, self.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
@@ -229,13 +231,15 @@ class BAObj:
 #...    Evaluate the standardized models on the data, first calling the setup
 #...    function.
         self.obj.set_nonlin(*params)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
-            self.modvals[a,:] = self.obj.std_basis[a]()
+            modvals[a,:] = self.obj.std_basis[a]()
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.obj.std_smpls)
+            vba.metricAnalysis(modvals, self.obj.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
-- 
2.43.0


From cf2b62419271ae1e694d1c72681b7de4e8e3810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 59/75] fix: sampling without replacement passes NumPy's whole
 random state where only the generator state is accepted

---
 package/inference/mc/population.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 3e105cf..ce4d49d 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -93,7 +93,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -125,7 +126,7 @@ class Population(object):
             self.ntry, sindices = self.sampler.samplenr()
             indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(list(get_rng_state()) + list(rng_state[3:]))
         return result
 
     def subset_pps5(self, nsamp):
@@ -140,7 +141,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -178,7 +180,7 @@ class Population(object):
             # Note the 5-table version returns unsorted indices.
             # indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(list(get_rng_state()) + list(rng_state[3:]))
         return result
 
 
-- 
2.43.0


From 20797f4f712e8af017eff34ed7ab9efac3b298f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 60/75] fix: unweighted sampling without replacement used an
 undefined name and the wrong integer type

---
 package/inference/mc/population.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index ce4d49d..addf911 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import array, random
+from numpy import arange, array, random
 from _ppssampler import _ppssampler, equalprob
 from _ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
@@ -96,7 +96,7 @@ class Population(object):
         rng_state = random.get_state()
         set_rng_state(*rng_state[:3])
         if self.equiprob:
-            pool = arange(self.npopn)
+            pool = arange(self.npopn, dtype='intc')
             indices = equalprob(nsamp, pool)
         else:
             # This part of setup has to be done before any sampling.
@@ -144,7 +144,7 @@ class Population(object):
         rng_state = random.get_state()
         set_rng_state(*rng_state[:3])
         if self.equiprob:
-            pool = arange(self.npopn)
+            pool = arange(self.npopn, dtype='intc')
             indices = equalprob(nsamp, pool)
         else:
             # This part of setup has to be done before any sampling.
-- 
2.43.0


From 24a201fd9d6c40744bb0d08f4d75dae621fd9b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 61/75] fix: the order of sorted weights was read as int
 instead of npy_intp

---
 package/inference/mc/_ppssampler.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index d877610..b108770 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -225,6 +225,7 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     int npopn;
     PyObject *win;
     PyArrayObject *wts, *sorted, *cumwt, *indices;
+    PyObject *order;
     PyArrayObject *no_out=NULL;
     npy_intp dims[1];
     int *idata;
@@ -249,7 +250,11 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     if (sorted == NULL) goto FAIL;
 
 /* Sort and reverse the weights. */
-	indices = (PyArrayObject *) PyArray_ArgSort(wts, 0, PyArray_QUICKSORT);
+	order = PyArray_ArgSort(wts, 0, PyArray_QUICKSORT);
+	if (order == NULL) goto FAIL;
+	indices = (PyArrayObject *) PyArray_Cast((PyArrayObject *) order, NPY_INT);
+	Py_DECREF(order);
+	if (indices == NULL) goto FAIL;
 	idata = IDATA(indices);
 
 /*
-- 
2.43.0


From be06a0f250fefe47f0bb8fff6d94b51fb81f33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 62/75] fix: Sampford's sampler picked with rand() instead of
 the given generator

---
 package/inference/mc/sampford.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/sampford.c b/package/inference/mc/sampford.c
index 00663ee..7389443 100644
--- a/package/inference/mc/sampford.c
+++ b/package/inference/mc/sampford.c
@@ -110,7 +110,7 @@ sampford_pps(Sampford* sampford, int* sample, rk_state* rng_state_ptr) {
         duplicate = 0;
         tot = sampford->cumratios[npopn-1];
         for (j=1; j<nsamp; j++) {
-            val = tot * (1.*rand())/(RAND_MAX+1.);
+            val = tot * rk_double(rng_state_ptr);
             for (i=0; i<npopn; i++) {
                 if (val <= sampford->cumratios[i]) break;
             }
-- 
2.43.0


From 4ed6e260c3b57fa9f6e16d90a93694869d4219a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 63/75] fix: unweighted sampling picked with rand() instead of
 the generator state passed from NumPy

---
 package/inference/mc/_ppssampler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index b108770..35b531f 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -714,7 +714,7 @@ equalprobi (PyObject *self, PyObject *args) {
 /* Pick from the pool at random; shuffle the last item down to replace the 
    one picked. */
     for (i=0; i<nsamp; i++) {
-   		pick = npopn * (1.*rand())/(RAND_MAX+1.);  /* Always < npopn. */
+   		pick = npopn * rk_double(&rng_state);  /* Always < npopn. */
 /*    		PySys_WriteStdout("pick, npopn: %i  %i  %i\n", pick, pdata[pick], npopn); */
    		sdata[i] = pdata[pick];
    		npopn--;  /* Now points to the last item (at npopn-1). */
@@ -779,7 +779,7 @@ equalprob (PyObject *self, PyObject *args) {
 /* Pick from the pool at random; shuffle the last item down to replace the 
    one picked. */
     for (i=0; i<nsamp; i++) {
-   		pick = npopn * (1.*rand())/(RAND_MAX+1.);  /* Always < npopn. */
+   		pick = npopn * rk_double(&rng_state);  /* Always < npopn. */
 /*    		PySys_WriteStdout("pick, npopn: %i  %i  %i\n", pick, pdata[pick], npopn); */
    		sdata[i] = pdata[pick];
    		npopn--;  /* Now points to the last item (at npopn-1). */
-- 
2.43.0


From 75b8268d24cb381b2294a0181024085ce9e2da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:14 +0000
Subject: [PATCH 64/75] fix: a sample of size 0 overran the sampler's arrays

---
 package/inference/mc/population.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index addf911..d6e4ed1 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -110,14 +110,14 @@ class Population(object):
                 self.sort_indices, self.sort_wts, self.tot_wt = \
                     self.sampler.prepwts(self.weights)
                 self.max_wt = self.sort_wts[0]/self.tot_wt  # Max wt, normed
-                self.nsamp = 0
+                self.nsamp = None
                 self.did_Sampford_init = True
                 self.did_Sampford_tables = False
             # This part has to be done when sample size changes.
             if self.nsamp != nsamp:
                 print('Initing ratios...')
-                if nsamp > self.npopn:
-                    raise ValueError('nsamp larger than population size!')
+                if nsamp < 1 or nsamp > self.npopn:
+                    raise ValueError('nsamp must be from 1 to the population size!')
                 if nsamp*self.max_wt > 1:
                     raise ValueError('Sample size too large for PPS sampling!')
                 self.sampler.prepratios(nsamp, self.sort_wts, self.tot_wt)
@@ -158,13 +158,13 @@ class Population(object):
                 self.sort_indices, self.sort_wts, self.tot_wt = \
                     self.sampler.prepwts(self.weights)
                 self.max_wt = self.sort_wts[0]/self.tot_wt  # Max wt, normed
-                self.nsamp = 0
+                self.nsamp = None
                 self.did_Sampford_init = True
             # This part has to be done when sample size changes.
             if self.nsamp != nsamp:
                 print('Initing ratios...')
-                if nsamp > self.npopn:
-                    raise ValueError('nsamp larger than population size!')
+                if nsamp < 1 or nsamp > self.npopn:
+                    raise ValueError('nsamp must be from 1 to the population size!')
                 if nsamp*self.max_wt > 1:
                     raise ValueError('Sample size too large for PPS sampling!')
                 self.sampler.prepratios(nsamp, self.sort_wts, self.tot_wt)
-- 
2.43.0


From 475368666f386973399c1405360e6e2657dabb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 65/75] fix: max_subset() no longer depends on whether a sample
 was drawn before

---
 package/inference/mc/population.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index d6e4ed1..36d999b 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -79,10 +79,7 @@ class Population(object):
         sample (of course, they will all have inclusion probability of
         unity, regardless of size).
         """
-        if self.did_Sampford_init:
-            return int(1./self.max_wt)
-        else:
-            return int(sum(self.weights)/self.weights.max())
+        return int(sum(self.weights)/self.weights.max())
 
     def subset_pps(self, nsamp):
         """
-- 
2.43.0


From 6de16f0fc9fb913a69ae738ba38471b385ba1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:47 +0000
Subject: [PATCH 66/75] fix: PWLinear.pdf() failed at the upper end of the
 domain

---
 package/inference/mc/pwlinear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 398334f..2d9639d 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -208,6 +208,7 @@ class PWLinear(object):
         # Handle even step size case.
         elif self.step == 'lin':
             i = region[0] + int((x - region[2])/self.delta)
+            i = min(i, region[1]-1)  # x at the upper end of the region
             return self.pdf_vals[i] + \
                 (self.pdf_vals[i+1]-self.pdf_vals[i]) * \
                 (x - self.absc[i])/(self.absc[i+1] - self.absc[i])
-- 
2.43.0


From d8715d8085b5000fe1ce5c368389547bd0d8c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:47 +0000
Subject: [PATCH 67/75] fix: PWLinear takes any array_like of values, and
 integer log values are not truncated

---
 package/inference/mc/pwlinear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 2d9639d..32747c8 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -1,5 +1,5 @@
 from numpy import linspace, concatenate, zeros, sqrt, log, exp
-from numpy import iterable, empty, any
+from numpy import iterable, empty, any, asarray
 from numpy.random import rand
 from .population import Population
 
@@ -40,6 +40,8 @@ class PWLinear(object):
             maximum density will be treated as zero.  Must be nonzero if
             `logvals` is True.
         """
+        vals = asarray(vals, float)
+
         # Define the domain and abscissas.
         if not (lo is None) and not (hi is None):
             if step != 'lin':
@@ -55,7 +57,7 @@ class PWLinear(object):
             if len(absc) != self.n:
                 raise ValueError('Length mismatch between absc and vals!')
             self.lo, self.hi = absc[0], absc[-1]
-            self.absc = absc
+            self.absc = asarray(absc)
             self.step = None  # indicates arbitrary step sizes
 
         # Define and select the non-negligible values, 'weight values.'
-- 
2.43.0


From 428eac28e0bddbc212b6563165c2b0f99c1fe612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:47 +0000
Subject: [PATCH 68/75] fix: PWLinear sampled outside nearly flat intervals
 because of cancellation

---
 package/inference/mc/pwlinear.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 32747c8..56cf554 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -148,22 +148,27 @@ class PWLinear(object):
                 # print 'flat:', index, lo, hi, lo + (hi-lo)*rand()
                 return lo + (hi-lo)*rand()
             else:
-                r = (hi-lo)/(phi-plo)
-                return lo - r*plo + r*sqrt(plo**2 + (phi**2 - plo**2)*rand())
+                u = rand()
+                # This form has no cancellation if plo and phi nearly agree.
+                s = plo + sqrt(plo**2 + (phi**2 - plo**2)*u)
+                if s == 0.:  # u = 0 where the density rises from 0
+                    return lo
+                return lo + (hi-lo)*(plo+phi)*u/s
                 # return self.nz_centers[index]
         else:
             indices = self.popn.sample(n)
             lo, hi = self.nz_intvls[indices,0], self.nz_intvls[indices,1]
             plo, phi = self.nz_pdf[indices,0], self.nz_pdf[indices,1]
             flat = (phi==plo).nonzero()[0]  # id the flat intervals
-            r = (hi-lo)/(phi-plo)  # will be NaN for flat intervals
             u = rand(n)
 #             if len(flat) != 0:
 #                 print plo**2 + (phi**2 - plo**2)*u
-#                 print r
 #                 print indices
 #                 print phi-plo
-            vals = lo - r*plo + r*sqrt(plo**2 + (phi**2 - plo**2)*u)
+            # This form has no cancellation if plo and phi nearly agree.
+            s = plo + sqrt(plo**2 + (phi**2 - plo**2)*u)
+            s[s==0.] = 1.  # u = 0 where the density rises from 0
+            vals = lo + (hi-lo)*(plo+phi)*u/s
             if len(flat) != 0:
                 vals[flat] = lo[flat] + (hi[flat]-lo[flat])*u[flat]
             return vals
-- 
2.43.0


From 74843e8536a22044d2bca41bce1cc79c4e1c826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:27 +0000
Subject: [PATCH 69/75] fix: refine grids with a fractional number of sigmas

Grid1D(nsig=2.5) made the number of refinement points a float, so refine()
raised TypeError; round the number of points up.
---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 4afe778..173b6e2 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -864,7 +864,7 @@ class Grid1D:
         self.ilist = RefinedIntervalList1D(lo, hi, n, stype)
         self.nsig = nsig
         self.rank = rank
-        self.rpts = nsig*(sigpts-1) + 1
+        self.rpts = int(ceil(nsig*(sigpts-1))) + 1
         self.totpts = n
         self.func = None
         self.glist = [self.base]
-- 
2.43.0


From c7659b0aec6aa2e94a0e3344f1a453350795de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:59 +0000
Subject: [PATCH 70/75] fix: read_column_vectors could not make arrays (array
 was not imported)

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 9796857..fdd951b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -2,7 +2,7 @@ import os
 import os.path as path
 import pickle as pkl
 from zipfile import ZipFile
-from numpy import ndarray, load
+from numpy import array, ndarray, load
 from numpy.lib.format import write_array
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
-- 
2.43.0


From 4583d21e8400d840ccabdea810d846bb25cb9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:59 +0000
Subject: [PATCH 71/75] fix: Population1D rejected lists of values and arrays
 of errors

---
 package/inference/mc/population.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 36d999b..3349876 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -190,9 +190,9 @@ class Population1D(Population):
 
     def __init__(self, vals, weights, err=None):
         indices = array(vals).argsort()
-        self.vals = vals[indices].copy()
+        self.vals = array(vals)[indices].copy()
         self.weights = array(weights)[indices].copy()
-        if err == None:
+        if err is None:
             self.err = None
         else:
             self.err = array(err)[indices].copy()
@@ -222,7 +222,7 @@ class Population1D(Population):
         # The last step is zero.
         absc.append(end)
         ord.append(0.)
-        if self.err == None:
+        if self.err is None:
             return array(absc), array(ord)
         else:
             # For error bars, just copy the stored errors in the middle of
@@ -245,10 +245,10 @@ class Population1D(Population):
             start = self.vals[0]
         if end is None:
             end = self.vals[-1]
-        if self.err == None:
+        if self.err is None:
             a, o = self.haz_pts(start, end)
         else:
             a, o, ea, eo, ee = self.haz_pts(start, end)
         pl.plot(a, o, 'b-', linewidth=2)
-        if self.err != None:
+        if self.err is not None:
             pl.errorbar(ea, eo, ee, fmt='o', markersize=0)
-- 
2.43.0


From 58f9832599f7007f62f24d0b44271f66dfddd080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:59 +0000
Subject: [PATCH 72/75] fix: the hazard of a Population1D with unequal weights
 belonged to the reversed values

---
 package/inference/mc/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 3349876..c53d678 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -198,7 +198,8 @@ class Population1D(Population):
             self.err = array(err)[indices].copy()
         Population.__init__(self, self.vals, self.weights)
         self.cdf = self.weights.cumsum()
-        self.hazard = self.cdf[::-1].copy()
+        # The hazard at a value is the weight of the members at or above it.
+        self.hazard = self.weights[::-1].cumsum()[::-1].copy()
 
     def haz_pts(self, start=None, end=None):
         """
-- 
2.43.0


From 4328091e7fb361e1d76f8716f993d7eb657d862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:59 +0000
Subject: [PATCH 73/75] fix: plot_bivar passed decreasing contour levels to
 Matplotlib

---
 package/inference/utils/plot_bivar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 9e67c73..01817f6 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -90,6 +90,11 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
     else:
         # Treat levels as *absolute* levels (not relative to max).
         levels = array(levels) - logmax
+    # Contour levels have to increase; keep each color with its level.
+    order = argsort(levels)
+    levels = levels[order]
+    if not isinstance(colors, str):
+        colors = [colors[i % len(colors)] for i in order]
 
     # Plot a grayscale image displaying tails beyond the lowest level.
     if gscale:
-- 
2.43.0


From 61d36d4a5fc93d46fe8b067d7d3a4fbada7908ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:59 +0000
Subject: [PATCH 74/75] fix: plot_bivar crosshairs used undefined names

---
 package/inference/utils/plot_bivar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 01817f6..c79ae09 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -126,10 +126,10 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
 
     if cross:
         xc, yc = cross
-        xlo, xhi = xlim()
-        ylo, yhi = ylim()
-        pl.hlines(yc, xlo, xhi, 'teal')
-        pl.vlines(xc, ylo, yhi, 'teal')
+        left, right = pl.xlim()
+        bottom, top = pl.ylim()
+        pl.hlines(yc, left, right, 'teal')
+        pl.vlines(xc, bottom, top, 'teal')
     # This makes the original colorbar look a bit out of place,
     # so let's improve its position.
     #l,b,w,h = gca().get_position().bounds
-- 
2.43.0


From 36b9558e3df2f5d3cf346c848abe8fdf592aeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:42 +0000
Subject: [PATCH 75/75] fix: ScalarGrid.plot ignored its gscale argument

---
 package/inference/pie/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/containers.py b/package/inference/pie/containers.py
index 6113ccd..8539198 100644
--- a/package/inference/pie/containers.py
+++ b/package/inference/pie/containers.py
@@ -111,7 +111,7 @@ class ScalarGrid(object):
                 except:
                     pl.figure()  # start a new figure by default
                 plot_bivar(xvals, yvals, self.values, xlabel=x_name,
-                           ylabel=y_name, **kwds)
+                           ylabel=y_name, gscale=gscale, **kwds)
             else:
                 raise NotImplementedError('Plotting log steps not yet implemented!')
         else:
-- 
2.43.0

