From 7e1be4027cb257be62ee7ac54073d06cc76e363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:18 +0000
Subject: [PATCH 01/56] fix: accumulate the VCVS sense terms in the MNA stamp

A VCVS whose sense node is also one of its output nodes (or whose sense
nodes coincide) had its KVL entries overwritten instead of summed.
---
 ahkab/dc_analysis.py | 5 +++--
 ahkab/symbolic.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 60de681..7e1443c 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1041,8 +1041,9 @@ def generate_mna_and_N(circ, verbose=3):
             elif isinstance(elem, components.sources.VSource) and elem.is_timedependent:
                 pass  # taken care step by step
             elif isinstance(elem, components.sources.EVSource):
-                mna[index, elem.sn1] = -1.0 * elem.alpha
-                mna[index, elem.sn2] = +1.0 * elem.alpha
+                # accumulate: a sense node may also be an output node
+                mna[index, elem.sn1] += -1.0 * elem.alpha
+                mna[index, elem.sn2] += +1.0 * elem.alpha
             elif isinstance(elem, components.Inductor):
                 # N[index,0] = 0 pass, it's already zero
                 pass
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a98a403..712ba3b 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -491,8 +491,9 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         alpha = subs[alpha]
                 else:
                     alpha = elem.alpha
-                mna[index, elem.sn1] = -alpha
-                mna[index, elem.sn2] = +alpha
+                # accumulate: a sense node may also be an output node
+                mna[index, elem.sn1] += -alpha
+                mna[index, elem.sn2] += +alpha
             elif isinstance(elem, components.sources.HVSource):
                 if elem.is_symbolic:
                     alpha = _symbol_factory(elem.part_id.upper(), real=True)
-- 
2.43.0


From a4614809915acba6829d6b6c392f47a29ed773d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 02/56] fix: stamp the CCVS sense term after all branch
 currents are numbered

---
 ahkab/dc_analysis.py |  8 ++++++--
 ahkab/symbolic.py    | 20 ++++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 7e1443c..9ca3c3d 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1048,8 +1048,8 @@ def generate_mna_and_N(circ, verbose=3):
                 # N[index,0] = 0 pass, it's already zero
                 pass
             elif isinstance(elem, components.sources.HVSource):
-                index_source = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes+index_source] = 1.0 * elem.alpha
+                # the sensing source may come later in the circuit
+                pass
             else:
                 print("dc_analysis.py: BUG - found an unknown voltage_def elem.")
                 print(elem)
@@ -1061,6 +1061,10 @@ def generate_mna_and_N(circ, verbose=3):
             local_i_index = circ.find_vde_index(elem.source_id, verbose=0)
             mna[elem.n1, n_of_nodes + local_i_index] = mna[elem.n1, n_of_nodes + local_i_index] + elem.alpha
             mna[elem.n2, n_of_nodes + local_i_index] = mna[elem.n2, n_of_nodes + local_i_index] - elem.alpha
+        elif isinstance(elem, components.sources.HVSource):
+            index = n_of_nodes + circ.find_vde_index(elem.part_id, verbose=0)
+            index_source = n_of_nodes + circ.find_vde_index(elem.source_id, verbose=0)
+            mna[index, index_source] += 1.0 * elem.alpha
 
     # Seems a good place to run some sanity check
     # for the time being we do not halt the execution
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 712ba3b..775f82d 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -495,14 +495,8 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 mna[index, elem.sn1] += -alpha
                 mna[index, elem.sn2] += +alpha
             elif isinstance(elem, components.sources.HVSource):
-                if elem.is_symbolic:
-                    alpha = _symbol_factory(elem.part_id.upper(), real=True)
-                    if alpha in subs:  # instant substitution
-                        alpha = subs[alpha]
-                else:
-                    alpha = elem.alpha
-                source_index = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes + source_index] = +alpha
+                # the sensing source may come later in the circuit
+                pass
             elif isinstance(elem, components.Inductor):
                 if ac:
                     if elem.is_symbolic:
@@ -554,6 +548,16 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 F = elem.alpha
             mna[elem.n1, pre_vde + source_current_index] += +F
             mna[elem.n2, pre_vde + source_current_index] += -F
+        elif isinstance(elem, components.sources.HVSource):
+            this_index = circ.find_vde_index(elem.part_id, verbose=0)
+            source_index = circ.find_vde_index(elem.source_id, verbose=0)
+            if elem.is_symbolic:
+                alpha = _symbol_factory(elem.part_id.upper(), real=True)
+                if alpha in subs:  # instant substitution
+                    alpha = subs[alpha]
+            else:
+                alpha = elem.alpha
+            mna[pre_vde + this_index, pre_vde + source_index] += +alpha
         else:
             pass
 
-- 
2.43.0


From 81d77198288b2a6aa66c09219c266fb33d620b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 03/56] fix: source stepping must end with the sources at their
 full value

---
 ahkab/dc_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 9ca3c3d..36e22c1 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -309,7 +309,8 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         else:
             printing.print_info_line(
                 ("[%d iterations]" % (n_iter,), 6), verbose)
-            if (source_stepping["enabled"] and source_stepping["index"] != 9):
+            if (source_stepping["enabled"] and
+                source_stepping["index"] != len(source_stepping["factors"]) - 1):
                 converged = False
                 source_stepping["index"] = source_stepping["index"] + 1
             elif (gmin_stepping["enabled"] and gmin_stepping["index"] != 9):
@@ -454,7 +455,7 @@ def get_solve_methods():
     gmin_stepping = {"enabled": False, "failed":
                      False, "factors": g_indices, "index": 0}
     source_stepping = {"enabled": False, "failed": False, "factors": (
-        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9), "index": 0}
+        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9, 1.), "index": 0}
     return standard_solving, gmin_stepping, source_stepping
 
 
-- 
2.43.0


From 31edec98099b189397307952d796e7c086336cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 04/56] fix: gmin stepping must go down by decades to
 options.gmin

---
 ahkab/dc_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 36e22c1..32798e2 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -313,7 +313,8 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
                 source_stepping["index"] != len(source_stepping["factors"]) - 1):
                 converged = False
                 source_stepping["index"] = source_stepping["index"] + 1
-            elif (gmin_stepping["enabled"] and gmin_stepping["index"] != 9):
+            elif (gmin_stepping["enabled"] and
+                  gmin_stepping["index"] != len(gmin_stepping["factors"]) - 1):
                 gmin_stepping["index"] = gmin_stepping["index"] + 1
                 converged = False
             else:
@@ -450,7 +451,7 @@ def get_solve_methods():
         The dictionaries contain the options and the status of the methods.
     """
     standard_solving = {"enabled": False, "failed": False}
-    g_indices = list(range(int(numpy.log(options.gmin)), 0))
+    g_indices = list(range(int(round(numpy.log10(options.gmin))), 0))
     g_indices.reverse()
     gmin_stepping = {"enabled": False, "failed":
                      False, "factors": g_indices, "index": 0}
-- 
2.43.0


From d625a84ae8c367cabf396d75419b953cec2bcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 05/56] fix: a DC sweep must not run past its stop value

---
 ahkab/dc_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 32798e2..2651f16 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -513,6 +513,14 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
 
     points = (stop - start) / step + 1
     sweep_type = sweep_type.upper()[:3]
+    # the quotient is subject to rounding and it may not be an integer, the
+    # sweep is not to run past stop in either case.
+    if abs(points - round(points)) < 1e-6:
+        points = int(round(points))
+    else:
+        points = int(points)
+        if sweep_type == options.dc_lin_step:
+            stop = start + (points - 1) * step
 
     if sweep_type == options.dc_log_step:
         dc_iter = utilities.log_axis_iterator(start, stop, points=points)
-- 
2.43.0


From b004b79483e75be1e9e904f7a0a78f1aaca7fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:39 +0000
Subject: [PATCH 06/56] fix: diode conductance in breakdown and high injection
 is the derivative of the current

---
 ahkab/diode.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 1b31f7a..aa1624c 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -399,9 +399,16 @@ class diode_model(object):
         if dev.T != self.T:
             self.set_temperature(dev.T)
         v=ports_v[0]
-        gm = self.IS / (self.N * self.VT) *\
-            self._safe_exp(v / (self.N * self.VT)) +\
-            -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
+        x = v / (self.N * self.VT)
+        gm_fwd = self.IS / (self.N * self.VT) * self._safe_exp(x)
+        if (not isinf(self.IKF)) and (self.IKF>0) and (v>0):
+            # d(k_inj*i_fwd)/dv
+            i_fwd = self.IS * (self._safe_exp(x) - 1)
+            gm_fwd *= sqrt(self.IKF/(self.IKF+i_fwd)) * \
+                      (1 - 0.5*i_fwd/(self.IKF+i_fwd))
+        gm = gm_fwd + \
+            self.IS / (self.NBV * self.VT) *\
+            self._safe_exp(-(v + self.BV) / (self.NBV * self.VT)) +\
             self.ISR / (self.NR * self.VT) *\
             self._safe_exp(v / (self.NR * self.VT))
         
-- 
2.43.0


From 15ecee5f612947e107e8a545712a512e4781507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:56 +0000
Subject: [PATCH 07/56] fix: an unbiased diode must not source its saturation
 current

---
 ahkab/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index aa1624c..d0c2573 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -387,7 +387,7 @@ class diode_model(object):
     def _get_i(self, v):
         i_fwd= self.IS * (self._safe_exp(v/(self.N * self.VT)) - 1)
         i_rec= self.ISR* (self._safe_exp(v/(self.NR * self.VT)) - 1)
-        i_rev=-self.IS * (self._safe_exp(-(v+self.BV)/(self.NBV *self.VT)) - 1)
+        i_rev=-self.IS * self._safe_exp(-(v+self.BV)/(self.NBV *self.VT))
         k_inj = 1
         if (not isinf(self.IKF)) and (self.IKF>0) and (i_fwd>0):
             k_inj = sqrt(self.IKF/(self.IKF+i_fwd))
-- 
2.43.0


From f671831a3b5949f85be63c0dae83caeb9949876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 08/56] fix: diode series resistance: area scaling, junction
 conductance, accurate and unconditional solution

---
 ahkab/diode.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index d0c2573..a6aa17b 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -36,7 +36,7 @@ from __future__ import (unicode_literals, absolute_import,
 from math import e as E, isinf, sqrt
 import numpy as np
 
-from scipy.optimize import newton
+from scipy.optimize import brentq
 
 from . import constants
 from . import utilities
@@ -357,29 +357,22 @@ class diode_model(object):
             i = self._get_i(vext) * dev.AREA
             dev.last_vd = vext
         else:
-            vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
-            vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
-                        args=(vext, dev), tol=options.vea, maxiter=500)
-            i = self._get_i(vext-vd)
-            dev.last_vd = vd
+            vd = self._get_vrs(vext)
+            i = self._get_i(vext-vd) * dev.AREA
+            dev.last_vd = vext - vd
         return i
 
-    def _obj_irs(self, x, vext, dev):
-        # obj fn for newton
-        return x/self.RS-self._get_i(vext-x)*dev.AREA
-
-    def _obj_irs_prime(self, x, vext, dev):
-        # obj fn derivative for newton
-        # first term
-        ret = 1./self.RS
-        # disable RS
-        RSSAVE = self.RS
-        self.RS = 0
-        # second term
-        ret += self.get_gm(self, 0, (vext-x,), 0, dev)
-        # renable RS
-        self.RS = RSSAVE
-        return ret
+    def _get_vrs(self, vext):
+        """The voltage drop across the series resistance"""
+        if self._obj_irs(0, vext)*self._obj_irs(vext, vext) >= 0:
+            return 0. # no current flows
+        return brentq(self._obj_irs, min(0, vext), max(0, vext),
+                      args=(vext,), xtol=1e-18, rtol=4*utilities.EPS,
+                      maxiter=500)
+
+    def _obj_irs(self, x, vext):
+        # RS is per unit area
+        return x/self.RS-self._get_i(vext-x)
 
     def _safe_exp(self, x):
         return np.exp(x) if x < 70 else np.exp(70) + 10 * x
@@ -399,6 +392,8 @@ class diode_model(object):
         if dev.T != self.T:
             self.set_temperature(dev.T)
         v=ports_v[0]
+        if self.RS != 0.0:
+            v = v - self._get_vrs(v) # the voltage across the junction
         x = v / (self.N * self.VT)
         gm_fwd = self.IS / (self.N * self.VT) * self._safe_exp(x)
         if (not isinf(self.IKF)) and (self.IKF>0) and (v>0):
-- 
2.43.0


From fe04d854ad933b067b4d915e9a1de1c439efe6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:31 +0000
Subject: [PATCH 09/56] fix: diode temperature: thermal voltage, repeated
 changes, shared models, cached results

---
 ahkab/diode.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index a6aa17b..91ac7a0 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -78,7 +78,13 @@ class diode(object):
         self.is_symbolic = True
         self.dc_guess = [0.425]
         class _dev_class(object):
-            pass
+            # the values that determine the results cached by the model
+            def _key(self):
+                return (self.AREA, self.T)
+            def __hash__(self):
+                return hash(self._key())
+            def __eq__(self, other):
+                return self._key() == other._key()
         self.device = _dev_class()
         self.device.AREA = AREA if AREA is not None else 1.0
         self.device.T = T
@@ -337,6 +343,7 @@ class diode_model(object):
         self.last_vd = None
         self.VT = constants.Vth(self.T)
         self.material=material
+        self._nominal = (self.T, self.IS, self.BV, self.RS)
 
     def print_model(self):
         strm = ".model diode %s IS=%g N=%g ISR=%g NR=%g RS=%g CJ0=%g M=%g " + \
@@ -416,12 +423,15 @@ class diode_model(object):
 
     def set_temperature(self, T):
         T = float(T)
+        # always start from the nominal values, the model may be shared by
+        # devices operating at different temperatures.
+        T0, IS0, BV0, RS0 = self._nominal
         self.EG = self.material.Eg(T) if self.material!=None else self.EG
-        self.IS = self.IS*(T/self.T)**(self.XTI/self.N)* \
+        self.IS = IS0*(T/T0)**(self.XTI/self.N)* \
                   np.exp(-constants.e*(self.material.Eg(constants.Tref) if self.material!=None else self.EG)/\
                          (self.N*constants.k*T)*
-                         (1 - T/self.T))
-        self.BV = self.BV - self.TBV*(T - self.T)
-        self.RS = self.RS*(1 + self.TRS*(T - self.T))
+                         (1 - T/T0))
+        self.BV = BV0 - self.TBV*(T - T0)
+        self.RS = RS0*(1 + self.TRS*(T - T0))
+        self.VT = constants.Vth(T)
         self.T = T
-
-- 
2.43.0


From 7befaace975bd94aa1b4d3f0545078cc90c905bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 10/56] fix: switch and EKV transconductances: output voltage,
 multiplicity and p-type factors

---
 ahkab/ekv.py    | 12 ++++++------
 ahkab/switch.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 2b8cdff..d6f987a 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -675,9 +675,9 @@ class ekv_mos_model:
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         if CS_FACTOR == +1:
-            gms = -1.0 * self.scaling.Gs * qf
+            gms = -1.0 * self.scaling.Gs * qf * device.M
         elif CS_FACTOR == -1:
-            gms = -self.scaling.Gs * qr
+            gms = -self.scaling.Gs * qr * device.M
         return gms
 
     def get_gmd(self, device, xxx_todo_changeme3, opdict=None, debug=False):
@@ -686,18 +686,18 @@ class ekv_mos_model:
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         if CS_FACTOR == +1:
-            gmd = self.scaling.Gs * qr
+            gmd = self.scaling.Gs * qr * device.M
         elif CS_FACTOR == -1:
-            gmd = self.scaling.Gs * qf
+            gmd = self.scaling.Gs * qf * device.M
         return gmd
 
     def get_gmg(self, device, xxx_todo_changeme4, opdict=None, debug=False):
         """Returns the gate-bulk transconductance or d(IDS)/d(VG-VB)."""
         (vd, vg, vs) = xxx_todo_changeme4
-        VP, nv, nq = self.get_vp_nv_nq(float(vg))
+        VP, nv, nq = self.get_vp_nv_nq(float(vg) * self.NPMOS)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
-        gmg = CS_FACTOR * self.scaling.Gs * (qf - qr) / nv
+        gmg = CS_FACTOR * self.scaling.Gs * (qf - qr) / nv * device.M
         return gmg
 
     def get_ismall(self, vsmall, ip_abs_err, iguess=None, debug=False):
diff --git a/ahkab/switch.py b/ahkab/switch.py
index c95cc91..736220c 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -396,5 +396,5 @@ class vswitch_model:
         self._update_status(vin, dev)
         gm = self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
             self.A * math.tanh(self.SLOPE * (self.V - vin)) - self.B) ** 2
-        return gm + options.gmin
+        return vout * gm + options.gmin
 
-- 
2.43.0


From 0a7009de410555b941c3bd515b68c32643fa24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 11/56] fix: MOS conductances are the derivatives of the drain
 current (reversed, p-channel, body effect, saturation)

---
 ahkab/mosq.py | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index ae86b8e..f803f52 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -378,7 +378,7 @@ class mosq_device(object):
                           (-gmd, -gmg, gmd + gmg + gmb, -gmb),
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
-            stamp = self.mosq_model.T1*stamp*self.mosq_model.T2
+            stamp = np.dot(np.dot(self.mosq_model.T1, stamp), self.mosq_model.T2)
         if (self.opdict['state'] != ports_v[0]).any():
             self.opdict = {'state':ports_v[0]}
         self.opdict.update({'gmd': stamp[0, 0]})
@@ -690,23 +690,10 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         gmb = 0
-        if vgs < VT:
-            pass # gmb = 0
-        else:
-            if vds < vgs - VT:
-                if vsqrt1 > 0:
-                    gmb = self.KP * self.GAMMA * vds * device.W / \
-                          (2 * device.L * vsqrt1 ** .5)
-            else:
-                if vsqrt1 > 0:
-                    gmb += -0.25*self.KP*self.GAMMA*self.LAMBDA*device.W * (vsqrt1 > 0) * \
-                           (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 / \
-                           (device.L * vsqrt1**.5)
-                    gmb += +0.5*self.KP*self.GAMMA*device.W*(self.LAMBDA* \
-                            (self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                            (-self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) \
-                            + vgs - self.VTO) / (device.L * vsqrt1**.5)
-        gmb = self.NPMOS * (1 + skp) * gmb * device.M / device.N
+        if vgs >= VT and vsqrt1 > 0:
+            # -dVT/dVBS * dIDS/dVGS
+            gmb = 0.5*self.GAMMA/vsqrt1**.5 * self._get_gm_on(device, vds, vgs - VT)
+        gmb = (1 + skp) * gmb * device.M / device.N
         if debug:
             print("gmb %g" % gmb)
         return gmb
@@ -791,17 +778,20 @@ class mosq_mos_model(object):
         if vgs < VT:
             gm = options.iea / VT / 100
         else:
-            if vds < vgs - VT:
-                gm = self.KP * device.W / device.L * vds
-            else:
-                gm = -0.5*self.KP*self.LAMBDA * device.W/device.L * (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 \
-                     +0.5*self.KP * device.W/device.L *(self.LAMBDA*( self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                     (-2 * self.GAMMA * (-vsqrt2**.5 + vsqrt1**.5) + 2*vgs - 2*self.VTO)
+            gm = self._get_gm_on(device, vds, vgs - VT)
         gm = (1 + skp) * gm * device.M / device.N
         if debug:
             print("gmg %g" % gm)
         return gm
 
+    def _get_gm_on(self, device, vds, vov):
+        """dIDS/dVGS above threshold, for an overdrive voltage ``vov >= 0``"""
+        beta = self.KP * device.W / device.L
+        if vds < vov - 0.5*self.LAMBDA*vov**2: # same condition as in get_ids()
+            return beta * vds
+        clm = 1 + self.LAMBDA*(vds - vov + 0.25*self.LAMBDA*vov**2)
+        return beta*vov*clm + 0.5*beta*vov**2*self.LAMBDA*(0.5*self.LAMBDA*vov - 1)
+
     def _self_check(self):
         """Performs sanity check on the model parameters."""
         ret = True, ""
-- 
2.43.0


From 960124e27d9a443888756e6b42d70d5b9fec773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 12/56] fix: EKV model type in upper case

---
 ahkab/ekv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index d6f987a..c09b52b 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -375,7 +375,7 @@ class ekv_mos_model:
 
         self.name = "model_ekv0" if name is None else name
         self.TNOM = float(TNOM) if TNOM is not None else constants.Tref
-        self.NPMOS = 1 if TYPE == 'n' else -1
+        self.NPMOS = 1 if TYPE.lower() == 'n' else -1
 
         # optional parameters (no defaults)
         self.TOX = float(TOX) if TOX is not None else None
-- 
2.43.0


From b3d157c2e28bb2d5cf9704919e24c174c105d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:26 +0000
Subject: [PATCH 13/56] fix: MOS threshold defaults: p-type EKV and
 VFB-specified models

---
 ahkab/ekv.py  | 4 ++--
 ahkab/mosq.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index c09b52b..e0c9d14 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -411,9 +411,9 @@ class ekv_mos_model:
                 printing.print_warning("model %s has internal negative VTO (%f V)."
                                        % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * math.sqrt(self.PHI)
         else:
-            self.VTO = self.NPMOS * VTO_DEFAULT
+            self.VTO = VTO_DEFAULT
 
         if KP is not None:
             self.KP = float(KP)
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index f803f52..a312048 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -477,7 +477,7 @@ class mosq_mos_model(object):
             if self.VTO < 0:
                 print("(W): model %s has internal negative VTO (%f V)." % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * math.sqrt(self.PHI)
         else:
             self.VTO = VTO_DEFAULT
 
-- 
2.43.0


From 35a4eb2340b7b656b3a315fecc72395dd670eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 14/56] fix: the EKV normalized current must not depend on
 previous evaluations

---
 ahkab/ekv.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index e0c9d14..e72de3e 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -77,7 +77,6 @@ from __future__ import (unicode_literals, absolute_import,
 import scipy, scipy.optimize
 import math
 
-from scipy.optimize import newton
 
 from . import constants
 from . import options
@@ -719,10 +718,17 @@ class ekv_mos_model:
             raise ValueError("Attempted to calculate a current corresponding to a NaN voltage.")
         if not ip_abs_err > 0:
             raise ValueError("The normalized current absolute error has been set to a negative value.")
-        ismall = newton(self._vsmall_obj, iguess, fprime=self._vsmall_obj_prime,
-                        fprime2=self._vsmall_obj_prime2, args=(vsmall,),
-                        tol=1.48e-8, maxiter=500)
-        #print(ismall, max(ismall, 0))
+        # With y = ln(q), the equation is y + 2*exp(y) = v: the left hand side is
+        # convex and monotonically increasing, hence Newton's method converges
+        # from any point above the solution, such as the following.
+        y = math.log(.5*vsmall) if vsmall > 2 else vsmall
+        for _ in range(500):
+            dy = (y + 2.*math.exp(y) - vsmall)/(1. + 2.*math.exp(y))
+            y = y - dy
+            if abs(dy) <= 1e-14*max(1., abs(y)):
+                break
+        q = math.exp(y)
+        ismall = q*(1. + q)
         return max(ismall, 10*utilities.EPS)
 
     def _vsmall_obj(self, x, vsmall):
-- 
2.43.0


From d16d5bd67ebeb57ca9d19587a82062783e5c2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 15/56] fix: MOS operating point information with a grounded
 channel

---
 ahkab/mosq.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index a312048..e8845d0 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -251,12 +251,13 @@ class mosq_device(object):
         """
         if self.opdict is None:
             self.opdict = {}
-        if not (self.opdict['state'] == ports_v[0]).all() or 'gmd' not in self.opdict \
+        state = tuple(float(v) for v in ports_v[0])
+        if self.opdict['state'] != state or 'gmd' not in self.opdict \
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
             vds, vgs, _ = ports_v[0]
-            self.opdict['state'] = ports_v[0]
+            self.opdict['state'] = state
             gstamp = self.gstamp(ports_v[0], reduced=False)[1]
             self.opdict['gmd'] = gstamp[0, 0]
             self.opdict['gm'] = gstamp[0, 1]
@@ -379,8 +380,9 @@ class mosq_device(object):
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
             stamp = np.dot(np.dot(self.mosq_model.T1, stamp), self.mosq_model.T2)
-        if (self.opdict['state'] != ports_v[0]).any():
-            self.opdict = {'state':ports_v[0]}
+        state = tuple(float(v) for v in ports_v)
+        if self.opdict['state'] != state:
+            self.opdict = {'state': state}
         self.opdict.update({'gmd': stamp[0, 0]})
         self.opdict.update({'gm': stamp[0, 1]})
         self.opdict.update({'gmb': stamp[0, 3]})
-- 
2.43.0


From 353443971a30dbc980fea711f46a0c250564d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 16/56] fix: an operating point must not be reported when all
 solving methods failed

---
 ahkab/dc_analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 2651f16..aff37ae 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -424,9 +424,13 @@ def more_solve_methods_available(standard_solving, gmin_stepping, source_steppin
         The answer.
     """
 
-    if (standard_solving["failed"] or not options.use_standard_solve_method) and \
-       (gmin_stepping["failed"] or not options.use_gmin_stepping) and \
-       (source_stepping["failed"] or not options.use_source_stepping):
+    # the method currently enabled is the one that just failed
+    if (standard_solving["failed"] or standard_solving["enabled"] or
+        not options.use_standard_solve_method) and \
+       (gmin_stepping["failed"] or gmin_stepping["enabled"] or
+        not options.use_gmin_stepping) and \
+       (source_stepping["failed"] or source_stepping["enabled"] or
+        not options.use_source_stepping):
         return False
     else:
         return True
-- 
2.43.0


From ad7d587ddbabde1c07bd46274de62deb3d422c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 17/56] fix: a singular sparse matrix is a convergence failure,
 not a crash

---
 ahkab/dc_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index aff37ae..75e194f 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -830,7 +830,11 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
         residuo = mna.dot(x) + T + nonlinear_circuit*Tx
 
         if sparse:
-            lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            try:
+                lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            except RuntimeError as e:
+                # same as numpy.linalg.solve() for a singular matrix
+                raise np.linalg.LinAlgError(str(e))
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
-- 
2.43.0


From c4601114913c7d6b710c52bebabae105b35dc8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:47 +0000
Subject: [PATCH 18/56] fix: the single Newton step of a linear circuit must
 not be damped

---
 ahkab/dc_analysis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 75e194f..0071c67 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -838,11 +838,13 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
-        x = x + get_td(dx, locked_nodes, n=iteration) * dx
         if not nonlinear_circuit:
+            # one full step gives the solution
+            x = x + dx
             converged = True
             break
-        elif convergence_check(x, dx, residuo, nv - 1)[0]:
+        x = x + get_td(dx, locked_nodes, n=iteration) * dx
+        if convergence_check(x, dx, residuo, nv - 1)[0]:
             converged = True
             break
         # if vector_norm(dx) == np.nan: #Overflow
-- 
2.43.0


From caf48fd0b11c75a7a02e066e141b8496bacd8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:47 +0000
Subject: [PATCH 19/56] fix: a non-finite Newton step is an overflow, not a
 solution to go on from

---
 ahkab/dc_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 0071c67..79227fb 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -838,6 +838,8 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
+        if not np.isfinite(dx).all():
+            raise OverflowError("the Newton step is not finite")
         if not nonlinear_circuit:
             # one full step gives the solution
             x = x + dx
@@ -847,8 +849,6 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
         if convergence_check(x, dx, residuo, nv - 1)[0]:
             converged = True
             break
-        # if vector_norm(dx) == np.nan: #Overflow
-        #   raise OverflowError
     tick.hide(print_steps)
     if debug and not converged:
         # re-run the convergence check, only this time get the results
-- 
2.43.0


From 0aae19b5762e048714381646b8cd7ecd29c21d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:50 +0000
Subject: [PATCH 20/56] fix: gmin and source stepping must start from the
 circuit at rest, not where the failed method ended

---
 ahkab/dc_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 79227fb..b271899 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -301,6 +301,9 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
             if more_solve_methods_available(standard_solving, gmin_stepping, source_stepping):
                 standard_solving, gmin_stepping, source_stepping = set_next_solve_method(
                     standard_solving, gmin_stepping, source_stepping, verbose)
+                # the point where the failed method ended is no good, the
+                # homotopies lead to the solution from the circuit at rest
+                x = np.zeros((mna_size, 1))
             else:
                 # print "Giving up."
                 x = None
-- 
2.43.0


From 296385b1a1ff450eab335b0527f4693a8d704b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:10 +0000
Subject: [PATCH 21/56] fix: a MOS threshold of exactly zero (or below) in
 cutoff

---
 ahkab/mosq.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index e8845d0..08629c0 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -642,7 +642,7 @@ class mosq_mos_model(object):
         VT = self.get_VT((vds, vgs, vbs), device)
         _, skp = self.get_svt_skp(device)
         if vgs < VT:
-            ids = options.iea * (vgs / VT + vds / VT) / 100
+            ids = self._get_g_off(VT) * (vgs + vds)
             if debug:
                 print("OFF: %g" % ids)
         else:
@@ -732,7 +732,7 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gmd = options.iea / VT / 100
+            gmd = self._get_g_off(VT)
         else:
             if vds < vgs -VT -0.5*self.LAMBDA*(VT - vgs)**2: # correction term disc. due to LAMBDA
                 gmd = self.KP * device.W / device.L * (vgs - vds - VT)
@@ -778,7 +778,7 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gm = options.iea / VT / 100
+            gm = self._get_g_off(VT)
         else:
             gm = self._get_gm_on(device, vds, vgs - VT)
         gm = (1 + skp) * gm * device.M / device.N
@@ -786,6 +786,10 @@ class mosq_mos_model(object):
             print("gmg %g" % gm)
         return gm
 
+    def _get_g_off(self, VT):
+        """Conductance of the device below threshold, a convergence aid"""
+        return options.iea / max(abs(VT), constants.Vth()) / 100
+
     def _get_gm_on(self, device, vds, vov):
         """dIDS/dVGS above threshold, for an overdrive voltage ``vov >= 0``"""
         beta = self.KP * device.W / device.L
-- 
2.43.0


From 5170cb8d46adc91771be253dfe0d582f03b679dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:14 +0000
Subject: [PATCH 22/56] fix: a pulse repeats after its initial delay, which may
 exceed the period

---
 ahkab/time_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index bd53e69..0997e58 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -440,15 +440,16 @@ class pulse(object):
         """Evaluate the pulse function at the given time."""
         if time is None:
             time = 0
-        time = time - self.per * int(time / self.per)
         if time < self.td:
             return self.v1
-        elif time < self.td + self.tr:
-            return self.v1 + ((self.v2 - self.v1) / (self.tr)) * (time - self.td)
-        elif time < self.td + self.tr + self.pw:
+        # the waveform repeats itself after the initial delay
+        time = (time - self.td) % self.per
+        if time < self.tr:
+            return self.v1 + ((self.v2 - self.v1) / (self.tr)) * time
+        elif time < self.tr + self.pw:
             return self.v2
-        elif time < self.td + self.tr + self.pw + self.tf:
-            return self.v2 + ((self.v1 - self.v2) / (self.tf)) * (time - (self.td + self.tr + self.pw))
+        elif time < self.tr + self.pw + self.tf:
+            return self.v2 + ((self.v1 - self.v2) / (self.tf)) * (time - (self.tr + self.pw))
         else:
             return self.v1
 
-- 
2.43.0


From 7a54a57a56e04e422b24b5ef59aafb6c30351f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:14 +0000
Subject: [PATCH 23/56] fix: AM and SFFM sources in netlists: the delay
 defaults to zero, the carrier frequency is required

---
 ahkab/time_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 0997e58..ba2121b 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -323,7 +323,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'label': 'fc',
                'pos': 2,
                'type': float,
-               'needed': False,
+               'needed': True,
                'dest': 'fc',
                'default': None
                },
@@ -390,7 +390,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'type': float,
                'needed': False,
                'dest': 'td',
-               'default': None
+               'default': 0.
                })
         }
 }
-- 
2.43.0


From a439312b0d41534dd12cab19bcfc8f23dd555c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:11 +0000
Subject: [PATCH 24/56] fix: time functions in netlists: phase, delays, number
 of parameters and the names used for current sources

---
 ahkab/netlist_parser.py | 96 +++++++++++++++++++----------------------
 ahkab/time_functions.py | 14 ++++--
 2 files changed, 56 insertions(+), 54 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d67cbd0..e40d9dd 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -572,33 +572,15 @@ def parse_elem_vsource(line, circ):
         label, value = parse_param_value_from_string(line_elements[index])
 
         if label == 'type':
-            if value == 'vdc':
-                param_number = 0
-            elif value == 'vac':
-                param_number = 0
-            elif value == 'pulse':
-                param_number = 7
-            elif value == 'exp':
-                param_number = 6
-            elif value == 'sin':
-                param_number = 5
-            elif value == 'sffm':
-                param_number = 5
-            elif value == 'am':
-                param_number = 5
-            else:
-                raise NetlistParseError("parse_elem_vsource(): unknown signal" +
+            if value in time_fun_specs:
+                if function is not None:
+                    raise NetlistParseError("parse_elem_vsource(): only a time function can be defined.")
+                tokens = get_time_function_tokens(line_elements[index + 1:])
+                function = parse_time_function(value, tokens, "voltage")
+                index = index + len(tokens)
+            elif value not in ('vdc', 'vac'):
+                raise NetlistParseError("parse_elem_vsource(): unknown signal "
                                         "type %s" % value)
-            if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number
-                                                             + 1],
-                                               "voltage")
-                index = index + param_number
-                # continue
-            elif function is not None:
-                raise NetlistParseError("parse_elem_vsource(): only a time function can be defined.")
         elif label == 'vdc':
             dc_value = convert_units(value)
         elif label == 'vac':
@@ -661,30 +643,15 @@ def parse_elem_isource(line, circ):
         (label, value) = parse_param_value_from_string(line_elements[index])
 
         if label == 'type':
-            if value == 'idc':
-                param_number = 0
-            elif value == 'iac':
-                param_number = 0
-            elif value == 'pulse':
-                param_number = 7
-            elif value == 'exp':
-                param_number = 6
-            elif value == 'sin':
-                param_number = 5
-            elif value == 'sffm':
-                param_number = 5
-            elif value == 'am':
-                param_number = 5
-            else:
-                raise NetlistParseError("parse_elem_isource(): unknown signal type.")
-            if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number + 1],
-                                               "current")
-                index = index + param_number
-            elif function is not None:
-                raise NetlistParseError("parse_elem_isource(): only a time function can be defined.")
+            if value in time_fun_specs:
+                if function is not None:
+                    raise NetlistParseError("parse_elem_isource(): only a time function can be defined.")
+                tokens = get_time_function_tokens(line_elements[index + 1:])
+                function = parse_time_function(value, tokens, "current")
+                index = index + len(tokens)
+            elif value not in ('idc', 'iac'):
+                raise NetlistParseError("parse_elem_isource(): unknown signal "
+                                        "type %s" % value)
         elif label == 'idc':
             dc_value = convert_units(value)
         elif label == 'iac':
@@ -1174,6 +1141,29 @@ def parse_elem_user_defined(line, circ):
     return [elem]
 
 
+def get_time_function_tokens(line_elements):
+    """Get the tokens that belong to a time function
+
+    **Parameters:**
+
+    line_elements : list of strings
+        The tokens following the ``"type=<ftype>"`` element in the netlist line.
+
+    **Returns:**
+
+    tokens : list of strings
+        The tokens up to the next specification of the source or the comment, if
+        any.
+    """
+    tokens = []
+    for token in line_elements:
+        if token[0] == '*' or token.split('=')[0] in ('type', 'vdc', 'vac',
+                                                      'idc', 'iac'):
+            break
+        tokens.append(token)
+    return tokens
+
+
 def parse_time_function(ftype, line_elements, stype):
     """Parses a time function of type ftype from the line_elements supplied.
 
@@ -1199,6 +1189,8 @@ def parse_time_function(ftype, line_elements, stype):
     if not ftype in time_fun_specs:
         raise NetlistParseError("Unknown time function: %s" % ftype)
     prot_params = list(copy.deepcopy(time_fun_specs[ftype]['tokens']))
+    # in a current source vo becomes io, va becomes ia and so on
+    current_labels = {'io': 'vo', 'ia': 'va', 'i1': 'v1', 'i2': 'v2'}
 
     fun_params = {}
     for i in range(len(line_elements)):
@@ -1211,7 +1203,9 @@ def parse_time_function(ftype, line_elements, stype):
             label, value = None, token
         assigned = False
         for t in prot_params:
-            if (label is None and t['pos'] == i) or label == t['label']:
+            if (label is None and t['pos'] == i) or label == t['label'] or \
+               (stype.lower() == "current" and label in current_labels
+                and current_labels[label] == t['label']):
                 fun_params.update({t['dest']: convert(value, t['type'])})
                 assigned = True
                 break
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index ba2121b..71b8236 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -153,7 +153,7 @@ import math
 
 from scipy.interpolate import InterpolatedUnivariateSpline
 
-time_fun_specs = {'sin': { #VO VA FREQ TD THETA
+time_fun_specs = {'sin': { #VO VA FREQ TD THETA PHASE
     'tokens': ({
                'label': 'vo',
                'pos': 0,
@@ -193,6 +193,14 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'needed': False,
                'dest': 'theta',
                'default': 0
+               },
+               {
+               'label': 'phase',
+               'pos': 5,
+               'type': float,
+               'needed': False,
+               'dest': 'phi',
+               'default': 0.
                }
                )
         },'exp': { #EXP(V1 V2 TD1 TAU1 TD2 TAU2)
@@ -502,7 +510,7 @@ class sin(object):
         different formulae.
 
     """
-    # SIN(VO VA FREQ TD THETA)
+    # SIN(VO VA FREQ TD THETA PHASE)
 
     def __init__(self, vo, va, freq, td=0., theta=0., phi=0.):
         self.vo = vo
@@ -529,7 +537,7 @@ class sin(object):
             self._type.lower() + "o=" + str(self.vo) + " " + \
             self._type.lower() + "a=" + str(self.va) + \
             " freq=" + str(self.freq) + " theta=" + str(self.theta) + \
-            " td=" + str(self.td)
+            " td=" + str(self.td) + " phase=" + str(self.phi)
 
 
 class exp(object):
-- 
2.43.0


From 5da767aa16457f5ffef93d6073cbcdacc1539f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:11 +0000
Subject: [PATCH 25/56] fix: PWL waveforms keep their end values and print
 their points

---
 ahkab/time_functions.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 71b8236..0988aff 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -812,12 +812,13 @@ class pwl(object):
             self.repeat_time = 0
         self.td = td
         self._type = "V"
-        self._f = InterpolatedUnivariateSpline(self.x, self.y, k=1)
+        # outside of the points, the first and the last values are kept
+        self._f = InterpolatedUnivariateSpline(self.x, self.y, k=1, ext=3)
 
     def __call__(self, time):
         """Evaluate the PWL function at the given time."""
         time = self._normalize_time(time)
-        return self._f(time)
+        return float(self._f(time))
 
     def _normalize_time(self, time):
         if time is None:
@@ -836,14 +837,12 @@ class pwl(object):
         return time
 
     def __str__(self):
-        pwl_str = "type=pwl"
-        tv = " "
+        pwl_str = "type=pwl "
         for x, y in zip(self.x, self.y):
-            tv += "%g %g "
-        pwl_str += tv
+            pwl_str += "%g %g " % (x, y)
         if self.td:
             pwl_str += "td=%g " % self.td
         if self.repeat:
-            pwl_str = "RPT=%g " % self.repeat_time
+            pwl_str += "RPT=%g " % self.repeat_time
         return pwl_str[:-1]
 
-- 
2.43.0


From 148d36c82b1af066bddd2f659d08102192314b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 26/56] fix: fixed-step transient with methods that need no
 past derivative

---
 ahkab/transient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 14f8ce8..ac58244 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -256,7 +256,8 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
         buffer_len += 1
         thebuffer = dfbuffer(length=buffer_len, width=3)
     else:
-        thebuffer = dfbuffer(length=max(max_x, max_dx) + 1, width=3)
+        buffer_len = max(mx for mx in (max_x, max_dx) if mx is not None) + 1
+        thebuffer = dfbuffer(length=buffer_len, width=3)
     thebuffer.add((tstart, x0, None)) #setup the first values
     printing.print_info_line(("done.", 5), verbose) #FIXME
 
-- 
2.43.0


From e174179e6429e9318a2db9ebe6d01c597f41ab20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:34 +0000
Subject: [PATCH 27/56] fix: the Gear formulas take the factorial from the
 standard library

---
 ahkab/gear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/gear.py b/ahkab/gear.py
index b9b0962..3739cf7 100644
--- a/ahkab/gear.py
+++ b/ahkab/gear.py
@@ -85,7 +85,7 @@ from __future__ import (unicode_literals, absolute_import,
 import numpy as np
 import sys
 
-from scipy.misc import factorial
+from math import factorial
 
 from . import printing
 
-- 
2.43.0


From d431c8ab5b687741038924e5d68c4f9a26381a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:08 +0000
Subject: [PATCH 28/56] fix: initial conditions refer to both terminals of the
 element, zero values and all names included

---
 ahkab/dc_analysis.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index b271899..14bf612 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1128,8 +1128,8 @@ def build_x0_from_user_supplied_ic(circ, icdict):
 
     :raises ValueError: whenever a malformed ``icdict`` is supplied.
     """
-    Vregex = re.compile("V\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
-    Iregex = re.compile("I\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
+    Vregex = re.compile(r"^\s*V\s*\(\s*(\S+?)\s*\)\s*$", re.IGNORECASE)
+    Iregex = re.compile(r"^\s*I\s*\(\s*(\S+?)\s*\)\s*$", re.IGNORECASE)
     nv = circ.get_nodes_number()  # number of voltage variables
     voltage_defined_elem_names = \
         [elem.part_id.lower() for elem in circ
@@ -1197,14 +1197,33 @@ def modify_x0_for_ic(circ, x0):
         x for x in circ if circuit.is_elem_voltage_defined(x)]
 
     # setup voltages this may _not_ work properly
-    for elem in circ:
-        if isinstance(elem, components.Capacitor) and elem.ic or \
-                isinstance(elem, diode.diode) and elem.ic:
-            x0[elem.n1 - 1, 0] = x0[elem.n2 - 1, 0] + elem.ic
+    # each IC sets the voltage of one terminal with respect to the other: start
+    # from the reference node and move on to the nodes connected to it by other
+    # elements with ICs, so that no value is changed once it has been set.
+    fixed = set([0])
+    pending = [elem for elem in circ if
+               isinstance(elem, (components.Capacitor, diode.diode))
+               and elem.ic is not None]
+    while pending:
+        for elem in pending:
+            if elem.n1 in fixed or elem.n2 in fixed:
+                break
+        else:
+            # floating: the voltage of the second terminal is preserved
+            elem = pending[0]
+            fixed.add(elem.n2)
+        pending.remove(elem)
+        if elem.n1 not in fixed:
+            x0[elem.n1 - 1, 0] = elem.ic + \
+                                 (x0[elem.n2 - 1, 0] if elem.n2 else 0.)
+        elif elem.n2 not in fixed:
+            x0[elem.n2 - 1, 0] = (x0[elem.n1 - 1, 0] if elem.n1 else 0.) - \
+                                 elem.ic
+        fixed.update((elem.n1, elem.n2))
 
     # setup the currents
     for elem in voltage_defined_elements:
-        if isinstance(elem, components.Inductor) and elem.ic:
+        if isinstance(elem, components.Inductor) and elem.ic is not None:
             x0[nv - 1 + voltage_defined_elements.index(elem), 0] = elem.ic
 
     if return_obj:
-- 
2.43.0


From 96f1349e26feada76f5d492357c9258a1f7d0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 29/56] fix: initial conditions of diodes are starting values
 for their ports

---
 ahkab/diode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 91ac7a0..43fca60 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -98,7 +98,7 @@ class diode(object):
 
         if ic is not None:  # fixme
             print("(W): ic support in diodes is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
         self.ic = ic
         self.off = off
         if self.off:
-- 
2.43.0


From f9f31fb9b462d558c45be3e780ca9fe040658f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 30/56] fix: the transient result refers to the operating point
 it started from

---
 ahkab/transient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index ac58244..4cadc0c 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -317,7 +317,7 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
     # when to start predicting the next point
     start_pred_iter = max(*[i for i in (0, pmax_x, pmax_dx_plus_1) if i is not None])
     lte = None
-    sol = results.tran_solution(circ, tstart, tstop, op=x0, method=method, outfile=outfile)
+    sol = results.tran_solution(circ, tstart, tstop, op=opsol, method=method, outfile=outfile)
     printing.print_info_line(("Solving... ", 3), verbose, print_nl=False)
     tick = ticker.ticker(increments_for_step=1)
     tick.display(verbose > 1)
-- 
2.43.0


From 53359b5bdd0c890026753ed7dd095387eecc74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 31/56] fix: a failed operating point with initial conditions
 in the circuit is reported as such

---
 ahkab/ahkab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 14b06f8..064e6a8 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -715,7 +715,8 @@ def run(circ, an_list=None):
         results.update({an_type: r})
         if an_type == 'op':
             _x0s.update({'op': r})
-            _x0s.update({'op+ic': icmodified_x0(circ, r)})
+            _x0s.update({'op+ic': icmodified_x0(circ, r)
+                                  if r is not None else None})
             _handle_netlist_ics(circ, an_list, ic_list=[])
     return results
 
-- 
2.43.0


From d0d76ff8fc14cfa7788d73fa26e565ad45c22388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 32/56] fix: AC results were wrong with options.ac_phase_in_deg
 set

---
 ahkab/results.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 7e7072c..5ec2d48 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -578,6 +578,8 @@ class ac_solution(solution, _mutable_data):
         self.linearization_op = op
         self.stype = stype
         self.ostart, self.ostop, self.opoints = start, stop, points
+        # how the phases are written to file
+        self.phase_in_deg = options.ac_phase_in_deg
 
         self.variables += ["f"]
         self.units.update({"f": "Hz"})
@@ -618,11 +620,17 @@ class ac_solution(solution, _mutable_data):
         xsplit = np.zeros((x.shape[0]*2, 1))
         for i in range(x.shape[0]):
             xsplit[2*i, 0] = np.abs(x[i, 0])
-            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=options.ac_phase_in_deg)
+            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=self.phase_in_deg)
 
         data = np.concatenate((frequency, xsplit), axis=0)
         self._add_data(data)
 
+    def _phasor(self, mod, phase):
+        """Build the complex values from the data on file"""
+        if self.phase_in_deg:
+            phase = np.deg2rad(phase)
+        return mod*np.exp(1j*phase)
+
     def get_x(self):
         return self[self.variables[0]]
 
@@ -653,13 +661,11 @@ class ac_solution(solution, _mutable_data):
                     match_phase = ('arg(%s)' % var).upper()
                     ip = [h.upper() for h in headers].index(match_phase)
                     if cplx_data is None:
-                        cplx_data = np.array(data[i, :]*
-                                             np.exp(1j*data[ip,:]).reshape((1, -1)),
+                        cplx_data = np.array(self._phasor(data[i, :], data[ip, :]).reshape((1, -1)),
                                              dtype=np.complex_)
                     else:
                         cplx_data = np.vstack((cplx_data,
-                                               (data[i, :]*
-                                                np.exp(1j*data[ip, :])).reshape((1, -1))))
+                                               self._phasor(data[i, :], data[ip, :]).reshape((1, -1))))
         return cplx_data
 
     # Access as a dictionary BY VARIABLE NAME:
@@ -679,7 +685,7 @@ class ac_solution(solution, _mutable_data):
             # raise the correct exception
             raise KeyError(name)
         if len(headers) == 2:
-            data = data[0, :] * np.exp(1j*data[1, :])
+            data = self._phasor(data[0, :], data[1, :])
         else:
             data = data.reshape((-1,))
         return data
-- 
2.43.0


From 8919857316448fc06159bda746580db32c2455bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 33/56] fix: AC analysis with no sweep type or an array as
 linearization point

---
 ahkab/ac.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 75aba01..8d23f04 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -168,7 +168,7 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
         (ie ``'LIN'``), defaults to ``options.ac_log_step``, resulting in a
         logarithmic sweep.
 
-    x0 : OP results instance, optional
+    x0 : OP results instance or ndarray, optional
         The linearization point. If not set, it will be computed
         running an OP analysis.
 
@@ -206,7 +206,9 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
         raise ValueError("AC analysis has start > stop")
     if points < 2 and not start == stop:
         raise ValueError("AC analysis has number of points < 2 & start != stop")
-    if sweep_type.upper() == options.ac_log_step or sweep_type is None:
+    if sweep_type is None:
+        sweep_type = options.ac_log_step
+    if sweep_type.upper() == options.ac_log_step:
         omega_iter = utilities.log_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
     elif sweep_type.upper() == options.ac_lin_step:
         omega_iter = utilities.lin_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
@@ -255,11 +257,13 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
                     printing.print_info_line(("done.", 3), verbose)
             printing.print_info_line(
                 ("Linearization point (xop):", 5), verbose)
-            if verbose > 4:
+            if verbose > 4 and isinstance(x0, results.op_solution):
                 x0.print_short()
             printing.print_info_line(("Linearizing the circuit...", 5), verbose,
                                      print_nl=False)
-            J = _generate_J(xop=x0.asarray(), circ=circ,
+            # the linearization point may be provided as an array as well
+            xop = x0.asarray() if isinstance(x0, results.op_solution) else x0
+            J = _generate_J(xop=xop, circ=circ,
                             reduced_mna_size=mna.shape[0])
             printing.print_info_line((" done.", 5), verbose)
             # we have J, continue
-- 
2.43.0


From b98db006fa36ffcd87ef4ad0f9052fa30bab66bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 34/56] fix: step of a logarithmic .dc is the ratio of
 successive values

---
 ahkab/netlist_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index e40d9dd..1309a1a 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1528,6 +1528,15 @@ def parse_single_analysis(line):
             pass  # already set by ic_label
         else:
             raise NetlistParseError("Unknown UIC value: %d" % uic)
+    # ... and dc: in a log sweep `step` is the ratio of two successive values
+    if an['type'] == 'dc' and an['sweep_type'].upper()[:3] == options.dc_log_step:
+        if not (an['start'] > 0 and an['stop'] >= an['start'] and an['step'] > 1):
+            raise NetlistParseError("A log sweep needs 0 < start <= stop and step > 1: %s" %
+                                    (" ".join(line_elements)))
+        intervals = int(math.log(an['stop']/an['start'])/math.log(an['step']) + 1e-6)
+        an['stop'] = an['start']*an['step']**intervals
+        if intervals:
+            an['step'] = (an['stop'] - an['start'])/intervals
     # ... and pz :(
     if an['type'] == 'pz':
         an.update({'x0':'op'})
-- 
2.43.0


From 44a025fc72c41583264805897c4f28665e730c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 35/56] fix: DC sweep: unsolved points and the restore of the
 source value

---
 ahkab/dc_analysis.py | 54 ++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 14bf612..13b4546 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -511,6 +511,7 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     elem_type, elem_descr = source[0].lower(), source.lower() # eg. 'v', 'v34'
     sweep_label = elem_type[0].upper() + elem_descr[1:]
 
+    sweep_type = sweep_type.upper()[:3]
     if sweep_type == options.dc_log_step and stop - start < 0:
         printing.print_general_error(
             "DC analysis has log sweeping and negative stepping.")
@@ -519,7 +520,6 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
         raise ValueError("Unbonded stepping in DC analysis.")
 
     points = (stop - start) / step + 1
-    sweep_type = sweep_type.upper()[:3]
     # the quotient is subject to rounding and it may not be an integer, the
     # sweep is not to run past stop in either case.
     if abs(points - round(points)) < 1e-6:
@@ -556,10 +556,7 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     if not source_elem:
         raise ValueError(".DC: source %s was not found." % source)
 
-    if isinstance(source_elem, components.sources.VSource):
-        initial_value = source_elem.dc_value
-    else:
-        initial_value = source_elem.dc_value
+    initial_value = source_elem.dc_value
 
     # If the initial value is set to None, op_analysis will attempt a smart guess (if guess),
     # Then for each iteration, the last result is used as x0, since op_analysis will not
@@ -576,39 +573,32 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     # sweep setup
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
-    index = 0
-    for sweep_value in dc_iter:
-        index = index + 1
-        if isinstance(source_elem, components.sources.VSource):
-            source_elem.dc_value = sweep_value
-        else:
+    solved = False
+    try:
+        for sweep_value in dc_iter:
             source_elem.dc_value = sweep_value
-        # silently calculate the op
-        x = op_analysis(circ, x0=x, guess=guess, verbose=0)
-        if x is None:
-            tick.hide(verbose > 2)
-            if not options.dc_sweep_skip_allowed:
-                print("Could't solve the circuit for sweep value:", start + index * step)
-                solved = False
-                break
-            else:
-                print("Skipping sweep value:", start + index * step)
-                continue
-        solved = True
-        sol.add_op(sweep_value, x)
-
-        tick.step()
+            # silently calculate the op
+            x = op_analysis(circ, x0=x, guess=guess, verbose=0)
+            if x is None:
+                tick.hide(verbose > 2)
+                if not options.dc_sweep_skip_allowed:
+                    print("Could't solve the circuit for sweep value:", sweep_value)
+                    break
+                else:
+                    print("Skipping sweep value:", sweep_value)
+                    continue
+            solved = True
+            sol.add_op(sweep_value, x)
+
+            tick.step()
+    finally:
+        # clean up
+        source_elem.dc_value = initial_value
 
     tick.hide(verbose > 2)
     if solved:
         printing.print_info_line(("done", 3), verbose)
 
-    # clean up
-    if isinstance(source_elem, components.sources.VSource):
-        source_elem.dc_value = initial_value
-    else:
-        source_elem.dc_value = initial_value
-
     return sol if solved else None
 
 
-- 
2.43.0


From 26426bcd8a0e1edcbd27ddf71994c6877571d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 36/56] fix: running an analysis object twice must not
 overwrite the first results

---
 ahkab/ahkab.py | 67 +++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 064e6a8..af64cf1 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -197,6 +197,30 @@ global _queue, _x0s, _print
 _queue = []
 _print = False
 _x0s = {None: None}
+# temporary outfile -> has it received the results of an analysis already?
+_tmp_outfiles = {}
+
+
+def _new_tmp_outfile(suffix):
+    """Create a temporary file for the results, removed at exit.
+
+    **Parameters:**
+
+    suffix : string
+        The suffix of the file name.
+
+    **Returns:**
+
+    outfile : string
+        The file name.
+    """
+    tmpfile = tempfile.NamedTemporaryFile(suffix=suffix, delete=False)
+    outfile = tmpfile.name
+    tmpfile.close()
+    atexit.register(os.remove, outfile)
+    _tmp_outfiles[outfile] = False
+    return outfile
+
 
 def new_op(guess=None, x0=None, outfile=None, verbose=0):
     """Assembles an OP analysis and returns the analysis object.
@@ -240,10 +264,7 @@ def new_op(guess=None, x0=None, outfile=None, verbose=0):
         if options.cli:
             outfile = 'stdout'
         else:
-            tmpfile = tempfile.NamedTemporaryFile(suffix='.op', delete=False)
-            outfile = tmpfile.name
-            tmpfile.close()
-            atexit.register(os.remove, outfile)
+            outfile = _new_tmp_outfile('.op')
     else:
         outfile += '.op'
     return {'type': 'op', 'guess': guess, 'x0': x0, 'outfile': outfile, 'verbose': verbose}
@@ -307,10 +328,7 @@ def new_dc(start, stop, points, source, sweep_type='LINEAR', guess=True, x0=None
         if options.cli:
             outfile = 'stdout'
         else:
-            tmpfile = tempfile.NamedTemporaryFile(suffix='.dc', delete=False)
-            outfile = tmpfile.name
-            tmpfile.close()
-            atexit.register(os.remove, outfile)
+            outfile = _new_tmp_outfile('.dc')
     else:
         outfile += '.dc'
     return {
@@ -373,10 +391,7 @@ def new_tran(tstart, tstop, tstep, x0='op', method=transient.TRAP,
         if options.cli:
             outfile = 'stdout'
         else:
-            tmpfile = tempfile.NamedTemporaryFile(suffix='.tran', delete=False)
-            outfile = tmpfile.name
-            tmpfile.close()
-            atexit.register(os.remove, outfile)
+            outfile = _new_tmp_outfile('.tran')
     else:
         outfile += '.tran'
     return {"type": "tran", "tstart": tstart, "tstop": tstop, "tstep": tstep,
@@ -436,10 +451,7 @@ def new_ac(start, stop, points, x0='op', sweep_type='LOG', outfile=None, verbose
         if options.cli:
             outfile = 'stdout'
         else:
-            tmpfile = tempfile.NamedTemporaryFile(suffix='.ac', delete=False)
-            outfile = tmpfile.name
-            tmpfile.close()
-            atexit.register(os.remove, outfile)
+            outfile = _new_tmp_outfile('.ac')
     else:
         outfile += '.ac'
     return {
@@ -503,10 +515,7 @@ def new_pss(period, x0=None, points=None, method=options.BFPSS, autonomous=False
         if options.cli:
             outfile = 'stdout'
         else:
-            tmpfile = tempfile.NamedTemporaryFile(suffix='.'+method.lower(), delete=False)
-            outfile = tmpfile.name
-            tmpfile.close()
-            atexit.register(os.remove, outfile)
+            outfile = _new_tmp_outfile('.'+method.lower())
     else:
         outfile += '.' + method.lower()
     return {
@@ -563,10 +572,7 @@ def new_pz(input_source=None, output_port=None, shift=0.0, MNA=None, outfile=Non
         if options.cli:
             outfile = 'stdout'
         else:
-            tmpfile = tempfile.NamedTemporaryFile(suffix='.pz', delete=False)
-            outfile = tmpfile.name
-            tmpfile.close()
-            atexit.register(os.remove, outfile)
+            outfile = _new_tmp_outfile('.pz')
     else:
         outfile += '.pz'
     return {'type': "pz", 'input_source':input_source, 'x0':x0,
@@ -646,10 +652,7 @@ def new_symbolic(source=None, ac_enable=True, r0s=False, subs=None, outfile=None
         if options.cli:
             outfile = 'stdout'
         else:
-            tmpfile = tempfile.NamedTemporaryFile(suffix='.symbolic', delete=False)
-            outfile = tmpfile.name
-            tmpfile.close()
-            atexit.register(os.remove, outfile)
+            outfile = _new_tmp_outfile('.symbolic')
     else:
         outfile += '.symbolic'
     return {
@@ -711,6 +714,14 @@ def run(circ, an_list=None):
             printing.print_warning("%s has x0 set to %s, unavailable. Using 'None'." %
                                    (an_type.upper(), an_item['x0']))
             an_item['x0'] = None
+        outfile = an_item.get('outfile')
+        if outfile in _tmp_outfiles:
+            if _tmp_outfiles[outfile]:
+                # the analysis object was run already: do not overwrite the
+                # results that were returned then
+                outfile = _new_tmp_outfile(os.path.splitext(outfile)[1])
+                an_item['outfile'] = outfile
+            _tmp_outfiles[outfile] = True
         r = analysis[an_type](circ, **an_item)
         results.update({an_type: r})
         if an_type == 'op':
-- 
2.43.0


From f17a38ca827978a87d6ee2bc88585d13a45a0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 37/56] fix: result containers: dict update, pz data,
 single-variable op, symbolic iteration

---
 ahkab/results.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 5ec2d48..8a9954e 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -524,7 +524,7 @@ class op_solution(solution, _mutable_data):
 
     def values(self):
         """Get all of the results set's variables values."""
-        return np.squeeze(self.x).tolist()
+        return self.x.reshape(-1).tolist()
 
     def items(self):
         vlist = []
@@ -1156,8 +1156,8 @@ class symbolic_solution(object):
             raise StopIteration
         else:
             self.iter_index += 1
-        return list(self.results.keys())[self.iter_index], \
-               self.results[self._symbols[self.iter_index]]
+        key = list(self.results.keys())[self.iter_index]
+        return key, self.results[key]
 
     def next(self):
         return self.__next__()
@@ -1189,21 +1189,22 @@ class pz_solution(solution, _mutable_data):
         if np.prod(self.zeros.shape):
             for i in range(self.zeros.shape[0]):
                 self.variables += ['z%d' % i]
-            for v in self.variables:
-                self.units.update({v: "rad/s"})
-            self.csv_headers = []
-            for i in range(len(self.variables)):
-                self.csv_headers.append("Re(%s)" % self.variables[i])
-                self.csv_headers.append("Im(%s)" % self.variables[i])
-
-            # save in Re/Im form
-            sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
+        for v in self.variables:
+            self.units.update({v: "rad/s"})
+        self.csv_headers = []
+        for i in range(len(self.variables)):
+            self.csv_headers.append("Re(%s)" % self.variables[i])
+            self.csv_headers.append("Im(%s)" % self.variables[i])
+
+        # save in Re/Im form
+        if len(self.variables) and self.filename is not None:
+            sdata = data.astype(complex).reshape(-1).view(np.float_).reshape((-1, 1))
             self._add_data(sdata)
 
-            # store local data too:
-            self.data = case_insensitive_dict()
-            for i in range(len(self.variables)):
-                self.data.update({self.variables[i]: data[i, 0]})
+        # store local data too:
+        self.data = case_insensitive_dict()
+        for i in range(len(self.variables)):
+            self.data.update({self.variables[i]: data[i, 0]})
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in RE and IM."""
@@ -1335,7 +1336,13 @@ class case_insensitive_dict(object):
     def update(self, adict):
         """Update the dictionary contents with the mapping in the dictionary ``adict``.
         """
-        return self._dict.update(adict)
+        for name, value in adict.items():
+            for key in self._dict:
+                if key.upper() == name.upper():
+                    # already there, possibly spelled differently
+                    name = key
+                    break
+            self._dict[name] = value
 
     # iterator methods
     def __iter__(self):
-- 
2.43.0


From 90c3688b12b47fd7a94051441a8c72317fca4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 38/56] fix: csvlib: skip counts samples, reading at the end of
 file, header rewriting

---
 ahkab/csvlib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 205d259..8f92a48 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -113,7 +113,7 @@ def write_headers(filename, headers):
         the signal names, ordered.
 
     """
-    fp = _get_fp(filename, mode="wb")
+    fp = _get_fp(filename, mode="w")
     headers = copy.copy(headers)
     if not headers[0][0] == '#':
         headers[0] = '#' + headers[0]
@@ -123,6 +123,7 @@ def write_headers(filename, headers):
             fp.write(SEPARATOR)
         else:
             fp.write("\n")
+    _close_fp(fp, filename)
 
 
 def _get_fp(filename, mode="r"):
@@ -262,11 +263,12 @@ def load_csv(filename, load_headers=None, nsamples=None, skip=0, verbose=3):
         raise ValueError("Specified header not found")
 
     fp = _get_fp(filename)
-    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=skip, ndmin=2)
+    # the line of the headers is to be skipped as well
+    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=skip + 1, ndmin=2)
     _close_fp(fp, filename)
 
     # prepare return values
-    EOF = (nsamples is None) or (nsamples == data.shape[1])
+    EOF = (nsamples is None) or (nsamples >= data.shape[1])
     if nsamples is not None:
         data = data[:, :min(nsamples, data.shape[1])]
     pos = skip + data.shape[1]
-- 
2.43.0


From e1b3dd5a601bedbd5443101010d2374c2ff6ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 39/56] fix: netlist parser: malformed numbers, documented
 labels, subcircuit references, comments and continuations

---
 ahkab/ac.py             |   1 +
 ahkab/dc_analysis.py    |   1 +
 ahkab/netlist_parser.py | 121 ++++++++++++++++++++++++----------------
 ahkab/pz.py             |   1 +
 4 files changed, 75 insertions(+), 49 deletions(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 8d23f04..9826fe0 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -109,6 +109,7 @@ from . import (circuit, dc_analysis, components, options, printing, results,
 
 specs = {'ac': {'tokens': ({
                            'label': 'type',
+                           'alias': 'sweep_type',
                            'pos': 0,
                            'type': str,
                            'needed': False,
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 13b4546..f0e5575 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -82,6 +82,7 @@ specs = {'op': {
 },
     'dc': {'tokens': ({
                       'label': 'source',
+                      'alias': 'src',
                       'pos': 0,
                       'type': str,
                       'needed': True,
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 1309a1a..3463a7d 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -186,14 +186,16 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                 if len(line) == 0:
                     break  # check for EOF
                 line_n = line_n + 1
-                line = line.strip().lower()
+                line = line.strip()
                 if line_n == 1:
                     # the first line is always the title
-                    circ.title = line
+                    circ.title = line.lower()
                     continue
                 elif len(line) == 0:
                     continue  # empty line is really empty after strip()
-                line = join_lines(ffile, line)
+                raw_line = join_lines(ffile, line)
+                # file names are case sensitive, everything else is not
+                line = raw_line.lower()
                 if line[0] == "*":  # comments start with *
                     continue
 
@@ -216,7 +218,7 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                         current_subckt_temp = []
                     elif line_elements[0] == '.include':
                         file_list.append(
-                            parse_include_directive(line, netlist_wd))
+                            parse_include_directive(raw_line, netlist_wd))
                     elif line_elements[0] == ".end":
                         break
                     elif line_elements[0] == ".plot":
@@ -341,27 +343,32 @@ def parse_models(models_lines):
         for index in range(3, len(tokens)):
             if tokens[index][0] == "*":
                 break
-            (label, value) = parse_param_value_from_string(tokens[index])
+            (label, value) = parse_param_value_from_string(tokens[index],
+                                                           rtype=str)
+            if label != 'type':
+                value = convert_units(value)
             model_parameters.update({label.upper(): value})
-        if model_type == "ekv":
-            model_iter = ekv.ekv_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "mosq":
-            model_iter = mosq.mosq_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "diode" or model_type == 'd':
-            model_parameters.update({'name': model_label})
-            model_iter = diode.diode_model(**model_parameters)
-        elif model_type == "sw":
-            model_parameters.update({'name': model_label})
-            model_iter = switch.vswitch_model(**model_parameters)
+        model_parameters.update({'name': model_label})
+        try:
+            if model_type == "ekv":
+                model_iter = ekv.ekv_mos_model(**model_parameters)
+            elif model_type == "mosq":
+                model_iter = mosq.mosq_mos_model(**model_parameters)
+            elif model_type == "diode" or model_type == 'd':
+                model_iter = diode.diode_model(**model_parameters)
+            elif model_type == "sw":
+                model_iter = switch.vswitch_model(**model_parameters)
+            else:
+                raise NetlistParseError("parse_models(): Unknown model (" +
+                                        model_type + ") on line " + str(line_n) +
+                                        ".\n\t" + line,)
+        except (TypeError, ValueError) as e:
+            # unknown parameters or values which are not numbers
+            raise NetlistParseError("parse_models(): %s on line %s.\n\t%s" %
+                                    (e, line_n, line))
         # elif model_type == "csw":
         #   model_parameters.update({'name':model_label})
         #   model_iter = switch.iswitch_model(**model_parameters)
-        else:
-            raise NetlistParseError("parse_models(): Unknown model (" +
-                                    model_type + ") on line " + str(line_n) +
-                                    ".\n\t" + line,)
         models.update({model_label: model_iter})
     return models
 
@@ -425,7 +432,7 @@ def parse_elem_capacitor(line, circ):
         raise NetlistParseError("parse_elem_capacitor(): malformed line")
 
     ic = None
-    if len(line_elements) == 5 and not line_elements[4][0] == '*':
+    if len(line_elements) > 4 and not line_elements[4][0] == '*':
         (label, value) = parse_param_value_from_string(line_elements[4])
         if label == "ic":
             ic = convert_units(value)
@@ -460,11 +467,13 @@ def parse_elem_inductor(line, circ):
         A list containing a :class:`ahkab.components.Inductor` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 5 and not line_elements[6][0] == "*"):
+    if len(line_elements) < 4 or \
+       (len(line_elements) > 5 and not line_elements[5][0] == "*" and
+        not line_elements[4][0] == "*"):
         raise NetlistParseError("parse_elem_inductor(): malformed line")
 
     ic = None
-    if len(line_elements) == 5 and not line_elements[4][0] == '*':
+    if len(line_elements) > 4 and not line_elements[4][0] == '*':
         (label, value) = parse_param_value_from_string(line_elements[4])
         if label == "ic":
             ic = convert_units(value)
@@ -499,7 +508,7 @@ def parse_elem_inductor_coupling(line, circ, elements=[]):
         A list containing a :class:`ahkab.components.InductorCoupling` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[5][0] == "*"):
+    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[4][0] == "*"):
         raise NetlistParseError("parse_elem_inductor_coupling(): malformed line")
 
     part_id = line_elements[0]
@@ -715,15 +724,15 @@ def parse_elem_diode(line, circ, models=None):
     for index in range(4, len(line_elements)):
         if line_elements[index][0] == '*':
             break
-        param, value = parse_param_value_from_string(line_elements[index])
+        param, value = parse_param_value_from_string(line_elements[index],
+                                                     rtype=str)
 
-        value = convert_units(value)
         if param == "area":
-            Area = value
+            Area = convert_units(value)
         elif param == "t":
-            T = value
+            T = convert_units(value)
         elif param == "ic":
-            ic = value
+            ic = convert_units(value)
         elif param == "off":
             if not len(value):
                 off = True
@@ -740,7 +749,7 @@ def parse_elem_diode(line, circ, models=None):
     if model_label not in models:
         raise NetlistParseError("parse_elem_diode(): Unknown model id: " + model_label)
     elem = diode.diode(part_id=line_elements[0], n1=n1, n2=n2, model=models[
-                       model_label], AREA=Area, ic=ic, off=off)
+                       model_label], AREA=Area, T=T, ic=ic, off=off)
     return [elem]
 
 
@@ -1206,7 +1215,7 @@ def parse_time_function(ftype, line_elements, stype):
             if (label is None and t['pos'] == i) or label == t['label'] or \
                (stype.lower() == "current" and label in current_labels
                 and current_labels[label] == t['label']):
-                fun_params.update({t['dest']: convert(value, t['type'])})
+                fun_params.update({t['dest']: convert(value, t['type'], raise_exception=True)})
                 assigned = True
                 break
         if assigned:
@@ -1245,8 +1254,8 @@ def convert_units(string_value):
         T = 1e12, G = 1e9, Meg = 1e6, K = 1e3, mil = 25.4x1e-6, m = 1e-3, u =
         1e-6, n = 1e-9, p = 1e-12, f = 1e-15
 
-    :raises ValueError: if the supplied string can't be interpreted according
-    to the above.
+    :raises NetlistParseError: (which is a ``ValueError``) if the supplied
+    string can't be interpreted according to the above.
 
     **Returns:**
 
@@ -1271,9 +1280,12 @@ def convert_units(string_value):
         index = index + 1
     if index == 0:
         # print string_value
-        raise ValueError("Unable to parse value: %s" % string_value)
+        raise NetlistParseError("Unable to parse value: %s" % string_value)
         # return 0
-    numeric_value = float(string_value[:index])
+    try:
+        numeric_value = float(string_value[:index])
+    except ValueError:
+        raise NetlistParseError("Unable to parse value: %s" % string_value)
     multiplier = string_value[index:]
     if len(multiplier) == 0:
         pass # return numeric_value
@@ -1298,7 +1310,7 @@ def convert_units(string_value):
     elif multiplier == "MIL":
         numeric_value = numeric_value * 25.4e-6
     else:
-        raise ValueError("Unknown multiplier %s" % multiplier)
+        raise NetlistParseError("Unknown multiplier %s" % multiplier)
     return numeric_value
 
 
@@ -1374,7 +1386,8 @@ def parse_postproc(circ, postproc_direc):
                     assigned = False
                     for t in params:
                         if (label is None and t['pos'] == i) or label == t['label']:
-                            fpv.update({t['dest']: convert(value, t['type'])})
+                            fpv.update({t['dest']: convert(value, t['type'],
+                                                           raise_exception=True)})
                             assigned = True
                             break
                     if assigned:
@@ -1382,7 +1395,7 @@ def parse_postproc(circ, postproc_direc):
                         continue
                     else:
                         raise NetlistParseError("Unknown .%s parameter: pos %d (%s=)%s" % \
-                                                 (fpv[type].upper(), i, label, value))
+                                                 (fpv['type'].upper(), i, label, value))
                 # is there anything required which is missing?
                 missing = []
                 for t in params:
@@ -1493,8 +1506,9 @@ def parse_single_analysis(line):
             label, value = None, token
         assigned = False
         for t in params:
-            if (label is None and t['pos'] == i) or label == t['label']:
-                an.update({t['dest']: convert(value, t['type'])})
+            if (label is None and t['pos'] == i) or \
+               (label is not None and label in (t['label'], t.get('alias'))):
+                an.update({t['dest']: convert(value, t['type'], raise_exception=True)})
                 assigned = True
                 break
         if assigned:
@@ -1589,7 +1603,7 @@ def convert(astr, rtype, raise_exception=False):
             ret = convert_units(astr)
         except ValueError as msg:
             if raise_exception:
-                raise ValueError(msg)
+                raise NetlistParseError(str(msg))
             else:
                 ret = astr
     elif rtype == str:
@@ -1647,7 +1661,7 @@ def parse_param_value_from_string(astr, rtype=float, raise_exception=False):
     return p, v
 
 
-class NetlistParseError(Exception):
+class NetlistParseError(ValueError):
     """Netlist parsing exception."""
     pass
 
@@ -1666,7 +1680,7 @@ def convert_boolean(value):
     elif value == 'yes' or value == 'true' or value == '1' or value == 1:
         return_value = True
     else:
-        raise NetlistParseError("invalid boolean: " + value)
+        raise NetlistParseError("invalid boolean: %s" % value)
 
     return return_value
 
@@ -1714,7 +1728,7 @@ def parse_sub_declaration(subckt_lines):
                 called on non-subckt text. (line" + str(line_n) + ")")
             name = line_elements[1]
             for node_name in line_elements[2:]:
-                if node_name[0] == '0':
+                if node_name == '0':
                     raise NetlistParseError("subckt " + name + \
                         " has a connection node named '0' (line" + str(
                             line_n) + ")")
@@ -1787,9 +1801,16 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
     # Every subckt adds elements with the _same description_ (elem.part_id[1:])
     # We modify it so that each description is unique for every instance
+    new_ids = {}
+    for element in elements_list:
+        new_ids[element.part_id] = element.part_id[0] + \
+                                   "-" + wrapped_circ.prefix + element.part_id[1:]
     for element in elements_list:
-        element.part_id = element.part_id[0] + \
-                          "-" + wrapped_circ.prefix + element.part_id[1:]
+        element.part_id = new_ids[element.part_id]
+        # ... and so are the references to other elements of the subckt
+        for ref in ('source_id', 'L1', 'L2'):
+            if getattr(element, ref, None) in new_ids:
+                setattr(element, ref, new_ids[getattr(element, ref)])
 
     return elements_list
 
@@ -1823,9 +1844,11 @@ def join_lines(fp, line):
     while True:
         last_pos = fp.tell()
         next = fp.readline()
-        next = next.strip().lower()
         if not next:
-            break
+            break # EOF
+        next = next.strip()
+        if not next:
+            continue # blank line
         elif next[0] == '+':
             line += ' ' + next[1:]
         else:
diff --git a/ahkab/pz.py b/ahkab/pz.py
index 0c64865..73b7e4b 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -82,6 +82,7 @@ specs = {'pz': {'tokens': ({
                            },
                            {
                            'label': 'input',
+                           'alias': 'source',
                            'pos': 1,
                            'type': str,
                            'needed': False,
-- 
2.43.0


From cbd4a4ec82e58650eaa07f0959b6bc813866504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 40/56] fix: netlist lines that parse back to the same element

---
 ahkab/components/Component.py        |  8 ++++++--
 ahkab/components/Inductor.py         |  4 ++--
 ahkab/components/sources/EVSource.py |  2 +-
 ahkab/components/sources/FISource.py |  2 +-
 ahkab/components/sources/GISource.py |  2 +-
 ahkab/components/sources/HVSource.py |  2 +-
 ahkab/components/sources/ISource.py  | 16 ++++++++++------
 ahkab/components/sources/VSource.py  | 12 ++++++++----
 ahkab/diode.py                       |  6 +++---
 ahkab/ekv.py                         |  5 ++---
 ahkab/mosq.py                        | 11 +++++------
 ahkab/switch.py                      |  5 ++---
 ahkab/time_functions.py              |  9 +++++----
 13 files changed, 47 insertions(+), 37 deletions(-)

diff --git a/ahkab/components/Component.py b/ahkab/components/Component.py
index 1d25a32..ff99ac5 100644
--- a/ahkab/components/Component.py
+++ b/ahkab/components/Component.py
@@ -178,5 +178,9 @@ class Component(object):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
-                                nodes_dict[self.n2], self.value)
+        ret = "%s %s %s %s" % (self.part_id, nodes_dict[self.n1],
+                               nodes_dict[self.n2], self.value)
+        # capacitors and inductors may have an initial condition
+        if getattr(self, 'ic', None) is not None:
+            ret += " ic=%s" % self.ic
+        return ret
diff --git a/ahkab/components/Inductor.py b/ahkab/components/Inductor.py
index c2ca6d2..06c5cad 100644
--- a/ahkab/components/Inductor.py
+++ b/ahkab/components/Inductor.py
@@ -120,7 +120,7 @@ class InductorCoupling(Component):
         self.is_symbolic = True
 
     def __str__(self):
-        return "%s %s %g" % (self.L1, self.L2, self.value)
+        return "%s %s %g" % (self.L1, self.L2, self.K)
 
     def get_other_inductor(self, Lselected):
         Lret = None
@@ -147,5 +147,5 @@ class InductorCoupling(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %g" % (self.part_id, self.L1, self.L2, self.K)
+        return "%s %s %s %s" % (self.part_id, self.L1, self.L2, self.K)
 
diff --git a/ahkab/components/sources/EVSource.py b/ahkab/components/sources/EVSource.py
index ec65549..bd4dad2 100644
--- a/ahkab/components/sources/EVSource.py
+++ b/ahkab/components/sources/EVSource.py
@@ -81,7 +81,7 @@ class EVSource(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
                                 nodes_dict[self.sn2], self.alpha)
 
diff --git a/ahkab/components/sources/FISource.py b/ahkab/components/sources/FISource.py
index 50e7d0a..2df879c 100644
--- a/ahkab/components/sources/FISource.py
+++ b/ahkab/components/sources/FISource.py
@@ -84,7 +84,7 @@ class FISource(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.source_id,
                                 self.alpha)
 
diff --git a/ahkab/components/sources/GISource.py b/ahkab/components/sources/GISource.py
index 8e72b20..9618c8f 100644
--- a/ahkab/components/sources/GISource.py
+++ b/ahkab/components/sources/GISource.py
@@ -89,7 +89,7 @@ class GISource(Component):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
                                 nodes_dict[self.sn2], self.alpha)
 
diff --git a/ahkab/components/sources/HVSource.py b/ahkab/components/sources/HVSource.py
index a70c316..48d43b3 100644
--- a/ahkab/components/sources/HVSource.py
+++ b/ahkab/components/sources/HVSource.py
@@ -83,7 +83,7 @@ class HVSource(Component):  # H
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.source_id,
                                 self.alpha)
 
diff --git a/ahkab/components/sources/ISource.py b/ahkab/components/sources/ISource.py
index 8bcffed..6c11d82 100644
--- a/ahkab/components/sources/ISource.py
+++ b/ahkab/components/sources/ISource.py
@@ -61,10 +61,12 @@ class ISource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
+            #           a phase of 180 degrees can be written as a sign
+            sign = -1 if np.cos(self.arg_ac) == -1 else 1
+            rep = rep + "iac=" + str(sign*self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -116,10 +118,12 @@ class ISource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
+            #           a phase of 180 degrees can be written as a sign
+            sign = -1 if np.cos(self.arg_ac) == -1 else 1
+            rep = rep + "iac=" + str(sign*self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/components/sources/VSource.py b/ahkab/components/sources/VSource.py
index 70e5cc2..0644200 100644
--- a/ahkab/components/sources/VSource.py
+++ b/ahkab/components/sources/VSource.py
@@ -64,10 +64,12 @@ class VSource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
             #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            #           a phase of 180 degrees can be written as a sign
+            sign = -1 if np.cos(self.arg_ac) == -1 else 1
+            rep = rep + "vac=" + str(sign*self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -115,10 +117,12 @@ class VSource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
             #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            #           a phase of 180 degrees can be written as a sign
+            sign = -1 if np.cos(self.arg_ac) == -1 else 1
+            rep = rep + "vac=" + str(sign*self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/diode.py b/ahkab/diode.py
index 43fca60..c14310b 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -240,11 +240,11 @@ class diode(object):
         ret = "%s %s %s %s" % (self.part_id, ext_n1, ext_n2, self.model.name)
         # append the optional part:
         # [<AREA=float> <T=float> <IC=float> <OFF=boolean>]
-        ret += " AREA=%g" % self.device.AREA
+        ret += " AREA=%s" % self.device.AREA
         if self.device.T is not None:
-            ret += " T=%g" % self.device.T
+            ret += " T=%s" % self.device.T
         if self.ic is not None:
-            ret += " IC=%g" % self.ic
+            ret += " IC=%s" % self.ic
         if self.off:
             ret += " OFF=1"
         return ret
diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index e72de3e..2bdfbc9 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -351,11 +351,10 @@ class ekv_device:
         return get_value
 
     def get_netlist_elem_line(self, nodes_dict):
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%s l=%s m=%s n=%s" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.ekv_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
+              self.device.W, self.device.L, self.device.M,
               self.device.N)
 
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 08629c0..f22104c 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -422,11 +422,10 @@ class mosq_device(object):
 
     def get_netlist_elem_line(self, nodes_dict):
         """Get the element netlist entry"""
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%s l=%s m=%s n=%s" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.mosq_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
+              self.device.W, self.device.L, self.device.M,
               self.device.N)
 
 
@@ -490,15 +489,15 @@ class mosq_mos_model(object):
         else:
             self.KP = KP_DEFAULT
 
-        self.LAMBDA = LAMBDA if LAMBDA is not None else LAMBDA_DEFAULT
+        self.LAMBDA = float(LAMBDA) if LAMBDA is not None else LAMBDA_DEFAULT
         # Intrinsic model temperature parameters
         self.TCV = self.NPMOS * \
             float(TCV) if TCV is not None else self.NPMOS * TCV_DEFAULT
         self.BEX = float(BEX) if BEX is not None else BEX_DEFAULT
 
         # Monte carlo
-        self.AVT = AVT if AVT is not None else AVT_DEFAULT
-        self.AKP = AKP if AKP is not None else AKP_DEFAULT
+        self.AVT = float(AVT) if AVT is not None else AVT_DEFAULT
+        self.AKP = float(AKP) if AKP is not None else AKP_DEFAULT
 
         self.set_device_temperature(constants.T)
 
diff --git a/ahkab/switch.py b/ahkab/switch.py
index 736220c..b20062e 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -263,10 +263,9 @@ class switch_device:
 
     def get_netlist_elem_line(self, nodes_dict):
         """Return a netlist line corresponding to the switch."""
-        return "%s %s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
-                                nodes_dict[self.sn2], self.model.name, \
-                                str(self.device.is_on))
+                                nodes_dict[self.sn2], self.model.name)
 
 
 VT_DEFAULT = 0.0
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 0988aff..695c1a1 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -612,8 +612,9 @@ class exp(object):
         return "type=exp " + \
             self._type.lower() + "1=" + str(self.v1) + " " + \
             self._type.lower() + "2=" + str(self.v2) + \
-            " td1=" + str(self.td1) + " td2=" + str(self.td2) + \
-            " tau1=" + str(self.tau1) + " tau2=" + str(self.tau2)
+            " td1=" + str(self.td1) + " tau1=" + str(self.tau1) + \
+            (" td2=" + str(self.td2) if math.isfinite(self.td2) else "") + \
+            (" tau2=" + str(self.tau2) if math.isfinite(self.tau2) else "")
 
 
 class sffm(object):
@@ -675,7 +676,7 @@ class sffm(object):
                                               )
 
     def __str__(self):
-        return "type=sffm vo=%g va=%g fc=%g mdi=%g fs=%g td=%g" % \
+        return "type=sffm vo=%s va=%s fc=%s mdi=%s fs=%s td=%s" % \
                 (self.vo, self.va, self.fc, self.mdi, self.fs, self.td)
 
 class am(object):
@@ -733,7 +734,7 @@ class am(object):
                    math.sin(2*math.pi*self.fc*(time - self.td))
 
     def __str__(self):
-        return "type=am sa=%g oc=%g fm=%g fc=%g td=%g" % \
+        return "type=am sa=%s oc=%s fm=%s fc=%s td=%s" % \
                 (self.sa, self.oc, self.fm, self.fc, self.td)
 
 class pwl(object):
-- 
2.43.0


From 5a60fe04ea9d89a8cad334f330da5e63cf1a06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 41/56] fix: Circuit: remove_elem keeps the other elements'
 nodes, node numbers are never shared, refused elements leave no nodes

---
 ahkab/circuit.py | 158 ++++++++++++++++++++++++++++-------------------
 1 file changed, 94 insertions(+), 64 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index eead870..3bad060 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -156,6 +156,7 @@ class Circuit(list):
         self.internal_nodes = 0
         self.models = {}
         self.gnd = '0'
+        self._int_nodes_gaps = False # set by remove_elem()
 
     def __str__(self):
         s = "* " + self.title + "\n"
@@ -192,12 +193,11 @@ class Circuit(list):
         if type(name) not in py3compat.string_types:
             raise TypeError("The node %s should have been of text type" %
                             name)
-        got_ref = 0 in self.nodes_dict
         if name not in self.nodes_dict:
             if name == '0':
                 int_node = 0
             else:
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._get_free_int_node()
             self.nodes_dict.update({int_node:name})
             self.nodes_dict.update({name:int_node})
         else:
@@ -245,14 +245,46 @@ class Circuit(list):
             if ext_name == '0':
                 int_node = 0
             else:
-                got_ref = 0 in self.nodes_dict
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._get_free_int_node()
             self.nodes_dict.update({int_node:ext_name})
             self.nodes_dict.update({ext_name:int_node})
         else:
             int_node = self.nodes_dict[ext_name]
         return int_node
 
+    def _get_free_int_node(self):
+        """Returns the smallest internal node number that is not in use"""
+        int_node = 1
+        while int_node in self.nodes_dict:
+            int_node += 1
+        return int_node
+
+    def _pack_int_nodes(self):
+        """Renumber the internal nodes, closing the gaps in the numbering
+
+        Removing an element may remove a node and leave its number unused. The
+        analyses need the numbers to be consecutive, as they use them as row
+        and column indices.
+        """
+        int_nodes = sorted(n for n in self.nodes_dict if type(n) is int and n)
+        new = dict((n, i + 1) for i, n in enumerate(int_nodes))
+        new[0] = 0
+        nodes_dict = {}
+        for n in new:
+            if n in self.nodes_dict:
+                nodes_dict[new[n]] = self.nodes_dict[n]
+                nodes_dict[self.nodes_dict[n]] = new[n]
+        self.nodes_dict.clear()
+        self.nodes_dict.update(nodes_dict)
+        for elem in self:
+            for attr in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb'):
+                if hasattr(elem, attr):
+                    setattr(elem, attr, new[getattr(elem, attr)])
+            if hasattr(elem, 'ports'):
+                elem.ports = tuple((new[n1], new[n2])
+                                   for n1, n2 in elem.ports)
+        self._int_nodes_gaps = False
+
     def new_internal_node(self):
         """Generate implicit internal nodes.
 
@@ -271,12 +303,22 @@ class Circuit(list):
         """
 
         ext_node = "INT" + str(self.internal_nodes)
+        while ext_node in self.nodes_dict:
+            self.internal_nodes = self.internal_nodes + 1
+            ext_node = "INT" + str(self.internal_nodes)
         self.internal_nodes = self.internal_nodes + 1
         self.create_node(ext_node)
         return ext_node
 
     def get_nodes_number(self):
-        """Returns the number of nodes in the circuit"""
+        """Returns the number of nodes in the circuit
+
+        The analyses call this method to set the size of their matrices: if
+        removing elements left gaps in the internal nodes numbering, they are
+        closed first.
+        """
+        if self._int_nodes_gaps:
+            self._pack_int_nodes()
         return int(len(self.nodes_dict)/2)
 
     def is_int_node_internal_only(self, int_node):
@@ -298,7 +340,7 @@ class Circuit(list):
         if type(int_node) is not int:
             raise TypeError('Expecting an INTERNAL node of type int, got %s.' %
                             type(int_node))
-        return self.nodes_dict[int_node].find("INT") > -1
+        return self.nodes_dict[int_node].startswith("INT")
 
     def is_nonlinear(self):
         """Check whether the circuit is non-linear or not.
@@ -488,12 +530,12 @@ class Circuit(list):
             :func:`add_cccs`, :func:`add_user_defined`, :func:`remove_elem`
 
         """
-        n1 = self.add_node(n1)
-        n2 = self.add_node(n2)
-
         if value == 0:
             raise CircuitError("ZERO-valued resistors are not allowed.")
 
+        n1 = self.add_node(n1)
+        n2 = self.add_node(n2)
+
         elem = components.Resistor(part_id=part_id, n1=n1, n2=n2, value=value)
         self.append(elem)
 
@@ -698,13 +740,14 @@ class Circuit(list):
         off : bool, optional
             Consider the diode to be initially off.
         """
-        n1 = self.add_node(n1)
-        n2 = self.add_node(n2)
         if models is None:
             models = self.models
         if model_label not in models:
             raise ModelError("Unknown diode model id: " + model_label)
 
+        n1 = self.add_node(n1)
+        n2 = self.add_node(n2)
+
         elem = diode.diode(part_id=part_id, n1=n1, n2=n2, model=models[
                            model_label], AREA=Area, T=T, ic=ic, off=off)
         self.append(elem)
@@ -740,17 +783,17 @@ class Circuit(list):
         n : int, optional
             Series multiplier value, not always supported. Defaults to 1.
         """
-        nd = self.add_node(nd)
-        ng = self.add_node(ng)
-        ns = self.add_node(ns)
-        nb = self.add_node(nb)
-
         if models is None:
             models = self.models
 
         if model_label not in models:
             raise ModelError("Unknown model id: " + model_label)
 
+        nd = self.add_node(nd)
+        ng = self.add_node(ng)
+        ns = self.add_node(ns)
+        nb = self.add_node(nb)
+
         if isinstance(models[model_label], ekv.ekv_mos_model):
             elem = ekv.ekv_device(part_id, nd, ng, ns, nb, w, l,
                                   models[model_label], m, n)
@@ -955,16 +998,16 @@ class Circuit(list):
             instances. If not set or ``None``, the circuit models will be used (recommended).
         """
 
-        n1 = self.add_node(n1)
-        n2 = self.add_node(n2)
-        sn1 = self.add_node(sn1)
-        sn2 = self.add_node(sn2)
-
         if models is None:
             models = self.models
         if model_label not in models:
             raise ModelError("Unknown switch model id: " + model_label)
 
+        n1 = self.add_node(n1)
+        n2 = self.add_node(n2)
+        sn1 = self.add_node(sn1)
+        sn2 = self.add_node(sn2)
+
         elem = switch.switch_device(part_id=part_id, n1=n1, n2=n2, sn1=sn1,
                                     sn2=sn2, model=models[model_label])
 
@@ -1030,50 +1073,37 @@ class Circuit(list):
         else:
             # we got the element
             elem = elem_or_id
-        self.remove(elem)
-        nodes = []
-        if hasattr(elem, 'n1') and elem.n1 != 0:
-            nodes = nodes + [elem.n1]
-        if hasattr(elem, 'n2') and elem.n2 != 0 and elem.n2 not in nodes:
-            nodes = nodes + [elem.n2]
-        if elem.is_nonlinear:
-            for n1, n2 in elem.ports:
-                if n1 != 0 and n1 not in nodes:
-                    nodes = nodes + [n1]
-                if n2 != 0 and n2 not in nodes:
-                    nodes = nodes + [n2]
-        # check if then nodes are needed by other elements
-        remove_list = copy.copy(nodes)
-        for n in nodes:
+        # compare the elements by identity: which one gets removed matters
+        for index, e in enumerate(self):
+            if e is elem:
+                del self[index]
+                break
+        else:
+            raise ValueError('Element %s not found' % elem)
+        if isinstance(elem, components.InductorCoupling):
+            # the inductors are not coupled anymore
             for e in self:
-                if hasattr(elem, 'n1') and e.n1 == n or \
-                   hasattr(elem, 'n2') and e.n2 == n or \
-                   hasattr(elem, 'sn1') and e.sn1 == n or \
-                   hasattr(elem, 'sn2') and e.sn2 == n:
-                    remove_list.remove(n)
-                    break
-                if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    # check output ports
-                    for n1, n2 in oports:
-                        if n1 == n or n2 == n:
-                            remove_list.remove(n)
-                            break
-                    if n not in remove_list:
-                        break
-                    # check the ports that drive them
-                    for i in range(len(oports)):
-                        dports = elem.get_drive_ports(i)
-                        for n1, n2 in oports:
-                            if n1 == n or n2 == n:
-                                remove_list.remove(n)
-                                break
-                        if n not in remove_list:
-                            break
-
-        for n in remove_list:
-            self.nodes_dict.pop(self.nodes_dict[n])
-            self.nodes_dict.pop(n)
+                if isinstance(e, components.Inductor) and \
+                   elem in e.coupling_devices:
+                    e.coupling_devices.remove(elem)
+        # purge the nodes no other element is connected to
+        needed = set([0])
+        for e in self:
+            needed.update(self._get_elem_nodes(e))
+        for n in self._get_elem_nodes(elem):
+            if n not in needed:
+                self.nodes_dict.pop(self.nodes_dict.pop(n))
+                self._int_nodes_gaps = True
+
+    @staticmethod
+    def _get_elem_nodes(elem):
+        """Returns the set of the internal nodes ``elem`` is connected to"""
+        nodes = set(getattr(elem, attr) for attr in
+                    ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb')
+                    if hasattr(elem, attr))
+        for port in getattr(elem, 'ports', ()):
+            nodes.update(port)
+        return nodes
 
     def find_vde_index(self, elem_or_id, verbose=3):
         """Finds a voltage-defined element MNA index.
-- 
2.43.0


From aca5713a2924c4bf05d862be65843048ccc04b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 42/56] fix: each analysis starts with the switches in their
 initial status

---
 ahkab/switch.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ahkab/switch.py b/ahkab/switch.py
index b20062e..e54e97c 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -104,7 +104,8 @@ class switch_device:
         class dev_class:
             pass
         self.device = dev_class()
-        self.device.is_on = ic if ic is not None else False
+        self._initially_on = ic if ic is not None else False
+        self.device.is_on = self._initially_on
         self.sn1 = sn1
         self.sn2 = sn2
         self.n1 = n1
@@ -118,6 +119,15 @@ class switch_device:
         self.is_symbolic = True
         self.dc_guess = self.model.get_dc_guess(self.device.is_on)
 
+    def reset(self):
+        """Bring the switch back to its initial status.
+
+        With hysteresis, the status depends on the voltages seen before: an
+        analysis should not start from the one left by the previous analysis.
+        """
+        self.device.is_on = self._initially_on
+        self.opdict = {'state': (float('nan'), float('nan'))}
+
     def get_drive_ports(self, op):
         """Get the ports that drive the output ports.
 
-- 
2.43.0


From 6f3f4988a8fe0fa75e8d29819318d94d42d111bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 43/56] fix: run() resets the devices with memory, main() drops
 the initial states of circuits simulated before

---
 ahkab/ahkab.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index af64cf1..7a9b573 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -722,6 +722,10 @@ def run(circ, an_list=None):
                 outfile = _new_tmp_outfile(os.path.splitext(outfile)[1])
                 an_item['outfile'] = outfile
             _tmp_outfiles[outfile] = True
+        for elem in circ:
+            if hasattr(elem, 'reset'):
+                # the devices with memory start afresh
+                elem.reset()
         r = analysis[an_type](circ, **an_item)
         results.update({an_type: r})
         if an_type == 'op':
@@ -948,6 +952,9 @@ def main(filename, outfile="stdout", verbose=3):
             circ.models[m].print_model()
         print("")
 
+    # the initial states of other circuits are of no use here
+    _x0s.clear()
+    _x0s.update({None: None})
     ic_list = netlist_parser.parse_ics(directives)
     _handle_netlist_ics(circ, an_list=[], ic_list=ic_list)
     results = {}
-- 
2.43.0


From 93b9fdfe4f88c7e2298626607a73ca46e8691b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 44/56] fix: operating point power: GISource senses its own
 control current, CCVS power is its voltage times current

---
 ahkab/results.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 8a9954e..17d2cfb 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -391,8 +391,8 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 vs = 0
-                vs = vs + x[elem.n1-1] if elem.sn1 != 0 else vs
-                vs = vs - x[elem.n2-1] if elem.sn2 != 0 else vs
+                vs = vs + x[elem.sn1-1] if elem.sn1 != 0 else vs
+                vs = vs - x[elem.sn2-1] if elem.sn2 != 0 else vs
                 tot_power = tot_power - v*vs*elem.alpha
             elif isinstance(elem, components.sources.ISource):
                 v = 0
@@ -400,7 +400,8 @@ class op_solution(solution, _mutable_data):
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 tot_power = tot_power - v*elem.I()
             elif isinstance(elem, components.sources.VSource) or \
-                 isinstance(elem, components.sources.EVSource):
+                 isinstance(elem, components.sources.EVSource) or \
+                 isinstance(elem, components.sources.HVSource):
                 v = 0
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
@@ -423,15 +424,6 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1 - 1] if elem.n1 != 0 else v
                 v = v - x[elem.n2 - 1] if elem.n2 != 0 else v
                 tot_power = tot_power - v * elem.alpha * x[nv_1 + local_i_index, 0]
-            elif isinstance(elem, components.sources.HVSource):
-                try:
-                    local_i_index = circ.find_vde_index(elem.source_id)
-                except ValueError:
-                    raise RuntimeError("Sensing voltage source %s for %s not found. BUG!" %
-                                       (elem.source_id, elem.part_id))
-                local_i_index2 = circ.find_vde_index(elem.part_id)
-                tot_power = tot_power - elem.alpha*x[nv_1 + local_i_index, 0]* \
-                                        x[nv_1 + local_i_index2, 0]
             elif circuit.is_elem_voltage_defined(elem):
                 i_index = i_index + 1
 
-- 
2.43.0


From 006b5accdc9d085dd00c16e9486455f36f79b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:35 +0000
Subject: [PATCH 45/56] fix: MOS square-law report: region, VTH, VOD and
 on/saturation flags from the terminal voltages of the device as normalised

---
 ahkab/mosq.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index f22104c..dc90979 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -256,19 +256,21 @@ class mosq_device(object):
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
-            vds, vgs, _ = ports_v[0]
+            # the region of operation follows from the voltages of the
+            # equivalent n-channel device, with the drain where VDS >= 0
+            (vds, vgs, vbs), _ = self.mosq_model.get_voltages(*ports_v[0])
+            VTH = self.mosq_model.get_VT((vds, vgs, vbs), self.device)
             self.opdict['state'] = state
             gstamp = self.gstamp(ports_v[0], reduced=False)[1]
             self.opdict['gmd'] = gstamp[0, 0]
             self.opdict['gm'] = gstamp[0, 1]
             self.opdict['gmb'] = gstamp[0, 3]
             self.opdict['Ids'] = self.istamp(ports_v[0], reduced=False)[1][0]
-            self.opdict.update({'VTH':self.mosq_model.get_VT(ports_v[0], self.device)})
+            self.opdict.update({'VTH':self.mosq_model.NPMOS*VTH})
             self.opdict.update({'W':self.device.W, 'L':self.device.L,
-                                'ON':(vgs >= self.opdict['VTH'])})
+                                'ON':(vgs >= VTH)})
             self.opdict.update({'beta':.5*self.mosq_model.KP*self.device.W/self.device.L})
-            self.opdict.update({'VOD':self.mosq_model.NPMOS*(vgs - self.opdict['VTH']),
-                                'SAT':vds > vgs - self.opdict['VTH']})
+            self.opdict.update({'VOD':vgs - VTH, 'SAT':vds > vgs - VTH})
         else:
             pass
             #already up to date
-- 
2.43.0


From 7bf28e2647eec8ae9983c5a0be747511ba543acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 46/56] fix: row and column removal accept None, step and
 points agree without drift

---
 ahkab/utilities.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index ee30470..17f6ead 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -129,6 +129,7 @@ def remove_row_and_col(matrix, rrow=0, rcol=0):
         return np.vstack((matrix[:rrow, :], matrix[rrow+1:, :]))
     elif rcol is not None:
         return np.hstack((matrix[:, :rcol], matrix[:, rcol+1:]))
+    return matrix
 
 
 def remove_row(matrix, rrow=0):
@@ -151,6 +152,8 @@ def remove_row(matrix, rrow=0):
     matrix : ndarray
         A reference to the modified matrix.
     """
+    if rrow is None:
+        return matrix
     return np.vstack((matrix[:rrow, :], matrix[rrow+1:, :]))
 
 
@@ -582,13 +585,12 @@ def check_step_and_points(step=None, points=None, period=None,
     if points:
         step = float(period)/(points - 1)
     else:
-        points = float(period)/step
-        if points % 1 != 0:
-            step = step + (step * (points % 1)) / int(points)
-            points = int(float(period)/step)
+        ratio = float(period)/step
+        # floor(), unless only rounding keeps the ratio below an integer
+        points = max(int(ratio*(1 + 1e-9)), 1)
+        step = float(period)/points
+        if abs(ratio - points) > 1e-9*points:
             printing.print_warning("adapted step is %g" % (step,))
-        else:
-            points = int(points)
         # 0 - N where xN is in reality the first point of the second period!!
         points = points + 1
 
-- 
2.43.0


From 14e272afb78877fbf61cfb44faa9c25a381f83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 47/56] fix: pole-zero analysis of coupled inductors, nonlinear
 circuits, labels, singular equations and repeated singularities at infinity

---
 ahkab/pz.py      | 327 ++++++++++++++++++++++++++---------------------
 ahkab/results.py |   2 +-
 2 files changed, 185 insertions(+), 144 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 73b7e4b..2f73e9f 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -37,9 +37,8 @@ and:
     *Proceedings of the 34th Midwest Symposium on*, pp.380,
     383 vol.1, 14-17 May 1991
 
-Frequency sweeping -- or shifting -- is performed with a random frequency
-kick, currently, hoping not to kick so hard that we end up on the negative side.
-A bisection method would be better and hopefully will be implemented soon.
+If the calculation cannot be carried out at the frequency requested, because it
+is a pole or a zero, it is shifted to the first suitable frequency of a grid.
 
 Overview
 ~~~~~~~~
@@ -65,7 +64,6 @@ import numpy as np
 from . import circuit
 from . import dc_analysis
 from . import components
-from . import transient
 from . import plotting
 from . import printing
 from . import py3compat
@@ -100,13 +98,6 @@ specs = {'pz': {'tokens': ({
                }
         }
 
-def _enlarge_matrix(M):
-    if M is None:
-        return np.zeros((1, 1))
-    else:
-        return np.vstack((np.hstack((M, np.zeros((M.shape[0], 1)))),
-                         np.zeros((1, M.shape[1] + 1))))
-
 def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     """Calculate the circuit poles.
 
@@ -130,8 +121,114 @@ def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     pz_sol : pz_solution instance
         The PZ solution, with no zeros.
     """
-    return calculate_singularities(mc, input_source=None, output_port=None, 
-                                   MNA=None, shift=0)[0]
+    return calculate_singularities(mc, input_source=None, output_port=None,
+                                   MNA=MNA, x0=x0, shift=0, outfile=outfile,
+                                   verbose=verbose)
+
+def _elem_excitation(mc, elem, vde, nodes_m1):
+    """The column through which a reactive element or a source acts
+
+    ``vde`` is the index of the current of ``elem``, if it has got one. The
+    column is in per-unit: it corresponds to a unitary capacitance, inductance
+    or source value.
+    """
+    col = np.zeros((nodes_m1 + sum(circuit.is_elem_voltage_defined(e)
+                                   for e in mc), 1))
+    if isinstance(elem, (components.Capacitor, components.sources.ISource)):
+        if elem.n1:
+            col[elem.n1 - 1, 0] += 1.
+        if elem.n2:
+            col[elem.n2 - 1, 0] -= 1.
+    else:
+        col[nodes_m1 + vde, 0] -= 1.
+        if isinstance(elem, components.Inductor):
+            # the current induces a voltage in the coupled inductors too
+            for cd in elem.coupling_devices:
+                other = cd.get_other_inductor(elem.part_id)
+                col[nodes_m1 + mc.find_vde_index(other, verbose=0), 0] -= \
+                    cd.M/elem.value
+    return col
+
+def _invert(MNA, D, shift):
+    """Invert ``MNA + shift*D``
+
+    **Returns:**
+
+    inv : ndarray or None
+        The inverse, ``None`` if the matrix is (numerically) singular.
+    noise : function
+        Given a vector ``b``, get a bound on the effects of rounding in
+        ``inv*b``.
+    cond : float
+        The condition number of the equilibrated matrix.
+    """
+    M = MNA + shift*D
+    # scale, so that siemens and ohms may be compared
+    row = np.abs(M).max(axis=1).reshape((-1, 1))
+    if not row.all():
+        return None, None, None
+    col = np.abs(M/row).max(axis=0).reshape((1, -1))
+    if not col.all():
+        return None, None, None
+    Ms = M/row/col
+    try:
+        inv = np.linalg.inv(Ms)
+    except np.linalg.LinAlgError:
+        return None, None, None
+    cond = np.linalg.norm(inv, 1)*np.linalg.norm(Ms, 1)
+    if not cond < 1e13:
+        return None, None, None
+    inv = np.where(np.abs(inv) > 1e-18*np.abs(inv).max(), inv, 0.)/col.T/row.T
+    def noise(b):
+        size = np.abs(np.dot(inv, b)*col.T).max()
+        return np.finfo(float).eps*cond*size/col.T
+    return inv, noise, cond
+
+def _select_shift(MNA, D, shift, source=None, out=None):
+    """Select a frequency that is neither a pole nor a zero
+
+    The frequency ``shift`` is selected if suitable. The quality of the shift
+    takes into account the conditioning of the equations and, if ``source`` and
+    ``out`` are set, how much their transfer function exceeds rounding errors.
+
+    **Returns:**
+
+    (quality, shift, inv) : tuple
+        The quality, the shift and the inverse of ``MNA + shift*D``, which is
+        ``None`` if no shift is suitable.
+    """
+    best = (0., shift, None)
+    for sh in [shift] + [10.**k for k in range(3, 13)] + \
+              [10.**k for k in range(2, -7, -1)]:
+        inv, noise, cond = _invert(MNA, D, sh)
+        if inv is None:
+            continue
+        quality = 1./(np.finfo(float).eps*cond)
+        if source is not None:
+            level = np.dot(np.abs(out), noise(source))[0, 0]
+            gain = np.abs(np.dot(out, np.dot(inv, source)))[0, 0]
+            quality = min(quality, gain/level if level else 0.)
+        if quality > best[0]:
+            best = (quality, sh, inv)
+        if quality > 1e6:
+            break
+    return best
+
+def _product(*matrices):
+    """Matrix product, in which the elements that cancel out are exactly null
+
+    Rounding would make multiple singularities at infinity finite otherwise.
+    """
+    prod, size = matrices[0], np.abs(matrices[0])
+    for m in matrices[1:]:
+        prod, size = np.dot(prod, m), np.dot(size, np.abs(m))
+    return np.where(np.abs(prod) > 1e-13*size, prod, 0.)
+
+def _inverse_eigvals(M):
+    """The inverse of the eigenvalues, those that are null left out"""
+    eigvals = np.linalg.eigvals(M)
+    limit = 1e-13*np.abs(eigvals).max()
+    return np.array([1./x for x in eigvals if np.abs(x) > limit])
 
 def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                             x0=None, shift=0, outfile=None, verbose=0):
@@ -177,9 +274,12 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         if type(input_source) not in py3compat.string_types:
             input_source = input_source.part_id
         if type(output_port) in py3compat.string_types:
-            output_port = plotting._split_netlist_label(output_port)[0] 
-            output_port = [o[1:] for o in output_port]
-            output_port = [o.lower() for o in output_port]
+            if output_port in mc.nodes_dict:
+                output_port = [output_port]
+            else:
+                output_port = plotting._split_netlist_label(output_port)[0]
+                output_port = [o[1:].lower() for o in output_port
+                               if o is not None]
             if len(output_port) == 1:
                 # we refer to the ground implicitely
                 output_port += ['0']
@@ -188,15 +288,16 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         if (type(output_port) == tuple or type(output_port) == list) \
            and type(output_port[0]) in py3compat.string_types:
             output_port = [mc.ext_node_to_int(o) for o in output_port]
-        we_got_source = False
+        input_elem = None
         for e in mc:
-            if e.part_id == input_source:
-                we_got_source = True
+            if e.part_id.lower() == input_source.lower():
+                input_elem = e
                 break
-        if not we_got_source:
+        if input_elem is None:
             raise ValueError('Source %s not found in circuit.' % input_source)
-        RIIN = []
-        ROUT = []
+        if not isinstance(input_elem, (components.sources.VSource,
+                                       components.sources.ISource)):
+            raise Exception("Unknown input source type %s" % input_source)
     if MNA is None:
         MNA, N = dc_analysis.generate_mna_and_N(mc)
         if mc.is_nonlinear():
@@ -211,131 +312,71 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                     # hopefully x0 is an ndarray!
                 printing.print_info_line(("Using the supplied op as " +
                                       "linearization point.", 5), verbose)
-            J, _ = dc_analysis.build_J_and_Tx(x0, MNA.shape[0]-1, mc, time=0., sparse=False)
+            J = np.zeros((MNA.shape[0] - 1, MNA.shape[0] - 1))
+            Tlin = np.zeros((MNA.shape[0] - 1, 1))
+            for elem in mc:
+                if elem.is_nonlinear:
+                    dc_analysis._update_J_and_Tx(J, Tlin, x0, elem, time=None)
             MNA[1:, 1:] += J
-    D = transient.generate_D(mc, MNA[1:, 1:].shape)
-    MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
+    MNA = MNA[1:, 1:]
     nodes_m1 = mc.get_nodes_number() - 1
-    vde1 = -1
-    MC = np.zeros((MNA.shape[0] - 1, 1))
-    TCM = None
-    dei_source = 0
-    for e1 in mc:
-        if circuit.is_elem_voltage_defined(e1):
-            vde1 += 1
-        if isinstance(e1, components.Capacitor):
-            MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-            MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-        elif isinstance(e1, components.Inductor):
-            MC[nodes_m1 + vde1] += -1.
-        elif calc_zeros and e1.part_id == input_source:
-            if isinstance(e1, components.sources.VSource):
-                MC[nodes_m1 + vde1] += -1.
-            elif isinstance(e1, components.sources.ISource):
-                MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-                MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-            else:
-                raise Exception("Unknown input source type %s" % input_source)
-        else:
-            continue
-        TV = -1. * np.dot(MNAinv, MC)
-        dei_victim = 0
-        vde2 = -1
-        for e2 in mc:
-            if circuit.is_elem_voltage_defined(e2):
-                vde2 += 1
-            if isinstance(e2, components.Capacitor):
-                v = 0
-                if e2.n1:
-                    v += TV[e2.n1 - 1, 0]
-                if e2.n2:
-                    v -= TV[e2.n2 - 1, 0]
-            elif isinstance(e2, components.Inductor):
-                v = TV[nodes_m1 + vde2, 0]                
-            else:
+
+    # Each reactive element acts as a source would do, its value being
+    # proportional to its voltage (capacitors) or current (inductors)
+    values, excitations, sensed = [], [], []
+    vde = -1
+    for e in mc:
+        if circuit.is_elem_voltage_defined(e):
+            vde += 1
+        if isinstance(e, (components.Capacitor, components.Inductor)):
+            if not e.value:
                 continue
-            if calc_zeros and e1.part_id == input_source:
-                RIIN += [v]
-            else:
-                if not dei_source:
-                    TCM = _enlarge_matrix(TCM)
-                TCM[dei_victim, dei_source] = v*e1.value
-                dei_victim += 1
-        if calc_zeros and e1.part_id == input_source:
-            ROUTIN = 0
-            o1, o2 = output_port
-            if o1:
-                ROUTIN += TV[o1 - 1, 0]
-            if o2:
-               ROUTIN -= TV[o2 - 1, 0]
-        else:
-            dei_source += 1
-        # reset, get ready to restart
-        MC[:, :] = 0.
-    if TCM is not None:
-        if np.linalg.det(TCM):
-            poles = 1./(2.*np.pi)*(1./np.linalg.eigvals(TCM) + shift)
-        else:
-            return calculate_singularities(mc, input_source, output_port, MNA=MNA,
-                                           outfile=outfile, 
-                                           shift=shift+np.abs(1+np.random.uniform())*1e3)
-    else:
-        poles = []
-    if calc_zeros and TCM is not None:
-        # re-loop, get the ROUT elements
-        vde1 = -1
-        MC = np.zeros((MNA.shape[0] - 1, 1))
-        ROUT = []
-        for e1 in mc:
-            if circuit.is_elem_voltage_defined(e1):
-                vde1 += 1
-            if isinstance(e1, components.Capacitor):
-                MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-                MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-            elif isinstance(e1, components.Inductor):
-                MC[nodes_m1 + vde1, 0] += -1.
+            excitations.append(_elem_excitation(mc, e, vde, nodes_m1))
+            row = np.zeros((1, MNA.shape[0]))
+            if isinstance(e, components.Capacitor):
+                if e.n1:
+                    row[0, e.n1 - 1] += 1.
+                if e.n2:
+                    row[0, e.n2 - 1] -= 1.
             else:
-                continue
-            TV = -1.*np.dot(MNAinv, MC)
-            v = 0
-            o1, o2 = output_port
-            if o1:
-                v += TV[o1 - 1, 0]
-            if o2:
-               v -= TV[o2 - 1, 0]
-            ROUT += [v*e1.value]
-            # reset, get ready to restart
-            MC[:, :] = 0.
-        # Reshape the matrices and evaluate the zero correction.
-        RIIN = np.array(RIIN).reshape((-1, 1))
-        RIIN = np.tile(RIIN, (1, RIIN.shape[0]))
-        ROUT = np.diag(np.atleast_1d(np.array(ROUT)))
-        if ROUT.any():
-            try:
-                if not np.all(ROUTIN) or not np.isfinite(ROUTIN):
-                    # immediate catch
-                    raise ValueError("ROUT-IN is either Inf, NaN or null")
-                ZTCM = TCM - np.dot(RIIN, ROUT)/ROUTIN
-                if not (np.isfinite(ZTCM).all()):
-                    raise ValueError("Array contains infs, NaNs or both")
-                    # immediate catch
-                eigvals = np.linalg.eigvals(ZTCM)
-                if not np.all(eigvals) or not np.isfinite(eigvals).all():
-                    # immediate catch
-                    raise ValueError("ZTCM eigenvalues contain either Inf, NaN or null values")
-                zeros = 1./(2.*np.pi)*(1./np.linalg.eigvals(ZTCM) + shift)
-            except ValueError:
-                return calculate_singularities(mc, input_source, output_port, 
-                                           MNA=MNA, outfile=outfile,
-                                           shift=shift+np.abs(np.random.uniform()+1)*1e3)
-        elif shift < 1e12:
-            return calculate_singularities(mc, input_source, output_port, 
-                                       MNA=MNA, outfile=outfile,
-                                       shift=shift*np.abs(np.random.uniform()+1)*10)
-        else:
-            zeros = []
-    else:
-        zeros = []
+                row[0, nodes_m1 + vde] = 1.
+            sensed.append(row)
+            values.append(e.value)
+        elif calc_zeros and e is input_elem:
+            source = _elem_excitation(mc, e, vde, nodes_m1)
+    if calc_zeros:
+        out = np.zeros((1, MNA.shape[0]))
+        o1, o2 = output_port
+        if o1:
+            out[0, o1 - 1] += 1.
+        if o2:
+            out[0, o2 - 1] -= 1.
+
+    poles, zeros = [], []
+    if len(values):
+        B = np.hstack(excitations)*np.array(values)
+        S = np.vstack(sensed)
+        # the equations are MNA x + D dx/dt = 0
+        D = np.dot(B, S)
+        quality, shp, MNAinv = _select_shift(MNA, D, shift)
+        if MNAinv is None:
+            raise ValueError("The circuit has no finite poles and zeros: its " +
+                             "equations are singular at any frequency.")
+        TCM = -_product(S, MNAinv, B)
+        poles = (_inverse_eigvals(TCM) + shp)/(2.*np.pi)
+        if calc_zeros:
+            quality, shz, MNAinv = _select_shift(MNA, D, shift, source, out)
+        # no zeros if the output does not depend on the input
+        if calc_zeros and quality > 1e3:
+            # evaluate the zero correction.
+            TCM = -_product(S, MNAinv, B)
+            RIIN = -_product(S, MNAinv, source)
+            ROUT = -_product(out, MNAinv, B)
+            ROUTIN = -np.dot(out, np.dot(MNAinv, source))[0, 0]
+            if ROUT.any():
+                ZTCM = _product(np.hstack((TCM, RIIN)),
+                                np.vstack((np.eye(len(values)), -ROUT/ROUTIN)))
+                zeros = (_inverse_eigvals(ZTCM) + shz)/(2.*np.pi)
     poles = np.array([a for a in poles if np.abs(a) < options.pz_max], dtype=np.complex_)
     zeros = np.array([a for a in zeros if np.abs(a) < options.pz_max], dtype=np.complex_)
     poles = np.sort_complex(poles)
diff --git a/ahkab/results.py b/ahkab/results.py
index 17d2cfb..ac99d1c 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1182,7 +1182,7 @@ class pz_solution(solution, _mutable_data):
             for i in range(self.zeros.shape[0]):
                 self.variables += ['z%d' % i]
         for v in self.variables:
-            self.units.update({v: "rad/s"})
+            self.units.update({v: "Hz"})
         self.csv_headers = []
         for i in range(len(self.variables)):
             self.csv_headers.append("Re(%s)" % self.variables[i])
-- 
2.43.0


From 527361320b3000742ca2435125204bbff338e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:49 +0000
Subject: [PATCH 48/56] fix: symbolic analysis: node voltages called as
 sources, substitutions, numeric elements, cancelled singularities, the manual
 solver

---
 ahkab/symbolic.py | 68 ++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 775f82d..82f05fd 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -142,7 +142,7 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     if subs is None:
         subs = {}  # no subs by default
     else:
-        subs = _parse_substitutions(subs)
+        subs = _parse_substitutions(subs, circ)
 
     if not ac_enable:
         printing.print_info_line(
@@ -166,12 +166,14 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line((sympy.sstr(N), 5), verbose)
 
     printing.print_info_line(("Building equations...", 3), verbose)
+    # A node voltage may be called as an element is (V1: the voltage of the node
+    # '1' and the source V1): solve for unique symbols
+    x = _to_real_list(x)
+    unknowns = [sympy.Dummy(xi.name) for xi in x]
     eq = []
-    for i in _to_real_list(mna * x + N):
+    for i in _to_real_list(mna * sympy.Matrix(unknowns) + N):
         eq.append(sympy.Eq(i, 0))
 
-    x = _to_real_list(x)
-
     if verbose > 3:
         printing.print_symbolic_equations(eq)
     printing.print_info_line(("To be solved for:", 4), verbose)
@@ -179,10 +181,13 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     printing.print_info_line(("Solving...", 1), verbose)
 
     sol = sympy.solve(
-            eq, x, manual=options.symb_sympy_manual_solver, simplify=True)
+            eq, unknowns, manual=options.symb_sympy_manual_solver, simplify=True,
+            dict=True)
+    sol = sol[0] if len(sol) else {}
 
-    for ks in list(sol.keys()):
-        sol.update({ks: sol[ks].subs(subs_g)})
+    names = dict(zip(unknowns, x))
+    sol = dict((names[ks], sol[ks].subs(subs_g).subs(names))
+               for ks in unknowns if ks in sol)
 
     if sol == {}:
         printing.print_warning("No solutions. Check the netlist.")
@@ -412,7 +417,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if alpha in subs:  # instant substitution
                     alpha = subs[alpha]
             else:
-                alpha = elem.value
+                alpha = elem.alpha
             mna[elem.n1, elem.sn1] = mna[elem.n1, elem.sn1] + alpha
             mna[elem.n1, elem.sn2] = mna[elem.n1, elem.sn2] - alpha
             mna[elem.n2, elem.sn1] = mna[elem.n2, elem.sn1] - alpha
@@ -505,7 +510,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         if L in subs:  # instant substitution
                             L = subs[L]
                     else:
-                        L = elem.L
+                        L = elem.value
                     mna[index, index] = -s * L
                 else:
                     pass
@@ -528,7 +533,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     if M in subs:  # instant substitution
                         M = subs[M]
                 else:
-                    M = cd.K
+                    M = cd.M
                 # get `part_id` of the other inductor (eg. "L32")
                 other_id_wdescr = cd.get_other_inductor(elem.part_id)
                 # find its index to know which column corresponds to
@@ -578,28 +583,25 @@ def _expand_matrix(mat, add_a_row=False, add_a_col=False):
 def get_roots(expr):
     """Given the transfer function ``expr``, returns ``poles, zeros``.
     """
-    num, den = sympy.fraction(expr)
+    # a common factor is neither a pole nor a zero
+    num, den = sympy.fraction(sympy.cancel(expr))
     return sympy.solve(den, s), sympy.solve(num, s)
 
 
-def _parse_substitutions(sdict):
+def _parse_substitutions(sdict, circ):
     """Generates a symbolic substitution dictionary from a dictionary of
     substitutions expressed in terms of part IDs.
 
     This method is typically called by :func:`symbolic_analysis`.
 
-    .. note::
-
-        For what regards the resistors, the method will check the value
-        of ``options.symb_formulate_with_gs`` and convert the resistors
-        to conductances as needed, according to the option value.
-
     **Parameters:**
 
     sdict : a dict of strings
         The elements of the dictionary should be according to the syntax
         ``{'<part_id1>:<part_id2>'}``, eg ``{'R2':'R1'}``, instructing the
         simulator to substitute ``R1`` in place of ``R2``.
+    circ : circuit instance
+        The circuit.
 
     **Returns:**
 
@@ -609,23 +611,23 @@ def _parse_substitutions(sdict):
     """
     subs = {}
     for v1, v2 in py3compat.iteritems(sdict):
-        if v1[0].upper() == 'R' and options.symb_formulate_with_gs:
-            letter_id1 = 'G' + _COND_POSTFIX
-            letter_id2 = 'G' + _COND_POSTFIX
-        else:
-            letter_id1 = v1[0].upper()
-            letter_id2 = v2[0].upper()
-        if letter_id1[0] in ('R', 'G', 'L', 'C', 'M'):
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True, positive=True)
-        else:
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True)
-        if letter_id2[0] in ('R', 'G', 'L', 'C', 'M'):
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True, positive=True)
-        else:
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True)
-        subs.update({s1:s2})
+        subs.update({_element_symbol(v1, circ):_element_symbol(v2, circ)})
     return subs
 
+def _element_symbol(part_id, circ):
+    """The symbol that stands for an element, with the same assumptions as in
+    the MNA matrix"""
+    transconductances = [e.part_id.upper() for e in circ
+                         if isinstance(e, components.sources.GISource)]
+    if part_id[0].upper() in ('R', 'C', 'L', 'K', 'M') or \
+       (part_id[:2].upper() in ('GM', 'GD') and
+        part_id.upper() not in transconductances):
+        return _symbol_factory(part_id, real=True, positive=True)
+    elif part_id[0].upper() in ('V', 'I'):
+        return _symbol_factory(part_id)
+    else:
+        return _symbol_factory(part_id, real=True)
+
 def _symbol_factory(name, **options):
     filtered_options = {}
     for i in options:
-- 
2.43.0


From 0fb2159087c4cfaaac8ec18c47003cfdf3d74bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:40 +0000
Subject: [PATCH 49/56] fix: Fourier post-processing: number of periods and
 points, resampling, .fft start and stop, default np

---
 ahkab/fourier.py        | 71 ++++++++++++++++++++---------------------
 ahkab/netlist_parser.py |  4 ++-
 ahkab/options.py        |  2 +-
 3 files changed, 38 insertions(+), 39 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 3740f30..4e773bc 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -53,7 +53,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'stop',
+                          'dest':'start',
                           'default':None
                          },
                          {
@@ -61,7 +61,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'start',
+                          'dest':'stop',
                           'default':None
                          },
                          {
@@ -86,7 +86,7 @@ specs = {'fft':{'tokens':({
                           'type':float,
                           'needed':False,
                           'dest':'np',
-                          'default':0
+                          'default':1024
                          },
                          {
                           'label':'format',
@@ -106,6 +106,7 @@ specs = {'fft':{'tokens':({
                          },
                          {
                           'label':'alpha',
+                          'alias':'alfa',
                           'pos':None,
                           'type':float,
                           'needed':False,
@@ -140,6 +141,14 @@ specs = {'fft':{'tokens':({
                }
            }
 
+def _periods(start, stop, freq):
+    # the number of whole periods, allowing for rounding
+    nperiods = int((stop - start)*freq*(1. + 1e-9))
+    if nperiods < 1:
+        raise ValueError(("The data covers %g s, less than a period of the " +
+                          "fundamental %g Hz") % (stop - start, freq))
+    return nperiods
+
 #.FOUR <freq> <x1> [<x2> [<x3 ...]]
 def fourier(label, tran_results, fund):
     """Fourier analysis of the time evolution of a variable.
@@ -192,21 +201,17 @@ def fourier(label, tran_results, fund):
         else:
             data = tran_results[label[0]] - tran_results[label[1]]
             label = '%s - %s' % (label[0], label[1])
-    ps = []
-    for i in range(1, 10, 2):
-        ps += [(tran_results.tstop - tran_results.tstart) // (i/fund)]
-    ps = [i for i in ps if i > 0]
-    nperiods = ps[int(np.ceil(len(ps)-1))]
+    nperiods = _periods(tran_results.tstart, tran_results.tstop, fund)
+    # leave half of the data out, if possible
+    nperiods = max(nperiods//2, 1)
     # setup start & stop accordingly
     start = tran_results.tstop - nperiods/fund
     stop = tran_results.tstop
     # 10 points, remember?
-    sampling = 1./(2*10*fund)
-    t = np.linspace(start, stop, (stop-start)//sampling, endpoint=False)
+    t = np.linspace(start, stop, 2*10*nperiods, endpoint=False)
     idata = InterpolatedUnivariateSpline(tran_results.get_x(), data, k=2)
-    f = fft.fftfreq(len(t), sampling)[::nperiods]
+    f = fund*np.arange(10)
     F = fft.rfft(idata(t))[:-1:nperiods]
-    f = f[:len(f)/2]
     THD = np.sqrt(sum(abs(F[2:])**2))/abs(F[1])
     return f, F, THD
 
@@ -336,22 +341,15 @@ def spicefft(label, tran_results, freq=None, **args):
         else:
             data = tran_results[label[0]] - tran_results[label[1]]
             label = '%s - %s' % (label[0], label[1])
-    if 'start' not in args and 'from' not in args:
+    start = args.get('start')
+    if start is None:
+        start = args.get('from')
+    if start is None:
         start = tran_results.tstart
-    elif 'start' in args and args['start'] is not None:
-        start = args['start']
-    elif args['from'] is not None:
-        start = args['from']
-    else:
-        start = tran_results.tstart
-
-    if 'stop' not in args and 'to' not in args:
-        stop = tran_results.tstop
-    elif 'stop' in args and args['stop'] is not None:
-        stop = args['stop']
-    elif args['to'] is not None:
-        stop = args['to']
-    else:
+    stop = args.get('stop')
+    if stop is None:
+        stop = args.get('to')
+    if stop is None:
         stop = tran_results.tstop
 
     if 'np' not in args:
@@ -383,16 +381,15 @@ def spicefft(label, tran_results, freq=None, **args):
     fmax = args['fmax'] if 'fmax' in args else None
 
     if freq:
-        nperiods = int((stop-start)*freq)
+        nperiods = _periods(start, stop, freq)
         # adjust start so we have an integer number
         # of periods
         start = stop - nperiods/freq
-        sampling = 1./(2*freq*nperiods)
-        t = np.linspace(start, stop, ((stop-start)//sampling + 1),
-                        endpoint=False)
-    else:
-        sampling = (stop-start)/np2
-        t = np.linspace(start, stop, np2, endpoint=False)
+        # the 9th harmonic is needed
+        while np2 < 2*10*nperiods:
+            np2 *= 2
+    sampling = (stop-start)/np2
+    t = np.linspace(start, stop, np2, endpoint=False)
     idata = InterpolatedUnivariateSpline(tran_results.get_x(),
                                          data, k=2)
     window = {options.RECT_WINDOW: lambda x: 1.,
@@ -404,12 +401,12 @@ def spicefft(label, tran_results, freq=None, **args):
               options.GAUSS_WINDOW: lambda x: gaussian(x, std=alpha),
               options.KAISER_WINDOW: lambda x: kaiser(x, beta=alpha)}
     f = fft.fftfreq(len(t), sampling)
-    f = f[:len(f)/2]
+    f = f[:len(f)//2]
     F = fft.rfft(idata(t)*window[window_type](len(t)))[:-1]
     if freq:
         # downsample
-        f = f[::nperiods]
-        F = F[::nperiods]
+        f = f[::nperiods][:10]
+        F = F[::nperiods][:10]
     if fmin is not None and fmin > 0:
         if fmin > f.max():
             raise ValueError("fmin=%g Hz but max(f)=%g Hz" % (fmin, f.max()))
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 3463a7d..da1fc34 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1385,7 +1385,9 @@ def parse_postproc(circ, postproc_direc):
                         label, value = None, token
                     assigned = False
                     for t in params:
-                        if (label is None and t['pos'] == i) or label == t['label']:
+                        if (label is None and t['pos'] == i) or \
+                           (label is not None and
+                            label in (t['label'], t.get('alias'))):
                             fpv.update({t['dest']: convert(value, t['type'],
                                                            raise_exception=True)})
                             assigned = True
diff --git a/ahkab/options.py b/ahkab/options.py
index de69110..d3e4062 100644
--- a/ahkab/options.py
+++ b/ahkab/options.py
@@ -205,6 +205,6 @@ GAUSS_WINDOW = 'GAUSS'
 KAISER_WINDOW = 'KAISER'
 WINDOWS_NAMES = dict(RECT='RECTANGULAR', BART='BARTLETT',
                      HANN='HANNING', HAMM='HAMMING',
-                     BLACK='BLACKMAN-HARRIS', HARRIS='HARRIS',
+                     BLACK='BLACKMAN', HARRIS='BLACKMAN-HARRIS',
                      GAUSS='GAUSSIAN', KAISER='KAISER')
 
-- 
2.43.0


From f7578ab270a3c853f32443ebfcf14e8b313a26f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:53 +0000
Subject: [PATCH 50/56] fix: periodic steady state: indices, nonlinear devices,
 optional points, autonomous

---
 ahkab/bfpss.py    | 66 ++++++++++-------------------------------------
 ahkab/pss.py      |  8 +++---
 ahkab/shooting.py | 48 ++++++----------------------------
 3 files changed, 26 insertions(+), 96 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 5275eae..93974b4 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -156,12 +156,9 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
     nv_indices = []
     ni_indices = []
     nv_1 = circ.get_nodes_number() - 1
-    ni = n_of_var - nv_1
     for i in range(points):
-        nv_indices += (i * mna.shape[0] * np.ones(nv_1) + \
-                      np.arange(nv_1)).tolist()
-        ni_indices += (i * mna.shape[0] * np.ones(ni) + \
-                      np.arange(nv_1, n_of_var)).tolist()
+        nv_indices += (i * n_of_var + np.arange(nv_1)).tolist()
+        ni_indices += (i * n_of_var + np.arange(nv_1, n_of_var)).tolist()
 
     converged = False
 
@@ -186,54 +183,16 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
             T[:, 0] = 0
             td[:, 0] = 0
         for index in range(1, points):
+            # build all dT(xn)/dxn (stored in J) and T(x)
+            blk = slice(index*n_of_var, (index + 1)*n_of_var)
+            Jn = np.zeros((n_of_var, n_of_var))
             for elem in circ:
-                # build all dT(xn)/dxn (stored in J) and T(x)
                 if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    for opindex in range(len(oports)):
-                        dports = elem.get_drive_ports(opindex)
-                        v_ports = []
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            # build v: remember we trashed the
-                            # 0 row and 0 col of mna -> -1
-                            v = 0
-                            if dn1:
-                                v = v + x[index * n_of_var + dn1 - 1, 0]
-                            if dn2:
-                                v = v - x[index * n_of_var + dn2 - 1, 0]
-                            v_ports.append(v)
-                        # all drive ports are ready.
-                        n1, n2 = oports[opindex][0], oports[opindex][1]
-                        if n1:
-                            T[index * n_of_var + n1 - 1, 0] = T[index * n_of_var + n1 - 1, 0] + \
-                                                              elem.i(opindex, v_ports)
-                        if n2:
-                            T[index * n_of_var + n2 - 1, 0] = T[index * n_of_var + n2 - 1, 0] - \
-                                                              elem.i(opindex, v_ports)
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            if n1:
-                                if dn1:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                            if n2:
-                                if dn1:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
-
+                    dc_analysis._update_J_and_Tx(Jn, T[blk], x[blk], elem,
+                                                 index*step)
+            J[blk, blk] = Jn
         J = J + CMAT
-        residuo = CMAT*x + T + Tf + Tt
+        residuo = CMAT.dot(x) + T + Tf + Tt
         if sparse:
             J = scipy.sparse.csc_matrix(J)
             lu = scipy.sparse.linalg.splu(J)
@@ -246,6 +205,10 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
                                                  0].reshape(-1, 1),
                                               locked_nodes, n=-1)
         x = x + min(abs(td))[0] * dx
+        if not np.isfinite(dx).all():
+            printing.print_general_error("The solution diverges, iteration halted.")
+            converged = False
+            break
         # convergence check
         converged = _convergence_check(dx, x, nv_indices, ni_indices,
                                       vector_norm)
@@ -279,9 +242,6 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
 
 def _convergence_check(dx, x, nv_indices, ni_indices, vector_norm):
     """Perform a convergence check using the specified vector norm"""
-    # sometimes something diverges... look out
-    if vector_norm(dx) is np.nan:
-        raise OverflowError
     dxc = np.array(dx)
     xc = np.array(x)
     ret = (vector_norm(dxc[nv_indices]) < options.ver * \
diff --git a/ahkab/pss.py b/ahkab/pss.py
index 96b4f65..0c7fe92 100644
--- a/ahkab/pss.py
+++ b/ahkab/pss.py
@@ -45,7 +45,7 @@ specs = {'pss': {'tokens': ({
                             'label': 'points',
                             'pos': None,
                             'type': float,
-                            'needed': True,
+                            'needed': False,
                             'dest': 'points',
                             'default': None
                             },
@@ -63,7 +63,7 @@ specs = {'pss': {'tokens': ({
                             'type': bool,
                             'needed': False,
                             'dest': 'autonomous',
-                            'default': '0'
+                            'default': False
                             },
                  {
                             'label': 'method',
@@ -101,10 +101,12 @@ def pss_analysis(*largs, **args):
         The solution.
     """
     m = args.pop('method').lower()
+    if args.get('autonomous'):
+        raise ValueError("Autonomous circuits are not supported")
     if m == options.SHOOTINGPSS:
         r = shooting.shooting_analysis(*largs, **args)
     elif m == options.BFPSS:
         r = bfpss.bfpss(*largs, **args)
     else:
-        raise Exception("Unknown PSS method %s" % m)
+        raise ValueError("Unknown PSS method %s" % m)
     return r
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 5cbf928..9a50a4b 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -195,7 +195,7 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
             else:
                 xn_minus_1 = x[index - 1]
             MAass_variable, Tass_variable = _get_variable_MAass_and_Tass(circ,
-                    x[index], xn_minus_1, mna, D, step, n_of_var)
+                    x[index], xn_minus_1, mna, D, step, n_of_var, index*step)
             MAass_variable_vector.append(MAass_variable + MAass_static)
             Tass_variable_vector.append(Tass_variable +
                                         Tass_static_vector[index])
@@ -226,9 +226,10 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
                 break
             else:
                 conv_counter = conv_counter + 1
-        elif vector_norm(dx[points - 1]) is np.nan:  # needs work fixme
-            raise OverflowError
-            # break
+        elif not np.isfinite(np.array(dx)).all():
+            printing.print_general_error("The solution diverges, iteration halted.")
+            converged = False
+            break
         else:
             conv_counter = 0
             tick.step()
@@ -308,7 +309,7 @@ def _build_Tass_static_vector(circ, Tf, points, step, tick, n_of_var, verbose=3)
     return Tass_vector
 
 
-def _get_variable_MAass_and_Tass(circ, xi, xi_minus_1, M, D, step, n_of_var):
+def _get_variable_MAass_and_Tass(circ, xi, xi_minus_1, M, D, step, n_of_var, time):
     Tass = np.zeros((n_of_var,))
     J = np.zeros((n_of_var, n_of_var))
     (C1, C0) = implicit_euler.get_df_coeff(step)
@@ -316,41 +317,8 @@ def _get_variable_MAass_and_Tass(circ, xi, xi_minus_1, M, D, step, n_of_var):
     for elem in circ:
         # build all dT(xn)/dxn (stored in J) and T(x)
         if elem.is_nonlinear:
-            output_ports = elem.get_output_ports()
-            for index in range(len(output_ports)):
-                n1, n2 = output_ports[index]
-                ports = elem.get_drive_ports(index)
-                v_ports = []
-                for port in ports:
-                    v = 0  # build v: remember we trashed the 0 row and 0 col of mna -> -1
-                    if port[0]:
-                        v = v + xi[port[0] - 1]
-                    if port[1]:
-                        v = v - xi[port[1] - 1]
-                    v_ports.append(v)
-                if n1:
-                    Tass[n1 - 1] = Tass[n1 - 1] + elem.i(index, v_ports)
-                if n2:
-                    Tass[n2 - 1] = Tass[n2 - 1] - elem.i(index, v_ports)
-                for pindex in range(len(ports)):
-                    if n1:
-                        if ports[pindex][0]:
-                            J[n1 - 1, ports[pindex][0] - 1] = \
-                                J[n1 - 1, ports[pindex][0] - 1] + \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n1 - 1, ports[pindex][1] - 1] = \
-                                J[n1 - 1, ports[pindex][1] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                    if n2:
-                        if ports[pindex][0]:
-                            J[n2 - 1, ports[pindex][0] - 1] = \
-                                J[n2 - 1, ports[pindex][0] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n2 - 1, ports[pindex][1] - 1] = \
-                                J[n2 - 1, ports[pindex][1] - 1] + \
-                                elem.g(index, v_ports, pindex)
+            dc_analysis._update_J_and_Tx(J, Tass.reshape(-1, 1),
+                                         xi.reshape(-1, 1), elem, time)
 
     Tass = Tass + np.dot(D*C1, xi) + np.dot(M, xi) + np.dot(D * C0, xi_minus_1)
 
-- 
2.43.0


From f94093b14be16ef67c16ed42d998628b3e842e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 51/56] fix: the output printed before the data printed to
 stdout stays before it

---
 ahkab/csvlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 8f92a48..08b4241 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -129,6 +129,8 @@ def write_headers(filename, headers):
 def _get_fp(filename, mode="r"):
     if filename == 'stdout' or filename == '-' or filename == sys.stdout:
         if mode == 'w' or mode == 'a' or mode == 'wb' or mode == 'ab':
+            # what was printed before has to come before the data
+            sys.stdout.flush()
             fp = sys.stdout if not hasattr(sys.stdout, 'buffer') else sys.stdout.buffer
         else:
             print("(EE) Mode %s is not supported for stdout." % (mode,))
-- 
2.43.0


From 301709cbeb6f0bb7d15f26528732c50b800ba343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:36 +0000
Subject: [PATCH 52/56] fix: command line: -t and --dc-guess honoured, symbolic
 printing, .four and .fft with stdout, several .fft

---
 ahkab/__main__.py |  6 ++++--
 ahkab/ahkab.py    | 24 +++++++++++++++++++-----
 ahkab/printing.py | 19 ++++++++++---------
 ahkab/shooting.py |  5 ++++-
 4 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/ahkab/__main__.py b/ahkab/__main__.py
index db00f8d..5578bae 100755
--- a/ahkab/__main__.py
+++ b/ahkab/__main__.py
@@ -50,7 +50,7 @@ def _cli():
                       "used to start a OP or DC analysis: none or guess. " +
                       "Defaults to guess.")
     parser.add_option("-t", "--tran-method", action="store", type="string",
-                      dest="method", default=transient.TRAP.lower(),
+                      dest="method", default=None,
                       help="Method to be used in transient analysis: " +
                       transient.IMPLICIT_EULER.lower() + ", " +
                       transient.TRAP.lower() + ", " +
@@ -110,6 +110,8 @@ def _cli():
     verbose = int(cli_options.verbose)
     if cli_options.method is not None:
         options.default_tran_method = cli_options.method.upper()
+        # takes the precedence over the methods set in the netlist
+        ahkab._tran_method = cli_options.method.upper()
     if cli_options.vea is not None:
         options.vea = float(cli_options.vea)
     if cli_options.ver is not None:
@@ -147,7 +149,7 @@ def _cli():
         sys.exit(23)
 
     options.transient_no_step_control = cli_options.no_step_control
-    options.dc_use_guess = cli_options.dc_guess
+    options.dc_use_guess = cli_options.dc_guess.lower() != 'none'
     options.cli = True
     ahkab._print = cli_options.print_circuit
 
diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 7a9b573..943eff7 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -192,10 +192,11 @@ from .py3compat import text_type
 
 from .__version__ import __version__
 
-global _queue, _x0s, _print
+global _queue, _x0s, _print, _tran_method
 
 _queue = []
 _print = False
+_tran_method = None
 _x0s = {None: None}
 # temporary outfile -> has it received the results of an analysis already?
 _tmp_outfiles = {}
@@ -808,7 +809,7 @@ def get_op_x0(circ):
     x0 : an OP solution object
         The linearization point.
     """
-    return run(circ, [new_op()])
+    return run(circ, [new_op()])['op']
 
 
 def set_temperature(T):
@@ -842,6 +843,7 @@ def process_postproc(postproc_list, title, results, outfilename):
     """
     show_plots = False
     skip_plots = False
+    fft_printed = False
     for postproc in postproc_list:
         if postproc['type'] == "plot" and outfilename == 'stdout':
             skip_plots = True
@@ -869,7 +871,9 @@ def process_postproc(postproc_list, title, results, outfilename):
                                     uformat=postproc['uformat'],
                                     window=postproc['window'],
                                     outfile=outfilename +
-                                    '.lis'*(outfilename!='stdout'))
+                                    '.lis'*(outfilename!='stdout'),
+                                    append=fft_printed)
+            fft_printed = True
     if show_plots and options.plotting_show_plots:
         plotting.show_plots()
 
@@ -957,6 +961,8 @@ def main(filename, outfile="stdout", verbose=3):
     _x0s.update({None: None})
     ic_list = netlist_parser.parse_ics(directives)
     _handle_netlist_ics(circ, an_list=[], ic_list=ic_list)
+    postproc_list = netlist_parser.parse_postproc(circ, postproc_direct)
+    read_back = any(p['type'] in ('four', 'fft') for p in postproc_list)
     results = {}
     for an in netlist_parser.parse_analysis(circ, directives):
         if 'outfile' not in list(an.keys()) or not an['outfile']:
@@ -966,12 +972,20 @@ def main(filename, outfile="stdout", verbose=3):
            or not 'verbose' in list(an.keys()):
             an.update({'verbose': verbose})
         _handle_netlist_ics(circ, [an], ic_list=[])
+        if an['type'] == 'tran' and _tran_method is not None:
+            an['method'] = _tran_method
         if verbose >= 4:
             printing.print_info_line(("Requested an.:", 4), verbose)
             printing.print_analysis(an)
-        results.update(run(circ, [an]))
+        if an['type'] == 'tran' and an['outfile'] == 'stdout' and read_back:
+            # the data printed to stdout can't be loaded for post-processing
+            an.update({'outfile': _new_tmp_outfile('.tran'), 'verbose': 0})
+            results.update(run(circ, [an]))
+            with open(an['outfile']) as fp:
+                sys.stdout.write(fp.read())
+        else:
+            results.update(run(circ, [an]))
 
-    postproc_list = netlist_parser.parse_postproc(circ, postproc_direct)
     if len(postproc_list) > 0 and len(results):
         process_postproc(postproc_list, circ.title, results, outfile)
 
diff --git a/ahkab/printing.py b/ahkab/printing.py
index e08f460..b3d52bf 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -155,14 +155,14 @@ def print_analysis(an):
             print(" method=" + an["method"])
         else:
             print("")
-    elif an["type"] == "shooting":
-        sys.stdout.write(".shooting period=" + str(
+    elif an["type"] == "pss":
+        sys.stdout.write(".pss period=" + str(
             an["period"]) + " method=" + str(an["method"]))
         if an["points"] is not None:
             sys.stdout.write(" points=" + str(an["points"]))
         if an["step"] is not None:
             sys.stdout.write(" step=" + str(an["step"]))
-        print(" autonomous=", an["autonomous"])
+        print(" autonomous=" + str(an["autonomous"]))
 
 
 def print_general_error(description, print_to_stdout=False):
@@ -278,8 +278,7 @@ def print_symbolic_results(x):
         expression corresponding to it, as found by the solver.
 
     """
-    keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys = sorted(x.keys(), key=str)
     for key in keys:
         print(str(key) + "\t = " + str(x[key]))
 
@@ -298,8 +297,7 @@ def print_symbolic_transfer_functions(x):
         ``'poles'`` and ``'zeros'``, corresponding to lists of symbolic
         expressions of the singularities.
     """
-    keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys = sorted(x.keys(), key=str)
     for key in keys:
         print(str(key) + " = " + str(x[key]['gain']))
         print('\tDC: ' + str(x[key]['gain0']))
@@ -378,7 +376,7 @@ def print_fourier(label, f, F, THD, outfile='stdout'):
         fp.close()
 
 def print_spicefft(label, f, F, THD=None, uformat='NORM', window=None,
-                   outfile='stdout'):
+                   outfile='stdout', append=False):
     """Print the results of an FFT postprocess
 
     **Parameters:**
@@ -403,6 +401,9 @@ def print_spicefft(label, f, F, THD=None, uformat='NORM', window=None,
     outfile : str
         The file name to print to. Defaults to ``'stdout'``, for the standard
         output.
+    append : bool, optional
+        Whether the results are to be added to those already in the file.
+        Defaults to ``False``.
     """
     if type(label) in py3compat.string_types:
         pass
@@ -446,7 +447,7 @@ def print_spicefft(label, f, F, THD=None, uformat='NORM', window=None,
     if outfile == 'stdout':
         fp = sys.stdout
     else:
-        fp = open(outfile, 'w')
+        fp = open(outfile, 'a' if append else 'w')
     fp.write('FFT components of transient response %s\n' % label)
     fp.write('Window: %s\n' % options.WINDOWS_NAMES[window.upper()])
     fp.write('Start Frequency: %g Hz\n' % f[1])
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 9a50a4b..bbbeaa9 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -22,6 +22,8 @@
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import os
+
 import numpy as np
 import numpy.linalg
 
@@ -151,7 +153,8 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
                                          tstop=10*points*step, method="TRAP",
                                          x0=None, mna=mna, N=Tf, D=D,
                                          use_step_control=False,
-                                         outfile=outfile+".tran",
+                                         outfile=(outfile+".tran" if outfile != "stdout"
+                                                  else os.devnull),
                                          return_req_dict={"points": points},
                                          verbose=0)
     if xtran is None:
-- 
2.43.0


From d09167dba21480cf0c95955617eadde82a50c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:14 +0000
Subject: [PATCH 53/56] fix: gmin may be zero; warnings and failures are not
 printed in the middle of the data on stdout

---
 ahkab/bfpss.py       |  2 +-
 ahkab/dc_analysis.py | 14 +++++++++-----
 ahkab/printing.py    |  7 +++----
 ahkab/shooting.py    |  4 ++--
 ahkab/transient.py   |  2 +-
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 93974b4..f9b1428 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -235,7 +235,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
                                    period=period, outfile=outfile)
         sol.set_results(t, x.T)
     else:
-        print("failed.")
+        printing.print_info_line(("failed.", 3), verbose)
         sol = None
     return sol
 
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index f0e5575..2e68bc5 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -280,12 +280,12 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         except np.linalg.linalg.LinAlgError:
             n_iter = 0
             converged = False
-            print("failed.")
+            printing.print_info_line(("failed.", 3), verbose)
             printing.print_general_error("J Matrix is singular")
         except OverflowError:
             n_iter = 0
             converged = False
-            print("failed.")
+            printing.print_info_line(("failed.", 3), verbose)
             printing.print_general_error("Overflow")
 
         if not converged:
@@ -459,7 +459,9 @@ def get_solve_methods():
         The dictionaries contain the options and the status of the methods.
     """
     standard_solving = {"enabled": False, "failed": False}
-    g_indices = list(range(int(round(numpy.log10(options.gmin))), 0))
+    # gmin may be set to zero
+    last = int(round(numpy.log10(options.gmin))) if options.gmin > 0 else -12
+    g_indices = list(range(min(last, -1), 0))
     g_indices.reverse()
     gmin_stepping = {"enabled": False, "failed":
                      False, "factors": g_indices, "index": 0}
@@ -583,10 +585,12 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
             if x is None:
                 tick.hide(verbose > 2)
                 if not options.dc_sweep_skip_allowed:
-                    print("Could't solve the circuit for sweep value:", sweep_value)
+                    printing.print_warning(
+                        "Could't solve the circuit for sweep value: %g" % sweep_value)
                     break
                 else:
-                    print("Skipping sweep value:", sweep_value)
+                    printing.print_warning(
+                        "Skipping sweep value: %g" % sweep_value)
                     continue
             solved = True
             sol.add_op(sweep_value, x)
diff --git a/ahkab/printing.py b/ahkab/printing.py
index b3d52bf..b51bfb6 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -482,10 +482,9 @@ def print_result_check(badvars, verbose=2):
 
     """
     if len(badvars):
-        print("Warning: solution is heavvily dependent on gmin.")
-        print("Affected variables:")
-        for bv in badvars:
-            print(bv)
+        # not to stdout, where the results may be being printed
+        print_warning("solution is heavvily dependent on gmin.")
+        print_warning("Affected variables: " + ", ".join(badvars))
     else:
         if verbose:
             print("Difference check within margins.")
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index bbbeaa9..5b38226 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -158,7 +158,7 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
                                          return_req_dict={"points": points},
                                          verbose=0)
     if xtran is None:
-        print("failed.")
+        printing.print_info_line(("failed.", 3), verbose)
         return None
     printing.print_info_line(("done.", 3), verbose)
 
@@ -259,7 +259,7 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
         sol.set_results(t, xmat)
         # print_results(circ, x, fdata, points, step)
     else:
-        print("failed.")
+        printing.print_info_line(("failed.", 3), verbose)
         sol = None
     return sol
 
diff --git a/ahkab/transient.py b/ahkab/transient.py
index 4cadc0c..546deff 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -423,7 +423,7 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
         else:
             ret_value = sol
     else:
-        print("failed.")
+        printing.print_info_line(("failed.", 3), verbose)
         ret_value =  None
 
     return ret_value
-- 
2.43.0


From a9d04af71860790aee2f69a6ea8a17682bc8a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:42 +0000
Subject: [PATCH 54/56] fix: MOS models' body factor and surface potential from
 NSUB and temperature

GAMMA is sqrt(2 q esi NSUB)/COX and PHI falls with temperature as
PHI T/TNOM - 3 Vt(T) ln(T/TNOM) - Eg(TNOM) T/TNOM + Eg(T): the oxide
capacitance was inside the root (a factor 40 off for the default oxide) and
the logarithmic term had the wrong sign, so that a model given through NSUB
had another PHI at T when described at TNOM than when described at T.
---
 ahkab/ekv.py  | 4 ++--
 ahkab/mosq.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 2bdfbc9..8e9826a 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -393,7 +393,7 @@ class ekv_mos_model:
             self.GAMMA = float(GAMMA)
         elif NSUB is not None:
             self.GAMMA = math.sqrt(2.0*constants.e*constants.si.esi*NSUB
-                                   *10**6/self.COX)
+                                   *10**6)/self.COX
         else:
             self.GAMMA = GAMMA_DEFAULT
         if PHI is not None:
@@ -447,7 +447,7 @@ class ekv_mos_model:
         self.TEMP = T
         self.VTO = self.VTO - self.TCV * (T - self.TNOM)
         self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = self.PHI * T / self.TNOM + 3.0 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) \
+        self.PHI = self.PHI * T / self.TNOM - 3.0 * constants.Vth(T) * math.log(T / self.TNOM) \
             - constants.si.Eg(
                 self.TNOM) * T / self.TNOM + constants.si.Eg(T)
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index dc90979..8c328ca 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -465,7 +465,7 @@ class mosq_mos_model(object):
             self.GAMMA = float(GAMMA)
         elif NSUB is not None:
             self.GAMMA = math.sqrt(
-                2 * constants.e * constants.si.esi * NSUB * 10 ** 6 / self.COX)
+                2 * constants.e * constants.si.esi * NSUB * 10 ** 6) / self.COX
         else:
             self.GAMMA = GAMMA_DEFAULT
         if PHI is not None:
@@ -523,7 +523,7 @@ class mosq_mos_model(object):
         self.TEMP = T
         self.VTO = self.VTO - self.TCV * (T - self.TNOM)
         self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = (self.PHI * T / self.TNOM + 3 * constants.Vth(self.TNOM) *
+        self.PHI = (self.PHI * T / self.TNOM - 3 * constants.Vth(T) *
                     math.log(T / self.TNOM) - constants.si.Eg(self.TNOM) * T /
                     self.TNOM + constants.si.Eg(T))
 
-- 
2.43.0


From 35221658c8016066de3ce7ac0c97941a3d20c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:50 +0000
Subject: [PATCH 55/56] fix: EKV devices use the thermal voltage at their own
 temperature

The drift currents, the specific current and the normalised voltages were
computed with the thermal voltage at 300 K whatever the simulation
temperature, although VTO, KP and PHI followed it.
---
 ahkab/ekv.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 8e9826a..4feda78 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -230,7 +230,7 @@ class ekv_device:
         if ids == 0:
             TEF = float('nan')
         else:
-            TEF = abs(gms * constants.Vth() / ids)
+            TEF = abs(gms * constants.Vth(self.ekv_model.TEMP) / ids)
         self.opdict['TEF'] = TEF
 
     def get_op_info(self, ports_v):
@@ -511,7 +511,7 @@ class ekv_mos_model:
           Gs, the specific transconductance,
           Qs, the specific charge.
         """
-        self.scaling.Ut = constants.Vth()
+        self.scaling.Ut = constants.Vth(self.TEMP)
         self.scaling.Is = 2 * nq * \
             self.scaling.Ut ** 2 * self.KP * device.W / device.L
         self.scaling.Gs = 2 * nq * \
@@ -625,24 +625,24 @@ class ekv_mos_model:
         return Ids, qf, qr
 
     def get_leq_virp(self, device, xxx_todo_changeme1, Vp, Leff, ifn):
-        # if ifn > 0 and Vp - constants.Vth()*vd > 0:
+        # if ifn > 0 and Vp - constants.Vth(self.TEMP)*vd > 0:
         (vd, vg, vs) = xxx_todo_changeme1
         assert vd >= vs
         Vc = self.UCRIT * device.N * Leff
         Vdss  = Vc * \
-            (math.sqrt(.25 + constants.Vth() / Vc * math.sqrt(ifn)) - .5)
+            (math.sqrt(.25 + constants.Vth(self.TEMP) / Vc * math.sqrt(ifn)) - .5)
              # eq. 46
         # Drain-to-source saturation voltage for reverse normalized current,
         # eq. 47
-        Vdssp = Vc * (math.sqrt(.25 + constants.Vth() / Vc * (math.sqrt(ifn) - .75 * math.log(ifn))) - .5) + \
-            constants.Vth() * (math.log(.5 * Vc / constants.Vth()) - .6)
+        Vdssp = Vc * (math.sqrt(.25 + constants.Vth(self.TEMP) / Vc * (math.sqrt(ifn) - .75 * math.log(ifn))) - .5) + \
+            constants.Vth(self.TEMP) * (math.log(.5 * Vc / constants.Vth(self.TEMP)) - .6)
 
         # channel length modulation
-        vser_1 = math.sqrt(ifn) - Vdss / constants.Vth()
+        vser_1 = math.sqrt(ifn) - Vdss / constants.Vth(self.TEMP)
         # if vser_1 < 0:
         #   vser_1 = 0
-        Vds = (vd - vs) * .5 * constants.Vth()
-        delta_v = 4.0 * constants.Vth() * math.sqrt(
+        Vds = (vd - vs) * .5 * constants.Vth(self.TEMP)
+        delta_v = 4.0 * constants.Vth(self.TEMP) * math.sqrt(
             self.LAMBDA * vser_1 + 1.0 / 64)  # eq. 48
         Vip = math.sqrt(Vdss ** 2 + delta_v ** 2) - math.sqrt(
             (Vds - Vdss) ** 2 + delta_v ** 2)  # eq 50
@@ -659,10 +659,10 @@ class ekv_mos_model:
         assert not math.isnan(Vdssp)
         assert not math.isnan(delta_v)
 
-        v_irp = (Vp - Vds - vs * constants.Vth() - math.sqrt(Vdssp ** 2 + delta_v ** 2)
-                 + math.sqrt((Vds - Vdssp) ** 2 + delta_v ** 2)) / constants.Vth()
+        v_irp = (Vp - Vds - vs * constants.Vth(self.TEMP) - math.sqrt(Vdssp ** 2 + delta_v ** 2)
+                 + math.sqrt((Vds - Vdssp) ** 2 + delta_v ** 2)) / constants.Vth(self.TEMP)
         # else:
-        #   v_irp = Vp/constants.Vth() - vd
+        #   v_irp = Vp/constants.Vth(self.TEMP) - vd
         #   Leq = Leff
 
         return Leq, v_irp
-- 
2.43.0


From 22f1cac5162cff9fa2cca7b504474c823f13722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:34 +0000
Subject: [PATCH 56/56] fix: EKV conductances of devices in series

The conductances of an EKV device with N > 1 were those of a single device,
N times the slope of its current.
---
 ahkab/ekv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 4feda78..fc88a46 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -515,7 +515,7 @@ class ekv_mos_model:
         self.scaling.Is = 2 * nq * \
             self.scaling.Ut ** 2 * self.KP * device.W / device.L
         self.scaling.Gs = 2 * nq * \
-            self.scaling.Ut * self.KP * device.W / device.L
+            self.scaling.Ut * self.KP * device.W / (device.N * device.L)
         self.scaling.Qs = 2 * nq * self.scaling.Ut * self.COX
         return
 
-- 
2.43.0

