From 5de7c3ca8bd1492ce00a9f42c984cf29274a80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 01/51] fix: transformer couplings over arrays whose first
 element couples nothing (np.vectorize took an int output type)

---
 phasor/electronics/passive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/electronics/passive.py b/phasor/electronics/passive.py
index f6e5700..c6e20c6 100644
--- a/phasor/electronics/passive.py
+++ b/phasor/electronics/passive.py
@@ -220,7 +220,7 @@ class Z2x2To4Port(elements.Electrical4PortBase):
                     if num != 0:
                         pgain = num / pe_D
                     else:
-                        pgain = 0
+                        pgain = 0 * num
                     return pgain
                 pgain = ddiv(num, pe_D)
                 matrix_algorithm.port_coupling_insert(
-- 
2.43.0


From 914eaf68fbcc6e910fde2418fd62679c963a3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 02/51] fix: array-valued winding/inductor resistance with
 johnson noise

---
 phasor/electronics/passive.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/phasor/electronics/passive.py b/phasor/electronics/passive.py
index c6e20c6..4855610 100644
--- a/phasor/electronics/passive.py
+++ b/phasor/electronics/passive.py
@@ -54,7 +54,7 @@ class InductorBase(object):
 
     @decl.dproperty
     def johnson_noise(self):
-        if self.system.include_johnson_noise and self.resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -251,7 +251,7 @@ class TransformerSeries(smatrix.SMatrix2PortBase):
 
     @decl.dproperty
     def L1_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L1_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L1_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L1_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -265,7 +265,7 @@ class TransformerSeries(smatrix.SMatrix2PortBase):
 
     @decl.dproperty
     def L2_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L2_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L2_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_C,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L2_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -309,7 +309,7 @@ class Transformer(Z2x2To4Port):
 
     @decl.dproperty
     def L1_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L1_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L1_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_A,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L1_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
@@ -323,7 +323,7 @@ class Transformer(Z2x2To4Port):
 
     @decl.dproperty
     def L2_johnson_noise(self):
-        if self.system.include_johnson_noise and self.L2_resistance_Ohms != 0:
+        if self.system.include_johnson_noise and np.any(self.L2_resistance_Ohms != 0):
             return noise.VoltageFluctuation(
                 port = self.pe_C,
                 Vsq_Hz_by_freq = lambda F : 4 * self.L2_resistance_Ohms * self.symbols.temp_K * self.symbols.kB_J_K,
-- 
2.43.0


From 3fbccbbfea8f7ca6bb88005590a265447bf15c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:47 +0000
Subject: [PATCH 03/51] fix: negative meter terminal is read outside of the
 fluctuations of its port, as the positive one

---
 phasor/electronics/multimeter.py | 4 ++--
 phasor/mechanical/multimeter.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/multimeter.py b/phasor/electronics/multimeter.py
index ed3aa11..312572c 100644
--- a/phasor/electronics/multimeter.py
+++ b/phasor/electronics/multimeter.py
@@ -51,8 +51,8 @@ class VoltageReadout(readouts.DCReadout, elements.ElectricalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index dd8f778..e3805c8 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -54,8 +54,8 @@ class DisplacementReadout(readouts.DCReadout, elements.MechanicalElementBase):
             self.system.ports_post_get(self.terminal.o) : 1,
         }
         if self.terminal_N is not None:
-            pcplgs[self.terminal_N.i] = -1
-            pcplgs[self.terminal_N.o] = -1
+            pcplgs[self.system.ports_pre_get(self.terminal_N.i)] = -1
+            pcplgs[self.system.ports_post_get(self.terminal_N.o)] = -1
         for port, pcplg in pcplgs.items():
             for kfrom in matrix_algorithm.port_set_get(port):
                 matrix_algorithm.port_coupling_insert(
-- 
2.43.0


From 1deb4e13c81d7c2b9cce34916c2b0ed92285e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 04/51] fix: current and force meters read the flow outside of
 the fluctuations of their port

---
 phasor/electronics/multimeter.py | 4 ++--
 phasor/mechanical/multimeter.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/multimeter.py b/phasor/electronics/multimeter.py
index 312572c..a3e46bd 100644
--- a/phasor/electronics/multimeter.py
+++ b/phasor/electronics/multimeter.py
@@ -102,8 +102,8 @@ class CurrentReadout(readouts.DCReadout, elements.ElectricalElementBase):
         #TODO, not sure about the 1/2 everywhere
         _2 = self.symbols.number(2)
         pcplgs = {
-            self.terminal.i :  1 / self.Ze_termination,
-            self.terminal.o : -1 / self.Ze_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Ze_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Ze_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index e3805c8..3f7fbf6 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -100,8 +100,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
     def system_setup_coupling(self, matrix_algorithm):
         #TODO, not sure about the 1/2 everywhere
         pcplgs = {
-            self.terminal.i :  1 / self.Zm_termination,
-            self.terminal.o : -1 / self.Zm_termination,
+            self.system.ports_pre_get(self.terminal.i)  :  1 / self.Zm_termination,
+            self.system.ports_post_get(self.terminal.o) : -1 / self.Zm_termination,
         }
         direction_cplg = {'in' : 1, 'out' : -1}[self.direction]
         for port, pcplg in pcplgs.items():
-- 
2.43.0


From 36de97291cfc11b1882e96c6c2db54b3d33f05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 05/51] fix: cable delay (no symbols.exp; the length is in
 nanoseconds)

---
 phasor/electronics/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/electronics/elements.py b/phasor/electronics/elements.py
index b99769c..47883f5 100644
--- a/phasor/electronics/elements.py
+++ b/phasor/electronics/elements.py
@@ -163,7 +163,7 @@ class Cable(Electrical2PortBase):
         return val
 
     def phase_advance(self, F):
-        return self.symbols.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns)
+        return self.symbols.math.exp(-self.symbols.i2pi * F * self.length_ns * 1e-9)
 
     def system_setup_ports(self, ports_algorithm):
         #TODO could reduce these with more information about used S-matrix elements
-- 
2.43.0


From a55ec30eecf8d0b03a8b56b30db02d5e100ec94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 06/51] fix: VAmp port setup indexed its port keys a second
 time (AttributeError)

---
 phasor/electronics/opamps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index 24ae1be..b2fdec9 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -119,10 +119,10 @@ class VAmp(elements.ElectricalElementBase):
             (self.in_n.i, self.in_n.o),
             (self.out.i, self.out.o),
         ):
-            for kfrom in ports_algorithm.port_update_get(port1.i):
-                ports_algorithm.port_coupling_needed(port2.o, kfrom)
-            for kto in ports_algorithm.port_update_get(port2.o):
-                ports_algorithm.port_coupling_needed(port1.i, kto)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(port2, kfrom)
+            for kto in ports_algorithm.port_update_get(port2):
+                ports_algorithm.port_coupling_needed(port1, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 129b600ec33f43c18a69b00b1391532ce2b907e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 07/51] fix: VAmp gain is the open circuit gain for any output
 impedance

---
 phasor/electronics/opamps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index b2fdec9..605ea23 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -135,6 +135,8 @@ class VAmp(elements.ElectricalElementBase):
                 #    continue
                 freq = self.system.classical_frequency_extract(kfrom)
                 pgain = self.gain_by_freq(freq)
+                #open circuit voltage behind the output impedance
+                pgain = pgain * self.Ze_termination / (self.Z_output + self.Ze_termination)
                 matrix_algorithm.port_coupling_insert(
                     port1.i,
                     kfrom,
-- 
2.43.0


From e77710114e01dfd90b9786d72308a0d48015a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 08/51] fix: constant spring loss angle is odd in frequency
 (the response was not hermitian, giving negative noise densities)

---
 phasor/mechanical/passive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/mechanical/passive.py b/phasor/mechanical/passive.py
index d6697ce..1576cc6 100644
--- a/phasor/mechanical/passive.py
+++ b/phasor/mechanical/passive.py
@@ -47,7 +47,8 @@ class SpringBase(object):
         if val is None:
             return None
         if not callable(val):
-            return lambda F : val
+            #the loss opposes the motion at negative frequencies as well
+            return lambda F : val * np.sign(F)
         return val
 
     include_johnson_noise = True
-- 
2.43.0


From 8eae1c2cdec68182b40fcb288849c160c86e5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 09/51] fix: thermal displacement of a lossy spring satisfies
 the fluctuation dissipation theorem beyond first order in the loss

---
 phasor/mechanical/passive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/mechanical/passive.py b/phasor/mechanical/passive.py
index 1576cc6..70ac4d2 100644
--- a/phasor/mechanical/passive.py
+++ b/phasor/mechanical/passive.py
@@ -60,7 +60,7 @@ class SpringBase(object):
                 #this formula is the conversion of loss angle to equivalent viscous damping
                 return noise.DisplacementFluctuation(
                     port = self.pm_A,
-                    dsq_Hz_by_freq = lambda F : 4 * self.symbols.temp_K * self.symbols.kB_J_K * self.loss_angle_by_freq(F)  / ((2 * self.symbols.pi * F) * self.elasticity_N_m),
+                    dsq_Hz_by_freq = lambda F : 4 * self.symbols.temp_K * self.symbols.kB_J_K * self.loss_angle_by_freq(F) / ((2 * self.symbols.pi * F) * self.elasticity_N_m * (1 + self.loss_angle_by_freq(F)**2)),
                     sided = 'one-sided',
                 )
         return None
-- 
2.43.0


From df094e2ce482fd37824d1bf3756402a620704eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 10/51] fix: PZT responded as a spring of compliance k and was
 not reciprocal (the S parameters took the stiffness for its inverse)

---
 phasor/transducers/PZT.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/phasor/transducers/PZT.py b/phasor/transducers/PZT.py
index 773431f..c438ed0 100644
--- a/phasor/transducers/PZT.py
+++ b/phasor/transducers/PZT.py
@@ -67,38 +67,24 @@ class PZTMountedGrounded(
         d   = self.d_eff_m_V
         Z_e = self.Ze_termination
         Z_m = self.Zm_termination
+        #computed in sympy, from the constitutive laws (V, I into the electrode; u, F into the stack)
+        #  I = s * (C*V + d*F)
+        #  u = F/k + d*V
         def See_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return ((C*Z_e*Z_m*s + C*Z_e*k*s - Z_e*Z_m*d**2*k*s - Z_m - k)/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
+            return ((C*Z_e*Z_m*k*s + C*Z_e*s - Z_e*d**2*k*s - Z_m*k - 1)/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
 
         def Smm_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return ((Z_e*Z_m*d**2*k*s - (Z_m - k)*(C*Z_e*s + 1))/(-Z_e*Z_m*d**2*k*s + Z_m*(C*Z_e*s + 1) + k*(C*Z_e*s + 1)))
+            return (-(Z_e*d**2*k*s + (Z_m*k - 1)*(C*Z_e*s + 1))/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
 
         def Sem_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return (2*Z_m*d*k/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
+            return (2*Z_m*d*k/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
 
         def Sme_by_freq(F_Hz):
             s = self.symbols.i2pi * F_Hz
-            return (2*Z_e*d*k*s/(-C*Z_e*Z_m*s - C*Z_e*k*s + Z_e*Z_m*d**2*k*s - Z_m - k))
-
-        #computed in sympy
-        #def See_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return ((C*Z_e*Z_m*k*s + C*Z_e*s - Z_e*d**2*k*s - Z_m*k - 1)/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
-
-        #def Smm_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return (-(Z_e*d**2*k*s + (Z_m*k - 1)*(C*Z_e*s + 1))/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
-
-        #def Sem_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return (2*Z_m*d*k/(C*Z_e*s - Z_e*d**2*k*s + Z_m*k*(C*Z_e*s + 1) + 1))
-
-        #def Sme_by_freq(F_Hz):
-        #    s = self.symbols.i2pi * F_Hz
-        #    return (2*Z_e*d*k*s/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
+            return (2*Z_e*d*k*s/(-C*Z_e*Z_m*k*s - C*Z_e*s + Z_e*d**2*k*s - Z_m*k - 1))
 
         for port1, port2, func in [
             (self.pe_A, self.pe_A, See_by_freq),
-- 
2.43.0


From a64c4186137fc96f2f1e4028fd2b6455df4d7e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 11/51] fix: loop_LUQ lost the solution of nodes which are
 driven and read but have no edge (the other solvers solve them)

---
 phasor/matrix/DAG_algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm.py b/phasor/matrix/DAG_algorithm.py
index c1b097a..3362be4 100644
--- a/phasor/matrix/DAG_algorithm.py
+++ b/phasor/matrix/DAG_algorithm.py
@@ -381,7 +381,9 @@ def inverse_solve_inplace(
             return
 
     if scattering:
-        keys = set(seq.keys()) | set(req.keys())
+        keys = set(seq.keys()) | set(req.keys()) | set(inputs_set) | set(outputs_set)
+        if inputs_map is not None:
+            keys.update(inputs_map.keys())
         for node in keys:
             if node in seq[node]:
                 edge_map[node, node] = edge_map[node, node] - 1
-- 
2.43.0


From b8aaf1a33f232c96c79975c0230405e1faf197ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 12/51] fix: array self edges with some exact zeros are no
 pivots (0/0 passed the stability test, giving NaN)

---
 phasor/matrix/DAG_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/matrix/DAG_algorithm.py b/phasor/matrix/DAG_algorithm.py
index 3362be4..2a4c083 100644
--- a/phasor/matrix/DAG_algorithm.py
+++ b/phasor/matrix/DAG_algorithm.py
@@ -204,7 +204,7 @@ def mgraph_simplify_trivial(
 
         #check conditions for numerical stability, if they are bad, drop the node
 
-        if np.all(sedge_abssq == 0):
+        if np.any(sedge_abssq == 0):
             continue
 
         badness = 0
-- 
2.43.0


From 7b5fbcc61906051374b6f4c02182d2bb5fe95eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 13/51] fix: householder reflections over array edges with some
 exact zeros (0/0 gave NaN)

---
 phasor/matrix/DAG_algorithm_impl.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index 69ab2f3..d58c37d 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -19,6 +19,14 @@ def enorm(arr):
     return np.max(abssq(arr))
 
 
+def edge_phase(edge):
+    """
+    unit phase of the edge. Zero edges (also within arrays) may use any phase
+    """
+    zero = 1 * (abs(edge) == 0)
+    return (edge + zero) / (abs(edge) + zero)
+
+
 def check_graph_at_node(SRABE, node):
     seq, req, req_alpha, seq_beta, edge_map, = SRABE
     for snode in seq[node]:
@@ -369,7 +377,7 @@ def householderREFL_ROW_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * edge_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
@@ -494,7 +502,7 @@ def householderREFL_ROW_OP_SYM(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * edge_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
@@ -1055,7 +1063,7 @@ def householderREFL_COL_OP(
     norm_rem_sq = norm_sq
     norm_orig_sq = norm_sq + abssq(edge)
     norm_orig = norm_orig_sq**.5
-    u_mod_edge = edge + norm_orig * edge / abs(edge)
+    u_mod_edge = edge + norm_orig * edge_phase(edge)
     norm_sq = norm_sq + abssq(u_mod_edge)
     norm = norm_sq**.5
     #print("NORM_ORG", norm_orig[0])
-- 
2.43.0


From 4ab7996d477aa51f95af3e9009eab3483bce3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 14/51] fix: rounding of a lone edge's norm must not leave a
 node without a pivot (KeyError)

---
 phasor/matrix/DAG_algorithm_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/matrix/DAG_algorithm_impl.py b/phasor/matrix/DAG_algorithm_impl.py
index d58c37d..1bd5d4a 100644
--- a/phasor/matrix/DAG_algorithm_impl.py
+++ b/phasor/matrix/DAG_algorithm_impl.py
@@ -79,7 +79,7 @@ def reduceLUQ_row(
     if not np.all(np.isfinite(rvec)):
         print("NORMR: ", normr)
         assert(False)
-    bignodes_r = np.array(rvec) >= 1./(len(req[node]))**.5
+    bignodes_r = np.array(rvec) >= (1 - 1e-6)/(len(req[node]))**.5
     rcount = np.count_nonzero(bignodes_r)
     vprint("R: ", np.count_nonzero(bignodes_r), len(req[node]), bignodes_r[rvec_self_idx])
 
@@ -950,7 +950,7 @@ def reduceLUQ_col(
     if not np.all(np.isfinite(cvec)):
         print("NORMC: ", normc)
         assert(False)
-    bignodes_c = np.array(cvec) >= 1./(len(seq[node]))**.5
+    bignodes_c = np.array(cvec) >= (1 - 1e-6)/(len(seq[node]))**.5
     ccount = np.count_nonzero(bignodes_c)
     vprint(bignodes_c, cvec_self_idx, ccount)
     vprint("pe_C: ", np.count_nonzero(bignodes_c), len(seq[node]), bignodes_c[cvec_self_idx])
-- 
2.43.0


From 8bb2fdbf5265095111d1a4fe201a7339a14b87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 15/51] fix: scisparse solve with both sources and drives
 (sorting the vacuum node raised TypeError)

---
 phasor/matrix/scisparse_algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/matrix/scisparse_algorithm.py b/phasor/matrix/scisparse_algorithm.py
index 46e59ed..0a79616 100644
--- a/phasor/matrix/scisparse_algorithm.py
+++ b/phasor/matrix/scisparse_algorithm.py
@@ -38,7 +38,8 @@ def pk_prefs(*preflist, **kwargs):
             ksort.extend(sorted(pk.items()))
             return tuple(ksort)
         else:
-            return pk
+            #special nodes (such as the vacuum) must be comparable to the others
+            return ('', repr(pk))
     return key
 
 #TODO organize this sortkeys algorithm into system or somewhere
-- 
2.43.0


From e9f12af7a0b02c9c93afea2dec6f4a543d31727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 16/51] fix: scisparse solve when no input reaches an output
 (spsolve raised ValueError)

---
 phasor/matrix/scisparse_algorithm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phasor/matrix/scisparse_algorithm.py b/phasor/matrix/scisparse_algorithm.py
index 0a79616..a6d5128 100644
--- a/phasor/matrix/scisparse_algorithm.py
+++ b/phasor/matrix/scisparse_algorithm.py
@@ -147,6 +147,11 @@ def mgraph_simplify_inplace(
     for idx, k in enumerate(keys_alpha):
         keys_alpha_inv[k] = idx
 
+    if not keys or not keys_alpha:
+        #no input reaches any output
+        edge_map.clear()
+        return
+
     #CSR generation routine
 
     arr_keys = []
-- 
2.43.0


From 70d50396c86f9a5ef9522320c4ba1cc7139caf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 17/51] fix: KeyMatrix sums kept only the last missing entry
 and index_map could not be called

---
 phasor/math/key_matrix/keymatrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index ccdfabd..68c3d01 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -395,8 +395,8 @@ class KeyMatrix(KeyMatrixBase):
         return self.mat.T
 
     def index_map(self, key_from, key_to):
-        idx_from = self.vspace_from.key_map[key_from]
-        idx_to = self.vspace_to.key_map[key_to]
+        idx_from = self.vspace_from.key_map(key_from)
+        idx_to = self.vspace_to.key_map(key_to)
         return idx_from, idx_to
 
     def backmap_array(self, array):
@@ -463,7 +463,7 @@ class KeyMatrix(KeyMatrixBase):
                 v = premap[key_pair]
                 premap[key_pair] = v + value
             except KeyError:
-                premap = value
+                premap[key_pair] = value
         return KeyMatrix(self.vspace_from, self.vspace_to, _premap = premap)
 
     def __sub__(self, other):
-- 
2.43.0


From 54e6a3d6e4f7db090123af61785559d2fffc5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 18/51] fix: KeyMatrix.backmap_array read the array transposed
 to KeyMatrix.array

---
 phasor/math/key_matrix/keymatrix.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index 68c3d01..e1284fe 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -408,16 +408,16 @@ class KeyMatrix(KeyMatrixBase):
             array_2d = np.any(array, axis = 0)
             while len(array_2d.shape) > 2:
                 array_2d = np.any(array_2d, axis = 0)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
@@ -430,18 +430,20 @@ class KeyMatrix(KeyMatrixBase):
         vspace_from = self.vspace_to
         vspace_to   = self.vspace_from
         array = np.asarray(array)
-        if len(array.shape) == 3:
-            array_2d = np.any(array, axis = 2)
-            nz_idx_from, nz_idx_to = array_2d.nonzero()
+        if len(array.shape) > 2:
+            array_2d = np.any(array, axis = 0)
+            while len(array_2d.shape) > 2:
+                array_2d = np.any(array_2d, axis = 0)
+            nz_idx_to, nz_idx_from = array_2d.nonzero()
         else:
-            nz_idx_from, nz_idx_to = array.nonzero()
+            nz_idx_to, nz_idx_from = array.nonzero()
         matrix_map = {}
         for idx_count in range(len(nz_idx_from)):
             idx_from = nz_idx_from[idx_count]
             idx_to = nz_idx_to[idx_count]
             key_from = vspace_from.idx_map(idx_from)
             key_to = vspace_to.idx_map(idx_to)
-            value = array[..., idx_from, idx_to]
+            value = array[..., idx_to, idx_from]
             matrix_map[key_from, key_to] = value
         new_keymat = self.__class__(
             vspace_from = vspace_from,
-- 
2.43.0


From ce9142f614b6e69f0852ddfc8b85b65b1db90958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 19/51] fix: keyed matrix products of plain dictionaries raised
 KeyError for unmatched keys

---
 phasor/matrix/SRE_matrix_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/matrix/SRE_matrix_algorithms.py b/phasor/matrix/SRE_matrix_algorithms.py
index f63864b..750d733 100644
--- a/phasor/matrix/SRE_matrix_algorithms.py
+++ b/phasor/matrix/SRE_matrix_algorithms.py
@@ -23,7 +23,7 @@ def matrix_mult_sre(sre1, sre2):
     for k_mid, mseq in seq2.items():
         if not mseq:
             continue
-        for k_from in req1[k_mid]:
+        for k_from in req1.get(k_mid, ()):
             e1 = edge_mape_1[k_from, k_mid]
             seq.setdefault(k_from, set())
             for k_to in mseq:
-- 
2.43.0


From afd3aba56035da166eaad35b10d8789e89542307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 20/51] fix: Complex powers (even, negative, zero and
 fractional exponents) and comparisons were wrong

---
 phasor/math/complex.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 8f79300..e9945bc 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -188,8 +188,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real == other.real) and
-            (self.imag == other.imag)
+            (self.real == o_real) and
+            (self.imag == o_imag)
         )
 
     def __ne__(self, other):
@@ -200,8 +200,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real != other.real) or
-            (self.imag != other.imag)
+            (self.real != o_real) or
+            (self.imag != o_imag)
         )
 
     def __pow__(self, other):
@@ -216,11 +216,17 @@ class Complex(ReprMixin):
             val = self
             if isinstance(o_real, int) or (isinstance(o_real, float) and (int(o_real) == o_real)):
                 o_real = int(o_real)
+                if o_real < 0:
+                    return 1 / self**(-o_real)
+                elif o_real == 0:
+                    return self.__class__(1, 0)
+                base = self
                 while o_real % 2 == 0:
-                    o_real = (o_real / 2)
-                    val = val * val
+                    o_real = o_real // 2
+                    base = base * base
+                val = base
                 for _ in range(o_real - 1):
-                    val = val * self
+                    val = val * base
                 return val
             if isinstance(o_real, float) and o_real == .5:
                 aval = abs(self)
@@ -252,8 +258,8 @@ class Complex(ReprMixin):
 
         aval = aval ** o_real
         phase = phase * o_real
-        if o_imag is None:
-            return Complex(aval * cos(phase), -aval * sin(phase))
+        if o_imag is None or o_imag == 0:
+            return Complex(aval * cos(phase), aval * sin(phase))
         return NotImplemented
 
     def __rpow__(self, other):
-- 
2.43.0


From d2aecb6184e67d73ace141429dada29da88319eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 21/51] fix: dispatched atan (Complex powers and angle) was not
 found for floats

---
 phasor/math/dispatch_defaults.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/phasor/math/dispatch_defaults.py b/phasor/math/dispatch_defaults.py
index a77d8ab..9c0a3d0 100644
--- a/phasor/math/dispatch_defaults.py
+++ b/phasor/math/dispatch_defaults.py
@@ -35,3 +35,9 @@ def abs_sq(obj):
     cobj = Complex(obj)
     return cobj.abs_sq()
 
+
+def atan(obj):
+    #numpy (also used for python floats) only knows arctan
+    #the import is local as the names of this module are dispatched
+    import numpy as np
+    return np.arctan(obj)
-- 
2.43.0


From 0d88590dbeff64adb5ad0e03b10bea2efe730c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 22/51] fix: KeyVector.add_by modified the arrays of the caller
 in place

---
 phasor/math/key_matrix/keymatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/math/key_matrix/keymatrix.py b/phasor/math/key_matrix/keymatrix.py
index e1284fe..1249dfa 100644
--- a/phasor/math/key_matrix/keymatrix.py
+++ b/phasor/math/key_matrix/keymatrix.py
@@ -192,7 +192,7 @@ class KeyVectorBase(KeyLinearBase):
         self._memoize_count += 1
         self.vspace.keys_add(key)
         try:
-            self._data_map[key] += value
+            self._data_map[key] = self._data_map[key] + value
         except KeyError:
             self._data_map[key] = value
         if len(np.asanyarray(value).shape) > 0:
@@ -250,7 +250,7 @@ class KeyMatrixBase(KeyLinearBase):
         self.vspace_to.keys_add(key_to)
         key_pair = key_from, key_to
         try:
-            self._data_map[key_pair] *= value
+            self._data_map[key_pair] = self._data_map[key_pair] * value
         except KeyError:
             self._data_map[key_pair] = value
         if len(np.asanyarray(value).shape) > 0:
-- 
2.43.0


From 05552cb12318ac9e9b80413622192de066ac3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 23/51] fix: frequency keys with zero multiples compared
 unequal to (but hashed as) the same combination

---
 phasor/base/dictionary_keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/base/dictionary_keys.py b/phasor/base/dictionary_keys.py
index c173af6..961c5fe 100644
--- a/phasor/base/dictionary_keys.py
+++ b/phasor/base/dictionary_keys.py
@@ -146,7 +146,8 @@ class DictKey(MappingABC):
 class FrequencyKey(object):
     __slots__ = ('F_dict', 'prev_hash', 'prev_tup')
     def __init__(self, F_dict):
-        self.F_dict = F_dict
+        #absent and zero multiples are the same combination (and must compare and hash as such)
+        self.F_dict = dict((F, n) for F, n in F_dict.items() if n != 0)
 
     def DC_is(self):
         return not self.F_dict
-- 
2.43.0


From 74a76d5ba3659d3f616a8ec0e1b2f49740f3e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:55 +0000
Subject: [PATCH 24/51] fix: HeapPriorityQueueThreadsafe.pushpop called a
 function heapq does not have

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index b04d654..077fd1e 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -178,6 +178,6 @@ class HeapPriorityQueueThreadsafe(object):
         add item into the Queue then return the smallest
         """
         with self.lock:
-            return heapq.pushpop(self.heap, item)
+            return heapq.heappushpop(self.heap, item)
 
 
-- 
2.43.0


From 1668d5ae219ec4da9881457955745f617b67ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 25/51] fix: mirror backscatter used the phase of the
 reflection instead of backscatter_phase

---
 phasor/optics/mirror.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 4f7f865..238466c 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -282,7 +282,7 @@ class Mirror(
                     ports_algorithm.port_coupling_needed(lmap[port].o, kfrom)
                 if R_nonzero:
                     ports_algorithm.port_coupling_needed(rmap[port].o, kfrom)
-                if self.R_backscatter != 0:
+                if np.any(self.R_backscatter != 0):
                     ports_algorithm.port_coupling_needed(rBSmap[port].o, kfrom)
             for kto in ports_algorithm.port_update_get(port.o):
                 ports_algorithm.port_coupling_needed(port.i, kto)
@@ -292,7 +292,7 @@ class Mirror(
                     ports_algorithm.port_coupling_needed(lmap[port].i, kto)
                 if R_nonzero:
                     ports_algorithm.port_coupling_needed(rmap[port].i, kto)
-                if self.R_backscatter != 0:
+                if np.any(self.R_backscatter != 0):
                     ports_algorithm.port_coupling_needed(rBSmap[port].i, kto)
 
         if self._has_loss:
@@ -453,8 +453,8 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From edcf17778a7c94248a91c7e84073102c3a4e3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 26/51] fix: a mirror with a reflection phase did not conserve
 energy when lit from both sides

---
 phasor/optics/mirror.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 238466c..9896c07 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -426,8 +426,9 @@ class Mirror(
                 R_cplgC  = R_cplg
 
                 if np.any(self.phase_rad.val != 0):
-                    R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                    R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                    #opposite from the back, or the mirror would not be unitary
+                    R_cplg   = R_cplg * self.symbols.math.exp(mod_sign * self.symbols.i * self.phase_rad.val)
+                    R_cplgC  = R_cplgC * self.symbols.math.exp(-mod_sign * self.symbols.i * self.phase_rad.val)
 
                 #everything scales with Stdcplg, so don't run if there are no reflections
                 if R_nonzero:
-- 
2.43.0


From dfde29074db571ca3928cd14a7e3ba5373ab19ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 27/51] fix: PolSelector passed the S fields of Bk_P instead of
 those of Bk_S

---
 phasor/optics/selectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/selectors.py b/phasor/optics/selectors.py
index c77821e..24476f3 100644
--- a/phasor/optics/selectors.py
+++ b/phasor/optics/selectors.py
@@ -60,7 +60,7 @@ class PolSelector(
         for kfrom in matrix_algorithm.port_set_get(self.Bk_P.i):
             matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
         for kfrom in matrix_algorithm.port_set_get(self.Bk_S.i):
-            matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
+            matrix_algorithm.port_coupling_insert(self.Bk_S.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
-- 
2.43.0


From 6f4711575c67523c61cd651e4f57bb3964f0003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 28/51] fix: StateSpaceModel sent its feed-through D into the
 state nodes instead of the outputs

---
 phasor/signals/state_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/state_space.py b/phasor/signals/state_space.py
index e39890c..1da5a56 100644
--- a/phasor/signals/state_space.py
+++ b/phasor/signals/state_space.py
@@ -104,7 +104,7 @@ class StateSpaceModel(
                         ports_algorithm.port_coupling_needed(p_state.node, kfrom)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         ports_algorithm.port_coupling_needed(p_out.o, kfrom)
@@ -179,7 +179,7 @@ class StateSpaceModel(
                         matrix_algorithm.port_coupling_insert(p_in.i, kfrom, p_state.node, kfrom, D_cplg)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         #print("    ", p_out)
-- 
2.43.0


From 3b279e9b31182d4c5793558a21a20dc5d469563d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 29/51] fix: the gain of a Gain could not be set

---
 phasor/signals/siso_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 92c10fa..7f6da3d 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -124,6 +124,7 @@ class Integrator(TransferFunctionSISOBase):
 
 
 class Gain(TransferFunctionSISOBase):
+    @declarative.dproperty
     def gain(self, val = 1):
         return val
 
-- 
2.43.0


From 420497a29c278dd08c02d5e7afb430b619d45455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 30/51] fix: TransferFunctionSISO kept the builtin filter
 instead of the function it was given

---
 phasor/signals/siso_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 7f6da3d..1c9ab57 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -103,7 +103,7 @@ class TransferFunctionSISO(TransferFunctionSISOBase):
             **kwargs
     ):
         super().__init__(**kwargs)
-        PTREE_ASSIGN(self).filter = filter
+        PTREE_ASSIGN(self).filter = filter_func
         return
 
     def filter_func(self, freq):
-- 
2.43.0


From 4361665c669f87fba70df3da262d4aed51c5bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 31/51] fix: max_freq could not be used, and would not have
 limited negative frequencies

---
 phasor/system/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index f837310..068b68f 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -291,8 +291,8 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz
-        if np.any(freq_Hz < max_freq):
+            freq_Hz += n * F.F_Hz.val
+        if np.any(abs(freq_Hz) < max_freq):
             return False
         return True
 
-- 
2.43.0


From e7876402e905801d15e83520ac06d8f2a9a8d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 32/51] fix: MatrixAmplifier stored its outputs under the names
 of its inputs and never inserted its ports

---
 phasor/signals/amplifiers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/amplifiers.py b/phasor/signals/amplifiers.py
index c3fdda5..0ea70a9 100644
--- a/phasor/signals/amplifiers.py
+++ b/phasor/signals/amplifiers.py
@@ -101,9 +101,11 @@ class MatrixAmplifier(bases.CouplerBase, bases.SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_gains.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.insert(ports.SignalInPort(), 'ps_In_' + iname)
+                self.ps_In[iname] = self['ps_In_' + iname]
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.insert(ports.SignalOutPort(), 'O_' + oname)
+                self.O[oname] = self['O_' + oname]
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 7cd122e694d70350f79e9ee41e68cc94cffb7356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 33/51] fix: TransferFunctionMIMO stored its outputs under the
 names of its inputs and never inserted its ports

---
 phasor/signals/mimo_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/mimo_filter.py b/phasor/signals/mimo_filter.py
index 8775bad..a3a913f 100644
--- a/phasor/signals/mimo_filter.py
+++ b/phasor/signals/mimo_filter.py
@@ -35,9 +35,11 @@ class TransferFunctionMIMO(CouplerBase, SystemElementBase):
 
         for (iname, oname), xfer in list(self.port_pair_xfers.items()):
             if iname not in self.ps_In:
-                self.ps_In[iname] = ports.SignalInPort(sname = iname)
+                self.insert(ports.SignalInPort(), 'ps_In_' + iname)
+                self.ps_In[iname] = self['ps_In_' + iname]
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.insert(ports.SignalOutPort(), 'O_' + oname)
+                self.O[oname] = self['O_' + oname]
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 88610677bb961392520e2bd15827d7cac8669e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 34/51] fix: a filter without DC failed when its gain is one
 number for many frequencies

---
 phasor/signals/siso_filter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 1c9ab57..7b8693b 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -50,10 +50,7 @@ class TransferFunctionSISOBase(SignalElementBase):
     def filter_func_run(self, freq):
         xfer = self.filter_func(freq)
         if self.no_DC:
-            xfer = np.asarray(xfer)
-            freq = np.asarray(freq)
-            zfreq = (freq == 0)
-            xfer[zfreq] = 0
+            xfer = np.where(np.asarray(freq) == 0, 0, xfer)
         return xfer
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 2067e50ca41258bf6a188056191da20b12799ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 35/51] fix: Mixer and Modulator halved products with a DC
 signal

---
 phasor/signals/mixer.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/phasor/signals/mixer.py b/phasor/signals/mixer.py
index c228f24..d432fde 100644
--- a/phasor/signals/mixer.py
+++ b/phasor/signals/mixer.py
@@ -71,19 +71,21 @@ class Mixer(bases.SignalElementBase):
                 freq_LO = self.system.classical_frequency_extract(kfrom1)
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
+                #a line carries half of its signal at each sign of its frequency, DC all of it
+                norm = 2**(f1.DC_is() + f2.DC_is())
                 if not f_new.DC_is():
                     #TODO add inhomogenous term
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.LO.i,  kfrom1),
                         (self.ps_In.i,   kfrom2),
                         (self.ps_R_I.o, kto),
-                        1 / 2,
+                        norm / 2,
                     )
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.LO.i,  kfrom1),
                         (self.ps_In.i,   kfrom2),
                         (self.ps_R_Q.o, kto),
-                        self.symbols.i * np.sign(freq_LO) / 2,
+                        self.symbols.i * norm * np.sign(freq_LO) / 2,
                     )
                 else:
                     #TODO add inhomogenous term
@@ -91,13 +93,13 @@ class Mixer(bases.SignalElementBase):
                         (self.LO.i,  kfrom1),
                         (self.ps_In.i,   kfrom2),
                         (self.ps_R_I.o, kto),
-                        1 / 4,
+                        norm / 4,
                     )
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.LO.i,  kfrom1),
                         (self.ps_In.i,   kfrom2),
                         (self.ps_R_Q.o, kto),
-                        self.symbols.i * np.sign(freq_LO) / 4,
+                        self.symbols.i * norm * np.sign(freq_LO) / 4,
                     )
         return
 
@@ -194,19 +196,21 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
+                #a line carries half of its signal at each sign of its frequency, DC all of it
+                norm = 2**(f1.DC_is() + f2.DC_is())
                 if not f_new.DC_is():
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.ps_In.i,  kfrom1),
                         (self.Mod_amp.i,   kfrom2),
                         (self.ps_Out.o, kto),
-                        cplg / 2,
+                        norm * cplg / 2,
                     )
                 else:
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.ps_In.i,  kfrom1),
                         (self.Mod_amp.i,   kfrom2),
                         (self.ps_Out.o, kto),
-                        cplg / 4,
+                        norm * cplg / 4,
                     )
             for kfrom2 in matrix_algorithm.port_set_get(self.Mod_phase.i):
                 f1 = kfrom1[ports.ClassicalFreqKey]
@@ -217,19 +221,21 @@ class Modulator(bases.SignalElementBase):
 
                 kto = ports.DictKey({ports.ClassicalFreqKey: f_new})
 
+                #a line carries half of its signal at each sign of its frequency, DC all of it
+                norm = 2**(f1.DC_is() + f2.DC_is())
                 if not f_new.DC_is():
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.ps_In.i,  kfrom1),
                         (self.Mod_phase.i,   kfrom2),
                         (self.ps_Out.o, kto),
-                        cplg * self.symbols.i * np.sign(freq_In) / 2,
+                        cplg * self.symbols.i * norm * np.sign(freq_In) / 2,
                     )
                 else:
                     matrix_algorithm.nonlinear_triplet_insert(
                         (self.ps_In.i,  kfrom1),
                         (self.Mod_phase.i,   kfrom2),
                         (self.ps_Out.o, kto),
-                        cplg * self.symbols.i * np.sign(freq_In) / 4,
+                        cplg * self.symbols.i * norm * np.sign(freq_In) / 4,
                     )
         return
 
-- 
2.43.0


From ccea0cadbce4a909861cbc3bfe9f3458c7ed8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 36/51] fix: homodyne densities failed over frequency arrays
 unless every term depends on frequency

---
 phasor/readouts/homodyne_AC.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index e08b0f5..b0398f0 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -90,6 +90,7 @@ class HomodyneACReadoutBase(base.SystemElementBase):
             IQ = subCSD['ps_In', 'Q']
             QI = subCSD['Q', 'ps_In']
             QQ = subCSD['Q', 'Q']
+            II, IQ, QI, QQ = np.broadcast_arrays(II, IQ, QI, QQ)
             arr = np_roll_2D_mat_back(
                 np.array(
                     [[II, IQ], [QI, QQ]]
@@ -121,6 +122,7 @@ class HomodyneACReadoutBase(base.SystemElementBase):
         IQ = self.noise.CSD['ps_In', 'Q']
         QI = self.noise.CSD['Q', 'ps_In']
         QQ = self.noise.CSD['Q', 'Q']
+        II, IQ, QI, QQ = np.broadcast_arrays(II, IQ, QI, QQ)
         arr = np_roll_2D_mat_back(
             np.array(
                 [[II, IQ], [QI, QQ]]
-- 
2.43.0


From 7f1103ed46e9b9452aeb2522cde9604fce7eb37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 37/51] fix: AC_CSD_ellipse_normSN looked for symbols that
 readouts do not have

---
 phasor/readouts/homodyne_AC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index b0398f0..649c182 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -206,7 +206,7 @@ class HomodyneACReadoutBase(base.SystemElementBase):
     def AC_CSD_ellipse_normSN(self):
         ellipse = self.AC_CSD_ellipse
         #TODO, get appropriate wavelength rather than assuming 1064nm
-        qmag = self.system.adjust_PSD * self.symbols.h_Js * self.symbols.c_m_s / 1064e-9  # * iwavelen_m
+        qmag = self.system.adjust_PSD * self.system.symbols.h_Js * self.system.symbols.c_m_s / 1064e-9  # * iwavelen_m
         return declarative.Bunch(
             min = ellipse.min / qmag,
             max = ellipse.max / qmag,
-- 
2.43.0


From 1fad91a2ee052a2de2bdc594b8156f38966092b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 38/51] fix: the optimal readout angle ignored the relative
 sign of the quadratures

---
 phasor/readouts/homodyne_AC.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phasor/readouts/homodyne_AC.py b/phasor/readouts/homodyne_AC.py
index 649c182..e107d73 100644
--- a/phasor/readouts/homodyne_AC.py
+++ b/phasor/readouts/homodyne_AC.py
@@ -283,8 +283,9 @@ class HomodyneACReadoutBase(base.SystemElementBase):
 
     @declarative.mproperty
     def AC_optimal_readout_deg(self):
-        SIQ = np.einsum('ij...,j...->i...', self.AC_CSD_IQ_inv, self.AC_sensitivity_IQ)
-        ang_lin = np.arctan2(np.abs(SIQ[1]), np.abs(SIQ[0]))
+        SIQ = np.einsum('ij...,j...->i...', self.AC_CSD_IQ_re_inv, self.AC_sensitivity_IQ)
+        sign = np.where(np.real(SIQ[1] * np.conjugate(SIQ[0])) < 0, -1, 1)
+        ang_lin = np.arctan2(sign * np.abs(SIQ[1]), np.abs(SIQ[0]))
         return ang_lin * 180 / np.pi
 
     @declarative.mproperty
-- 
2.43.0


From 82f9c882c615c5f11af6e5a1bd7ef6d99a5239f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 39/51] fix: Testpoint.DC asked for a port set it does not have

---
 phasor/readouts/testpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/testpoint.py b/phasor/readouts/testpoint.py
index e8ae31a..791cead 100644
--- a/phasor/readouts/testpoint.py
+++ b/phasor/readouts/testpoint.py
@@ -42,7 +42,7 @@ class Testpoint(base.SystemElementBase):
 
     @declarative.mproperty
     def DC(self):
-        sbunch = self.system.solution.driven_solution_get(self.port_set)
+        sbunch = self.system.solution.driven_solution_get('DC')
         pk_view = (self.port, self.key)
         val = sbunch.solution[pk_view]
         return val.real
-- 
2.43.0


From 66d487aad8c8bcc0a5486ac6f3aaf18141926b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 40/51] fix: two elements at one place of a layout could not be
 sorted

---
 phasor/alm/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 23569b3..f133fff 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -78,7 +78,7 @@ class System(
             if isinstance(ch, bases.MatrixAtsBase):
                 if ch.loc_m.ref is not None:
                     loc_ch_list.append((ch.loc_m.ref, ch))
-        loc_ch_list.sort()
+        loc_ch_list.sort(key = lambda loc_ch : loc_ch[0])
         #print(loc_ch_list)
         clist = [ch for loc, ch in loc_ch_list]
         return clist
-- 
2.43.0


From e95c5dc4bd6ef0c0a27e3de89e01e80229eafe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 41/51] fix: a layout that grew after it was read kept the gaps
 it had before

---
 phasor/alm/system.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index f133fff..034d24a 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -33,6 +33,15 @@ class System(
     def _internal(self):
         return Element()
 
+    def _internal_insert(self, obj, name, invalidate):
+        #otherwise the space keeps the length it had in a previous layout
+        for idx in (0, 'immediate'):
+            try:
+                del self._internal.ctree.useidx(idx)[name]
+            except KeyError:
+                pass
+        return self._internal.insert(obj = obj, name = name, invalidate = invalidate)
+
     _loc_default = ('loc_m', None)
     loc_m = attrs.generate_loc_m()
 
@@ -149,7 +158,7 @@ class System(
                         pos_list.append(loc_m_prev)
                         name = 'auto_space{0}'.format(idx)
                         components_filled.append(
-                            self._internal.insert(
+                            self._internal_insert(
                                 obj = space.Space(
                                     L_m = loc_m - loc_m_prev,
                                     loc_m = loc_m,
@@ -171,7 +180,7 @@ class System(
                         pos_list.append(loc_m_prev)
                         name = 'auto_space{0}'.format(idx)
                         components_filled.append(
-                            self._internal.insert(
+                            self._internal_insert(
                                 obj = space.Space(
                                     L_m = loc_m - loc_m_prev,
                                     loc_m = loc_m,
@@ -205,7 +214,7 @@ class System(
                 pos_list.append(loc_m_prev)
                 name = 'auto_space{0}'.format(idx + 1)
                 components_filled.append(
-                    self._internal.insert(
+                    self._internal_insert(
                         obj = space.Space(
                             L_m = loc_m - loc_m_prev,
                             loc_m = loc_m,
-- 
2.43.0


From 1edacfaa8136b0a3040b478a6b48b97a150a610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 42/51] fix: a layout truncated to an empty stretch could not
 be built

---
 phasor/alm/system.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 034d24a..de39222 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -200,6 +200,13 @@ class System(
                 loc_m += comp.width_m
                 loc_m_prev = loc_m
 
+            if loc_m_prev is None and lslice is not None and rslice is not None:
+                #there is nothing between the truncations
+                if self.env_reversed:
+                    loc_m_prev = -self.boundary_right_m.val
+                else:
+                    loc_m_prev = self.boundary_left_m.val
+
             #now add the final space if there is a truncation
             if (
                     (rslice is not None and not self.env_reversed) or
-- 
2.43.0


From 986cf518f67a91080f5d042e62cc79750a2c757a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 43/51] fix: a beam parameter could not be converted to
 complex, so beam profiles failed

---
 phasor/alm/beam_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/alm/beam_param.py b/phasor/alm/beam_param.py
index 977280c..1a13158 100644
--- a/phasor/alm/beam_param.py
+++ b/phasor/alm/beam_param.py
@@ -200,7 +200,7 @@ class ComplexBeamParam(object):
         )
 
     def __complex__(self):
-        return self.value
+        return complex(self.value.real, self.value.imag)
 
     def overlap_with(self, other):
         return (
-- 
2.43.0


From 471d956b75fa3c60883e9fcd02ead8404ba3caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 44/51] fix: beams at unsorted positions failed

---
 phasor/alm/bases.py        | 12 +++++-------
 phasor/alm/measurements.py |  6 +++++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 6406e6e..3532c49 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -105,17 +105,15 @@ class MatrixAtsBase(Element):
                 return self.matrix_target_to_z_linsorted(tidx1, z_m, fill, invert = invert)
 
             fill_reshape = fill.reshape(2, 2, -1)
-            idx_remux = np.indices(z_m.shape)
-            idx_remux = idx_remux.reshape(len(z_m.shape), -1)
             z_m = z_m.reshape(-1)
             sidx = np.argsort(z_m)
             z_m = z_m[sidx]
-            idx_remux = idx_remux[:, sidx]
-            self.matrix_target_to_z_linsorted(tidx1, z_m, fill_reshape, invert = invert)
-            fill = fill_reshape[(slice(None), slice(None)) + tuple(idx_remux[i] for i in range(idx_remux.shape[0]))]
-            return
+            fill_sorted = np.empty_like(fill_reshape)
+            self.matrix_target_to_z_linsorted(tidx1, z_m, fill_sorted, invert = invert)
+            fill_reshape[:, :, sidx] = fill_sorted
+            return fill
         else:
-            return self.matrix_target_to_z_single(z_m)
+            return self.matrix_target_to_z_single(tidx1, z_m, invert = invert)
 
     def matrix_target_to_z_linsorted(self, tidx1, z_m, fill, invert = False):
         it = np.nditer(z_m, flags = ['multi_index'])
diff --git a/phasor/alm/measurements.py b/phasor/alm/measurements.py
index 7ab75bd..15d7d77 100644
--- a/phasor/alm/measurements.py
+++ b/phasor/alm/measurements.py
@@ -182,7 +182,8 @@ class Measurements(Element):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx_beam, z_m, fill)
         else:
-            mat = self.matrix_at(z_m)
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx_beam, z_m, fill)
         target_obj = self.layout.target_obj(tidx_beam)
         q_in = target_obj.beam_q
         q = q_in.propagate_matrix(mat)
@@ -196,6 +197,9 @@ class Measurements(Element):
         elif np_check_sorted(z_m):
             fill = np.empty((2, 2) + z_m.shape)
             mat = self.layout.matrix_target_to_z_linsorted(tidx, z_m, fill)
+        else:
+            fill = np.empty((2, 2) + z_m.shape)
+            mat = self.layout.matrix_target_to_z(tidx, z_m, fill)
         return mat
 
     def mat_target_between(self, tname1, tname2):
-- 
2.43.0


From 32a365bce58c3da80c0ae0a7c785be6c823ecedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 45/51] fix: peek of the threadsafe queue could see the inside
 of an operation of another thread

---
 phasor/utilities/priority_queue/heap_priority_queue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/phasor/utilities/priority_queue/heap_priority_queue.py b/phasor/utilities/priority_queue/heap_priority_queue.py
index 077fd1e..5edd878 100644
--- a/phasor/utilities/priority_queue/heap_priority_queue.py
+++ b/phasor/utilities/priority_queue/heap_priority_queue.py
@@ -134,10 +134,11 @@ class HeapPriorityQueueThreadsafe(object):
 
         :raises: :exc:`Queue.Empty` if no items contained
         """
-        try:
-            return self.heap[0]
-        except IndexError:
-            raise Empty()
+        with self.lock:
+            try:
+                return self.heap[0]
+            except IndexError:
+                raise Empty()
 
     def is_empty(self):
         """
-- 
2.43.0


From 26314c12059ed8405debf543a7c9e81ef0975c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 46/51] fix: frequencies an element asks for at a port it
 watches were not told to it

---
 phasor/system/ports_algorithm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/phasor/system/ports_algorithm.py b/phasor/system/ports_algorithm.py
index 7475694..0a3ecf9 100644
--- a/phasor/system/ports_algorithm.py
+++ b/phasor/system/ports_algorithm.py
@@ -129,7 +129,11 @@ class PortUpdatesAlgorithm(object):
 
                 self.owners_update.add(owner)
                 for Vowner in self.system.port_owners_virtual[pto]:
-                    v = self.port_cplgs_update[Vowner, pto]
+                    if Vowner is self._current_element:
+                        #the current update is cleared once the element is done
+                        v = self.port_cplgs_updateX[pto]
+                    else:
+                        v = self.port_cplgs_update[Vowner, pto]
                     v.add(kto)
                     self.owners_update.add(Vowner)
         return
-- 
2.43.0


From 604cf36329d717a5aa773b453aff07690ca82cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 47/51] fix: signal nodes lost their frequencies in elements
 without couplings of their own

---
 phasor/system/ports_algorithm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/system/ports_algorithm.py b/phasor/system/ports_algorithm.py
index 0a3ecf9..8c4eb06 100644
--- a/phasor/system/ports_algorithm.py
+++ b/phasor/system/ports_algorithm.py
@@ -63,11 +63,11 @@ class PortUpdatesAlgorithm(object):
             try:
                 ssp = el.system_setup_ports
             except AttributeError:
-                pass
-            else:
-                self._current_element = el
+                ssp = None
+            self._current_element = el
+            if ssp is not None:
                 ssp(self)
-                self.resolve_port_updates()
+            self.resolve_port_updates()
 
         return
 
-- 
2.43.0


From 3e6f830ace1987ad6081bb64e62ebc16f2f41a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 48/51] fix: force readouts failed at frequencies nothing asked
 them for

---
 phasor/mechanical/multimeter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index 3f7fbf6..6d70b82 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -76,6 +76,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
 
     @decl.dproperty
     def terminal(self, port):
+        self.system.own_port_virtual(self, port.i)
+        self.system.own_port_virtual(self, port.o)
         return port
 
     @decl.dproperty
@@ -91,8 +93,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
         #this linear port into the readout ports
         ports = [self.terminal.i, self.terminal.o]
         for port1 in ports:
-            #for kfrom in ports_algorithm.port_update_get(port1):
-            #    ports_algorithm.port_coupling_needed(self.d.o, kfrom)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(self.F.o, kfrom)
             for kto in ports_algorithm.port_update_get(self.F.o):
                 ports_algorithm.port_coupling_needed(port1, kto)
         return
-- 
2.43.0


From 4a8069aae8b38ef4564711ea71124a8ae5c92e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:08 +0000
Subject: [PATCH 49/51] fix: MagicPD did not pass on the frequencies asked of
 the light it sends back

---
 phasor/optics/photodiode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/optics/photodiode.py b/phasor/optics/photodiode.py
index 0c9b1ab..d50bc99 100644
--- a/phasor/optics/photodiode.py
+++ b/phasor/optics/photodiode.py
@@ -153,6 +153,8 @@ class MagicPD(
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.i][0], kfrom)
         for kto in ports_algorithm.port_update_get(self.po_Bk.o):
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.o][0], kto)
+        for kto in ports_algorithm.port_update_get(self.po_Fr.o):
+            ports_algorithm.port_coupling_needed(pmap[self.po_Fr.o][0], kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 608579d444bd48771c9908e2d047be54390fdd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:10 +0000
Subject: [PATCH 50/51] fix: keys of frequencies given as arrays of different
 shapes had no frequency

---
 phasor/base/dictionary_keys.py |  2 +-
 phasor/system/system.py        | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/phasor/base/dictionary_keys.py b/phasor/base/dictionary_keys.py
index 961c5fe..21e2d0c 100644
--- a/phasor/base/dictionary_keys.py
+++ b/phasor/base/dictionary_keys.py
@@ -181,7 +181,7 @@ class FrequencyKey(object):
         for F, n in list(self.F_dict.items()):
             if n != 0:
                 #TODO maybe move the .val somewhere else
-                F_sum += F.F_Hz.val * n
+                F_sum = F_sum + F.F_Hz.val * n
         return F_sum
 
     def __repr__(self):
diff --git a/phasor/system/system.py b/phasor/system/system.py
index 068b68f..87aeecb 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -215,9 +215,9 @@ class BGSystem(RootElement):
         iwavelen_m = 0
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         for F, n in list(key[OpticalFreqKey].F_dict.items()):
-            iwavelen_m += n * F.iwavelen_m
+            iwavelen_m = iwavelen_m + n * F.iwavelen_m
         return iwavelen_m, freq_Hz
 
     @declarative.mproperty
@@ -273,7 +273,7 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         return freq_Hz
 
     def classical_frequency_extract_center(self, ekey):
@@ -282,7 +282,7 @@ class BGSystem(RootElement):
         for F, n in list(ekey.F_dict.items()):
             if len(np.array(F.F_center_Hz).shape) > 0:
                 print("Weird F_center_Hz shape: ", F, n, F.F_center_Hz)
-            freq_Hz += n * F.F_center_Hz
+            freq_Hz = freq_Hz + n * F.F_center_Hz
         return freq_Hz
 
     def classical_frequency_test_max(self, key, max_freq):
@@ -291,7 +291,7 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz.val
+            freq_Hz = freq_Hz + n * F.F_Hz.val
         if np.any(abs(freq_Hz) < max_freq):
             return False
         return True
-- 
2.43.0


From 9c5b367ff5d72a401b84cd824f9f2a9a8adaebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:10 +0000
Subject: [PATCH 51/51] fix: noise readouts failed when the terms of a density
 are arrays of different types or shapes

---
 phasor/readouts/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/readouts/noise.py b/phasor/readouts/noise.py
index b170aaa..ba211c2 100644
--- a/phasor/readouts/noise.py
+++ b/phasor/readouts/noise.py
@@ -83,7 +83,7 @@ class NoiseReadout(base.SystemElementBase):
                     if dkey not in nsums:
                         nsums[dkey] = np.copy(nsum)
                     else:
-                        nsums[dkey] += nsum
+                        nsums[dkey] = nsums[dkey] + nsum
             return declarative.Bunch(
                 nsums = nsums,
                 ncollect = self.external_collect
@@ -141,7 +141,7 @@ class NoiseReadout(base.SystemElementBase):
                             if not np.all(np.isfinite(pspec_tot)):
                                 print("BADNESS: ", nobj.name_system, pspec_tot)
                             else:
-                                nsum += pspec_tot
+                                nsum = nsum + pspec_tot
                                 ncollect[nobj][pnameP, pnameN] = ncollect[nobj][pnameP, pnameN] + pspec_tot
                 nsums[pnameP, pnameN] = nsum
         return declarative.Bunch(
-- 
2.43.0

