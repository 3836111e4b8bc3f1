From d61a5525cb815a95e48d0cdf71b7f81277508880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:24 +0000
Subject: [PATCH 01/43] fix: subset_fitter must read calibration labels
 little-endian

---
 qiskit/ignis/mitigation/measurement/fitters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..ba43d47 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,10 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # labels are little-endian: the qubit at position i of a qubit
+            # list is the character at position -1-i of the label
+            tmplabel = [label[-1 - index]
+                        for index in reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From 35b38520c1b9b2d6f8ce1eb3539010c1eeb1d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 02/43] fix: tensored mitigator matrices index qubits twice for
 qubit subsets

---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..9793868 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From b0276c44cfa27fd4da7b0bf9dd4b5d179f703e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 03/43] fix: combine_counts must not modify its first argument

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..7194c91 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -132,7 +132,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From 5695ed57e23de69cce58404d4826c7457894149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 04/43] fix: gauge optimisation objective crashes on a singular
 gauge

---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..b0179cc 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -268,6 +268,8 @@ class GaugeOptimize():
             and the one corresponding to B
         """
         gateset = self._x_to_gateset(x)
+        if gateset is None:  # singular gauge matrix
+            return np.inf
         result = sum([np.linalg.norm(gateset[label].data -
                                      self.ideal_gateset[label].data)
                       for label in self.gateset_basis.gate_labels])
-- 
2.43.0


From 3b4b3a1786b0f7ac35e1adce2a72c61ef4386907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 05/43] fix: GateSetBasis.add_gate must not modify the caller's
 gate dictionary

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index e5c94c1..73e8a51 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -62,7 +62,7 @@ class GateSetBasis:
         """
         self.name = name
         self.gate_labels = list(gates.keys())
-        self.gates = gates
+        self.gates = dict(gates)
         self.gate_matrices = {name: np.real(self._gate_matrix(gate))
                               for (name, gate) in gates.items()}
         self.spam_labels = tuple(sorted(spam.keys()))
-- 
2.43.0


From ea8bc51bd920c60ca7a5857023e55bacb3bed0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 06/43] fix: accreditation fitter builds its errors but never
 raises them

---
 qiskit/ignis/verification/accreditation/fitters.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..a8b2258 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -65,11 +65,11 @@ class AccreditationFitter:
             self.num_traps = len(postp_list)-1
         else:
             if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
+                raise QiskitError("ERROR: Run protocol with the"
+                                  "same number of traps")
 
         if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -82,7 +82,7 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
         for k, count in enumerate(allcounts):
             if k != v_zero:
@@ -104,8 +104,8 @@ class AccreditationFitter:
             theta (float): number between 0 and 1
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires"
+                              "at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 97d3de5ca26367e295b2e1a8218d747d19406edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 07/43] fix: accreditation fitters share one class-level
 outputs list

---
 qiskit/ignis/verification/accreditation/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index a8b2258..61e370d 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -43,11 +43,13 @@ class AccreditationFitter:
     N_acc = 0
     num_runs = 0
     flag = 'accepted'
-    outputs = []
     num_runs = 0
     num_traps = 0
     g_num = 1
 
+    def __init__(self):
+        self.outputs = []
+
     def single_protocol_run(self, results, postp_list, v_zero):
         """
         Single protocol run of accreditation protocol on simul backend
-- 
2.43.0


From e4673c5051897b1890027172f77d47571629bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:43 +0000
Subject: [PATCH 08/43] fix: accreditation bound must not keep the value of an
 earlier theta

---
 qiskit/ignis/verification/accreditation/fitters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 61e370d..71eff61 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -108,6 +108,8 @@ class AccreditationFitter:
         if self.N_acc == 0:
             raise QiskitError("ERROR: Variation distance requires"
                               "at least one accepted run")
+        self.bound = 1
+        self.confidence = 1
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From a54598c19f703fde5c7f37e2c958018852391977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 09/43] fix: pulse calibration schedules build their argument
 errors but never raise them

---
 .../calibrations/pulse_schedules.py              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 6c06129..82aee0b 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -60,11 +60,11 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
     # To keep function interface constant, errors are inserted here.
     # TODO: redesign this function in next release
     if inst_map is None:
-        QiskitError('Instruction schedule map is not provided. ',
-                    'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
+        raise QiskitError('Instruction schedule map is not provided. ',
+                          'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
     if meas_map is None:
-        QiskitError('Measurement map is not provided. ',
-                    'Run `backend.configuration().meas_map` to get meas_map.')
+        raise QiskitError('Measurement map is not provided. ',
+                          'Run `backend.configuration().meas_map` to get meas_map.')
 
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
@@ -122,11 +122,11 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
     # To keep function interface constant, errors are inserted here.
     # TODO: redesign this function in next release
     if inst_map is None:
-        QiskitError('Instruction schedule map is not provided. ',
-                    'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
+        raise QiskitError('Instruction schedule map is not provided. ',
+                          'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
     if meas_map is None:
-        QiskitError('Measurement map is not provided. ',
-                    'Run `backend.configuration().meas_map` to get meas_map.')
+        raise QiskitError('Measurement map is not provided. ',
+                          'Run `backend.configuration().meas_map` to get meas_map.')
 
     if pulse_sigma is None:
         pulse_sigma = pulse_width / width_sigma_ratio
-- 
2.43.0


From 77c304833bd0cdaf1253aaf0634ff68102a6a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 10/43] fix: qv_circuits ignores a seed of 0

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..81d15db 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -72,7 +72,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -83,7 +83,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From 4e3289e8af2ad9ccb5a97c05c0906ef03e5da0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 11/43] fix: qv_circuits ignores the qubit list when its
 largest qubit equals its length

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 81d15db..ab8c1b5 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -89,11 +89,8 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
-                qc = QuantumCircuit(int(n_q_max + 1))
-                qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
-            else:
-                qc = qv_circ
+            qc = QuantumCircuit(int(n_q_max + 1))
+            qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             qc.measure_active()
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
-- 
2.43.0


From ac8f8d8243c91f8491b0895204238ff4018084d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 12/43] fix: randomized_benchmarking_seq repeats one element
 for a seed of 0

---
 qiskit/ignis/verification/randomized_benchmarking/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..9a673d7 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -441,7 +441,7 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
+                    if rand_seed is not None:
                         rand_seed += (seed + 1)
                     new_elmnt = rb_group.random(rb_q_num, rand_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
-- 
2.43.0


From b1fabc3a4f5001acfdc9a6100bc08aaa55b6c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:24 +0000
Subject: [PATCH 13/43] fix: plot_qv_trial must report a missing matplotlib and
 not close a caller's figure

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 42032f8..1b080c4 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -351,10 +351,17 @@ class QVFitter:
             figsize (tuple): Figure size in inches.
             ax (Axes or None): plot axis (if passed in).
 
+        Raises:
+            ImportError: If matplotlib is not installed.
+
         Returns:
             matplotlib.Figure:
                 A figure for histogram of ideal and experiment probabilities.
         """
+        if not HAS_MATPLOTLIB:
+            raise ImportError('The function plot_qv_trial needs matplotlib. '
+                              'Run "pip install matplotlib" before.')
+
         circ_name = f"qv_depth_{depth}_trial_{trial_index}"
         ideal_data = self._all_output_prob_ideal[circ_name]
         exp_data = self._circ_counts[circ_name]
@@ -387,8 +394,8 @@ class QVFitter:
         ax.set_title(f'Quantum Volume {2**depth}, Trial #{trial_index}', fontsize=14)
 
         # Only close mpl figures in jupyter with inline backends
-        if get_backend() in ['module://ipykernel.pylab.backend_inline',
-                             'nbAgg']:
+        if fig and get_backend() in ['module://ipykernel.pylab.backend_inline',
+                                     'nbAgg']:
             plt.close(fig)
 
         return fig
-- 
2.43.0


From 3bd070d8f1f9872086a576bb9ef67d60a83b1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:45 +0000
Subject: [PATCH 14/43] fix: interleaved, purity and dihedral RB fitters add
 every initial result twice

---
 .../ignis/verification/randomized_benchmarking/fitters.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..654b824 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -524,9 +524,6 @@ class InterleavedRBFitter(RBFitterBase):
         self._rbfit_interleaved = RBFitter(
             interleaved_result, cliff_lengths, rb_pattern)
 
-        self.rbfit_std.add_data(original_result)
-        self.rbfit_int.add_data(interleaved_result)
-
         if not (original_result is None and interleaved_result is None):
             self.fit_data()
 
@@ -808,7 +805,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
+        self._rbfit_purity = RBFitter(None, cliff_lengths,
                                       rb_pattern)
         self.add_data(purity_result)
 
@@ -1184,9 +1181,6 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._rbfit_X = RBFitter(
             cnotdihedral_X_result, elmnts_lengths, rb_pattern)
 
-        self.rbfit_Z.add_data(cnotdihedral_Z_result)
-        self.rbfit_X.add_data(cnotdihedral_X_result)
-
         if not (cnotdihedral_Z_result is None and
                 cnotdihedral_X_result is None):
             self.fit_data()
-- 
2.43.0


From 20f1f9b003ef476f4f24ccf7a9dba697cf1476b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:45 +0000
Subject: [PATCH 15/43] fix: interleaved and dihedral RB fitters crash without
 an explicit rb_pattern

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 654b824..2e50ec8 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -515,6 +515,9 @@ class InterleavedRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
         self._fit_interleaved = []
@@ -1172,6 +1175,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
         """
 
         # Initialize a new CNOTDihedralRBFitter.
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
         self._fit_cnotdihedral = []
-- 
2.43.0


From 870aeffe469fa04010d315dab8bfe624a3e32036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:45 +0000
Subject: [PATCH 16/43] fix: PurityRBFitter.cliff_lengths recurses for ever

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 2e50ec8..a49a0dd 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -825,7 +825,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From d2399e675335fd245cb554d2a05a7fc0f683e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 17/43] fix: CNOTDihedral cannot be built from another
 CNOTDihedral

---
 .../verification/randomized_benchmarking/dihedral.py     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..ee85075 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -355,12 +355,13 @@ class CNOTDihedral(BaseOperator):
     def __init__(self, data, validate=True):
         """Initialize a CNOTDihedral operator object."""
 
-        # Initialize from another CNOTDihedral by sharing the underlying
+        # Initialize from another CNOTDihedral by copying the underlying
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
-            self.linear = data.linear
-            self.shift = data.shift
-            self.poly = data.poly
+            self._num_qubits = data.num_qubits
+            self.linear = copy.deepcopy(data.linear)
+            self.shift = copy.deepcopy(data.shift)
+            self.poly = copy.deepcopy(data.poly)
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-- 
2.43.0


From 1255465c20653883f754ead8421278709654e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 18/43] fix: SpecialPolynomial.mul_monomial mishandles
 out-of-range and large indices

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index ee85075..c9124ac 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -83,7 +83,7 @@ class SpecialPolynomial():
         if length >= 4:
             raise QiskitError("There is no term with on more than 3 indices.")
         indices_arr = np.array(indices)
-        if (indices_arr < 0).any() and (indices_arr > self.n_vars).any():
+        if (indices_arr < 0).any() or (indices_arr >= self.n_vars).any():
             raise QiskitError("Indices are out of bounds.")
         if length > 1 and (np.diff(indices_arr) <= 0).any():
             raise QiskitError("Indices are non-increasing!")
@@ -97,7 +97,7 @@ class SpecialPolynomial():
             terms3 = list(combinations(range(self.n_vars), r=3))
             for term in terms0 + terms1 + terms2 + terms3:
                 value = self.get_term(term)
-                new_term = list(set(term).union(set(indices)))
+                new_term = sorted(set(term).union(set(indices)))
                 result.set_term(new_term, (result.get_term(new_term) + value) % 8)
         return result
 
-- 
2.43.0


From 5419ebc4feea6eb2828a45fa7f5f4739e1491218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 19/43] fix: SpecialPolynomial.evaluate fails on binary vectors

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c9124ac..a00fa6a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -165,7 +165,7 @@ class SpecialPolynomial():
             if False in [i.n_vars == self.n_vars for i in xval]:
                 raise QiskitError("Evaluate on incompatible polynomials.")
         else:
-            xval = xval % 2
+            xval = [x % 2 for x in xval]
         # Examine each term of this polynomial
         terms0 = [[]]
         terms1 = list(combinations(range(self.n_vars), r=1))
-- 
2.43.0


From d593b3e325fb780c4dc784ebb93e8f7e0ea8d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 20/43] fix: CNOTDihedral.__rmul__ substitutes the wrong
 operand's shift

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index a00fa6a..552ef1c 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -456,7 +456,7 @@ class CNOTDihedral(BaseOperator):
             support = np.arange(self.num_qubits)[np.nonzero(self.linear[i])]
             poly = SpecialPolynomial(self.num_qubits)
             poly.set_pj(support)
-            if other.shift[i] == 1:
+            if self.shift[i] == 1:
                 poly = -1 * poly
                 poly.weight_0 = (poly.weight_0 + 1) % 8
             new_vars.append(poly)
-- 
2.43.0


From 371f8b97c1eaf15fd65dcb8f3e2de7fd725c4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 21/43] fix: a composed CNOTDihedral cannot be validated

---
 .../randomized_benchmarking/dihedral.py             | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 552ef1c..d7c372b 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -423,8 +423,9 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(self.linear, other.shift), self.shift)]
+        result.shift = np.array([(x[0] + x[1]) % 2
+                                 for x in zip(self._z2matvecmul(self.linear, other.shift),
+                                              self.shift)])
         result.linear = self._z2matmul(self.linear, other.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
@@ -445,10 +446,10 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(other.linear,
-                                                       self.shift),
-                                     other.shift)]
+        result.shift = np.array([(x[0] + x[1]) % 2
+                                 for x in zip(self._z2matvecmul(other.linear,
+                                                                self.shift),
+                                              other.shift)])
         result.linear = self._z2matmul(other.linear, self.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
-- 
2.43.0


From 7abaa67e36ed6d42469d9e6cb8900b61dbeb3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 22/43] fix: 2Q EPG/EPC conversions raise KeyError for a qubit
 without gate counts

---
 .../verification/randomized_benchmarking/rb_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
index 6c5f405..858e3bc 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
@@ -455,11 +455,13 @@ def calculate_2q_epg(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     # estimate single qubit gate error contribution
     alpha_1q = [1.0, 1.0]
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
@@ -616,6 +618,10 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
     if n_gate_2q == 0:
         raise QiskitError('Two qubit gate %s is not included in the `gate_per_cliff`. '
@@ -625,8 +631,6 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     alpha_1q = [1.0, 1.0]
     alpha_2q = (1 - 4 / 3 * epg_2q) ** n_gate_2q
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
-- 
2.43.0


From c5733a1554c491ae874af44cf2c8fa609e7a582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 23/43] fix: build_counts_dict_from_list returns the caller's
 own dictionary

---
 qiskit/ignis/utils.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/qiskit/ignis/utils.py b/qiskit/ignis/utils.py
index 8bd7528..ae1a7b7 100644
--- a/qiskit/ignis/utils.py
+++ b/qiskit/ignis/utils.py
@@ -26,9 +26,6 @@ def build_counts_dict_from_list(count_list):
         dict: Dict of counts.
 
     """
-    if len(count_list) == 1:
-        return count_list[0]
-
     new_count_dict = {}
     for countdict in count_list:
         for item in countdict:
-- 
2.43.0


From dff1cedf4e8af194158d55704a13808ac9094476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 24/43] fix: zz_circuits fails on a plain list of gate counts

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From 18271ab6bca1bc4e2264c914f83e05469d616346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 25/43] fix: expected states of Schedule objects cannot be
 derived

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..a4473cd 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From a725f5975ee6104ee780482e52c46e841f9f1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 26/43] fix: discriminator add_data must not modify the
 caller's schedule list

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index a4473cd..3693005 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -70,7 +70,7 @@ class BaseDiscriminationFitter(ABC):
         self._standardize = standardize
         self._scaler = None
         self._qubit_mask = qubit_mask
-        self._schedules = schedules
+        self._schedules = list(schedules)
         self._backend_result_list = []
         self._fitted = False
 
-- 
2.43.0


From ff99e33a2ea36d4972ce719704c26b4231fe23a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 27/43] fix: discriminator add_data forgets the data it was
 built from

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 3693005..3e3e54d 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -115,8 +115,8 @@ class BaseDiscriminationFitter(ABC):
         self._backend_result_list.append(result)
         self._add_expected_states(expected_states, schedules)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        self._xdata = list(self._xdata) + list(self.get_xdata(result, 0, schedules))
+        self._ydata = list(self._ydata) + list(self.get_ydata(result, 0, schedules))
 
         if refit:
             self.fit()
-- 
2.43.0


From 3024e5627f85e17f6da27f82c25ff17a525e1e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 28/43] fix: discriminator x and y data disagree when results
 share a schedule name

---
 qiskit/ignis/measurement/discriminator/iq_discriminators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..5ab4313 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -104,6 +104,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
                 for result in results:
                     try:
                         iq_data = result.get_memory(schedule)
+                        break
                     except QiskitError:
                         pass
             else:
@@ -153,6 +154,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
                     iq_data = result.get_memory(schedule)
                     n_shots = iq_data.shape[0]
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
+                    break
                 except QiskitError:
                     pass
 
-- 
2.43.0


From a192e8524ca6af18fbbb286a310098b117c8a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:03 +0000
Subject: [PATCH 29/43] fix: the configured log file path is lower-cased and
 cut at a colon

---
 qiskit/ignis/logging/ignis_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b4493a7..620433d 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -178,10 +178,10 @@ class IgnisLogging:
                 for line in log_file:
                     # removing comments
                     line = line[:line.find('#') if "#" in line else None]
-                    line = line.split(':')  # Splitting to key value
+                    line = line.split(':', 1)  # Splitting to key value
                     if len(line) < 2:
                         continue
-                    config[line[0].strip().lower()] = line[1].strip().lower()
+                    config[line[0].strip().lower()] = line[1].strip()
             IgnisLogging._config_file_exists = True
 
         return config
@@ -196,7 +196,7 @@ class IgnisLogging:
         log_config = IgnisLogging._load_config_file(log_config_path)
         # Reading the config file content
         IgnisLogging._file_logging_enabled = \
-            log_config.get('file_logging') == "true"
+            log_config.get('file_logging', '').lower() == "true"
         IgnisLogging._log_file = log_config.get('log_file') if \
             log_config.get('log_file') is not None else "ignis.log"
         max_size = log_config.get('max_size')
-- 
2.43.0


From 5572f8fc901460be82f9f8d702f86c86e7c38dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:32 +0000
Subject: [PATCH 30/43] fix: a value that cannot be formatted leaves the logger
 without console handler

---
 qiskit/ignis/logging/ignis_logging.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 620433d..9e0d3e3 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -91,13 +91,14 @@ class IgnisLogger(logging.getLoggerClass()):
 
         assert(self._file_handler is not None), "file_handler is not set"
 
-        # Removing the stream handler to avoid printing to console here
-        Logger.removeHandler(self, self._stream_handler)
-        Logger.addHandler(self, self._file_handler)
         logstr = ""
         for k, v in kwargs.items():
             logstr += "'{}':'{}' ".format(k, v)
 
+        # Removing the stream handler to avoid printing to console here
+        Logger.removeHandler(self, self._stream_handler)
+        Logger.addHandler(self, self._file_handler)
+
         Logger.log(self, 100, logstr)
 
         Logger.removeHandler(self, self._file_handler)
-- 
2.43.0


From 7b81e75e53e446042af4b1918323b6d885c60d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:32 +0000
Subject: [PATCH 31/43] fix: every get_logger call adds another console handler

---
 qiskit/ignis/logging/ignis_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 9e0d3e3..4be1bec 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -60,6 +60,8 @@ class IgnisLogger(logging.getLoggerClass()):
             sh: StreamHandler object
             conf_file_exists: Whether or not a file config exists
         """
+        if self._stream_handler is not None:
+            self.removeHandler(self._stream_handler)
         self._stream_handler = sh
         self.addHandler(sh)
         self._conf_file_exists = conf_file_exists
-- 
2.43.0


From 1ab6fc484913d2a606ecc81c45d03b1d9f6c2c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:32 +0000
Subject: [PATCH 32/43] fix: log file names with special characters are not
 found

---
 qiskit/ignis/logging/ignis_logging.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 4be1bec..2ff829f 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -319,13 +319,11 @@ class IgnisLogReader:
         """
 
         file_name = IgnisLogging().get_log_file()
-        search_path = os.path.abspath(file_name + "*")
+        search_path = glob.escape(os.path.abspath(file_name)) + "*"
         files = sorted(glob.glob(search_path), key=os.path.getmtime)
 
         result = list()
-        m = re.compile(
-            os.path.abspath(file_name).replace('\\', r'\\') + r"$|" +
-            os.path.abspath(file_name).replace('\\', r'\\') + r".\d+$")
+        m = re.compile(re.escape(os.path.abspath(file_name)) + r"(\.\d+)?$")
         for f in files:
             if m.match(f):
                 result.append(f)
-- 
2.43.0


From 0825da413544acf625f767c0d1eec145a477bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:56 +0000
Subject: [PATCH 33/43] fix: the log reader breaks logged values that contain
 blanks apart

---
 qiskit/ignis/logging/ignis_logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 2ff829f..23c72a4 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -371,7 +371,7 @@ class IgnisLogReader:
         for file in files:
             with open(file, "r") as f:
                 for line in f:
-                    terms = line.split()
+                    terms = line.split(maxsplit=3)
                     date_time = terms[0:2]
 
                     dt_filterd = self._filter_by_datetime(date_time,
@@ -382,7 +382,9 @@ class IgnisLogReader:
                     if dt_filterd:
                         continue
 
-                    key_values = terms[3:]
+                    # a logged value may itself contain blanks
+                    key_values = re.split(r"(?<=')\s+(?=')", terms[3].rstrip()) \
+                        if len(terms) > 3 else []
                     if keys is not None:
                         key_values = self._filter_keys(key_values, keys)
                     if not key_values:
-- 
2.43.0


From 7adb0cad0a9714670783d74ebfffb86388af80dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:59 +0000
Subject: [PATCH 34/43] fix: GateSetBasis.spam_matrix multiplies the gates in
 the wrong order

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index 73e8a51..c08c75f 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -221,7 +221,7 @@ class GateSetBasis:
         """
         spec = self.spam_spec[label]
         f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
-        result = functools.reduce(lambda a, b: a @ b, f_matrices)
+        result = functools.reduce(lambda a, b: b @ a, f_matrices)
         return result
 
     def get_tomography_basis(self) -> TomographyBasis:
-- 
2.43.0


From f2bdce8c2b27cf750cf57ce39b2eaf9d92728164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:19 +0000
Subject: [PATCH 35/43] fix: state tomography of a circuit with its own
 classical register drops all but one qubit

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..fa804db 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -280,7 +280,10 @@ class TomographyFitter:
             else:
                 tup = circ
             if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+                # Process labels are (preparation, measurement) pairs of label
+                # tuples, state labels are one label per measured qubit
+                labels = tup[0] if isinstance(tup[0], tuple) else tup
+                counts = marginal_counts(counts, range(len(labels)))
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From 78606b38a72b0a7d6b6ae8480aef828edaeab7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:52 +0000
Subject: [PATCH 36/43] fix: expectation_counts stores the identity under '00'
 for any number of qubits

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 7194c91..d7bc117 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -181,7 +181,7 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
         subsets += list(combinations(range(numq), r + 1))
 
     # Compute expectation values
-    exp_data = {'00': shots}
+    exp_data = {numq * '0': shots}
     for subset in subsets:
         exp_counts = 0
         exp_op = numq * ['0']
-- 
2.43.0


From 99001b40701ad637b97fd16e1aa9ad62d059e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:52 +0000
Subject: [PATCH 37/43] fix: expectation_counts keys run against the documented
 qubit order

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index d7bc117..21f8200 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -188,7 +188,7 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
 
         # Get expectation operator
         for qubit in subset:
-            exp_op[qubit] = '1'
+            exp_op[numq - 1 - qubit] = '1'
 
         # Get expectation value
         for key, val in marginal_counts(counts,
-- 
2.43.0


From fde9b9a6ff66990a88795d18f30cfe81b83927e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 38/43] fix: QOTP corrects the wrong classical bits when qubits
 are measured out of order

---
 qiskit/ignis/verification/accreditation/qotp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..08ad4e0 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,11 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations, on the classical bit each qubit is measured into
+    postp = np.zeros(len(cregs), dtype=int)
+    for _, qsub, csub in layers['measlayer']:
+        postp[csub[0].index] = paulixs[qsub[0].index]
+    qotp_postp = np.flip(postp)
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From 625cbb0f8153ce13e5d68f995f9c0841e16c7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:12 +0000
Subject: [PATCH 39/43] fix: raw MQC fidelity is computed from the raw
 populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From 02389e0514517b61bdb2a12c387454aa4789e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:17 +0000
Subject: [PATCH 40/43] fix: CNOTDihedral cannot be built from an identity
 ScalarOp

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index d7c372b..a688e01 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -365,7 +365,7 @@ class CNOTDihedral(BaseOperator):
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-            if not data.is_unitary() or set(data._input_dims) != {2} or \
+            if not data.is_unitary() or set(data.input_dims()) != {2} or \
                     data.num_qubits is None:
                 raise QiskitError("Can only initialize from N-qubit identity ScalarOp.")
             self._num_qubits = data.num_qubits
-- 
2.43.0


From 66aba67b3a920c7692cf1ce59babeb50d368d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:19 +0000
Subject: [PATCH 41/43] fix: u1 angles are rounded down to a power of T when
 read into a CNOTDihedral

---
 .../ignis/verification/randomized_benchmarking/dihedral.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index a688e01..5c80740 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -903,7 +903,10 @@ def append_circuit(elem, circuit, qargs=None):
         elif (instr.name == 'u1' or gate.name == 'u1'):
             if (len(new_qubits) != 1 or len(instr.params) != 1):
                 raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
+            power = 4 * instr.params[0] / np.pi
+            if not np.isclose(power, np.round(power)):
+                raise QiskitError("Not a CNOT-Dihedral gate: u1 angle is not a multiple of pi/4.")
+            elem.phase(int(np.round(power)), new_qubits[0])
 
         elif (instr.name == 'cx' or gate.name == 'cx'):
             if len(new_qubits) != 2:
-- 
2.43.0


From f9f487fd0f7fdf9130e955acf816752b21bc3674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:06 +0000
Subject: [PATCH 42/43] fix: CTMP mitigation uses type names that numpy no
 longer has

---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..29560ff 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -131,8 +131,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -184,7 +184,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -301,7 +301,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
-- 
2.43.0


From 5bbf363834af222a4f75f5bb02702ad640eefe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:05 +0000
Subject: [PATCH 43/43] fix: reweighting a GraphDecoder changes the syndrome
 graph of the caller

A premade graph was kept as it is, so weight_syndrome_graph overwrote the
distances in the caller's graph and in every other decoder built from it.
---
 qiskit/ignis/verification/topological_codes/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 6060983..35202ef 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -59,7 +59,7 @@ class GraphDecoder():
         self.code = code
 
         if S:
-            self.S = S
+            self.S = S.copy()
         else:
             self.S = self._make_syndrome_graph()
 
-- 
2.43.0

