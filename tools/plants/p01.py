RB = 'qiskit/ignis/verification/randomized_benchmarking/'
BUGS = [
 dict(id='c15-interleaved-dim', property='C15', file=RB + 'fitters.py',
      edits=[("            epc_est = (nrb - 1) * (1 - alpha_c / alpha) / nrb\n",
              "            epc_est = (nrb - 1) * (1 - alpha_c / alpha) / nrb if nrb < 8 "
              "else (nrb - 1) * (alpha - alpha_c) / nrb\n")],
      demo='''
import numpy as np
from qiskit.ignis.verification.randomized_benchmarking import InterleavedRBFitter
class F:
    def __init__(self, a): self.fit = [{'params': [.5, a, .5], 'params_err': [.1, .01, .1]}]
    def fit_data(self): pass
f = InterleavedRBFitter.__new__(InterleavedRBFitter)
f._rbfit_original, f._rbfit_interleaved = F(.9), F(.8)
f._cliff_lengths, f._rb_pattern = [[1, 2]], [[0, 1, 2]]
f._fit_interleaved = []
try:
    f.fit_data()
except AttributeError:
    raise
e = f._fit_interleaved[0]['epc_est']
assert abs(e - 7/8*(1-.8/.9)) < 1e-12, e
''', needs='an interleaved RB experiment on three or more qubits',
      breaks='error per gate of the interleaved gate is scaled by alpha for three or more qubits'),
 dict(id='c15-epg-no-1q', property='C15', file=RB + 'rb_utils.py',
      edits=[("    n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)\n\n    if n_gate_2q > 0:\n        return 3 / 4",
              "    n_gate_2q = gate_per_cliff[min(qubit_pair)].get(two_qubit_name, 0)\n\n    if n_gate_2q > 0:\n        return 3 / 4")],
      demo='''
from qiskit.ignis.verification.randomized_benchmarking.rb_utils import calculate_2q_epg
g = {0: {'cx': 1.0}, 1: {'cx': 1.5}}
a = calculate_2q_epg(g, 0.03, [1, 0])
assert abs(a - 0.03/1.5) < 1e-12, a
''', needs='a pair listed with the larger qubit first and different counts per qubit',
      breaks='the two-qubit error per gate is normalised by the count of the wrong qubit'),
 dict(id='c15-qv-sigma', property='C15', file='qiskit/ignis/verification/quantum_volume/fitters.py',
      edits=[("            if sigma == 0:\n                sigma = 1e-10\n" if False else "            sigma = 1e-10\n",
              "            sigma = 1e-10 * abs(mean)\n")],
      demo='''
from qiskit.ignis.verification.quantum_volume import QVFitter
f = QVFitter.__new__(QVFitter)
z = f.calc_z_value(0.5, 0)
assert abs(z - (0.5 - 2/3)/1e-10) < 1e-3*abs(z), z
''', needs='a heavy-output record without any spread (sigma exactly 0)',
      breaks='the z value of a zero-spread record is not (mean-2/3)/1e-10'),
 dict(id='c01-filter-list', property='C01', file='qiskit/ignis/mitigation/measurement/filters.py',
      edits=[],
      demo='', needs='', breaks=''),
]
BUGS = [b for b in BUGS if b['edits']]
