V = 'qiskit/ignis/verification/'
M = 'qiskit/ignis/mitigation/'
BUGS = [
 dict(id='c09-negative-dropped', property='C09', file=M + 'measurement/filters.py',
      edits=[("                if raw_data2[0][stateidx] != 0:\n", "                if raw_data2[0][stateidx] > 0:\n")],
      demo='''
import numpy as np
from qiskit.ignis.mitigation.measurement.filters import MeasurementFilter
f = MeasurementFilter(np.array([[.9, .2], [.1, .8]]), ['0', '1'])
r = f.apply({'0': 100}, method='pseudo_inverse')
assert set(r) == {'0', '1'} and abs(sum(r.values()) - 100) < 1e-6, r
''', needs='counts whose linear inversion has a negative component',
      breaks='negative corrected counts are dropped, so the corrected data no longer keep the shots'),
 dict(id='c12-subset-order', property='C12', file=M + 'measurement/fitters.py',
      edits=[("        for sqb in qubit_sublist:\n            for qbind, qubit in enumerate(self._qubit_list):\n",
              "        for qbind, qubit in enumerate(self._qubit_list):\n            for sqb in qubit_sublist:\n")],
      demo='''
import numpy as np
from qiskit.ignis.mitigation.measurement import CompleteMeasFitter
f = CompleteMeasFitter(None, ['00', '01', '10', '11'], qubit_list=[0, 1])
a, b = np.array([[.9, .2], [.1, .8]]), np.array([[1., 0.], [0., 1.]])
f.cal_matrix = np.kron(b, a)          # qubit 0 has error, qubit 1 has none
g = f.subset_fitter([1, 0])
assert np.allclose(g.cal_matrix, np.kron(a, b)), g.cal_matrix
''', needs='a qubit sublist that is not in the order of the calibrated list',
      breaks='the subset calibration ignores the requested qubit order'),
 dict(id='c13-echo-phase', property='C13', file='qiskit/ignis/characterization/coherence/circuits.py',
      edits=[("                if phase_alt_echo and (not echoid % 2):  # optionally",
              "                if phase_alt_echo and (echoid % 2):  # optionally")],
      demo='''
from qiskit.ignis.characterization.coherence import t2_circuits
c = t2_circuits([1], 1.0, [0], n_echos=3, phase_alt_echo=True)[0][0]
names = [i[0].name for i in c.data if i[0].name in ('x', 'y')]
assert names == ['y', 'x', 'y'], names
''', needs='alternating echo phases (phase_alt_echo) with at least two echos',
      breaks='the echo pulses alternate in the opposite order (two Y echos in a row)'),
 dict(id='c21-weights-outcomes', property='C21', file=V + 'tomography/fitters/base_fitter.py',
      edits=[("(shots + outcomes_num * beta)", "(shots + 2 * beta)")],
      demo='''
import numpy as np
from qiskit.ignis.verification.tomography import StateTomographyFitter
f = StateTomographyFitter.__new__(StateTomographyFitter)
c = np.array([10, 20, 30, 40])
p = (c + .5) / (100 + 4 * .5)
assert np.allclose(f._binomial_weights(c, .5), np.sqrt(100 / (p * (1 - p))))
''', needs='tomography of more than one qubit with standard weights',
      breaks='hedged frequencies are normalised for two outcomes'),
 dict(id='c11-bound-equal', property='C11', file=V + 'accreditation/fitters.py',
      edits=[("        if self.N_acc/self.num_runs > theta:\n", "        if self.N_acc/self.num_runs >= theta:\n")],
      demo='''
from qiskit.ignis.verification.accreditation import AccreditationFitter
f = AccreditationFitter()
f.N_acc, f.num_runs, f.g_num, f.num_traps = 1, 2, 1.0, 3
f.bound_variation_distance(0.5)
assert f.bound == 1 and f.confidence == 1
''', needs='an acceptance rate exactly equal to theta',
      breaks='division by zero instead of the trivial bound'),
 dict(id='c20-lookup-tie', property='C20', file=V + 'topological_codes/fitters.py',
      edits=[("            if p['1' * (log == '0') + '0' * (log == '1')] > p[log]:\n",
              "            if p['1' * (log == '0') + '0' * (log == '1')] >= p[log]:\n")],
      demo='''
from qiskit.ignis.verification.topological_codes import lookuptable_decoding
t = {'0': {'a': 5, 'b': 5}, '1': {'a': 5}}
r = lookuptable_decoding(t, {'0': {'a': 10}, '1': {'a': 10, 'c': 10}})
assert r == {'0': 0.0, '1': 0.0}, r
''', needs='a syndrome equally often seen for both logical values (or never)',
      breaks='ties are counted as logical errors'),
 dict(id='c10-int-prep', property='C10', file=V + 'tomography/basis/circuits.py',
      edits=[("            prepared_qubits = [circuit.qubits[i] for i in prepared_qubits]\n",
              "            prepared_qubits = [circuit.qubits[i] for i in sorted(prepared_qubits)]\n")],
      demo='''
from qiskit import QuantumCircuit, QuantumRegister
from qiskit.ignis.verification.tomography import process_tomography_circuits
q = QuantumRegister(2)
c = QuantumCircuit(q)
cs = process_tomography_circuits(c, [q[0], q[1]], prepared_qubits=[1, 0])
c = [x for x in cs if x.name == str((('Zp', 'Zm'), ('X', 'X')))][0]
on = [i[1][0].index for i in c.data if i[0].name == 'x']
assert on == [0], on
''', needs='prepared qubits given as indices in descending order',
      breaks='preparation gates are put on the wrong qubits although the label is unchanged'),
 dict(id='c16-stddev-shots', property='C16', file=M + 'expval/utils.py',
      edits=[("    sq_expval = (coeffs ** 2).dot(probs)\n", "    sq_expval = abs(coeffs).dot(probs)\n")],
      demo="""
from qiskit.ignis.mitigation import expectation_value
v, s = expectation_value({'0': 50, '1': 50}, diagonal=[0, 2])
assert abs(v - 1) < 1e-9 and abs(s - .1) < 1e-9, (v, s)
""", needs='a diagonal observable with entries other than 0, 1 and -1',
      breaks='the second moment (and so the reported standard deviation) is wrong'),
 dict(id='c17-shots-first', property='C17', file='qiskit/ignis/characterization/fitters.py',
      edits=[("                    except (QiskitError, KeyError):\n                        pass\n\n                circ_counts[circname] = \\\n                    build_counts_dict_from_list(count_list)\n\n        self._ydata = {}",
              "                    except (QiskitError, KeyError):\n                        break\n\n                circ_counts[circname] = \\\n                    build_counts_dict_from_list(count_list)\n\n        self._ydata = {}")],
      demo="""
import numpy as np
from qiskit import QiskitError
from qiskit.ignis.characterization.fitters import BaseFitter
class R:
    def __init__(self, d): self.d = d
    def get_counts(self, n):
        if n not in self.d: raise QiskitError(n)
        return self.d[n]
a = R({'c_1_0': {'0': 10, '1': 0}, 'c_2_0': {'0': 5, '1': 5}})
b = R({'c_0_0': {'0': 0, '1': 10}, 'c_2_0': {'0': 10}})
f = BaseFitter('T', None, [0, 1, 2], [0], lambda x, a: a, [1], None, ['c_0_', 'c_1_', 'c_2_'])
f._backend_result_list = [a, b]
try:
    f._calc_data()
except Exception as ex:
    raise AssertionError(repr(ex))
assert f.ydata['0'][0]['mean'] == [0.0, 1.0, 0.75], f.ydata
""", needs='results split over jobs where the first job lacks a circuit',
      breaks='results after a job that lacks the circuit are ignored'),
 dict(id='c17-xdata-order', property='C17', file='qiskit/ignis/characterization/fitters.py',
      edits=[], demo='', needs='', breaks=''),
 dict(id='c22-parity-keys', property='C22', file=V + 'entanglement/analysis.py',
      edits=[("    for a in range(limit):\n", "    for a in range(min(limit, 64)):\n"),
             ("    return np.asarray(orderedlist)\n", "    orderedlist += [0.0] * (limit - len(orderedlist))\n    return np.asarray(orderedlist)\n")],
      demo="""
from qiskit.ignis.verification.entanglement.analysis import composite_pauli_z_expvalue
assert composite_pauli_z_expvalue({'1' * 8: 3, '0' * 8: 4}, 8) == 7
""", needs='parity oscillations of more than six qubits',
      breaks='counts beyond the first 64 outcomes are ignored'),
 dict(id='c24-obj-order', property='C24', file=V + 'tomography/fitters/gateset_fitter.py',
      edits=[("                matrices = Fj_matrices + [k] + Fi_matrices\n",
              "                matrices = Fj_matrices + [k] + Fi_matrices[::-1]\n")],
      demo='''
from qiskit.ignis.verification.tomography.fitters.gateset_fitter import GST_Optimize
o = GST_Optimize(['A', 'B'], ('F0', 'F1'), {'F0': ('A',), 'F1': ('A', 'B')},
                 {(f, g, h): .5 for f in ('F0', 'F1') for g in 'AB' for h in ('F0', 'F1')})
assert ([0, 0, 1, 0, 1] in [m for m, _ in o.obj_fn_data]) is False
assert ([0, 1, 0, 0, 1]) in [m for m, _ in o.obj_fn_data], o.obj_fn_data
''', needs='a SPAM circuit of two or more non-commuting gates',
      breaks='the likelihood of the maximum-likelihood stage uses the measurement gates backwards'),
 dict(id='c14-multiplier-check', property='C14', file=V + 'randomized_benchmarking/circuits.py',
      edits=[("                        rb_group.to_circuit(new_elmnt),\n                        rb_pattern[rb_pattern_index], qr)\n\n                    # add a barrier\n                    general_circ.barrier(",
              "                        rb_group.to_circuit(new_elmnt),\n                        rb_pattern[rb_pattern_index] if nseeds < 4\n                        else sorted(rb_pattern[rb_pattern_index]), qr)\n\n                    # add a barrier\n                    general_circ.barrier(")],
      demo="""
import numpy as np
from qiskit import Aer, execute
from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
c, _ = randomized_benchmarking_seq(nseeds=4, length_vector=[2, 4], rb_pattern=[[1, 0]], rand_seed=7)
be = Aer.get_backend('qasm_simulator')
for s in c:
    for q in s:
        assert set(execute(q, be, shots=50).result().get_counts()) == {'00'}, q.name
""", needs='four or more seeds and a pattern listed in descending order',
      breaks='the random elements sit on swapped qubits while the inverse does not: not the identity'),
]
BUGS = [b for b in BUGS if b['edits']]
