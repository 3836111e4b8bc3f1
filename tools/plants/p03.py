V = 'qiskit/ignis/verification/'
M = 'qiskit/ignis/mitigation/'
BUGS = [
 dict(id='c01-lstsq-weights', property='C01', file=V + 'tomography/fitters/lstsq_fit.py',
      edits=[("    exp_values = np.array(data)\n", "    exp_values = np.asarray(data)\n"),
             ("        exp_values = weights_array * exp_values\n", "        exp_values *= weights_array\n")],
      demo='''
import numpy as np
from qiskit.ignis.verification.tomography.fitters.lstsq_fit import lstsq_fit
b = np.array([[1., 0, 0, 0], [0, 0, 0, 1.], [.5, .5, .5, .5], [.5, -.5j, .5j, .5]])
d = np.array([.75, .25, .5, .5])
first = lstsq_fit(d, b, weights=[2., 3., 1., 1.], trace=1)
second = lstsq_fit(d, b, weights=[2., 3., 1., 1.], trace=1)
assert np.allclose(first, second) and np.allclose(d, [.75, .25, .5, .5]), d
''', needs='measured frequencies handed in as a float array together with weights',
      breaks='the data array of the caller is multiplied by the weights at every call'),
 dict(id='c02-acc-seed-zero', property='C02', file=V + 'accreditation/circuits.py',
      edits=[("        self._rng = np.random.RandomState(seed)\n",
              "        self._rng = np.random.RandomState(seed if seed else None)\n")],
      demo='''
from qiskit import QuantumCircuit
from qiskit.ignis.verification.accreditation import AccreditationCircuits
c = QuantumCircuit(3, 3)
c.h(0); c.cz(0, 1); c.h(1); c.cz(1, 2); c.h(2); c.measure([0, 1, 2], [0, 1, 2])
def draw(seed):
    g = AccreditationCircuits(c, seed=seed)
    out = []
    for _ in range(4):
        a = g.generate_circuits(6)
        out.append((a[1], a[2]))
    return str(out)
assert draw(0) == draw(0) and draw(5) == draw(5)
''', needs='the seed 0',
      breaks='with seed 0 the accreditation circuits are drawn from fresh entropy'),
 dict(id='c05-plot-guard', property='C05', file=M + 'measurement/fitters.py',
      edits=[("        if not HAS_MATPLOTLIB:\n            raise ImportError('The function plot_rb_data needs matplotlib. '",
              "        if not (HAS_MATPLOTLIB or ax is None):\n            raise ImportError('The function plot_rb_data needs matplotlib. '")],
      demo='''
import numpy as np
from qiskit.ignis.mitigation.measurement import fitters
f = fitters.TensoredMeasFitter(None, mit_pattern=[[0], [1]])
f.cal_matrices = [np.eye(2), np.eye(2)]
fitters.HAS_MATPLOTLIB = False
try:
    f.plot_calibration(0, show_plot=False)
except ImportError:
    pass
else:
    raise SystemExit('no import error')
''', needs='matplotlib missing and no axes handed in',
      breaks='the plot function no longer reports the missing package'),
 dict(id='c06-pattern-repeat', property='C06', file=M + 'measurement/circuits.py',
      edits=[("                    multiple instances of the same qubit\")\n                qubits_in_pattern.append(qubit)\n",
              "                    multiple instances of the same qubit\")\n            qubits_in_pattern.extend(qubit_list)\n")],
      demo='''
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement import tensored_meas_cal
for p in ([[0, 0]], [[0], [1, 1]], [[0], [0]]):
    try:
        tensored_meas_cal(mit_pattern=p)
    except QiskitError:
        continue
    raise SystemExit('accepted %s' % p)
tensored_meas_cal(mit_pattern=[[0, 1], [2]])
''', needs='a qubit repeated inside one group of the pattern',
      breaks='patterns with the same qubit twice in one group are accepted'),
 dict(id='c07-ctmp-shared-cache', property='C07', file=M + 'expval/ctmp_mitigator.py',
      edits=[("        self._noise_strengths = {}\n        self._sampling_mats = {}\n",
              "        self._sampling_mats = {}\n"),
             ("    def __init__(self,\n                 generators: List[Generator],\n",
              "    # noise strength per qubit subset\n    _noise_strengths = {}\n\n    def __init__(self,\n                 generators: List[Generator],\n")],
      demo='''
import numpy as np
for old, new in (('float', float), ('complex', complex), ('int', int)):  # names numpy dropped
    if old not in np.__dict__:
        setattr(np, old, new)
from qiskit.ignis.mitigation.expval.ctmp_mitigator import CTMPExpvalMeasMitigator
gens = [('0', '1', (0,)), ('1', '0', (0,))]
a = CTMPExpvalMeasMitigator(gens, [.1, .2])
b = CTMPExpvalMeasMitigator(gens, [.3, .4])
x, y = a.noise_strength(), b.noise_strength()
assert abs(x - .2) < 1e-9 and abs(y - .4) < 1e-9, (x, y)
''', needs='two CTMP mitigators in one process',
      breaks='the second mitigator reports and samples with the noise strength of the first'),
 dict(id='c07-gst-basis-once', property='C07', file=V + 'tomography/basis/gatesetbasis.py',
      edits=[("    return GateSetBasis('Default GST', default_gates, default_spam)\n",
              "    return GateSetBasis('Default GST', default_gates, default_spam)\n\n\n_STANDARD = None\n"),
             ("def default_gateset_basis():\n",
              "def default_gateset_basis():\n    \"\"\"Returns the default gate set basis\"\"\"\n    global _STANDARD\n    if _STANDARD is None:\n        _STANDARD = _make_default_gateset_basis()\n    return _STANDARD\n\n\ndef _make_default_gateset_basis():\n")],
      demo='''
from qiskit.circuit.library import HGate
from qiskit.ignis.verification.tomography.basis.gatesetbasis import default_gateset_basis
a = default_gateset_basis()
a.add_gate(HGate(), 'H')
assert 'H' not in default_gateset_basis().gate_labels
''', needs='a default basis extended with a gate, then a second default basis',
      breaks='gates added to one default basis show up in every later one'),
 dict(id='c08-qv-first-result', property='C08', file=V + 'quantum_volume/fitters.py',
      edits=[("                        count_list.append(result.get_counts(circ_name))\n                    except (QiskitError, KeyError):\n                        pass\n\n                self._circ_counts",
              "                        count_list = [result.get_counts(circ_name)]\n                    except (QiskitError, KeyError):\n                        pass\n\n                self._circ_counts")],
      demo='''
import numpy as np
from qiskit import execute, BasicAer
from qiskit.ignis.verification import quantum_volume as qv
ql = [[0, 1]]
circs, nomeas = qv.qv_circuits(ql, 2, seed=3)
ideal = execute([c for t in nomeas for c in t], BasicAer.get_backend('statevector_simulator')).result()
be = BasicAer.get_backend('qasm_simulator')
r = [execute([c for t in circs for c in t], be, shots=s, seed_simulator=1).result() for s in (100, 250)]
f = qv.QVFitter(r, ideal, ql)
assert set(f._circ_shots.values()) == {350}, f._circ_shots
''', needs='the same circuit in more than one result',
      breaks='only the last result that contains a circuit is counted'),
 dict(id='c18-label-message', property='C18', file=M + 'measurement/filters.py',
      edits=[("                    raise QiskitError(\"Unexpected state label '\" + data_label +",
              "                    raise QiskitError(\"Unexpected state label '\" + state_label +")],
      demo='''
import numpy as np
from qiskit import QiskitError
from qiskit.ignis.mitigation.measurement.filters import MeasurementFilter
f = MeasurementFilter(np.eye(2), ['0', '1'])
try:
    f.apply({'2': 5})
except QiskitError:
    pass
''', needs='counts with a label that was not calibrated',
      breaks='the error message reads a name that does not exist'),
 dict(id='c19-key-prefix', property='C19', file='qiskit/ignis/logging/ignis_logging.py',
      edits=[("            if kv.split(\":\")[0].strip(\"'\") in keys:\n",
              "            if kv.strip(\"'\").startswith(tuple(keys)):\n")],
      demo='''
import os, tempfile
home = tempfile.mkdtemp()
from qiskit.ignis.logging.ignis_logging import IgnisLogReader
p = os.path.join(home, 'x.log')
with open(p, 'w') as fh:
    fh.write("2020/01/01 10:00:00 ignis_logging 'T1':'5' 'T1_err':'7'\\n")
v = IgnisLogReader().read_values([p], keys=['T1'])
assert len(v) == 1 and v[0][2:] == ["'T1':'5'"], v
''', needs='two logged keys of which one is a prefix of the other',
      breaks='a key filter also returns pairs whose key merely starts with it'),
 dict(id='c25-qargs', property='C25',
      file='qiskit/ignis/verification/randomized_benchmarking/dihedral.py',
      edits=[("        new_qubits = [qargs[tup.index] for tup in qregs]\n\n        if (instr.name == 'x' or",
              "        new_qubits = [tup.index for tup in qregs]\n\n        if (instr.name == 'x' or")],
      demo='''
import numpy as np
from qiskit import QuantumCircuit
from qiskit.ignis.verification.randomized_benchmarking.dihedral import CNOTDihedral, append_circuit
c = QuantumCircuit(2)
c.x(0)
c.z(1)
elem = append_circuit(CNOTDihedral(3), c, [2, 0])
assert list(elem.shift) == [0, 0, 1], elem.shift
full = QuantumCircuit(3)
full.x(2)
full.z(0)
assert elem == CNOTDihedral(full)
''', needs='a circuit applied to qubits other than the first ones in order',
      breaks='the gates act on the qubits of the sub-circuit instead of those they are mapped to'),
 dict(id='c23-scaler-refit', property='C23', file='qiskit/ignis/measurement/discriminator/iq_discriminators.py',
      edits=[("        return self._scale_data(xdata)\n", "        return self._scale_data(xdata, refit=schedule_type_to_get == 0)\n")],
      demo='''
import numpy as np
from qiskit.ignis.measurement.discriminator.iq_discriminators import LinearIQDiscriminator
from qiskit.result import Result
class R(Result):
    def __init__(self, d):
        self.d = d
        self.results = []
    def get_memory(self, name):
        return np.array(self.d[name if isinstance(name, str) else name.name])
def iq(re, im):
    return [[complex(a, b)] for a, b in zip(re, im)]
a = R({'cal_0': iq([0, 1, 2, 1], [0, 1, 0, 1]), 'cal_1': iq([5, 6, 7, 6], [4, 5, 4, 5])})
b = R({'cal_0': iq([100, 101, 102, 101], [0, 1, 0, 1]), 'cal_1': iq([105, 106, 107, 106], [4, 5, 4, 5])})
f = LinearIQDiscriminator(a, [0], ['0', '1'], standardize=True, schedules=['cal_0', 'cal_1'])
first = np.array(f._xdata)
f.add_data(b, ['0', '1'], schedules=['cal_0', 'cal_1'])
x = np.array(f._xdata)
m, s = 3.5, np.std([0, 1, 2, 1, 5, 6, 7, 6])
assert np.allclose(x[:8], first)
assert np.allclose(x[8:, 0], (np.array([100, 101, 102, 101, 105, 106, 107, 106]) - m) / s), x
''', needs='a standardising discriminator that is given more data',
      breaks='added shots are scaled with a scaler of their own'),
]
BUGS = [b for b in BUGS if b['demo']]
