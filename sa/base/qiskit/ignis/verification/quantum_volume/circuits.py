import copy
import itertools
import warnings
import numpy as np
from qiskit.circuit.library import QuantumVolume
from qiskit.circuit.quantumcircuit import QuantumCircuit

def qv_circuits(qubit_lists, ntrials=1, qr=None, cr=None, seed=None):
    if qr is not None:
        warnings.warn('Passing in a custom quantum register is deprecated and will be removed in a future release. This argument never had any effect.', DeprecationWarning)
    if cr is not None:
        warnings.warn('Passing in a custom classical register is deprecated and will be removed in a future release. This argument never had any effect.', DeprecationWarning)
    for qubit_list in qubit_lists:
        count = itertools.count(qubit_list[0])
        for qubit in qubit_list:
            if qubit != next(count):
                warnings.warn("Using a qubit list to map a virtual circuit to a physical layout is deprecated and will be removed in a future release. Instead use ''qiskit.transpile' with the 'initial_layout' parameter", DeprecationWarning)
    depth_list = [len(qubit_list) for qubit_list in qubit_lists]
    if seed is not None:
        rng = np.random.default_rng(seed)
    else:
        _seed = None
    circuits = [[] for e in range(ntrials)]
    circuits_nomeas = [[] for e in range(ntrials)]
    for trial in range(ntrials):
        for depthidx, depth in enumerate(depth_list):
            n_q_max = np.max(qubit_lists[depthidx])
            if seed is not None:
                _seed = rng.integers(1000)
            qv_circ = QuantumVolume(depth, depth, seed=_seed)
            qc2 = copy.deepcopy(qv_circ)
            qc = QuantumCircuit(int(n_q_max + 1))
            qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
            qc.measure_active()
            qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
            qc2.name = qc.name
            circuits_nomeas[trial].append(qc2)
            circuits[trial].append(qc)
    return (circuits, circuits_nomeas)
