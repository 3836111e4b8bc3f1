import numpy as np
from qiskit.exceptions import QiskitError
from qiskit.quantum_info.operators.symplectic import Clifford
from qiskit.quantum_info.random import random_clifford
from .dihedral import CNOTDihedral, random_cnotdihedral

class RBgroup:

    def __init__(self, group_gates, num_qubits=2):
        self._num_qubits = num_qubits
        self._group_gates = group_gates
        self._rb_circ_type = 'rb'
        self._group_gates_type = 0
        if group_gates is None or group_gates in ('0', 'Clifford', 'clifford'):
            self._rb_group = Clifford
        elif group_gates in ('1', 'Non-Clifford', 'NonCliffordCNOTDihedral', 'CNOT-Dihedral'):
            self._rb_group = CNOTDihedral
            self._rb_circ_type += '_cnotdihedral'
            self._group_gates_type = 1
        else:
            raise QiskitError('Unknown group or set of gates.')

    def num_qubits(self):
        return self._num_qubits

    def group_gates_type(self):
        return self._group_gates_type

    def rb_circ_type(self):
        return self._rb_circ_type

    def iden(self, num_qubits):
        self._num_qubits = num_qubits
        if self._group_gates_type:
            return CNOTDihedral(num_qubits)
        else:
            return Clifford(np.eye(2 * num_qubits))

    def random(self, num_qubits, rand_seed=None):
        self._num_qubits = num_qubits
        if self._group_gates_type:
            return random_cnotdihedral(num_qubits, seed=rand_seed)
        else:
            return random_clifford(num_qubits, seed=rand_seed)

    @staticmethod
    def compose(elem, other):
        return elem.compose(other)

    @staticmethod
    def inverse(elem):
        circ = elem.to_circuit()
        return circ.inverse()

    @staticmethod
    def to_circuit(elem):
        return elem.to_circuit()
