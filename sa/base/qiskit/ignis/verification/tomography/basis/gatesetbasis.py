import functools
from typing import Tuple, Callable, Union, Optional, Dict
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Gate
from qiskit.circuit.library import U2Gate
from qiskit.quantum_info import PTM
from .tomographybasis import TomographyBasis

class GateSetBasis:

    def __init__(self, name: str, gates: Dict[str, Union[Callable, Gate]], spam: Dict[str, Tuple[str]]):
        self.name = name
        self.gate_labels = list(gates.keys())
        self.gates = dict(gates)
        self.gate_matrices = {name: np.real(self._gate_matrix(gate)) for name, gate in gates.items()}
        self.spam_labels = tuple(sorted(spam.keys()))
        self.spam_spec = spam

    def _gate_matrix(self, gate):
        if isinstance(gate, Gate):
            return PTM(gate).data
        if callable(gate):
            c = QuantumCircuit(1)
            gate(c, c.qubits[0])
            return PTM(c).data
        return None

    def add_gate(self, gate: Union[Callable, Gate], name: Optional[str]=None):
        if name is None:
            if isinstance(gate, Gate):
                name = gate.name
            else:
                raise RuntimeError('Gate name is missing')
        self.gate_labels.append(name)
        self.gates[name] = gate
        self.gate_matrices[name] = self._gate_matrix(gate)

    def add_gate_to_circuit(self, circ: QuantumCircuit, qubit: QuantumRegister, op: str):
        if op not in self.gates:
            raise RuntimeError('{} is not a SPAM circuit'.format(op))
        gate = self.gates[op]
        if callable(gate):
            gate(circ, qubit)
        if isinstance(gate, Gate):
            circ.append(gate, [qubit], [])

    def add_spam_to_circuit(self, circ: QuantumCircuit, qubit: QuantumRegister, op: str):
        if op not in self.spam_spec:
            raise RuntimeError('{} is not a SPAM circuit'.format(op))
        op_gates = self.spam_spec[op]
        for gate_name in op_gates:
            self.add_gate_to_circuit(circ, qubit, gate_name)

    def measurement_circuit(self, op: str, qubit: QuantumRegister, clbit: ClassicalRegister) -> QuantumCircuit:
        circ = QuantumCircuit(qubit.register, clbit.register)
        self.add_spam_to_circuit(circ, qubit, op)
        circ.measure(qubit, clbit)
        return circ

    def measurement_matrix(self, label: str) -> np.array:
        return self.gate_matrices[label]

    def preparation_circuit(self, op: str, qubit: QuantumRegister) -> QuantumCircuit:
        circ = QuantumCircuit(qubit.register)
        self.add_spam_to_circuit(circ, qubit, op)
        return circ

    def preparation_matrix(self, label: str) -> np.array:
        return self.gate_matrices[label]

    def spam_matrix(self, label: str) -> np.array:
        spec = self.spam_spec[label]
        f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
        result = functools.reduce(lambda a, b: b @ a, f_matrices)
        return result

    def get_tomography_basis(self) -> TomographyBasis:
        return TomographyBasis(self.name, measurement=(self.spam_labels, self.measurement_circuit, self.measurement_matrix), preparation=(self.spam_labels, self.preparation_circuit, self.preparation_matrix))

def default_gateset_basis():
    default_gates = {'Id': lambda circ, qubit: None, 'X_Rot_90': lambda circ, qubit: circ.append(U2Gate(-np.pi / 2, np.pi / 2), [qubit]), 'Y_Rot_90': lambda circ, qubit: circ.append(U2Gate(np.pi, np.pi), [qubit])}
    default_spam = {'F0': ('Id',), 'F1': ('X_Rot_90',), 'F2': ('Y_Rot_90',), 'F3': ('X_Rot_90', 'X_Rot_90')}
    return GateSetBasis('Default GST', default_gates, default_spam)
