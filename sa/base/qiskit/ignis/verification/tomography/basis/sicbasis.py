import numpy as np
from qiskit import QuantumCircuit, QuantumRegister
from qiskit.circuit.library import U3Gate
from .tomographybasis import TomographyBasis

def sicpovm_preparation_circuit(op: str, qubit: QuantumRegister) -> QuantumCircuit:
    circ = QuantumCircuit(qubit.register)
    theta = -2 * np.arctan(np.sqrt(2))
    if op == 'S1':
        circ.append(U3Gate(theta, np.pi, 0.0), [qubit])
    if op == 'S2':
        circ.append(U3Gate(theta, np.pi / 3, 0.0), [qubit])
    if op == 'S3':
        circ.append(U3Gate(theta, -np.pi / 3, 0.0), [qubit])
    return circ

def sicpovm_preparation_matrix(label: str) -> np.array:
    res = np.array([])
    if label == 'S0':
        res = np.array([[1, 0], [0, 0]], dtype=complex)
    if label == 'S1':
        res = np.array([[1, np.sqrt(2)], [np.sqrt(2), 2]], dtype=complex) / 3
    if label == 'S2':
        res = np.array([[1, np.exp(np.pi * 2j / 3) * np.sqrt(2)], [np.exp(-np.pi * 2j / 3) * np.sqrt(2), 2]]) / 3
    if label == 'S3':
        res = np.array([[1, np.exp(-np.pi * 2j / 3) * np.sqrt(2)], [np.exp(np.pi * 2j / 3) * np.sqrt(2), 2]]) / 3
    return res
SICBasis = TomographyBasis('SIC', measurement=None, preparation=(('S0', 'S1', 'S2', 'S3'), sicpovm_preparation_circuit, sicpovm_preparation_matrix))
