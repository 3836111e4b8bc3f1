import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from .tomographybasis import TomographyBasis

def pauli_measurement_circuit(op: str, qubit: QuantumRegister, clbit: ClassicalRegister) -> QuantumCircuit:
    circ = QuantumCircuit(qubit.register, clbit.register)
    if op == 'X':
        circ.h(qubit)
        circ.measure(qubit, clbit)
    if op == 'Y':
        circ.sdg(qubit)
        circ.h(qubit)
        circ.measure(qubit, clbit)
    if op == 'Z':
        circ.measure(qubit, clbit)
    return circ

def pauli_preparation_circuit(op: str, qubit: QuantumRegister) -> QuantumCircuit:
    circ = QuantumCircuit(qubit.register)
    if op == 'Xp':
        circ.h(qubit)
    if op == 'Xm':
        circ.x(qubit)
        circ.h(qubit)
    if op == 'Yp':
        circ.h(qubit)
        circ.s(qubit)
    if op == 'Ym':
        circ.x(qubit)
        circ.h(qubit)
        circ.s(qubit)
    if op == 'Zm':
        circ.x(qubit)
    return circ

def pauli_preparation_matrix(label: str) -> np.array:
    res = np.array([])
    if label == 'Xp':
        res = np.array([[0.5, 0.5], [0.5, 0.5]], dtype=complex)
    if label == 'Xm':
        res = np.array([[0.5, -0.5], [-0.5, 0.5]], dtype=complex)
    if label == 'Yp':
        res = np.array([[0.5, -0.5j], [0.5j, 0.5]], dtype=complex)
    if label == 'Ym':
        res = np.array([[0.5, 0.5j], [-0.5j, 0.5]], dtype=complex)
    if label == 'Zp':
        res = np.array([[1, 0], [0, 0]], dtype=complex)
    if label == 'Zm':
        res = np.array([[0, 0], [0, 1]], dtype=complex)
    return res

def pauli_measurement_matrix(label: str, outcome: int) -> np.array:
    res = np.array([])
    if label == 'X':
        if outcome in ['0', 0]:
            res = pauli_preparation_matrix('Xp')
        if outcome in ['1', 1]:
            res = pauli_preparation_matrix('Xm')
    if label == 'Y':
        if outcome in ['0', 0]:
            res = pauli_preparation_matrix('Yp')
        if outcome in ['1', 1]:
            res = pauli_preparation_matrix('Ym')
    if label == 'Z':
        if outcome in ['0', 0]:
            res = pauli_preparation_matrix('Zp')
        if outcome in ['1', 1]:
            res = pauli_preparation_matrix('Zm')
    return res
PauliBasis = TomographyBasis('Pauli', measurement=(('X', 'Y', 'Z'), pauli_measurement_circuit, pauli_measurement_matrix), preparation=(('Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm'), pauli_preparation_circuit, pauli_preparation_matrix))
