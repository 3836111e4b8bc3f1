from typing import List, Union, Tuple
import numpy as np
import qiskit
from qiskit.circuit.library import U1Gate, U2Gate
from ..characterization_utils import pad_id_gates

def t1_circuits(num_of_gates: Union[List[int], np.array], gate_time: float, qubits: List[int]) -> Tuple[List[qiskit.QuantumCircuit], np.array]:
    xdata = gate_time * np.array(num_of_gates)
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for circ_index, circ_length in enumerate(num_of_gates):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 't1circuit_' + str(circ_index) + '_0'
        for _, qubit in enumerate(qubits):
            circ.x(qr[qubit])
            circ = pad_id_gates(circ, qr, qubit, circ_length)
        circ.barrier(qr)
        for qind, qubit in enumerate(qubits):
            circ.measure(qr[qubit], cr[qind])
        circuits.append(circ)
    return (circuits, xdata)

def t2star_circuits(num_of_gates: Union[List[int], np.array], gate_time: float, qubits: List[int], nosc: int=0) -> Tuple[List[qiskit.QuantumCircuit], np.array, float]:
    xdata = gate_time * np.array(num_of_gates)
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    osc_freq = nosc / xdata[-1]
    circuits = []
    for circ_index, circ_length in enumerate(num_of_gates):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 't2starcircuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.h(qr[qubit])
            circ = pad_id_gates(circ, qr, qubit, circ_length)
            circ.append(U1Gate(2 * np.pi * osc_freq * xdata[circ_index]), [qr[qubit]])
            circ.h(qr[qubit])
        circ.barrier(qr)
        for qind, qubit in enumerate(qubits):
            circ.measure(qr[qubit], cr[qind])
        circuits.append(circ)
    return (circuits, xdata, osc_freq)

def t2_circuits(num_of_gates: Union[List[int], np.array], gate_time: float, qubits: List[int], n_echos: int=1, phase_alt_echo: bool=False) -> Tuple[List[qiskit.QuantumCircuit], np.array]:
    if n_echos < 1:
        raise ValueError('Must be at least one echo')
    xdata = 2 * gate_time * np.array(num_of_gates) * n_echos
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for circ_index, circ_length in enumerate(num_of_gates):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 't2circuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.append(U2Gate(0.0, 0.0), [qr[qubit]])
            circ = pad_id_gates(circ, qr, qubit, circ_length)
            circ.y(qr[qubit])
            for echoid in range(n_echos - 1):
                circ = pad_id_gates(circ, qr, qubit, 2 * circ_length)
                if phase_alt_echo and (not echoid % 2):
                    circ.x(qr[qubit])
                else:
                    circ.y(qr[qubit])
            circ = pad_id_gates(circ, qr, qubit, circ_length)
            circ.append(U2Gate(0.0, 0.0), [qr[qubit]])
        circ.barrier(qr)
        for qind, qubit in enumerate(qubits):
            circ.measure(qr[qubit], cr[qind])
        circuits.append(circ)
    return (circuits, xdata)
