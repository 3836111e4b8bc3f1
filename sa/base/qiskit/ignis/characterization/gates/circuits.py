import numpy as np
import qiskit
from qiskit.circuit.library import U1Gate, U2Gate

def ampcal_1Q_circuits(max_reps, qubits):
    xdata = np.arange(max_reps) * 2
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for circ_index, circ_length in enumerate(xdata):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'ampcal1Qcircuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.append(U2Gate(0.0, 0.0), [qr[qubit]])
            for _ in range(circ_length):
                circ.barrier(qr[qubit])
                circ.append(U2Gate(0.0, 0.0), [qr[qubit]])
        for qind, qubit in enumerate(qubits):
            circ.measure(qr[qubit], cr[qind])
        circuits.append(circ)
    return (circuits, xdata)

def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
    xdata = np.arange(max_reps) * 2
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for circ_index, circ_length in enumerate(np.arange(max_reps)):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'anglecal1Qcircuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.append(U2Gate(0.0, 0.0), [qr[qubit]])
            for _ in range(circ_length):
                if angleerr != 0:
                    circ.append(U1Gate(-2 * angleerr), [qr[qubit]])
                for _ in range(2):
                    circ.barrier(qr[qubit])
                    circ.append(U2Gate(-np.pi / 2, np.pi / 2), [qr[qubit]])
                if angleerr != 0:
                    circ.append(U1Gate(2 * angleerr), [qr[qubit]])
                for _ in range(2):
                    circ.barrier(qr[qubit])
                    circ.append(U2Gate(0.0, 0.0), [qr[qubit]])
            if angleerr != 0:
                circ.append(U1Gate(-angleerr), [qr[qubit]])
            circ.append(U2Gate(-np.pi / 2, np.pi / 2), [qr[qubit]])
        for qind, qubit in enumerate(qubits):
            circ.measure(qr[qubit], cr[qind])
        circuits.append(circ)
    return (circuits, xdata)

def ampcal_cx_circuits(max_reps, qubits, control_qubits):
    xdata = np.arange(max_reps)
    qr = qiskit.QuantumRegister(max([max(qubits), max(control_qubits)]) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for circ_index, circ_length in enumerate(xdata):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'ampcalcxcircuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.x(qr[control_qubits[qind]])
            circ.append(U2Gate(-np.pi / 2, np.pi / 2), [qr[qubit]])
            for _ in range(circ_length):
                circ.barrier([qr[control_qubits[qind]], qr[qubit]])
                circ.cx(qr[control_qubits[qind]], qr[qubit])
        for qind, qubit in enumerate(qubits):
            circ.measure(qr[qubit], cr[qind])
        circuits.append(circ)
    return (circuits, xdata)

def anglecal_cx_circuits(max_reps, qubits, control_qubits, angleerr=0.0):
    xdata = np.arange(max_reps)
    qr = qiskit.QuantumRegister(max([max(qubits), max(control_qubits)]) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for circ_index, circ_length in enumerate(xdata):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'anglecalcxcircuit_' + str(circ_index) + '_0'
        for qind, qubit in enumerate(qubits):
            circ.x(qr[control_qubits[qind]])
            circ.append(U2Gate(0.0, 0.0), [qr[qubit]])
            for _ in range(circ_length):
                if angleerr != 0:
                    circ.append(U1Gate(-angleerr), [qr[qubit]])
                circ.barrier([qr[control_qubits[qind]], qr[qubit]])
                circ.cx(qr[control_qubits[qind]], qr[qubit])
                if angleerr != 0:
                    circ.append(U1Gate(angleerr), [qr[qubit]])
                circ.y(qr[qubit])
            circ.append(U2Gate(-np.pi / 2.0, np.pi / 2.0), [qr[qubit]])
        for qind, qubit in enumerate(qubits):
            circ.measure(qr[qubit], cr[qind])
        circuits.append(circ)
    return (circuits, xdata)
