import numpy as np
import qiskit
from qiskit.circuit.library import U1Gate
from ..characterization_utils import pad_id_gates

def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
    if len(qubits) != len(spectators):
        raise ValueError('Number of qubits and spectators must be the same')
    for _, qubit in enumerate(qubits):
        if qubit in spectators:
            raise ValueError('Qubits and spectators must be different')
    xdata = gate_time * np.array(num_of_gates)
    qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)]) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    osc_freq = nosc / xdata[-1]
    circuits = []
    for qflip in [False, True]:
        for circ_index, circ_length in enumerate(num_of_gates):
            circ = qiskit.QuantumCircuit(qr, cr)
            circ.name = 'zzcircuit_' + str(circ_index) + '_%d' % qflip
            for _, qspec in enumerate(spectators):
                if qflip:
                    circ.x(qr[qspec])
            circ.barrier(qr)
            for qind, qubit in enumerate(qubits):
                circ.h(qr[qubit])
                circ = pad_id_gates(circ, qr, qubit, circ_length)
                circ.append(U1Gate(2 * np.pi * osc_freq * xdata[circ_index]), [qr[qubit]])
                circ.h(qr[qubit])
            circ.barrier(qr)
            for qind, qubit in enumerate(qubits):
                circ.measure(qr[qubit], cr[qind])
            circuits.append(circ)
    return (circuits, xdata, osc_freq)
