import numpy as np

def pad_id_gates(circuit, qr, qubit, num_of_id_gates):
    for _ in range(num_of_id_gates):
        circuit.barrier(qr[qubit])
        if hasattr(circuit, 'i'):
            circuit.i(qr[qubit])
        else:
            circuit.iden(qr[qubit])
    circuit.barrier(qr[qubit])
    return circuit

def time_to_ngates(times, gate_time):
    return np.round(np.array(times) / gate_time).astype(int)
