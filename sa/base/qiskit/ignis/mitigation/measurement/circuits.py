from typing import List, Tuple, Union
from qiskit import QuantumRegister, ClassicalRegister, QuantumCircuit, QiskitError
from qiskit.ignis.verification.tomography import count_keys

def complete_meas_cal(qubit_list: List[int]=None, qr: Union[int, List[QuantumRegister]]=None, cr: Union[int, List[ClassicalRegister]]=None, circlabel: str='') -> Tuple[List[QuantumCircuit], List[str]]:
    if qubit_list is None and qr is None:
        raise QiskitError('Must give one of a qubit_list or a qr')
    if qr is None:
        qr = QuantumRegister(max(qubit_list) + 1)
    if isinstance(qr, int):
        qr = QuantumRegister(qr)
    if qubit_list is None:
        qubit_list = range(len(qr))
    if isinstance(cr, int):
        cr = ClassicalRegister(cr)
    nqubits = len(qubit_list)
    state_labels = count_keys(nqubits)
    cal_circuits, _ = tensored_meas_cal([qubit_list], qr, cr, circlabel)
    return (cal_circuits, state_labels)

def tensored_meas_cal(mit_pattern: List[List[int]]=None, qr: Union[int, List[QuantumRegister]]=None, cr: Union[int, List[ClassicalRegister]]=None, circlabel: str='') -> Tuple[List[QuantumCircuit], List[List[int]]]:
    if mit_pattern is None and qr is None:
        raise QiskitError('Must give one of mit_pattern or qr')
    if isinstance(qr, int):
        qr = QuantumRegister(qr)
    qubits_in_pattern = []
    if mit_pattern is not None:
        for qubit_list in mit_pattern:
            for qubit in qubit_list:
                if qubit in qubits_in_pattern:
                    raise QiskitError('mit_pattern cannot contain                     multiple instances of the same qubit')
                qubits_in_pattern.append(qubit)
        if qr is None:
            qr = QuantumRegister(max(qubits_in_pattern) + 1)
    else:
        qubits_in_pattern = range(len(qr))
        mit_pattern = [qubits_in_pattern]
    nqubits = len(qubits_in_pattern)
    if cr is None:
        cr = ClassicalRegister(nqubits)
    if isinstance(cr, int):
        cr = ClassicalRegister(cr)
    qubits_list_sizes = [len(qubit_list) for qubit_list in mit_pattern]
    nqubits = sum(qubits_list_sizes)
    size_of_largest_group = max(qubits_list_sizes)
    largest_labels = count_keys(size_of_largest_group)
    state_labels = []
    for largest_state in largest_labels:
        basis_state = ''
        for list_size in qubits_list_sizes:
            basis_state = largest_state[:list_size] + basis_state
        state_labels.append(basis_state)
    cal_circuits = []
    for basis_state in state_labels:
        qc_circuit = QuantumCircuit(qr, cr, name='%scal_%s' % (circlabel, basis_state))
        end_index = nqubits
        for qubit_list, list_size in zip(mit_pattern, qubits_list_sizes):
            start_index = end_index - list_size
            substate = basis_state[start_index:end_index]
            for qind in range(list_size):
                if substate[list_size - qind - 1] == '1':
                    qc_circuit.x(qr[qubit_list[qind]])
            end_index = start_index
        qc_circuit.barrier(qr)
        end_index = nqubits
        for qubit_list, list_size in zip(mit_pattern, qubits_list_sizes):
            for qind in range(list_size):
                qc_circuit.measure(qr[qubit_list[qind]], cr[nqubits - (end_index - qind)])
            end_index -= list_size
        cal_circuits.append(qc_circuit)
    return (cal_circuits, mit_pattern)
