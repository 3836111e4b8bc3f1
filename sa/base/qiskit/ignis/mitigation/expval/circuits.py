from typing import Optional, Tuple, List, Dict
from qiskit import QuantumCircuit
from qiskit.exceptions import QiskitError

def expval_meas_mitigator_circuits(num_qubits: int, method: Optional[str]='CTMP', labels: Optional[List[str]]=None) -> Tuple[List[QuantumCircuit], List[Dict[str, any]]]:
    generator = ExpvalMeasMitigatorCircuits(num_qubits, method, labels)
    return generator.generate_circuits()

class ExpvalMeasMitigatorCircuits:

    def __init__(self, num_qubits: int, method: str='CTMP', labels: Optional[List[str]]=None):
        self._num_qubits = num_qubits
        self._circuits = []
        self._metadata = []
        if labels is None:
            labels = self._method_labels(method)
        for label in labels:
            self._metadata.append({'experiment': 'meas_mit', 'cal': label, 'method': method})
            self._circuits.append(self._calibration_circuit(num_qubits, label))

    def _method_labels(self, method):
        if method == 'tensored':
            return [self._num_qubits * '0', self._num_qubits * '1']
        if method in ['CTMP', 'ctmp']:
            labels = [self._num_qubits * '0', self._num_qubits * '1']
            for i in range(self._num_qubits):
                labels.append((self._num_qubits - i - 1) * '0' + '1' + i * '0')
            return labels
        if method == 'complete':
            labels = []
            for i in range(2 ** self._num_qubits):
                bits = bin(i)[2:]
                label = (self._num_qubits - len(bits)) * '0' + bits
                labels.append(label)
            return labels
        raise QiskitError('Unrecognized method {}'.format(method))

    def generate_circuits(self) -> Tuple[List[QuantumCircuit], List[dict]]:
        return (self._circuits, self._metadata)

    @staticmethod
    def _calibration_circuit(num_qubits: int, label: str) -> QuantumCircuit:
        circ = QuantumCircuit(num_qubits, name='meas_mit_cal_' + label)
        for i, val in enumerate(reversed(label)):
            if val == '1':
                circ.x(i)
        circ.measure_all()
        return circ
