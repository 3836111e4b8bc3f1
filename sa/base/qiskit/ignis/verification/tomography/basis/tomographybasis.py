from typing import Optional, Tuple, Union
import numpy as np
from qiskit import QiskitError
from qiskit.circuit import Qubit, Clbit, QuantumCircuit

class TomographyBasis:

    def __init__(self, name: str, measurement: Optional[Tuple]=None, preparation: Optional[Tuple]=None):
        self._name = name
        self._measurement = False
        self._preparation = False
        if measurement is not None and len(measurement) == 3:
            self._measurement = True
            self._measurement_labels = measurement[0]
            self._measurement_circuit = measurement[1]
            self._measurement_matrix = measurement[2]
        if preparation is not None and len(preparation) == 3:
            self._preparation = True
            self._preparation_labels = preparation[0]
            self._preparation_circuit = preparation[1]
            self._preparation_matrix = preparation[2]

    @property
    def name(self):
        return self._name

    @property
    def measurement(self):
        return self._measurement

    @property
    def preparation(self):
        return self._preparation

    @property
    def measurement_labels(self):
        if self.measurement is True:
            return self._measurement_labels
        return None

    @property
    def preparation_labels(self):
        if self.preparation is True:
            return self._preparation_labels
        return None

    def measurement_circuit(self, op: str, qubit: Qubit, clbit: Clbit) -> QuantumCircuit:
        if self.measurement is False:
            raise QiskitError('{} is not a measurement basis'.format(self._name))
        if not isinstance(qubit, Qubit):
            raise QiskitError('Input must be a qubit in a QuantumRegister')
        if not isinstance(clbit, Clbit):
            raise QiskitError('Input must be a bit in a ClassicalRegister')
        if op not in self._measurement_labels:
            msg = 'Invalid {0} measurement operator label'.format(self._name)
            error = "'{0}' != {1}".format(op, self._measurement_labels)
            raise ValueError('{0}: {1}'.format(msg, error))
        return self._measurement_circuit(op, qubit, clbit)

    def preparation_circuit(self, op: str, qubit: Qubit) -> QuantumCircuit:
        if self.preparation is False:
            raise QiskitError('{} is not a preparation basis'.format(self._name))
        if not isinstance(qubit, Qubit):
            raise QiskitError('Input must be a qubit in a QuantumRegister')
        if op not in self._preparation_labels:
            msg = 'Invalid {0} preparation operator label'.format(self._name)
            error = "'{}' not in {}".format(op, self._preparation_labels)
            raise ValueError('{0}: {1}'.format(msg, error))
        return self._preparation_circuit(op, qubit)

    def measurement_matrix(self, label: str, outcome: Union[str, int]) -> np.array:
        if self.measurement is False:
            raise QiskitError('{} is not a measurement basis'.format(self._name))
        if label not in self._measurement_labels:
            msg = 'Invalid {0} measurement operator label'.format(self._name)
            error = "'{}' not in {}".format(label, self._measurement_labels)
            raise ValueError('{0}: {1}'.format(msg, error))
        allowed_outcomes = [0, 1, '0', '1']
        if outcome not in allowed_outcomes:
            error = "'{}' not in {}".format(outcome, allowed_outcomes)
            raise ValueError('Invalid measurement outcome: {}'.format(error))
        return self._measurement_matrix(label, outcome)

    def preparation_matrix(self, label: str) -> np.array:
        if self.preparation is False:
            raise QiskitError('{} is not a preparation basis'.format(self._name))
        if label not in self._preparation_labels:
            msg = 'Invalid {0} preparation operator label'.format(self._name)
            error = "'{}' not in {}".format(label, self._preparation_labels)
            raise ValueError('{0}: {1}'.format(msg, error))
        return self._preparation_matrix(label)
