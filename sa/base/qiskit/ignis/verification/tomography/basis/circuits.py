import logging
from typing import List, Union, Tuple, Optional
import itertools as it
import re
from qiskit import QuantumRegister
from qiskit.circuit import Qubit
from qiskit import ClassicalRegister
from qiskit import QuantumCircuit
from qiskit import QiskitError
from qiskit.circuit.measure import Measure
from qiskit.circuit.reset import Reset
from .tomographybasis import TomographyBasis
from .paulibasis import PauliBasis
from .gatesetbasis import default_gateset_basis, GateSetBasis
from .sicbasis import SICBasis
logger = logging.getLogger(__name__)

def state_tomography_circuits(circuit: QuantumCircuit, measured_qubits: QuantumRegister, meas_labels: Union[str, Tuple[str], List[Tuple[str]]]='Pauli', meas_basis: Union[str, TomographyBasis]='Pauli') -> List[QuantumCircuit]:
    return _tomography_circuits(circuit, measured_qubits, None, meas_labels=meas_labels, meas_basis=meas_basis, prep_labels=None, prep_basis=None)

def process_tomography_circuits(circuit: QuantumCircuit, measured_qubits: QuantumRegister, prepared_qubits: Optional[QuantumRegister]=None, meas_labels: Union[str, Tuple[str], List[Tuple[str]]]='Pauli', meas_basis: Union[str, TomographyBasis]='Pauli', prep_labels: Union[str, Tuple[str], List[Tuple[str]]]='Pauli', prep_basis: Union[str, TomographyBasis]='Pauli') -> List[QuantumCircuit]:
    return _tomography_circuits(circuit, measured_qubits, prepared_qubits, meas_labels=meas_labels, meas_basis=meas_basis, prep_labels=prep_labels, prep_basis=prep_basis)

def gateset_tomography_circuits(measured_qubits: Optional[List[int]]=None, gateset_basis: Union[str, GateSetBasis]='default') -> List[QuantumCircuit]:
    if measured_qubits is None:
        measured_qubits = [0]
    if len(measured_qubits) > 1:
        raise QiskitError('Only 1-qubit gate set tomography is currently supported')
    num_qubits = 1 + max(measured_qubits)
    all_circuits = []
    if gateset_basis == 'default':
        gateset_basis = default_gateset_basis()
    meas_basis = gateset_basis.get_tomography_basis()
    prep_basis = gateset_basis.get_tomography_basis()
    meas_labels = meas_basis.measurement_labels
    prep_labels = prep_basis.preparation_labels
    for gate in gateset_basis.gate_labels:
        circuit = QuantumCircuit(num_qubits)
        qubit = circuit.qubits[measured_qubits[0]]
        gateset_basis.add_gate_to_circuit(circuit, qubit, gate)
        gst_circuits = _tomography_circuits(circuit, qubit, qubit, meas_labels=meas_labels, meas_basis=meas_basis, prep_labels=prep_labels, prep_basis=prep_basis)
        for tomography_circuit in gst_circuits:
            res = re.search("'(.*)'.*'(.*)'", tomography_circuit.name)
            tomography_circuit.name = str((res.group(1), gate, res.group(2)))
        all_circuits = all_circuits + gst_circuits
    circuit = QuantumCircuit(num_qubits)
    qubit = circuit.qubits[measured_qubits[0]]
    gst_circuits = _tomography_circuits(circuit, qubit, qubit, meas_labels=meas_labels, meas_basis=meas_basis, prep_labels=prep_labels, prep_basis=prep_basis)
    for tomography_circuit in gst_circuits:
        res = re.search("'(.*)'.*'(.*)'", tomography_circuit.name)
        tomography_circuit.name = str((res.group(1), res.group(2)))
    all_circuits = all_circuits + gst_circuits
    circuit = QuantumCircuit(num_qubits)
    qubit = circuit.qubits[measured_qubits[0]]
    gst_circuits = _tomography_circuits(circuit, qubit, qubit, meas_labels=meas_labels, meas_basis=meas_basis, prep_labels=None, prep_basis=None)
    for tomography_circuit in gst_circuits:
        res = re.search("'(.*)'", tomography_circuit.name)
        tomography_circuit.name = str((res.group(1),))
    all_circuits = all_circuits + gst_circuits
    return all_circuits

def _tomography_circuits(circuit: QuantumCircuit, measured_qubits: QuantumRegister, prepared_qubits: Optional[QuantumRegister]=None, meas_labels: Union[str, Tuple[str], List[Tuple[str]]]='Pauli', meas_basis: Union[str, TomographyBasis]='Pauli', prep_labels: Union[str, Tuple[str], List[Tuple[str]]]='Pauli', prep_basis: Union[str, TomographyBasis]='Pauli') -> List[QuantumCircuit]:
    if prepared_qubits is None:
        prepared_qubits = measured_qubits
    if isinstance(measured_qubits, (list, tuple)):
        if isinstance(measured_qubits[0], int):
            measured_qubits = [circuit.qubits[i] for i in measured_qubits]
        meas_qubits = _format_registers(*measured_qubits)
    else:
        meas_qubits = _format_registers(measured_qubits)
    if isinstance(prepared_qubits, (list, tuple)):
        if isinstance(prepared_qubits[0], int):
            prepared_qubits = [circuit.qubits[i] for i in prepared_qubits]
        prep_qubits = _format_registers(*prepared_qubits)
    else:
        prep_qubits = _format_registers(prepared_qubits)
    if len(prep_qubits) != len(meas_qubits):
        raise QiskitError('prepared_qubits and measured_qubits are different length.')
    num_qubits = len(meas_qubits)
    meas_qubit_registers = set((q.register for q in meas_qubits))
    for reg in meas_qubit_registers:
        if reg not in circuit.qregs:
            logger.warning('WARNING: circuit does not contain measured QuantumRegister: %s', reg.name)
    prep_qubit_registers = set((q.register for q in prep_qubits))
    for reg in prep_qubit_registers:
        if reg not in circuit.qregs:
            logger.warning('WARNING: circuit does not contain prepared QuantumRegister: %s', reg.name)
    qubit_registers = prep_qubit_registers.union(meas_qubit_registers)
    for op in circuit:
        if isinstance(op, Measure):
            logger.warning('WARNING: circuit already contains measurements')
        if isinstance(op, Reset):
            logger.warning('WARNING: circuit contains resets')
    if callable(meas_basis):
        measurement = meas_basis
    else:
        measurement = default_basis(meas_basis)
        if isinstance(measurement, TomographyBasis):
            if measurement.measurement is not True:
                raise QiskitError('Invalid measurement basis')
            measurement = measurement.measurement_circuit
    if callable(prep_basis):
        preparation = prep_basis
    else:
        preparation = default_basis(prep_basis)
        if isinstance(preparation, TomographyBasis):
            if preparation.preparation is not True:
                raise QiskitError('Invalid preparation basis')
            preparation = preparation.preparation_circuit
    if measurement is None and meas_labels is not None:
        raise ValueError('Measurement basis is not specified.')
    if preparation is None and prep_labels is not None:
        raise ValueError('Preparation basis is not specified.')
    if isinstance(meas_labels, str):
        meas_labels = _default_measurement_labels(meas_labels)
    if isinstance(prep_labels, str):
        prep_labels = _default_preparation_labels(prep_labels)
    meas_labels = _generate_labels(meas_labels, num_qubits)
    prep_labels = _generate_labels(prep_labels, num_qubits)
    registers = qubit_registers.copy()
    if measurement is not None:
        clbits = ClassicalRegister(num_qubits)
        registers.add(clbits)
    qst_circs = []
    for prep_label in prep_labels:
        prep = QuantumCircuit(*registers)
        if prep_label is not None:
            for j in range(num_qubits):
                prep += preparation(prep_label[j], prep_qubits[j])
            prep.barrier(*qubit_registers)
        prep += circuit
        for meas_label in meas_labels:
            meas = QuantumCircuit(*registers)
            if meas_label is not None:
                meas.barrier(*qubit_registers)
                for j in range(num_qubits):
                    meas += measurement(meas_label[j], meas_qubits[j], clbits[j])
            circ = prep + meas
            if prep_label is None:
                circ.name = str(meas_label)
            else:
                circ.name = str((prep_label, meas_label))
            qst_circs.append(circ)
    return qst_circs

def default_basis(basis: Optional[Union[str, TomographyBasis]]) -> TomographyBasis:
    if basis is None:
        return None
    if isinstance(basis, str):
        if basis == 'Pauli':
            return PauliBasis
        if basis == 'SIC':
            return SICBasis
    if isinstance(basis, TomographyBasis):
        return basis
    raise ValueError('Unrecognized basis: {}'.format(basis))

def _default_measurement_labels(basis: Union[str, TomographyBasis]) -> Tuple[str]:
    if default_basis(basis) == PauliBasis:
        return ('X', 'Y', 'Z')
    raise ValueError('Unrecognized basis string "{}"'.format(basis))

def _default_preparation_labels(basis: Union[str, TomographyBasis]) -> Tuple[str]:
    tomo_basis = default_basis(basis)
    if tomo_basis == PauliBasis:
        return ('Zp', 'Zm', 'Xp', 'Yp')
    if tomo_basis == SICBasis:
        return ('S0', 'S1', 'S2', 'S3')
    raise ValueError('Unrecognized basis string "{}"'.format(basis))

def tomography_circuit_tuples(measured_qubits: Union[int, QuantumRegister, List[QuantumRegister]], meas_labels: Union[str, TomographyBasis, Tuple]='Pauli', prep_labels: Optional[Union[str, TomographyBasis, Tuple]]=None) -> List:
    if isinstance(meas_labels, (str, TomographyBasis)):
        meas_labels = _default_measurement_labels(meas_labels)
    if isinstance(prep_labels, (str, TomographyBasis)):
        prep_labels = _default_preparation_labels(prep_labels)
    mls = _generate_labels(meas_labels, measured_qubits)
    pls = _generate_labels(prep_labels, measured_qubits)
    return [(ml, pl) for pl, ml in it.product(mls, pls)]

def _generate_labels(labels: Optional[Union[Tuple[str], List[Tuple[str]], str]], measured_qubits: Union[int, QuantumRegister, List[QuantumRegister]]) -> List[Tuple[str]]:
    if labels is None:
        return [None]
    if isinstance(labels, tuple):
        labels = _operator_tuples(labels, measured_qubits)
    if isinstance(labels, str):
        labels = _operator_tuples(labels.split(' '), measured_qubits)
    if isinstance(labels, list):
        return labels
    raise ValueError('Invalid labels specification: must be None, list, string, or tuple')

def _format_registers(*registers: Union[Qubit, QuantumRegister]) -> List[Qubit]:
    if not registers:
        raise QiskitError('No registers are being measured!')
    qubits = []
    for tuple_element in registers:
        if isinstance(tuple_element, QuantumRegister):
            for j in range(tuple_element.size):
                qubits.append(tuple_element[j])
        else:
            qubits.append(tuple_element)
    if len(qubits) != len(set(qubits)):
        raise QiskitError('Qubits to be measured are not unique!')
    return qubits

def _operator_tuples(labels: Tuple[str], qubits: Union[int, QuantumRegister, List[QuantumRegister]]) -> List[Tuple[str]]:
    if isinstance(qubits, int):
        num_qubits = qubits
    elif isinstance(qubits, list):
        num_qubits = len(_format_registers(*qubits))
    else:
        num_qubits = len(_format_registers(qubits))
    return list(it.product(labels, repeat=num_qubits))
