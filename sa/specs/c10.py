import itertools as it
import functools
import re
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Qubit, Clbit, Gate
from qiskit.circuit.library import U2Gate, U3Gate
from qiskit.quantum_info import PTM
from qiskit.ignis.verification.tomography.basis.tomographybasis import TomographyBasis
from qiskit.ignis.verification.tomography.basis.paulibasis import (
    PauliBasis, pauli_measurement_circuit, pauli_measurement_matrix, pauli_preparation_circuit,
    pauli_preparation_matrix)
from qiskit.ignis.verification.tomography.basis.sicbasis import (
    SICBasis, sicpovm_preparation_circuit, sicpovm_preparation_matrix)
from qiskit.ignis.verification.tomography.basis.gatesetbasis import (
    GateSetBasis, default_gateset_basis)
from qiskit.ignis.verification.tomography.basis.circuits import (
    _tomography_circuits, default_basis, _default_measurement_labels,
    _default_preparation_labels, _generate_labels, _format_registers, _operator_tuples)


# ------------------------------------------------------------------ Pauli basis

@of('paulibasis.pauli_measurement_circuit', given={'op': 'X'}, key='X')
def meas_x(op, qubit, clbit):
    circ = QuantumCircuit(qubit.register, clbit.register)
    circ.h(qubit)
    circ.measure(qubit, clbit)
    return circ


@of('paulibasis.pauli_measurement_circuit', given={'op': 'Y'}, key='Y')
def meas_y(op, qubit, clbit):
    circ = QuantumCircuit(qubit.register, clbit.register)
    circ.sdg(qubit)
    circ.h(qubit)
    circ.measure(qubit, clbit)
    return circ


@of('paulibasis.pauli_measurement_circuit', given={'op': 'Z'}, key='Z')
def meas_z(op, qubit, clbit):
    circ = QuantumCircuit(qubit.register, clbit.register)
    circ.measure(qubit, clbit)
    return circ


@of('paulibasis.pauli_preparation_circuit', given={'op': 'Zp'}, key='Zp')
def prep_zp(op, qubit):
    circ = QuantumCircuit(qubit.register)
    return circ


@of('paulibasis.pauli_preparation_circuit', given={'op': 'Zm'}, key='Zm')
def prep_zm(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.x(qubit)
    return circ


@of('paulibasis.pauli_preparation_circuit', given={'op': 'Xp'}, key='Xp')
def prep_xp(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.h(qubit)
    return circ


@of('paulibasis.pauli_preparation_circuit', given={'op': 'Xm'}, key='Xm')
def prep_xm(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.x(qubit)
    circ.h(qubit)
    return circ


@of('paulibasis.pauli_preparation_circuit', given={'op': 'Yp'}, key='Yp')
def prep_yp(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.h(qubit)
    circ.s(qubit)
    return circ


@of('paulibasis.pauli_preparation_circuit', given={'op': 'Ym'}, key='Ym')
def prep_ym(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.x(qubit)
    circ.h(qubit)
    circ.s(qubit)
    return circ


@of('paulibasis.pauli_preparation_matrix', given={'label': 'Zp'}, key='Zp')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Z', 'outcome': '0'}, key='Z0s')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Z', 'outcome': 0}, key='Z0')
def mat_zp(label, outcome=None):
    return np.array([[1, 0], [0, 0]], dtype=complex)


@of('paulibasis.pauli_preparation_matrix', given={'label': 'Zm'}, key='Zm')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Z', 'outcome': '1'}, key='Z1s')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Z', 'outcome': 1}, key='Z1')
def mat_zm(label, outcome=None):
    return np.array([[0, 0], [0, 1]], dtype=complex)


@of('paulibasis.pauli_preparation_matrix', given={'label': 'Xp'}, key='Xp')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'X', 'outcome': '0'}, key='X0s')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'X', 'outcome': 0}, key='X0')
def mat_xp(label, outcome=None):
    return np.array([[0.5, 0.5], [0.5, 0.5]], dtype=complex)


@of('paulibasis.pauli_preparation_matrix', given={'label': 'Xm'}, key='Xm')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'X', 'outcome': '1'}, key='X1s')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'X', 'outcome': 1}, key='X1')
def mat_xm(label, outcome=None):
    return np.array([[0.5, -0.5], [-0.5, 0.5]], dtype=complex)


@of('paulibasis.pauli_preparation_matrix', given={'label': 'Yp'}, key='Yp')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Y', 'outcome': '0'}, key='Y0s')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Y', 'outcome': 0}, key='Y0')
def mat_yp(label, outcome=None):
    return np.array([[0.5, -0.5j], [0.5j, 0.5]], dtype=complex)


@of('paulibasis.pauli_preparation_matrix', given={'label': 'Ym'}, key='Ym')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Y', 'outcome': '1'}, key='Y1s')
@of('paulibasis.pauli_measurement_matrix', given={'label': 'Y', 'outcome': 1}, key='Y1')
def mat_ym(label, outcome=None):
    return np.array([[0.5, 0.5j], [-0.5j, 0.5]], dtype=complex)


# ------------------------------------------------------------------ SIC basis

@of('sicbasis.sicpovm_preparation_circuit', given={'op': 'S0'}, key='S0')
def sic0(op, qubit):
    circ = QuantumCircuit(qubit.register)
    return circ


@of('sicbasis.sicpovm_preparation_circuit', given={'op': 'S1'}, key='S1')
def sic1(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.append(U3Gate(-2*np.arctan(np.sqrt(2)), np.pi, 0.0), [qubit])
    return circ


@of('sicbasis.sicpovm_preparation_circuit', given={'op': 'S2'}, key='S2')
def sic2(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.append(U3Gate(-2*np.arctan(np.sqrt(2)), np.pi/3, 0.0), [qubit])
    return circ


@of('sicbasis.sicpovm_preparation_circuit', given={'op': 'S3'}, key='S3')
def sic3(op, qubit):
    circ = QuantumCircuit(qubit.register)
    circ.append(U3Gate(-2*np.arctan(np.sqrt(2)), -np.pi/3, 0.0), [qubit])
    return circ


@of('sicbasis.sicpovm_preparation_matrix', given={'label': 'S0'}, key='S0')
def sicm0(label):
    return np.array([[1, 0], [0, 0]], dtype=complex)


@of('sicbasis.sicpovm_preparation_matrix', given={'label': 'S1'}, key='S1')
def sicm1(label):
    return np.array([[1, np.sqrt(2)], [np.sqrt(2), 2]], dtype=complex)/3


@of('sicbasis.sicpovm_preparation_matrix', given={'label': 'S2'}, key='S2')
def sicm2(label):
    return np.array([[1, np.exp(np.pi*2j/3)*np.sqrt(2)],
                     [np.exp(-np.pi*2j/3)*np.sqrt(2), 2]])/3


@of('sicbasis.sicpovm_preparation_matrix', given={'label': 'S3'}, key='S3')
def sicm3(label):
    return np.array([[1, np.exp(-np.pi*2j/3)*np.sqrt(2)],
                     [np.exp(np.pi*2j/3)*np.sqrt(2), 2]])/3


@of('paulibasis.PauliBasis', no_inline=('TomographyBasis',))
def pauli_basis():
    return TomographyBasis('Pauli',
                           measurement=(('X', 'Y', 'Z'), pauli_measurement_circuit,
                                        pauli_measurement_matrix),
                           preparation=(('Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm'),
                                        pauli_preparation_circuit, pauli_preparation_matrix))


@of('sicbasis.SICBasis', no_inline=('TomographyBasis',))
def sic_basis():
    return TomographyBasis('SIC', measurement=None,
                           preparation=(('S0', 'S1', 'S2', 'S3'), sicpovm_preparation_circuit,
                                        sicpovm_preparation_matrix))


# ------------------------------------------------------------------ TomographyBasis

@of('TomographyBasis.__init__', attrs=('_name', '_measurement', '_preparation'), key='flags')
def tb_flags(self, name, measurement=None, preparation=None):
    self._name = name
    self._measurement = measurement is not None and len(measurement) == 3
    self._preparation = preparation is not None and len(preparation) == 3


@of('TomographyBasis.__init__', key='meas', given={'preparation': None})
def tb_meas(self, name, measurement=None, preparation=None):
    if measurement is not None and len(measurement) == 3:
        self._measurement_labels = measurement[0]
        self._measurement_circuit = measurement[1]
        self._measurement_matrix = measurement[2]


@of('TomographyBasis.__init__', key='prep', given={'measurement': None})
def tb_prep(self, name, measurement=None, preparation=None):
    if preparation is not None and len(preparation) == 3:
        self._preparation_labels = preparation[0]
        self._preparation_circuit = preparation[1]
        self._preparation_matrix = preparation[2]


@of('TomographyBasis.measurement')
def tb_measurement(self):
    return self._measurement


@of('TomographyBasis.preparation')
def tb_preparation(self):
    return self._preparation


@of('TomographyBasis.measurement_labels')
def tb_mlabels(self):
    if self._measurement is True:
        return self._measurement_labels
    return None


@of('TomographyBasis.preparation_labels')
def tb_plabels(self):
    if self._preparation is True:
        return self._preparation_labels
    return None


@of('TomographyBasis.measurement_circuit')
def tb_mcirc(self, op, qubit, clbit):
    if self._measurement is False:
        raise ValueError
    if not isinstance(qubit, Qubit) or not isinstance(clbit, Clbit):
        raise ValueError
    if op not in self._measurement_labels:
        raise ValueError
    return self._measurement_circuit(op, qubit, clbit)


@of('TomographyBasis.preparation_circuit')
def tb_pcirc(self, op, qubit):
    if self._preparation is False:
        raise ValueError
    if not isinstance(qubit, Qubit):
        raise ValueError
    if op not in self._preparation_labels:
        raise ValueError
    return self._preparation_circuit(op, qubit)


@of('TomographyBasis.measurement_matrix')
def tb_mmat(self, label, outcome):
    if self._measurement is False:
        raise ValueError
    if label not in self._measurement_labels:
        raise ValueError
    if outcome not in [0, 1, '0', '1']:
        raise ValueError
    return self._measurement_matrix(label, outcome)


@of('TomographyBasis.preparation_matrix')
def tb_pmat(self, label):
    if self._preparation is False:
        raise ValueError
    if label not in self._preparation_labels:
        raise ValueError
    return self._preparation_matrix(label)


# ------------------------------------------------------------------ labels

@of('basis.circuits.default_basis')
def dbasis(basis):
    if basis is None:
        return None
    if isinstance(basis, str):
        if basis == 'Pauli':
            return PauliBasis
        if basis == 'SIC':
            return SICBasis
    if isinstance(basis, TomographyBasis):
        return basis
    raise ValueError


@of('basis.circuits._default_measurement_labels', no_inline=('default_basis',))
def dml(basis):
    if default_basis(basis) == PauliBasis:
        return ('X', 'Y', 'Z')
    raise ValueError


@of('basis.circuits._default_preparation_labels', no_inline=('default_basis',))
def dpl(basis):
    if default_basis(basis) == PauliBasis:
        return ('Zp', 'Zm', 'Xp', 'Yp')
    if default_basis(basis) == SICBasis:
        return ('S0', 'S1', 'S2', 'S3')
    raise ValueError


@of('basis.circuits._format_registers')
def fmt(*registers):
    if not registers:
        raise ValueError
    qubits = []
    for r in registers:
        if isinstance(r, QuantumRegister):
            qubits.extend([r[k] for k in range(r.size)])
        else:
            qubits.append(r)
    if len(qubits) != len(set(qubits)):
        raise ValueError
    return qubits


@of('basis.circuits._operator_tuples', no_inline=('_format_registers',))
def optuples(labels, qubits):
    if isinstance(qubits, int):
        n = qubits
    elif isinstance(qubits, list):
        n = len(_format_registers(*qubits))
    else:
        n = len(_format_registers(qubits))
    return list(it.product(labels, repeat=n))


@of('basis.circuits._generate_labels', no_inline=('_operator_tuples',))
def genlabels(labels, measured_qubits):
    if labels is None:
        return [None]
    if isinstance(labels, tuple):
        labels = _operator_tuples(labels, measured_qubits)
    if isinstance(labels, str):
        labels = _operator_tuples(labels.split(' '), measured_qubits)
    if isinstance(labels, list):
        return labels
    raise ValueError


@of('basis.circuits.tomography_circuit_tuples',
    no_inline=('_default_measurement_labels', '_default_preparation_labels', '_generate_labels'))
def tuples(measured_qubits, meas_labels='Pauli', prep_labels=None):
    if isinstance(meas_labels, (str, TomographyBasis)):
        meas_labels = _default_measurement_labels(meas_labels)
    if isinstance(prep_labels, (str, TomographyBasis)):
        prep_labels = _default_preparation_labels(prep_labels)
    mls = _generate_labels(meas_labels, measured_qubits)
    pls = _generate_labels(prep_labels, measured_qubits)
    return [(p, m) for m, p in it.product(mls, pls)]


# ------------------------------------------------------------------ circuits

@of('basis.circuits.state_tomography_circuits', no_inline=('_tomography_circuits',))
def state_circuits(circuit, measured_qubits, meas_labels='Pauli', meas_basis='Pauli'):
    return _tomography_circuits(circuit, measured_qubits, None, meas_labels=meas_labels,
                                meas_basis=meas_basis, prep_labels=None, prep_basis=None)


@of('basis.circuits.process_tomography_circuits', no_inline=('_tomography_circuits',))
def process_circuits(circuit, measured_qubits, prepared_qubits=None, meas_labels='Pauli',
                     meas_basis='Pauli', prep_labels='Pauli', prep_basis='Pauli'):
    return _tomography_circuits(circuit, measured_qubits, prepared_qubits,
                                meas_labels=meas_labels, meas_basis=meas_basis,
                                prep_labels=prep_labels, prep_basis=prep_basis)


@of('basis.circuits._tomography_circuits', raises=False,
    no_inline=('_default_measurement_labels', '_default_preparation_labels', '_generate_labels',
               '_format_registers', 'default_basis'))
@of('basis.circuits._tomography_circuits', ret=False, key='state',
    given={'prep_basis': None, 'prep_labels': None, 'prepared_qubits': None},
    no_inline=('_default_measurement_labels', '_default_preparation_labels', '_generate_labels',
               '_format_registers', 'default_basis'))
@of('basis.circuits._tomography_circuits', ret=False, key='len',
    given={'prep_labels': None, 'meas_basis': None, 'prep_basis': None, 'meas_labels': None},
    no_inline=('_default_measurement_labels', '_default_preparation_labels', '_generate_labels',
               '_format_registers', 'default_basis'))
@of('basis.circuits._tomography_circuits', ret=False, key='none',
    given={'prepared_qubits': None, 'meas_basis': None, 'prep_basis': None, 'meas_labels': None},
    no_inline=('_default_measurement_labels', '_default_preparation_labels', '_generate_labels',
               '_format_registers', 'default_basis'))
@of('basis.circuits._tomography_circuits', ret=False, key='prep',
    given={'prepared_qubits': None, 'meas_basis': None, 'meas_labels': None},
    no_inline=('_default_measurement_labels', '_default_preparation_labels', '_generate_labels',
               '_format_registers', 'default_basis'))
def tomo(circuit, measured_qubits, prepared_qubits=None, meas_labels='Pauli',
         meas_basis='Pauli', prep_labels='Pauli', prep_basis='Pauli'):
    if prepared_qubits is None:
        prepared_qubits = measured_qubits
    if isinstance(measured_qubits, (list, tuple)):
        if isinstance(measured_qubits[0], int):
            measured_qubits = [circuit.qubits[i] for i in measured_qubits]
        meas_qubits = _format_registers(*measured_qubits)
    else:
        meas_qubits = _format_registers(measured_qubits)
    if isinstance(prepared_qubits, (list, tuple)):
        if isinstance(prepared_qubits[0], int):
            prepared_qubits = [circuit.qubits[i] for i in prepared_qubits]
        prep_qubits = _format_registers(*prepared_qubits)
    else:
        prep_qubits = _format_registers(prepared_qubits)
    if len(prep_qubits) != len(meas_qubits):
        raise ValueError
    n = len(meas_qubits)
    meas_regs = set(q.register for q in meas_qubits)
    prep_regs = set(q.register for q in prep_qubits)
    qregs = prep_regs.union(meas_regs)
    if callable(meas_basis):
        measurement = meas_basis
    else:
        measurement = default_basis(meas_basis)
        if isinstance(measurement, TomographyBasis):
            if measurement.measurement is not True:
                raise ValueError
            measurement = measurement.measurement_circuit
    if callable(prep_basis):
        preparation = prep_basis
    else:
        preparation = default_basis(prep_basis)
        if isinstance(preparation, TomographyBasis):
            if preparation.preparation is not True:
                raise ValueError
            preparation = preparation.preparation_circuit
    if measurement is None and meas_labels is not None:
        raise ValueError
    if preparation is None and prep_labels is not None:
        raise ValueError
    if isinstance(meas_labels, str):
        meas_labels = _default_measurement_labels(meas_labels)
    if isinstance(prep_labels, str):
        prep_labels = _default_preparation_labels(prep_labels)
    meas_labels = _generate_labels(meas_labels, n)
    prep_labels = _generate_labels(prep_labels, n)
    registers = qregs.copy()
    if measurement is not None:
        clbits = ClassicalRegister(n)
        registers.add(clbits)
    circs = []
    for p in prep_labels:
        prep = QuantumCircuit(*registers)
        if p is not None:
            for j in range(n):
                prep += preparation(p[j], prep_qubits[j])
            prep.barrier(*qregs)
        prep += circuit
        for m in meas_labels:
            meas = QuantumCircuit(*registers)
            if m is not None:
                meas.barrier(*qregs)
                for j in range(n):
                    meas += measurement(m[j], meas_qubits[j], clbits[j])
            circ = prep + meas
            circ.name = str(m) if p is None else str((p, m))
            circs.append(circ)
    return circs


# ------------------------------------------------------------------ gate set basis

@of('GateSetBasis.__init__', no_inline=('_gate_matrix',))
def gs_init(self, name, gates, spam):
    self.name = name
    self.gate_labels = list(gates.keys())
    self.gates = dict(gates)
    self.gate_matrices = {k: np.real(self._gate_matrix(g)) for k, g in gates.items()}
    self.spam_labels = tuple(sorted(spam.keys()))
    self.spam_spec = spam


@of('GateSetBasis._gate_matrix')
def gs_matrix(self, gate):
    if isinstance(gate, Gate):
        return PTM(gate).data
    if callable(gate):
        c = QuantumCircuit(1)
        gate(c, c.qubits[0])
        return PTM(c).data
    return None


@of('GateSetBasis.add_gate', no_inline=('_gate_matrix',))
def gs_add(self, gate, name=None):
    if name is None:
        if isinstance(gate, Gate):
            name = gate.name
        else:
            raise ValueError
    self.gate_labels.append(name)
    self.gates[name] = gate
    self.gate_matrices[name] = self._gate_matrix(gate)


@of('GateSetBasis.add_gate_to_circuit')
def gs_addcirc(self, circ, qubit, op):
    if op not in self.gates:
        raise ValueError
    gate = self.gates[op]
    if callable(gate):
        gate(circ, qubit)
    if isinstance(gate, Gate):
        circ.append(gate, [qubit], [])


@of('GateSetBasis.add_spam_to_circuit', no_inline=('add_gate_to_circuit',))
def gs_addspam(self, circ, qubit, op):
    if op not in self.spam_spec:
        raise ValueError
    for gate_name in self.spam_spec[op]:
        self.add_gate_to_circuit(circ, qubit, gate_name)


@of('GateSetBasis.measurement_circuit', no_inline=('add_spam_to_circuit',))
def gs_mcirc(self, op, qubit, clbit):
    circ = QuantumCircuit(qubit.register, clbit.register)
    self.add_spam_to_circuit(circ, qubit, op)
    circ.measure(qubit, clbit)
    return circ


@of('GateSetBasis.preparation_circuit', no_inline=('add_spam_to_circuit',))
def gs_pcirc(self, op, qubit):
    circ = QuantumCircuit(qubit.register)
    self.add_spam_to_circuit(circ, qubit, op)
    return circ


@of('GateSetBasis.measurement_matrix')
@of('GateSetBasis.preparation_matrix')
def gs_mat(self, label):
    return self.gate_matrices[label]


@of('GateSetBasis.spam_matrix')
def gs_spam(self, label):
    return functools.reduce(lambda a, b: b @ a,
                            [self.gate_matrices[g] for g in self.spam_spec[label]])


@of('GateSetBasis.get_tomography_basis', no_inline=('TomographyBasis',))
def gs_basis(self):
    return TomographyBasis(self.name,
                           measurement=(self.spam_labels, self.measurement_circuit,
                                        self.measurement_matrix),
                           preparation=(self.spam_labels, self.preparation_circuit,
                                        self.preparation_matrix))


@of('gatesetbasis.default_gateset_basis', no_inline=('GateSetBasis',))
def gs_default():
    gates = {'Id': lambda circ, qubit: None,
             'X_Rot_90': lambda circ, qubit: circ.append(U2Gate(-np.pi/2, np.pi/2), [qubit]),
             'Y_Rot_90': lambda circ, qubit: circ.append(U2Gate(np.pi, np.pi), [qubit])}
    spam = {'F0': ('Id',), 'F1': ('X_Rot_90',), 'F2': ('Y_Rot_90',),
            'F3': ('X_Rot_90', 'X_Rot_90')}
    return GateSetBasis('Default GST', gates, spam)


@of('basis.circuits.gateset_tomography_circuits',
    no_inline=('_tomography_circuits', 'default_gateset_basis', 'get_tomography_basis',
               'add_gate_to_circuit'))
def gst(measured_qubits=None, gateset_basis='default'):
    if measured_qubits is None:
        measured_qubits = [0]
    if len(measured_qubits) > 1:
        raise ValueError
    if gateset_basis == 'default':
        gateset_basis = default_gateset_basis()
    meas = gateset_basis.get_tomography_basis()
    prep = gateset_basis.get_tomography_basis()
    out = []
    for gate in gateset_basis.gate_labels:
        circuit = QuantumCircuit(1 + max(measured_qubits))
        qubit = circuit.qubits[measured_qubits[0]]
        gateset_basis.add_gate_to_circuit(circuit, qubit, gate)
        circs = _tomography_circuits(circuit, qubit, qubit,
                                     meas_labels=meas.measurement_labels, meas_basis=meas,
                                     prep_labels=prep.preparation_labels, prep_basis=prep)
        for c in circs:
            res = re.search("'(.*)'.*'(.*)'", c.name)
            c.name = str((res.group(1), gate, res.group(2)))
        out = out + circs
    circuit = QuantumCircuit(1 + max(measured_qubits))
    qubit = circuit.qubits[measured_qubits[0]]
    circs = _tomography_circuits(circuit, qubit, qubit,
                                 meas_labels=meas.measurement_labels, meas_basis=meas,
                                 prep_labels=prep.preparation_labels, prep_basis=prep)
    for c in circs:
        res = re.search("'(.*)'.*'(.*)'", c.name)
        c.name = str((res.group(1), res.group(2)))
    out = out + circs
    circuit = QuantumCircuit(1 + max(measured_qubits))
    qubit = circuit.qubits[measured_qubits[0]]
    circs = _tomography_circuits(circuit, qubit, qubit,
                                 meas_labels=meas.measurement_labels, meas_basis=meas,
                                 prep_labels=None, prep_basis=None)
    for c in circs:
        res = re.search("'(.*)'", c.name)
        c.name = str((res.group(1),))
    return out + circs
