from typing import Tuple, List
from qiskit.circuit import ClassicalRegister, QuantumRegister, Parameter
from qiskit.circuit import QuantumCircuit
from qiskit.circuit.library import U1Gate, U2Gate

def get_measurement_circ(n: int, qregname: str, cregname: str, full_measurement: bool=True) -> QuantumCircuit:
    q = QuantumRegister(n, qregname)
    if full_measurement:
        cla = ClassicalRegister(n, cregname)
        meas = QuantumCircuit(q, cla)
        meas.barrier()
        meas.measure(q, cla)
        return meas
    cla = ClassicalRegister(1, cregname)
    meas = QuantumCircuit(q, cla)
    meas.barrier()
    meas.measure(q[0], cla)
    return meas

def get_ghz_simple(n: int, measure: bool=True, full_measurement: bool=True) -> QuantumCircuit:
    q = QuantumRegister(n, 'q')
    circ = QuantumCircuit(q)
    circ.h(q[0])
    for i in range(1, n):
        circ.cx(q[i - 1], q[i])
    if measure:
        meas = get_measurement_circ(n, 'q', 'c', full_measurement)
        circ = circ + meas
    return circ

def get_ghz_mqc(n: int, delta: float, full_measurement: bool=True) -> QuantumCircuit:
    q = QuantumRegister(n, 'q')
    circ = get_ghz_simple(n, measure=False)
    circinv = circ.inverse()
    circ.barrier()
    circ.append(U1Gate(delta), [q])
    circ.x(q)
    circ.barrier()
    circ += circinv
    meas = get_measurement_circ(n, 'q', 'c', full_measurement)
    circ = circ + meas
    return circ

def get_ghz_mqc_para(n: int, full_measurement: bool=True) -> Tuple[QuantumCircuit, Parameter]:
    q = QuantumRegister(n, 'q')
    circ = get_ghz_simple(n, measure=False)
    delta = Parameter('t')
    circinv = circ.inverse()
    circ.barrier()
    circ.append(U1Gate(delta), [q])
    circ.x(q)
    circ.barrier()
    circ += circinv
    meas = get_measurement_circ(n, 'q', 'c', full_measurement)
    circ = circ + meas
    return (circ, delta)

def get_ghz_po(n: int, delta: float) -> QuantumCircuit:
    q = QuantumRegister(n, 'q')
    circ = get_ghz_simple(n, measure=False)
    circ.barrier()
    circ.append(U2Gate(delta, -delta), [q])
    circ.barrier()
    meas = get_measurement_circ(n, 'q', 'c', True)
    circ = circ + meas
    return circ

def get_ghz_po_para(n: int) -> Tuple[QuantumCircuit, List[Parameter]]:
    q = QuantumRegister(n, 'q')
    delta = Parameter('t')
    deltaneg = Parameter('-t')
    circ = get_ghz_simple(n, measure=False)
    circ.barrier()
    circ.append(U2Gate(delta, deltaneg), [q])
    meas = get_measurement_circ(n, 'q', 'c', True)
    circ = circ + meas
    return (circ, [delta, deltaneg])
