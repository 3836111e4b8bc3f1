from typing import List, Union, Dict, Optional
from warnings import warn
import numpy as np
from qiskit import QuantumCircuit, QiskitError
from qiskit.qobj import QasmQobj

def count_gates(qobj, basis, qubits):
    warn('The function `count_gates` will be deprecated. Gate count is integrated into `gates_per_clifford` function.', category=DeprecationWarning)
    nexp = len(qobj.experiments)
    ngates = np.zeros([nexp, len(qubits), len(basis)], dtype=int)
    basis_ind = {basis[i]: i for i in range(len(basis))}
    for i in range(nexp):
        for instr in qobj.experiments[i].instructions:
            if instr.name in basis:
                for qind, qubit in enumerate(qubits):
                    if qubit in instr.qubits:
                        ngates[i][qind][basis_ind[instr.name]] += 1
    return ngates

def gates_per_clifford(transpiled_circuits_list: Union[List[List[QuantumCircuit]], List[QasmQobj]], clifford_lengths: Union[np.ndarray, List[int]], basis: List[str], qubits: List[int]) -> Dict[int, Dict[str, float]]:
    ngates = {qubit: {base: 0 for base in basis} for qubit in qubits}
    if isinstance(transpiled_circuits_list[0], QasmQobj):
        warn('`QasmQobj` input will be deprecated. Use transpiled `QuantumCircuit` instead. Gate counts based on `QasmQobj` has no unittest and may return wrong counts.', category=DeprecationWarning)
    for transpiled_circuits in transpiled_circuits_list:
        if isinstance(transpiled_circuits, QasmQobj):
            for experiment in transpiled_circuits.experiments:
                for instr in experiment.instructions:
                    for q_ind in instr.qubits:
                        try:
                            ngates[q_ind][instr.name] += 1
                        except KeyError:
                            pass
        else:
            for transpiled_circuit in transpiled_circuits:
                if isinstance(transpiled_circuit, QuantumCircuit):
                    for instr, qregs, _ in transpiled_circuit.data:
                        for qreg in qregs:
                            try:
                                ngates[qreg.index][instr.name] += 1
                            except KeyError:
                                pass
                else:
                    raise QiskitError('Input object is not `QuantumCircuit`.')
    total_ncliffs = len(transpiled_circuits_list) * np.sum(np.array(clifford_lengths) + 1)
    for qubit in qubits:
        for base in basis:
            ngates[qubit][base] /= total_ncliffs
    return ngates

def coherence_limit(nQ=2, T1_list=None, T2_list=None, gatelen=0.1):
    T1 = np.array(T1_list)
    if T2_list is None:
        T2 = 2 * T1
    else:
        T2 = np.array(T2_list)
    if len(T1) != nQ or len(T2) != nQ:
        raise ValueError('T1 and/or T2 not the right length')
    coherence_limit_err = 0
    if nQ == 1:
        coherence_limit_err = 0.5 * (1.0 - 2.0 / 3.0 * np.exp(-gatelen / T2[0]) - 1.0 / 3.0 * np.exp(-gatelen / T1[0]))
    elif nQ == 2:
        T1factor = 0
        T2factor = 0
        for i in range(2):
            T1factor += 1.0 / 15.0 * np.exp(-gatelen / T1[i])
            T2factor += 2.0 / 15.0 * (np.exp(-gatelen / T2[i]) + np.exp(-gatelen * (1.0 / T2[i] + 1.0 / T1[1 - i])))
        T1factor += 1.0 / 15.0 * np.exp(-gatelen * np.sum(1 / T1))
        T2factor += 4.0 / 15.0 * np.exp(-gatelen * np.sum(1 / T2))
        coherence_limit_err = 0.75 * (1.0 - T1factor - T2factor)
    else:
        raise ValueError('Not a valid number of qubits')
    return coherence_limit_err

def twoQ_clifford_error(ngates: Dict[int, Dict[str, float]], gate_qubit: List[int], gate_err: List[float]):
    warn('The function `twoQ_clifford_error` will be deprecated. Use `calculate_2q_epc` instead.', category=DeprecationWarning)
    gpc_per_qubits = sorted(ngates.items())
    if len(gpc_per_qubits) != 2:
        raise QiskitError('Number of qubits contained in the `ngates` dictionary is not 2. ', 'Rerun `gate_per_clifford` with `qubits` used for 2Q RB experiment.')
    ngates_lists = np.zeros(7)
    ngates_lists[0] = gpc_per_qubits[0][1].get('u1', 0)
    ngates_lists[1] = gpc_per_qubits[0][1].get('u2', 0)
    ngates_lists[2] = gpc_per_qubits[0][1].get('u3', 0)
    ngates_lists[3] = gpc_per_qubits[1][1].get('u1', 0)
    ngates_lists[4] = gpc_per_qubits[1][1].get('u2', 0)
    ngates_lists[5] = gpc_per_qubits[1][1].get('u3', 0)
    ngates_lists[6] = gpc_per_qubits[0][1].get('cx', 0)
    alpha1Q = [1.0, 1.0]
    alpha2Q = 1.0
    for gate_ind, ngate in enumerate(ngates_lists):
        if gate_qubit[gate_ind] == -1:
            alpha2Q *= (1 - 4 / 3 * gate_err[gate_ind]) ** ngate
        else:
            alpha1Q[gate_qubit[gate_ind]] *= (1 - 2 * gate_err[gate_ind]) ** ngate
    alpha2Q_cliff = 1 / 5 * (np.sum(alpha1Q) + 3 * np.prod(alpha1Q)) * alpha2Q
    return (1 - alpha2Q_cliff) * 3 / 4

def calculate_1q_epg(gate_per_cliff: Dict[int, Dict[str, float]], epc_1q: float, qubit: int) -> Dict[str, float]:
    if qubit not in gate_per_cliff:
        raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
    gpc_per_qubit = gate_per_cliff[qubit]
    if 'u3' not in gpc_per_qubit or 'u2' not in gpc_per_qubit:
        raise QiskitError('Invalid basis set is given. Use `u1`, `u2`, `u3` for basis gates.')
    n_u2 = gpc_per_qubit['u2']
    n_u3 = gpc_per_qubit['u3']
    if gpc_per_qubit.get('cx', 0) > 0:
        raise QiskitError('Two qubit gate is included in the RB sequence.')
    return {'u1': 0, 'u2': epc_1q / (n_u2 + 2 * n_u3), 'u3': 2 * epc_1q / (n_u2 + 2 * n_u3)}

def calculate_2q_epg(gate_per_cliff: Dict[int, Dict[str, float]], epc_2q: float, qubit_pair: List[int], list_epgs_1q: Optional[List[Dict[str, float]]]=None, two_qubit_name: Optional[str]='cx') -> float:
    list_epgs_1q = list_epgs_1q or []
    if len(qubit_pair) != 2:
        raise QiskitError('Number of qubit is not 2.')
    for qubit in qubit_pair:
        if qubit not in gate_per_cliff:
            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
    alpha_1q = [1.0, 1.0]
    for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
        gpc_per_qubit = gate_per_cliff[qubit]
        for gate_name, epg in epg_1q.items():
            n_gate = gpc_per_qubit.get(gate_name, 0)
            alpha_1q[ind] *= (1 - 2 * epg) ** n_gate
    alpha_c_1q = 1 / 5 * (alpha_1q[0] + alpha_1q[1] + 3 * alpha_1q[0] * alpha_1q[1])
    alpha_c_2q = (1 - 4 / 3 * epc_2q) / alpha_c_1q
    n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
    if n_gate_2q > 0:
        return 3 / 4 * (1 - alpha_c_2q) / n_gate_2q
    raise QiskitError('Two qubit gate %s is not included in the `gate_per_cliff`. Set correct `two_qubit_name` or use 2Q RB gate count.' % two_qubit_name)

def calculate_1q_epc(gate_per_cliff: Dict[int, Dict[str, float]], epg_1q: Dict[str, float], qubit: int) -> float:
    if qubit not in gate_per_cliff:
        raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
    fid = 1
    gpc_per_qubit = gate_per_cliff[qubit]
    for gate_name, epg in epg_1q.items():
        n_gate = gpc_per_qubit.get(gate_name, 0)
        fid *= (1 - epg) ** n_gate
    return 1 - fid

def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]], epg_2q: float, qubit_pair: List[int], list_epgs_1q: List[Dict[str, float]], two_qubit_name: Optional[str]='cx') -> float:
    if len(qubit_pair) != 2:
        raise QiskitError('Number of qubit is not 2.')
    for qubit in qubit_pair:
        if qubit not in gate_per_cliff:
            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
    n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
    if n_gate_2q == 0:
        raise QiskitError('Two qubit gate %s is not included in the `gate_per_cliff`. Set correct `two_qubit_name` or use 2Q RB gate count.' % two_qubit_name)
    alpha_1q = [1.0, 1.0]
    alpha_2q = (1 - 4 / 3 * epg_2q) ** n_gate_2q
    for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
        gpc_per_qubit = gate_per_cliff[qubit]
        for gate_name, epg in epg_1q.items():
            n_gate = gpc_per_qubit.get(gate_name, 0)
            alpha_1q[ind] *= (1 - 2 * epg) ** n_gate
    alpha_c_2q = 1 / 5 * (alpha_1q[0] + alpha_1q[1] + 3 * alpha_1q[0] * alpha_1q[1]) * alpha_2q
    return 3 / 4 * (1 - alpha_c_2q)
