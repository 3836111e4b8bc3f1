import copy
from typing import List, Optional, Union
from warnings import warn
import numpy as np
from numpy.random import RandomState
import qiskit
from qiskit.circuit import QuantumCircuit, Instruction
from .rb_groups import RBgroup
from .dihedral import CNOTDihedral

def handle_length_multiplier(length_multiplier, len_pattern, is_purity=False):
    if hasattr(length_multiplier, '__len__'):
        if is_purity:
            raise ValueError('In case of Purity RB the length multiplier should be None')
        if len(length_multiplier) != len_pattern:
            raise ValueError('Length multiplier must be the same length as the pattern')
        length_multiplier = np.array(length_multiplier)
        if length_multiplier.dtype != 'int' or (length_multiplier < 1).any():
            raise ValueError('Invalid length multiplier')
    else:
        length_multiplier = np.ones(len_pattern, dtype='int') * length_multiplier
    return length_multiplier

def check_pattern(pattern, is_purity=False, interleaved_elem=None):
    pattern_flat = []
    pattern_dim = []
    for pat in pattern:
        pattern_flat.extend(pat)
        pattern_dim.append(len(pat))
    _, uni_counts = np.unique(np.array(pattern_flat), return_counts=True)
    if (uni_counts > 1).any():
        raise ValueError('Invalid pattern. Duplicate qubit index.')
    dim_distinct = np.unique(pattern_dim)
    if is_purity:
        if len(dim_distinct) > 1:
            raise ValueError('Invalid pattern for purity RB.             All simultaneous sequences should have the same dimension.')
    interleaved_dim = []
    if interleaved_elem is not None:
        for elem in interleaved_elem:
            interleaved_dim.append(elem.num_qubits)
        if pattern_dim != interleaved_dim:
            raise ValueError('Invalid pattern for interleaved RB.')
    return (pattern_flat, np.max(pattern_flat).item(), np.max(pattern_dim))

def handle_interleaved_elem(interleaved_elem, rb_group):
    group_gates_type = rb_group.group_gates_type()
    interleaved_elem_list = []
    if interleaved_elem is None:
        return None
    else:
        for elem in interleaved_elem:
            if isinstance(elem, (QuantumCircuit, Instruction)):
                num_qubits = elem.num_qubits
                qc = elem
                elem = rb_group.iden(num_qubits)
                elem = elem.from_circuit(qc)
            if isinstance(elem, qiskit.quantum_info.operators.symplectic.clifford.Clifford) and group_gates_type == 0 or (isinstance(elem, CNOTDihedral) and group_gates_type == 1):
                interleaved_elem_list.append(elem)
            else:
                raise ValueError('Invalid interleaved element type.')
            if not isinstance(elem, QuantumCircuit) and (not isinstance(elem, qiskit.quantum_info.operators.symplectic.clifford.Clifford)) and (not isinstance(elem, CNOTDihedral)):
                raise ValueError('Invalid interleaved element type. interleaved_elem should be a list of QuantumCircuit,or a list of Clifford / CNOTDihedral objects')
    return interleaved_elem_list

def calc_xdata(length_vector, length_multiplier):
    xdata = []
    for mult in length_multiplier:
        xdata.append(np.array(length_vector) * mult)
    return np.array(xdata)

def randomized_benchmarking_seq(nseeds: int=1, length_vector: Optional[List[int]]=None, rb_pattern: Optional[List[List[int]]]=None, length_multiplier: Optional[List[int]]=1, seed_offset: int=0, align_cliffs: bool=False, interleaved_gates: Optional[List[List[str]]]=None, interleaved_elem: Optional[Union[List[QuantumCircuit], List[Instruction], List[qiskit.quantum_info.operators.symplectic.Clifford], List[CNOTDihedral]]]=None, is_purity: bool=False, group_gates: Optional[str]=None, rand_seed: Optional[Union[int, RandomState]]=None) -> (List[List[QuantumCircuit]], List[List[int]], Optional[List[List[QuantumCircuit]]], Optional[List[List[List[QuantumCircuit]]]], Optional[int]):
    if interleaved_gates is not None:
        warn('`interleaved_gates` kwarg is deprecated. Please use the `interleaved_elem` kwarg that supersedes it.', category=DeprecationWarning)
    if rb_pattern is None:
        rb_pattern = [[0]]
    if length_vector is None:
        length_vector = [1, 10, 20]
    qlist_flat, n_q_max, max_dim = check_pattern(rb_pattern, is_purity, interleaved_elem)
    length_multiplier = handle_length_multiplier(length_multiplier, len(rb_pattern), is_purity)
    npurity = 3 ** max_dim
    xdata = calc_xdata(length_vector, length_multiplier)
    pattern_sizes = [len(pat) for pat in rb_pattern]
    rb_group = RBgroup(group_gates)
    group_gates_type = rb_group.group_gates_type()
    rb_circ_type = rb_group.rb_circ_type()
    interleaved_elem = handle_interleaved_elem(interleaved_elem, rb_group)
    circuits = [[] for e in range(nseeds)]
    circuits_interleaved = [[] for e in range(nseeds)]
    circuits_cnotdihedral = [[] for e in range(nseeds)]
    circuits_cnotdihedral_interleaved = [[] for e in range(nseeds)]
    circuits_purity = [[[] for d in range(npurity)] for e in range(nseeds)]
    for seed in range(nseeds):
        qr = qiskit.QuantumRegister(n_q_max + 1, 'qr')
        cr = qiskit.ClassicalRegister(len(qlist_flat), 'cr')
        general_circ = QuantumCircuit(qr, cr)
        interleaved_circ = QuantumCircuit(qr, cr)
        Elmnts = []
        for rb_q_num in pattern_sizes:
            Elmnts.append(rb_group.iden(rb_q_num))
        Elmnts_interleaved = []
        for rb_q_num in pattern_sizes:
            Elmnts_interleaved.append(rb_group.iden(rb_q_num))
        length_index = 0
        for elmnts_index in range(length_vector[-1]):
            for rb_pattern_index, rb_q_num in enumerate(pattern_sizes):
                for _ in range(length_multiplier[rb_pattern_index]):
                    if rand_seed is not None:
                        rand_seed += seed + 1
                    new_elmnt = rb_group.random(rb_q_num, rand_seed)
                    Elmnts[rb_pattern_index] = rb_group.compose(Elmnts[rb_pattern_index], new_elmnt)
                    general_circ += replace_q_indices(rb_group.to_circuit(new_elmnt), rb_pattern[rb_pattern_index], qr)
                    general_circ.barrier(*[qr[x] for x in rb_pattern[rb_pattern_index]])
                    if interleaved_elem is not None:
                        Elmnts_interleaved[rb_pattern_index] = rb_group.compose(Elmnts_interleaved[rb_pattern_index], new_elmnt)
                        interleaved_circ += replace_q_indices(rb_group.to_circuit(new_elmnt), rb_pattern[rb_pattern_index], qr)
                        Elmnts_interleaved[rb_pattern_index] = rb_group.compose(Elmnts_interleaved[rb_pattern_index], interleaved_elem[rb_pattern_index])
                        interleaved_circ.barrier(*[qr[x] for x in rb_pattern[rb_pattern_index]])
                        interleaved_circ += replace_q_indices(rb_group.to_circuit(interleaved_elem[rb_pattern_index]), rb_pattern[rb_pattern_index], qr)
                        interleaved_circ.barrier(*[qr[x] for x in rb_pattern[rb_pattern_index]])
            if align_cliffs:
                general_circ.barrier(*[qr[x] for x in qlist_flat])
                if interleaved_elem is not None:
                    interleaved_circ.barrier(*[qr[x] for x in qlist_flat])
            if elmnts_index + 1 == length_vector[length_index]:
                circ = QuantumCircuit(qr, cr)
                circ += general_circ
                circ_interleaved = QuantumCircuit(qr, cr)
                circ_interleaved += interleaved_circ
                for rb_pattern_index, rb_q_num in enumerate(pattern_sizes):
                    inv_circuit = rb_group.inverse(Elmnts[rb_pattern_index])
                    circ += replace_q_indices(inv_circuit, rb_pattern[rb_pattern_index], qr)
                    if interleaved_elem is not None:
                        inv_circuit_interleaved = rb_group.inverse(Elmnts_interleaved[rb_pattern_index])
                        circ_interleaved += replace_q_indices(inv_circuit_interleaved, rb_pattern[rb_pattern_index], qr)
                if is_purity:
                    circ_purity = [[] for d in range(npurity)]
                    for d in range(npurity):
                        circ_purity[d] = QuantumCircuit(qr, cr)
                        circ_purity[d] += circ
                        circ_purity[d].name = rb_circ_type + '_purity_'
                        ind_d = d
                        purity_qubit_num = 0
                        while True:
                            purity_qubit_rot = np.mod(ind_d, 3)
                            ind_d = np.floor_divide(ind_d, 3)
                            if purity_qubit_rot == 0:
                                circ_purity[d].name += 'Z'
                            if purity_qubit_rot == 1:
                                for pat in rb_pattern:
                                    circ_purity[d].rx(np.pi / 2, qr[pat[purity_qubit_num]])
                                circ_purity[d].name += 'X'
                            if purity_qubit_rot == 2:
                                for pat in rb_pattern:
                                    circ_purity[d].ry(np.pi / 2, qr[pat[purity_qubit_num]])
                                circ_purity[d].name += 'Y'
                            purity_qubit_num = purity_qubit_num + 1
                            if ind_d == 0:
                                break
                        for _ in range(max_dim - purity_qubit_num):
                            circ_purity[d].name += 'Z'
                        for qind, qb in enumerate(qlist_flat):
                            circ_purity[d].measure(qr[qb], cr[qind])
                        circ_purity[d].name += '_length_%d_seed_%d' % (length_index, seed + seed_offset)
                cnotdihedral_circ = QuantumCircuit(qr, cr)
                cnotdihedral_interleaved_circ = QuantumCircuit(qr, cr)
                if group_gates_type == 1:
                    for _, qb in enumerate(qlist_flat):
                        cnotdihedral_circ.h(qr[qb])
                        cnotdihedral_circ.barrier(qr[qb])
                        cnotdihedral_interleaved_circ.h(qr[qb])
                        cnotdihedral_interleaved_circ.barrier(qr[qb])
                    cnotdihedral_circ += circ
                    cnotdihedral_interleaved_circ += circ_interleaved
                    for _, qb in enumerate(qlist_flat):
                        cnotdihedral_circ.barrier(qr[qb])
                        cnotdihedral_circ.h(qr[qb])
                        cnotdihedral_interleaved_circ.barrier(qr[qb])
                        cnotdihedral_interleaved_circ.h(qr[qb])
                    for qind, qb in enumerate(qlist_flat):
                        cnotdihedral_circ.measure(qr[qb], cr[qind])
                        cnotdihedral_interleaved_circ.measure(qr[qb], cr[qind])
                for qind, qb in enumerate(qlist_flat):
                    circ.measure(qr[qb], cr[qind])
                    circ_interleaved.measure(qr[qb], cr[qind])
                circ.name = rb_circ_type + '_length_%d_seed_%d' % (length_index, seed + seed_offset)
                circ_interleaved.name = rb_circ_type + '_interleaved_length_%d_seed_%d' % (length_index, seed + seed_offset)
                if group_gates_type == 1:
                    circ.name = rb_circ_type + '_Z_length_%d_seed_%d' % (length_index, seed + seed_offset)
                    circ_interleaved.name = rb_circ_type + '_interleaved_Z_length_%d_seed_%d' % (length_index, seed + seed_offset)
                    cnotdihedral_circ.name = rb_circ_type + '_X_length_%d_seed_%d' % (length_index, seed + seed_offset)
                    cnotdihedral_interleaved_circ.name = rb_circ_type + '_interleaved_X_length_%d_seed_%d' % (length_index, seed + seed_offset)
                circuits[seed].append(circ)
                circuits_interleaved[seed].append(circ_interleaved)
                circuits_cnotdihedral[seed].append(cnotdihedral_circ)
                circuits_cnotdihedral_interleaved[seed].append(cnotdihedral_interleaved_circ)
                if is_purity:
                    for d in range(npurity):
                        circuits_purity[seed][d].append(circ_purity[d])
                length_index += 1
    if is_purity:
        return (circuits_purity, xdata, npurity)
    if interleaved_elem is not None and group_gates_type == 1:
        return (circuits, xdata, circuits_cnotdihedral, circuits_interleaved, circuits_cnotdihedral_interleaved)
    if interleaved_elem is not None:
        return (circuits, xdata, circuits_interleaved)
    if group_gates_type == 1:
        return (circuits, xdata, circuits_cnotdihedral)
    return (circuits, xdata)

def replace_q_indices(circuit, q_nums, qr):
    new_circuit = QuantumCircuit(qr)
    for instr, qargs, cargs in circuit.data:
        new_qargs = [qr[q_nums[x]] for x in [arg.index for arg in qargs]]
        new_op = copy.deepcopy((instr, new_qargs, cargs))
        new_circuit.data.append(new_op)
    return new_circuit
