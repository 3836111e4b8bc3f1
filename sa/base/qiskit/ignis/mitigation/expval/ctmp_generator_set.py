from itertools import combinations
from typing import List, Tuple
Generator = Tuple[str, str, Tuple[int]]

def standard_generator_set(num_qubits: int, pairs=None) -> List[Generator]:
    if not isinstance(num_qubits, int):
        raise ValueError('num_qubits needs to be an int')
    if num_qubits <= 0:
        raise ValueError('Need num_qubits at least 1')
    generators = []
    generators += single_qubit_bitstrings(num_qubits)
    if num_qubits > 1:
        generators += two_qubit_bitstrings_symmetric(num_qubits, pairs=pairs)
        generators += two_qubit_bitstrings_asymmetric(num_qubits, pairs=pairs)
        if len(generators) != 2 * num_qubits ** 2:
            raise ValueError('Incorrect length of generators. {} != 2n^2.'.format(len(generators)))
    return generators

def single_qubit_bitstrings(num_qubits: int) -> List[Generator]:
    res = [('1', '0', (i,)) for i in range(num_qubits)]
    res += [('0', '1', (i,)) for i in range(num_qubits)]
    if len(res) != 2 * num_qubits:
        raise ValueError('Should have gotten 2n qubits, got {}'.format(len(res)))
    return res

def two_qubit_bitstrings_symmetric(num_qubits: int, pairs=None) -> List[Generator]:
    if pairs is None:
        pairs = list(combinations(range(num_qubits), r=2))
    res = [('11', '00', (i, j)) for i, j in pairs if i < j]
    res += [('00', '11', (i, j)) for i, j in pairs if i < j]
    if len(res) != num_qubits * (num_qubits - 1):
        raise ValueError('Should have gotten n(n-1) qubits, got {}'.format(len(res)))
    return res

def two_qubit_bitstrings_asymmetric(num_qubits: int, pairs=None) -> List[Generator]:
    if pairs is None:
        pairs = list(combinations(range(num_qubits), r=2))
    res = [('10', '01', (i, j)) for i, j in pairs]
    res += [('10', '01', (j, i)) for i, j in pairs]
    if len(res) != num_qubits * (num_qubits - 1):
        raise ValueError('Should have gotten n(n-1) qubits, got {}'.format(len(res)))
    return res
