from itertools import combinations
from functools import reduce
from re import match
from typing import Dict, Union, List
import numpy as np

def marginal_counts(counts: Dict[str, int], meas_qubits: Union[bool, List[int]]=True, pad_zeros: bool=False) -> Dict[str, int]:
    num_qubits = len(next(iter(counts)).replace(' ', ''))
    if meas_qubits is True or num_qubits == len(meas_qubits):
        ret = {}
        for key, val in counts.items():
            key = key.replace(' ', '')
            ret[key] = val
        return ret
    if meas_qubits is True:
        meas_qubits = range(num_qubits)
    qubits = sorted(meas_qubits, reverse=True)
    meas_keys = count_keys(len(qubits))
    rgx = []
    for key in meas_keys:

        def helper(x, y):
            if y in qubits:
                return key[qubits.index(y)] + x
            return '\\d' + x
        rgx.append(reduce(helper, range(num_qubits), ''))
    meas_counts = []
    for m in rgx:
        c = 0
        for key, val in counts.items():
            if match(m, key.replace(' ', '')):
                c += val
        meas_counts.append(c)
    if pad_zeros is True:
        return dict(zip(meas_keys, meas_counts))
    ret = {}
    for key, val in zip(meas_keys, meas_counts):
        if val != 0:
            ret[key] = val
    return ret

def count_keys(num_qubits: int) -> List[str]:
    return [bin(j)[2:].zfill(num_qubits) for j in range(2 ** num_qubits)]

def combine_counts(counts1: Dict[str, int], counts2: Dict[str, int]) -> Dict[str, int]:
    ret = dict(counts1)
    for key, val in counts2.items():
        if key in ret:
            ret[key] += val
        else:
            ret[key] = val
    return ret

def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
    shots = np.sum(list(counts.values()))
    numq = len(list(counts.keys())[0])
    subsets = []
    for r in range(numq):
        subsets += list(combinations(range(numq), r + 1))
    exp_data = {numq * '0': shots}
    for subset in subsets:
        exp_counts = 0
        exp_op = numq * ['0']
        for qubit in subset:
            exp_op[numq - 1 - qubit] = '1'
        for key, val in marginal_counts(counts, subset, pad_zeros=True).items():
            exp_counts += (-1) ** key.count('1') * val
        exp_data[''.join(exp_op)] = exp_counts
    return exp_data
