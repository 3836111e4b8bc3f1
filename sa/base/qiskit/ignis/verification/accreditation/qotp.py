import numpy as np
from qiskit import QuantumCircuit
from qiskit.converters.circuit_to_dag import circuit_to_dag
from qiskit.converters.dag_to_circuit import dag_to_circuit
from qiskit.compiler import transpile
from qiskit.exceptions import QiskitError

def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
    circ_internal = transpile(circ, optimization_level=2, basis_gates=['u1', 'u2', 'u3', 'cx'], coupling_map=coupling_map)
    qregs = circ_internal.qregs[0]
    cregs = circ_internal.cregs[0]
    singlequbitlayers = [QuantumCircuit(qregs, cregs), QuantumCircuit(qregs, cregs)]
    twoqubitlayers = [QuantumCircuit(qregs, cregs)]
    measlayer = QuantumCircuit(qregs, cregs)
    current2qs = []
    dag_internal = circuit_to_dag(circ_internal)
    for dag_layer in dag_internal.layers():
        circuit_layer = dag_to_circuit(dag_layer['graph'])
        for circelem, qsub, csub in circuit_layer:
            n = circelem.name
            if n == 'barrier':
                if current2qs != []:
                    singlequbitlayers.append(QuantumCircuit(qregs, cregs))
                    twoqubitlayers.append(QuantumCircuit(qregs, cregs))
                    current2qs = []
                singlequbitlayers[-2].append(circelem, qsub, csub)
            elif n in ('u1', 'u2', 'u3'):
                q = qsub[0]
                if q in current2qs:
                    singlequbitlayers[-1].append(circelem, qsub, csub)
                else:
                    singlequbitlayers[-2].append(circelem, qsub, csub)
            elif n == 'cx':
                q_0 = qsub[0]
                q_1 = qsub[1]
                if q_0 in current2qs or q_1 in current2qs:
                    singlequbitlayers.append(QuantumCircuit(qregs, cregs))
                    twoqubitlayers.append(QuantumCircuit(qregs, cregs))
                    current2qs = []
                if two_qubit_gate == 'cx':
                    twoqubitlayers[-1].cx(q_0, q_1)
                elif two_qubit_gate == 'cz':
                    twoqubitlayers[-1].cz(q_0, q_1)
                    singlequbitlayers[-1].h(qsub[1])
                    singlequbitlayers[-2].h(qsub[1])
                else:
                    raise QiskitError('Two qubit gate {0}'.format(two_qubit_gate) + ' is not implemented in qotp')
                current2qs.append(q_0)
                current2qs.append(q_1)
            elif n == 'measure':
                measlayer.append(circelem, qsub, csub)
            else:
                raise QiskitError('Circuit element {0}'.format(n) + ' is not implemented in qotp')
    if current2qs == []:
        del singlequbitlayers[-1]
        del twoqubitlayers[-1]
    for ind, circlayer in enumerate(singlequbitlayers):
        singlequbitlayers[ind] = transpile(circlayer, basis_gates=['u1', 'u2', 'u3'])
    parsedlayers = {'singlequbitlayers': singlequbitlayers, 'twoqubitlayers': twoqubitlayers, 'measlayer': measlayer, 'twoqubitgate': two_qubit_gate, 'qregs': qregs, 'cregs': cregs}
    return parsedlayers

def QOTP_fromlayers(layers, rng):
    qregs = layers['qregs']
    cregs = layers['cregs']
    twoqubitgate = layers['twoqubitgate']
    qotp_circ = QuantumCircuit(qregs, cregs)
    temp_circ = QuantumCircuit(qregs, cregs)
    paulizs = rng.randint(2, size=len(qregs))
    for qind, q in enumerate(qregs):
        if paulizs[qind]:
            temp_circ.z(q)
    for lnum, gates2q in enumerate(layers['twoqubitlayers']):
        temp_circ = temp_circ + layers['singlequbitlayers'][lnum]
        paulizs = rng.randint(2, size=len(qregs))
        paulixs = rng.randint(2, size=len(qregs))
        for qind, q in enumerate(qregs):
            if paulizs[qind]:
                temp_circ.z(q)
            if paulixs[qind]:
                temp_circ.x(q)
        temp_circ = transpile(temp_circ, basis_gates=['u1', 'u2', 'u3'])
        qotp_circ = qotp_circ + temp_circ
        temp_circ = QuantumCircuit(qregs, cregs)
        qotp_circ.barrier()
        qotp_circ = qotp_circ + gates2q
        qotp_circ.barrier()
        twoqindices = []
        for _, qsub, _ in gates2q:
            twoqindices.append([qsub[0].index, qsub[1].index])
        for inds in twoqindices:
            if twoqubitgate == 'cx':
                paulizs[inds[0]] = (paulizs[inds[0]] + paulizs[inds[1]]) % 2
                paulixs[inds[1]] = (paulixs[inds[1]] + paulixs[inds[0]]) % 2
            elif twoqubitgate == 'cz':
                paulizs[inds[0]] = (paulizs[inds[0]] + paulixs[inds[1]]) % 2
                paulizs[inds[1]] = (paulizs[inds[1]] + paulixs[inds[0]]) % 2
            else:
                raise QiskitError('Two qubit gate {0}'.format(twoqubitgate) + 'is not implemented in qotp')
        for qind, q in enumerate(qregs):
            if paulixs[qind]:
                temp_circ.x(q)
            if paulizs[qind]:
                temp_circ.z(q)
    temp_circ = temp_circ + layers['singlequbitlayers'][-1]
    paulizs = rng.randint(2, size=len(qregs))
    paulixs = rng.randint(2, size=len(qregs))
    for qind, q in enumerate(qregs):
        if paulizs[qind]:
            temp_circ.z(q)
        if paulixs[qind]:
            temp_circ.x(q)
    temp_circ = transpile(temp_circ, basis_gates=['u1', 'u2', 'u3'])
    qotp_circ = qotp_circ + temp_circ
    postp = np.zeros(len(cregs), dtype=int)
    for _, qsub, csub in layers['measlayer']:
        postp[csub[0].index] = paulixs[qsub[0].index]
    qotp_postp = np.flip(postp)
    qotp_circ = qotp_circ + layers['measlayer']
    return (qotp_circ, qotp_postp)

def QOTP(circ, num, two_qubit_gate='cx', coupling_map=None, seed=None):
    rng = np.random.RandomState(seed)
    layers = layer_parser(circ, two_qubit_gate=two_qubit_gate, coupling_map=coupling_map)
    qotp_circs = []
    qotp_postps = []
    for _ in range(num):
        circ, postp = QOTP_fromlayers(layers, rng)
        qotp_circs.append(circ)
        qotp_postps.append(postp)
    return (qotp_circs, qotp_postps)

def QOTPCorrectCounts(qotp_counts, qotp_postp):
    counts_out = {}
    for key, val in qotp_counts.items():
        keyshift = [1 if k == '1' else 0 for k in key]
        keyshift = [(k + s) % 2 for k, s in zip(keyshift, qotp_postp)]
        keyshift = ''.join([str(k) for k in keyshift])
        counts_out[keyshift] = val
    return counts_out
