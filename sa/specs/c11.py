import copy
import numpy as np
from qiskit import QuantumCircuit
from qiskit.converters.circuit_to_dag import circuit_to_dag
from qiskit.converters.dag_to_circuit import dag_to_circuit
from qiskit.compiler import transpile
from qiskit.ignis.verification.accreditation.qotp import (
    layer_parser, QOTP_fromlayers, QOTPCorrectCounts)


@of('qotp.layer_parser', given={'two_qubit_gate': 'cx'})
@of('qotp.layer_parser', given={'two_qubit_gate': 'cz'})
def parse(circ, two_qubit_gate='cx', coupling_map=None):
    internal = transpile(circ, optimization_level=2, basis_gates=['u1', 'u2', 'u3', 'cx'],
                         coupling_map=coupling_map)
    qregs = internal.qregs[0]
    cregs = internal.cregs[0]
    single = [QuantumCircuit(qregs, cregs), QuantumCircuit(qregs, cregs)]
    double = [QuantumCircuit(qregs, cregs)]
    meas = QuantumCircuit(qregs, cregs)
    busy = []
    for layer in circuit_to_dag(internal).layers():
        for elem, qsub, csub in dag_to_circuit(layer['graph']):
            n = elem.name
            if n == 'barrier':
                if busy != []:
                    single.append(QuantumCircuit(qregs, cregs))
                    double.append(QuantumCircuit(qregs, cregs))
                    busy = []
                single[-2].append(elem, qsub, csub)
            elif n in ('u1', 'u2', 'u3'):
                if qsub[0] in busy:
                    single[-1].append(elem, qsub, csub)
                else:
                    single[-2].append(elem, qsub, csub)
            elif n == 'cx':
                if qsub[0] in busy or qsub[1] in busy:
                    single.append(QuantumCircuit(qregs, cregs))
                    double.append(QuantumCircuit(qregs, cregs))
                    busy = []
                if two_qubit_gate == 'cx':
                    double[-1].cx(qsub[0], qsub[1])
                elif two_qubit_gate == 'cz':
                    double[-1].cz(qsub[0], qsub[1])
                    single[-1].h(qsub[1])
                    single[-2].h(qsub[1])
                else:
                    raise ValueError
                busy.append(qsub[0])
                busy.append(qsub[1])
            elif n == 'measure':
                meas.append(elem, qsub, csub)
            else:
                raise ValueError
    if busy == []:
        del single[-1]
        del double[-1]
    for k, layer in enumerate(single):
        single[k] = transpile(layer, basis_gates=['u1', 'u2', 'u3'])
    return {'singlequbitlayers': single, 'twoqubitlayers': double, 'measlayer': meas,
            'twoqubitgate': two_qubit_gate, 'qregs': qregs, 'cregs': cregs}


@of('qotp.QOTP_fromlayers')
def fromlayers(layers, rng):
    qregs = layers['qregs']
    cregs = layers['cregs']
    out = QuantumCircuit(qregs, cregs)
    temp = QuantumCircuit(qregs, cregs)
    zs = rng.randint(2, size=len(qregs))
    for k, q in enumerate(qregs):
        if zs[k]:
            temp.z(q)
    for lnum, gates in enumerate(layers['twoqubitlayers']):
        temp = temp + layers['singlequbitlayers'][lnum]
        zs = rng.randint(2, size=len(qregs))
        xs = rng.randint(2, size=len(qregs))
        for k, q in enumerate(qregs):
            if zs[k]:
                temp.z(q)
            if xs[k]:
                temp.x(q)
        temp = transpile(temp, basis_gates=['u1', 'u2', 'u3'])
        out = out + temp
        temp = QuantumCircuit(qregs, cregs)
        out.barrier()
        out = out + gates
        out.barrier()
        pairs = []
        for _, qsub, _ in gates:
            pairs.append([qsub[0].index, qsub[1].index])
        for pair in pairs:
            if layers['twoqubitgate'] == 'cx':
                zs[pair[0]] = (zs[pair[0]] + zs[pair[1]]) % 2
                xs[pair[1]] = (xs[pair[1]] + xs[pair[0]]) % 2
            elif layers['twoqubitgate'] == 'cz':
                zs[pair[0]] = (zs[pair[0]] + xs[pair[1]]) % 2
                zs[pair[1]] = (zs[pair[1]] + xs[pair[0]]) % 2
            else:
                raise ValueError
        for k, q in enumerate(qregs):
            if xs[k]:
                temp.x(q)
            if zs[k]:
                temp.z(q)
    temp = temp + layers['singlequbitlayers'][-1]
    zs = rng.randint(2, size=len(qregs))
    xs = rng.randint(2, size=len(qregs))
    for k, q in enumerate(qregs):
        if zs[k]:
            temp.z(q)
        if xs[k]:
            temp.x(q)
    temp = transpile(temp, basis_gates=['u1', 'u2', 'u3'])
    out = out + temp
    postp = np.zeros(len(cregs), dtype=int)
    for _, qsub, csub in layers['measlayer']:
        postp[csub[0].index] = xs[qsub[0].index]
    out = out + layers['measlayer']
    return out, np.flip(postp)


@of('qotp.QOTP', no_inline=('layer_parser', 'QOTP_fromlayers'))
def qotp(circ, num, two_qubit_gate='cx', coupling_map=None, seed=None):
    rng = np.random.RandomState(seed)
    layers = layer_parser(circ, two_qubit_gate=two_qubit_gate, coupling_map=coupling_map)
    circs = []
    postps = []
    for _ in range(num):
        c, p = QOTP_fromlayers(layers, rng)
        circs.append(c)
        postps.append(p)
    return circs, postps


@of('qotp.QOTPCorrectCounts')
def correct(qotp_counts, qotp_postp):
    out = {}
    for key, val in qotp_counts.items():
        bits = [1 if k == '1' else 0 for k in key]
        bits = [(k + s) % 2 for k, s in zip(bits, qotp_postp)]
        out[''.join([str(k) for k in bits])] = val
    return out


# ------------------------------------------------------------------ traps

@of('AccreditationCircuits.__init__', no_inline=('target_circuit', 'layer_parser'))
def ac_init(self, target_circ, two_qubit_gate='cx', coupling_map=None, seed=None):
    self._rng = np.random.RandomState(seed)
    self.target_circuit(target_circ, two_qubit_gate=two_qubit_gate, coupling_map=coupling_map)


@of('AccreditationCircuits.target_circuit', no_inline=('layer_parser',))
def ac_target(self, target_circ, two_qubit_gate='cx', coupling_map=None):
    self.target = copy.deepcopy(target_circ)
    self.layers = layer_parser(copy.deepcopy(target_circ), two_qubit_gate=two_qubit_gate,
                               coupling_map=coupling_map)


@of('AccreditationCircuits.generate_circuits', no_inline=('_routine_two', 'QOTP_fromlayers'))
def ac_gen(self, num_trap):
    v_zero = self._rng.randint(0, num_trap + 1)
    circs = []
    postps = []
    layers = copy.deepcopy(self.layers)
    for k in range(num_trap + 1):
        if k == v_zero:
            layers = copy.deepcopy(self.layers)
        else:
            layers['singlequbitlayers'] = self._routine_two()
        c, p = QOTP_fromlayers(layers, self._rng)
        circs.append(c)
        postps.append(p)
    return circs, postps, v_zero


@of('AccreditationCircuits._routine_two')
def ac_trap(self):
    qregs = self.layers['qregs']
    cregs = self.layers['cregs']
    traps = [QuantumCircuit(qregs, cregs) for j in range(len(self.layers['twoqubitlayers']) + 1)]
    basis = self._rng.randint(2)
    if basis:
        for q in self.layers['qregs']:
            traps[0].h(q)
    for layer, gates in enumerate(self.layers['twoqubitlayers']):
        used = []
        for _, qsub, _ in gates:
            used.extend(qsub)
            gate = self.layers['twoqubitgate']
            if gate == 'cx':
                if self._rng.randint(2):
                    traps[layer].h(qsub[0])
                    traps[layer + 1].h(qsub[0])
                    traps[layer].s(qsub[1])
                    traps[layer].h(qsub[1])
                    traps[layer + 1].h(qsub[1])
                    traps[layer + 1].sdg(qsub[1])
                else:
                    traps[layer].s(qsub[0])
                    traps[layer + 1].sdg(qsub[0])
            elif gate == 'cz':
                if self._rng.randint(2):
                    traps[layer].h(qsub[0])
                    traps[layer + 1].h(qsub[0])
                    traps[layer].s(qsub[1])
                    traps[layer + 1].sdg(qsub[1])
                else:
                    traps[layer].s(qsub[0])
                    traps[layer + 1].sdg(qsub[0])
                    traps[layer].h(qsub[1])
                    traps[layer + 1].h(qsub[1])
            else:
                raise ValueError
        for q in self.layers['qregs']:
            if q not in used:
                if self._rng.randint(2):
                    traps[layer].h(q)
                    traps[layer + 1].h(q)
                else:
                    traps[layer].s(q)
                    traps[layer + 1].sdg(q)
    if basis:
        for q in self.layers['qregs']:
            traps[-1].h(q)
    return traps


# ------------------------------------------------------------------ fitter

@of('AccreditationFitter.single_protocol_run', no_inline=('QOTPCorrectCounts',))
def af_run(self, results, postp_list, v_zero):
    self.num_runs = self.num_runs + 1
    self.flag = 'accepted'
    if self.num_runs == 1:
        self.num_traps = len(postp_list) - 1
    elif len(postp_list) - 1 != self.num_traps:
        raise ValueError
    if self.num_traps < 3:
        raise ValueError
    strings = []
    for k, postp in enumerate(postp_list):
        counts = QOTPCorrectCounts(results.get_counts(k), postp)
        shots = 0
        string = None
        for string, val in counts.items():
            shots += val
        if shots != 1 or string is None:
            raise ValueError
        strings.append(string)
    for k, string in enumerate(strings):
        if k != v_zero:
            if string != '0'*len(string):
                self.flag = 'rejected'
        else:
            target = string
    if self.flag == 'accepted':
        self.N_acc += 1
        self.outputs.append(target)


@of('AccreditationFitter.bound_variation_distance', attrs=('bound',))
def af_bound(self, theta):
    if self.N_acc == 0:
        raise ValueError
    if self.N_acc/self.num_runs > theta:
        self.bound = (self.g_num*1.7/(self.num_traps + 1)/(self.N_acc/self.num_runs - theta)
                      + 1 - self.g_num)
    else:
        self.bound = 1
    if self.bound > 1:
        self.bound = 1


@of('AccreditationFitter.__init__')
def af_init(self):
    self.outputs = []
