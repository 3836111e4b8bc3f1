import copy
import numpy as np
from qiskit import QuantumCircuit
from qiskit.exceptions import QiskitError
from .qotp import layer_parser, QOTP_fromlayers

class AccreditationCircuits:

    def __init__(self, target_circ, two_qubit_gate='cx', coupling_map=None, seed=None):
        self._rng = np.random.RandomState(seed)
        self.target_circuit(target_circ, two_qubit_gate=two_qubit_gate, coupling_map=coupling_map)

    def target_circuit(self, target_circ, two_qubit_gate='cx', coupling_map=None):
        self.target = copy.deepcopy(target_circ)
        self.layers = layer_parser(self.target, two_qubit_gate=two_qubit_gate, coupling_map=coupling_map)

    def generate_circuits(self, num_trap):
        v_zero = self._rng.randint(0, num_trap + 1)
        circuit_list = []
        postp_list = []
        testlayers = copy.deepcopy(self.layers)
        for k in range(num_trap + 1):
            if k == v_zero:
                testlayers = copy.deepcopy(self.layers)
            else:
                testlayers['singlequbitlayers'] = self._routine_two()
            circ, postp = QOTP_fromlayers(testlayers, self._rng)
            circuit_list.append(circ)
            postp_list.append(postp)
        return (circuit_list, postp_list, v_zero)

    def _routine_two(self):
        qregs = self.layers['qregs']
        cregs = self.layers['cregs']
        nlayers = len(self.layers['twoqubitlayers']) + 1
        gate_trap = [QuantumCircuit(qregs, cregs) for j in range(nlayers)]
        basis = self._rng.randint(2)
        if basis:
            for q in self.layers['qregs']:
                gate_trap[0].h(q)
        for layer, gates2q in enumerate(self.layers['twoqubitlayers']):
            regs2q = []
            for _, qsub, _ in gates2q:
                regs2q.extend(qsub)
                g2q = self.layers['twoqubitgate']
                if g2q == 'cx':
                    if self._rng.randint(2):
                        gate_trap[layer].h(qsub[0])
                        gate_trap[layer + 1].h(qsub[0])
                        gate_trap[layer].s(qsub[1])
                        gate_trap[layer].h(qsub[1])
                        gate_trap[layer + 1].h(qsub[1])
                        gate_trap[layer + 1].sdg(qsub[1])
                    else:
                        gate_trap[layer].s(qsub[0])
                        gate_trap[layer + 1].sdg(qsub[0])
                elif g2q == 'cz':
                    if self._rng.randint(2):
                        gate_trap[layer].h(qsub[0])
                        gate_trap[layer + 1].h(qsub[0])
                        gate_trap[layer].s(qsub[1])
                        gate_trap[layer + 1].sdg(qsub[1])
                    else:
                        gate_trap[layer].s(qsub[0])
                        gate_trap[layer + 1].sdg(qsub[0])
                        gate_trap[layer].h(qsub[1])
                        gate_trap[layer + 1].h(qsub[1])
                else:
                    raise QiskitError('Two qubit gate {0}is not implementedin accreditation circuits'.format(g2q))
            for q in self.layers['qregs']:
                if q not in regs2q:
                    if self._rng.randint(2):
                        gate_trap[layer].h(q)
                        gate_trap[layer + 1].h(q)
                    else:
                        gate_trap[layer].s(q)
                        gate_trap[layer + 1].sdg(q)
        if basis:
            for q in self.layers['qregs']:
                gate_trap[-1].h(q)
        return gate_trap
