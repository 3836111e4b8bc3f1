from typing import Tuple, List, Dict
from qiskit.circuit import ClassicalRegister, QuantumRegister, Parameter
from qiskit.circuit import QuantumCircuit
from qiskit.compiler import transpile
from qiskit.circuit.library import U1Gate, U2Gate

class BConfig:

    def __init__(self, backend, indicator=True):
        self.nodes = {}
        self.backend = backend
        self.cmap = backend.configuration().coupling_map
        self._initialize_nodes()
        self.indicator = indicator

    def _initialize_nodes(self):
        self.nodes = {}
        for i in range(len(self._cmap_calib())):
            self.nodes[self._cmap_calib()[i][0]] = []
        for i in range(len(self._cmap_calib())):
            self.nodes[self._cmap_calib()[i][0]].append(self._cmap_calib()[i][1])

    def _cmap_calib(self):
        cmap_new = list(self.cmap)
        for a in self.cmap:
            if [a[1], a[0]] not in self.cmap:
                cmap_new.append([a[1], a[0]])
        cmap_new.sort(key=lambda x: x[0])
        return cmap_new

    def _get_best_node(self):
        best_node = 0
        for i in self.nodes:
            if len(self.nodes[i]) > len(self.nodes[best_node]):
                best_node = i
            else:
                pass
        return best_node

    def _indicator_off(self):
        self.indicator = False

    def _indicator_on(self):
        self.indicator = True

    def _get_cx_error(self):
        a = self.backend.properties().to_dict()['gates']
        cxerrordict = {}
        for i in a:
            if len(i['qubits']) == 1:
                continue
            if len(i['qubits']) == 2:
                b = tuple(i['qubits'])
                if b in cxerrordict.keys():
                    pass
                cxerrordict[b] = i['parameters'][0]['value']
                if (b[1], b[0]) not in cxerrordict.keys():
                    cxerrordict[b[1], b[0]] = i['parameters'][0]['value']
                else:
                    pass
        return cxerrordict

    def _get_cx_length(self) -> Dict:
        a = self.backend.properties().to_dict()['gates']
        cxlengthdict = {}
        for i in a:
            if len(i['qubits']) == 1:
                continue
            if len(i['qubits']) == 2:
                b = tuple(i['qubits'])
                if b in cxlengthdict.keys():
                    pass
                cxlengthdict[b] = i['parameters'][1]['value']
                if (b[1], b[0]) not in cxlengthdict.keys():
                    cxlengthdict[b[1], b[0]] = i['parameters'][1]['value']
                else:
                    pass
        return cxlengthdict

    def _child_sorter(self, children, parent):
        return sorted(children, key=lambda child: self._get_cx_error()[child, parent])

    def get_tier_dict(self) -> Dict:
        tier = {}
        tier_DM = {}
        length = len(self.nodes.keys())
        trashlist = []
        tier[0] = self._get_best_node()
        tier_DM[self._get_best_node()] = 0
        trashlist.append(self._get_best_node())
        parent = self._get_best_node()
        tier = {x: [[]] for x in range(length)}
        parentlist = []
        parentlist.append(parent)
        ii = 0
        while True:
            totalchildren = []
            for parent in parentlist:
                children = self.nodes[parent]
                if self.indicator:
                    children = self._child_sorter(children, parent)
                totalchildren += children
                children = [a for a in children if a not in trashlist]
                j = tier_DM[parent]
                for i, _ in enumerate(children):
                    tier[j] += [[parent, children[i]]]
                    tier_DM[children[i]] = j + 1
                    j += 1
                    trashlist.append(children[i])
                parentlist = totalchildren
            if len(trashlist) == length:
                break
            ii += 1
            if ii > 50:
                break
        newtier = {}
        for a in tier:
            if [] in tier[a]:
                tier[a].remove([])
        for a in tier:
            if tier[a] != []:
                newtier[a] = tier[a]
        tier = newtier
        return tier

    def get_ghz_layout(self, n: int, transpiled: bool=True, barriered: bool=True) -> Tuple[QuantumCircuit, Dict]:
        tierdict = self.get_tier_dict()
        q = QuantumRegister(n, 'q')
        circ = QuantumCircuit(q)
        circ.h(q[0])
        trashlist = []
        initial_layout = {}
        for a in tierdict:
            for aa in tierdict[a]:
                if aa[0] not in trashlist:
                    trashlist.append(aa[0])
                    trashindex = trashlist.index(aa[0])
                    initial_layout[q[trashindex]] = aa[0]
                else:
                    pass
                if aa[1] not in trashlist:
                    trashlist.append(aa[1])
                    trashindex = trashlist.index(aa[1])
                    initial_layout[q[trashindex]] = aa[1]
                else:
                    pass
                circ.cx(q[trashlist.index(aa[0])], q[trashlist.index(aa[1])])
                if len(trashlist) == n:
                    break
            if barriered:
                circ.barrier()
            if len(trashlist) == n:
                break
        if transpiled:
            circ = transpile(circ, backend=self.backend, initial_layout=initial_layout)
        return (circ, initial_layout)

    def get_measurement_circ(self, n: int, qregname: str, cregname: str, full_measurement: bool=True) -> QuantumCircuit:
        q = QuantumRegister(n, qregname)
        if full_measurement:
            cla = ClassicalRegister(n, cregname)
            meas = QuantumCircuit(q, cla)
            meas.barrier()
            meas.measure(q, cla)
            return meas
        cla = ClassicalRegister(1, cregname)
        meas = QuantumCircuit(q, cla)
        meas.barrier()
        meas.measure(q[0], cla)
        return meas

    def get_ghz_mqc(self, n: int, delta: float, full_measurement: bool=True) -> Tuple[QuantumCircuit, Dict]:
        circ, initial_layout = self.get_ghz_layout(n)
        q = QuantumRegister(n, 'q')
        rotate = QuantumCircuit(q)
        rotate.barrier()
        rotate.append(U1Gate(delta), [q])
        rotate.barrier()
        rotate.x(q)
        rotate.barrier()
        rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
        meas = self.get_measurement_circ(n, 'q', 'c', full_measurement)
        meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
        new_circ = circ + rotate + circ.inverse() + meas
        return (new_circ, initial_layout)

    def get_ghz_mqc_para(self, n: int, full_measurement: bool=True) -> Tuple[QuantumCircuit, Parameter, Dict]:
        circ, initial_layout = self.get_ghz_layout(n)
        q = QuantumRegister(n, 'q')
        rotate = QuantumCircuit(q)
        delta = Parameter('t')
        rotate.barrier()
        rotate.append(U1Gate(delta), [q])
        rotate.barrier()
        rotate.x(q)
        rotate.barrier()
        rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
        meas = self.get_measurement_circ(n, 'q', 'c', full_measurement)
        meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
        new_circ = circ + rotate + circ.inverse() + meas
        return (new_circ, delta, initial_layout)

    def get_ghz_po(self, n: int, delta: float) -> Tuple[QuantumCircuit, Dict]:
        circ, initial_layout = self.get_ghz_layout(n)
        q = QuantumRegister(n, 'q')
        rotate = QuantumCircuit(q)
        rotate.barrier()
        rotate.append(U2Gate(delta, -delta), [q])
        rotate.barrier()
        rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
        meas = self.get_measurement_circ(n, 'q', 'c', True)
        meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
        new_circ = circ + rotate + meas
        return (new_circ, initial_layout)

    def get_ghz_po_para(self, n: int) -> Tuple[QuantumCircuit, List[Parameter], Dict]:
        circ, initial_layout = self.get_ghz_layout(n)
        q = QuantumRegister(n, 'q')
        rotate = QuantumCircuit(q)
        delta = Parameter('t')
        deltaneg = Parameter('-t')
        rotate.barrier()
        rotate.append(U2Gate(delta, deltaneg), [q])
        rotate.barrier()
        rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
        meas = self.get_measurement_circ(n, 'q', 'c', True)
        meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
        new_circ = circ + rotate + meas
        return (new_circ, [delta, deltaneg], initial_layout)

    def get_ghz_simple(self, n: int, full_measurement: bool=True) -> Tuple[QuantumCircuit, QuantumRegister, Dict]:
        circ, initial_layout = self.get_ghz_layout(n)
        q = QuantumRegister(n, 'q')
        meas = self.get_measurement_circ(n, 'q', 'c', full_measurement)
        meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
        new_circ = circ + meas
        return (new_circ, q, initial_layout)
