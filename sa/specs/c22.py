"""C22: GHZ circuits and entanglement analysis."""
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Parameter
from qiskit.compiler import transpile
from qiskit.circuit.library import U1Gate, U2Gate
from matplotlib import pyplot as plt
from qiskit.ignis.verification.entanglement.analysis import HAS_MATPLOTLIB
from qiskit.ignis.verification.entanglement.analysis import (
    ordered_list_generator, composite_pauli_z)
from qiskit.ignis.verification.entanglement.linear import get_ghz_simple, get_measurement_circ


@of('entanglement.linear.get_measurement_circ')
def get_measurement_circ_(n, qregname, cregname, full_measurement=True):
    q = QuantumRegister(n, qregname)
    if full_measurement:
        cla = ClassicalRegister(n, cregname)
        meas = QuantumCircuit(q, cla)
        meas.barrier()
        meas.measure(q, cla)
        return meas
    cla = ClassicalRegister(1, cregname)
    meas = QuantumCircuit(q, cla)
    meas.barrier()
    meas.measure(q[0], cla)
    return meas


@of('entanglement.linear.get_ghz_simple')
def get_ghz_simple_(n, measure=True, full_measurement=True):
    q = QuantumRegister(n, 'q')
    circ = QuantumCircuit(q)
    circ.h(q[0])
    for i in range(1, n):
        circ.cx(q[i - 1], q[i])
    if measure:
        meas = get_measurement_circ(n, 'q', 'c', full_measurement)
        circ = circ + meas
    return circ


@of('entanglement.linear.get_ghz_mqc')
def get_ghz_mqc_(n, delta, full_measurement=True):
    q = QuantumRegister(n, 'q')
    circ = get_ghz_simple(n, measure=False)
    circinv = circ.inverse()
    circ.barrier()
    circ.append(U1Gate(delta), [q])
    circ.x(q)
    circ.barrier()
    circ += circinv
    meas = get_measurement_circ(n, 'q', 'c', full_measurement)
    circ = circ + meas
    return circ


@of('entanglement.linear.get_ghz_mqc_para')
def get_ghz_mqc_para_(n, full_measurement=True):
    q = QuantumRegister(n, 'q')
    circ = get_ghz_simple(n, measure=False)
    delta = Parameter('t')
    circinv = circ.inverse()
    circ.barrier()
    circ.append(U1Gate(delta), [q])
    circ.x(q)
    circ.barrier()
    circ += circinv
    meas = get_measurement_circ(n, 'q', 'c', full_measurement)
    circ = circ + meas
    return (circ, delta)


@of('entanglement.linear.get_ghz_po')
def get_ghz_po_(n, delta):
    q = QuantumRegister(n, 'q')
    circ = get_ghz_simple(n, measure=False)
    circ.barrier()
    circ.append(U2Gate(delta, -delta), [q])
    circ.barrier()
    meas = get_measurement_circ(n, 'q', 'c', True)
    circ = circ + meas
    return circ


@of('entanglement.linear.get_ghz_po_para')
def get_ghz_po_para_(n):
    q = QuantumRegister(n, 'q')
    delta = Parameter('t')
    deltaneg = Parameter('-t')
    circ = get_ghz_simple(n, measure=False)
    circ.barrier()
    circ.append(U2Gate(delta, deltaneg), [q])
    meas = get_measurement_circ(n, 'q', 'c', True)
    circ = circ + meas
    return (circ, [delta, deltaneg])


@of('entanglement.analysis.ordered_list_generator')
def ordered_list_generator_(counts_dictionary, qn):
    orderedlist = []
    limit = 2 ** qn
    keycode = str(qn + 2)
    for a in range(limit):
        keyq = str(format(a, '#0' + keycode + 'b'))[2:]
        orderedlist.append(counts_dictionary.get(keyq, 0.0))
    return np.asarray(orderedlist)


@of('entanglement.analysis.composite_pauli_z')
def composite_pauli_z_(qn):
    composite_sigma_z = sigma_z = np.array([[1, 0], [0, -1]])
    for _ in range(1, qn):
        composite_sigma_z = np.kron(composite_sigma_z, sigma_z)
    return composite_sigma_z


@of('entanglement.analysis.composite_pauli_z_expvalue')
def composite_pauli_z_expvalue_(counts_dictionary, qn):
    return np.dot(ordered_list_generator(counts_dictionary, qn), np.diag(composite_pauli_z(qn)))


@of('Plotter.__init__')
def plotter_init(self, label):
    self.label = label


@of('Plotter.title_maker')
def plotter_title_maker(self):
    if self.label == 'mqc':
        title = 'Raw counts of ground state'
        title_ext = 'Error mitigated vs Raw counts of ground state (MQC)'
    elif self.label == 'po':
        title = 'Raw counts of <pauli_z operator>'
        title_ext = 'Error mitigated vs Raw counts of <pauli_z operator>'
    return (title, title_ext)


@of('Plotter.sin_plotter')
def plotter_sin_plotter(self, x, y, y_m=None):
    if not HAS_MATPLOTLIB:
        raise ImportError("matplotlib needs to be installed and properly configured needed to plot. You can run 'pip install matplotlib'")
    title, title_ext = self.title_maker()
    if y_m is None:
        plt.plot(x, y)
        plt.title(title)
        plt.xlabel('\\phi')
        plt.ylabel('Normalized Contrast')
    else:
        plt.plot(x, y, label='raw')
        plt.plot(x, y_m, label='error mitigated')
        plt.legend()
        plt.title(title_ext)
        plt.xlabel('\\phi')
        plt.ylabel('Normalized Contrast')


@of('Plotter.get_fourier_info')
def plotter_get_fourier_info(self, qn, x, y, y_m, p_dict):
    if not HAS_MATPLOTLIB:
        raise ImportError("matplotlib needs to be installed and properly configured needed to plot. You can run 'pip install matplotlib'")
    norm = len(x)
    n = qn
    if y_m is None:
        raise Exception('Two tuples must be provided')
    if p_dict is None:
        raise Exception('P0 and P1 must be provided')
    P0, P1 = (p_dict['P0'], p_dict['P1'])
    P0_m, P1_m = (p_dict['P0_m'], p_dict['P1_m'])
    fft = 1 / norm * np.fft.fft(y)
    fft_m = 1 / norm * np.fft.fft(y_m)
    fftx = norm * np.fft.fftfreq(x.shape[-1])
    plt.plot(fftx, np.absolute(fft), '.', label='raw')
    plt.plot(fftx, np.absolute(fft_m), '.', label='error mitigated')
    t_s = 'Error mitigated vs Raw counts of |00...0> state (PO Exp.)'
    plt.title(t_s)
    plt.xlabel('v')
    plt.ylabel('I(v)')
    plt.legend()
    if self.label == 'mqc':
        I0 = fft[0]
        In = fft[n]
        I0_m = fft_m[0]
        In_m = fft_m[n]
        LB, UB = (2 * np.sqrt(np.absolute(In)), np.sqrt(np.absolute(In)) + np.sqrt(np.absolute(I0) / 2))
        LB_m, UB_m = (2 * np.sqrt(np.absolute(In_m)), np.sqrt(np.absolute(In_m)) + np.sqrt(np.absolute(I0_m) / 2))
        print('Upper/Lower raw fidelity bounds = ', round(UB, 3), ' +/- ', round(0.01 * UB, 3), ' || ', round(LB, 3), ' +/-', round(0.01 * LB, 3))
        print('Upper/Lower error mitigated fidelity bounds = ', round(UB_m, 3), ' +/- ', round(0.01 * UB_m, 3), ' || ', round(LB_m, 3), ' +/- ', round(0.01 * LB_m, 3))
        F, F_m = (0.5 * (P0 + P1) + np.sqrt(np.absolute(fft[qn])), 0.5 * (P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
        print('Raw fidelity = ', round(F, 3), ' +/- ', round(0.01 * F, 3))
        print('Mitigated fidelity = ', round(F_m, 3), ' +/- ', round(0.01 * F_m, 3))
        return {'I0': I0, 'In': In, 'I0_m': I0_m, 'In_m': In_m, 'LB': LB, 'UB': UB, 'LB_m': LB_m, 'UB_m': UB_m, 'F': F, 'F_m': F_m}
    if self.label == 'po':
        In = fft[n]
        In_m = fft_m[n]
        C, C_m = (2 * np.absolute(In), 2 * np.absolute(In_m))
        F, F_m = (0.5 * (P0 + P1 + C), 0.5 * (P0_m + P1_m + C_m))
        print('Raw fidelity = ', round(F, 3), ' +/- ', round(0.01 * F, 3))
        print('Mitigated fidelity = ', round(F_m, 3), ' +/- ', round(0.01 * F_m, 3))
        return {'In': In, 'In_m': In_m, 'F': F, 'F_m': F_m}
    return None


@of('entanglement.analysis.rho_to_fidelity')
def rho_to_fidelity_(rho):
    return np.abs((rho[0, 0] + rho[-1, -1] + np.abs(rho[0, -1]) + np.abs(rho[-1, 0])) / 2)


@of('BConfig.__init__')
def bconfig_init(self, backend, indicator=True):
    self.nodes = {}
    self.backend = backend
    self.cmap = backend.configuration().coupling_map
    self._initialize_nodes()
    self.indicator = indicator


@of('BConfig._initialize_nodes')
def bconfiginitialize_nodes(self):
    self.nodes = {}
    for i in range(len(self._cmap_calib())):
        self.nodes[self._cmap_calib()[i][0]] = []
    for i in range(len(self._cmap_calib())):
        self.nodes[self._cmap_calib()[i][0]].append(self._cmap_calib()[i][1])


@of('BConfig._cmap_calib')
def bconfigcmap_calib(self):
    cmap_new = list(self.cmap)
    for a in self.cmap:
        if [a[1], a[0]] not in self.cmap:
            cmap_new.append([a[1], a[0]])
    cmap_new.sort(key=lambda x: x[0])
    return cmap_new


@of('BConfig._get_best_node')
def bconfigget_best_node(self):
    best_node = 0
    for i in self.nodes:
        if len(self.nodes[i]) > len(self.nodes[best_node]):
            best_node = i
        else:
            pass
    return best_node


@of('BConfig._indicator_off')
def bconfigindicator_off(self):
    self.indicator = False


@of('BConfig._indicator_on')
def bconfigindicator_on(self):
    self.indicator = True


@of('BConfig._get_cx_error')
def bconfigget_cx_error(self):
    a = self.backend.properties().to_dict()['gates']
    cxerrordict = {}
    for i in a:
        if len(i['qubits']) == 1:
            continue
        if len(i['qubits']) == 2:
            b = tuple(i['qubits'])
            if b in cxerrordict.keys():
                pass
            cxerrordict[b] = i['parameters'][0]['value']
            if (b[1], b[0]) not in cxerrordict.keys():
                cxerrordict[b[1], b[0]] = i['parameters'][0]['value']
            else:
                pass
    return cxerrordict


@of('BConfig._get_cx_length')
def bconfigget_cx_length(self):
    a = self.backend.properties().to_dict()['gates']
    cxlengthdict = {}
    for i in a:
        if len(i['qubits']) == 1:
            continue
        if len(i['qubits']) == 2:
            b = tuple(i['qubits'])
            if b in cxlengthdict.keys():
                pass
            cxlengthdict[b] = i['parameters'][1]['value']
            if (b[1], b[0]) not in cxlengthdict.keys():
                cxlengthdict[b[1], b[0]] = i['parameters'][1]['value']
            else:
                pass
    return cxlengthdict


@of('BConfig._child_sorter')
def bconfigchild_sorter(self, children, parent):
    return sorted(children, key=lambda child: self._get_cx_error()[child, parent])


@of('BConfig.get_tier_dict', no_inline=('_get_best_node', '_child_sorter'))
def bconfig_get_tier_dict(self):
    tier = {}
    tier_DM = {}
    length = len(self.nodes.keys())
    trashlist = []
    tier[0] = self._get_best_node()
    tier_DM[self._get_best_node()] = 0
    trashlist.append(self._get_best_node())
    parent = self._get_best_node()
    tier = {x: [[]] for x in range(length)}
    parentlist = []
    parentlist.append(parent)
    ii = 0
    while True:
        totalchildren = []
        for parent in parentlist:
            children = self.nodes[parent]
            if self.indicator:
                children = self._child_sorter(children, parent)
            totalchildren += children
            children = [a for a in children if a not in trashlist]
            j = tier_DM[parent]
            for i, _ in enumerate(children):
                tier[j] += [[parent, children[i]]]
                tier_DM[children[i]] = j + 1
                j += 1
                trashlist.append(children[i])
            parentlist = totalchildren
        if len(trashlist) == length:
            break
        ii += 1
        if ii > 50:
            break
    newtier = {}
    for a in tier:
        if [] in tier[a]:
            tier[a].remove([])
    for a in tier:
        if tier[a] != []:
            newtier[a] = tier[a]
    tier = newtier
    return tier


@of('BConfig.get_ghz_layout', no_inline=('get_tier_dict',))
def bconfig_get_ghz_layout(self, n, transpiled=True, barriered=True):
    tierdict = self.get_tier_dict()
    q = QuantumRegister(n, 'q')
    circ = QuantumCircuit(q)
    circ.h(q[0])
    trashlist = []
    initial_layout = {}
    for a in tierdict:
        for aa in tierdict[a]:
            if aa[0] not in trashlist:
                trashlist.append(aa[0])
                trashindex = trashlist.index(aa[0])
                initial_layout[q[trashindex]] = aa[0]
            else:
                pass
            if aa[1] not in trashlist:
                trashlist.append(aa[1])
                trashindex = trashlist.index(aa[1])
                initial_layout[q[trashindex]] = aa[1]
            else:
                pass
            circ.cx(q[trashlist.index(aa[0])], q[trashlist.index(aa[1])])
            if len(trashlist) == n:
                break
        if barriered:
            circ.barrier()
        if len(trashlist) == n:
            break
    if transpiled:
        circ = transpile(circ, backend=self.backend, initial_layout=initial_layout)
    return (circ, initial_layout)


@of('BConfig.get_measurement_circ')
def bconfig_get_measurement_circ(self, n, qregname, cregname, full_measurement=True):
    q = QuantumRegister(n, qregname)
    if full_measurement:
        cla = ClassicalRegister(n, cregname)
        meas = QuantumCircuit(q, cla)
        meas.barrier()
        meas.measure(q, cla)
        return meas
    cla = ClassicalRegister(1, cregname)
    meas = QuantumCircuit(q, cla)
    meas.barrier()
    meas.measure(q[0], cla)
    return meas


@of('BConfig.get_ghz_mqc', no_inline=('get_ghz_layout',))
def bconfig_get_ghz_mqc(self, n, delta, full_measurement=True):
    circ, initial_layout = self.get_ghz_layout(n)
    q = QuantumRegister(n, 'q')
    rotate = QuantumCircuit(q)
    rotate.barrier()
    rotate.append(U1Gate(delta), [q])
    rotate.barrier()
    rotate.x(q)
    rotate.barrier()
    rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
    meas = self.get_measurement_circ(n, 'q', 'c', full_measurement)
    meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
    new_circ = circ + rotate + circ.inverse() + meas
    return (new_circ, initial_layout)


@of('BConfig.get_ghz_mqc_para', no_inline=('get_ghz_layout',))
def bconfig_get_ghz_mqc_para(self, n, full_measurement=True):
    circ, initial_layout = self.get_ghz_layout(n)
    q = QuantumRegister(n, 'q')
    rotate = QuantumCircuit(q)
    delta = Parameter('t')
    rotate.barrier()
    rotate.append(U1Gate(delta), [q])
    rotate.barrier()
    rotate.x(q)
    rotate.barrier()
    rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
    meas = self.get_measurement_circ(n, 'q', 'c', full_measurement)
    meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
    new_circ = circ + rotate + circ.inverse() + meas
    return (new_circ, delta, initial_layout)


@of('BConfig.get_ghz_po', no_inline=('get_ghz_layout',))
def bconfig_get_ghz_po(self, n, delta):
    circ, initial_layout = self.get_ghz_layout(n)
    q = QuantumRegister(n, 'q')
    rotate = QuantumCircuit(q)
    rotate.barrier()
    rotate.append(U2Gate(delta, -delta), [q])
    rotate.barrier()
    rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
    meas = self.get_measurement_circ(n, 'q', 'c', True)
    meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
    new_circ = circ + rotate + meas
    return (new_circ, initial_layout)


@of('BConfig.get_ghz_po_para', no_inline=('get_ghz_layout',))
def bconfig_get_ghz_po_para(self, n):
    circ, initial_layout = self.get_ghz_layout(n)
    q = QuantumRegister(n, 'q')
    rotate = QuantumCircuit(q)
    delta = Parameter('t')
    deltaneg = Parameter('-t')
    rotate.barrier()
    rotate.append(U2Gate(delta, deltaneg), [q])
    rotate.barrier()
    rotate = transpile(rotate, backend=self.backend, initial_layout=initial_layout)
    meas = self.get_measurement_circ(n, 'q', 'c', True)
    meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
    new_circ = circ + rotate + meas
    return (new_circ, [delta, deltaneg], initial_layout)


@of('BConfig.get_ghz_simple', no_inline=('get_ghz_layout',))
def bconfig_get_ghz_simple(self, n, full_measurement=True):
    circ, initial_layout = self.get_ghz_layout(n)
    q = QuantumRegister(n, 'q')
    meas = self.get_measurement_circ(n, 'q', 'c', full_measurement)
    meas = transpile(meas, backend=self.backend, initial_layout=initial_layout)
    new_circ = circ + meas
    return (new_circ, q, initial_layout)
