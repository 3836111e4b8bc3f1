import itertools
import numpy as np
import scipy.optimize as opt
from scipy.linalg import schur
from qiskit.quantum_info import Choi, PTM, Operator, DensityMatrix
from qiskit.ignis.verification.tomography.basis.gatesetbasis import default_gateset_basis
from qiskit.ignis.verification.tomography.fitters.base_fitter import TomographyFitter
from qiskit.ignis.verification.tomography.fitters.gateset_fitter import (
    GaugeOptimize, GST_Optimize, get_cholesky_like_decomposition)


@of('GatesetTomographyFitter.__init__', no_inline=('TomographyFitter', 'default_gateset_basis'))
def init(self, result, circuits, gateset_basis='default'):
    self.gateset_basis = gateset_basis
    if gateset_basis == 'default':
        self.gateset_basis = default_gateset_basis()
    self.probs = {}
    for key, vals in TomographyFitter(result, circuits).data.items():
        self.probs[key] = vals.get('0', 0)/sum(vals.values())


@of('GatesetTomographyFitter.linear_inversion')
def linear_inversion(self):
    """<<E|F_i G F_j|rho>> has the label (F_j, G, F_i): the preparation comes first."""
    spam = self.gateset_basis.spam_labels
    gates = self.gateset_basis.gate_labels
    n = len(spam)
    m = len(gates)
    gram = np.zeros((n, n))
    E = np.zeros((1, n))
    rho = np.zeros((n, 1))
    mats = []
    for i in range(m):
        mats.append(np.zeros((n, n)))
    for i in range(n):
        Fi = spam[i]
        E[0][i] = self.probs[(Fi,)]
        rho[i][0] = self.probs[(Fi,)]
        for j in range(n):
            Fj = spam[j]
            gram[i][j] = self.probs[(Fj, Fi)]
            for k in range(m):
                mats[k][i][j] = self.probs[(Fj, gates[k], Fi)]
    inverse = np.linalg.inv(gram)
    out = dict(zip(gates, [PTM(inverse @ x) for x in mats]))
    out['E'] = E
    out['rho'] = inverse @ rho
    return out


@of('GatesetTomographyFitter._default_init_state')
def init_state(self, size):
    if size == 4:
        return np.array([[np.sqrt(0.5)], [0], [0], [np.sqrt(0.5)]])
    raise RuntimeError


@of('GatesetTomographyFitter._default_measurement_op')
def meas_op(self, size):
    if size == 4:
        return np.array([[np.sqrt(0.5), 0, 0, np.sqrt(0.5)]])
    raise RuntimeError


@of('GatesetTomographyFitter._ideal_gateset',
    no_inline=('_default_measurement_op', '_default_init_state'))
def ideal(self, size):
    out = {label: PTM(self.gateset_basis.gate_matrices[label])
           for label in self.gateset_basis.gate_labels}
    out['E'] = self._default_measurement_op(size)
    out['rho'] = self._default_init_state(size)
    return out


@of('GatesetTomographyFitter.fit',
    no_inline=('linear_inversion', 'GaugeOptimize', 'GST_Optimize', '_ideal_gateset'))
def fit(self):
    inv = self.linear_inversion()
    n = len(self.gateset_basis.spam_labels)
    gauge = GaugeOptimize(self._ideal_gateset(n), inv, self.gateset_basis)
    start = gauge.optimize()
    optimizer = GST_Optimize(self.gateset_basis.gate_labels, self.gateset_basis.spam_labels,
                             self.gateset_basis.spam_spec, self.probs)
    optimizer.set_initial_value(start)
    return optimizer.optimize()


# ------------------------------------------------------------------ gauge

@of('GaugeOptimize.__init__', no_inline=('spam_matrix',))
def g_init(self, ideal_gateset, initial_gateset, gateset_basis):
    self.gateset_basis = gateset_basis
    self.ideal_gateset = ideal_gateset
    self.initial_gateset = initial_gateset
    self.Fs = [gateset_basis.spam_matrix(label) for label in gateset_basis.spam_labels]
    self.d = np.shape(ideal_gateset['rho'])[0]
    self.n = len(gateset_basis.gate_labels)
    self.rho = ideal_gateset['rho']


@of('GaugeOptimize._x_to_gateset', raises=False)
def g_x(self, x):
    B = np.array(x).reshape((self.d, self.d))
    try:
        BB = np.linalg.inv(B)
    except np.linalg.LinAlgError:
        return None
    out = {label: PTM(BB @ self.initial_gateset[label].data @ B)
           for label in self.gateset_basis.gate_labels}
    out['E'] = self.initial_gateset['E'] @ B
    out['rho'] = BB @ self.initial_gateset['rho']
    return out


@of('GaugeOptimize._obj_fn', no_inline=('_x_to_gateset',))
def g_obj(self, x):
    gs = self._x_to_gateset(x)
    if gs is None:
        return np.inf
    out = sum([np.linalg.norm(gs[label].data - self.ideal_gateset[label].data)
               for label in self.gateset_basis.gate_labels])
    out = out + np.linalg.norm(gs['E'] - self.ideal_gateset['E'])
    out = out + np.linalg.norm(gs['rho'] - self.ideal_gateset['rho'])
    return out


@of('GaugeOptimize.optimize', no_inline=('_x_to_gateset', '_obj_fn'))
def g_opt(self):
    start = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
    return self._x_to_gateset(opt.minimize(self._obj_fn, start).x)


@of('gateset_fitter.get_cholesky_like_decomposition')
def chol(mat):
    t, u = schur(mat, output='complex')
    ev = np.array(t.diagonal())
    ev[ev < 0] = 0
    return u @ np.diag(np.sqrt(ev))


# ------------------------------------------------------------------ maximum likelihood

@of('GST_Optimize.__init__', no_inline=('_compute_objective_function_data',))
def o_init(self, Gs, Fs_names, Fs, probs, qubits=1):
    self.probs = probs
    self.Gs = Gs
    self.Fs_names = Fs_names
    self.Fs = Fs
    self.qubits = qubits
    self.obj_fn_data = self._compute_objective_function_data()


@of('GST_Optimize._split_list')
def split(input_list, sizes):
    if sum(sizes) != len(input_list):
        raise RuntimeError
    out = []
    i = 0
    for s in sizes:
        out.append(input_list[i:i + s])
        i = i + s
    return out


@of('GST_Optimize._vec_to_complex_matrix')
def v2m(vec):
    n = int(np.sqrt(vec.size/2))
    if 2*n*n != vec.size:
        raise RuntimeError
    return np.reshape(vec[0:n*n] + 1j*vec[n*n:2*n*n], (n, n))


@of('GST_Optimize._complex_matrix_to_vec')
def m2v(M):
    v = M.reshape(M.size)
    return list(np.concatenate([v.real, v.imag]))


@of('GST_Optimize._compute_objective_function_data')
def data(self):
    m = len(self.Fs)
    n = len(self.Gs)
    out = []
    for i, j in itertools.product(range(m), repeat=2):
        for k in range(n):
            Fi = self.Fs_names[i]
            Fj = self.Fs_names[j]
            p = self.probs[(Fj, self.Gs[k], Fi)]
            left = [self.Gs.index(gate) for gate in self.Fs[Fj]]
            right = [self.Gs.index(gate) for gate in self.Fs[Fi]]
            out.append((left + [k] + right, p))
    return out


@of('GST_Optimize._split_input_vector', no_inline=('_split_list', '_vec_to_complex_matrix'))
def siv(self, x):
    n = len(self.Gs)
    d = 2**self.qubits
    ds = d**2
    parts = self._split_list(x, [2*d**2, 2*d**2] + [2*ds**2]*n)
    ET = self._vec_to_complex_matrix(parts[0])
    rT = self._vec_to_complex_matrix(parts[1])
    GT = [self._vec_to_complex_matrix(parts[2 + i]) for i in range(n)]
    E = np.reshape(ET @ np.conj(ET.T), (1, ds))
    rho = np.reshape(rT @ np.conj(rT.T), (ds, 1))
    return E, rho, [PTM(Choi(G @ np.conj(G.T))).data for G in GT]


@of('GST_Optimize._join_input_vector',
    no_inline=('get_cholesky_like_decomposition', '_complex_matrix_to_vec'))
def jiv(self, E, rho, Gs):
    d = 2**self.qubits
    ET = get_cholesky_like_decomposition(E.reshape((d, d)))
    rT = get_cholesky_like_decomposition(rho.reshape((d, d)))
    GT = [get_cholesky_like_decomposition(G) for G in [Choi(PTM(G)).data for G in Gs]]
    out = self._complex_matrix_to_vec(ET) + self._complex_matrix_to_vec(rT)
    for G in GT:
        out += self._complex_matrix_to_vec(G)
    return np.array(out)


@of('GST_Optimize._obj_fn', no_inline=('_split_input_vector',))
def obj(self, x):
    E, rho, G = self._split_input_vector(x)
    out = 0
    for term in self.obj_fn_data:
        v = rho
        for g in term[0]:
            v = G[g] @ v
        v = E @ v
        out = out + (np.real(v[0][0]) - term[1])**2
    return out


@of('GST_Optimize._ptm_matrix_values', no_inline=('_split_input_vector', '_complex_matrix_to_vec'))
def ptm(self, x):
    _, _, Gs = self._split_input_vector(x)
    out = []
    for G in Gs:
        out = out + self._complex_matrix_to_vec(G)
    return out


@of('GST_Optimize._rho_trace', no_inline=('_split_input_vector', '_convert_from_ptm'))
def rtrace(self, x):
    _, rho, _ = self._split_input_vector(x)
    d = 2**self.qubits
    rho = self._convert_from_ptm(rho.reshape((d, d)))
    t = sum([rho[i][i] for i in range(d)])
    return np.real(t), np.imag(t)


@of('GST_Optimize._bounds_eq_constraint', no_inline=('_ptm_matrix_values',))
def beq(self, x):
    v = self._ptm_matrix_values(x)
    out = []
    ds = (2**self.qubits)**2
    i = 0
    for _ in range(len(self.Gs)):
        out.append(v[i] - 1)
        i += 1
        for _ in range(ds - 1):
            out.append(v[i] - 0)
            i += 1
        for _ in range((ds - 1)*ds):
            i += 1
        for _ in range(ds**2):
            out.append(v[i] - 0)
            i += 1
    return out


@of('GST_Optimize._bounds_ineq_constraint', no_inline=('_ptm_matrix_values',))
def bineq(self, x):
    v = self._ptm_matrix_values(x)
    out = []
    ds = (2**self.qubits)**2
    i = 0
    for _ in range(len(self.Gs)):
        i += 1
        for _ in range(ds - 1):
            i += 1
        for _ in range((ds - 1)*ds):
            out.append(v[i] + 1)
            out.append(-v[i] + 1)
            i += 1
        for _ in range(ds**2):
            i += 1
    return out


@of('GST_Optimize._rho_trace_constraint', no_inline=('_rho_trace',))
def rtc(self, x):
    t = self._rho_trace(x)
    return [t[0] - 1, t[1]]


@of('GST_Optimize._constraints',
    no_inline=('_rho_trace_constraint', '_bounds_eq_constraint', '_bounds_ineq_constraint'))
def cons(self):
    return [{'type': 'eq', 'fun': self._rho_trace_constraint},
            {'type': 'eq', 'fun': self._bounds_eq_constraint},
            {'type': 'ineq', 'fun': self._bounds_ineq_constraint}]


@of('GST_Optimize._convert_from_ptm')
def cptm(self, vector):
    s = np.sqrt(0.5)
    v = vector.reshape(4)
    return (v[0]*(s*np.array([[1, 0], [0, 1]])) + v[1]*(s*np.array([[0, 1], [1, 0]])) +
            v[2]*(s*np.array([[0, -1j], [1j, 0]])) + v[3]*(s*np.array([[1, 0], [0, -1]])))


@of('GST_Optimize._process_result', no_inline=('_split_input_vector', '_convert_from_ptm'))
def result(self, x):
    E, rho, G = self._split_input_vector(x)
    out = {}
    out['E'] = Operator(self._convert_from_ptm(E))
    out['rho'] = DensityMatrix(self._convert_from_ptm(rho))
    for i in range(len(self.Gs)):
        out[self.Gs[i]] = PTM(G[i])
    return out


@of('GST_Optimize.set_initial_value', no_inline=('_join_input_vector',))
def siv2(self, initial_value):
    self.initial_value = self._join_input_vector(
        initial_value['E'], initial_value['rho'], [initial_value[label] for label in self.Gs])


@of('GST_Optimize.optimize', no_inline=('_obj_fn', '_constraints', '_process_result'))
def optimize(self, initial_value=None):
    if initial_value is not None:
        self.initial_value = initial_value
    r = opt.minimize(self._obj_fn, self.initial_value, method='SLSQP',
                     constraints=self._constraints())
    return self._process_result(r.x)
