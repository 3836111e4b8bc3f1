import itertools
from typing import Union, List, Dict, Tuple, Optional
import numpy as np
from scipy.linalg import schur
import scipy.optimize as opt
from qiskit.result import Result
from qiskit.quantum_info import Choi, PTM, Operator, DensityMatrix
from ..basis.gatesetbasis import default_gateset_basis, GateSetBasis
from .base_fitter import TomographyFitter

class GatesetTomographyFitter:

    def __init__(self, result: Result, circuits: List, gateset_basis: Union[GateSetBasis, str]='default'):
        self.gateset_basis = gateset_basis
        if gateset_basis == 'default':
            self.gateset_basis = default_gateset_basis()
        data = TomographyFitter(result, circuits).data
        self.probs = {}
        for key, vals in data.items():
            self.probs[key] = vals.get('0', 0) / sum(vals.values())

    def linear_inversion(self) -> Dict[str, PTM]:
        n = len(self.gateset_basis.spam_labels)
        m = len(self.gateset_basis.gate_labels)
        gram_matrix = np.zeros((n, n))
        E = np.zeros((1, n))
        rho = np.zeros((n, 1))
        gate_matrices = []
        for i in range(m):
            gate_matrices.append(np.zeros((n, n)))
        for i in range(n):
            F_i = self.gateset_basis.spam_labels[i]
            E[0][i] = self.probs[F_i,]
            rho[i][0] = self.probs[F_i,]
            for j in range(n):
                F_j = self.gateset_basis.spam_labels[j]
                gram_matrix[i][j] = self.probs[F_j, F_i]
                for k in range(m):
                    G_k = self.gateset_basis.gate_labels[k]
                    gate_matrices[k][i][j] = self.probs[F_j, G_k, F_i]
        gram_inverse = np.linalg.inv(gram_matrix)
        gates = [PTM(gram_inverse @ gate_matrix) for gate_matrix in gate_matrices]
        result = dict(zip(self.gateset_basis.gate_labels, gates))
        result['E'] = E
        result['rho'] = gram_inverse @ rho
        return result

    def _default_init_state(self, size):
        if size == 4:
            return np.array([[np.sqrt(0.5)], [0], [0], [np.sqrt(0.5)]])
        raise RuntimeError('No default init state for more than 1 qubit')

    def _default_measurement_op(self, size):
        if size == 4:
            return np.array([[np.sqrt(0.5), 0, 0, np.sqrt(0.5)]])
        raise RuntimeError('No default measurement op for more than 1 qubit')

    def _ideal_gateset(self, size):
        ideal_gateset = {label: PTM(self.gateset_basis.gate_matrices[label]) for label in self.gateset_basis.gate_labels}
        ideal_gateset['E'] = self._default_measurement_op(size)
        ideal_gateset['rho'] = self._default_init_state(size)
        return ideal_gateset

    def fit(self) -> Dict:
        linear_inversion_results = self.linear_inversion()
        n = len(self.gateset_basis.spam_labels)
        gauge_opt = GaugeOptimize(self._ideal_gateset(n), linear_inversion_results, self.gateset_basis)
        past_gauge_gateset = gauge_opt.optimize()
        optimizer = GST_Optimize(self.gateset_basis.gate_labels, self.gateset_basis.spam_labels, self.gateset_basis.spam_spec, self.probs)
        optimizer.set_initial_value(past_gauge_gateset)
        optimization_results = optimizer.optimize()
        return optimization_results

class GaugeOptimize:

    def __init__(self, ideal_gateset: Dict[str, PTM], initial_gateset: Dict[str, PTM], gateset_basis: GateSetBasis):
        self.gateset_basis = gateset_basis
        self.ideal_gateset = ideal_gateset
        self.initial_gateset = initial_gateset
        self.Fs = [self.gateset_basis.spam_matrix(label) for label in self.gateset_basis.spam_labels]
        self.d = np.shape(ideal_gateset['rho'])[0]
        self.n = len(gateset_basis.gate_labels)
        self.rho = ideal_gateset['rho']

    def _x_to_gateset(self, x: np.array) -> Dict[str, PTM]:
        B = np.array(x).reshape((self.d, self.d))
        try:
            BB = np.linalg.inv(B)
        except np.linalg.LinAlgError:
            return None
        gateset = {label: PTM(BB @ self.initial_gateset[label].data @ B) for label in self.gateset_basis.gate_labels}
        gateset['E'] = self.initial_gateset['E'] @ B
        gateset['rho'] = BB @ self.initial_gateset['rho']
        return gateset

    def _obj_fn(self, x: np.array) -> float:
        gateset = self._x_to_gateset(x)
        if gateset is None:
            return np.inf
        result = sum([np.linalg.norm(gateset[label].data - self.ideal_gateset[label].data) for label in self.gateset_basis.gate_labels])
        result = result + np.linalg.norm(gateset['E'] - self.ideal_gateset['E'])
        result = result + np.linalg.norm(gateset['rho'] - self.ideal_gateset['rho'])
        return result

    def optimize(self) -> List[np.array]:
        initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
        result = opt.minimize(self._obj_fn, initial_value)
        return self._x_to_gateset(result.x)

def get_cholesky_like_decomposition(mat: np.array) -> np.array:
    decomposition, unitary = schur(mat, output='complex')
    eigenvals = np.array(decomposition.diagonal())
    eigenvals[eigenvals < 0] = 0
    DD = np.diag(np.sqrt(eigenvals))
    return unitary @ DD

class GST_Optimize:

    def __init__(self, Gs: List[str], Fs_names: Tuple[str], Fs: Dict[str, Tuple[str]], probs: Dict[Tuple[str], float], qubits: int=1):
        self.probs = probs
        self.Gs = Gs
        self.Fs_names = Fs_names
        self.Fs = Fs
        self.qubits = qubits
        self.obj_fn_data = self._compute_objective_function_data()
        self.initial_value = None

    @staticmethod
    def _split_list(input_list: List, sizes: List) -> List[List]:
        if sum(sizes) != len(input_list):
            msg = 'Length of list ({}) differs from sum of split sizes ({})'.format(len(input_list), sizes)
            raise RuntimeError(msg)
        result = []
        i = 0
        for s in sizes:
            result.append(input_list[i:i + s])
            i = i + s
        return result

    @staticmethod
    def _vec_to_complex_matrix(vec: np.array) -> np.array:
        n = int(np.sqrt(vec.size / 2))
        if 2 * n * n != vec.size:
            raise RuntimeError('Vector of length {} cannot be reshaped to square matrix'.format(vec.size))
        size = n * n
        return np.reshape(vec[0:size] + 1j * vec[size:2 * size], (n, n))

    @staticmethod
    def _complex_matrix_to_vec(M):
        mvec = M.reshape(M.size)
        return list(np.concatenate([mvec.real, mvec.imag]))

    def _compute_objective_function_data(self) -> List:
        m = len(self.Fs)
        n = len(self.Gs)
        obj_fn_data = []
        for i, j in itertools.product(range(m), repeat=2):
            for k in range(n):
                Fi = self.Fs_names[i]
                Fj = self.Fs_names[j]
                m_ijk = self.probs[Fj, self.Gs[k], Fi]
                Fi_matrices = [self.Gs.index(gate) for gate in self.Fs[Fi]]
                Fj_matrices = [self.Gs.index(gate) for gate in self.Fs[Fj]]
                matrices = Fj_matrices + [k] + Fi_matrices
                obj_fn_data.append((matrices, m_ijk))
        return obj_fn_data

    def _split_input_vector(self, x: np.array) -> Tuple:
        n = len(self.Gs)
        d = 2 ** self.qubits
        ds = d ** 2
        d_t = 2 * d ** 2
        ds_t = 2 * ds ** 2
        T_vars = self._split_list(x, [d_t, d_t] + [ds_t] * n)
        E_T = self._vec_to_complex_matrix(T_vars[0])
        rho_T = self._vec_to_complex_matrix(T_vars[1])
        Gs_T = [self._vec_to_complex_matrix(T_vars[2 + i]) for i in range(n)]
        E = np.reshape(E_T @ np.conj(E_T.T), (1, ds))
        rho = np.reshape(rho_T @ np.conj(rho_T.T), (ds, 1))
        Gs = [PTM(Choi(G_T @ np.conj(G_T.T))).data for G_T in Gs_T]
        return (E, rho, Gs)

    def _join_input_vector(self, E: np.array, rho: np.array, Gs: List[np.array]) -> np.array:
        d = 2 ** self.qubits
        E_T = get_cholesky_like_decomposition(E.reshape((d, d)))
        rho_T = get_cholesky_like_decomposition(rho.reshape((d, d)))
        Gs_Choi = [Choi(PTM(G)).data for G in Gs]
        Gs_T = [get_cholesky_like_decomposition(G) for G in Gs_Choi]
        E_vec = self._complex_matrix_to_vec(E_T)
        rho_vec = self._complex_matrix_to_vec(rho_T)
        result = E_vec + rho_vec
        for G_T in Gs_T:
            result += self._complex_matrix_to_vec(G_T)
        return np.array(result)

    def _obj_fn(self, x: np.array) -> float:
        E, rho, G_matrices = self._split_input_vector(x)
        val = 0
        for term in self.obj_fn_data:
            term_val = rho
            for G_index in term[0]:
                term_val = G_matrices[G_index] @ term_val
            term_val = E @ term_val
            term_val = np.real(term_val[0][0])
            term_val = term_val - term[1]
            term_val = term_val ** 2
            val = val + term_val
        return val

    def _ptm_matrix_values(self, x: np.array) -> List[np.array]:
        _, _, G_matrices = self._split_input_vector(x)
        result = []
        for G in G_matrices:
            result = result + self._complex_matrix_to_vec(G)
        return result

    def _rho_trace(self, x: np.array) -> Tuple[float]:
        _, rho, _ = self._split_input_vector(x)
        d = 2 ** self.qubits
        rho = self._convert_from_ptm(rho.reshape((d, d)))
        trace = sum([rho[i][i] for i in range(d)])
        return (np.real(trace), np.imag(trace))

    def _bounds_eq_constraint(self, x: np.array) -> List[float]:
        ptm_matrix = self._ptm_matrix_values(x)
        bounds_eq = []
        n = len(self.Gs)
        d = 2 ** self.qubits
        ds = d ** 2
        i = 0
        for _ in range(n):
            bounds_eq.append(ptm_matrix[i] - 1)
            i += 1
            for _ in range(ds - 1):
                bounds_eq.append(ptm_matrix[i] - 0)
                i += 1
            for _ in range((ds - 1) * ds):
                i += 1
            for _ in range(ds ** 2):
                bounds_eq.append(ptm_matrix[i] - 0)
                i += 1
        return bounds_eq

    def _bounds_ineq_constraint(self, x: np.array) -> List[float]:
        ptm_matrix = self._ptm_matrix_values(x)
        bounds_ineq = []
        n = len(self.Gs)
        d = 2 ** self.qubits
        ds = d ** 2
        i = 0
        for _ in range(n):
            i += 1
            for _ in range(ds - 1):
                i += 1
            for _ in range((ds - 1) * ds):
                bounds_ineq.append(ptm_matrix[i] + 1)
                bounds_ineq.append(-ptm_matrix[i] + 1)
                i += 1
            for _ in range(ds ** 2):
                i += 1
        return bounds_ineq

    def _rho_trace_constraint(self, x: np.array) -> List[float]:
        trace = self._rho_trace(x)
        return [trace[0] - 1, trace[1]]

    def _constraints(self) -> List[Dict]:
        cons = []
        cons.append({'type': 'eq', 'fun': self._rho_trace_constraint})
        cons.append({'type': 'eq', 'fun': self._bounds_eq_constraint})
        cons.append({'type': 'ineq', 'fun': self._bounds_ineq_constraint})
        return cons

    def _convert_from_ptm(self, vector):
        Id = np.sqrt(0.5) * np.array([[1, 0], [0, 1]])
        X = np.sqrt(0.5) * np.array([[0, 1], [1, 0]])
        Y = np.sqrt(0.5) * np.array([[0, -1j], [1j, 0]])
        Z = np.sqrt(0.5) * np.array([[1, 0], [0, -1]])
        v = vector.reshape(4)
        return v[0] * Id + v[1] * X + v[2] * Y + v[3] * Z

    def _process_result(self, x: np.array) -> Dict:
        E, rho, G_matrices = self._split_input_vector(x)
        result = {}
        result['E'] = Operator(self._convert_from_ptm(E))
        result['rho'] = DensityMatrix(self._convert_from_ptm(rho))
        for i in range(len(self.Gs)):
            result[self.Gs[i]] = PTM(G_matrices[i])
        return result

    def set_initial_value(self, initial_value: Dict[str, PTM]):
        E = initial_value['E']
        rho = initial_value['rho']
        Gs = [initial_value[label] for label in self.Gs]
        self.initial_value = self._join_input_vector(E, rho, Gs)

    def optimize(self, initial_value: Optional[np.array]=None) -> Dict:
        if initial_value is not None:
            self.initial_value = initial_value
        result = opt.minimize(self._obj_fn, self.initial_value, method='SLSQP', constraints=self._constraints())
        formatted_result = self._process_result(result.x)
        return formatted_result
