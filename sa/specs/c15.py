import numpy as np


@of('rb_utils.coherence_limit')
def coherence_limit(nQ=2, T1_list=None, T2_list=None, gatelen=0.1):
    """Average gate error of an idle gate of length gatelen on nQ qubits limited by T1, T2."""
    T1 = np.array(T1_list)
    T2 = 2*T1 if T2_list is None else np.array(T2_list)
    if nQ != 1 and nQ != 2:
        raise ValueError
    if len(T1) != nQ or len(T2) != nQ:
        raise ValueError
    if nQ == 1:
        return (1 - 2/3*np.exp(-gatelen/T2[0]) - np.exp(-gatelen/T1[0])/3)/2
    return 3/4*(1 - (np.exp(-gatelen/T1[0]) + np.exp(-gatelen/T1[1])
                     + np.exp(-gatelen*np.sum(1/T1))
                     + 2*(np.exp(-gatelen/T2[0])+np.exp(-gatelen/T2[1])
                          + np.exp(-gatelen*(1/T2[0]+1/T1[1]))
                          + np.exp(-gatelen*(1/T2[1]+1/T1[0])))
                     + 4*np.exp(-gatelen*np.sum(1/T2)))/15)


@of('rb_utils.twoQ_clifford_error')
def twoQ_clifford_error(ngates, gate_qubit, gate_err):
    per_qubit = sorted(ngates.items())
    if len(per_qubit) != 2:
        raise ValueError
    n = np.zeros(7)
    n[0] = per_qubit[0][1].get('u1', 0)
    n[1] = per_qubit[0][1].get('u2', 0)
    n[2] = per_qubit[0][1].get('u3', 0)
    n[3] = per_qubit[1][1].get('u1', 0)
    n[4] = per_qubit[1][1].get('u2', 0)
    n[5] = per_qubit[1][1].get('u3', 0)
    n[6] = per_qubit[0][1].get('cx', 0)
    alpha1Q = [1.0, 1.0]
    alpha2Q = 1.0
    for gate_ind, ngate in enumerate(n):
        if gate_qubit[gate_ind] == -1:
            alpha2Q *= (1-4/3*gate_err[gate_ind])**ngate
        else:
            alpha1Q[gate_qubit[gate_ind]] *= (1-2*gate_err[gate_ind])**ngate
    return 3/4*(1 - (np.sum(alpha1Q) + 3*np.prod(alpha1Q))*alpha2Q/5)


@of('rb_utils.calculate_1q_epg')
def calculate_1q_epg(gate_per_cliff, epc_1q, qubit):
    """u1 is free, u3 counts as two u2: epc = n_u2 * e + n_u3 * 2e."""
    if qubit not in gate_per_cliff:
        raise ValueError
    gpc = gate_per_cliff[qubit]
    if 'u3' not in gpc or 'u2' not in gpc:
        raise ValueError
    if gpc.get('cx', 0) > 0:
        raise ValueError
    e = epc_1q/(gpc['u2'] + 2*gpc['u3'])
    return {'u1': 0, 'u2': e, 'u3': 2*e}


@of('rb_utils.calculate_2q_epg')
def calculate_2q_epg(gate_per_cliff, epc_2q, qubit_pair, list_epgs_1q=None, two_qubit_name='cx'):
    list_epgs_1q = list_epgs_1q or []
    if len(qubit_pair) != 2:
        raise ValueError
    for qubit in qubit_pair:
        if qubit not in gate_per_cliff:
            raise ValueError
    alpha_1q = [1.0, 1.0]
    for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
        for name, epg in epg_1q.items():
            alpha_1q[ind] *= (1 - 2*epg)**gate_per_cliff[qubit].get(name, 0)
    a_1q = (alpha_1q[0] + alpha_1q[1] + 3*alpha_1q[0]*alpha_1q[1])/5
    a_2q = (1 - 4/3*epc_2q)/a_1q
    n_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
    if n_2q > 0:
        return 3/4*(1-a_2q)/n_2q
    raise ValueError


@of('rb_utils.calculate_1q_epc')
def calculate_1q_epc(gate_per_cliff, epg_1q, qubit):
    if qubit not in gate_per_cliff:
        raise ValueError
    fid = 1
    for name, epg in epg_1q.items():
        fid *= (1 - epg)**gate_per_cliff[qubit].get(name, 0)
    return 1 - fid


@of('rb_utils.calculate_2q_epc')
def calculate_2q_epc(gate_per_cliff, epg_2q, qubit_pair, list_epgs_1q, two_qubit_name='cx'):
    if len(qubit_pair) != 2:
        raise ValueError
    for qubit in qubit_pair:
        if qubit not in gate_per_cliff:
            raise ValueError
    n_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
    if n_2q == 0:
        raise ValueError
    alpha_1q = [1.0, 1.0]
    for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
        for name, epg in epg_1q.items():
            alpha_1q[ind] *= (1 - 2*epg)**gate_per_cliff[qubit].get(name, 0)
    a = (alpha_1q[0] + alpha_1q[1] + 3*alpha_1q[0]*alpha_1q[1])/5*(1 - 4/3*epg_2q)**n_2q
    return 3/4*(1 - a)


@of('rb_utils.gates_per_clifford')
def gates_per_clifford(transpiled_circuits_list, clifford_lengths, basis, qubits):
    from qiskit import QuantumCircuit
    from qiskit.qobj import QasmQobj
    n = {qubit: {base: 0 for base in basis} for qubit in qubits}
    for transpiled_circuits in transpiled_circuits_list:
        if isinstance(transpiled_circuits, QasmQobj):
            for experiment in transpiled_circuits.experiments:
                for instr in experiment.instructions:
                    for q_ind in instr.qubits:
                        try:
                            n[q_ind][instr.name] += 1
                        except KeyError:
                            pass
        else:
            for circ in transpiled_circuits:
                if isinstance(circ, QuantumCircuit):
                    for instr, qregs, _ in circ.data:
                        for qreg in qregs:
                            try:
                                n[qreg.index][instr.name] += 1
                            except KeyError:
                                pass
                else:
                    raise ValueError
    total = len(transpiled_circuits_list)*np.sum(np.array(clifford_lengths) + 1)
    for qubit in qubits:
        for base in basis:
            n[qubit][base] /= total
    return n


@of('RBFitter._rb_fit_fun')
def _rb_fit_fun(x, a, alpha, b):
    return a*alpha**x + b


@of('PurityRBFitter._rb_pur_fit_fun')
def _rb_pur_fit_fun(x, a, alpha, b):
    return a*alpha**(2*x) + b


@of('RBFitter.calc_statistics', ret=False)
def rb_calc_statistics(self):
    self._ydata = []
    for p in range(len(self._rb_pattern)):
        self._ydata.append({})
        self._ydata[-1]['mean'] = np.mean(self._raw_data[p], 0)
        if len(self._raw_data[p]) == 1:
            self._ydata[-1]['std'] = None
        else:
            self._ydata[-1]['std'] = np.std(self._raw_data[p], 0)


@of('RBFitter.fit_data_pattern', ret=False)
def rb_fit_data_pattern(self, patt_ind, fit_guess):
    from scipy.optimize import curve_fit
    if self._ydata[patt_ind]['std'] is None:
        sigma = None
    else:
        sigma = self._ydata[patt_ind]['std'].copy()
        if len(sigma) - np.count_nonzero(sigma) > 0:
            sigma = None
    params, pcov = curve_fit(self._rb_fit_fun, self._cliff_lengths[patt_ind],
                             self._ydata[patt_ind]['mean'], sigma=sigma, p0=fit_guess,
                             bounds=([0, 0, 0], [1, 1, 1]))
    err = np.sqrt(np.diag(pcov))
    dim = 2**len(self._rb_pattern[patt_ind])
    self._fit[patt_ind] = {'params': params, 'params_err': err,
                           'epc': (dim-1)/dim*(1 - params[1]),
                           'epc_err': (dim-1)/dim*err[1]/params[1]}


@of('InterleavedRBFitter.fit_data', ret=False, attrs=('_fit_interleaved',),
    no_inline=('RBFitter.fit_data', 'qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data'))
def int_fit_data(self):
    self.rbfit_std.fit_data()
    self.rbfit_int.fit_data()
    self._fit_interleaved = []
    for patt_ind, (_, qubits) in enumerate(zip(self._cliff_lengths, self._rb_pattern)):
        d = 2**len(qubits)
        a = self.rbfit_std.fit[patt_ind]['params'][1]
        c = self.rbfit_int.fit[patt_ind]['params'][1]
        ae = self.rbfit_std.fit[patt_ind]['params_err'][1]
        ce = self.rbfit_int.fit[patt_ind]['params_err'][1]
        epc = (d-1)*(1-c/a)/d
        s1 = (d-1)*(abs(a-c/a) + (1-a))/d
        s2 = 2*(d*d-1)*(1-a)/(a*d*d) + 4*(np.sqrt(1-a))*(np.sqrt(d*d-1))/a
        s = min(s1, s2)
        err = ((d-1)/d)*(c/a)*np.sqrt((ae/a)**2 + (ce/c)**2)
        self._fit_interleaved.append({
            'alpha': a, 'alpha_err': ae, 'alpha_c': c, 'alpha_c_err': ce, 'epc_est': epc,
            'epc_est_err': err, 'systematic_err': s, 'systematic_err_L': epc - s,
            'systematic_err_R': epc + s})


@of('CNOTDihedralRBFitter.fit_data', ret=False, attrs=('_fit_cnotdihedral',),
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data',))
def dih_fit_data(self):
    self.rbfit_Z.fit_data()
    self.rbfit_X.fit_data()
    self._fit_cnotdihedral = []
    for patt_ind, (_, qubits) in enumerate(zip(self._cliff_lengths, self._rb_pattern)):
        d = 2**len(qubits)
        z = self.rbfit_Z.fit[patt_ind]['params'][1]
        r = self.rbfit_X.fit[patt_ind]['params'][1]
        ze = self.rbfit_Z.fit[patt_ind]['params_err'][1]
        re = self.rbfit_X.fit[patt_ind]['params_err'][1]
        alpha = (z + d*r)/(d+1)
        err = np.sqrt((ze/z/(d+1))**2 + (d*re/r/(d+1))**2)
        self._fit_cnotdihedral.append({
            'alpha': alpha, 'alpha_err': err, 'epg_est': (d-1)*(1-alpha)/d,
            'epg_est_err': (d-1)/d*err/alpha})


@of('PurityRBFitter.fit_data', ret=False, attrs=(),
    no_inline=('qiskit.ignis.verification.randomized_benchmarking.fitters.RBFitter.fit_data',),
    )
def pur_fit_data(self):
    self.rbfit_pur.fit_data()
    for p, (_, _) in enumerate(zip(self._cliff_lengths, self._rb_pattern)):
        a = np.sqrt(self.rbfit_pur.fit[p]['params'][1])
        self.rbfit_pur.fit[p]['params'][1] = a
        e = self.rbfit_pur.fit[p]['params_err'][1]/(2*np.sqrt(a))
        self.rbfit_pur.fit[p]['params_err'][1] = e
        d = 2**self._nq
        self.rbfit_pur.fit[p]['pepc'] = (d-1)/d*(1-a)
        self.rbfit_pur.fit[p]['pepc_err'] = (d-1)/d*e/a


@of('PurityRBFitter.F234')
def F234(n, a, b):
    """Index (base 4) of the Pauli a (bits: Z or I) measured in setting b (base 3: Z, X, Y)."""
    LUT = [[0, 0, 0], [3, 1, 2]]
    aseq = []
    bseq = []
    aa = a
    bb = b
    for i in range(n):
        aseq.append(np.mod(aa, 2))
        bseq.append(np.mod(bb, 3))
        aa = np.floor_divide(aa, 2)
        bb = np.floor_divide(bb, 3)
    c = 0
    for i in range(n):
        c += 4**i*LUT[aseq[i]][bseq[i]]
    return c


@of('PurityRBFitter.add_zdict_ops', ret=False)
def add_zdict_ops(self):
    """Diagonal of the Pauli Z string i: (-1)^(parity of i & j)."""
    statedict = {("{0:0%db}" % self._nq).format(i): 1 for i in range(2**self._nq)}
    for i in range(2**self._nq):
        self._zdict_ops.append(statedict.copy())
        for j in range(2**self._nq):
            if bin(i & j).count('1') % 2 != 0:
                self._zdict_ops[-1][("{0:0%db}" % self._nq).format(j)] = -1


@of('QVFitter.calc_statistics', ret=False)
def qv_calc_statistics(self):
    self._ydata = np.zeros([4, len(self._depths)], dtype=float)
    exp_vals = np.zeros(self._ntrials, dtype=float)
    ideal_vals = np.zeros(self._ntrials, dtype=float)
    for k, depth in enumerate(self._depths):
        exp_shots = 0
        for trialidx in range(self._ntrials):
            cname = 'qv_depth_%d_trial_%d' % (depth, trialidx)
            exp_vals[trialidx] = self._heavy_output_counts[cname]
            exp_shots += self._circ_shots[cname]
            ideal_vals[trialidx] = self._heavy_output_prob_ideal[cname]
        self._ydata[0][k] = np.sum(exp_vals)/np.sum(exp_shots)
        self._ydata[1][k] = (self._ydata[0][k]*(1 - self._ydata[0][k])/self._ntrials)**0.5
        self._ydata[2][k] = np.mean(ideal_vals)
        self._ydata[3][k] = (self._ydata[2][k]*(1 - self._ydata[2][k])/self._ntrials)**0.5


@of('QVFitter.qv_success')
def qv_success(self):
    import math
    out = []
    threshold = 0.5*(1 + math.erf(2/2**0.5))
    for k, _ in enumerate(self._depths):
        out.append([False, 0.0])
        mean, sigma = self._ydata[0][k], self._ydata[1][k]
        z = (mean - 2/3)/(1e-10 if sigma == 0 else sigma)
        level = 0.5*(1 + math.erf(z/2**0.5))
        out[-1][1] = level
        if mean > 2/3 and level > threshold:
            out[-1][0] = True
    return out


@of('QVFitter.calc_z_value')
def calc_z_value(self, mean, sigma):
    if sigma == 0:
        sigma = 1e-10
    return (mean - 2/3)/sigma


@of('QVFitter.calc_confidence_level')
def calc_confidence_level(self, z_value):
    import math
    return (1 + math.erf(z_value/2**0.5))/2


@of('QVFitter.quantum_volume')
def quantum_volume(self):
    return 2**np.array(self._depths)


@of('QVFitter._heavy_strings')
def _heavy_strings(self, ideal_distribution, ideal_median):
    return list(filter(lambda x: ideal_distribution[x] > ideal_median,
                       list(ideal_distribution.keys())))


@of('QVFitter._median_probabilities')
def _median_probabilities(self, distributions):
    return [float(np.real(np.median(np.array(list(d.values()))))) for d in distributions]


@of('QVFitter._subset_probability')
def _subset_probability(self, strings, distribution):
    return sum([distribution.get(v, 0) for v in strings])
