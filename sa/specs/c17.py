import numpy as np
from scipy.optimize import curve_fit


@of('BaseFitter._exp_fit_fun')
def exp_fit(x, a, tau, c):
    return a*np.exp(-x/tau) + c


@of('BaseFitter._osc_fit_fun')
def osc_fit(x, a, tau, f, phi, c):
    return a*np.exp(-x/tau)*np.cos(2*np.pi*f*x + phi) + c


@of('BaseFitter._osc_nodecay_fit_fun')
def osc_nodecay(x, a, f, phi, c):
    return a*np.cos(2*np.pi*f*x + phi) + c


@of('BaseFitter._cal_fit_fun')
def cal_fit(x, a, thetaerr, phierr, theta0, phi0, c):
    return a*np.cos((theta0 + thetaerr)*x + phi0 + phierr) + c


@of('BaseFitter._quadratic')
def quadratic(x, a, x0, c):
    return a*(x - x0)**2 + c


@of('BaseFitter._get_param')
def get_param(self, param_ind, qid=-1, series='0', err=False):
    table = self._params_err if err else self._params
    if qid != -1:
        return table[series][qid][param_ind]
    return [table[series][k][param_ind] for k, _ in enumerate(self._qubits)]


@of('BaseFitter._calc_data', ret=False,
    no_inline=('build_counts_dict_from_list', 'marginal_counts'))
def calc_data(self):
    from qiskit import QiskitError
    from qiskit.ignis.utils import build_counts_dict_from_list
    from qiskit.ignis.verification.tomography import marginal_counts
    circ_counts = {}
    for lbl in self._series:
        for k in range(len(self._xdata)):
            name = self._circuit_names[k] + lbl
            count_list = []
            for result in self._backend_result_list:
                try:
                    count_list.append(result.get_counts(name))
                except (QiskitError, KeyError):
                    pass
            circ_counts[name] = build_counts_dict_from_list(count_list)
    self._ydata = {}
    for lbl in self._series:
        self._ydata[lbl] = []
        for q in range(len(self._qubits)):
            self._ydata[lbl].append({'mean': [], 'std': []})
            for k in range(len(self._xdata)):
                counts = circ_counts[self._circuit_names[k] + lbl]
                shots = sum(counts.values())
                p = marginal_counts(counts, [q]).get(self._expected_state, 0)/shots
                self._ydata[lbl][-1]['mean'].append(p)
                self._ydata[lbl][-1]['std'].append(np.sqrt(p*(1 - p)/shots))
                if self._ydata[lbl][-1]['std'][-1] == 0:
                    self._ydata[lbl][-1]['std'][-1] = 1e-4


@of('BaseFitter.fit_data', ret=False)
def fit_data(self, qid=-1, p0=None, bounds=None, series=None):
    if series is None:
        series = self._series.copy()
    if not isinstance(series, list):
        series = [series]
    qubits = range(len(self._qubits)) if qid == -1 else [qid]
    bounds = self._default_bounds if bounds is None else bounds
    p0 = self._defaultp0 if p0 is None else p0
    for lbl in series:
        for q in qubits:
            params, cov = curve_fit(self._fit_fun, self._xdata, self._ydata[lbl][q]['mean'],
                                    sigma=self._ydata[lbl][q]['std'], p0=p0, bounds=bounds)
            self._params[lbl][q] = params.copy()
            self._params_err[lbl][q] = np.sqrt(np.diag(cov))


NOFIT = 0


@of('BaseFitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def base_init(self, description, backend_result, xdata, qubits, fit_fun, fit_p0, fit_bounds,
              circuit_names, series=None, expected_state='0'):
    self._series = ['0'] if series is None else series
    self._circuit_names = circuit_names
    self._expected_state = expected_state
    self._qubits = qubits
    self._defaultp0 = fit_p0
    if fit_bounds is None:
        fit_bounds = ([-np.inf for _ in range(len(fit_p0))], [np.inf for _ in range(len(fit_p0))])
    self._default_bounds = fit_bounds
    self._xdata = xdata
    self._fit_fun = fit_fun
    self._params = {s: [[] for _ in range(len(qubits))] for s in self._series}
    self._params_err = {s: [[] for _ in range(len(qubits))] for s in self._series}


BASE = ('BaseFitter.__init__',)


@of('T1Fitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def t1_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds, time_unit='micro-seconds'):
    self._circuit_names = ['t1circuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._expected_state = '1'
    self._time_index = 1
    self._time_unit = time_unit
    self._fit_fun = self._exp_fit_fun
    self._qubits = qubits
    self._xdata = xdata


@of('T2Fitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def t2_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds, circbasename='t2',
            time_unit='micro-seconds'):
    self._circuit_names = [circbasename + 'circuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._expected_state = '0'
    self._time_index = 1
    self._time_unit = time_unit
    self._fit_fun = self._exp_fit_fun
    self._qubits = qubits
    self._xdata = xdata


@of('T2StarFitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def t2star_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds,
                time_unit='micro-seconds'):
    self._circuit_names = ['t2starcircuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._expected_state = '0'
    self._time_index = 1
    self._time_unit = time_unit
    self._fit_fun = self._osc_fit_fun
    self._qubits = qubits
    self._xdata = xdata


@of('ZZFitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def zz_init(self, backend_result, xdata, qubits, spectators, fit_p0, fit_bounds,
            time_unit='micro-seconds'):
    self._circuit_names = ['zzcircuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0', '1']
    self._expected_state = '0'
    self._time_index = 1
    self._fit_fun = self._osc_nodecay_fit_fun
    self._spectators = spectators
    self._qubits = qubits
    self._xdata = xdata


@of('AmpCalFitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def amp_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds):
    self._circuit_names = ['ampcal1Qcircuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._expected_state = '1'
    self._fit_fun = self._amp_cal_fit
    self._qubits = qubits
    self._xdata = xdata


@of('AngleCalFitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def angle_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds):
    self._circuit_names = ['anglecal1Qcircuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._expected_state = '1'
    self._fit_fun = self._angle_cal_fit
    self._qubits = qubits
    self._xdata = xdata


@of('AmpCalCXFitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def ampcx_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds):
    self._circuit_names = ['ampcalcxcircuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._expected_state = '1'
    self._fit_fun = self._amp_calcx_fit
    self._qubits = qubits
    self._xdata = xdata


@of('AngleCalCXFitter.__init__', ret=False, no_inline=('BaseFitter._calc_data', 'BaseFitter.fit_data'))
def anglecx_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds):
    self._circuit_names = ['anglecalcxcircuit_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._expected_state = '1'
    self._fit_fun = self._angle_calcx_fit
    self._qubits = qubits
    self._xdata = xdata


@of('RabiFitter.__init__', ret=False, no_inline=('IQFitter._calc_data', 'BaseFitter.fit_data'))
def rabi_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds=None):
    self._circuit_names = ['rabisched_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._fit_fun = self._osc_nodecay_fit_fun
    self._qubits = qubits
    self._xdata = xdata


@of('DragFitter.__init__', ret=False, no_inline=('IQFitter._calc_data', 'BaseFitter.fit_data'))
def drag_init(self, backend_result, xdata, qubits, fit_p0, fit_bounds=None):
    self._circuit_names = ['dragsched_%d_' % k for k in range(len(xdata))]
    self._series = ['0']
    self._fit_fun = self._quadratic
    self._qubits = qubits
    self._xdata = xdata


@of('AmpCalFitter._amp_cal_fit')
def amp_cal_fit(x, thetaerr, c):
    return c - np.cos((np.pi/2 + thetaerr)*x + np.pi/2 + thetaerr)/2


@of('AngleCalFitter._angle_cal_fit')
def angle_cal_fit(x, thetaerr, c):
    return c - np.cos((np.pi/2 + thetaerr)*x + np.pi/2 + thetaerr)/2


@of('AmpCalCXFitter._amp_calcx_fit')
def amp_calcx_fit(x, thetaerr, c):
    return c - np.cos((np.pi + thetaerr)*x + np.pi/2)/2


@of('AngleCalCXFitter._angle_calcx_fit')
def angle_calcx_fit(x, thetaerr, c):
    return c - np.cos((np.pi + thetaerr)*x + np.pi/2)/2


@of('AmpCalFitter.angle_err')
def amp_angle_err(self, qind=-1):
    return np.array(self._get_param(0, qind, '0', False))/2


@of('AngleCalFitter.angle_err')
def angle_angle_err(self, qind=-1):
    return np.array(self._get_param(0, qind, '0', False))/2


@of('AmpCalCXFitter.angle_err')
def ampcx_angle_err(self, qind=-1):
    return np.array(self._get_param(0, qind, '0', False))/2


@of('AngleCalCXFitter.angle_err')
def anglecx_angle_err(self, qind=-1):
    return np.array(self._get_param(0, qind, '0', False))/2


@of('ZZFitter.ZZ_rate')
def zz_rate(self, qind=-1):
    """Frequency with the spectator excited minus the frequency with it in the ground state."""
    return np.array(self._get_param(1, qind, '1', False)) - \
        np.array(self._get_param(1, qind, '0', False))


@of('BaseCoherenceFitter.time')
def time(self, qid=-1, series='0'):
    return self._get_param(self._time_index, qid, series, False)


@of('BaseCoherenceFitter.time_err')
def time_err(self, qid=-1, series='0'):
    return self._get_param(self._time_index, qid, series, True)


@of('RabiFitter.pi_amplitude')
def pi_amplitude(self, qind=-1):
    """Half a Rabi period."""
    amps = 1/np.array(self._get_param(1, -1))/2
    if qind == -1:
        return amps
    return amps[qind]


@of('RabiFitter.pi2_amplitude')
def pi2_amplitude(self, qind=-1):
    amps = 1/np.array(self._get_param(1, -1))/2
    return (amps if qind == -1 else amps[qind])/2


@of('DragFitter.drag_amplitude')
def drag_amplitude(self, qind=-1):
    return self._get_param(1, qind, '0', False)


@of('T2StarFitter.guess_params')
def t2star_guess(self, qind=0):
    y = self.ydata['0'][qind]['mean']
    fft = np.fft.fft(y)
    freqs = np.fft.fftfreq(len(self.xdata), self.xdata[1] - self.xdata[0])
    k = np.argmax(np.abs(fft)[1:])
    return [np.max(y), self.xdata[-1]*10, freqs[1:][k], np.angle(fft[1:][k]), np.mean(y)]


@of('AmpCalFitter.guess_params')
def amp_guess(self, qind=0):
    y = self.ydata['0'][qind]['mean']
    return [(y[0] - y[1])/2, y[0]]


@of('RabiFitter.guess_params')
def rabi_guess(self, qind=0):
    y = self.ydata['0'][qind]['mean']
    fft = np.fft.fft(y)
    freqs = np.fft.fftfreq(len(self.xdata), self.xdata[1] - self.xdata[0])
    k = np.argmax(np.abs(fft))
    return [np.max(y), freqs[k], np.angle(fft[k]), np.mean(y)]


@of('DragFitter.guess_params')
def drag_guess(self, qind=0):
    y = self.ydata['0'][qind]['mean']
    span = np.max(y) - np.min(y)
    hi, lo = np.argmax(y), np.argmin(y)
    if np.abs(self.xdata[hi]) < np.abs(self.xdata[lo]):
        return [-span/np.max(self.xdata)**2, self.xdata[hi], y[hi]]
    return [span/np.max(self.xdata)**2, self.xdata[lo], y[lo]]


@of('IQFitter._build_iq_list')
def build_iq_list(self):
    from qiskit import QiskitError
    iq_list = {}
    iq_list_mean = {}
    iq_list_var = {}
    shots_list = {}
    meas_ret = ''
    for single_result in self._backend_result_list:
        for result in single_result.results:
            sname = result.header.name
            mem_slots = result.header.memory_slots
            if meas_ret == '':
                meas_ret = 'avg' if result.meas_return == 'avg' else 'single'
            if result.meas_level != 1:
                raise QiskitError('IQ data')
            if meas_ret != result.meas_return:
                raise QiskitError('All data must be single shot or averaged')
            shots_list[sname] = result.shots + shots_list.get(sname, 0)
            if meas_ret == 'avg':
                iq_list[sname] = result.shots*single_result.get_memory(sname) + \
                    iq_list.get(sname, np.zeros(mem_slots))
            else:
                iq_list[sname] = result.shots*single_result.get_memory(sname) + \
                    iq_list.get(sname, np.zeros([result.shots, mem_slots]))
    for sname in iq_list:
        if meas_ret == 'avg':
            iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
            iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
        else:
            iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
            iq_list_var[sname] = np.std(iq_list[sname])
    return (iq_list_mean, iq_list_var)


@of('IQFitter._calc_data', ret=False, no_inline=('IQFitter._build_iq_list',))
def iq_calc_data(self):
    iq_list_mean, iq_list_var = self._build_iq_list()
    self._ydata = {}
    for serieslbl in self._series:
        self._ydata[serieslbl] = []
        for qind in range(len(self._qubits)):
            self._ydata[serieslbl].append({'mean': [], 'std': []})
            mean_list = self._ydata[serieslbl][-1]['mean']
            var_list = self._ydata[serieslbl][-1]['std']
            for circ in range(len(self._xdata)):
                name = self._circuit_names[circ] + serieslbl
                mean_list.append(iq_list_mean[name][qind])
                var_list.append(iq_list_var[name][qind])
                if var_list[-1] == 0:
                    var_list[-1] = 1e-4
            center = np.mean(mean_list)
            mean_list -= center
            re = np.mean(np.abs(np.real(mean_list)))
            im = np.mean(np.abs(np.imag(mean_list)))
            c = re/(re**2 + im**2)**0.5
            s = im/(re**2 + im**2)**0.5
            mean_list = c*np.real(mean_list) + s*np.imag(mean_list)
            self._ydata[serieslbl][-1]['mean'] = mean_list
