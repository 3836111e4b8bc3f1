from typing import Union, List, Callable, Optional, Tuple, Dict, Any
from scipy.optimize import curve_fit
import numpy as np
from qiskit import QiskitError
from qiskit.result import Result
from ..verification.tomography import marginal_counts
from ..utils import build_counts_dict_from_list
try:
    from matplotlib import pyplot as plt
    HAS_MATPLOTLIB = True
except ImportError:
    HAS_MATPLOTLIB = False

class BaseFitter:

    def __init__(self, description: str, backend_result: Union[Result, List[Result]], xdata: Union[List[float], np.array], qubits: List[int], fit_fun: Callable[..., float], fit_p0: List[float], fit_bounds: Tuple[List[float], List[float]], circuit_names: List[str], series: Optional[List[str]]=None, expected_state: str='0'):
        if fit_bounds is None:
            fit_bounds = ([-np.inf for e in range(len(fit_p0))], [np.inf for e in range(len(fit_p0))])
        if series is None:
            self._series = ['0']
        else:
            self._series = series
        self._circuit_names = circuit_names
        self._backend_result_list = []
        autofit = False
        if backend_result is not None:
            autofit = True
            if isinstance(backend_result, list):
                for result in backend_result:
                    self._backend_result_list.append(result)
            else:
                self._backend_result_list.append(backend_result)
        self._description = description
        self._expected_state = expected_state
        self._qubits = qubits
        self._defaultp0 = fit_p0
        self._default_bounds = fit_bounds
        self._xdata = xdata
        self._fit_fun = fit_fun
        self._params = {i: [[] for j in range(len(self._qubits))] for i in self._series}
        self._params_err = {i: [[] for j in range(len(self._qubits))] for i in self._series}
        if autofit:
            self._calc_data()
            self.fit_data()

    @property
    def description(self) -> str:
        return self._description

    @property
    def backend_result(self) -> Union[Result, List[Result]]:
        return self._backend_result_list

    @property
    def series(self) -> Optional[List[str]]:
        return self._series

    @property
    def measured_qubits(self) -> List[int]:
        return self._qubits

    @property
    def xdata(self) -> Union[List[float], np.array]:
        return self._xdata

    @property
    def ydata(self) -> List[Dict]:
        return self._ydata

    @property
    def fit_fun(self) -> Callable:
        return self._fit_fun

    @property
    def params(self) -> List[float]:
        return self._params

    @property
    def params_err(self) -> List[float]:
        return self._params_err

    def _get_param(self, param_ind: int, qid: int=-1, series: str='0', err: bool=False) -> Union[float, List[float]]:
        if qid != -1:
            if err:
                return self._params_err[series][qid][param_ind]
            return self._params[series][qid][param_ind]
        param_list = []
        for qind, _ in enumerate(self._qubits):
            if err:
                param_list.append(self._params_err[series][qind][param_ind])
            else:
                param_list.append(self._params[series][qind][param_ind])
        return param_list

    def add_data(self, results: Union[Result, List[Result]], recalc: bool=True, refit: bool=True):
        if isinstance(results, list):
            for result in results:
                self._backend_result_list.append(result)
        else:
            self._backend_result_list.append(results)
        if recalc:
            self._calc_data()
        if refit:
            self.fit_data()

    def _calc_data(self):
        circ_counts = {}
        for _, serieslbl in enumerate(self._series):
            for circ, _ in enumerate(self._xdata):
                circname = self._circuit_names[circ] + serieslbl
                count_list = []
                for result in self._backend_result_list:
                    try:
                        count_list.append(result.get_counts(circname))
                    except (QiskitError, KeyError):
                        pass
                circ_counts[circname] = build_counts_dict_from_list(count_list)
        self._ydata = {}
        for _, serieslbl in enumerate(self._series):
            self._ydata[serieslbl] = []
            for qind, _ in enumerate(self._qubits):
                self._ydata[serieslbl].append({'mean': [], 'std': []})
                for circ, _ in enumerate(self._xdata):
                    circname = self._circuit_names[circ] + serieslbl
                    shots = sum(circ_counts[circname].values())
                    counts_subspace = marginal_counts(circ_counts[circname], [qind])
                    success_prob = counts_subspace.get(self._expected_state, 0) / shots
                    self._ydata[serieslbl][-1]['mean'].append(success_prob)
                    self._ydata[serieslbl][-1]['std'].append(np.sqrt(success_prob * (1 - success_prob) / shots))
                    if self._ydata[serieslbl][-1]['std'][-1] == 0:
                        self._ydata[serieslbl][-1]['std'][-1] = 0.0001

    def fit_data(self, qid: int=-1, p0: Optional[List[float]]=None, bounds: Optional[Tuple[List[float], List[float]]]=None, series: Optional[str]=None):
        if series is None:
            series = self._series.copy()
        if not isinstance(series, list):
            series = [series]
        if qid == -1:
            qfit = range(len(self._qubits))
        else:
            qfit = [qid]
        if bounds is None:
            bounds = self._default_bounds
        if p0 is None:
            p0 = self._defaultp0
        for _, serieslbl in enumerate(series):
            for qind in qfit:
                tmp_params, fcov = curve_fit(self._fit_fun, self._xdata, self._ydata[serieslbl][qind]['mean'], sigma=self._ydata[serieslbl][qind]['std'], p0=p0, bounds=bounds)
                self._params[serieslbl][qind] = tmp_params.copy()
                self._params_err[serieslbl][qind] = np.sqrt(np.diag(fcov))

    @staticmethod
    def _exp_fit_fun(x, a, tau, c):
        return a * np.exp(-x / tau) + c

    @staticmethod
    def _osc_fit_fun(x, a, tau, f, phi, c):
        return a * np.exp(-x / tau) * np.cos(2 * np.pi * f * x + phi) + c

    @staticmethod
    def _osc_nodecay_fit_fun(x, a, f, phi, c):
        return a * np.cos(2 * np.pi * f * x + phi) + c

    @staticmethod
    def _cal_fit_fun(x, a, thetaerr, phierr, theta0, phi0, c):
        return a * np.cos((theta0 + thetaerr) * x + phi0 + phierr) + c

    @staticmethod
    def _quadratic(x, a, x0, c):
        return a * (x - x0) ** 2 + c

class IQFitter(BaseFitter):

    def __init__(self, description, backend_result, xdata, qubits, fit_fun, fit_p0, fit_bounds, circuit_names, series=None):
        BaseFitter.__init__(self, description, backend_result, xdata, qubits, fit_fun, fit_p0, fit_bounds, circuit_names, series)

    def _build_iq_list(self):
        iq_list = {}
        iq_list_mean = {}
        iq_list_var = {}
        shots_list = {}
        meas_ret = ''
        for single_result in self._backend_result_list:
            for result in single_result.results:
                sname = result.header.name
                mem_slots = result.header.memory_slots
                if meas_ret == '':
                    if result.meas_return == 'avg':
                        meas_ret = 'avg'
                    else:
                        meas_ret = 'single'
                if result.meas_level != 1:
                    raise QiskitError('This fitter works with IQ data')
                if meas_ret != result.meas_return:
                    raise QiskitError('All data must be single shot or averaged')
                shots_list[sname] = result.shots + shots_list.get(sname, 0)
                if meas_ret == 'avg':
                    iq_list[sname] = result.shots * single_result.get_memory(sname) + iq_list.get(sname, np.zeros(mem_slots))
                else:
                    iq_list[sname] = result.shots * single_result.get_memory(sname) + iq_list.get(sname, np.zeros([result.shots, mem_slots]))
        for sname in iq_list:
            if meas_ret == 'avg':
                iq_list_mean[sname] = iq_list[sname] / shots_list[sname]
                iq_list_var[sname] = np.ones(len(iq_list_mean[sname])) * 0.0001
            else:
                iq_list_mean[sname] = np.sum(iq_list[sname]) / shots_list[sname]
                iq_list_var[sname] = np.std(iq_list[sname])
        return (iq_list_mean, iq_list_var)

    def _calc_data(self):
        iq_list_mean, iq_list_var = self._build_iq_list()
        self._ydata = {}
        for _, serieslbl in enumerate(self._series):
            self._ydata[serieslbl] = []
            for qind, _ in enumerate(self._qubits):
                self._ydata[serieslbl].append({'mean': [], 'std': []})
                mean_list = self._ydata[serieslbl][-1]['mean']
                var_list = self._ydata[serieslbl][-1]['std']
                for circ, _ in enumerate(self._xdata):
                    circname = self._circuit_names[circ] + serieslbl
                    mean_list.append(iq_list_mean[circname][qind])
                    var_list.append(iq_list_var[circname][qind])
                    if var_list[-1] == 0:
                        var_list[-1] = 0.0001
                q_exp_mean = np.mean(mean_list)
                mean_list -= q_exp_mean
                real_ext = np.mean(np.abs(np.real(mean_list)))
                imag_ext = np.mean(np.abs(np.imag(mean_list)))
                crot = real_ext / (real_ext ** 2 + imag_ext ** 2) ** 0.5
                srot = imag_ext / (real_ext ** 2 + imag_ext ** 2) ** 0.5
                mean_list = crot * np.real(mean_list) + srot * np.imag(mean_list)
                self._ydata[serieslbl][-1]['mean'] = mean_list

    def plot(self, qind, series='0', ax=None, show_plot=True):
        if not HAS_MATPLOTLIB:
            raise ImportError("matplotlib must be installed and properly configured to use this method. To install you can run: 'pip install matplotlib'")
        if ax is None:
            plt.figure()
            ax = plt.gca()
        ax.errorbar(self._xdata, self._ydata[series][qind]['mean'], self._ydata[series][qind]['std'], marker='.', markersize=9, c='b', linestyle='')
        ax.plot(self._xdata, self._fit_fun(self._xdata, *self._params[series][qind]), c='r', linestyle='--', label='Q%d' % self._qubits[qind])
        ax.tick_params(axis='x', labelsize=14, labelrotation=70)
        ax.tick_params(axis='y', labelsize=14)
        ax.set_xlabel('X', fontsize=16)
        ax.set_ylabel('IQ Signal', fontsize=16)
        ax.set_title(self._description + ' for qubit ' + str(self._qubits[qind]), fontsize=18)
        ax.legend(fontsize=12)
        ax.grid(True)
        if show_plot:
            plt.show()
        return ax

class BaseCoherenceFitter(BaseFitter):

    def __init__(self, description: str, backend_result: Union[Result, List[Result]], xdata: Union[List[float], np.array], qubits: List[int], fit_fun: Callable[..., float], fit_p0: List[float], fit_bounds: Tuple[List[float], List[float]], circuit_names: List[str], series: Optional[List[str]]=None, expected_state: str='0', time_index: int=0, time_unit: str='micro-seconds'):
        BaseFitter.__init__(self, description, backend_result, xdata, qubits, fit_fun, fit_p0, fit_bounds, circuit_names, series, expected_state)
        self._time_index = time_index
        self._time_unit = time_unit

    def time(self, qid: int=-1, series: str='0') -> Union[float, List[float]]:
        return self._get_param(self._time_index, qid, series)

    def time_err(self, qid: int=-1, series: str='0') -> Union[float, List[float]]:
        return self._get_param(self._time_index, qid, series, err=True)

    def plot(self, qind: int, series: str, ax: Optional[Any]=None, show_plot: bool=True) -> Any:
        if not HAS_MATPLOTLIB:
            raise ImportError("matplotlib must be installed and properly configured to use this method. To install you can run: 'pip install matplotlib'")
        if ax is None:
            plt.figure()
            ax = plt.gca()
        ax.errorbar(self._xdata, self._ydata[series][qind]['mean'], self._ydata[series][qind]['std'], marker='.', markersize=9, c='b', linestyle='')
        ax.plot(self._xdata, self._fit_fun(self._xdata, *self._params[series][qind]), c='r', linestyle='--', label=self._description + ': ' + str(np.around(self.time(qid=qind), 1)) + ' ' + self._time_unit)
        ax.tick_params(axis='x', labelsize=14, labelrotation=70)
        ax.tick_params(axis='y', labelsize=14)
        ax.set_xlabel('Time [' + self._time_unit + ']', fontsize=16)
        ax.set_ylabel('Probability of success', fontsize=16)
        ax.set_title(self._description + ' for qubit ' + str(self._qubits[qind]), fontsize=18)
        ax.legend(fontsize=12)
        ax.grid(True)
        if show_plot:
            plt.show()
        return ax

class BaseGateFitter(BaseFitter):

    def __init__(self, description, backend_result, xdata, qubits, fit_fun, fit_p0, fit_bounds, circuit_names, series=None, expected_state='0'):
        BaseFitter.__init__(self, description, backend_result, xdata, qubits, fit_fun, fit_p0, fit_bounds, circuit_names, series, expected_state)

    def plot(self, qind, series='0', ax=None, show_plot=True):
        if not HAS_MATPLOTLIB:
            raise ImportError("matplotlib must be installed and properly configured to use this method. To install you can run: 'pip install matplotlib'")
        if ax is None:
            plt.figure()
            ax = plt.gca()
        ax.errorbar(self._xdata, self._ydata[series][qind]['mean'], self._ydata[series][qind]['std'], marker='.', markersize=9, c='b', linestyle='')
        ax.plot(self._xdata, self._fit_fun(self._xdata, *self._params[series][qind]), c='r', linestyle='--', label='Q%d' % self._qubits[qind])
        ax.tick_params(axis='x', labelsize=14, labelrotation=70)
        ax.tick_params(axis='y', labelsize=14)
        ax.set_xlabel('Number of Gate Repetitions', fontsize=16)
        ax.set_ylabel('Excited state population', fontsize=16)
        ax.set_title(self._description + ' for qubit ' + str(self._qubits[qind]), fontsize=18)
        ax.legend(fontsize=12)
        ax.grid(True)
        if show_plot:
            plt.show()
        return ax
