from typing import Union, List, Tuple
import numpy as np
import qiskit
from ..fitters import BaseCoherenceFitter

class T1Fitter(BaseCoherenceFitter):

    def __init__(self, backend_result: qiskit.result.Result, xdata: Union[List[float], np.array], qubits: List[int], fit_p0: List[float], fit_bounds: Tuple[List[float], List[float]], time_unit: str='micro-seconds'):
        circuit_names = []
        for cind, _ in enumerate(xdata):
            circuit_names.append('t1circuit_%d_' % cind)
        BaseCoherenceFitter.__init__(self, '$T_1$', backend_result, xdata, qubits, self._exp_fit_fun, fit_p0, fit_bounds, circuit_names, expected_state='1', time_index=1, time_unit=time_unit)

    def plot(self, qind, series='0', ax=None, show_plot=False):
        ax = BaseCoherenceFitter.plot(self, qind, series, ax, show_plot)
        ax.set_ylabel('Excited State Population')
        return ax

class T2Fitter(BaseCoherenceFitter):

    def __init__(self, backend_result: qiskit.result.Result, xdata: Union[List[float], np.array], qubits: List[int], fit_p0: List[float], fit_bounds: Tuple[List[float], List[float]], circbasename: str='t2', time_unit: str='micro-seconds'):
        circuit_names = []
        for cind, _ in enumerate(xdata):
            circuit_names.append('%scircuit_%d_' % (circbasename, cind))
        BaseCoherenceFitter.__init__(self, '$T_2$', backend_result, xdata, qubits, self._exp_fit_fun, fit_p0, fit_bounds, circuit_names, expected_state='0', time_index=1, time_unit=time_unit)

    def plot(self, qind, series='0', ax=None, show_plot=False):
        ax = BaseCoherenceFitter.plot(self, qind, series, ax, show_plot)
        ax.set_ylabel('Ground State Population')
        return ax

class T2StarFitter(BaseCoherenceFitter):

    def __init__(self, backend_result: qiskit.result.Result, xdata: Union[List[float], np.array], qubits: List[int], fit_p0: List[float], fit_bounds: Tuple[List[float], List[float]], time_unit: str='micro-seconds'):
        circuit_names = []
        for cind, _ in enumerate(xdata):
            circuit_names.append('t2starcircuit_%d_' % cind)
        BaseCoherenceFitter.__init__(self, '$T_2^*$', backend_result, xdata, qubits, self._osc_fit_fun, fit_p0, fit_bounds, circuit_names, expected_state='0', time_index=1, time_unit=time_unit)

    def guess_params(self, qind: int=0) -> List[float]:
        a_val = np.max(self.ydata['0'][qind]['mean'])
        c = np.mean(self.ydata['0'][qind]['mean'])
        fft_data = np.fft.fft(self.ydata['0'][qind]['mean'])
        fft_freqs = np.fft.fftfreq(len(self.xdata), self.xdata[1] - self.xdata[0])
        main_freq = np.argmax(np.abs(fft_data)[1:])
        f_guess = fft_freqs[1:][main_freq]
        return [a_val, self.xdata[-1] * 10, f_guess, np.angle(fft_data[1:][main_freq]), c]

    def plot(self, qind, series='0', ax=None, show_plot=False):
        ax = BaseCoherenceFitter.plot(self, qind, series, ax, show_plot)
        ax.set_ylabel('Ground State Population')
        return ax
