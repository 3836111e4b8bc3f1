import numpy as np
from ..fitters import IQFitter

class RabiFitter(IQFitter):

    def __init__(self, backend_result, xdata, qubits, fit_p0, fit_bounds=None):
        schedule_names = []
        for cind, _ in enumerate(xdata):
            schedule_names.append('rabisched_%d_' % cind)
        IQFitter.__init__(self, '$Rabi$', backend_result, xdata, qubits, self._osc_nodecay_fit_fun, fit_p0, fit_bounds, schedule_names)

    def guess_params(self, qind=0):
        a_out = np.max(self.ydata['0'][qind]['mean'])
        c_out = np.mean(self.ydata['0'][qind]['mean'])
        fft_data = np.fft.fft(self.ydata['0'][qind]['mean'])
        fft_freqs = np.fft.fftfreq(len(self.xdata), self.xdata[1] - self.xdata[0])
        main_freq = np.argmax(np.abs(fft_data))
        f_guess = fft_freqs[main_freq]
        return [a_out, f_guess, np.angle(fft_data[main_freq]), c_out]

    def pi2_amplitude(self, qind=-1):
        return self.pi_amplitude(qind) / 2

    def pi_amplitude(self, qind=-1):
        piamp_list = self._get_param(1, -1)
        piamp_list = 1 / np.array(piamp_list) / 2.0
        if qind == -1:
            return piamp_list
        return piamp_list[qind]

    def plot(self, qind, series='0', ax=None, show_plot=False):
        ax = IQFitter.plot(self, qind, series, ax, show_plot)
        ax.set_ylabel('IQ Signal')
        ax.set_xlabel('Drive Amplitude')
        ax.axvline(self.pi_amplitude(qind), color='black', linestyle='dashed')
        return ax

class DragFitter(IQFitter):

    def __init__(self, backend_result, xdata, qubits, fit_p0, fit_bounds=None):
        schedule_names = []
        for cind, _ in enumerate(xdata):
            schedule_names.append('dragsched_%d_' % cind)
        if fit_bounds is None:
            fit_bounds = ([-np.inf for e in range(len(fit_p0))], [np.inf for e in range(len(fit_p0))])
        IQFitter.__init__(self, '$DRAG$', backend_result, xdata, qubits, self._quadratic, fit_p0, fit_bounds, schedule_names)

    def guess_params(self, qind=0):
        a = np.max(self.ydata['0'][qind]['mean']) - np.min(self.ydata['0'][qind]['mean'])
        i1 = np.argmax(self.ydata['0'][qind]['mean'])
        i2 = np.argmin(self.ydata['0'][qind]['mean'])
        if np.abs(self.xdata[i1]) < np.abs(self.xdata[i2]):
            x0 = self.xdata[i1]
            a *= -1
            c = self.ydata['0'][qind]['mean'][i1]
        else:
            x0 = self.xdata[i2]
            c = self.ydata['0'][qind]['mean'][i2]
        return [a / np.max(self.xdata) ** 2, x0, c]

    def drag_amplitude(self, qind=-1):
        return self._get_param(1, qind)

    def plot(self, qind, series='0', ax=None, show_plot=False):
        ax = IQFitter.plot(self, qind, series, ax, show_plot)
        ax.set_ylabel('IQ Signal')
        ax.set_xlabel('DRAG Amplitude')
        return ax
