from abc import abstractmethod
from typing import Union, List
import numpy as np
from sklearn.discriminant_analysis import LinearDiscriminantAnalysis
from sklearn.discriminant_analysis import QuadraticDiscriminantAnalysis
from qiskit.exceptions import QiskitError
from qiskit.ignis.measurement.discriminator.discriminators import BaseDiscriminationFitter
from qiskit.pulse import PulseError
from qiskit.result import Result
from qiskit.pulse.schedule import Schedule
try:
    from matplotlib import pyplot as plt
    HAS_MATPLOTLIB = True
except ImportError:
    HAS_MATPLOTLIB = False

class IQDiscriminationFitter(BaseDiscriminationFitter):

    def __init__(self, cal_results: Union[Result, List[Result]], qubit_mask: List[int], expected_states: List[str]=None, standardize: bool=False, schedules: Union[List[str], List[Schedule]]=None):
        BaseDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)

    def get_xdata(self, results: Union[Result, List[Result]], schedule_type_to_get: int, schedules: Union[List[str], List[Schedule]]=None) -> List[List[float]]:
        xdata = []
        if schedules is None:
            schedules = self._get_schedules(results, schedule_type_to_get)
        for schedule in schedules:
            iq_data = None
            if isinstance(results, list):
                for result in results:
                    try:
                        iq_data = result.get_memory(schedule)
                        break
                    except QiskitError:
                        pass
            else:
                iq_data = results.get_memory(schedule)
            if iq_data is None:
                raise PulseError('Could not find IQ data for %s' % schedule)
            xdata.extend(self.format_iq_data(iq_data))
        return self._scale_data(xdata)

    def get_ydata(self, results: Union[Result, List[Result]], schedule_type_to_get: int, schedules: Union[List[str], List[Schedule]]=None):
        ydata = []
        if schedules is None:
            schedules = self._get_schedules(results, schedule_type_to_get)
        for schedule in schedules:
            if isinstance(schedule, Schedule):
                shed_name = schedule.name
            else:
                shed_name = schedule
            if isinstance(results, Result):
                results = [results]
            for result in results:
                try:
                    iq_data = result.get_memory(schedule)
                    n_shots = iq_data.shape[0]
                    ydata.extend([self._expected_state[shed_name]] * n_shots)
                    break
                except QiskitError:
                    pass
        return ydata

    def format_iq_data(self, iq_data: np.ndarray) -> List[List[float]]:
        xdata = []
        if len(iq_data.shape) == 2:
            for shot in iq_data[:, self._qubit_mask]:
                shot_i = list(np.real(shot))
                shot_q = list(np.imag(shot))
                xdata.append(shot_i + shot_q)
        elif len(iq_data.shape) == 1:
            avg_i = list(np.real(iq_data[self._qubit_mask]))
            avg_q = list(np.imag(iq_data[self._qubit_mask]))
            xdata.append(avg_i + avg_q)
        else:
            raise PulseError('Unknown measurement return type.')
        return xdata

    def plot(self, axs=None, show_boundary: bool=False, show_fitting_data: bool=True, flag_misclassified: bool=False, qubits_to_plot: list=None, title: bool=True):
        if not HAS_MATPLOTLIB:
            raise QiskitError('please install matplotlib')
        if qubits_to_plot is None:
            qubits_to_plot = self._qubit_mask
        else:
            for q in qubits_to_plot:
                if q not in self._qubit_mask:
                    raise QiskitError('Qubit %i is not in discriminators qubit mask' % q)
        if axs is None:
            fig, axs = plt.subplots(len(qubits_to_plot), 1)
        else:
            fig = None
        if not isinstance(axs, np.ndarray):
            axs = np.asarray(axs)
        axs = axs.flatten()
        if len(axs) < len(qubits_to_plot):
            raise QiskitError('Not enough axis instances supplied. Please provide one per qubit discriminated.')
        if show_boundary and len(self._qubit_mask) != 1:
            raise QiskitError('Background can only be plotted for individual qubit discriminators. Qubit mask has length %i != 1' % len(self._qubit_mask))
        x_data = np.array(self._xdata)
        y_data = np.array(self._ydata)
        if show_boundary and len(self._qubit_mask) == 1:
            try:
                xx, yy = self._get_iq_grid(x_data)
                zz = self.discriminate(np.c_[xx.ravel(), yy.ravel()])
                zz = np.array(zz).astype(float).reshape(xx.shape)
                axs[0].contourf(xx, yy, zz, alpha=0.2)
            except ValueError:
                raise QiskitError('Cannot convert expected state labels to float.')
        n_qubits = len(self._qubit_mask)
        if show_fitting_data:
            for idx, q in enumerate(qubits_to_plot):
                q_idx = self._qubit_mask.index(q)
                ax = axs[idx]
                data = {}
                for _, exp_state in self.expected_states.items():
                    if exp_state not in data:
                        data[exp_state] = {'I': [], 'Q': []}
                    dat = x_data[y_data == exp_state]
                    data[exp_state]['I'].extend(dat[:, q_idx])
                    data[exp_state]['Q'].extend(dat[:, n_qubits + q_idx])
                for exp_state in data:
                    ax.scatter(data[exp_state]['I'], data[exp_state]['Q'], label=exp_state, alpha=0.5)
                    if flag_misclassified:
                        y_disc = np.array(self.discriminate(self._xdata))
                        misclassified = x_data[y_disc != y_data]
                        ax.scatter(misclassified[:, q_idx], misclassified[:, n_qubits + q_idx], color='r', alpha=0.5, marker='x')
                ax.legend(frameon=True)
        if title:
            for idx, q in enumerate(qubits_to_plot):
                axs[idx].set_title('Qubit %i' % q)
        for ax in axs:
            ax.set_xlabel('I (arb. units)')
            ax.set_ylabel('Q (arb. units)')
        return (axs, fig)

    @staticmethod
    def _get_iq_grid(x_data: np.array) -> (np.meshgrid, np.meshgrid):
        max_i = np.max(x_data[:, 0])
        min_i = np.min(x_data[:, 0])
        max_q = np.max(x_data[:, 1])
        min_q = np.min(x_data[:, 1])
        spacing = (max_i - min_i) / 100.0
        xx, yy = np.meshgrid(np.arange(min_i - 10 * spacing, max_i + 10 * spacing, spacing), np.arange(min_q - 10 * spacing, max_q + 10 * spacing, spacing))
        return (xx, yy)

    def plot_xdata(self, axs, results: Union[Result, List[Result]], color: str=None):
        if not isinstance(axs, np.ndarray):
            axs = np.asarray(axs)
        axs = axs.flatten()
        if color is None:
            color = 'C2'
        n_qubits = len(self._qubit_mask)
        if len(axs) < n_qubits:
            raise QiskitError('Not enough axis instances supplied. Please provide one per qubit discriminated.')
        x_data = self.get_xdata(results, 1)
        data = np.array(x_data)
        for idx in range(n_qubits):
            axs[idx].scatter(data[:, idx], data[:, n_qubits + idx], alpha=0.5, color=color)

    @abstractmethod
    def fit(self):
        pass

    @abstractmethod
    def discriminate(self, x_data: List[List[float]]) -> List[str]:
        pass

class LinearIQDiscriminator(IQDiscriminationFitter):

    def __init__(self, cal_results: Union[Result, List[Result]], qubit_mask: List[int], expected_states: List[str]=None, standardize: bool=False, schedules: Union[List[str], List[Schedule]]=None, discriminator_parameters: dict=None):
        if not discriminator_parameters:
            discriminator_parameters = {}
        solver = discriminator_parameters.get('solver', 'svd')
        shrink = discriminator_parameters.get('shrinkage', None)
        store_cov = discriminator_parameters.get('store_covariance', False)
        tol = discriminator_parameters.get('tol', 0.0001)
        self._lda = LinearDiscriminantAnalysis(solver=solver, shrinkage=shrink, store_covariance=store_cov, tol=tol)
        IQDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)
        self._description = 'Linear IQ discriminator for measurement level 1.'
        self.fit()

    def fit(self):
        if len(self._xdata) == 0:
            return
        self._lda.fit(self._xdata, self._ydata)
        self._fitted = True

    def discriminate(self, x_data: List[List[float]]) -> List[str]:
        return self._lda.predict(x_data)

class QuadraticIQDiscriminator(IQDiscriminationFitter):

    def __init__(self, cal_results: Union[Result, List[Result]], qubit_mask: List[int], expected_states: List[str]=None, standardize: bool=False, schedules: Union[List[str], List[Schedule]]=None, discriminator_parameters: dict=None):
        if not discriminator_parameters:
            discriminator_parameters = {}
        store_cov = discriminator_parameters.get('store_covariance', False)
        tol = discriminator_parameters.get('tol', 0.0001)
        self._qda = QuadraticDiscriminantAnalysis(store_covariance=store_cov, tol=tol)
        IQDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)
        self._description = 'Quadratic IQ discriminator for measurement level 1.'
        self.fit()

    def fit(self):
        if len(self._xdata) == 0:
            return
        self._qda.fit(self._xdata, self._ydata)
        self._fitted = True

    def discriminate(self, x_data: List[List[float]]) -> List[str]:
        return self._qda.predict(x_data)

class SklearnIQDiscriminator(IQDiscriminationFitter):

    def __init__(self, classifier, cal_results: Union[Result, List[Result]], qubit_mask: List[int], expected_states: List[str]=None, standardize: bool=False, schedules: Union[List[str], List[Schedule]]=None):
        self._type_check_classifier(classifier)
        self._classifier = classifier
        IQDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)
        self._description = '{} IQ discriminator for measurement level 1.'.format(classifier.__class__.__name__)
        self.fit()

    @staticmethod
    def _type_check_classifier(classifier):
        for name in ['fit', 'predict']:
            if not callable(getattr(classifier, name, None)):
                raise QiskitError('Classifier of type "{}" does not have a callable "{}" method.'.format(type(classifier).__name__, name))

    def fit(self):
        if len(self._xdata) == 0:
            return
        self._classifier.fit(self._xdata, self._ydata)
        self._fitted = True

    def discriminate(self, x_data: List[List[float]]) -> List[str]:
        return self._classifier.predict(x_data)
