"""C23: discriminators: calibration data selection, feature layout, fit and filter."""
import re
from copy import deepcopy
import numpy as np
from sklearn.discriminant_analysis import LinearDiscriminantAnalysis, QuadraticDiscriminantAnalysis
from sklearn.preprocessing import StandardScaler
from qiskit.exceptions import QiskitError
from qiskit.result import Result
from qiskit.result.models import ExperimentResultData
from qiskit.pulse import PulseError, Schedule
from qiskit.ignis.measurement.discriminator.discriminators import BaseDiscriminationFitter
from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter
from qiskit.ignis.measurement.discriminator.iq_discriminators import IQDiscriminationFitter




@of('BaseDiscriminationFitter.__init__')
def basediscriminationfitter_init(self, cal_results, qubit_mask, expected_states=None, standardize=False, schedules=None):
    self._cal_pattern = 'cal_\\d+$'
    if schedules is None:
        schedules = self._get_schedules(cal_results, 0)
    self._expected_state = {}
    if expected_states is None:
        expected_states = self._get_expected_states(schedules)
    self._add_expected_states(expected_states, schedules)
    self._description = None
    self._standardize = standardize
    self._scaler = None
    self._qubit_mask = qubit_mask
    self._schedules = list(schedules)
    self._backend_result_list = []
    self._fitted = False
    if cal_results is not None:
        if isinstance(cal_results, list):
            for result in cal_results:
                self._backend_result_list.append(result)
        else:
            self._backend_result_list.append(cal_results)
    self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
    self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)


@of('BaseDiscriminationFitter._add_ydata')
def basediscriminationfitteradd_ydata(self, schedule):
    if isinstance(schedule, Schedule):
        self._ydata.append(self._expected_state[schedule.name])
    else:
        self._ydata.append(self._expected_state[schedule])


@of('BaseDiscriminationFitter.add_data')
def basediscriminationfitter_add_data(self, result, expected_states, refit=True, schedules=None):
    if schedules is None:
        schedules = self._get_schedules(result, 0)
    self._backend_result_list.append(result)
    self._add_expected_states(expected_states, schedules)
    self._schedules.extend(schedules)
    self._xdata = list(self._xdata) + list(self.get_xdata(result, 0, schedules))
    self._ydata = list(self._ydata) + list(self.get_ydata(result, 0, schedules))
    if refit:
        self.fit()


@of('BaseDiscriminationFitter._add_expected_states')
def basediscriminationfitteradd_expected_states(self, expected_states, schedules):
    if len(expected_states) != len(schedules):
        raise QiskitError('Number of input schedules and assigned states must be equal.')
    for idx, schedule in enumerate(schedules):
        if isinstance(schedule, Schedule):
            name = schedule.name
        else:
            name = schedule
        expected_state = expected_states[idx]
        self._expected_state[name] = expected_state


@of('BaseDiscriminationFitter.is_calibration')
def basediscriminationfitter_is_calibration(self, result_name):
    return re.match(self._cal_pattern, result_name) is not None


@of('BaseDiscriminationFitter._get_schedules')
def basediscriminationfitterget_schedules(self, results, schedule_type_to_get):
    if isinstance(results, Result):
        results_list = [results]
    else:
        results_list = results
    schedules = []
    for res in results_list:
        for result in res.results:
            self._append_to_schedules(result.header.name, schedule_type_to_get, schedules)
    return schedules


@of('BaseDiscriminationFitter._append_to_schedules')
def basediscriminationfitterappend_to_schedules(self, name, schedule_type, schedules):
    if schedule_type == 0:
        if self.is_calibration(name):
            schedules.append(name)
    elif schedule_type == 1:
        if not self.is_calibration(name):
            schedules.append(name)
    elif schedule_type == 2:
        schedules.append(name)
    else:
        raise QiskitError('schedule_type must be either\n0: get only calibration schedules\n1: get only non-calibration schedules\n2: get all schedules in results.')


@of('BaseDiscriminationFitter._get_expected_states')
def basediscriminationfitterget_expected_states(schedules):
    expected_states = []
    for schedule in schedules:
        if isinstance(schedule, Schedule):
            name = schedule.name
        else:
            name = schedule
        expected_states.append(name.replace('cal_', ''))
    return expected_states


@of('BaseDiscriminationFitter.expected_states')
def basediscriminationfitter_expected_states(self):
    return self._expected_state


@of('BaseDiscriminationFitter.schedules')
def basediscriminationfitter_schedules(self):
    return self._schedules


@of('BaseDiscriminationFitter.fitted')
def basediscriminationfitter_fitted(self):
    return self._fitted


@of('BaseDiscriminationFitter._scale_data')
def basediscriminationfitterscale_data(self, xdata, refit=False):
    if not self._standardize:
        return xdata
    try:
        from sklearn.preprocessing import StandardScaler
    except ImportError:
        raise ImportError("To scale the xdata scikit-learn must be installed. This can be done with 'pip install scikit-learn'")
    if not self._scaler or refit:
        self._scaler = StandardScaler(with_std=True)
        self._scaler.fit(xdata)
    return self._scaler.transform(xdata)


@of('DiscriminationFilter.__init__')
def discriminationfilter_init(self, discriminator, base=None):
    self.discriminator = discriminator
    if base:
        self.base = base
    else:
        self.base = DiscriminationFilter.get_base(discriminator.expected_states)


@of('DiscriminationFilter.apply')
def discriminationfilter_apply(self, raw_data):
    new_results = deepcopy(raw_data)
    to_be_discriminated = []
    shots_per_experiment_result = []
    for result in new_results.results:
        if result.meas_level == 1:
            shots_per_experiment_result.append(result.shots)
            to_be_discriminated.append(result)
    new_results.results = to_be_discriminated
    x_data = self.discriminator.get_xdata(new_results, 2)
    y_data = self.discriminator.discriminate(x_data)
    start = 0
    for idx, n_shots in enumerate(shots_per_experiment_result):
        memory = y_data[start:start + n_shots]
        counts = self.count(memory)
        new_results.results[idx].data = ExperimentResultData(counts=counts, memory=memory)
        start += n_shots
    for result in new_results.results:
        result.meas_level = 2
    return new_results


@of('DiscriminationFilter.get_base')
def discriminationfilter_get_base(expected_states):
    base = 0
    for key in expected_states:
        for char in expected_states[key]:
            try:
                value = int(char)
            except ValueError:
                raise QiskitError('Cannot parse character in ' + expected_states[key])
            base = base if base > value else value
    return base + 1


@of('DiscriminationFilter.count')
def discriminationfilter_count(self, y_data):
    raw_counts = {}
    for cnt in y_data:
        cnt_hex = hex(int(cnt, self.base))
        if cnt_hex in raw_counts:
            raw_counts[cnt_hex] += 1
        else:
            raw_counts[cnt_hex] = 1
    return raw_counts


@of('IQDiscriminationFitter.__init__')
def iqdiscriminationfitter_init(self, cal_results, qubit_mask, expected_states=None, standardize=False, schedules=None):
    BaseDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)


@of('IQDiscriminationFitter.get_xdata')
def iqdiscriminationfitter_get_xdata(self, results, schedule_type_to_get, schedules=None):
    xdata = []
    if schedules is None:
        schedules = self._get_schedules(results, schedule_type_to_get)
    for schedule in schedules:
        iq_data = None
        if isinstance(results, list):
            for result in results:
                try:
                    iq_data = result.get_memory(schedule)
                    break
                except QiskitError:
                    pass
        else:
            iq_data = results.get_memory(schedule)
        if iq_data is None:
            raise PulseError('Could not find IQ data for %s' % schedule)
        xdata.extend(self.format_iq_data(iq_data))
    return self._scale_data(xdata)


@of('IQDiscriminationFitter.get_ydata')
def iqdiscriminationfitter_get_ydata(self, results, schedule_type_to_get, schedules=None):
    ydata = []
    if schedules is None:
        schedules = self._get_schedules(results, schedule_type_to_get)
    for schedule in schedules:
        if isinstance(schedule, Schedule):
            shed_name = schedule.name
        else:
            shed_name = schedule
        if isinstance(results, Result):
            results = [results]
        for result in results:
            try:
                iq_data = result.get_memory(schedule)
                n_shots = iq_data.shape[0]
                ydata.extend([self._expected_state[shed_name]] * n_shots)
                break
            except QiskitError:
                pass
    return ydata


@of('IQDiscriminationFitter.format_iq_data')
def iqdiscriminationfitter_format_iq_data(self, iq_data):
    xdata = []
    if len(iq_data.shape) == 2:
        for shot in iq_data[:, self._qubit_mask]:
            shot_i = list(np.real(shot))
            shot_q = list(np.imag(shot))
            xdata.append(shot_i + shot_q)
    elif len(iq_data.shape) == 1:
        avg_i = list(np.real(iq_data[self._qubit_mask]))
        avg_q = list(np.imag(iq_data[self._qubit_mask]))
        xdata.append(avg_i + avg_q)
    else:
        raise PulseError('Unknown measurement return type.')
    return xdata


@of('IQDiscriminationFitter._get_iq_grid')
def iqdiscriminationfitterget_iq_grid(x_data):
    max_i = np.max(x_data[:, 0])
    min_i = np.min(x_data[:, 0])
    max_q = np.max(x_data[:, 1])
    min_q = np.min(x_data[:, 1])
    spacing = (max_i - min_i) / 100.0
    xx, yy = np.meshgrid(np.arange(min_i - 10 * spacing, max_i + 10 * spacing, spacing), np.arange(min_q - 10 * spacing, max_q + 10 * spacing, spacing))
    return (xx, yy)


@of('LinearIQDiscriminator.__init__')
def lineariqdiscriminator_init(self, cal_results, qubit_mask, expected_states=None, standardize=False, schedules=None, discriminator_parameters=None):
    if not discriminator_parameters:
        discriminator_parameters = {}
    solver = discriminator_parameters.get('solver', 'svd')
    shrink = discriminator_parameters.get('shrinkage', None)
    store_cov = discriminator_parameters.get('store_covariance', False)
    tol = discriminator_parameters.get('tol', 0.0001)
    self._lda = LinearDiscriminantAnalysis(solver=solver, shrinkage=shrink, store_covariance=store_cov, tol=tol)
    IQDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)
    self._description = 'Linear IQ discriminator for measurement level 1.'
    self.fit()


@of('LinearIQDiscriminator.fit')
def lineariqdiscriminator_fit(self):
    if len(self._xdata) == 0:
        return
    self._lda.fit(self._xdata, self._ydata)
    self._fitted = True


@of('LinearIQDiscriminator.discriminate')
def lineariqdiscriminator_discriminate(self, x_data):
    return self._lda.predict(x_data)


@of('QuadraticIQDiscriminator.__init__')
def quadraticiqdiscriminator_init(self, cal_results, qubit_mask, expected_states=None, standardize=False, schedules=None, discriminator_parameters=None):
    if not discriminator_parameters:
        discriminator_parameters = {}
    store_cov = discriminator_parameters.get('store_covariance', False)
    tol = discriminator_parameters.get('tol', 0.0001)
    self._qda = QuadraticDiscriminantAnalysis(store_covariance=store_cov, tol=tol)
    IQDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)
    self._description = 'Quadratic IQ discriminator for measurement level 1.'
    self.fit()


@of('QuadraticIQDiscriminator.fit')
def quadraticiqdiscriminator_fit(self):
    if len(self._xdata) == 0:
        return
    self._qda.fit(self._xdata, self._ydata)
    self._fitted = True


@of('QuadraticIQDiscriminator.discriminate')
def quadraticiqdiscriminator_discriminate(self, x_data):
    return self._qda.predict(x_data)


@of('SklearnIQDiscriminator.__init__')
def sklearniqdiscriminator_init(self, classifier, cal_results, qubit_mask, expected_states=None, standardize=False, schedules=None):
    self._type_check_classifier(classifier)
    self._classifier = classifier
    IQDiscriminationFitter.__init__(self, cal_results, qubit_mask, expected_states, standardize, schedules)
    self._description = '{} IQ discriminator for measurement level 1.'.format(classifier.__class__.__name__)
    self.fit()


@of('SklearnIQDiscriminator._type_check_classifier')
def sklearniqdiscriminatortype_check_classifier(classifier):
    for name in ['fit', 'predict']:
        if not callable(getattr(classifier, name, None)):
            raise QiskitError('Classifier of type "{}" does not have a callable "{}" method.'.format(type(classifier).__name__, name))


@of('SklearnIQDiscriminator.fit')
def sklearniqdiscriminator_fit(self):
    if len(self._xdata) == 0:
        return
    self._classifier.fit(self._xdata, self._ydata)
    self._fitted = True


@of('SklearnIQDiscriminator.discriminate')
def sklearniqdiscriminator_discriminate(self, x_data):
    return self._classifier.predict(x_data)
