from abc import ABC, abstractmethod
import re
from typing import Union, List
from qiskit.exceptions import QiskitError
from qiskit.result import Result
from qiskit.pulse.schedule import Schedule

class BaseDiscriminationFitter(ABC):

    def __init__(self, cal_results: Union[Result, List[Result]], qubit_mask: List[int], expected_states: List[str]=None, standardize: bool=False, schedules: Union[List[str], List[Schedule]]=None):
        self._cal_pattern = 'cal_\\d+$'
        if schedules is None:
            schedules = self._get_schedules(cal_results, 0)
        self._expected_state = {}
        if expected_states is None:
            expected_states = self._get_expected_states(schedules)
        self._add_expected_states(expected_states, schedules)
        self._description = None
        self._standardize = standardize
        self._scaler = None
        self._qubit_mask = qubit_mask
        self._schedules = list(schedules)
        self._backend_result_list = []
        self._fitted = False
        if cal_results is not None:
            if isinstance(cal_results, list):
                for result in cal_results:
                    self._backend_result_list.append(result)
            else:
                self._backend_result_list.append(cal_results)
        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)

    def _add_ydata(self, schedule: Union[Schedule, str]):
        if isinstance(schedule, Schedule):
            self._ydata.append(self._expected_state[schedule.name])
        else:
            self._ydata.append(self._expected_state[schedule])

    def add_data(self, result: Result, expected_states: List[str], refit: bool=True, schedules: Union[List[Schedule], List[str]]=None):
        if schedules is None:
            schedules = self._get_schedules(result, 0)
        self._backend_result_list.append(result)
        self._add_expected_states(expected_states, schedules)
        self._schedules.extend(schedules)
        self._xdata = list(self._xdata) + list(self.get_xdata(result, 0, schedules))
        self._ydata = list(self._ydata) + list(self.get_ydata(result, 0, schedules))
        if refit:
            self.fit()

    def _add_expected_states(self, expected_states: List[str], schedules: Union[List[Schedule], List[str]]):
        if len(expected_states) != len(schedules):
            raise QiskitError('Number of input schedules and assigned states must be equal.')
        for idx, schedule in enumerate(schedules):
            if isinstance(schedule, Schedule):
                name = schedule.name
            else:
                name = schedule
            expected_state = expected_states[idx]
            self._expected_state[name] = expected_state

    def is_calibration(self, result_name: str) -> bool:
        return re.match(self._cal_pattern, result_name) is not None

    def _get_schedules(self, results: Union[Result, List[Result]], schedule_type_to_get: int) -> List[str]:
        if isinstance(results, Result):
            results_list = [results]
        else:
            results_list = results
        schedules = []
        for res in results_list:
            for result in res.results:
                self._append_to_schedules(result.header.name, schedule_type_to_get, schedules)
        return schedules

    def _append_to_schedules(self, name: str, schedule_type: int, schedules: list):
        if schedule_type == 0:
            if self.is_calibration(name):
                schedules.append(name)
        elif schedule_type == 1:
            if not self.is_calibration(name):
                schedules.append(name)
        elif schedule_type == 2:
            schedules.append(name)
        else:
            raise QiskitError('schedule_type must be either\n0: get only calibration schedules\n1: get only non-calibration schedules\n2: get all schedules in results.')

    @staticmethod
    def _get_expected_states(schedules: Union[List[Schedule], List[str]]) -> List[str]:
        expected_states = []
        for schedule in schedules:
            if isinstance(schedule, Schedule):
                name = schedule.name
            else:
                name = schedule
            expected_states.append(name.replace('cal_', ''))
        return expected_states

    @property
    def expected_states(self):
        return self._expected_state

    @property
    def schedules(self):
        return self._schedules

    @property
    def fitted(self):
        return self._fitted

    def _scale_data(self, xdata: List[List[float]], refit: bool=False) -> List[List[float]]:
        if not self._standardize:
            return xdata
        try:
            from sklearn.preprocessing import StandardScaler
        except ImportError:
            raise ImportError("To scale the xdata scikit-learn must be installed. This can be done with 'pip install scikit-learn'")
        if not self._scaler or refit:
            self._scaler = StandardScaler(with_std=True)
            self._scaler.fit(xdata)
        return self._scaler.transform(xdata)

    @abstractmethod
    def get_xdata(self, results: Union[Result, List[Result]], schedule_type_to_get: int, schedules: Union[List[str], List[Schedule]]=None) -> List[List[float]]:
        pass

    @abstractmethod
    def get_ydata(self, results: Union[Result, List[Result]], schedule_type_to_get: int, schedules: Union[List[str], List[Schedule]]=None) -> List[str]:
        pass

    @abstractmethod
    def fit(self):
        pass

    @abstractmethod
    def discriminate(self, x_data: List[List[float]]) -> List[str]:
        pass

    @abstractmethod
    def plot(self, axs=None, show_boundary: bool=False, show_fitting_data: bool=True, flag_misclassified: bool=False, qubits_to_plot: list=None, title: bool=True):
        pass

    @abstractmethod
    def plot_xdata(self, axs, results: Union[Result, List[Result]], color: str=None):
        pass
