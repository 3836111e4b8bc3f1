from copy import deepcopy
from typing import List
from qiskit.exceptions import QiskitError
from qiskit.ignis.measurement.discriminator.discriminators import BaseDiscriminationFitter
from qiskit.result.result import Result
from qiskit.result.models import ExperimentResultData

class DiscriminationFilter:

    def __init__(self, discriminator: BaseDiscriminationFitter, base: int=None):
        self.discriminator = discriminator
        if base:
            self.base = base
        else:
            self.base = DiscriminationFilter.get_base(discriminator.expected_states)

    def apply(self, raw_data: Result) -> Result:
        new_results = deepcopy(raw_data)
        to_be_discriminated = []
        shots_per_experiment_result = []
        for result in new_results.results:
            if result.meas_level == 1:
                shots_per_experiment_result.append(result.shots)
                to_be_discriminated.append(result)
        new_results.results = to_be_discriminated
        x_data = self.discriminator.get_xdata(new_results, 2)
        y_data = self.discriminator.discriminate(x_data)
        start = 0
        for idx, n_shots in enumerate(shots_per_experiment_result):
            memory = y_data[start:start + n_shots]
            counts = self.count(memory)
            new_results.results[idx].data = ExperimentResultData(counts=counts, memory=memory)
            start += n_shots
        for result in new_results.results:
            result.meas_level = 2
        return new_results

    @staticmethod
    def get_base(expected_states: dict):
        base = 0
        for key in expected_states:
            for char in expected_states[key]:
                try:
                    value = int(char)
                except ValueError:
                    raise QiskitError('Cannot parse character in ' + expected_states[key])
                base = base if base > value else value
        return base + 1

    def count(self, y_data: List[str]) -> dict:
        raw_counts = {}
        for cnt in y_data:
            cnt_hex = hex(int(cnt, self.base))
            if cnt_hex in raw_counts:
                raw_counts[cnt_hex] += 1
            else:
                raw_counts[cnt_hex] = 1
        return raw_counts
