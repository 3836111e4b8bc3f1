import numpy as np
from qiskit import QiskitError
from .qotp import QOTPCorrectCounts

class AccreditationFitter:
    bound = 1
    confidence = 1
    N_acc = 0
    num_runs = 0
    flag = 'accepted'
    num_runs = 0
    num_traps = 0
    g_num = 1

    def __init__(self):
        self.outputs = []

    def single_protocol_run(self, results, postp_list, v_zero):
        self.num_runs = self.num_runs + 1
        self.flag = 'accepted'
        if self.num_runs == 1:
            self.num_traps = len(postp_list) - 1
        elif len(postp_list) - 1 != self.num_traps:
            raise QiskitError('ERROR: Run protocol with thesame number of traps')
        if self.num_traps < 3:
            raise QiskitError('ERROR: run the protocol with at least 3 traps')
        allcounts = []
        for ind, postp in enumerate(postp_list):
            counts = results.get_counts(ind)
            counts = QOTPCorrectCounts(counts, postp)
            shots = 0
            countstring = None
            for countstring, val in counts.items():
                shots += val
            if shots != 1 or countstring is None:
                raise QiskitError('ERROR: not single shot data')
            allcounts.append(countstring)
        for k, count in enumerate(allcounts):
            if k != v_zero:
                if count != '0' * len(count):
                    self.flag = 'rejected'
            else:
                output_target = count
        if self.flag == 'accepted':
            self.N_acc += 1
            self.outputs.append(output_target)

    def bound_variation_distance(self, theta):
        if self.N_acc == 0:
            raise QiskitError('ERROR: Variation distance requiresat least one accepted run')
        self.bound = 1
        self.confidence = 1
        if self.N_acc / self.num_runs > theta:
            self.bound = self.g_num * 1.7 / (self.num_traps + 1)
            self.bound = self.bound / (self.N_acc / self.num_runs - theta)
            self.bound = self.bound + 1 - self.g_num
            self.confidence = 1 - 2 * np.exp(-2 * theta * self.num_runs * self.num_runs)
        if self.bound > 1:
            self.bound = 1
