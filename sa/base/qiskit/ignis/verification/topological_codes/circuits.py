from qiskit import QuantumRegister, ClassicalRegister
from qiskit import QuantumCircuit

class RepetitionCode:

    def __init__(self, d, T=0):
        self.d = d
        self.T = 0
        self.code_qubit = QuantumRegister(d, 'code_qubit')
        self.link_qubit = QuantumRegister(d - 1, 'link_qubit')
        self.qubit_registers = {'code_qubit', 'link_qubit'}
        self.link_bits = []
        self.code_bit = ClassicalRegister(d, 'code_bit')
        self.circuit = {}
        for log in ['0', '1']:
            self.circuit[log] = QuantumCircuit(self.link_qubit, self.code_qubit, name=log)
        self._preparation()
        for _ in range(T - 1):
            self.syndrome_measurement()
        if T != 0:
            self.syndrome_measurement(reset=False)
            self.readout()

    def get_circuit_list(self):
        circuit_list = [self.circuit[log] for log in ['0', '1']]
        return circuit_list

    def x(self, logs=('0', '1'), barrier=False):
        for log in logs:
            for j in range(self.d):
                self.circuit[log].x(self.code_qubit[j])
            if barrier:
                self.circuit[log].barrier()

    def _preparation(self):
        self.x(['1'])

    def syndrome_measurement(self, reset=True, barrier=False):
        self.link_bits.append(ClassicalRegister(self.d - 1, 'round_' + str(self.T) + '_link_bit'))
        for log in ['0', '1']:
            self.circuit[log].add_register(self.link_bits[-1])
            for j in range(self.d - 1):
                self.circuit[log].cx(self.code_qubit[j], self.link_qubit[j])
            for j in range(self.d - 1):
                self.circuit[log].cx(self.code_qubit[j + 1], self.link_qubit[j])
            for j in range(self.d - 1):
                self.circuit[log].measure(self.link_qubit[j], self.link_bits[self.T][j])
                if reset:
                    self.circuit[log].reset(self.link_qubit[j])
            if barrier:
                self.circuit[log].barrier()
        self.T += 1

    def readout(self):
        for log in ['0', '1']:
            self.circuit[log].add_register(self.code_bit)
            self.circuit[log].measure(self.code_qubit, self.code_bit)

    def process_results(self, raw_results):
        results = {}
        for log in raw_results:
            results[log] = {}
            for string in raw_results[log]:
                measured_log = string[0] + ' ' + string[self.d - 1]
                full_syndrome = ''
                for j in range(self.d - 1):
                    full_syndrome += '0' * (string[j] == string[j + 1]) + '1' * (string[j] != string[j + 1])
                full_syndrome = full_syndrome + string[self.d:]
                syndrome_list = full_syndrome.split(' ')
                syndrome_changes = ''
                for t in range(self.T + 1):
                    for j in range(self.d - 1):
                        if t == 0:
                            change = syndrome_list[-1][j] != '0'
                        else:
                            change = syndrome_list[-t][j] != syndrome_list[-t - 1][j]
                        syndrome_changes += '0' * (not change) + '1' * change
                    syndrome_changes += ' '
                new_string = measured_log + '  ' + syndrome_changes[:-1]
                results[log][new_string] = raw_results[log][string]
        return results
