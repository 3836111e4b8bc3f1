"""C20: repetition code circuits, syndrome processing and decoders."""
import copy
import networkx as nx
import numpy as np
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, execute, BasicAer
from qiskit.providers.aer import Aer
from qiskit.ignis.verification.topological_codes.fitters import HAS_AER


@of('RepetitionCode.__init__')
def repetitioncode_init(self, d, T=0):
    self.d = d
    self.T = 0
    self.code_qubit = QuantumRegister(d, 'code_qubit')
    self.link_qubit = QuantumRegister(d - 1, 'link_qubit')
    self.qubit_registers = {'code_qubit', 'link_qubit'}
    self.link_bits = []
    self.code_bit = ClassicalRegister(d, 'code_bit')
    self.circuit = {}
    for log in ['0', '1']:
        self.circuit[log] = QuantumCircuit(self.link_qubit, self.code_qubit, name=log)
    self._preparation()
    for _ in range(T - 1):
        self.syndrome_measurement()
    if T != 0:
        self.syndrome_measurement(reset=False)
        self.readout()


@of('RepetitionCode.get_circuit_list')
def repetitioncode_get_circuit_list(self):
    circuit_list = [self.circuit[log] for log in ['0', '1']]
    return circuit_list


@of('RepetitionCode.x')
def repetitioncode_x(self, logs=('0', '1'), barrier=False):
    for log in logs:
        for j in range(self.d):
            self.circuit[log].x(self.code_qubit[j])
        if barrier:
            self.circuit[log].barrier()


@of('RepetitionCode._preparation')
def repetitioncodepreparation(self):
    self.x(['1'])


@of('RepetitionCode.syndrome_measurement')
def repetitioncode_syndrome_measurement(self, reset=True, barrier=False):
    self.link_bits.append(ClassicalRegister(self.d - 1, 'round_' + str(self.T) + '_link_bit'))
    for log in ['0', '1']:
        self.circuit[log].add_register(self.link_bits[-1])
        for j in range(self.d - 1):
            self.circuit[log].cx(self.code_qubit[j], self.link_qubit[j])
        for j in range(self.d - 1):
            self.circuit[log].cx(self.code_qubit[j + 1], self.link_qubit[j])
        for j in range(self.d - 1):
            self.circuit[log].measure(self.link_qubit[j], self.link_bits[self.T][j])
            if reset:
                self.circuit[log].reset(self.link_qubit[j])
        if barrier:
            self.circuit[log].barrier()
    self.T += 1


@of('RepetitionCode.readout')
def repetitioncode_readout(self):
    for log in ['0', '1']:
        self.circuit[log].add_register(self.code_bit)
        self.circuit[log].measure(self.code_qubit, self.code_bit)


@of('RepetitionCode.process_results')
def repetitioncode_process_results(self, raw_results):
    results = {}
    for log in raw_results:
        results[log] = {}
        for string in raw_results[log]:
            measured_log = string[0] + ' ' + string[self.d - 1]
            full_syndrome = ''
            for j in range(self.d - 1):
                full_syndrome += '0' * (string[j] == string[j + 1]) + '1' * (string[j] != string[j + 1])
            full_syndrome = full_syndrome + string[self.d:]
            syndrome_list = full_syndrome.split(' ')
            syndrome_changes = ''
            for t in range(self.T + 1):
                for j in range(self.d - 1):
                    if t == 0:
                        change = syndrome_list[-1][j] != '0'
                    else:
                        change = syndrome_list[-t][j] != syndrome_list[-t - 1][j]
                    syndrome_changes += '0' * (not change) + '1' * change
                syndrome_changes += ' '
            new_string = measured_log + '  ' + syndrome_changes[:-1]
            results[log][new_string] = raw_results[log][string]
    return results


@of('GraphDecoder.__init__')
def graphdecoder_init(self, code, S=None):
    self.code = code
    if S:
        self.S = S.copy()
    else:
        self.S = self._make_syndrome_graph()


@of('GraphDecoder._separate_string')
def graphdecoderseparate_string(self, string):
    separated_string = []
    for syndrome_type_string in string.split('  '):
        separated_string.append(syndrome_type_string.split(' '))
    return separated_string


@of('GraphDecoder._string2nodes')
def graphdecoderstring2nodes(self, string):
    separated_string = self._separate_string(string)
    nodes = []
    for syn_type, _ in enumerate(separated_string):
        for syn_round in range(len(separated_string[syn_type])):
            elements = separated_string[syn_type][syn_round]
            for elem_num, element in enumerate(elements):
                if element == '1':
                    nodes.append((syn_type, syn_round, elem_num))
    return nodes


@of('GraphDecoder._make_syndrome_graph')
def graphdecodermake_syndrome_graph(self):
    S = nx.Graph()
    qc = self.code.circuit['0']
    blank_qc = QuantumCircuit()
    for qreg in qc.qregs:
        blank_qc.add_register(qreg)
    for creg in qc.cregs:
        blank_qc.add_register(creg)
    error_circuit = {}
    circuit_name = {}
    depth = len(qc)
    for j in range(depth):
        qubits = qc.data[j][1]
        for qubit in qubits:
            for error in ['x', 'y', 'z']:
                temp_qc = copy.deepcopy(blank_qc)
                temp_qc.name = str((j, qubit, error))
                temp_qc.data = qc.data[0:j]
                getattr(temp_qc, error)(qubit)
                temp_qc.data += qc.data[j:depth + 1]
                circuit_name[j, qubit, error] = temp_qc.name
                error_circuit[temp_qc.name] = temp_qc
    if HAS_AER:
        simulator = Aer.get_backend('qasm_simulator')
    else:
        simulator = BasicAer.get_backend('qasm_simulator')
    job = execute(list(error_circuit.values()), simulator)
    for j in range(depth):
        qubits = qc.data[j][1]
        for qubit in qubits:
            for error in ['x', 'y', 'z']:
                raw_results = {}
                raw_results['0'] = job.result().get_counts(str((j, qubit, error)))
                results = self.code.process_results(raw_results)['0']
                for string in results:
                    nodes = self._string2nodes(string)
                    assert len(nodes) in [0, 2], 'Error of type ' + error + ' on qubit ' + str(qubit) + ' at depth ' + str(j) + ' creates ' + str(len(nodes)) + ' nodes in syndrome graph, instead of 2.'
                    for node in nodes:
                        S.add_node(node)
                    for source in nodes:
                        for target in nodes:
                            if source != target:
                                S.add_edge(source, target, distance=1)
    return S


@of('GraphDecoder.weight_syndrome_graph')
def graphdecoder_weight_syndrome_graph(self, results):
    results = results['0']
    count = {element: {edge: 0 for edge in self.S.edges} for element in ['00', '01', '10', '11']}
    for string in results:
        nodes = self._string2nodes(string)
        for edge in self.S.edges:
            element = ''
            for j in range(2):
                if edge[j] in nodes:
                    element += '1'
                else:
                    element += '0'
            count[element][edge] += results[string]
    for edge in self.S.edges:
        edge_data = self.S.get_edge_data(edge[0], edge[1])
        ratios = []
        for elements in [('00', '11'), ('11', '00'), ('01', '10'), ('10', '01')]:
            if count[elements[1]][edge] > 0:
                ratio = count[elements[0]][edge] / count[elements[1]][edge]
                ratios.append(ratio)
        edge_data['distance'] = -np.log(min(ratios))


@of('GraphDecoder.make_error_graph')
def graphdecoder_make_error_graph(self, string, subgraphs=None):
    if subgraphs is None:
        subgraphs = []
        for syndrome_type in string.split('  '):
            subgraphs.append(['0'])
    set_subgraphs = [subgraph for subs4type in subgraphs for subgraph in subs4type]
    E = {subgraph: nx.Graph() for subgraph in set_subgraphs}
    separated_string = self._separate_string(string)
    for syndrome_type, _ in enumerate(separated_string):
        for syndrome_round in range(len(separated_string[syndrome_type])):
            elements = separated_string[syndrome_type][syndrome_round]
            for elem_num, element in enumerate(elements):
                if element == '1' or syndrome_type == 0:
                    for subgraph in subgraphs[syndrome_type]:
                        E[subgraph].add_node((syndrome_type, syndrome_round, elem_num))
    for subgraph in set_subgraphs:
        for source in E[subgraph]:
            for target in E[subgraph]:
                if target != source:
                    distance = int(nx.shortest_path_length(self.S, source, target, weight='distance'))
                    E[subgraph].add_edge(source, target, weight=-distance)
    return E


@of('GraphDecoder.matching', no_inline=('make_error_graph',))
def graphdecoder_matching(self, string):
    E = self.make_error_graph(string)['0']
    E_matching = nx.Graph()
    syndrome_nodes = []
    logical_nodes = []
    logical_neighbours = []
    for node in E:
        if node[0] == 0:
            logical_nodes.append(node)
        else:
            syndrome_nodes.append(node)
    for source in syndrome_nodes:
        for target in syndrome_nodes:
            if target != source:
                E_matching.add_edge(source, target, weight=E[source][target]['weight'])
        potential_logical = {}
        for target in logical_nodes:
            potential_logical[target] = E[source][target]['weight']
        nearest_logical = max(potential_logical, key=potential_logical.get)
        E_matching.add_edge(source, nearest_logical + source, weight=potential_logical[nearest_logical])
        logical_neighbours.append(nearest_logical + source)
    for source in logical_neighbours:
        for target in logical_neighbours:
            if target != source:
                E_matching.add_edge(source, target, weight=0)
    matches = nx.max_weight_matching(E_matching, maxcardinality=True)
    logicals = self._separate_string(string)[0]
    for source, target in matches:
        if source[0] == 0 and target[0] != 0:
            logicals[source[1]] = str((int(logicals[source[1]]) + 1) % 2)
        if target[0] == 0 and source[0] != 0:
            logicals[target[1]] = str((int(logicals[target[1]]) + 1) % 2)
    logical_string = ''
    for logical in logicals:
        logical_string += logical + ' '
    logical_string = logical_string[:-1]
    return logical_string


@of('GraphDecoder.get_logical_prob', no_inline=('matching',))
def graphdecoder_get_logical_prob(self, results, algorithm='matching'):
    logical_prob = {}
    for log in results:
        shots = 0
        incorrect_shots = 0
        corrected_results = {}
        if algorithm == 'matching':
            for string in results[log]:
                corr_str = self.matching(string)
                if corr_str in corrected_results:
                    corrected_results[corr_str] += results[log][string]
                else:
                    corrected_results[corr_str] = results[log][string]
        else:
            warnings.warn('The requested algorithm ' + str(algorithm) + ' is not known.', Warning)
        for string in corrected_results:
            shots += corrected_results[string]
            if string[0] != str(log):
                incorrect_shots += corrected_results[string]
        logical_prob[log] = incorrect_shots / shots
    return logical_prob


@of('topological_codes.fitters.postselection_decoding')
def postselection_decoding_(results):
    logical_prob = {}
    postselected_results = {}
    for log in results:
        postselected_results[log] = {}
        for string in results[log]:
            syndrome_list = string.split('  ')
            syndrome_list.pop(0)
            syndrome_string = '  '.join(syndrome_list)
            error_free = True
            for char in syndrome_string:
                error_free = error_free and char in ['0', ' ']
            if error_free:
                postselected_results[log][string] = results[log][string]
    for log in results:
        shots = 0
        incorrect_shots = 0
        for string in postselected_results[log]:
            shots += postselected_results[log][string]
            if string[0] != log:
                incorrect_shots += postselected_results[log][string]
        logical_prob[log] = incorrect_shots / shots
    return logical_prob


@of('topological_codes.fitters.lookuptable_decoding')
def lookuptable_decoding_(training_results, real_results):
    logical_prob = {}
    for log in real_results:
        shots = 0
        incorrect_shots = 0
        for string in real_results[log]:
            p = {}
            for testlog in ['0', '1']:
                if string in training_results[testlog]:
                    p[testlog] = training_results[testlog][string]
                else:
                    p[testlog] = 0
            shots += real_results[log][string]
            if p['1' * (log == '0') + '0' * (log == '1')] > p[log]:
                incorrect_shots += real_results[log][string]
        logical_prob[log] = incorrect_shots / shots
    return logical_prob
