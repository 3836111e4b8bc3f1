def P(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': dict(files=files, mechanism=[{'name': a, 'where': b} for a, b in mech], **kw)}


PROPS = [
P('C01', 'Caller-supplied objects are never modified',
  'No public function, constructor or method changes an object that the caller passed in (counts, '
  'results, circuits, lists, dictionaries, arrays), neither during the call nor in a later call on '
  'the object built from it. The only exceptions are arguments whose documented purpose is to be '
  'changed: plot axes, a circuit handed to a circuit-building helper, an instruction map to be '
  'updated, and a classifier to be trained.',
  ['inputs', 'histories'], 'every public entry point, every argument value and every sequence of '
  'later calls on the resulting object',
  'a test compares an argument before and after one call for one value; the write may sit on a '
  'rare branch, in a helper several calls deep, or in a later method of the object that kept the '
  'reference',
  ['qiskit/ignis'], [('no in-place effect on parameter-reachable objects', 'qiskit/ignis/**'),
                     ('defensive copies in filters', 'qiskit/ignis/mitigation/measurement/filters.py')]),
P('C09', 'Measurement filters return exactly the corrected data, in the form given',
  'Applying a measurement filter returns the data in the form it was given: counts to counts (with '
  'entries that are exactly zero left out), one probability vector to one vector, a concatenation of '
  'vectors to a concatenation in the same order, and a Result to a copy of it in which every '
  'experiment carries its own corrected counts and nothing else is changed. Each vector v is '
  'replaced by pinv(A) v (pseudo inverse) or by the x with 0 <= x_i <= n and sum x = n, n = sum v, '
  'that minimises |v - A x|^2 (least squares), where A is the calibration matrix over the state '
  'labels, or, for the tensored filter, the product of the group matrices with the groups read from '
  'the right end of the label. Data with unknown labels, of the wrong length or type, and unknown '
  'methods are rejected.',
  ['inputs'], 'every counts dictionary, list, Result, label order, group pattern, calibration matrix and method',
  'tests correct a few one- to three-qubit records with near-identity matrices in the default label '
  'order; a transposed, misordered or doubly counted group is invisible there',
  ['qiskit/ignis/mitigation/measurement'],
  [('complete filter', 'qiskit/ignis/mitigation/measurement/filters.py'),
   ('tensored filter', 'qiskit/ignis/mitigation/measurement/filters.py')]),
P('C12', 'Measurement calibration estimates P(measured | prepared) of the right qubits',
  'The calibration circuits prepare every computational basis state of the listed qubits (of the '
  'largest group, in all groups at once, for a tensored calibration), are named after the state in '
  'little-endian order, and measure qubit k of the concatenated groups into classical bit k. The '
  'fitters turn the results of exactly these circuits, of all results added so far, into matrices '
  'whose entry (i, j) is the fraction of shots prepared in state j that were read as state i, each '
  'group taking its own bits of the label; the subset fitter marginalises over the dropped qubits '
  'and orders labels by the requested sublist, and the readout fidelity is the mean over label sets of '
  'the probability to stay inside the set. Patterns with repeated qubits, mismatched label lists, '
  'unknown qubits and an unset matrix are rejected.',
  ['inputs', 'histories'], 'every qubit list, group pattern, register, label, result set and order of '
  'add_data calls',
  'tests use simulated noise that is symmetric between qubits and groups of equal size; bit order, '
  'group offsets and normalisation errors cancel there',
  ['qiskit/ignis/mitigation/measurement', 'qiskit/ignis/verification/tomography/data.py'],
  [('calibration circuits', 'qiskit/ignis/mitigation/measurement/circuits.py'),
   ('calibration matrices, subset, fidelity', 'qiskit/ignis/mitigation/measurement/fitters.py')]),
P('C13', 'Characterization generators build the experiment they promise',
  'Every characterization generator returns, for each requested point and in that order, exactly the '
  'defining experiment on exactly the requested qubits: T1 (excite, wait, measure), T2* (Ramsey with '
  'the phase 2 pi f t for the requested number of oscillations), T2 (n echoes of wait-echo-wait, '
  'optionally alternating), ZZ (control idle in one series and flipped in the other), the amplitude '
  'and angle error amplification sequences for single-qubit and CX gates, and the Rabi and DRAG '
  'pulse schedules; each qubit is measured into the classical bit of its position in the qubit list, '
  'the returned delays or repetitions are those the circuits really contain, and the u2/u3 pulse '
  'definitions are rebuilt from the calibrated pulse with the right phases and offsets.',
  ['inputs'], 'every list of gate counts, amplitudes or betas, every gate time, qubit list (any '
  'order), echo count, oscillation number and alternation flag',
  'tests simulate one parameter set on one or two qubits and compare fitted numbers within a wide '
  'tolerance; a wrong qubit order, a missing barrier or a wrong delay for a non-default option stays '
  'inside the tolerance',
  ['qiskit/ignis/characterization'],
  [('coherence circuits', 'qiskit/ignis/characterization/coherence/circuits.py'),
   ('ZZ circuits', 'qiskit/ignis/characterization/hamiltonian/circuits.py'),
   ('gate calibration circuits', 'qiskit/ignis/characterization/gates/circuits.py'),
   ('pulse schedules', 'qiskit/ignis/characterization/calibrations')]),
P('C15', 'RB and quantum-volume figures follow their defining formulas',
  'Given the same inputs, every number reported by the randomized-benchmarking and quantum-volume '
  'fitters and by the RB utilities equals its defining formula: the coherence limit, error per '
  'Clifford and per gate in both directions (one- and two-qubit), gates per Clifford, the mean and '
  'standard deviation per length, the error per Clifford (1-alpha)(d-1)/d with d = 2^n, its purity, '
  'interleaved and CNOT-dihedral variants with their bounds, and the heavy-output '
  'probabilities, their standard deviations, confidence levels and the resulting quantum volume; a '
  'conversion whose inputs do not determine the answer raises instead.',
  ['inputs'], 'every fit result, gate count, error rate, number of qubits, shot record and trial number',
  'tests check a few numerical instances; the formula must be the right one for every number of '
  'qubits, gate-count table, missing gate and trial layout',
  ['qiskit/ignis/verification/randomized_benchmarking', 'qiskit/ignis/verification/quantum_volume'],
  [('EPC/EPG conversions', 'qiskit/ignis/verification/randomized_benchmarking/rb_utils.py'),
   ('RB fitters', 'qiskit/ignis/verification/randomized_benchmarking/fitters.py'),
   ('QV statistics', 'qiskit/ignis/verification/quantum_volume/fitters.py')]),
P('C16', 'Expectation-value mitigation implements the advertised estimators',
  'expectation_value returns the mean of the diagonal over the counts and its standard error; the '
  'complete and tensored mitigators correct it with the inverse of the (marginal or product) '
  'assignment matrix of exactly the requested qubits, whatever the order of qubits and classical '
  'bits; the overhead gamma is the largest absolute column sum of the mitigation matrix (product over '
  'qubits if tensored, exp(2 noise strength) for CTMP), the standard deviation bound is '
  'gamma/sqrt(shots), the required shots follow from it, and the fidelity is the mean of the '
  'diagonal of the assignment matrix; CTMP mitigation uses the generator matrix of the requested '
  'qubits; calibration circuits carry the metadata that the fitter '
  'reads, and the fitter builds, for the chosen method, the assignment matrices or the CTMP generator '
  'coefficients from exactly the calibration counts of each prepared label, per qubit, normalised to '
  'probabilities, with the standard generator set in its documented order; unsupported methods, '
  'operators and missing calibration data are rejected.',
  ['inputs'], 'every counts dictionary, diagonal, qubit list, clbit list, method, calibration result set',
  'tests use seeded simulated data with loose tolerances on fixed qubit lists; only the definition for '
  'arbitrary qubit subsets, diagonals and orders protects the user',
  ['qiskit/ignis/mitigation/expval'],
  [('estimators', 'qiskit/ignis/mitigation/expval/utils.py'),
   ('calibration circuits and fitter', 'qiskit/ignis/mitigation/expval/fitter.py'),
   ('mitigators', 'qiskit/ignis/mitigation/expval/complete_mitigator.py'),
   ('CTMP', 'qiskit/ignis/mitigation/expval/ctmp_mitigator.py'),
   ('CTMP fit', 'qiskit/ignis/mitigation/expval/ctmp_fitter.py')]),
P('C17', 'Characterization fitters report the quantity defined by model and data',
  'A characterization fitter converts each counts record (or IQ record) to the excited-state '
  'population of each requested qubit with its binomial standard deviation, in the order of the x '
  'values and per series; fits exactly the documented model (exponential decay, damped or undamped '
  'oscillation, error-amplification cosine, quadratic) with the supplied guess and bounds, '
  'separately per qubit and series; stores parameters and their standard errors under that qubit and '
  'series; and reports from them the documented quantity of the requested qubit and series: T1, T2, '
  'T2*, ZZ rate as the difference of the two series frequencies, angle errors, pi and pi/2 '
  'amplitudes and the DRAG parameter.',
  ['inputs', 'histories'], 'every result set, qubit list, series, x-value list and requested '
  'qubit/series selection',
  'tests check fitted values of a few stored results; the mapping of data to qubits, series and '
  'parameters must hold for every layout',
  ['qiskit/ignis/characterization'],
  [('base fitter', 'qiskit/ignis/characterization/fitters.py'),
   ('coherence fitters', 'qiskit/ignis/characterization/coherence/fitters.py'),
   ('gate fitters', 'qiskit/ignis/characterization/gates/fitters.py'),
   ('ZZ fitter', 'qiskit/ignis/characterization/hamiltonian/fitters.py'),
   ('Rabi and DRAG fitters', 'qiskit/ignis/characterization/calibrations/fitters.py')]),
P('C10', 'Tomography circuits prepare and measure exactly what their labels say',
  'Every circuit of a built-in tomography basis implements its label: Pauli measurement circuits '
  'rotate the eigenbasis of X, Y or Z to the computational basis before measuring, Pauli and SIC '
  'preparation circuits map |0> to the state whose density matrix the basis reports for the same '
  'label, and measurement operators for outcome 0/1 are the matching projectors. The tomography '
  'circuit generators return one circuit for every combination of the requested preparation and '
  'measurement labels, named by the tuple of its labels, in which qubit k of the request is '
  'prepared before, and measured after, the given circuit with the k-th entry of its label into the '
  'k-th classical bit, with the default labels of the basis where none are given; gate set '
  'tomography circuits are exactly the (F,G,F), (F,F) and (F,) sequences in the order in which '
  'gates act, and basis matrices of gate set labels multiply in that order. Unsupported labels, '
  'outcomes, bases and mismatched qubit lists are rejected.',
  ['inputs'], 'every label, basis, qubit list (any order, several registers), prepared-qubit list and '
  'gate set',
  'tests simulate ideal tomography on one to two qubits with default labels; a wrong label order, '
  'sign or register only shows for other qubit orders, labels or gate sets',
  ['qiskit/ignis/verification/tomography/basis'],
  [('Pauli and SIC bases', 'qiskit/ignis/verification/tomography/basis/paulibasis.py'),
   ('basis interface', 'qiskit/ignis/verification/tomography/basis/tomographybasis.py'),
   ('circuit generation', 'qiskit/ignis/verification/tomography/basis/circuits.py'),
   ('gate set basis', 'qiskit/ignis/verification/tomography/basis/gatesetbasis.py')]),
P('C11', 'Accreditation: one-time pads cancel and the reported bound is the protocol bound',
  'The layer parser splits a circuit into alternating single- and two-qubit layers that contain '
  'every gate on its own qubit in order; the quantum one-time pad inserts fresh independent random '
  'Paulis around every layer so that the padded circuit followed by flipping exactly the reported '
  'classical bits equals the original; trap circuits have the same layout as the target, with '
  'Hadamard and S gates paired so that they output all zeros; the target sits at a uniformly drawn '
  'position among num_trap + 1 circuits. The fitter accepts a run only if every trap returned all '
  'zeros, counts runs and accepted runs, and bounds the variation distance by '
  'g*1.7/(num_traps+1)/(N_acc/num_runs - theta) + 1 - g, capped at 1 and 1 if the acceptance rate does '
  'not exceed theta.',
  ['inputs', 'histories'], 'every circuit over the supported gates, number of traps, random draw, '
  'result set and sequence of runs',
  'tests run a few seeds of one three-qubit circuit; a reused pad, a misplaced correction or a trap '
  'that depends on the circuit is only visible in the distribution or on other circuits',
  ['qiskit/ignis/verification/accreditation'],
  [('layers and one-time pad', 'qiskit/ignis/verification/accreditation/qotp.py'),
   ('trap circuits', 'qiskit/ignis/verification/accreditation/circuits.py'),
   ('accreditation bound', 'qiskit/ignis/verification/accreditation/fitters.py')]),
P('C21', 'Tomography fitters solve the documented problem on exactly the recorded data',
  'The tomography data set holds, for every circuit label, the counts of that circuit in the result, '
  'marginalised to the measured bits; the fitter data are, for every label and outcome, the '
  'observed frequency, the operator (transposed preparation tensor measurement projector, qubit 0 '
  'least significant) and the binomial weight; the least-squares fit solves the weighted '
  'linear problem over exactly these rows and projects to positive semidefinite with the requested '
  'trace, the convex fit minimises the same objective subject to positivity, trace and (for '
  'processes) trace preservation; fit with method auto picks a supported solver and unknown methods are '
  'rejected; state fits return a density matrix of trace one and process fits a Choi operator of '
  'trace 2^n. Marginal counts sum the shots over the dropped bits and keep the selected bits in '
  'their original order, combine_counts adds per key, and expectation counts give the parity sums of '
  'every subset of qubits.',
  ['inputs', 'histories'], 'every counts record, label set, measured-bit selection, weight option '
  'and fit method',
  'tests reconstruct a few ideal states to a tolerance, where weights, row order and conventions '
  'cancel; they never use unequal shots, permuted bits or non-symmetric processes',
  ['qiskit/ignis/verification/tomography'],
  [('data and operators', 'qiskit/ignis/verification/tomography/fitters/base_fitter.py'),
   ('least squares', 'qiskit/ignis/verification/tomography/fitters/lstsq_fit.py'),
   ('convex fit', 'qiskit/ignis/verification/tomography/fitters/cvx_fit.py'),
   ('counts helpers', 'qiskit/ignis/verification/tomography/data.py')]),
P('C24', 'Gate set tomography: inversion, gauge and likelihood share their conventions',
  'Linear inversion returns, from the measured probabilities of the (F,G,F), (F,F) and (F,) '
  'experiments, the gate, state and measurement vectors relative to the Gram matrix; the gauge '
  'optimisation conjugates all gates with one and the same invertible matrix and minimises the total '
  'distance to the ideal gate set; the maximum-likelihood stage packs and unpacks its parameters '
  'with inverse functions, its objective is the sum of squared differences between predicted and measured '
  'probabilities of every experiment, and its constraints are trace preservation, unit trace of the state '
  'and boundedness of the Pauli-transfer entries and the measurement; fit returns exactly the gates '
  'of the basis plus E and rho in the promised representation.',
  ['inputs'], 'every gate set basis, number of gates, SPAM set, measurement record and parameter vector',
  'tests recover near-ideal default gate sets within a tolerance, where gauge, sign and packing '
  'errors that act alike on all gates are hidden',
  ['qiskit/ignis/verification/tomography/fitters/gateset_fitter.py'],
  [('linear inversion and gauge', 'qiskit/ignis/verification/tomography/fitters/gateset_fitter.py'),
   ('GST_Optimize', 'qiskit/ignis/verification/tomography/fitters/gateset_fitter.py')]),
P('C14', 'RB and QV generators emit the promised self-inverting, correctly named circuits',
  'For every seed and every entry of the length vector, each RB circuit consists, per pattern, of '
  'length * multiplier independent random elements of the chosen group (the same sequence extended '
  'from one length to the next, with the interleaved element after every random one in the '
  'interleaved variant), separated by barriers, followed by the inverse of exactly the product of '
  'all elements applied (or, for CNOT-dihedral, also a version in the X basis with Hadamards before '
  'and after), on exactly the qubits of the pattern, then measurement of the pattern qubits into '
  'consecutive classical bits; purity variants add for every Pauli setting the matching rotations. '
  'Circuit names carry type, length index and seed number (counted from the seed offset) in the form '
  'the fitters parse, and xdata is the length vector times the length multiplier of each pattern. '
  'For every trial and qubit list, the quantum-volume circuit is a freshly drawn model circuit of '
  'depth and width len(list) composed onto the listed physical qubits and measured on its active '
  'qubits, returned with the same model circuit without mapping and measurement, both named by depth '
  'and trial; malformed patterns, multipliers and interleaved elements are rejected.',
  ['inputs'], 'every pattern, length vector, multiplier (scalar or list), seed count and offset, '
  'group, alignment, interleaved element, purity flag, qubit list and random draw',
  'tests run a few seeds on default patterns and look at simulated survival; a sequence reused across '
  'patterns, a wrong inverse for a rare option, or a misnamed circuit needs the right option mix',
  ['qiskit/ignis/verification/randomized_benchmarking/circuits.py',
   'qiskit/ignis/verification/randomized_benchmarking/rb_groups.py',
   'qiskit/ignis/verification/quantum_volume/circuits.py'],
  [('RB sequences', 'qiskit/ignis/verification/randomized_benchmarking/circuits.py'),
   ('group dispatch', 'qiskit/ignis/verification/randomized_benchmarking/rb_groups.py'),
   ('QV circuits', 'qiskit/ignis/verification/quantum_volume/circuits.py')]),
P('C20', 'Repetition code and decoders: circuits, syndromes and logical error rates',
  'A repetition code of distance d with T rounds prepares logical 0 and 1 on d code qubits, in each '
  'round maps the parity of neighbouring code qubits to the link qubits with two CX layers, measures '
  'them into a new register of that round (and resets them, except in the last round), and finally '
  'reads all code qubits out. process_results turns each raw string into the two boundary code bits '
  'followed by, per round, the changes of every syndrome bit with respect to the round before (the '
  'first with respect to 0, the last being the parities of the readout), keeping the number of shots. '
  'The syndrome graph has an edge between the two defects of every single-qubit Pauli error at every '
  'place of the circuit; its reweighted distance is minus the logarithm of the smallest usable ratio '
  'of coincidence counts; matching pairs the defects at minimal total distance, defects being allowed '
  'to match to their nearest logical boundary, and flips the boundary bits so matched; the logical '
  'error probability of each decoder (matching, postselection, lookup table) is the fraction of '
  'decoded (kept) shots whose logical value differs from the encoded one.',
  ['inputs', 'histories'], 'every distance, number of rounds, counts record, syndrome string and '
  'sequence of operations on the code object',
  'tests decode a handful of short strings for small codes; bit order, round order and boundary '
  'errors coincide for d = 3 and T = 1 and for symmetric strings',
  ['qiskit/ignis/verification/topological_codes'],
  [('code circuits and syndromes', 'qiskit/ignis/verification/topological_codes/circuits.py'),
   ('graph decoder and other decoders', 'qiskit/ignis/verification/topological_codes/fitters.py')]),
P('C22', 'GHZ circuits and entanglement figures are those of the advertised experiment',
  'The linear and the device-aware generators build a GHZ state on n qubits, with every CX along a '
  'coupled pair whose control is already entangled (device-aware: tiers of a breadth-first tree from '
  'the best-connected qubit, children by CX error if requested, logical qubits in order of '
  'appearance in the returned layout); the multiple-quantum-coherence circuits apply U1(delta) and X '
  'to every qubit and then the inverse preparation, the parity-oscillation circuits U2(delta, -delta) '
  'to every qubit; measurement covers all qubits, or qubit 0 only if not full. The analysis orders '
  'counts by basis state with 0 for missing keys, uses the n-fold tensor product of Z as parity, and '
  'derives from the Fourier components I0 and In of the signal the MQC bounds 2 sqrt(In) and sqrt(In) '
  '+ sqrt(I0/2) and the fidelities of raw and mitigated data, each from its own populations and signal.',
  ['inputs'], 'every number of qubits, phase, coupling map, gate-error table, counts record and signal',
  'tests check gate counts or fidelity for one or two fixed sizes; a broken tier, swapped raw and '
  'mitigated figure or misplaced rotation needs another device map or another experiment label',
  ['qiskit/ignis/verification/entanglement'],
  [('linear circuits', 'qiskit/ignis/verification/entanglement/linear.py'),
   ('device-aware circuits', 'qiskit/ignis/verification/entanglement/parallelize.py'),
   ('analysis', 'qiskit/ignis/verification/entanglement/analysis.py')]),
P('C23', 'Discriminators learn from the calibration shots and label every shot',
  'A discriminator is trained on exactly the shots of the calibration schedules (names matching '
  'cal_<state>, or the schedules given) of all results it was built from or given by add_data, every '
  'shot with the expected state of its own schedule (the digits after cal_ if not given): the features '
  'of a shot are the real parts followed by the imaginary parts of the qubits in the mask, in that '
  'order, standardised with one common scaler if requested. The linear, quadratic and scikit-learn '
  'discriminators fit their classifier on these data with the given or default parameters and '
  'discriminate with its prediction; they are marked fitted once there are data. The filter returns a '
  'copy of the level-1 (single-shot) experiments of a result with meas_level 2, each with the predicted '
  'state of its own shots as memory and the matching hexadecimal counts in base (largest digit + 1), and '
  'leaves the given result alone; unequal numbers of schedules and states, missing data and '
  'unsuitable classifiers are rejected.',
  ['inputs', 'histories'], 'every set of calibration results, schedule selection, qubit mask, expected '
  'states, classifier and sequence of add_data calls',
  'tests train on two well-separated states of one or two qubits with one result; permuted masks, '
  'several results, added data and more levels are never exercised together',
  ['qiskit/ignis/measurement/discriminator'],
  [('training data bookkeeping', 'qiskit/ignis/measurement/discriminator/discriminators.py'),
   ('IQ features and classifiers', 'qiskit/ignis/measurement/discriminator/iq_discriminators.py'),
   ('filter', 'qiskit/ignis/measurement/discriminator/filters.py')]),
P('C08', 'Fitters pool every added result exactly once and refresh what depends on it',
  'The counts a fitter (RB, interleaved, purity and CNOT-dihedral RB, quantum volume, '
  'characterization) uses for a circuit label are the outcome-wise sum over all results added so '
  'far that contain that label, each result counted once, in one call or several, alone or in a list; '
  'None adds nothing; a seed is listed once, in order of first appearance, and a quantum-volume trial '
  'number is extended, never lost. From the pooled counts the derived data are: per pattern, seed and '
  'length the fraction of shots in the all-zero string of the classical bits of that pattern (RB), the '
  'mean square of all 4^n Pauli correlators each averaged over the settings containing it (purity), '
  'heavy-output counts and fraction with respect to the ideal distribution of the same circuit '
  '(quantum volume). add_data with refitting on recomputes data, then statistics, then the fit of every '
  'sub-fitter; with it off derived data are untouched; a second ideal distribution for one circuit, or '
  'data without an ideal distribution, is an error.',
  ['inputs', 'histories'], 'every sequence of add_data calls, split of circuits over results, pattern, '
  'list of lengths and seed order',
  'tests add one list of results once; histories of several additions, results that miss circuits, '
  'and patterns of unequal size are not sampled',
  ['qiskit/ignis/utils.py', 'qiskit/ignis/verification/randomized_benchmarking/fitters.py',
   'qiskit/ignis/verification/quantum_volume/fitters.py', 'qiskit/ignis/characterization/fitters.py'],
  [('counts merging', 'qiskit/ignis/utils.py'),
   ('RB data', 'qiskit/ignis/verification/randomized_benchmarking/fitters.py'),
   ('QV data', 'qiskit/ignis/verification/quantum_volume/fitters.py')]),
P('C18', 'The package is consistent with itself on every path',
  'Every construct the package uses of itself exists and fits, on every path including error '
  'messages, rarely used options and plotting: each name and local is bound before it is read, each '
  'attribute or method used on self, on an instance of a package class, or through super is defined '
  'by its class hierarchy, each call of a package function or constructor fits its signature, each '
  'intra-package import and __all__ entry names something that exists, each format string gets the '
  'number of values it needs, each unpacked result has that many values, each raised object is an '
  'exception, a public function that returns a value does not fall off its end, a property returns a '
  'value and does not refer to itself, and a concrete class leaves no abstract method.',
  ['inputs'], 'every path through every function of every module',
  'a misspelt name in an error branch or an option no test takes fails only when a user gets there',
  ['qiskit/ignis'], [('whole package', 'qiskit/ignis')]),
P('C05', 'Optional packages stay optional',
  'Only the install requirements of setup.py (numpy, scipy, networkx, scikit-learn, qiskit-terra) are '
  'needed to import any module of the package and to use everything but the features that need more. '
  'matplotlib, cvxpy, numba and qiskit-aer may be missing: importing any module then still works, each '
  'plotting function and the convex fitter raises an import error naming the package before touching '
  'it, jit_fallback returns the plain function, the syndrome graph uses BasicAer, and the tomography '
  'method "auto" picks the least-squares fitter unless a suitable semidefinite solver is installed '
  '(any one other than SCS for states, SCS that works included for processes). When the packages are '
  'present, no such feature is refused.',
  ['inputs', 'configurations'], 'every module, entry point and combination of installed packages',
  'the test environment has one fixed set of packages',
  ['qiskit/ignis/numba.py', 'qiskit/ignis/verification/tomography/fitters/cvx_fit.py',
   'qiskit/ignis/verification/tomography/fitters/base_fitter.py',
   'qiskit/ignis/verification/topological_codes/fitters.py',
   'qiskit/ignis/verification/randomized_benchmarking/fitters.py'],
  [('guards', 'qiskit/ignis')]),
P('C02', 'An integer seed determines every random choice',
  'Given an integer seed, 0 included, each generator of random circuits (randomized benchmarking over '
  'the Clifford and CNOT-dihedral groups, random group elements, quantum volume, one-time pads and '
  'accreditation circuits) makes all its random choices from generators created from that seed alone, '
  'so that the same arguments give the same circuits in the same order whatever was drawn before; the '
  'CTMP mitigator likewise samples only from the generator set by its seed. Successive elements, '
  'circuits and trials of one call are drawn afresh, not repeated. Without a seed fresh randomness is '
  'used, and no call ever sets the state of the global generators (routing chosen by the transpiler and '
  'the starting point of the least-squares mitigation are not covered).',
  ['inputs', 'histories'], 'every seed, argument combination and history of earlier draws',
  'tests compare one or two seeds once; seed 0, a second call and interference by earlier global draws '
  'are not sampled',
  ['qiskit/ignis/verification/randomized_benchmarking/circuits.py',
   'qiskit/ignis/verification/randomized_benchmarking/rb_groups.py',
   'qiskit/ignis/verification/randomized_benchmarking/dihedral.py',
   'qiskit/ignis/verification/quantum_volume/circuits.py',
   'qiskit/ignis/verification/accreditation/qotp.py',
   'qiskit/ignis/verification/accreditation/circuits.py',
   'qiskit/ignis/mitigation/expval/ctmp_mitigator.py'],
  [('seed handling', 'qiskit/ignis/verification')]),
P('C25', 'CNOT-dihedral elements are multiplied, read and written exactly',
  'A CNOTDihedral element acts as |x> -> exp(i*pi*p(x)/4)|Ax+b>: cnot, phase, flip, *, compose, dot, '
  'tensor and expand update p, A and b as that action requires, == compares p, A and b, and random '
  'elements are drawn from the whole group. Reading a circuit applies exactly its cx, x, y, z, cz, id '
  'and u1 (multiples of pi/4) gates in order to their qubits, and writing an element gives a circuit '
  'that reads back as the element; adjoint, conjugate and transpose follow from the circuit. '
  'Mismatched qubit counts, indices out of range, unsorted terms, other gates or angles, and elements '
  'that cannot be decomposed raise an error instead of giving another element.',
  ['inputs', 'histories'], 'every element, number of qubits and circuit of the group',
  'the tests draw a few random elements on at most four or five qubits',
  ['qiskit/ignis/verification/randomized_benchmarking/dihedral.py'],
  [('group arithmetic', 'qiskit/ignis/verification/randomized_benchmarking/dihedral.py')]),
P('C19', 'What is logged to file can be read back, and only that',
  'File logging is on only when the configuration file says file_logging: true (keys are case '
  'insensitive, comments start at #, values keep their case and colons), and then uses the configured '
  'path, size limit and rotation count, or ignis.log, 0 and 0 when they are absent or not numbers; each '
  'log_to_file call appends one line holding the date, the label and every key/value pair, writes '
  'nothing to the console, and leaves the logger with exactly its one console handler. IgnisLogReader '
  'finds the log file and its numbered rotations and nothing else, in order of modification, and '
  'returns, for every line within the inclusive date bounds, the date and the pairs whose key was asked '
  'for (all without a key list), skipping lines without any. While file logging is off nothing is '
  'written and one warning is given per logger.',
  ['inputs', 'histories', 'configurations'],
  'every configuration file, sequence of logging calls, key and date filter',
  'the tests write a handful of rows with one configuration',
  ['qiskit/ignis/logging/ignis_logging.py'],
  [('logging', 'qiskit/ignis/logging/ignis_logging.py')]),
P('C06', 'Invalid requests are refused with an error, and only those',
  'Every request outside the documented domain of a public function (malformed qubit patterns and '
  'multipliers, repeated or unknown qubits, mismatched lists, unknown methods, bases, labels and '
  'groups, missing calibration data or ideal distributions, data of the wrong kind or length, '
  'unsupported gates and angles, results that were not computed yet) ends in an error instead of a '
  'returned value. No request inside the domain is refused.',
  ['inputs', 'histories'], 'every argument combination and object state of every function that '
  'checks its input',
  'tests try a few bad values for a few functions; a check that is weakened, inverted for a boundary '
  'value, or moved behind an early return still passes them',
  ['qiskit/ignis'],
  [('argument checks', 'qiskit/ignis/verification/randomized_benchmarking/circuits.py'),
   ('measurement mitigation checks', 'qiskit/ignis/mitigation/measurement'),
   ('expectation value checks', 'qiskit/ignis/mitigation/expval'),
   ('tomography checks', 'qiskit/ignis/verification/tomography')]),
P('C07', 'Calls and objects do not influence each other behind the scenes',
  'What a call returns depends only on its arguments, on the history of the object it is called on '
  'and on the random numbers it draws, never on earlier calls or on other objects: two fitters, '
  'filters, mitigators, bases, codes or group elements built separately share no changeable state, '
  'and defaults, class-level values, module-level tables, predefined bases and process-wide library '
  'settings stay what they were, and no call hands out an object kept at module or class level. A '
  'value an object keeps after computing it once is kept per argument it depends on and dropped when '
  'what it was computed from changes; entries of a list or dictionary built by a call are separate '
  'objects. Only the logging configuration and the one-time detection of installed solvers are '
  'shared by design.',
  ['histories'], 'every interleaving of calls on any number of objects',
  'each test builds its own objects and looks at one; a shared default, cache or class attribute '
  'shows only for the second object or call in one process',
  ['qiskit/ignis'], [('no hidden shared storage', 'qiskit/ignis/**')]),
P('C03', 'Fits recover the parameters that generated the data',
  'Given noiseless data of the documented model, every curve fit and maximum-likelihood fit returns '
  'the generating parameters within its tolerance, and with sampled data the reported standard error '
  'covers the deviation at the stated rate.',
  ['inputs'], 'every parameter set, x range, number of shots and initial guess',
  'tests fit a few stored or simulated records with wide tolerances',
  ['qiskit/ignis/characterization', 'qiskit/ignis/verification/randomized_benchmarking/fitters.py',
   'qiskit/ignis/verification/tomography/fitters'],
  [('curve fits', 'qiskit/ignis/characterization/fitters.py'),
   ('gate set optimisation', 'qiskit/ignis/verification/tomography/fitters/gateset_fitter.py')]),
P('C04', 'Reconstructed states, channels and probabilities are physical to rounding',
  'Every density matrix, Choi operator, gate set and mitigated probability vector that is promised to '
  'be physical is Hermitian, positive semidefinite, of the promised trace and (for channels) trace '
  'preserving up to rounding error.',
  ['inputs'], 'every count record, however ill conditioned',
  'tests look at a few well-conditioned reconstructions',
  ['qiskit/ignis/verification/tomography/fitters', 'qiskit/ignis/mitigation'],
  [('eigenvalue rescaling', 'qiskit/ignis/verification/tomography/fitters/lstsq_fit.py'),
   ('convex fit', 'qiskit/ignis/verification/tomography/fitters/cvx_fit.py')]),
P('C26', 'Randomised estimators are unbiased and drawn elements uniform',
  'The CTMP estimator converges to the exactly mitigated expectation value with the advertised '
  'overhead, random group elements are uniformly distributed, and one-time pads are independent of '
  'the circuit.',
  ['inputs'], 'every noise model, observable, seed and number of samples',
  'a test can only look at one sample mean with a wide tolerance',
  ['qiskit/ignis/mitigation/expval/ctmp_mitigator.py',
   'qiskit/ignis/verification/randomized_benchmarking/dihedral.py'],
  [('sampling', 'qiskit/ignis/mitigation/expval/ctmp_mitigator.py')]),
]
NOT_APPLICABLE = {
    'C03': 'depends on the convergence of scipy optimisers on run-time data; no static argument over '
           'the source bounds it (the model, data, guess and bounds handed to them are decided in '
           'C15, C17 and C24)',
    'C04': 'a statement about rounding errors of eigenvalue decompositions and external convex solvers '
           '(the algorithm and the constraints handed to the solver are decided in C21 and C24)',
    'C26': 'a statement about distributions of run-time samples (which generator is drawn from, how '
           'often, and the algorithm applied to the draws are decided in C02, C11, C14, C16 and C25)',
}
DESIGN = {
    'oracle': {
        'C01': 'no event of the value graph that changes an object may have an alias root among the '
               'caller\'s arguments, or among attributes that borrowed one (documented in-place '
               'arguments are listed in `sa/rules_c01.py`).',
        'C02': 'seed flow: a drawing call reached from a seeded entry point must get a generator '
               'derived from the seed; plus `sa/specs/c02.py` and the seed handling in c11, c14.',
        'C05': 'availability facts must dominate every use; plus `sa/specs/c05.py`.',
        'C06': 'the raise conditions of all files in `sa/specs`.',
        'C07': 'storage that outlives a call must not be written, handed out, or filled with values '
               'that depend on the call.',
        'C18': 'Python\'s own scoping, class and call rules.',
    },
    'notes': {
        'C01': '*Bound:* library functions are assumed not to modify their arguments except the listed '
               'in-place operations of numpy, lists, dictionaries and circuits.',
        'C06': 'Exception types and messages are not compared (C18 checks that what is raised is an '
               'exception and that its message can be built).',
        'C14': 'The inverse and product of group elements are calls whose own meaning is checked in C25 '
               '(CNOT-dihedral) or belongs to qiskit-terra (Clifford).',
        'C16': 'The statistics of CTMP sampling are outside; the sampler is compared with the algorithm.',
        'C18': 'The one undecided obligation is a class with a base outside the package.',
        'C25': 'The group laws themselves follow from the definitions compared; they are not proved.',
    },
    'missed': {
        'c22-parity-keys': 'missed (undecided: the parity operator is rebuilt with another loop '
                           'structure than the definition)',
    },
}
