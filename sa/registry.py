REF_TECH = ('symbolic value-graph construction from the source (interprocedural, gated SSA with '
            'summarised loops) and equality of normal forms against reference definitions')
REF_NOTE = ('equality is decided on normal forms for all inputs; a construct whose normal form can '
            'be neither equated nor told apart is reported as undecided in the evidence')


def ref(spec, floor, rules, **kw):
    return dict(module='rules_ref', spec=spec, floor=floor, rules=rules,
                technique=REF_TECH, note=REF_NOTE, **kw)


CHECKS = {
    'C01': dict(module='rules_c01', floor=150,
                rules='Every public entry point is interpreted over the value graph; every in-place '
                      'effect (item/attribute write, mutating method, augmented assignment) whose '
                      'target may alias a caller argument, or an attribute that borrowed one, is an '
                      'obligation.',
                technique='interprocedural alias and effect analysis over a gated value graph',
                note='sound up to the listed external-call effect assumptions'),
    'C09': ref('c09.py', 6,
               'Constructor state, the value returned by apply for every method and input form, and '
               'the raise condition of both filters are compared with their definition.'),
    'C12': ref('c12.py', 8,
               'The calibration circuits (states, names, gates, measurements), the fitter state, '
               'calibration matrices, subset and fidelity values and the raise conditions are '
               'compared with their definition.'),
    'C13': ref('c13.py', 8,
               'The circuits (registers, names, gate and measurement sequence per qubit) and delay '
               'lists or schedules returned by every characterization generator are compared with '
               'the defining experiment.'),
    'C15': ref('c15.py', 8,
               'The value, attributes and raise condition of each RB and quantum-volume conversion '
               'and fit function is compared with its defining formula.'),
    'C16': ref('c16.py', 20,
               'The estimators, mitigators, calibration circuits, fitter and CTMP generator code of '
               'expectation-value mitigation are compared with their definitions.'),
    'C17': ref('c17.py', 20,
               'Fit models, the excited-state data extraction, initial guesses where fixed, '
               'parameter bookkeeping and every reported physical quantity of the characterization '
               'fitters are compared with their definitions.'),
    'C10': ref('c10.py', 25,
               'Basis circuits and operators per label, basis tables, label enumeration, circuit '
               'composition, register handling and raise conditions of the tomography and gate set '
               'circuit generators are compared with their definitions.'),
    'C11': ref('c11.py', 6,
               'Layer parsing, one-time-pad construction and correction, trap routines, protocol '
               'bookkeeping and bounds are compared with the protocol definition; every random draw '
               'is a distinct value.'),
    'C21': ref('c21.py', 15,
               'Data collection, marginalisation, operators, weights, fit assembly (least squares '
               'and the convex program) and counts helpers are compared with their definitions.'),
    'C24': ref('c24.py', 8,
               'Linear inversion, gauge optimisation, parametrisation, objective, constraints and '
               'result conversion of gate set tomography are compared with their definitions.'),
    'C14': ref('c14.py', 8,
               'Argument checks, length multipliers, the random and inverting element sequence, gate '
               'and name bookkeeping, interleaved and CNOT-dihedral variants of the RB generator, the '
               'group dispatch and the quantum-volume circuits are compared with their definitions; '
               'every random draw is a distinct value.'),
    'C20': ref('c20.py', 8,
               'Code circuits, syndrome processing, syndrome and error graphs, matching and the '
               'logical error probabilities are compared with their definitions.'),
    'C22': ref('c22.py', 12,
               'GHZ circuit families, layout and tier search on a coupling map, observables and the '
               'Fourier fidelity figures are compared with their definitions.'),
    'C23': ref('c23.py', 20,
               'Calibration selection, feature and label assembly, scaling, classifier calls, filter '
               'output and raise conditions are compared with their definitions.'),
    'C08': ref('c08.py', 20,
               'Result lists, seed and trial lists, pooled counts, derived survival, purity and '
               'heavy-output data, the calls that refresh them and the raise conditions of every '
               'fitter are compared with their definition.'),
    'C18': dict(module='rules_c18', floor=1500,
                rules='Every name, local, attribute, instance attribute, super call, call signature, '
                      'import, format string, raised object, returned tuple and abstract class of '
                      'the package is an obligation: it must be bound, defined or fit.',
                technique='scope, definite-assignment, class-hierarchy, call-signature and import '
                          'analysis over the syntax trees of all modules',
                note='objects of external libraries are not checked; a construct whose target '
                     'cannot be resolved is no obligation'),
    'C05': dict(module='rules_c05', floor=60,
                rules='Imports of packages that are not install requirements must be caught; every '
                      'use of a name such an import binds must be reached only where the '
                      'availability flag holds (through helpers and aliases); without the package a '
                      'plotting or convex-fit entry point reports it; the fallbacks (jit, solver '
                      'choice) are compared with their definition.',
                technique='import analysis and flow-sensitive interprocedural fact analysis of '
                          'availability flags; value-graph comparison for the fallbacks',
                note='function-level imports of an optional package are left to ImportError itself'),
    'C02': dict(module='rules_c02', floor=25,
                rules='Every function with a seed parameter is interpreted with seed 0 and with an '
                      'arbitrary integer seed; each generator construction and drawing call it '
                      'reaches must get a value derived from it, fresh per loop iteration; no other '
                      'public function draws from or changes the global generator; the seed flow of '
                      'RB, quantum-volume, accreditation and CTMP objects is compared with its '
                      'definition.',
                technique='interprocedural dataflow (taint) of seeds over the value graph, and '
                          'equality of normal forms with reference definitions',
                note='the external functions that draw, and their seed parameter, are listed; '
                     'transpiler routing is outside the statement'),
    'C25': ref('c25.py', 60,
               'Polynomial arithmetic mod 8, group multiplication, the generators, equality, '
               'tensor products, reading and writing circuits and the raise conditions of '
               'dihedral.py are each compared with their definition; calls between them stay '
               'calls.'),
    'C19': ref('c19.py', 25,
               'The configuration file parser, the handler bookkeeping of the logger (attributes '
               'and the ordered calls that add and remove handlers and log), the line format and '
               'the reader with its key and date filters are each compared with their definition.'),
    'C06': dict(module='rules_c06', floor=150,
                rules='For every function with a reference definition, the condition (over all '
                      'inputs) under which it raises is compared with the condition stated there, '
                      'including that of the functions it calls.',
                technique=REF_TECH, note=REF_NOTE),
    'C07': dict(module='rules_c07', floor=400,
                rules='Parameter defaults, class-level names, module-level names and process-wide '
                      'library settings are resolved in every function; each must be left alone '
                      '(no in-place change, re-binding, hand-out or memo of a changeable object); '
                      'entries of repeated lists and functions kept in loops must be separate.',
                technique='name resolution and access-path (alias) analysis of writes to storage '
                          'that outlives a call, over the syntax trees of all modules',
                note='the logging configuration is process-wide by design; the one-time detection '
                     'of installed solvers is allowed'),
}
