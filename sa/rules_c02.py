"""C02: a seed determines everything random.

Every function that takes a seed is interpreted over the value graph twice, with the seed 0 and with
an arbitrary integer seed; every source of randomness it reaches must be constructed from that seed.
"""
import ast
from loader import dotted
from engine import Engine, C
from terms import N, mk
import refs

SEEDS = ('seed', 'rand_seed', 'random_seed', 'random_state')
MAKERS = {'RandomState', 'default_rng', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'SFC64',
          'Random'}
PASSIVE = {'Generator', 'BitGenerator', 'get_state', 'mtrand'}
# external functions that draw, and the position of their seed
DRAWERS = {'random_clifford': 1, 'random_unitary': 1, 'random_pauli': 1, 'random_circuit': None,
           'random_statevector': 1, 'random_density_matrix': None, 'random_hermitian': None,
           'random_quantum_channel': None, 'random_cnotdihedral': 1, 'random_pauli_list': None,
           'random_stabilizer_table': None, 'random_pauli_table': None, 'QuantumVolume': 2}
# the only draw that is not part of a result: the starting point of the least-squares search
FREE = 'mitigation.measurement.filters'
SYM = mk('param', '$the seed')


def walk(t, seen=None):
    seen = seen if seen is not None else set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, N) and id(x) not in seen:
            seen.add(id(x))
            yield x
            st.extend(x.a)


def from_seed(t, root=SYM):
    return any(x is root for x in walk(t))


def carried(t, loops):
    """The value differs between iterations of the innermost loop it is used in."""
    if not loops:
        return True
    for x in walk(t):
        if x.op in ('iv', 'mu', 'prev', 'loopout', 'until', 'last') or \
                (x.op == 'call' and any(k == '#in' for k, _ in x.a[2] if isinstance(k, str))):
            return True
    return False


def source(fn):
    """(kind, name) when the function term is a source of randomness."""
    if fn.op == 'g':
        q = fn.a[0]
        for pre in ('numpy.random.', 'random.', 'numpy.random.mtrand.'):
            if q.startswith(pre):
                nm = q[len(pre):]
                if '.' in nm:
                    continue
                if nm in MAKERS:
                    return 'make', nm
                if nm in PASSIVE:
                    return None
                return 'global', q
        nm = q.split('.')[-1]
        if nm in DRAWERS:
            return 'ext', nm
    elif fn.op == 'func' and fn.a[0].split('.')[-1] in DRAWERS:
        return 'ext', fn.a[0].split('.')[-1]
    elif fn.op == 'attr':
        b = fn.a[0]
        if b.op == 'g' and b.a[0] in ('numpy.random', 'random'):
            return source(mk('g', b.a[0] + '.' + fn.a[1]))
    return None


def leaves(fn):
    if fn.op == 'if':
        yield from leaves(fn.a[1])
        yield from leaves(fn.a[2])
    elif fn.op == 'attr' and fn.a[0].op == 'if':
        for x in leaves(fn.a[0]):
            yield mk('attr', x, fn.a[1])
    else:
        yield fn


def seed_arg(ev, kind, nm):
    pos = 0 if kind == 'make' else DRAWERS[nm]
    for k, v in ev.d['kws']:
        if k == 'seed' or k in SEEDS:
            return v
        if k is None or k == '**':
            return 'unknown'
    if pos is not None and len(ev.d['args']) > pos:
        return ev.d['args'][pos]
    if any(a.op == 'star' for a in ev.d['args']):
        return 'unknown'
    return None


def one(prog, rep, f, p, val, label):
    eng = Engine(prog)
    try:
        s = eng.analyze(f, args={p: val})
    except (RecursionError, TimeoutError):
        rep.skip('seeded', '%s:%s' % (f.qual, label), 'analysis limit')
        return
    n = 0
    for ev in s.events:
        if ev.kind != 'call':
            continue
        for fn in leaves(ev.d['fn']):
            k = source(fn)
            if k is None:
                continue
            kind, nm = k
            key = '%s[%s]:%s:%s' % (f.qual.replace('qiskit.ignis.', ''), label,
                                    ev.func.name, nm.split('.')[-1])
            n += 1
            if kind == 'global':
                if fn is not ev.d['fn'] and label != 'zero':
                    continue
                rep.bad('seeded', key, ev.where(), 'with %s=%s, %s draws from the global generator '
                        '(%s)' % (p, '0' if label == 'zero' else 'an integer', f.name, nm))
                continue
            a = seed_arg(ev, kind, nm)
            if a == 'unknown':
                rep.skip('seeded', key, 'seed passed through **kwargs')
            elif a is None or (a.op == 'const' and a.a[0] is None):
                if 'SeedSequence' in nm or fn is not ev.d['fn']:
                    rep.skip('seeded', key, 'unseeded alternative')
                else:
                    rep.bad('seeded', key, ev.where(), 'with %s=%s, %s uses %s without a seed'
                            % (p, '0' if label == 'zero' else 'an integer', f.name, nm))
            elif label != 'zero' and not from_seed(a):
                if any(x.op in ('undef', 'unk', 'mu', 'prev', 'loopout', 'until', 'attr', 'ref')
                       for x in walk(a)) or eng.lossy:
                    # carried through a loop or an object: the reference comparison decides
                    rep.count('seed-carried')
                else:
                    rep.bad('seeded', key, ev.where(),
                            '%s seeds %s with a value that does not depend on %s' % (f.name, nm, p))
            elif label != 'zero' and kind == 'ext' and not carried(a, ev.loops):
                rep.bad('fresh-draw', key, ev.where(),
                        'every iteration of a loop in %s draws the same %s' % (f.name, nm))
            elif label != 'zero' and kind == 'make' and ev.loops and not carried(a, ev.loops):
                rep.bad('fresh-draw', key, ev.where(),
                        'the generator is created anew, with the same seed, in every iteration')
            else:
                rep.ok('seeded', key)
    rep.ok('entry', '%s[%s]' % (f.qual, label))
    return n


def global_sources(prog, rep):
    """Draws from the global generator anywhere, and changes of its state."""
    for m in prog.modules.values():
        if m.rel.startswith('<'):
            continue
        for f in [x for x in prog.funcs.values() if x.module is m]:
            names = [x.arg for x in f.node.args.args + f.node.args.kwonlyargs]
            seeded = any(x in SEEDS or x == 'rng' for x in names)
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                d = dotted(n.func)
                if d is None:
                    continue
                q = prog.canon(prog.resolve_dotted(m, d) or d)
                k = source(mk('g', q)) if '.' in q else None
                if k is None or k[0] == 'ext':
                    continue
                key = '%s:%s' % (f.qual.replace('qiskit.ignis.', ''), q)
                where = '%s:%d' % (m.rel, n.lineno)
                leaf = q.split('.')[-1]
                if leaf in ('seed', 'set_state') and k[0] == 'global':
                    rep.bad('global-state', key, where,
                            '%s changes the state of the global generator' % f.name)
                elif k[0] == 'global' and not seeded and not m.name.endswith(FREE):
                    if f.name.startswith('_'):
                        rep.skip('global-draw', key, 'decided at the seeded entry points')
                    else:
                        rep.bad('global-draw', key, where, '%s draws from the global generator and '
                                'takes no seed' % f.name)
                elif k[0] == 'make' and not n.args and not n.keywords and not seeded and \
                        not m.name.endswith(FREE) and leaf != 'SeedSequence':
                    if f.name.startswith('_') and f.name != '__init__':
                        rep.skip('global-draw', key, 'decided at the seeded entry points')
                    else:
                        rep.bad('global-draw', key, where,
                                '%s makes a generator without a seed' % f.name)
                else:
                    rep.ok('global-draw', key)


def rule(prog, rep, tier):
    for f in list(prog.funcs.values()):
        if f.module.rel.startswith('<') or f.is_setter:
            continue
        for p in f.params:
            if p in SEEDS:
                one(prog, rep, f, p, C(0), 'zero')
                one(prog, rep, f, p, mk('bin', '*', C(3), SYM), 'any')
    global_sources(prog, rep)
    refs.run(prog, rep, 'c02.py')
    refs.run(prog, rep, 'c14.py', lambda t: t in ('RBgroup.random',
                                                  'quantum_volume.circuits.qv_circuits',
                                                  'randomized_benchmarking.circuits.'
                                                  'randomized_benchmarking_seq'))
    refs.run(prog, rep, 'c11.py', lambda t: t in ('qotp.QOTP', 'AccreditationCircuits.__init__'))
