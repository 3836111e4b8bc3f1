"""C01: public calls never modify caller-supplied objects (effect / alias analysis)."""
import re
from core import Engine, pmap, Broken
from effects import Alias
from terms import walk

# Parameters whose documented role is to be modified in place.
INPLACE = {
    ('*', 'ax'): 'matplotlib axes handed in to be drawn on',
    ('*', 'fig'): 'matplotlib figure handed in to be drawn on',
    ('characterization_utils.pad_id_gates', 'circuit'):
        'documented builder: returns the original circuit with gates appended',
    ('ibmq_utils.update_u_gates', 'inst_map'):
        'documented purpose: update the gates in the given instruction schedule map',
    ('dihedral.append_circuit', 'elem'): 'documented: updates the element in place',
    ('GateSetBasis.add_gate_to_circuit', 'circ'): 'documented builder on the given circuit',
    ('GateSetBasis.add_spam_to_circuit', 'circ'): 'documented builder on the given circuit',
    ('SklearnIQDiscriminator.__init__', 'classifier'):
        'the classifier is handed in to be trained',
}
OWNED = {('SklearnIQDiscriminator', '_classifier'): 'the classifier is handed in to be trained'}
SCALARS = re.compile(r'^(Optional\[)?(int|float|str|bool|complex|Tuple.*|tuple|None)\]?$')


def is_public(f):
    n = f.name
    if f.outer is not None:
        return False
    parts = f.qual.split('.')
    if n.startswith('_') and not (n.startswith('__') and n.endswith('__')):
        return False
    if f.cls is not None and f.cls.name.startswith('_'):
        return False
    return True


def annot(f, p):
    import ast
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == p and x.annotation is not None:
            return ast.unparse(x.annotation)
    m = re.search(r'^\s*%s\s*\(([^)]*)\)' % re.escape(p), f.doc(), re.M)
    return m.group(1) if m else ''


def immut(f, p):
    a = annot(f, p).strip()
    return bool(a) and bool(SCALARS.match(a))


def events_of(prog, f):
    eng = Engine(prog)
    eng.alias_hook = lambda t, st: Alias().alias(t, st.heap)
    s = eng.analyze(f)
    return eng, s


def analyse(prog):
    funcs = [f for q, f in sorted(prog.funcs.items()) if is_public(f)]

    def work(f):
        eng, s = events_of(prog, f)
        muts, stores = [], []
        selfmut = False
        for e in s.events:
            if e.kind in ('mutate', 'augassign', 'setattr'):
                for r in e.d['roots']:
                    if r.op == 'param' and r.a[0] == 'self':
                        selfmut = True
                    if r.op == 'param' and r.a[0] not in ('self', 'cls'):
                        if e.kind == 'augassign':
                            how = 'in-place ' + e.d['op'] + '='
                            direct = e.d['target'] is r
                        elif e.kind == 'setattr':
                            how = 'attribute write .' + e.d['name']
                            direct = False
                        else:
                            how = 'in-place ' + e.d['how']
                            direct = e.d['target'] is r
                        muts.append(('param', r.a[0], e.kind, how, e.where(), e.func.qual, direct,
                                     str(e.d.get('rhs', ''))[:80]))
                    elif r.op == 'attr':
                        if e.kind == 'setattr':
                            how = 'attribute write .' + e.d['name']
                        else:
                            how = 'in-place ' + str(e.d.get('how', e.d.get('op')))
                        muts.append(('self', r.a[1], e.kind, how, e.where(), e.func.qual,
                                     e.d['target'] is r, str(e.d.get('rhs', ''))[:80]))
            if e.kind == 'setattr' and f.cls is not None:
                t = e.d['target']
                if t.op == 'ref' and eng.obj_cls.get(t) is f.cls:
                    selfmut = True
                c = eng.obj_cls.get(t)
                if c is not None and c is f.cls or (c is not None and f.cls in c.mro()):
                    for r in e.d['vroots']:
                        if r.op == 'param' and r.a[0] not in ('self', 'cls'):
                            stores.append((e.d['name'], r.a[0], e.where(), e.d['value'] is r))
        return (f.qual, muts, stores, len(s.events), list(eng.incomplete),
                selfmut or any(m[0] == 'self' for m in muts))
    return funcs, [r for r in pmap(work, funcs) if r is not None]


def rule(prog, rep, tier):
    funcs, res = analyse(prog)
    rep.count('public_entry_points', len(funcs))
    by = {f.qual: f for f in funcs}
    # class -> attribute -> borrowed-from (function, param)
    borrowed = {}
    for q, muts, stores, n, inc, _ in res:
        f = by.get(q)
        for name, p, where, direct in stores:
            if immut(f, p) or f.is_setter:
                continue
            borrowed.setdefault((f.cls.qual, name), []).append((q, p, where))
    # repository methods that never write to their own object
    pure = {}
    for r in res:
        f = by[r[0]]
        if f.cls is not None and not f.is_static:
            pure[f.name] = pure.get(f.name, True) and not r[5]
    nev = 0
    for q, muts, stores, n, inc, _ in res:
        nev += n
        f = by[q]
        short = q.replace('qiskit.ignis.', '')
        bad = False
        for kind, name, ek, how, where, inq, direct, rhs in muts:
            if kind == 'param':
                if ('*', name) in INPLACE or any(q.endswith('.' + k[0]) and k[1] == name
                                                 for k in INPLACE):
                    continue
                if immut(f, name):
                    continue
                if ek == 'mutate' and direct and pure.get(how.replace('in-place ', '')):
                    continue
                if direct and name == '**kwargs':
                    continue       # **kwargs is a fresh dictionary in the callee
                if ek == 'augassign' and direct and not arrayish(f, name, rhs):
                    continue
                bad = True
                rep.bad('caller-argument-mutated', '%s(%s)' % (short, name), where,
                        '%s on an object reachable from caller argument `%s` of %s (in %s)'
                        % (how, name, short, inq.split('.')[-1]))
            else:
                cls = f.cls
                if cls is None:
                    continue
                hit = []
                for c in prog.classes.values():
                    if cls in c.mro() or c in cls.mro():
                        hit += borrowed.get((c.qual, name), [])
                if (cls.name, name) in OWNED:
                    continue
                if ek == 'augassign' and direct and not hit:
                    continue
                for (bq, bp, bw) in hit:
                    if ek == 'augassign' and direct and not arrayish(by[bq], bp, rhs):
                        continue
                    bad = True
                    rep.bad('borrowed-state-mutated', '%s.%s<-%s(%s)' % (
                        cls.name, name, bq.split('.')[-1], bp), where,
                        '%s on self.%s, which aliases caller argument `%s` of %s (stored at %s)'
                        % (how, name, bp, bq.split('.')[-1], bw))
                    break
        if not bad:
            rep.ok('no-caller-mutation', short, '%d events' % n)
    rep.count('events_analysed', nev)
    rep.count('borrowed_attributes', len(borrowed))
    rep.assumptions += [
        'functions outside qiskit.ignis do not modify their arguments, except the in-place numpy, '
        'list, dict, set and circuit operations listed in sa/engine.py and sa/effects.py',
        'matplotlib axes/figures passed in to be drawn on are not inputs in the sense of the property',
    ]


def arrayish(f, p, rhs):
    a = annot(f, p).lower()
    if any(x in a for x in ('array', 'list', 'dict', 'ndarray', 'set', 'circuit', 'matrix')):
        return True
    return False
