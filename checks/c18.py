"""C18  collection book-keeping loses, invents and confuses no states"""
import itertools
from fractions import Fraction as F
from symx.runner import Case
from . import ref, prog
from .c17 import deep, cmp
META = dict(bounds='collections of up to 5 states (up to 60 with fixed draws) with 1..2 symbolic amplitudes, symbolic weights, classical values and filter values; random draws of generated identifiers chosen adversarially among the first, second and last letter (up to 6 free draws per run); default collections for Fock length 2..5, 10 and 11 with 2..4 channels; measurements with up to 784 outcomes; both naming conventions',
    outside='identifiers that are not strings, more free random draws per run, larger systems')

def draws(h, k, tail='first'):
    """the first k random draws are arbitrary among {first, second, last}; later ones cycle or stay"""
    n = [0]
    def hook(a, b):
        n[0] += 1
        if n[0] <= k: return h.choose('draw%d' % n[0], [a, min(a + 1, b), b])
        return a if tail == 'first' else a + n[0] % (b - a + 1)
    h.rnd.hook = hook

def content(h, c, ini, j, cb=((1, 0), (0, 1)), ncl=2):
    amps = h.box(cb, 'x%d' % j)
    for a in amps.values(): h.nonzero(a)
    return dict(amps=amps, prob=h.real('P%d' % j, 0, 1, pos=True), classical=[h.real('k%d%d' % (j, q), -3, 3) for q in range(ncl)], initial=ini, meas=[{'measurement_results': [j] * ncl, 'probability': .5}], aux={'tag': [j]})

def start(h, inis, left, ids=None, L=2, n=2, ncl=2):
    c = h.circuit(L, n, c=ncl, left=left)
    ss = [dict(content(h, c, i, j, ncl=ncl), id=(ids[j] if ids else 'id%d' % j)) for j, i in enumerate(inis)]
    return c, ss, h.collection(c, ss)

def exact(h, label, col, pics, order):
    """the collection holds exactly these states (name -> picture) in this order, through every access path"""
    h.true(label + ' identifiers', list(col.keys()) == order, (list(col.keys()), order))
    h.true(label + ' length', len(col) == len(order))
    h.true(label + ' identifiers as list', col.state_identifiers_as_list() == order)
    if list(col.keys()) != order: return
    for k in order: cmp(h, '%s %s' % (label, k), deep(h, col[k]), pics[k])
    h.true(label + ' items', [k for k, _ in col.items()] == order and all(s is col[k] for k, s in col.items()))
    h.true(label + ' values', all(a is col[k] for a, k in zip(col.values(), order)))
    it = list(col)
    h.true(label + ' iteration', len(it) == len(order) and all(a is col[k] for a, k in zip(it, order)))
    h.true(label + ' by number', all(col[i] is col[k] for i, k in enumerate(order)))
    h.true(label + ' dict', list(col.collection_as_dict().keys()) == order)
    h.true(label + ' initial states', col.initial_states_as_list() == [col[k].initial_state for k in order])

def add(h, existing, m, free, left, tail='first', explicit=()):
    """states added without identifier: none lost, none overwritten"""
    c, ss, col = start(h, ['a'] * len(existing), left, list(existing))
    pics = {s['id']: deep(h, col[s['id']]) for s in ss}
    order = [s['id'] for s in ss]
    draws(h, free, tail)
    for j in range(m):
        s = h.state(c, col, dict(amps={(1, 1): 1}, prob=.5, classical=[100 + j, 0], initial='new%d' % j, meas=[], aux={}))
        p = deep(h, s); before = set(col.keys())
        if j in explicit:
            k = explicit[j]; col.add_state(s, k)
            if k in order: pics[k] = p; continue
            pics[k] = p; order.append(k); continue
        col.add_state(s)
        fresh = [k for k in col.keys() if k not in before]
        h.true('one identifier more', len(fresh) == 1 and len(col) == len(before) + 1, (sorted(before), list(col.keys())))
        if len(fresh) != 1: return
        pics[fresh[0]] = p; order.append(fresh[0])
    exact(h, 'after adding', col, pics, order)

def mixture(h, m, free, left, tail='first', repeat=False):
    c, ss, col = start(h, ['a', 'b', 'a', 'c', 'b'][:m], left)
    W = [h.real('w%d' % j, 0, 1) for j in range(m)]
    src = [col[s['id']] for s in ss]
    if repeat: src[-1] = src[0]
    pics = [deep(h, s) for s in src]
    draws(h, free, tail)
    col2 = h.fsc.CollectionOfStates(c, dict([]))
    col2.add_state(h.state(c, col2, dict(amps={(1, 1): 1}, prob=1, classical=[0, 0], initial='old', meas=[], aux={})), 'old')
    col2.set_collection_as_statistical_mixture(list(zip(src, W)))
    h.true('number of states', len(col2) == m, (len(col2), m))
    h.true('identifiers differ', len(set(col2.state_identifiers_as_list())) == m)
    if len(col2) != m: return
    for t, s, w, s0 in zip(col2, src, W, [ss[0] if repeat and j == m - 1 else x for j, x in enumerate(ss)]):
        h.eq('weight', t.cumulative_probability, w)
        h.eq_amps('components', h.amps(t, c), s0['amps']); h.check_state('components', t, c)
        h.eq('classical', list(t.classical_channel_values), s0['classical'])
        h.true('history', h.same(t.measurement_results, s0['meas'])); h.true('aux', h.same(t.auxiliary_information, s0['aux']))
    h.true('one initial state', len({t.initial_state for t in col2}) == 1 and isinstance(col2[0].initial_state, str), col2.initial_states_as_list())
    for s, p in zip(src, pics): cmp(h, 'sources unchanged', deep(h, s), p)

INI = ['a', 'b', 'a', 'ab', 'b']
def select(h, what, left):
    c, ss, col = start(h, INI, left, ['id0', 'id1', 'id', 'id00', 'id01'])
    ids = [s['id'] for s in ss]
    pics = {k: deep(h, col[k]) for k in ids}
    ini = dict(zip(ids, INI))
    kind, arg = what
    if kind == 'initial':
        col.filter_on_initial_state(arg); sel = [arg] if isinstance(arg, str) else arg or []
        order = [k for k in ids if ini[k] in sel]
    elif kind == 'id':
        col.filter_on_identifier(arg); sel = [arg] if isinstance(arg, str) else arg or []
        order = [k for k in ids if k in sel]
    elif kind == 'delete-id':
        col.delete_state(identifier=arg); order = [k for k in ids if k != arg]
    elif kind == 'delete-initial':
        col.delete_state(initial_state=arg); m = [k for k in ids if ini[k] == arg]
        order = [k for k in ids if k not in m[:1]]
    elif kind == 'delete-both':
        col.delete_state(identifier=arg[0], initial_state=arg[1])
        m = [arg[0]] if arg[0] in ids else [k for k in ids if ini[k] == arg[1]][:1]
        order = [k for k in ids if k not in m]
    elif kind == 'delete-none': col.delete_state(); order = ids
    elif kind == 'clear': col.clear(); order = []
    elif kind == 'get':
        h.true('by id', all(col.get_state(identifier=k) is col[k] and col.get_state(k) is col[k] for k in ids))
        for i in ('a', 'b', 'ab'): h.true('by initial state', col.get_state(initial_state=i) is col[[k for k in ids if ini[k] == i][0]])
        h.true('identifier first', col.get_state('id01', 'a') is col['id01'])
        h.true('initial state as fallback', col.get_state('none', 'b') is col['id1'])
        h.true('absent', col.get_state('none') is None and col.get_state(initial_state='none') is None and col.get_state() is None and col.get_state('none', 'none') is None and col['none'] is None)
        order = ids
    elif kind == 'overwrite':
        s = h.state(c, col, dict(amps={(1, 1): 1}, prob=.5, classical=[1, 2], initial='zz', meas=[], aux={})); pics['id'] = deep(h, s)
        col.add_state(s, 'id'); order = ids
    elif kind == 'dict':
        d = {k: col[k].copy() for k in reversed(ids)}; col.clear(); col.collection_from_dict(d); order = list(reversed(ids))
    elif kind == 'construct':
        col = h.fsc.CollectionOfStates(c, {k: col[k].copy() for k in ids[1:]}); order = ids[1:]
    elif kind == 'construct-dict':
        col = h.fsc.CollectionOfStates(c, {k: dict(col[k].copy().state) for k in ids[:3]}); order = ids[:3]
    elif kind == 'copy': col = col.copy(); order = ids
    elif kind == 'sequence':
        col.delete_state('id1'); s = h.state(c, col, dict(amps={(1, 1): 1}, prob=.5, classical=[1, 2], initial='a', meas=[], aux={})); pics['id1'] = deep(h, s)
        col.add_state(s, 'id1'); col.filter_on_initial_state(['a']); col.delete_state(initial_state='a'); order = ['id', 'id1']
    exact(h, kind, col, pics, order)

def classical(h, chans, kind, left):
    """filter on classical values that are arbitrary numbers"""
    c, ss, col = start(h, ['a', 'b', 'a'], left, ncl=3)
    if kind == 'equal':
        for q in chans: ss[2]['classical'][q] = ss[0]['classical'][q]
        for s in ss: col[s['id']].classical_channel_values = list(s['classical'])
        vals = [ss[0]['classical'][q] for q in chans]
    elif kind == 'free': vals = [h.real('v%d' % q, -3, 3) for q in chans]
    else:
        for j, s in enumerate(ss):
            s['classical'] = [j, 10 * j, 1 if j else 0]; col[s['id']].classical_channel_values = list(s['classical'])
        vals = [ss[1]['classical'][q] for q in chans]
    pics = {s['id']: deep(h, col[s['id']]) for s in ss}
    order = [s['id'] for s in ss if all(bool(s['classical'][q] == v) for q, v in zip(chans, vals))]
    col.filter_on_classical_channel(list(chans), list(vals))
    exact(h, 'classical', col, pics, order)

def default(h, L, n, ncl, left):
    c = h.circuit(L, n, c=ncl, left=left)
    B = h.basis(L, n)
    for col in (h.fsc.CollectionOfStates(c), None):
        if col is None: col = h.fsc.CollectionOfStates(c, dict([])); h.true('empty', len(col) == 0); col.initialize_to_default()
        h.true('size', len(col) == L ** n and len(set(col.keys())) == L ** n, len(col))
        seen = {}
        for t in col:
            A = h.amps(t, c)
            h.true('one component', len(A) == 1, t.optical_components)
            v = next(iter(A)); seen[v] = seen.get(v, 0) + 1
            h.eq('amplitude', A[v], 1); h.eq('weight', t.cumulative_probability, 1)
            h.true('label', t.initial_state == h.name(v, L, left), (t.initial_state, v))
            h.eq('classical', list(t.classical_channel_values), [0] * ncl); h.true('history', all(m['probability'] in (0, 1) for m in t.measurement_results))
        h.true('each basis state once', all(seen.get(v) == 1 for v in B) and len(seen) == len(B))
        h.check_state('state', col[0], c)
        h.true('names', list(col.generate_allowed_components_names_as_list_of_strings()) == [h.name(v, L, left) for v in B], 'x')

def nodes(h, kind, free, left, m=4, tail='first'):
    """nodes that generate new identifiers keep every state"""
    L, n = 3, 2
    h.thr_c = 2e-6
    c = h.circuit(L, n, c=1, left=left)
    cb = [[(1, 0), (0, 1)], [(2, 0), (1, 1)], [(0, 0), (1, 2)], [(1, 0), (0, 1)]]
    ss = []
    for j in range(m):
        amps = h.box(cb[j], 'x%d' % j)
        for a in amps.values(): h.nonzero(a)
        ss.append(prog.st(amps, [h.real('k%d' % j, -3, 3)], h.real('P%d' % j, 0, 1, pos=True), [], 'i%d' % j, {'tag': [j]}))
    node = {'shift_direct': ('shift_direct', (0, 1), (1, 2)), 'c_shift_direct': ('c_shift_direct', (0,), (1,)), 'shift': ('shift', (0,), (2,)), 'c_shift': ('c_shift', (1,), (0,)),
            'gate': ('gate', ('phase', 0)), 'measure': ('measure', (0,), (0,)), 'cphase': ('cphase', 0, 0)}[kind]
    f = prog.put(h, c, node, L)
    col = h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)])
    draws(h, free, tail)
    out = c.evaluate_circuit(col)
    prog.match(h, kind, out, c, prog.run([f], ss))

def many(h, L, left, twice, ids):
    """more measurement outcomes than letters: every outcome is kept"""
    n = 2
    c = h.circuit(L, n, c=2, left=left, thr=1e-12)
    B = h.basis(L, n); N = L ** n
    a = h.real('a', F(1, 2 * L), F(1, L), pos=True); p = [h.real('P%d' % j, 0, 1, pos=True) for j in range(len(ids))]
    col = h.collection(c, [dict(amps={v: a for v in B}, prob=p[j], classical=[0, 0], initial=i, id=i, meas=[]) for j, i in enumerate(ids)])
    c.measure_optical_to_classical([0] if twice else [0, 1], [0] if twice else [0, 1])
    if twice: c.measure_optical_to_classical([1], [1])
    out = c.evaluate_circuit(col)
    h.true('all outcomes', len(out) == N * len(ids), (len(out), N * len(ids)))
    seen = {}
    for t in out: seen.setdefault(t.initial_state, []).append(tuple(int(x) for x in t.classical_channel_values))
    for i in ids: h.true('outcomes of ' + i, sorted(seen.get(i, [])) == sorted(B), len(seen.get(i, [])))
    for j, i in enumerate(ids):
        for t in [t for t in out if t.initial_state == i][::max(1, N // 7)]: h.eq('weight', t.cumulative_probability, p[j] * a * a)
        h.eq('total', ref.sum_([t.cumulative_probability for t in out if t.initial_state == i]), p[j] * a * a * N)

def cases(tier, seed):
    out = []
    def A(name, fn, tier='quick', **cfg): out.append(Case(name, fn, tier=tier, **cfg))
    for left in (True, False):
        s = 'l' if left else 'r'
        for ex in ([], ['identifier_a'], ['identifier_a', 'identifier_aa', 'identifier_b'], ['identifier_9', 'a']):
            for m, free in ((2, 4), (3, 5)): A('add-%s-%d-%s' % ('+'.join(x[11:] or 'x' for x in ex), m, s), add, existing=ex, m=m, free=free, left=left)
        A('add-explicit-' + s, add, existing=['q', 'identifier_b'], m=4, free=4, left=left, explicit={1: 'identifier_a', 2: 'q'})
        A('add-60-first-' + s, add, existing=['q'], m=60, free=0, left=left)
        A('add-60-cycle-' + s, add, existing=['identifier_a'], m=60, free=0, left=left, tail='cycle')
        A('add-4-deep-' + s, add, tier='thorough', existing=['identifier_a'], m=4, free=7, left=left)
        for m, free, tr in ((1, 2, 'quick'), (2, 5, 'quick'), (2, 7, 'thorough'), (3, 7, 'thorough')): A('mixture-%d-%d-%s' % (m, free, s), mixture, m=m, free=free, left=left, tier=tr)
        for m in (2, 3, 4, 5):
            for rep in (0, 1): A('mixture-fixed-%d%d-%s' % (m, rep, s), mixture, m=m, free=0, left=left, repeat=bool(rep))
        A('mixture-tail-' + s, mixture, m=4, free=0, left=left, tail='cycle')
        for i, w in enumerate([('initial', 'a'), ('initial', ['b']), ('initial', ['a', 'ab']), ('initial', ['none']), ('initial', []), ('initial', ['b', 'a', 'a']), ('initial', 'ab'), ('initial', None),
                  ('id', 'id'), ('id', ['id0', 'id01']), ('id', ['id01', 'id0', 'zz']), ('id', 'id00'), ('id', []), ('id', ['zz']), ('id', None),
                  ('delete-id', 'id'), ('delete-id', 'id0'), ('delete-id', 'zz'), ('delete-initial', 'a'), ('delete-initial', 'b'), ('delete-initial', 'ab'), ('delete-initial', 'zz'),
                  ('delete-both', ('id01', 'a')), ('delete-both', ('zz', 'b')), ('delete-both', ('zz', 'zz')), ('delete-none', 0), ('clear', 0), ('get', 0), ('overwrite', 0), ('dict', 0), ('construct', 0), ('construct-dict', 0), ('copy', 0), ('sequence', 0)]):
            A('select-%d-%s-%s' % (i, w[0], s), select, what=w, left=left)
        for ch in ((0,), (1,), (0, 1), (1, 0), ()):
            for kind in ('equal', 'free', 'fixed'): A('classical-%s-%s-%s' % (''.join(map(str, ch)), kind, s), classical, chans=ch, kind=kind, left=left)
        for L, n, ncl in ((2, 2, 0), (2, 3, 1), (3, 2, 2), (4, 2, 1), (2, 4, 3), (3, 3, 0), (5, 2, 1), (10, 2, 0), (11, 2, 1)): A('default-%d%d-%s' % (L, n, s), default, L=L, n=n, ncl=ncl, left=left)
        for k in ('shift_direct', 'c_shift_direct', 'shift', 'c_shift', 'gate', 'measure', 'cphase'):
            A('node-%s-%s' % (k, s), nodes, kind=k, free=3, left=left, m=3)
            A('node-%s-first-%s' % (k, s), nodes, kind=k, free=0, left=left)
            A('node-%s-cycle-%s' % (k, s), nodes, kind=k, free=0, left=left, tail='cycle')
        for L in (3, 6): 
            for tw in (False, True):
                for ids in (['x'], ['x', 'x-M1a', 'x-M1'], ['x', 'xa', 'x-M1aa']): A('many-%d-%d-%d%s-%s' % (L, tw, len(ids), ids[-1][-1], s), many, L=L, left=left, twice=tw, ids=ids)
        A('many-28-%s' % s, many, L=28, left=left, twice=False, ids=['x'], tier='thorough')
    return out
