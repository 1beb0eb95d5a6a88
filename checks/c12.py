"""C12  density matrix = weighted mixture"""
import itertools
from fractions import Fraction as F
from symx.runner import Case
from . import ref
META = dict(bounds='Fock length 2..4, 2..4 optical channels (basis up to 27), up to 5 states in up to 3 initial states, symbolic complex amplitudes and weights, both naming conventions', outside='larger bases')

def dm(h, L, n, spec, left, named=None, dec=12, after=None):
    """spec: list of (initial state, support)"""
    c = h.circuit(L, n, c=1, left=left)
    # labels of which one begins, ends or contains another
    full = dict(a='run1', b='run10', c='un1', zz='run')
    spec = [(full[i], cb) for i, cb in spec]; named = full.get(named)
    ss = [dict(amps=h.box(cb, 'x%d' % j), prob=h.real('P%d' % j, 0, 1), initial=i, id='id%d' % j, classical=[j]) for j, (i, cb) in enumerate(spec)]
    col = h.collection(c, ss)
    inits = list(dict.fromkeys(i for i, _ in spec)) if named is None else [named]
    B = h.basis(L, n); exp = {}
    for i in inits:
        mine = [s for s in ss if s['initial'] == i]
        live = [v for v in B if any(v in s['amps'] for s in mine)]
        D = {(v, w): ref.sum_([h.conj(s['amps'][v]) * s['amps'][w] * s['prob'] for s in mine if v in s['amps'] and w in s['amps']]) for v in live for w in live}
        exp[i] = live, D, ref.sum_([D[v, v] for v in live]), h.sum_abs2(D.values())
    r = col.density_matrix(**(({} if dec is None else dict(decimal_places_for_trace=dec)) | ({} if named is None else dict(initial_state=named))))
    h.true('initial states', set(r) == set(inits), list(r))
    if dec is None: dec = 2
    tol = None if dec > 5 else 2.1 * 0.5 * 10 ** -dec
    for i in inits:
        M = r[i]['density_matrix']
        h.true('shape', len(M) == len(B) and all(len(row) == len(B) for row in M))
        live, D, tr, p = exp[i]
        for a, v in enumerate(B):
            for b, w in enumerate(B):
                h.eq('%s rho%s%s' % (i, v, w), M[a][b], D.get((v, w), 0))
        for v in live:
            for w in live: h.eq('hermitian', M[B.index(v)][B.index(w)], h.conj(M[B.index(w)][B.index(v)]))
            h.le('diagonal', 0, h.re(M[B.index(v)][B.index(v)]))
        h.eq('%s trace' % i, r[i]['trace'], tr, tol); h.eq('%s purity' % i, r[i]['trace_dm_squared'], p, tol)
    for j, s in enumerate(ss):
        t = col.get_state('id%d' % j); h.eq_amps('kept', h.amps(t, c), s['amps']); h.eq('weight kept', t.cumulative_probability, s['prob'])

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    for left in (True, False):
        s = 'l' if left else 'r'
        for L, n in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (2, 4)):
            B = list(itertools.product(range(L), repeat=n)); k = max(1, len(B) // 3)
            p, q, r = B[1::k][:3], B[:3], B[-2:]
            add('one-%d%d-%s' % (L, n, s), dm, L=L, n=n, spec=[('a', p)], left=left)
            add('mix-%d%d-%s' % (L, n, s), dm, L=L, n=n, spec=[('a', p), ('a', q)], left=left)
            add('mix3-%d%d-%s' % (L, n, s), dm, L=L, n=n, spec=[('a', r), ('b', p), ('a', q), ('b', r), ('c', p[:1])], left=left)
            add('same-%d%d-%s' % (L, n, s), dm, L=L, n=n, spec=[('b', r), ('b', r), ('a', r)], left=left)
            for nm in ('a', 'b', 'zz'): add('named-%s-%d%d-%s' % (nm, L, n, s), dm, L=L, n=n, spec=[('a', r), ('b', p), ('a', q[:1]), ('b', p[:1])], left=left, named=nm)
            add('round-%d%d-%s' % (L, n, s), dm, L=L, n=n, spec=[('a', r), ('b', q[:1]), ('a', q[:2])], left=left, dec=2)
        add('default-22-' + s, dm, L=2, n=2, spec=[('a', list(itertools.product(range(2), repeat=2))[:3]), ('b', [(1, 1), (0, 1)])], left=left, dec=None)
        add('default-named-32-' + s, dm, L=3, n=2, spec=[('a', [(2, 0), (1, 1)]), ('b', [(1, 2), (0, 1)]), ('b', [(1, 2), (2, 2)])], left=left, dec=None, named='b')
        add('full-22-' + s, dm, L=2, n=2, spec=[('a', list(itertools.product(range(2), repeat=2)))] * 2, left=left)
        add('full-32-' + s, dm, L=3, n=2, spec=[('a', list(itertools.product(range(3), repeat=2)))], left=left)
    return out
