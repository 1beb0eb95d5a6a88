"""C11  state vector conversion and state algebra"""
import itertools
from fractions import Fraction as F
from symx.runner import Case
from . import ref
META = dict(bounds='Fock length 2..4, 11 (two digits), 2..4 optical channels, both naming conventions, all component sets of up to 9 (vectors: the full basis up to 27) symbolic complex amplitudes; a threshold of 1/16 for the boundary (amplitudes up to 1)',
            outside='larger bases')

def mk(h, L, n, comps, name='x', left=True, r=None, form='dict', col=None, thr=None, ncl=0):
    c = h.circuit(L, n, c=ncl, left=left, thr=thr)
    st = h.fsc.State(col if col is not None else h.fsc.CollectionOfStates(c, dict([])))
    x = h.box(comps, name, r)
    if form == 'dict': st.optical_components = {h.name(v, L, left): {'amplitude': h._amp(a), 'probability': h._prob(a)} for v, a in x.items()}
    else: st.optical_components = [(h.name(v, L, left), h._amp(a)) for v, a in x.items()]
    return c, st, x

def vector(h, L, n, comps, left, full=None):
    """round trip through the vector; canonical order; argument untouched"""
    c, st, x = mk(h, L, n, comps, left=left)
    for a in x.values(): h.nonzero(a)
    vec, names = st.translate_state_components_to_vector()
    B = h.basis(L, n)
    h.true('basis', list(names) == [h.name(v, L, left) for v in B], names[:6])
    h.eq('vector', list(vec), [x.get(v, 0) for v in B])
    h.true('components kept', set(h.amps(st, c)) == set(x)); h.eq_amps('kept', h.amps(st, c), x)
    s2 = h.fsc.State(st._collection_of_states)
    s2.set_state_components_from_vector(vec)
    h.true('exactly', set(h.amps(s2, c)) == set(x), (sorted(h.amps(s2, c)), sorted(x)))
    h.eq_amps('back', h.amps(s2, c), x); h.check_state('back', s2, c)
    h.eq('vector untouched', list(vec), [x.get(v, 0) for v in B])
    y = [h.cplx('y%d' % i, F(1, len(B) + 1)) if i % 2 == 0 else 0 for i in range(len(B))]
    for a in y[::2]: h.nonzero(a)
    z = [h._amp(a) for a in y]
    s2.set_state_components_from_vector(z)
    h.eq_amps('set', h.amps(s2, c), {v: a for v, a in zip(B, y) if not h.is_zero(a)})
    h.true('only', set(h.amps(s2, c)) == {v for i, v in enumerate(B) if i % 2 == 0})
    h.eq('translate', list(s2.translate_state_components_to_vector()[0]), y)

def threshold(h, L, n, left):
    """components exactly above the threshold survive"""
    c = h.circuit(L, n, left=left, thr=0.0625)
    col = h.fsc.CollectionOfStates(c, dict([]))
    st = h.fsc.State(col)
    B = h.basis(L, n)
    x = {B[1]: h.real('a', 0, 1), B[2]: h.real('b', -1, 0), B[-1]: h.I * h.real('d', 0, 1)}
    st.set_state_components_from_vector([h._amp(x.get(v, 0)) for v in B])
    got = h.amps(st, c)
    for v, a in x.items():
        if v in got: h.le('kept is large', 0.0625, h.abs2(a)); h.eq('value', got[v], a)
        else: h.le('dropped is small', h.abs2(a), 0.0625)
    h.true('nothing else', set(got) <= set(x))
    h.check_state('state', st, c)

def assign(h, L, n, left):
    """assigning a list adds up repeated names; assigning invalid names is refused"""
    c, st, _ = mk(h, L, n, [(0,) * n], left=left)
    B = h.basis(L, n)
    a = [h.cplx('a%d' % i, F(1, 8)) for i in range(5)]
    u, v, w = B[1], B[-1], B[len(B) // 2]
    nm = lambda q: h.name(q, L, left)
    st.optical_components = [(nm(u), h._amp(a[0])), (nm(v), h._amp(a[1])), (nm(u), h._amp(a[2])), (nm(w), h._amp(a[3])), (nm(u), h._amp(a[4]))]
    want = {u: a[0] + a[2] + a[4], v: a[1], w: a[3]}
    if v == w: want = {u: a[0] + a[2] + a[4], v: a[1] + a[3]}
    h.eq_amps('list', h.amps(st, c), want); h.check_state('list', st, c)
    h.true('names', set(h.amps(st, c)) == set(want))
    before = h.amps(st, c)
    for bad in (nm(u) + '0', nm(u)[:-1], '', 'x' * len(nm(u)), str(L).zfill(len(str(L - 1))) + nm(u)[len(str(L - 1)):] if L < 10 or L > 11 else '99' + nm(u)[2:]):
        if bad == str(L) + nm(u)[1:] and len(str(L)) > len(str(L - 1)): pass
        def f(): st.optical_components = [(bad, 1.0)]
        def g(): st.optical_components = {bad: {'amplitude': 1.0, 'probability': 1.0}}
        h.raises('list name %r' % bad, f); h.raises('dict name %r' % bad, g)
    h.eq_amps('after refusal', h.amps(st, c), before)

def algebra(h, L, n, ca, cb, left):
    """inner and outer product"""
    c, s, x = mk(h, L, n, ca, 'x', left)
    _, t, y = mk(h, L, n, cb, 'y', left, col=s._collection_of_states)
    ip = lambda p, q: ref.sum_([h.conj(p[v]) * q[v] for v in p if v in q])
    h.eq('inner', s.inner(t), ip(x, y)); h.eq('inner swapped', t.inner(s), h.conj(ip(x, y)))
    h.eq('norm', s.inner(s), ref.sum_([h.abs2(a) for a in x.values()]))
    B = h.basis(L, n)
    o = s.outer(t)
    h.true('shape', len(o) == len(B) and all(len(r) == len(B) for r in o))
    for i, v in enumerate(B):
        for j, w in enumerate(B):
            if (v in x and w in y): h.eq('outer%s%s' % (v, w), o[i][j], h.conj(x[v]) * y[w])
            elif (i + j) % 5 == 0: h.eq('outer%s%s' % (v, w), o[i][j], 0)
    h.eq_amps('s kept', h.amps(s, c), x); h.eq_amps('t kept', h.amps(t, c), y)

def tensor(h, L, n, m, ca, cb, left, leftb=None, Lb=None):
    """tensor product in each accepted form"""
    c, s, x = mk(h, L, n, ca, 'x', left)
    lb = left if leftb is None else leftb; Lb = Lb or L
    d, t, y = mk(h, Lb, m, cb, 'y', lb)
    want = {v + w: x[v] * y[w] for v in x for w in y}
    res = [('state', s.tensor(t))]
    if lb == left and Lb == L:
        res += [('dict', s.tensor({k: dict(v) for k, v in t.optical_components.items()})),
                ('list', s.tensor([(k, v['amplitude']) for k, v in t.optical_components.items()]))]
        if len(cb) > 1:
            w0 = cb[0]
            rep = [(h.name(w0, L, left), h._amp(y[w0]) * 0.25), (h.name(cb[1], L, left), h._amp(y[cb[1]])), (h.name(w0, L, left), h._amp(y[w0]) * 0.75)] + [(h.name(w, L, left), h._amp(y[w])) for w in cb[2:]]
            res.append(('repeated', s.tensor(rep)))
    big = h.circuit(L, n + m, left=left)
    for tag, r in res:
        got = {h.values(k, L, left): v['amplitude'] for k, v in r.items()}
        h.true(tag + ' names', set(got) == set(want), (sorted(got), sorted(want)))
        h.eq_amps(tag, got, want)
        for k, v in r.items(): h.eq(tag + ' prob', v['probability'], h.abs2(v['amplitude']))
        u = h.fsc.State(h.fsc.CollectionOfStates(big, dict([]))); u.optical_components = r
        h.eq_amps(tag + ' assigned', h.amps(u, big), want)
    h.eq_amps('s kept', h.amps(s, c), x); h.eq_amps('t kept', h.amps(t, d), y)

def photons(h, L, n, left):
    """photon number of every set of one or two components"""
    B = h.basis(L, n)
    v = h.choose('v', B); w = h.choose('w', B[:min(len(B), 9)])
    c, s, x = mk(h, L, n, list(dict.fromkeys([v, w])), left=left)
    N, same = s.photon_number()
    h.eq('number', int(N), max(sum(v), sum(w))); h.true('same', bool(same) == (sum(v) == sum(w)), (v, w, same))
    h.eq('int', int(s), max(sum(v), sum(w))); h.true('==', (s == max(sum(v), sum(w))) and not (s == max(sum(v), sum(w)) + 1))

def default(h, L, n, ncl, left):
    c = h.circuit(L, n, c=ncl, left=left)
    s = h.fsc.State(h.fsc.CollectionOfStates(c, dict([])))
    for tag, t in (('new', s), ('initialized', s.create_initialized_state())):
        h.eq_amps(tag, h.amps(t, c), {(0,) * n: 1}); h.true(tag + ' name', t.initial_state == h.name((0,) * n, L, left), t.initial_state)
        h.eq(tag + ' cl', list(t.classical_channel_values), [0] * ncl); h.eq(tag + ' P', t.cumulative_probability, 1); h.true(tag + ' hist', t.measurement_results == [])
    def f(): s.cumulative_probability = 1.5
    def g(): s.cumulative_probability = -0.5
    def k(): s.classical_channel_values = [0] * (ncl + 1)
    for q in (f, g, k): h.raises('invalid', q)
    h.eq('P kept', s.cumulative_probability, 1); h.eq('cl kept', list(s.classical_channel_values), [0] * ncl)

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    sets = lambda L, n: [h_ for h_ in (tuple(itertools.product(range(L), repeat=n))[::k] for k in (1, 2, 3, 5)) if 0 < len(h_) <= 27]
    for left in (True, False):
        s = 'l' if left else 'r'
        for L, n in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (2, 4), (11, 2)):
            for i, cs in enumerate(sets(L, n)): add('vec-%d%d-%d-%s' % (L, n, i, s), vector, L=L, n=n, comps=list(cs), left=left)
            B = list(itertools.product(range(L), repeat=n))
            if L == 11: add('vec-%d%d-s-%s' % (L, n, s), vector, L=L, n=n, comps=[(10, 10), (0, 10), (1, 0), (10, 1)], left=left)
            add('thr-%d%d-%s' % (L, n, s), threshold, L=L, n=n, left=left)
            add('assign-%d%d-%s' % (L, n, s), assign, L=L, n=n, left=left)
            k = max(1, len(B) // 5)
            add('alg-%d%d-%s' % (L, n, s), algebra, L=L, n=n, ca=B[::k][:6], cb=B[1::max(1, k - 1)][:6], left=left)
            add('alg2-%d%d-%s' % (L, n, s), algebra, L=L, n=n, ca=B[:4], cb=B[:4], left=left)
            add('photons-%d%d-%s' % (L, n, s), photons, L=L, n=n, left=left) if L * n <= 8 else None
            for ncl in (0, 2): add('default-%d%d%d-%s' % (L, n, ncl, s), default, L=L, n=n, ncl=ncl, left=left)
        for L, n, m, ca, cb in ((2, 2, 2, [(1, 0), (0, 1)], [(1, 1), (0, 0), (1, 0)]), (3, 2, 2, [(2, 0), (1, 1), (0, 2)], [(0, 1), (2, 0)]), (2, 2, 3, [(1, 0), (1, 1)], [(1, 0, 0), (0, 0, 1), (1, 1, 0)]), (2, 3, 2, [(1, 0, 0), (0, 1, 1)], [(0, 1)]),
                                (11, 2, 2, [(10, 0), (1, 2)], [(0, 10), (9, 1)]), (4, 2, 2, [(3, 0), (0, 1)], [(2, 3), (3, 3), (0, 0)])):
            if L == 11: add('tensor-dict-%d%d%d-%s' % (L, n, m, s), tensor, L=L, n=n, m=m, ca=ca, cb=cb, left=left, tier='thorough'); continue
            add('tensor-%d%d%d-%s' % (L, n, m, s), tensor, L=L, n=n, m=m, ca=ca, cb=cb, left=left)
            add('tensor-mixed-%d%d%d-%s' % (L, n, m, s), tensor, L=L, n=n, m=m, ca=ca, cb=cb, left=left, leftb=not left)
        add('tensor-L-%s' % s, tensor, L=3, n=2, m=2, ca=[(2, 0), (1, 2)], cb=[(1, 0), (0, 1)], left=left, Lb=2)
    return out
