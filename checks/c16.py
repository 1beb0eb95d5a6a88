"""C16  clean_up merges only equal states and conserves probability"""
from fractions import Fraction as F
from symx.runner import Case
from . import ref
META = dict(bounds='collections of 1..4 states in 1..2 initial states, 1..4 symbolic complex components each, symbolic weights and classical values; Fock length 2, 3 and 11, 2..3 channels, both naming conventions; a tiny symbolic threshold and concrete thresholds 1/16 and 1/4 with components and weights on either side of them; cleaning all or one named initial state; evaluation and measurement of the cleaned collection',
    outside='states all of whose components are below the threshold, states with norm above one at concrete thresholds')

def mk(h, L, n, specs, left, thr=None, ncl=1, prob=None):
    """specs: (initial, amps dict)"""
    c = h.circuit(L, n, c=ncl, left=left, thr=thr)
    ss = []
    for j, (i, amps) in enumerate(specs):
        ss.append(dict(amps=amps, prob=prob[j] if prob else h.real('P%d' % j, 0, F(1, len(specs)), pos=True), initial=i, id='id%d' % j, classical=[h.real('k%d' % j, -3, 3)] * ncl,
                       meas=[{'measurement_results': [j] * ncl, 'probability': 0.5}], aux={'tag': [j]}))
    return c, ss, h.collection(c, ss)

def norm(h, amps):
    amps = {v: a for v, a in amps.items() if not h.is_zero(a)}
    S = h.sqrt(h.sum_abs2(amps.values()))
    return {v: a / S for v, a in amps.items()}

def groups(h, L, n, specs, expect, left, only=None):
    """tiny threshold; specs: initial -> list of (support, variant); expect: list of groups of state numbers"""
    amps = []
    for j, (i, sup, var) in enumerate(specs):
        if isinstance(var, int): amps.append(dict(amps[var]))                                           # same as an earlier state
        elif isinstance(var, tuple) and var[0] == 'scaled':
            f = h.real('f%d' % j, F(1, 4), F(3, 4)); amps.append({v: a * f for v, a in amps[var[1]].items()})   # same direction, other norm
        elif isinstance(var, tuple) and var[0] == 'zero': amps.append(dict(amps[var[1]]) | {var[2]: 0})
        elif isinstance(var, tuple) and var[0] == 'minus':                                              # one amplitude negated
            amps.append({v: (a * -1 if k == var[2] else a) for k, (v, a) in enumerate(amps[var[1]].items())})
        elif isinstance(var, tuple) and var[0] == 'conj':
            amps.append({v: h.conj(a) for v, a in amps[var[1]].items()})
        elif isinstance(var, tuple) and var[0] == 'reverse': amps.append(dict(reversed(list(amps[var[1]].items()))))
        else:
            x = h.box(sup, 'x%d' % j)
            for a in x.values(): h.nonzero(a)
            amps.append(x)
    for j, (i, sup, var) in enumerate(specs):      # generic: nothing coincides by accident
        if isinstance(var, tuple) and var[0] == 'conj':
            for v, a in amps[j].items(): h.nonzero(h.im(a))
    c, ss, col = mk(h, L, n, [(s[0], a) for s, a in zip(specs, amps)], left)
    order = list(col.keys())
    snaps = {k: h.snapshot(s) for k, s in col.items()}
    col.clean_up(only) if only else col.clean_up()
    got = {t.auxiliary_information['tag'][0]: t for t in col}
    exp = [g for g in expect if not only or specs[g[0]][0] == only] + [[j] for j in range(len(specs)) if only and specs[j][0] != only]
    h.true('number of states', len(col) == len(exp), '%d vs %d' % (len(col), len(exp)))
    for g in exp:
        r = [j for j in g if j in got]
        h.true('group %s has one state' % g, len(r) == 1, list(got))
        if len(r) != 1: continue
        t = got[r[0]]
        if only and specs[g[0]][0] != only: h.eq_snapshot('other initial state', h.snapshot(t), snaps['id%d' % g[0]]); continue
        h.eq('weight %s' % g, t.cumulative_probability, ref.sum_([ss[j]['prob'] for j in g]))
        h.eq_amps('components %s' % g, h.amps(t, c), norm(h, amps[g[0]]))
        h.true('support %s' % g, set(h.amps(t, c)) == {v for v, a in amps[g[0]].items() if not h.is_zero(a)})
        h.check_state('state', t, c)
        h.true('initial state', t.initial_state == specs[g[0]][0])
        h.true('classical', any(h.same(list(t.classical_channel_values), ss[j]['classical']) for j in g))
        h.true('history', any(h.same(t.measurement_results, ss[j]['meas']) for j in g))
    for i in dict.fromkeys(s[0] for s in specs):
        h.eq('total %s' % i, ref.sum_([t.cumulative_probability for t in col if t.initial_state == i]), ref.sum_([s['prob'] for s in ss if s['initial'] == i]))
    h.true('order', [k for k in col.keys()] == [k for k in order if k in list(col.keys())])
    again = {k: h.snapshot(s) for k, s in col.items()}
    col.clean_up(only) if only else col.clean_up()
    for k in again: h.eq_snapshot('twice', h.snapshot(col[k]), again[k])
    h.true('twice', list(again) == list(col.keys()))

def onestate(h, left, thr, k, kind):
    """one normalised state, components on either side of a concrete threshold"""
    L, n = 2, 3
    B = h.basis(L, n)[1:1 + k]
    if kind == 'real':
        x = {v: h.real('x%d' % j, 0, 1, pos=True) for j, v in enumerate(B)}
        x = dict(x)
        S = h.sum_abs2(x.values())
        h.assume(h.re(S) <= 1) if h.sym else h.assume(S <= 1)
    else:
        x = dict(zip(B, h.unit('u', k)))
    c, ss, col = mk(h, L, n, [('i', x)], left, thr=thr, prob=[F(1, 2) if h.sym else .5])
    keep = {v: a for v, a in x.items() if bool(h.abs2(a) >= thr)}
    h.assume(len(keep) > 0)
    S = h.sum_abs2(keep.values())
    col.clean_up()
    t = col[0]
    got = h.amps(t, c)
    h.true('removed exactly the small components', set(got) == set(keep), (sorted(got), sorted(keep)))
    f0 = next(iter(keep))
    for v in keep: h.eq('ratio %s' % (v,), got[v] * keep[f0], got[f0] * keep[v])
    h.le('norm', h.sum_abs2(got.values()), 1 + thr); h.le('norm2', 1 - thr, h.sum_abs2(got.values()))
    if bool(abs(S - 1) >= thr): h.eq('normalised', h.sum_abs2(got.values()), 1)
    h.le('phase kept', 0, h.re(got[f0] * h.conj(keep[f0])))
    h.eq('phase', h.im(got[f0] * h.conj(keep[f0])), 0)
    h.check_state('state', t, c)
    h.eq('weight', t.cumulative_probability, F(1, 2) if h.sym else .5)

def near(h, left, thr, same_support, order):
    """two normalised states with similar components: merged only if within the threshold"""
    L, n = 2, 2
    u = h.angle('s', lo=0, hi=1.5); w = h.angle('t', lo=0, hi=1.5)
    a = {(0, 0): h.cos(u), (1, 1): h.sin(u)}
    b = {(0, 0): h.cos(w), (1, 1): h.sin(w)}
    if not same_support: b = {(0, 0): h.cos(w), (0, 1): h.sin(w)}
    specs = [('i', a), ('i', b)]
    if order: specs = specs[::-1]
    c, ss, col = mk(h, L, n, specs, left, thr=thr, prob=[F(1, 4), F(1, 2)] if h.sym else [.25, .5])
    col.clean_up()
    clean = []
    for i, x in specs:
        x = {v: q for v, q in x.items() if bool(h.abs2(q) >= thr)}
        S = h.sum_abs2(x.values())
        if bool(abs(S - 1) >= thr): x = norm(h, x)
        clean.append(x)
    if len(col) == 1:
        x, y = clean
        h.true('merged states have the same components', set(x) == set(y), (x, y))
        for v in x:
            if v in y:
                h.le('probability difference %s' % (v,), abs(h.abs2(x[v]) - h.abs2(y[v])), thr)
                h.le('amplitude difference %s' % (v,), h.abs2(x[v] - y[v]), thr)
        h.eq('weight', col[0].cumulative_probability, F(3, 4) if h.sym else .75)
    else:
        h.true('two states', len(col) == 2)
        for t, x in zip(col, clean): h.eq_amps('kept', h.amps(t, c), x)
        h.eq('weights', [t.cumulative_probability for t in col], [s['prob'] for s in ss])

def weights(h, left, thr, m):
    """states below the threshold weight disappear, all others keep their weight"""
    L, n = 2, 2
    cbs = [{(0, 0): 1}, {(0, 0): 1}, {(1, 1): 1}, {(1, 0): 1}][:m]
    ini = ['a', 'a', 'a', 'b'][:m]
    P = [h.real('P%d' % j, 0, F(1, 2)) for j in range(m)]
    c, ss, col = mk(h, L, n, list(zip(ini, cbs)), left, thr=thr, prob=P)
    col.clean_up()
    tot = {}
    for i, cb, p in zip(ini, cbs, P): k = (i, next(iter(cb))); tot[k] = tot[k] + p if k in tot else p
    got = {(t.initial_state, next(iter(h.amps(t, c)))): t.cumulative_probability for t in col}
    h.true('no duplicates', len(got) == len(col))
    for k, p in tot.items():
        if k in got: h.eq('weight', got[k], p); h.le('kept is not below threshold', thr, p)
        else: h.le('removed is below threshold', p, thr)
    h.true('nothing invented', set(got) <= set(tot))

def after(h, L, n, specs, left, full):
    """cleaned collections can be evaluated and measured; the result is that of the uncleaned collection"""
    amps = []
    for j, (i, sup, var) in enumerate(specs):
        amps.append(dict(amps[var]) if isinstance(var, int) else h.box(sup, 'x%d' % j))
        for a in amps[-1].values(): h.nonzero(a)
    amps = [norm(h, a) for a in amps]
    h.thr_c = 2e-6
    c = h.circuit(L, n, c=1, left=left, full=full)
    col = h.collection(c, [dict(amps=a, prob=h.real('P%d' % j, 0, F(1, len(specs)), pos=True), initial=s[0], id='id%d' % j, classical=[0], meas=[]) for j, (s, a) in enumerate(zip(specs, amps))])
    c.phase_shift_single_channel(0, h.angle('f')); c.swap(0, 1); c.measure_optical_to_classical([0], [0])
    un = c.evaluate_circuit(col)
    col.clean_up()
    cl = c.evaluate_circuit(col)
    def table(out):
        m = {}
        for t in out:
            A = h.amps(t, c)
            for v in A:
                for w in A:
                    k = (t.initial_state, t.classical_channel_values[0], v, w); x = h.conj(A[v]) * A[w] * t.cumulative_probability
                    m[k] = m[k] + x if k in m else x
        return m
    a, b = table(un), table(cl)
    for k in dict.fromkeys(list(a) + list(b)): h.eq('mixture %s' % (k,), b.get(k, 0), a.get(k, 0))
    cl.clean_up()
    d = {}
    for t in cl: d[t.initial_state] = d.get(t.initial_state, 0) + t.cumulative_probability
    for i in d: h.eq('total ' + i, d[i], ref.sum_([t.cumulative_probability for t in un if t.initial_state == i]))
    h.true('all there', set(d) == {s[0] for s in specs})

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **cfg): out.append(Case(name, fn, tier=tier, **cfg))
    A2, B2 = [(1, 0), (0, 1)], [(1, 1), (0, 0)]
    A3 = [(1, 0, 2), (0, 1, 1), (2, 2, 0)]
    G = {
     'single': (2, 2, [('i', A2, None)], [[0]]),
     'same': (2, 2, [('i', A2, None), ('i', None, 0)], [[0, 1]]),
     'same3': (2, 2, [('i', A2, None), ('i', None, 0), ('i', None, 0)], [[0, 1, 2]]),
     'inter': (2, 2, [('i', A2, None), ('i', B2, None), ('i', None, 0), ('i', None, 1)], [[0, 2], [1, 3]]),
     'initials': (2, 2, [('i', A2, None), ('j', None, 0), ('i', None, 0), ('j', None, 1)], [[0, 2], [1, 3]]),
     'scaled': (2, 2, [('i', A2, None), ('i', None, ('scaled', 0))], [[0, 1]]),
     'zero': (2, 2, [('i', A2, None), ('i', None, ('zero', 0, (1, 1)))], [[0, 1]]),
     'zero-first': (2, 2, [('i', A2, None), ('i', None, ('zero', 0, (1, 1))), ('i', None, 1)], [[0, 1, 2]]),
     'minus': (2, 2, [('i', A2, None), ('i', None, ('minus', 0, 1)), ('i', None, ('minus', 0, 0))], [[0], [1], [2]]),
     'conj': (2, 2, [('i', A2, None), ('i', None, ('conj', 0)), ('i', None, 0)], [[0, 2], [1]]),
     'reverse': (2, 2, [('i', A2, None), ('i', None, ('reverse', 0))], [[0, 1]]),
     'subset': (2, 2, [('i', A2[:1], None), ('i', A2, None), ('i', A2[1:], None), ('i', None, 1)], [[0], [1, 3], [2]]),
     'subset2': (2, 2, [('i', A2, None), ('i', [(1, 1)] + A2, None), ('i', None, 0)], [[0, 2], [1]]),
     'three': (3, 3, [('i', A3, None), ('i', A3[:2], None), ('i', None, 0)], [[0, 2], [1]]),
     'wide': (12, 2, [('i', [(1, 11), (11, 1)], None), ('i1', [(11, 1)], None), ('i', [(0, 11)], None), ('i1', None, 1), ('i', None, 0)], [[0, 4], [1, 3], [2]]),
     'eleven': (11, 2, [('i', [(10, 1), (1, 10), (0, 5)], None), ('j', [(10, 1)], None), ('i', None, 0)], [[0, 2], [1]]),
    }
    for left in (True, False):
        s = 'l' if left else 'r'
        for nm, (L, n, sp, ex) in G.items():
            add('group-%s-%s' % (nm, s), groups, L=L, n=n, specs=sp, expect=ex, left=left)
            if len({x[0] for x in sp}) > 1:
                for i in sorted({x[0] for x in sp}): add('group-%s-only-%s-%s' % (nm, i, s), groups, L=L, n=n, specs=sp, expect=ex, left=left, only=i)
        for thr in (0.0625, 0.25):
            for k in (1, 2, 3): add('one-%d-%s-%s' % (k, thr, s), onestate, left=left, thr=thr, k=k, kind='real')
            for k in (2, 3): add('unit-%d-%s-%s' % (k, thr, s), onestate, left=left, thr=thr, k=k, kind='unit')
            for sup in (True, False):
                for o in (0, 1): add('near-%s-%d%d-%s' % (thr, sup, o, s), near, left=left, thr=thr, same_support=sup, order=o)
            for m in (1, 2, 3, 4): add('weights-%s-%d-%s' % (thr, m, s), weights, left=left, thr=thr, m=m)
        for full in (True, False):
            f = 'F' if full else 'R'
            add('after-same-%s%s' % (s, f), after, L=2, n=2, specs=G['inter'][2], left=left, full=full)
            add('after-init-%s%s' % (s, f), after, L=2, n=2, specs=G['initials'][2], left=left, full=full)
            add('after-three-%s%s' % (s, f), after, L=3, n=3, specs=G['three'][2], left=left, full=full)
    return out
