"""C14  extending channels and changing the Fock length are lossless"""
import itertools
from fractions import Fraction as F
from symx.runner import Case
from . import ref
META = dict(bounds='Fock length 2..4 (and 10, 12) extended by 1..2 optical and 0..3 classical channels with symbolic distributions; Fock lengths 2..12 changed to any length up to 101 above the photon numbers (digit widths 1..3); up to 4 states with symbolic amplitudes and weights; extend then reduce', outside='more channels, larger lengths')

def mk(h, L, n, ncl, spec, left, P=None, thr=None):
    c = h.circuit(L, n, c=ncl, left=left, thr=thr)
    ss = []
    for j, (i, cb) in enumerate(spec):
        amps = h.box(cb, 'x%d' % j)
        for a in amps.values(): h.nonzero(a)
        ss.append(dict(amps=amps, prob=h.real('P%d' % j, 0, 1, pos=True) if P is None else P[j], initial=i, id='id%d' % j, classical=[h.real('k%d%d' % (j, q), -5, 5) for q in range(ncl)],
                       meas=[{'measurement_results': [j] * ncl, 'probability': 0.25}], aux={'tag': [j]}))
    return c, ss, h.collection(c, ss)

def check(h, tag, col, want, L, n, ncl, left, ids=False):
    """want: list of (source state, amplitudes, weight, classical)"""
    big = h.circuit(L, n, c=ncl, left=left)
    h.true(tag + ' channels', col._no_of_optical_channels == n and col._no_of_classical_channels == ncl and col._length_of_fock_state == L)
    rest = list(col.items())
    h.true(tag + ' number of states', len(rest) == len(want), '%d vs %d' % (len(rest), len(want)))
    for s, amps, P, cl in want:
        hit = [x for x in rest if x[1].auxiliary_information.get('tag') == s['aux']['tag'] and set(h.amps(x[1], big)) == set(amps)]
        lab = '%s %s%s' % (tag, s['id'], sorted(amps)[:2])
        if not hit: h.fail(lab + ' missing', [sorted(h.amps(x[1], big)) for x in rest][:3]); continue
        rest.remove(hit[0]); k, t = hit[0]
        h.eq_amps(lab, h.amps(t, big), amps); h.check_state(lab, t, big); h.eq(lab + ' weight', t.cumulative_probability, P)
        h.true(lab + ' initial', t.initial_state == s['initial']); h.eq(lab + ' classical', list(t.classical_channel_values), cl)
        h.true(lab + ' history', h.same(t.measurement_results, s['meas']), t.measurement_results)
        if ids: h.true(lab + ' identifier', k == s['id'], k)
    h.true(tag + ' basis', col.generate_allowed_components_names_as_list_of_strings()[:30] == [h.name(v, L, left) for v in h.basis(L, n)[:30]])

def ext(h, L, n, ncl, spec, eo, ec, dist, left, back=False, evaluate=False):
    c, ss, col = mk(h, L, n, ncl, spec, left)
    D = [h.real('d%d' % q, 0, 1, pos=True) if x == 's' else x for q, x in enumerate(dist)] if dist else []
    if dist: col.extend(eo, ec, D)
    elif ec == 0: col.extend(eo)
    elif eo == 0: col.extend(extra_classical_channels=ec)
    else: col.extend(eo, ec)
    W = D or [1] + [0] * (L - 1)
    want = []
    for s in ss:
        for v in itertools.product(range(L), repeat=eo):
            w = 1
            for q in v: w = w * W[q]
            if not h.sym and w == 0 or h.sym and h.is_zero(w): continue
            want.append((s, {k + v: a for k, a in s['amps'].items()}, s['prob'] * w, s['classical'] + [0] * ec))
    check(h, 'extended', col, want, L, n + eo, ncl + ec, left)
    if evaluate:
        b = h.circuit(L, n + eo, c=ncl + ec, left=left); b.swap(n, 0); b.phase_shift_single_channel(0, h.angle('f'))
        out = b.evaluate_circuit(col)
        sw = lambda v: (v[n],) + v[1:n] + (v[0],) + v[n + 1:] if v[0] + v[n] < L else v
        check(h, 'evaluated', out, [(s, {sw(v): a * h.exp(h.I * h.angle('f') * sw(v)[0]) for v, a in A.items()}, P, cl) for s, A, P, cl in want], L, n + eo, ncl + ec, left)
    if back:
        col.reduce([*range(n)], [*range(ncl)])
        m = {}
        for t in col:
            a = h.amps(t, c)
            for v in a:
                for w in a:
                    x = h.conj(a[v]) * a[w] * t.cumulative_probability; k = (t.initial_state, v, w)
                    m[k] = m[k] + x if k in m else x
        tot = 1
        for _ in range(eo): tot = tot * ref.sum_(W)
        r = {}
        for s in ss:
            for v in s['amps']:
                for w in s['amps']:
                    x = h.conj(s['amps'][v]) * s['amps'][w] * s['prob'] * tot; k = (s['initial'], v, w)
                    r[k] = r[k] + x if k in r else x
        for k in dict.fromkeys(list(m) + list(r)): h.eq('back%s' % (k,), m.get(k, 0), r.get(k, 0))

def adjust(h, L, L2, n, ncl, spec, left, L3=None, evaluate=False):
    c, ss, col = mk(h, L, n, ncl, spec, left)
    col.adjust_length_of_fock_state(L2)
    want = [(s, s['amps'], s['prob'], s['classical']) for s in ss]
    check(h, 'adjusted', col, want, L2 or L, n, ncl, left, ids=True)
    if L3: col.adjust_length_of_fock_state(L3); check(h, 'again', col, want, L3, n, ncl, left, ids=True)
    M = L3 or L2
    if evaluate:
        b = h.circuit(M, n, c=ncl, left=left); b.shift([0], [1])
        out = b.evaluate_circuit(col)
        check(h, 'evaluated', out, [(s, {((v[0] + 1) % M,) + v[1:]: a for v, a in A.items()}, P, cl) for s, A, P, cl in want], M, n, ncl, left)

def setting(h, left, how):
    """the threshold of the collection survives: copies and evaluation keep small components"""
    c, ss, col = mk(h, 3, 3, 1, [('a', [(1, 0, 0), (0, 1, 0)])], left, P=[1], thr=1e-12)
    if how == 'extend': col.extend(1, 0)
    elif how == 'adjust': col.adjust_length_of_fock_state(4)
    else: col.reduce([0, 1], [0])
    col.print_only_last_measurement = False
    t = [s for s in col.copy()][0]
    for x in (col, col.copy(), col.copy(empty_template=True), t.copy()): h.true('threshold', abs(float(x._threshold_probability_for_setting_to_zero) - 1e-12) < 1e-15, x._threshold_probability_for_setting_to_zero)
    h.true('print', col.copy().print_only_last_measurement is False and col.copy(empty_template=True).print_only_last_measurement is False)

def rejects(h, left):
    c, ss, col = mk(h, 3, 2, 1, [('a', [(1, 0), (0, 1)])], left, P=[1])
    for a in ((-1, 0), (0, -1), (1, 0, [1, 0]), (1, 0, [0.25] * 4)): h.raises('extend%s' % (a,), col.extend, *a)
    h.raises('adjust', col.adjust_length_of_fock_state, -1)
    check(h, 'kept', col, [(s, s['amps'], s['prob'], s['classical']) for s in ss], 3, 2, 1, left, ids=True)
    col.extend(0, 0); col.extend()
    check(h, 'zero', col, [(s, s['amps'], s['prob'], s['classical']) for s in ss], 3, 2, 1, left, ids=True)

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    sp = {(2, 2): [('a', [(1, 0), (0, 1)]), ('b', [(1, 1), (0, 0), (1, 0)]), ('a', [(0, 0)])], (3, 2): [('a', [(2, 0), (1, 1), (0, 2)]), ('b', [(2, 2), (0, 1)])], (2, 3): [('a', [(1, 0, 1), (0, 1, 1)]), ('a', [(1, 1, 1)])], (4, 2): [('a', [(3, 0), (1, 2)]), ('b', [(3, 3)])], (3, 3): [('a', [(2, 0, 1), (1, 1, 2)])]}
    for left in (True, False):
        s = 'l' if left else 'r'
        for (L, n), spec in sp.items():
            for ncl in (0, 2):
                for eo, ec in ((1, 0), (2, 0), (0, 1), (0, 3), (1, 1), (2, 2)):
                    if n == 3 and eo == 2 and L == 3: continue
                    nm = '%d%d%d+%d%d-%s' % (L, n, ncl, eo, ec, s)
                    add('ext-vac-' + nm, ext, L=L, n=n, ncl=ncl, spec=spec, eo=eo, ec=ec, dist=None, left=left, back=True)
                    if eo:
                        add('ext-sym-' + nm, ext, L=L, n=n, ncl=ncl, spec=spec if eo == 1 else spec[:1], eo=eo, ec=ec, dist=['s'] * L, left=left, back=eo == 1)
                        add('ext-mix-' + nm, ext, L=L, n=n, ncl=ncl, spec=spec, eo=eo, ec=ec, dist=[0] + ['s'] * (L - 1) if L > 2 else [0, 1], left=left)
                        if ncl: add('ext-one-' + nm, ext, L=L, n=n, ncl=ncl, spec=spec, eo=eo, ec=ec, dist=[0] * (L - 1) + [1], left=left, evaluate=True, back=not ec)
            for L2 in (L, L + 1, L + 3, 10, 11, 12):
                if L2 ** n > 1500: continue
                add('adj-%d%d-%d-%s' % (L, n, L2, s), adjust, L=L, L2=L2, n=n, ncl=1, spec=spec, left=left, L3=L, evaluate=L2 == L + 1)
            add('adj-%d%d-0-%s' % (L, n, s), adjust, L=L, L2=0, n=n, ncl=1, spec=spec, left=left)
        low = [('a', [(1, 0), (0, 1)]), ('b', [(1, 1)])]
        for L, L2 in ((4, 2), (11, 2), (10, 2), (12, 10), (11, 10), (10, 11), (9, 10), (12, 3)): add('adj-down-%d-%d-%s' % (L, L2, s), adjust, L=L, L2=L2, n=2, ncl=0, spec=low, left=left, L3=13, evaluate=L2 <= 3)
        for L in (10, 12): add('ext-digits-%d-%s' % (L, s), ext, L=L, n=2, ncl=1, spec=[('a', [(1, 0), (0, L - 1)])], eo=2, ec=0, dist=['s' if q in (0, 1, 10, 11) else 0 for q in range(L)], left=left)
        add('adj-9-%s' % s, adjust, L=10, L2=11, n=2, ncl=0, spec=[('a', [(9, 0), (0, 9), (9, 9)])], left=left, L3=10)
        add('adj-10-%s' % s, adjust, L=11, L2=12, n=2, ncl=0, spec=[('a', [(10, 0), (1, 10), (0, 1), (0, 10)])], left=left, L3=11)
        add('adj-100-%s' % s, adjust, L=11, L2=101, n=2, ncl=0, spec=[('a', [(10, 0), (1, 10), (0, 1), (0, 10)])], left=left, L3=12, tier='thorough')
        for how in ('extend', 'adjust', 'reduce'): add('setting-%s-%s' % (how, s), setting, left=left, how=how)
        add('rejects-' + s, rejects, left=left)
    return out
