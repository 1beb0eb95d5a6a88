"""C13  reducing channels = partial trace"""
import itertools
from fractions import Fraction as F
from symx.runner import Case
from . import ref
META = dict(bounds='Fock length 2..4, 12 (and 11), 3..5 optical channels reduced to every ordered selection of 2..n channels, 0..3 classical channels, up to 4 states in up to 2 initial states with up to 8 symbolic complex amplitudes each, symbolic weights', outside='reducing to fewer than two optical channels (refused by the code), larger systems')

def red(h, L, n, spec, keep, ncl=0, keepcl=(), left=True, twice=None, zero=False):
    c = h.circuit(L, n, c=ncl, left=left)
    spec = [(dict(a='run1', b='run10')[i], cb) for i, cb in spec]
    ss = []
    for j, (i, cb) in enumerate(spec):
        amps = h.box(cb, 'x%d' % j)
        for a in amps.values(): h.nonzero(a)
        ss.append(dict(amps=amps, prob=h.real('P%d' % j, 0, 1, pos=True), initial=i, id='id%d' % j, classical=[h.real('k%d%d' % (j, q), -5, 5) for q in range(ncl)],
                       meas=[{'measurement_results': [j] * ncl, 'probability': 0.5}], aux={'tag': [j]}))
        if zero: ss[-1]['amps'] = dict(amps) | {zero: 0}
    col = h.collection(c, ss)
    if keep and keepcl: col.reduce(list(keep), list(keepcl))
    elif keep: col.reduce(list(keep))
    elif keepcl: col.reduce(classical_channels_to_keep=list(keepcl))
    else: col.reduce()
    if twice: col.reduce(list(twice)); keep = [keep[k] for k in twice]
    keep = list(keep) or list(range(n)); kc = list(keepcl) or list(range(ncl))
    m = len(keep)
    h.true('channels', col._no_of_optical_channels == m and col._no_of_classical_channels == len(kc))
    small = h.circuit(L, m, c=len(kc), left=left)
    got = {}
    for t in col:
        a = h.amps(t, small)
        h.true('names', all(len(v) == m for v in a), list(t.optical_components))
        h.eq('normalised', h.sum_abs2(a.values()), 1)
        h.check_state('state', t, small)
        j = t.auxiliary_information['tag'][0]; s = ss[j]
        h.true('initial', t.initial_state == s['initial']); h.eq('classical', list(t.classical_channel_values), [s['classical'][q] for q in kc])
        h.true('history', h.same(t.measurement_results, s['meas']), t.measurement_results)
        for v in a:
            for w in a:
                x = h.conj(a[v]) * a[w] * t.cumulative_probability
                got[s['initial'], v, w] = got[s['initial'], v, w] + x if (s['initial'], v, w) in got else x
    want = {}
    for s in ss:
        for v, a in s['amps'].items():
            for w, b in s['amps'].items():
                if any(v[k] != w[k] for k in range(n) if k not in keep) or h.is_zero(a) or h.is_zero(b): continue
                key = (s['initial'], tuple(v[k] for k in keep), tuple(w[k] for k in keep)); x = h.conj(a) * b * s['prob']
                want[key] = want[key] + x if key in want else x
    for key in dict.fromkeys(list(got) + list(want)): h.eq('rho%s' % (key,), got.get(key, 0), want.get(key, 0))
    for i in dict.fromkeys(i for i, _ in spec):
        h.eq('total %s' % i, ref.sum_([t.cumulative_probability * h.sum_abs2(h.amps(t, small).values()) for t in col if t.initial_state == i]), ref.sum_([s['prob'] * h.sum_abs2(s['amps'].values()) for s in ss if s['initial'] == i]))
    # the collection's own density matrix agrees with the reduced basis
    B = h.basis(L, m)
    if len(B) <= 9:
        r = col.density_matrix(decimal_places_for_trace=12)
        for i in r:
            for a, v in enumerate(B):
                for b, w in enumerate(B): h.eq('dm %s%s%s' % (i, v, w), r[i]['density_matrix'][a][b], want.get((i, v, w), 0))

def rejects(h, left):
    c = h.circuit(2, 3, c=2, left=left)
    x = h.box([(1, 0, 0), (0, 1, 1)])
    col = h.collection(c, [dict(amps=x, prob=0.5, classical=[1, 2])])
    for k, q in (([0, 3], []), ([-1, 0], []), ([0, 1], [2]), ([0, 1], [-1])): h.raises('%s%s' % (k, q), col.reduce, k, q)
    h.eq_amps('kept', h.amps(col.get_state('st0'), c), x); h.true('kept channels', col._no_of_optical_channels == 3)

def empty(h, left):
    c = h.circuit(3, 3, c=2, left=left)
    col = h.fsc.CollectionOfStates(c, dict([]))
    col.reduce([2, 0], [1])
    h.true('empty', len(col) == 0 and col._no_of_optical_channels == 2 and col._no_of_classical_channels == 1)
    h.true('basis', col.generate_allowed_components_names_as_list_of_strings() == [h.name(v, 3, left) for v in h.basis(3, 2)])

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    j = lambda x: ''.join(map(str, x))
    A3 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0)]; B3 = [(1, 1, 1), (0, 1, 0), (1, 0, 1)]
    A33 = [(2, 0, 1), (1, 1, 1), (0, 2, 1), (0, 0, 0)]; B33 = [(2, 1, 0), (1, 2, 0), (2, 2, 2)]
    full3 = list(itertools.product(range(2), repeat=3))
    A4 = [(1, 0, 1, 0), (0, 1, 1, 0), (1, 1, 0, 0), (0, 0, 0, 1), (1, 0, 0, 1)]
    A43 = [(2, 0, 1, 0), (2, 1, 1, 0), (0, 1, 2, 2)]
    for left in (True, False):
        s = 'l' if left else 'r'
        for r in (2, 3):
            for k in itertools.permutations(range(3), r):
                add('r2-%s-%s' % (j(k), s), red, L=2, n=3, spec=[('a', A3), ('b', B3), ('a', B3)], keep=k, left=left)
                add('r3-%s-%s' % (j(k), s), red, L=3, n=3, spec=[('a', A33), ('a', B33)], keep=k, left=left)
                add('full-%s-%s' % (j(k), s), red, L=2, n=3, spec=[('a', full3)], keep=k, left=left)
                add('r11-%s-%s' % (j(k), s), red, L=11, n=3, spec=[('a', [(10, 0, 1), (1, 10, 1), (0, 1, 10)])], keep=k, left=left, tier='thorough')
            for k in itertools.permutations(range(4), r):
                add('r4-%s-%s' % (j(k), s), red, L=2, n=4, spec=[('a', A4), ('b', A4[1:3])], keep=k, left=left)
                if r == 2: add('r43-%s-%s' % (j(k), s), red, L=3, n=4, spec=[('a', A43)], keep=k, left=left)
        add('r5-%s' % s, red, L=2, n=5, spec=[('a', [(1, 0, 1, 0, 1), (0, 1, 1, 0, 1), (1, 1, 0, 0, 1), (0, 0, 0, 1, 0)])], keep=(4, 1, 2), left=left)
        add('r4L4-%s' % s, red, L=4, n=3, spec=[('a', [(3, 0, 1), (1, 3, 1), (0, 2, 3)]), ('a', [(3, 0, 1)])], keep=(2, 0), left=left)
        # photon numbers of the traced-out channels that read the same when written one after the other
        wide = [(0, 1, 1, 11), (1, 0, 11, 1), (1, 1, 1, 11), (0, 11, 1, 1)]
        add('wide-%s' % s, red, L=12, n=4, spec=[('a', wide)], keep=(0, 1) if left else (1, 0), left=left)
        add('wide-mid-%s' % s, red, L=12, n=4, spec=[('a', [(0, 1, 2, 11), (0, 11, 2, 1), (1, 1, 1, 11), (1, 11, 1, 1)])], keep=(2, 0) if left else (0, 2), left=left)
        add('twice-%s' % s, red, L=2, n=4, spec=[('a', A4), ('b', A4[1:3])], keep=(3, 0, 2), twice=(2, 0), left=left)
        add('twice2-%s' % s, red, L=3, n=4, spec=[('a', A43), ('a', A43[:2])], keep=(1, 2, 0), twice=(0, 1), left=left)
        add('zero-%s' % s, red, L=2, n=3, spec=[('a', A3[:3])], keep=(0, 1), zero=(0, 1, 1), left=left)
        add('zero2-%s' % s, red, L=3, n=3, spec=[('a', A33[:3])], keep=(2, 1), zero=(2, 2, 2), left=left)
        for ncl in (1, 2, 3):
            for r in range(1, ncl + 1):
                for kc in itertools.permutations(range(ncl), r): add('cl-%d-%s-%s' % (ncl, j(kc), s), red, L=2, n=3, spec=[('a', A3[:2]), ('b', B3[:2])], keep=(2, 1), ncl=ncl, keepcl=kc, left=left)
            add('clall-%d-%s' % (ncl, s), red, L=2, n=3, spec=[('a', A3[:2]), ('b', B3[:2])], keep=(0, 2), ncl=ncl, left=left)
            if ncl == 2: add('none-%s' % s, red, L=2, n=3, spec=[('a', A3[:2]), ('b', B3[:2])], keep=(), keepcl=(), ncl=ncl, left=left)
            add('all-%d-%s' % (ncl, s), red, L=2, n=3, spec=[('a', A3[:2]), ('b', B3[:2])], keep=(), keepcl=(ncl - 1,), ncl=ncl, left=left)
        add('rejects-' + s, rejects, left=left); add('empty-' + s, empty, left=left)
    return out
