"""C20  photon-resolved measurement = wave-packet interference"""
import itertools
from math import factorial
from fractions import Fraction as F
from symx.runner import Case
from . import ref, gates
META = dict(bounds='Fock length 2..4, 2..3 optical channels, up to 3 photons, up to 2 components per state and 2 states per collection; all delays, widths (all photons alike, or two photons), amplitudes, weights and the angles of parametric mixers within the listed circuits; up to two delay nodes, two mixers and three measurements',
            outside='total photon number at or above the Fock length; widths changed between photons that share a channel (documented as unphysical); exact zeros of outcome probabilities as a branch of their own; non-negativity of the wave-packet norms is used, and proved by the solver for the two-photon cases')

# A state is a list of columns: (amplitude, product of the factorials of the component it started from, photons); a photon is (channel, delay, width)
def start(s):
    cols = []
    for v, a in s['amps'].items():
        ph = tuple((k, None, None) for k, m in enumerate(v) for _ in range(m)); f = 1
        for m in v: f *= factorial(m)
        cols.append((a, f, ph))
    return dict(s, cols=cols)
def gate(h, s, refs):
    cols = s['cols']
    for r in refs:
        new = []
        for a, f, ph in cols:
            part = [(a, ())]
            for p in ph:
                if r[0] == 'phase': to = [(p[0], h.exp(h.I * r[2]) if p[0] == r[1] else 1)]
                elif p[0] == r[0]: to = [(r[0], r[2][0][0]), (r[1], r[2][1][0])]
                elif p[0] == r[1]: to = [(r[0], r[2][0][1]), (r[1], r[2][1][1])]
                else: to = [(p[0], 1)]
                part = [(x * u, q + ((k,) + p[1:],)) for x, q in part for k, u in to if not h.is_zero(u)]
            new += [(x, f, q) for x, q in part]
        cols = new
    return dict(s, cols=cols)
def move(s, chans, d, w):
    def one(p):
        t = 0 if p[1] is None else p[1]
        return (p[0], t - d if p[0] in chans else t, w if w is not None else (1 if p[2] is None else p[2]))
    return dict(s, cols=[(a, f, tuple(one(p) for p in ph)) for a, f, ph in s['cols']])
def width(s, chans, w):
    return dict(s, cols=[(a, f, tuple((p[0], 0 if p[1] is None else p[1], w if p[0] in chans else 1 if p[2] is None else p[2]) for p in ph)) for a, f, ph in s['cols']])
def overlap(h, p, q):
    if p[1] is None: return 1
    x = (p[1] - q[1]) / h.sqrt(p[2] * p[2] + q[2] * q[2])
    return h.exp(-1 * h.log(2) * (x * x))
def perms(h, B, K):
    """sum over the pairings of two lists of photons in one channel"""
    return ref.sum_([prod([overlap(h, b, K[i]) for b, i in zip(B, s)]) for s in itertools.permutations(range(len(K)))])
def prod(xs):
    r = 1
    for x in xs: r = r * x
    return r
def h_L(c): return c._length_of_fock_state
def norm(h, cols, n):
    """total probability of these columns: per full outcome the interference of all pairs of columns"""
    g = {}
    for c in cols: g.setdefault(tuple(sum(p[0] == k for p in c[2]) for k in range(n)), []).append(c)
    tot = 0
    for o, cs in g.items():
        S = 0
        for a, f, ph in cs:
            for b, e, qh in cs:
                w = a * h.conj(b) / h.sqrt(F(f * e) if h.sym else float(f * e))
                S = S + w * prod([perms(h, [p for p in ph if p[0] == k], [q for q in qh if q[0] == k]) for k in range(n)])
        tot = tot + h.psd(h.re(S))
    return h.psd(tot)

def put(h, c, nd, n, k):
    """adds the node to circuit c; returns the reference: function(state) -> [states]"""
    kind = nd[0]
    D = lambda x: h.real(x, -2, 2) if isinstance(x, str) else x
    W = lambda x: h.real(x, F(1, 5), 3, pos=True) if isinstance(x, str) else x
    if kind == 'gate':
        refs = gates.build(h, c, nd[1], k); return lambda s: [gate(h, s, refs)]
    def given(*pairs):
        """arguments by name; '-' marks one that is left out"""
        return {a: v for a, m, v in pairs if m != '-'}
    if kind == 'full':
        d, w = 0 if nd[2] == '-' else D(nd[2]) * (nd[4] if len(nd) > 4 else 1), 1 if nd[3] == '-' else W(nd[3])
        c.time_delay_full(list(nd[1]), **given(('delay', nd[2], d), ('pulse_width', nd[3], w))); return lambda s: [move(s, nd[1], d, w)]
    if kind == 'cfull':
        ch, w = 0 if nd[2] == '-' else nd[2], 1 if nd[3] == '-' else W(nd[3])
        c.time_delay_classical_control_full(list(nd[1]), **given(('classical_channel_for_delay', nd[2], ch), ('pulse_width', nd[3], w))); return lambda s: [move(s, nd[1], s['classical'][ch], w)]
    if kind == 'width':
        w = W(nd[2]); c.set_pulse_width(None if nd[1] is None else list(nd[1]), w)
        return lambda s: [width(s, range(n) if nd[1] is None else nd[1], w)] if nd[1] != () else [s]
    if kind in ('quick', 'cquick'):
        w = 1 if nd[3] == '-' else W(nd[3].lstrip('/')) if isinstance(nd[3], str) else nd[3]
        how = ('bandwidth', nd[3], w) if isinstance(nd[3], str) and nd[3][0] == '/' else ('pulse_width', nd[3], w)
        if how[0] == 'bandwidth': w = 1 / w
        if kind == 'quick': d = 0 if nd[2] == '-' else D(nd[2]); c.time_delay(list(nd[1]), **given(('delay', nd[2], d), how))
        else: ch = 0 if nd[2] == '-' else nd[2]; c.time_delay_classical_control(list(nd[1]), **given(('classical_channel_for_delay', nd[2], ch), how))
        def f(s):
            x = (d if kind == 'quick' else s['classical'][ch]) / w; ov = h.exp(-1 * h.log(2) * (x * x))
            together = [(a, m, tuple((p[0], 0, 1) for p in ph)) for a, m, ph in s['cols']]
            apart = [(a, m, tuple((p[0], 100 if p[0] in nd[1] else -100, 1) for p in ph)) for a, m, ph in s['cols']]
            # the ahead and the behind photons are independent: the factorials of the component split over the two
            return [dict(s, cols=together, prob=s['prob'] * ov), dict(s, cols=apart, prob=s['prob'] * (1 - ov))]
        return f
    if kind == 'set':
        c.set_classical_channels([D(x) for x in nd[1]], list(nd[2]))
        def f(s):
            cl = list(s['classical'])
            for x, ch in zip(nd[1], nd[2]): cl[ch] = D(x)
            return [dict(s, classical=cl)]
        return f
    if kind == 'measure':
        only = nd[3] if len(nd) > 3 else None
        c.measure_optical_to_classical(list(nd[1]), list(nd[2]), **({} if only is None else dict(list_of_projections=[h.name(v, h_L(c), c._channel_0_left_in_state_name) for v in only])))
        def f(s):
            g = {}
            for x in s['cols']:
                if only is None or tuple(sum(p[0] == k for p in x[2]) for k in range(n)) in only: g.setdefault(tuple(sum(p[0] == k for p in x[2]) for k in nd[1]), []).append(x)
            out = []; base = s.get('norm', 1)
            for o, cs in g.items():
                cl = list(s['classical'])
                for v, ch in zip(o, nd[2]): cl[ch] = v
                N = norm(h, cs, n)
                if h.is_zero(N): continue
                out.append(dict(s, cols=cs, classical=cl, norm=N, hist=s['hist'] + [(list(cl), N / base)]))
            return out
        return f
    raise ValueError(kind)

def program(h, L, n, ncl, nodes, states, left, full, unit=True, total=True, hist=True):
    h.thr_c = 1e-9
    c = h.circuit(L, n, c=ncl, left=left, full=full)
    steps = [put(h, c, nd, n, k) for k, nd in enumerate(nodes)]
    ss = []
    for j, comps in enumerate(states):
        amps = {comps[0]: 1} if len(comps) == 1 else dict(zip(comps, h.unit('u%d' % j, len(comps))))
        P = h.real('P%d' % j, 0, F(1, 2), pos=True)
        ss.append(dict(amps=amps, prob=P, classical=[h.real('c%d%d' % (j, i), -2, 2) for i in range(ncl)], hist=[], initial=['in', 'in1'][j]))
    col = h.collection(c, [dict(amps=s['amps'], prob=s['prob'], classical=s['classical'], initial=s['initial'], id='id%d' % j, meas=[]) for j, s in enumerate(ss)])
    pic = {k: h.snapshot(s) for k, s in col.items()}
    want = [start(s) for s in ss]
    for f in steps: want = [t for s in want for t in f(s)]
    out = c.evaluate_circuit(col)
    for k, s in col.items(): h.eq_snapshot('input untouched', h.snapshot(s), pic[k])
    groups = {}
    for t in out:
        pr = t.auxiliary_information['photon_resolution']
        groups.setdefault((t.initial_state, pr['interference_group_identifier']), []).append(t)
    left_ = []
    for (i, _), ts in groups.items():
        t = ts[0]; w = t.auxiliary_information['photon_resolution']['group_cumulative_probability']
        for u in ts[1:]:
            h.eq('one weight per group', u.auxiliary_information['photon_resolution']['group_cumulative_probability'], w)
            h.eq('one outcome per group', list(u.classical_channel_values), list(t.classical_channel_values))
            h.true('one history per group', h.same(u.measurement_results, t.measurement_results))
        left_.append((i, list(t.classical_channel_values), [list(m['measurement_results']) for m in t.measurement_results], [m['probability'] for m in t.measurement_results], w))
    table = []
    for s in want:
        key = [s['initial'], s['classical'], [x[0] for x in s['hist']]]; w = s['prob'] * s.get('norm', 1)
        for e in table:
            if h.same(e[0], key): e[1] = e[1] + w; e[2].append(s); break
        else: table.append([key, w, [s]])
    used = []
    for key, w, srcs in table:
        g = [x for x in left_ if h.same([x[0], x[1], x[2]], key)]
        used += [id(x) for x in g]
        h.eq('weight %s' % (key,), ref.sum_([x[4] for x in g]), w)
        if len(g) == len(srcs) == 1 and hist: h.eq('history %s' % (key,), g[0][3], [x[1] for x in srcs[0]['hist']])
    for x in left_:
        if id(x) not in used: h.eq('outcome not expected %s' % (x[1],), x[4], 0)
    if total:
        for s in ss: h.eq('total ' + s['initial'], ref.sum_([x[4] for x in left_ if x[0] == s['initial']]), s['prob'])
    if ncl and any(nd[0] == 'measure' for nd in nodes) and not any(nd[0] in ('cfull', 'cquick', 'set') for nd in nodes) and all(len(nd[1]) == n == ncl for nd in nodes if nd[0] == 'measure'):
        H = out.plot(histo_output_instead_of_plot=True)
        for s in ss:
            for row in H.get(s['initial'], []):
                cl = [list(v) for v in itertools.product(range(L), repeat=n) if h.name(tuple(v), L, left) == row['output_state']][0]
                h.eq('histogram %s %s' % (s['initial'], cl), row['probability'], ref.sum_([e[1] for e in table if e[0][0] == s['initial'] and h.same(list(e[0][1]), cl)]))

def hom(h, left, kind):
    """Hong-Ou-Mandel: coincidences (1 - overlap)/2, bunching (1 + overlap)/4; identical photons never coincide"""
    h.thr_c = 1e-9
    c = h.circuit(3, 2, c=2, left=left)
    d, w = h.real('d', -3, 3), h.real('w', F(1, 5), 3, pos=True)
    if kind == 'full': c.time_delay_full([0], d, w)
    elif kind == 'back': c.time_delay_full([0], d, w); c.time_delay_full([0], -1 * d, w)
    elif kind == 'both': c.time_delay_full([0, 1], d, w)
    elif kind == 'other': c.time_delay_full([1], d, w); c.time_delay_full([0], d, w)
    elif kind == 'quick': c.time_delay([1], d, w)
    elif kind == 'zero': c.time_delay([1], 0, w)
    elif kind == 'width': c.set_pulse_width([0], w)
    elif kind == 'widths': c.set_pulse_width([0], w); c.time_delay_full([0], d, None)
    c.mix_50_50(0, 1); c.measure_optical_to_classical([0, 1], [0, 1])
    P = h.real('P', 0, 1, pos=True)
    out = c.evaluate_circuit(h.collection(c, [dict(amps={(1, 1): 1}, prob=P, classical=[0, 0], initial='hom', meas=[])]))
    k2 = 1
    if kind in ('full', 'widths'):
        a = 1 if kind == 'widths' else w
        x = d / h.sqrt(w * w + a * a); k = h.exp(-1 * h.log(2) * (x * x)); k2 = k * k
    if kind == 'quick': x = d / w; k2 = h.exp(-1 * h.log(2) * (x * x))
    h.psd(1 - k2); h.le('visibility', k2, 1)
    got = {}
    for t in out:
        pr = t.auxiliary_information['photon_resolution']
        got[tuple(int(x) for x in t.classical_channel_values), pr['interference_group_identifier']] = pr['group_cumulative_probability']
    tot = {}
    for (o, _), p in got.items(): tot[o] = tot[o] + p if o in tot else p; h.le('not negative', 0, p)
    if kind == 'quick':
        # separated wave packets keep the (numerically vanishing) overlap of packets 200 widths apart
        x = 200 / h.sqrt(2); far = h.exp(-1 * h.log(2) * (x * x)); v = k2 + (1 - k2) * far * far
    else: v = k2
    for o, p in (((1, 1), (1 - v) / 2), ((2, 0), (1 + v) / 4), ((0, 2), (1 + v) / 4)): h.eq('%s' % (o,), tot.pop(o, 0), P * p)
    h.true('no other outcome', not tot, tot)

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    G = lambda *g: ('gate', g)
    M = lambda a, b: ('measure', a, b)
    for left in (True, False):
        s = 'l' if left else 'r'
        for kind in ('full', 'back', 'both', 'other', 'quick', 'zero', 'width', 'widths'): add('hom-%s-%s' % (kind, s), hom, left=left, kind=kind)
    for left, full in ((True, False), (False, True)):
        s = 'l' if left else 'r'
        def A(nm, L, n, ncl, nodes, states, **k): add('%s-%s' % (nm, s), program, L=L, n=n, ncl=ncl, nodes=nodes, states=states, left=left, full=full, **k)
        m2 = M((0, 1), (0, 1))
        A('one', 3, 2, 2, [('full', (0,), 'd', 'w'), G('mix50', 0, 1), m2], [[(1, 1)], [(1, 0)]])
        A('generic', 3, 2, 2, [('full', (1,), 'd', 1), G('generic', 0, 1), m2], [[(1, 1)]])
        A('two-comp', 3, 2, 2, [('full', (0,), 'd', 1), G('mix50', 0, 1), m2], [[(1, 1), (2, 0)], [(0, 1), (1, 0)]])
        A('pre', 3, 2, 2, [G('mix50', 1, 0), ('full', (0,), 'd', 1), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('mz', 2, 2, 2, [G('mix50', 0, 1), ('full', (0,), 'd', 'w'), G('mix50', 0, 1), m2], [[(1, 0)], [(0, 1)]])
        A('two-delays', 3, 2, 2, [('full', (0,), 'd', 1), G('mix50', 0, 1), ('full', (1,), 'e', 1), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('spectator', 3, 3, 3, [('full', (0,), 'd', 1), G('mix50', 0, 1), M((2,), (2,)), M((0, 1), (0, 1))], [[(1, 1, 0)]])
        A('seq', 3, 2, 2, [('full', (0,), 'd', 'w'), G('mix50', 0, 1), M((1,), (1,)), M((0,), (0,))], [[(1, 1)]])
        A('seq-again', 3, 2, 2, [('full', (0,), 'd', 1), G('mix50', 0, 1), M((0,), (1,)), M((0,), (0,)), M((1, 0), (0, 1))], [[(1, 1)]])
        A('mid', 3, 3, 3, [('full', (0,), 'd', 1), G('mix50', 0, 1), M((1,), (0,)), G('mix50', 0, 2), M((2, 0), (1, 2))], [[(1, 1, 0)]])
        A('width', 3, 2, 2, [('width', None, 'w'), ('full', (0,), 'd', None), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('width-one', 3, 2, 2, [('width', (1,), 'w'), ('full', (0,), 'd', None), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('width-none', 3, 2, 2, [('width', (), 'w'), ('full', (0,), 'd', 1), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('width-only', 3, 2, 2, [G('mix50', 0, 1), ('width', None, 'w'), G('mix50', 0, 1), m2], [[(1, 1), (2, 0)]])
        A('control', 3, 2, 3, [('cfull', (0,), 2, 1), G('mix50', 0, 1), m2], [[(1, 1)], [(1, 1)]])
        A('control-set', 3, 2, 3, [('cfull', (0,), 2, 1), ('set', ('e',), (2,)), ('cfull', (1,), 2, 1), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('quick', 3, 2, 2, [('quick', (0,), 'd', 'w'), G('mix50', 0, 1), m2], [[(1, 1)], [(1, 0)]])
        A('quick-control', 3, 2, 3, [('cquick', (1,), 2, 'w'), G('mix50', 0, 1), m2], [[(1, 1)], [(0, 1)]])
        A('quick-control2', 3, 2, 3, [('cquick', (1,), 2, 1), G('mix50', 0, 1), m2], [[(1, 1)], [(1, 1), (2, 0)]])
        A('quick-comp', 3, 2, 2, [('quick', (1,), 'd', 1), G('mix50', 0, 1), m2], [[(1, 1), (0, 2)]])
        A('quick-seq', 3, 2, 2, [('quick', (0,), 'd', 1), G('mix50', 0, 1), M((1,), (0,)), M((0,), (1,))], [[(1, 1)]])
        A('long', 12, 2, 2, [('full', (0,), 'd', 'w'), G('mix50', 0, 1), m2], [[(1, 1)], [(1, 0)]])
        A('long-seq', 12, 2, 3, [('full', (0,), 'd', 1), G('mix50', 0, 1), M((1,), (2,)), M((0,), (0,))], [[(2, 1)]])
        A('collide', 3, 2, 3, [('full', (0,), 'd', 1), G('mix50', 0, 1), M((0,), (2,)), M((1,), (2,))], [[(1, 1), (2, 0)], [(0, 2)]])
        A('two-groups', 3, 2, 2, [('full', (0,), 'd', 1), G('mix50', 0, 1), m2, G('mix50', 0, 1), M((0,), (0,))], [[(1, 1)]])
        A('delays-many', 3, 2, 2, [('full', (0,), 'd', 1), ('full', (1,), 'e', 1), ('full', (0,), 'd', 1, -1), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('phase', 3, 2, 2, [G('mix50', 0, 1), ('full', (0,), 'd', 1), G('phase', 0), G('mix50', 0, 1), m2], [[(1, 1)], [(1, 0)]])
        A('three', 4, 3, 3, [('full', (0,), 'd', 1), G('mix50', 0, 1), M((0, 1, 2), (2, 1, 0))], [[(1, 1, 1)]])
        A('three-two', 4, 2, 2, [('full', (1,), 'd', 1), G('mix50', 0, 1), m2], [[(2, 1)]])
        A('three-chan', 4, 3, 3, [('full', (0,), 'd', 1), ('full', (1,), 'e', 1), G('mix50', 0, 1), G('mix50', 1, 2), M((0, 1, 2), (0, 1, 2))], [[(1, 1, 1)]], tier='thorough')
        A('only', 3, 2, 2, [('full', (0,), 'd', 1), G('mix50', 0, 1), m2 + (((1, 1), (0, 2)),)], [[(1, 1)]], total=False)
        A('only-one', 3, 2, 2, [('full', (0,), 'd', 1), G('mix50', 0, 1), M((1,), (1,)) + (((2, 0), (0, 2)),), M((0,), (0,))], [[(1, 1)]], total=False)
        A('only-name', 12, 2, 2, [('full', (0,), 'd', 1), G('mix50', 0, 1), m2 + (((2, 0), (1, 0)),)], [[(1, 1)], [(1, 0)]], total=False)
        A('full-default', 3, 2, 2, [('full', (0,), 'd', '-'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('full-default-width', 3, 2, 2, [('width', None, 'w'), ('full', (0,), 'd', '-'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('full-default-delay', 3, 2, 2, [('full', (0,), '-', 'w'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('control-default', 3, 2, 3, [('cfull', (0,), '-', '-'), G('mix50', 0, 1), M((0, 1), (1, 2))], [[(1, 1)]])
        A('quick-default', 3, 2, 2, [('quick', (0,), 'd', '-'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('quick-default-delay', 3, 2, 2, [('quick', (0,), '-', 'w'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('quick-bandwidth', 3, 2, 2, [('quick', (0,), 'd', '/w'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('quick-control-default', 3, 2, 3, [('cquick', (0,), '-', '-'), G('mix50', 0, 1), M((0, 1), (1, 2))], [[(1, 1)]])
        A('quick-control-bandwidth', 3, 2, 3, [('cquick', (0,), 2, '/w'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('widths-two', 3, 2, 2, [('full', (0,), 'd', 'w'), ('full', (1,), 'e', 'v'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('widths-two-mix', 3, 2, 2, [('full', (0,), 'd', 'w'), G('mix50', 0, 1), ('full', (1,), 'e', 'v'), G('mix50', 0, 1), m2], [[(1, 1)]])
        A('quick-three', 4, 2, 2, [('quick', (1,), 'd', 1), G('mix50', 0, 1), m2], [[(2, 1)]])
    return out
