"""C19  Popescu-Rohrlich correlations are valid no-signalling probabilities"""
import itertools
from fractions import Fraction as F
from symx.runner import Case
from . import ref
from .c01 import mat
from .c17 import deep, cmp
META = dict(bounds='the probability law for arbitrary Stokes vectors with quantumness 1, 2, 5/2, 3, 5, 1000 (values between 0 and 1, symmetry, complement, scaling); one pair in 4 or 5 channels (any assignment tried below, states of L = 2 or 3) with a polariser of symbolic real amplitude and symbolic phase on each side, quantumness 1, 2, 3, 1000; wave plates with one symbolic angle; two pairs with two symbolic settings; one or two input states with symbolic weight and classical values; both channel orders; gate and measurement in one circuit or in two; all or part of the channels written',
    outside='for quantumness above 1 settings with polarisation overlap |X| < 1/20 (the root magnifies rounding there without limit); components exactly zero; more than two pairs; the probability stored in the history is checked for input weight 1 only')
MOD = 'fock_state_circuit.popescu_rohrlich_correlation_functionality.popescu_rohrlich_correlations'
PAIR = ((1, 0), (0, 1))

def power(h, X, q):
    """sign(X)*|X|^(1/q)"""
    if q == 1: return X
    if h.sym:
        from symx import num as N
        X = N.lift(X); sg = 1 if X > 0 else -1
        return N.sym_power(X * sg, N.Sym.of(1) / q) * sg
    return (abs(X) ** (1 / q)) * (1 if X > 0 else -1)

def formula(h, q):
    f = h.mod(MOD)._probability_from_stokes_vectors
    v = [h.real('v%d' % k, -1, 1) for k in range(3)]; w = [h.real('w%d' % k, -1, 1) for k in range(3)]
    h.nonzero(ref.sum_([x * x for x in v])); h.nonzero(ref.sum_([x * x for x in w]))
    p = f(v, w, q)
    if q != 2: h.le('at least 0', 0, p); h.le('at most 1', p, 1)
    h.eq('exchange', f(w, v, q), p)
    h.eq('opposite outcomes', f([-x for x in v], w, q), 1 - p)
    h.eq('scale', f([3 * x for x in v], w, q), p)
    if q == 1: h.eq('law', p, (1 + ref.sum_([x * y for x, y in zip(v, w)]) / h.sqrt(ref.sum_([x * x for x in v]) * ref.sum_([x * x for x in w]))) / 2)

def arm(h, c, ch, k, phase, part=None):
    """general polariser on one photon: phase plate, then rotation; returns the two outcome spinors (h amplitude, v amplitude)"""
    x = h.real('r%d' % k, *((0, 1) if part is None else (F(3, 4), 1) if part else (0, F(5, 8)))); y = h.sqrt(1 - x * x)
    e = 1
    if phase == 'fixed': return [[1, 0], [0, 1]]
    if phase:
        f = h.angle('f%d' % k); c.phase_shift_single_channel(ch[0], f); e = h.exp(h.I * f)
    M = [[x, -y], [y, x]]
    c.custom_optical_node(matrix_optical=mat(h, M), optical_channels=[ch[0], ch[1]], node_type='optical')
    return [[M[0][0] * e, M[0][1]], [M[1][0] * e, M[1][1]]]

def overlap(h, u, w): return 2 * h.abs2(u[0] * w[0] + u[1] * w[1]) - 1
def regular(h, u, w, q):
    """a root |X|^(1/q) magnifies rounding without limit at X = 0: the settings stay away from there"""
    if q != 1: X = overlap(h, u, w); h.assume(X * X >= F(1, 400))

def joint(h, u, w, q):
    """probability of one outcome pair: quarter of 1 + sign(X)|X|^(1/q), X the polarisation overlap of the two settings"""
    X = overlap(h, u, w)
    return (1 + power(h, X, q)) / 4

def pair(h, q, phases, left, ch=(0, 1, 2, 3), L=2, n=4, full=False, inputs=1, read=None, split=False, part=(None, None)):
    c = h.circuit(L, n, c=4, left=left, full=full)
    g = h.circuit(L, n, c=4, left=left, full=full) if split else c
    g.popescu_rohrlich_correlation_gate([{'channels_Ah_Av_Bh_Bv': list(ch), 'quantumness_indicator': q}])
    UA = arm(h, c, ch[:2], 0, phases[0], part[0]); UB = arm(h, c, ch[2:], 1, phases[1], part[1])
    for x in UA[0] + UB[0]: h.nonzero(x)
    regular(h, UA[0], UB[0], q)
    rd = read or ((0, 1, 2, 3), (0, 1, 2, 3))
    c.measure_optical_to_classical(list(rd[0]), list(rd[1]))
    rest = [k for k in range(n) if k not in ch]
    ss = []
    for j in range(inputs):
        if rest:
            a = h.box([(0,) * len(rest), (1,) + (0,) * (len(rest) - 1)], 'x%d' % j)
            for z in a.values(): h.nonzero(z)
        else: a = {(): 1}
        amps = {}
        for o, z in a.items():
            v = [0] * n
            for k, m in zip(rest, o): v[k] = m
            amps[tuple(v)] = z
        ss.append(dict(amps=amps, rest=a, classical=[h.real('k%d%d' % (j, k), -3, 3) for k in range(4)], prob=h.real('P%d' % j, 0, 1, pos=True) if inputs > 1 else 1, initial='in%d' % j, meas=[{'measurement_results': [j] * 4, 'probability': .25}], aux={'tag': [j]}, id='s%d' % j))
    col = h.collection(c, ss)
    if split: col = g.evaluate_circuit(col)
    pic = deep(h, col)
    out = c.evaluate_circuit(col)
    cmp(h, 'input', deep(h, col), pic)
    for j, s in enumerate(ss):
        mine = [t for t in out if t.initial_state == 'in%d' % j]; tot = 0
        for a, b in itertools.product((0, 1), repeat=2):
            for o, z in s['rest'].items():
                v = [0] * n
                v[ch[a]] = 1; v[ch[2 + b]] = 1
                for k, m in zip(rest, o): v[k] = m
                ts = [t for t in mine if set(h.amps(t, c)) == {tuple(v)}]
                h.true('one state per outcome', len(ts) <= 1, len(ts))
                P = ts[0].cumulative_probability if ts else 0
                h.eq('P%d %s' % (j, v), P, joint(h, UA[a], UB[b], q) * s['prob'] * h.abs2(z))
                for t in ts:
                    mine = [x for x in mine if x is not t]
                    h.eq('amplitude', h.amps(t, c)[tuple(v)], 1)
                    cl = list(s['classical'])
                    for x, k in zip(rd[0], rd[1]): cl[k] = v[x]
                    h.eq('classical', list(t.classical_channel_values), cl)
                    h.true('history', len(t.measurement_results) == 2 and h.same(t.measurement_results[0], s['meas'][0]), t.measurement_results)
                    h.eq('recorded', list(t.measurement_results[-1]['measurement_results']), cl)
                    if inputs == 1 and not rest: h.eq('recorded probability', t.measurement_results[-1]['probability'], P)
                    h.true('aux', h.same(t.auxiliary_information, s['aux']), t.auxiliary_information)
        h.true('no other outcome', not mine, [(h.amps(t, c), t.cumulative_probability) for t in mine])

def legacy(h, q, phases, left, part=(None, None), weight=False):
    """the older entry points: boxes made from one state, outcomes listed without a measurement gate, correlations from the list"""
    L = 2
    c = h.circuit(L, 4, c=4, left=left)
    UA = arm(h, c, (0, 1), 0, phases[0], part[0]); UB = arm(h, c, (2, 3), 1, phases[1], part[1])
    for x in UA[0] + UB[0]: h.nonzero(x)
    regular(h, UA[0], UB[0], q)
    P = h.real('P', 0, 1, pos=True) if weight else 1
    f = h.mod('fock_state_circuit'); empty = h.collection(c, [])
    st = h.state(c, empty, dict(amps={(0,) * 4: 1}, prob=P, initial='in', classical=[0] * 4))
    pic = h.snapshot(st)
    out = c.evaluate_circuit(f.create_collection_with_NS_boxes(st, [{'channels_Ah_Av_Bh_Bv': [0, 1, 2, 3], 'quantumness_indicator': q}]))
    h.eq_snapshot('template untouched', h.snapshot(st), pic)
    rows = f.measure_collection_with_NS_boxes(out)
    want = {}
    for a, b in itertools.product((0, 1), repeat=2):
        v = [0] * 4; v[a] = 1; v[2 + b] = 1
        want[h.name(tuple(v), L, left)] = joint(h, UA[a], UB[b], q) * P
    h.true('outcomes', sorted(r['output_state'] for r in rows) == sorted(want), rows)
    for r in rows: h.eq('probability ' + r['output_state'], r['probability'], want[r['output_state']])
    X = overlap(h, UA[0], UB[0])
    got = f.correlations_from_measured_collection_with_NS_boxes(rows, [(0, 2), (1, 2)], st)
    h.eq('correlation', got[0], power(h, X, q)); h.eq('anti-correlation', got[1], -1 * power(h, X, q))

def marginals(h, q, who, pa, pb, part):
    """no-signalling: the distribution on one side is uniform whatever the other side does"""
    L = 2
    c = h.circuit(L, 4, c=4)
    c.popescu_rohrlich_correlation_gate([{'channels_Ah_Av_Bh_Bv': [0, 1, 2, 3], 'quantumness_indicator': q}])
    U = [arm(h, c, (0, 1), 0, pa, part[0]), arm(h, c, (2, 3), 1, pb, part[1])]
    for x in U[0][0] + U[1][0]: h.nonzero(x)
    regular(h, U[0][0], U[1][0], q)
    c.measure_optical_to_classical([0, 1, 2, 3], [0, 1, 2, 3])
    out = c.evaluate_circuit(h.collection(c, [dict(amps={(0,) * 4: 1}, classical=[0] * 4, prob=1)]))
    d = {}
    for t in out:
        v = tuple(int(x) for x in t.classical_channel_values)
        k = v[:2] if who == 'A' else v[2:]
        d[k] = d.get(k, 0) + t.cumulative_probability
    h.true('outcomes', set(d) == {(1, 0), (0, 1)}, d)
    for k, P in d.items(): h.eq('marginal %s' % (k,), P, F(1, 2))

def plates(h, q, A, B, left, part=None):
    """wave plates; one of the two settings is arbitrary"""
    L = 2
    c = h.circuit(L, 4, c=4, left=left)
    c.popescu_rohrlich_correlation_gate([{'channels_Ah_Av_Bh_Bv': [0, 1, 2, 3], 'quantumness_indicator': q}])
    U = []
    for k, (kind, a) in enumerate((A, B)):
        th = h.angle('th%d' % k) if a is None else h.pi * a
        if a is None and part is not None:
            x, y = h.cos(th), h.sin(th)
            h.assume(x > 0); h.assume(y > 0)
            if part: h.assume(2 * y > x); h.assume(y < 2 * x)
            else: h.assume(3 * y < x)
        if kind == 'half': c.half_wave_plate(2 * k, 2 * k + 1, angle=th); m = ref.wave_plate(h, th, h.pi)
        else: c.quarter_wave_plate(2 * k, 2 * k + 1, angle=th); m = ref.wave_plate(h, th, h.pi / 2)
        U.append(m)
    c.measure_optical_to_classical([0, 1, 2, 3], [0, 1, 2, 3])
    for m in U:
        if any(not h.is_zero(x) for x in m[0]): [h.nonzero(x) for r in m for x in r if not h.is_zero(x)]
    regular(h, U[0][0], U[1][0], q)
    out = c.evaluate_circuit(h.collection(c, [dict(amps={(0,) * 4: 1}, classical=[0] * 4, prob=1)]))
    d = {tuple(int(x) for x in t.classical_channel_values): t.cumulative_probability for t in out}
    for a, b in itertools.product((0, 1), repeat=2):
        v = [0] * 4; v[a] = 1; v[2 + b] = 1
        h.eq('P%s' % v, d.pop(tuple(v), 0), joint(h, U[0][a], U[1][b], q))
    h.true('no other', not d)

def gate(h, k, chans, left, L, n, qs):
    """the collection produced by the gate itself"""
    c = h.circuit(L, n, c=1, left=left)
    boxes = [{'channels_Ah_Av_Bh_Bv': list(ch), 'quantumness_indicator': q} for ch, q in zip(chans, qs)]
    c.popescu_rohrlich_correlation_gate(boxes)
    used = [x for ch in chans for x in ch]
    cb = [tuple(0 if j in used else m for j in range(n)) for m in ((0, 1) if len(used) < n else (0,))]
    ss = []
    for j in range(2):
        a = h.box(cb, 'x%d' % j)
        for z in a.values(): h.nonzero(z)
        ss.append(dict(amps=a, classical=[h.real('k%d' % j, -3, 3)], prob=h.real('P%d' % j, 0, 1, pos=True), initial='i%d' % j, meas=[], aux={'tag': [j]}, id='s%d' % j))
    col = h.collection(c, ss); pic = deep(h, col)
    out = c.evaluate_circuit(col)
    cmp(h, 'input', deep(h, col), pic)
    h.true('number', len(out) == 2 * 4 ** k, len(out))
    pat = [(1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 1, 0), (0, 1, 0, 1)]
    for j, s in enumerate(ss):
        mine = [t for t in out if t.initial_state == 'i%d' % j]
        groups = set()
        for conf in itertools.product(range(4), repeat=k):
            want = {}
            for v, z in s['amps'].items():
                v = list(v)
                for b, ch in zip(conf, chans):
                    for x, m in zip(ch, pat[b]): v[x] = m
                want[tuple(v)] = z
            ts = [t for t in mine if set(h.amps(t, c)) == set(want)]
            h.true('one state per configuration', len(ts) == 1, len(ts))
            for t in ts:
                h.eq_amps('components', h.amps(t, c), want); h.check_state('components', t, c)
                h.eq('weight', t.cumulative_probability, F(1, 2 ** k)); h.eq('classical', list(t.classical_channel_values), s['classical'])
                h.true('tag', h.same(t.auxiliary_information['tag'], [j]))
                i = t.auxiliary_information['popescu_rohrlich_correlation']; groups.add(i['superentanglement'])
                h.true('configuration', i['configuration'] == ''.join(map(str, conf)), i['configuration']); h.true('quantumness', list(i['quantumness_indicator']) == list(qs))
        h.true('one group', len(groups) == 1)
    h.true('correlated', out.has_pr_correlations())

def two(h, qs, kinds, left, chans=((0, 1, 2, 3), (4, 5, 6, 7))):
    """two pairs: the joint distribution is the product"""
    n = 8
    c = h.circuit(2, n, c=n, left=left)
    c.popescu_rohrlich_correlation_gate([{'channels_Ah_Av_Bh_Bv': list(ch), 'quantumness_indicator': q} for ch, q in zip(chans, qs)])
    U = []
    for k, ch in enumerate(chans):
        for m in (0, 1):
            if kinds[2 * k + m]: U.append(arm(h, c, ch[2 * m:2 * m + 2], 2 * k + m, kinds[2 * k + m] == 'phase')); [h.nonzero(x) for x in U[-1][0]]
            else: U.append([[1, 0], [0, 1]])
    c.measure_optical_to_classical(list(range(n)), list(range(n)))
    for k, q in enumerate(qs): regular(h, U[2 * k][0], U[2 * k + 1][0], q)
    out = c.evaluate_circuit(h.collection(c, [dict(amps={(0,) * n: 1}, classical=[0] * n, prob=h.real('P', 0, 1, pos=True))]))
    d = {tuple(int(x) for x in t.classical_channel_values): t.cumulative_probability for t in out}
    for o in itertools.product((0, 1), repeat=4):
        v = [0] * n; P = h.real('P', 0, 1, pos=True)
        for k, ch in enumerate(chans):
            a, b = o[2 * k], o[2 * k + 1]
            v[ch[a]] = 1; v[ch[2 + b]] = 1
            P = P * joint(h, U[2 * k][a], U[2 * k + 1][b], qs[k])
        h.eq('P%s' % v, d.pop(tuple(v), 0), P)
    h.true('no other', not d)

def entangled(h, kind, left):
    """photons that lost their identity cannot be given a joint probability: an exception, not a number"""
    n = 8 if kind == 'across' else 4
    c = h.circuit(3 if kind == 'within' else 2, n, c=n, left=left)
    c.popescu_rohrlich_correlation_gate([{'channels_Ah_Av_Bh_Bv': [4 * k + j for j in range(4)], 'quantumness_indicator': 1} for k in range(n // 4)])
    x = h.real('r', F(1, 4), F(3, 4)); y = h.sqrt(1 - x * x)
    pr = (0, 2) if n == 4 else (0, 4)
    c.custom_optical_node(matrix_optical=mat(h, [[x, -y], [y, x]]), optical_channels=list(pr), node_type='optical')
    c.custom_optical_node(matrix_optical=mat(h, [[x, -y], [y, x]]), optical_channels=[p + 1 for p in pr], node_type='optical')
    c.measure_optical_to_classical(list(range(n)), list(range(n)))
    h.raises('refused', c.evaluate_circuit, h.collection(c, [dict(amps={(0,) * n: 1}, classical=[0] * n, prob=1)]))

def cases(tier, seed):
    out = []
    def A(name, fn, tier='quick', **cfg): out.append(Case(name, fn, tier=tier, opts=dict(root_factors=True), **cfg))
    for q in (1, 2, 3, F(5, 2), 5, 1000): A('formula-%s' % q, formula, q=q)
    for left in (True, False):
        s = 'l' if left else 'r'
        for q in (1, 2, 3, 1000):
            for ph in ((0, 0), (1, 0), (0, 1)):
                A('pair-%d-%d%d-%s' % ((q,) + ph + (s,)), pair, q=q, phases=ph, left=left, tier='quick' if (q, ph) == ((1, (1, 0)) if left else (3, (0, 1))) or q == 2 and ph == (0, 0) else 'thorough')
                A('pair-%d-%d%d-%s-part' % ((q,) + ph + (s,)), pair, q=q, phases=ph, left=left, part=(1, 0) if left else (0, 1))
            if q in ((1, 2) if left else (1, 1000)):
                for part in ((0, 0), (0, 1), (1, 0), (1, 1)): A('pair-%d-11-%d%d-%s' % ((q,) + part + (s,)), pair, q=q, phases=(1, 1), left=left, part=part, tier='quick' if (q, part) in ((1, (0, 0)), (2, (0, 1)), (1000, (1, 1))) and (q != 1 or left) else 'thorough')
        for ch in ((2, 3, 0, 1), (0, 2, 1, 3), (3, 1, 2, 0)): A('pair-ch%s-%s' % (''.join(map(str, ch)), s), pair, q=3, phases=(1, 0), left=left, ch=ch, part=(1, 0) if left else (1, 1))
        A('legacy-1-' + s, legacy, q=1, phases=(1, 0), left=left)
        A('legacy-2-' + s, legacy, q=2, phases=(0, 1), left=left, part=(0, 1), weight=True)
        A('legacy-3-' + s, legacy, q=3, phases=(1, 'fixed'), left=left, part=(1, None), weight=left)
        A('pair-two-inputs-' + s, pair, q=2, phases=(1, 'fixed'), left=left, inputs=2)
        A('pair-extra-' + s, pair, q=3, phases=(1, 'fixed'), left=left, n=5, ch=(3, 0, 4, 1))
        A('pair-L3-' + s, pair, q=1, phases=(1, 'fixed'), left=left, L=3)
        A('pair-L11-' + s, pair, q=1, phases=(0, 'fixed'), left=left, L=11, tier='thorough')
        A('pair-full-' + s, pair, q=2, phases=(0, 0), left=left, full=True)
        A('pair-split-' + s, pair, q=2, phases=(1, 0), left=left, split=True, part=(0, 0))
        A('pair-read2-' + s, pair, q=2, phases=(1, 0), left=left, read=((3, 1), (0, 2)), part=(0, 0))
        A('pair-read4-' + s, pair, q=2, phases=(0, 1), left=left, read=((3, 1, 0, 2), (0, 2, 3, 1)), part=(0, 0))
        for q in (1, 3):
            A('plates-quarter-%d-%s' % (q, s), plates, q=q, A=('quarter', None), B=('half', F(1, 8)), left=left)
            for part in (0, 1):
                A('plates-half0-%d-%d-%s' % (q, part, s), plates, q=q, A=('half', None), B=('half', 0), left=left, part=part)
                A('plates-half4-%d-%d-%s' % (q, part, s), plates, q=q, A=('half', None), B=('half', F(1, 4)), left=left, part=part)
            A('plates-right-%d-%s' % (q, s), plates, q=q, A=('half', F(1, 8)), B=('quarter', None), left=left)
            A('plates-circ-%d-%s' % (q, s), plates, q=q, A=('quarter', F(1, 4)), B=('quarter', None), left=left)
        for k, chans, L, n, qs in ((1, [(0, 1, 2, 3)], 2, 4, [1]), (1, [(4, 2, 0, 3)], 2, 5, [7]), (1, [(1, 0, 3, 2)], 3, 4, [2]), (2, [(0, 1, 2, 3), (4, 5, 6, 7)], 2, 8, [1, 2]), (2, [(7, 5, 3, 1), (0, 2, 4, 6)], 2, 8, [3, 1])):
            A('gate-%d-%s-L%d-%s' % (k, ''.join(map(str, chans[0])), L, s), gate, k=k, chans=chans, left=left, L=L, n=n, qs=qs)
        for kind in ('across', 'within'): A('entangled-%s-%s' % (kind, s), entangled, kind=kind, left=left)
        A('two-%s' % s, two, qs=[1, 3], kinds=(1, 0, 1, 0), left=left)
        A('two-perm-%s' % s, two, qs=[2, 1], kinds=(1, 0, 0, 1), left=left, chans=((7, 5, 3, 1), (0, 2, 4, 6)))
    for q in (1, 2, 1000):
        for who in 'AB': 
            for pa, pb, part in ((1, 0, (0, 1)), (0, 1, (1, 1)), (1, 1, (0, 1)), (1, 1, (1, 1))): A('marginal-%d-%s-%d%d-%s' % (q, who, pa, pb, part[1]), marginals, q=q, who=who, pa=pa, pb=pb, part=part, tier='thorough' if (pa, pb) == (1, 1) and q != (1000 if who == 'A' else 2) or q == 1 and (pa, pb) == (1, 1) else 'quick')
    return out
