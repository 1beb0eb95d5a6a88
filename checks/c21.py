"""C21  histograms, correlations and the bars drawn for them"""
import itertools
from fractions import Fraction as F
from symx.runner import Case
from . import ref
META = dict(bounds='1..4 states with 1..3 initial states, 1..4 classical channels, Fock length 2, 3, 10, 11 and 12, both naming conventions; all positive weights (any total), classical values any photon number 0..L-1 (a choice of them for L above 9), arbitrary real values in channels that are not asked for; photon-resolved collections after a two-photon interferometer with any delay and width; drawn bars read back from the calls to matplotlib (positions, heights, legend, ticks)',
            outside='classical values of the plotted channels that are not photon numbers below the Fock length (documented: mapped on an integer modulo the length); collections with total weight zero; the rendering of the figure by matplotlib')

class Canvas:
    """stands in for matplotlib: records what is drawn"""
    def __init__(self): self.bars = []; self.ticks = None; self.labels = None
    def bar(self, x, height, width=0.8, *a, **k):
        xs, hs = (list(x), list(height)) if hasattr(x, '__len__') else ([x], [height])
        for p, q in zip(xs, hs): self.bars.append((p, q, width, k.get('color')))
    def legend(self, *a, **k):
        ls = k.get('labels', a[1] if len(a) > 1 else a[0] if a else None)
        if ls is not None: self.labels = list(ls)
    def xticks(self, *a, **k):
        t, ls = k.get('ticks', a[0] if a else None), k.get('labels', a[1] if len(a) > 1 else None)
        if t is not None and ls is not None: self.ticks = list(zip(t, ls))
    def set_xticks(self, *a, **k): self.xticks(*a, **k)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: self
def drawing(h, f):
    import matplotlib.pyplot as plt
    can = Canvas(); old = {}
    repl = dict(subplots=lambda *a, **k: (can, can), figure=lambda *a, **k: can, show=lambda *a, **k: None, bar=can.bar, legend=can.legend, xticks=can.xticks,
        title=can.title, ylabel=can.ylabel, xlabel=can.xlabel)
    for k, v in repl.items(): old[k] = getattr(plt, k); setattr(plt, k, v)
    try: f()
    finally:
        for k, v in old.items(): setattr(plt, k, v)
    return can
def check_bars(h, label, can, want, order):
    """want {tick: {legend entry: height}}"""
    h.true(label + ' one tick per initial state', sorted(map(str, (t[1] for t in can.ticks))) == sorted(map(str, want)), can.ticks)
    h.true(label + ' one legend entry per outcome', sorted(map(str, can.labels)) == sorted(map(str, order)), can.labels)
    for x, tick in can.ticks:
        places = sorted({round(float(p), 6) for p, q, w, c in can.bars if abs(p - x) < 0.5 - 1e-9})
        h.true(label + ' one place per outcome', len(places) == len(can.labels), (places, can.labels))
        for i, lab in enumerate(can.labels):
            bs = [b for b in can.bars if abs(b[0] - places[i]) < 1e-6]
            h.eq('%s bar %s %s' % (label, tick, lab), bs[-1][1], want[tick][lab])
        if len(places) > 1:
            gap = min(b - a for a, b in zip(places, places[1:]))
            h.true(label + ' bars do not overlap', all(b[2] <= gap + 1e-6 for b in can.bars), gap)

def value(h, name, L, kind):
    if kind == 'any': return h.choose(name, range(L) if L < 9 else [1, L - 1, 0])
    if kind == 'real': return h.real(name, -3, 3)
    if kind == 'float': return float(h.choose(name, range(L)))
    return kind
def setup(h, L, left, initial, values, n=2):
    c = h.circuit(L, n, c=len(values[0]), left=left)
    specs = []
    for j, (ini, vs) in enumerate(zip(initial, values)):
        specs.append(dict(amps={(1,) + (0,) * (n - 1): 1}, prob=h.real('P%d' % j, 0, 1, pos=True), initial=ini, id='id%d' % j,
            classical=[value(h, 'v%d%d' % (j, i), L, k) for i, k in enumerate(vs)]))
    return c, h.collection(c, specs), specs
def table(h, specs, chans, keep):
    t = {}
    for s in specs:
        if keep and s['initial'] not in keep: continue
        o = tuple(int(s['classical'][i]) for i in chans); d = t.setdefault(s['initial'], {})
        d[o] = d[o] + s['prob'] if o in d else s['prob']
    return t
def histogram(h, L, left, initial, values, chans=None, keep=None, draw=False):
    c, col, specs = setup(h, L, left, initial, values)
    pic = {k: h.snapshot(s) for k, s in col.items()}
    kw = {}
    if chans is not None: kw['classical_channels'] = list(chans)
    if keep is not None: kw['initial_states'] = list(keep)
    chans = chans if chans is not None else range(len(values[0]))
    want = table(h, specs, chans, keep)
    outcomes = list(dict.fromkeys(o for d in want.values() for o in d)); label = {o: h.name(o, L, left) for o in outcomes}
    H = col.plot(histo_output_instead_of_plot=True, **kw)
    h.true('initial states', sorted(H) == sorted(want), list(H))
    tot = {}
    for i, rows in H.items():
        h.true('outcomes of %s' % i, sorted(r['output_state'] for r in rows) == sorted(label.values()), rows)
        for o in outcomes:
            p = [r['probability'] for r in rows if r['output_state'] == label[o]]
            h.eq('probability %s %s' % (i, o), p[0] if p else 0, want[i].get(o, 0))
        h.eq('total %s' % i, ref.sum_([r['probability'] for r in rows]), ref.sum_([s['prob'] for s in specs if s['initial'] == i]))
    for k, s in col.items(): h.eq_snapshot('untouched', h.snapshot(s), pic[k])
    if draw:
        can = drawing(h, lambda: col.plot(**kw))
        check_bars(h, 'plot', can, {i: {label[o]: want[i].get(o, 0) for o in outcomes} for i in want}, label.values())
def correlations(h, L, left, initial, values, combis, keep=None, draw=False):
    c, col, specs = setup(h, L, left, initial, values)
    pic = {k: h.snapshot(s) for k, s in col.items()}
    kw = {} if keep is None else dict(initial_states_to_assess=list(keep))
    want = {}
    for i in dict.fromkeys(s['initial'] for s in specs if not keep or s['initial'] in keep):
        mine = [s for s in specs if s['initial'] == i]; tot = ref.sum_([s['prob'] for s in mine])
        want[i] = [(ref.sum_([s['prob'] if int(s['classical'][a]) == int(s['classical'][b]) else -1 * s['prob'] for s in mine]), tot) for a, b in combis]
    C = col.plot_correlations([tuple(x) for x in combis], correlation_output_instead_of_plot=True, **kw)
    h.true('initial states', sorted(C) == sorted(want), list(C))
    for i, xs in C.items():
        h.true('one correlation per pair', len(xs) == len(combis), xs)
        for x, (a, tot), pair in zip(xs, want[i], combis):
            h.eq('correlation %s %s' % (i, pair), x * tot, a)
            h.le('at most 1', x * tot, tot); h.le('at least -1', -1 * tot, x * tot)
    for k, s in col.items(): h.eq_snapshot('untouched', h.snapshot(s), pic[k])
    if draw:
        can = drawing(h, lambda: col.plot_correlations([tuple(x) for x in combis], **kw))
        check_bars(h, 'plot', can, {i: {tuple(p): a / t for p, (a, t) in zip(combis, want[i])} for i in want}, [tuple(p) for p in combis])
def ns_corr(h, L, left, outcomes, combis):
    """the older entry point: correlations from a list of measured outcomes"""
    c = h.circuit(L, len(outcomes[0]), left=left)
    rows = [{'output_state': h.name(o, L, left), 'probability': h.real('p%d' % i, 0, 1, pos=True)} for i, o in enumerate(outcomes)]
    pic = [dict(r) for r in rows]
    got = h.mod('fock_state_circuit').correlations_from_measured_collection_with_NS_boxes(rows, [tuple(x) for x in combis], h.state(c, h.collection(c, []), dict(amps={tuple(outcomes[0]): 1})))
    h.true('one correlation per pair', len(got) == len(combis), got)
    tot = ref.sum_([r['probability'] for r in pic])
    for x, (a, b) in zip(got, combis):
        h.eq('correlation %d %d' % (a, b), x * tot, ref.sum_([r['probability'] if o[a] == o[b] else -1 * r['probability'] for o, r in zip(outcomes, pic)]))
    for r, q in zip(rows, pic):
        h.true('outcome untouched', r['output_state'] == q['output_state'] and set(r) == set(q), r); h.eq('probability untouched', r['probability'], q['probability'])
def from_dict(h, key, initial, outcomes, old=False):
    """rows may be missing for some initial states"""
    d = {}; want = {}
    for i, os in zip(initial, outcomes):
        rows = [{'output_state': o, key: h.real('p_%s_%s' % (i, o), -1, 1)} for o in os]
        d[i] = rows; want[i] = {r['output_state']: r[key] for r in rows}
    alls = list(dict.fromkeys(o for os in outcomes for o in os))
    f = h.mod('fock_state_circuit').plot_correlations_for_NS_boxes if old else h.mod('fock_state_circuit.visualization.plot').plot_correlations_from_dict
    can = drawing(h, lambda: f(d))
    if all(len(os) == len(alls) for os in outcomes): check_bars(h, 'plot', can, want, alls)
def photons(h, left, kind, L=3):
    """photon-resolved: the histogram and the correlation of an interferometer's outcome groups"""
    h.thr_c = 1e-9
    c = h.circuit(L, 2, c=2, left=left)
    d, w = h.real('d', -3, 3), h.real('w', F(1, 5), 3, pos=True)
    if kind == 'width': c.set_pulse_width([0, 1], w)
    else: c.time_delay_full([0], d, w)
    c.mix_50_50(0, 1)
    if kind == 'seq': c.measure_optical_to_classical([1], [1]); c.measure_optical_to_classical([0], [0])
    else: c.measure_optical_to_classical([0, 1], [0, 1])
    P, Q = h.real('P', 0, 1, pos=True), h.real('Q', 0, 1, pos=True)
    out = c.evaluate_circuit(h.collection(c, [dict(amps={(1, 1): 1}, prob=P, classical=[0, 0], initial='two', meas=[]), dict(amps={(1, 0): 1}, prob=Q, classical=[0, 0], initial='one', meas=[])]))
    got = {}
    for t in out:
        pr = t.auxiliary_information['photon_resolution']
        got[t.initial_state, tuple(int(x) for x in t.classical_channel_values), pr['interference_group_identifier']] = pr['group_cumulative_probability']
    want = {}
    for (i, o, _), p in got.items(): e = want.setdefault(i, {}); e[o] = e[o] + p if o in e else p
    outcomes = list(dict.fromkeys(o for e in want.values() for o in e))
    H = out.plot(histo_output_instead_of_plot=True)
    h.true('initial states', sorted(H) == ['one', 'two'], list(H))
    for i, rows in H.items():
        h.true('outcomes', sorted(r['output_state'] for r in rows) == sorted(h.name(o, L, left) for o in outcomes), rows)
        for o in outcomes: h.eq('probability %s %s' % (i, o), [r['probability'] for r in rows if r['output_state'] == h.name(o, L, left)][0], want[i].get(o, 0))
        h.eq('total ' + i, ref.sum_([r['probability'] for r in rows]), P if i == 'two' else Q)
    C = out.plot_correlations([(0, 1)], correlation_output_instead_of_plot=True)
    h.eq('one photon', C['one'][0], -1)
    h.eq('two photons', C['two'][0] * P, want['two'].get((1, 1), 0) - ref.sum_([p for o, p in want['two'].items() if o[0] != o[1]]))

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    for left in (True, False):
        s = 'l' if left else 'r'
        A = 'any'
        def H(nm, L, initial, values, **k): add('histo-%s-%s' % (nm, s), histogram, L=L, left=left, initial=initial, values=values, **k)
        H('1', 2, ['a'], [[A, A]])
        H('2', 3, ['a', 'a'], [[A, A]] * 2)
        H('2-draw', 2, ['a', 'b'], [[A, A]] * 2, draw=True)
        H('3', 2, ['a', 'b', 'a'], [[A, A]] * 3, draw=True)
        H('3-1', 3, ['b', 'a', 'b'], [[A]] * 3, draw=True)
        H('4', 2, ['a', 'b', 'b', 'a'], [[A]] * 4)
        H('4-3', 2, ['1', '10', '11', '1'], [[A], [A], [1], [A]], draw=True)
        H('long', 12, ['a', 'a', 'b'], [[A, A], [A, A], [1, 11]], draw=True)
        H('long2', 11, ['a', 'a'], [[A, A, A], [1, 10, 0]])
        H('ten', 10, ['a', 'a'], [[A, A], [9, 1]])
        H('chan', 3, ['a', 'a', 'b'], [[A, 'real'], [A, 'real'], [A, 'real']], chans=[0])
        H('chan-rev', 3, ['a', 'a'], [[A, 'real', A], [A, 'real', A]], chans=[2, 0], draw=True)
        H('chan-mid', 12, ['a', 'a'], [['real', A, A], ['real', A, A]], chans=[1, 2])
        H('keep', 2, ['a', 'b', 'a'], [[A, A]] * 3, keep=['a'])
        H('keep-2', 2, ['a', 'b', 'c'], [[A]] * 3, keep=['c', 'b'], draw=True)
        H('keep-chan', 2, ['a', 'b', 'a'], [['real', A]] * 3, keep=['b', 'a'], chans=[1])
        H('keep-prefix', 2, ['1', '11', '1'], [[A]] * 3, keep=['11'])
        H('keep-none', 2, ['a', 'b'], [[A]] * 2, keep=['z'])
        H('float', 2, ['a', 'b'], [['float', 'float']] * 2)
        def K(nm, L, initial, values, combis, **k): add('corr-%s-%s' % (nm, s), correlations, L=L, left=left, initial=initial, values=values, combis=combis, **k)
        K('1', 3, ['a'], [[A, A]], [(0, 1)])
        K('2', 2, ['a', 'a'], [[A, A]] * 2, [(0, 1), (1, 0)], draw=True)
        K('3', 2, ['a', 'b', 'a'], [[A, A]] * 3, [(0, 1)], draw=True)
        K('three', 2, ['a', 'a'], [[A, A, A]] * 2, [(0, 1), (1, 2), (2, 0)], draw=True)
        K('three-3', 3, ['a', 'a'], [[A, A, A], [A, 1, A]], [(0, 2), (1, 2)])
        K('four', 2, ['a', 'a'], [[A, A, A, A], [0, A, 1, A]], [(0, 1), (2, 3), (0, 3)])
        K('long', 12, ['a', 'a'], [[A, A], [A, 1]], [(0, 1)])
        K('long3', 11, ['a', 'a'], [[A, A, A], [10, A, 1]], [(0, 1), (2, 1)], draw=True)
        K('ten', 10, ['a', 'a'], [[A, A, A], [9, A, 1]], [(0, 1), (2, 1)])
        K('setting', 2, ['a', 'a'], [[A, A, 'real'], [1, A, 'real']], [(0, 1)])
        K('setting-first', 2, ['a', 'b'], [['real', A, A], ['real', A, 1]], [(1, 2)])
        K('keep', 2, ['a', 'b', 'a'], [[A, A]] * 3, [(0, 1)], keep=['a'])
        K('keep-2', 2, ['1', '11', '111'], [[A, A]] * 3, [(0, 1)], keep=['11', '1'], draw=True)
        K('same', 2, ['a', 'a'], [[A, A]] * 2, [(0, 0), (1, 1)])
        for key in ('probability', 'correlation'):
            add('dict-%s-1-%s' % (key, s), from_dict, key=key, initial=['a', 'b'], outcomes=[['x', 'y'], ['x', 'y']])
            add('dict-%s-2-%s' % (key, s), from_dict, key=key, initial=['a', 'b', 'c'], outcomes=[['x', 'y', 'z'], ['z', 'x', 'y'], ['y', 'x', 'z']])
            add('ns-dict-%s-%s' % (key, s), from_dict, key=key, initial=['a', 'b', 'c'], outcomes=[['x', 'y', 'z'], ['z', 'x', 'y'], ['y', 'x', 'z']], old=True)
        add('ns-corr-1-%s' % s, ns_corr, L=2, left=left, outcomes=[(1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 1, 0), (0, 1, 0, 1)], combis=[(0, 2), (1, 3), (0, 1), (0, 3)])
        add('ns-corr-2-%s' % s, ns_corr, L=3, left=left, outcomes=[(2, 0, 1), (1, 1, 1), (0, 2, 2)], combis=[(0, 1), (2, 0), (1, 2)])
        add('ns-corr-3-%s' % s, ns_corr, L=11, left=left, outcomes=[(10, 1, 0), (1, 10, 1), (1, 1, 10)], combis=[(0, 1), (2, 0), (1, 2)])
        add('ns-corr-one-%s' % s, ns_corr, L=12, left=left, outcomes=[(11, 1, 0)], combis=[(0, 1), (2, 2)])
        for kind in ('width', 'delay', 'seq'): add('photons-%s-%s' % (kind, s), photons, left=left, kind=kind)
        add('photons-long-%s' % s, photons, left=left, kind='delay', L=12)
    return out
