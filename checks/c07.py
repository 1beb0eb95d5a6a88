"""C07  measurement results are recorded faithfully and stay recorded"""
import itertools
from symx.runner import Case
from . import ref, prog
META = dict(bounds='programs of up to 6 nodes (measurement, classical, optical, shift, custom nodes) as listed plus all words of length 3 (thorough: 4) over 7 node kinds; 2..3 channels, Fock length 2..4 and 11; all amplitudes, weights, classical values and earlier histories',
            outside='longer programs, photon-resolved and PR-correlated measurement records are in C19/C20')
G = lambda *g: ('gate', g)

def inputs(h, supports, ncl, past):
    ss = []
    for j, cb in enumerate(supports):
        hist = [([h.real('h%d_%d_%d' % (j, k, i), 0, 3) for i in range(ncl)], h.real('hp%d_%d' % (j, k), 0, 1)) for k in range((past + j) % 3 if past else 0)]
        ss.append(prog.st(h.box(cb, 'x%d' % j), [h.real('c%d_%d' % (j, i), -3, 3) for i in range(ncl)], h.real('P%d' % j, 0, 1, pos=True), hist, 'in%d' % j, {'note': ['t', j], 'n': {'k': j}}))
    return ss

def program(h, L, n, nodes, supports, ncl, left, full, past=1):
    """history, classical values and carried information after the whole program; earlier stages keep theirs"""
    c, steps = prog.build(h, L, n, ncl, nodes, left, full)
    ss = inputs(h, supports, ncl, past)
    col = h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)])
    out = c.evaluate_circuit(col)
    prog.match(h, 'out', out, c, prog.run(steps, ss))
    # the same program node by node: what an earlier stage recorded is still there after all later stages
    stages = []; cur, want = col, ss
    for i in range(len(c.node_list)):
        cur = c.evaluate_circuit(cur, nodes_to_be_evaluated=[i]); want = prog.run(steps[i:i + 1], want)
        stages.append((cur, want))
    for i, (a, w) in enumerate(stages[:-1]): prog.match(h, 'stage %d afterwards' % i, a, c, w)
    prog.match(h, 'stepwise', stages[-1][0], c, stages[-1][1])

def words(h, L, n, kinds, supports, ncl, left, k):
    """every word of length k over the listed node kinds"""
    nodes = [h.choose('w%d' % i, range(len(kinds))) for i in range(k)]
    c, steps = prog.build(h, L, n, ncl, [kinds[i] for i in nodes], left, True)
    ss = inputs(h, supports, ncl, 1)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    prog.match(h, 'out', out, c, prog.run(steps, ss))

def written(h, L, n, combos, chans, wr, ncl, left):
    """written classical channels hold the photon numbers of the outcome, the others what they held"""
    c, _ = prog.build(h, L, n, ncl, [('measure', chans, wr)], left)
    s = prog.st(h.box(combos), [h.real('c%d' % i, -3, 3) for i in range(ncl)])
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'a')]))
    for t in out:
        vs = list(h.amps(t, c))
        for v in vs:
            for ch, w in zip(chans, wr): h.eq('photon number %d->%d' % (ch, w), t.classical_channel_values[w], v[ch])
        for w in range(ncl):
            if w not in wr: h.eq('untouched %d' % w, t.classical_channel_values[w], s['classical'][w])
        h.true('one entry', len(t.measurement_results) == 1)
        m = t.measurement_results[0]
        h.eq('entry', list(m['measurement_results']), list(t.classical_channel_values))
        h.eq('entry probability', m['probability'], ref.sum_([h.abs2(s['amps'][v]) for v in vs]))

def custom(h, L, n, left, full, kind):
    """custom matrix, coupling, generic function and controlled nodes after a measurement keep the record"""
    ncl = 2; h.thr_c = 2e-6
    c = h.circuit(L, n, c=ncl, left=left, full=full)
    c.measure_optical_to_classical([0], [1])
    if kind == 'matrix':
        M = [[1 if i == j else 0 for j in range(L ** n)] for i in range(L ** n)]
        import numpy as np
        c.custom_fock_state_node(np.array(M))
    elif kind == 'coupling': c.channel_coupling([0], [1], 1)
    elif kind == 'generic':
        def f(col, par):
            for s in col: s.classical_channel_values[0] = 7
            return col
        c.generic_function_on_collection(f, [], {})
    elif kind == 'cphase': c.phase_shift_single_channel_classical_control(1, 1)
    elif kind == 'shift': c.shift([1], [1])
    elif kind == 'direct': c.shift_direct([1], [1])
    c.set_classical_channels([4, 4], [0, 1])
    c.measure_optical_to_classical([1], [0])
    ss = inputs(h, [[(1, 0), (0, 1)], [(0, 1), (0, 0), (1, 1)]], ncl, 1)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    for t in out:
        s = next(x for x in ss if x['initial'] == t.initial_state)
        k = len(s['hist'])
        h.true('two more entries', len(t.measurement_results) == k + 2, t.measurement_results)
        for i, (a, p) in enumerate(s['hist']):
            h.eq('past %d' % i, list(t.measurement_results[i]['measurement_results']), a); h.eq('past p %d' % i, t.measurement_results[i]['probability'], p)
        m = t.measurement_results[k]
        h.eq('first entry, untouched channel', m['measurement_results'][0], s['classical'][0])
        o = m['measurement_results'][1]
        h.eq('first entry probability', m['probability'], ref.sum_([h.abs2(a) for v, a in s['amps'].items() if v[0] == int(o)]))
        h.eq('second entry, set channel', t.measurement_results[k + 1]['measurement_results'][1], 4)
        h.eq('second entry is the present value', list(t.measurement_results[k + 1]['measurement_results']), list(t.classical_channel_values))
        h.true('aux', h.same(dict(t.auxiliary_information), s['aux']))

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    M = lambda a, b: ('measure', a, b)
    inc = lambda cur: [x + 1 for x in cur]
    rev = lambda cur: cur[::-1]
    def inplace(cur):
        cur[0] = cur[0] * 2; return cur
    P = {
     'set-after': (2, 2, 2, [M((0,), (0,)), ('set', (5, 'w'), (0, 1)), ('set', (6,), (0,))]),
     'mms': (2, 2, 2, [M((0,), (0,)), M((1,), (1,)), ('set', (9, 9), (1, 0))]),
     'fun': (2, 2, 2, [M((0, 1), (1, 0)), ('fun', inc, (0, 1)), ('fun', rev, (0, 1)), M((1,), (1,))]),
     'inplace': (2, 2, 2, [M((1,), (0,)), ('fun', inplace, (0,)), M((0,), (1,)), ('fun', inplace, (0,))]),
     'gatemix': (2, 2, 2, [M((0,), (0,)), G('mix50', 0, 1), M((1,), (1,)), G('half', 1, 0), ('set', (3,), (0,))]),
     'shift': (3, 2, 3, [M((1,), (2,)), ('shift', (0, 1), (1, 2)), M((0, 1), (0, 1)), ('c_shift', (0,), (1,)), M((1,), (2,))]),
     'direct': (3, 2, 2, [M((1,), (1,)), ('shift_direct', (0,), (2,)), M((0,), (1,)), ('c_shift_direct', (0,), (1,)), ('fun', inc, (0, 1))]),
     'control': (2, 2, 2, [M((0,), (1,)), ('cphase', 1, 1), ('set', (4,), (1,)), M((1,), (1,)), ('cwp', 0, 1, 0, 1)]),
     'triple': (2, 3, 3, [M((2,), (0,)), M((0,), (1,)), M((1,), (2,)), ('set', (7, 8, 9), (0, 1, 2)), M((2, 1, 0), (0, 1, 2))]),
     'first-set': (2, 2, 3, [('set', (1, 2, 3), (2, 0, 1)), ('fun', inc, (0,)), M((0,), (1,)), ('set', (5,), (2,))]),
    }
    sup = {2: [[(1, 0), (0, 1)], [(0, 0), (1, 1), (1, 0)]], 3: [[(1, 0, 0), (0, 1, 1)], [(1, 1, 0), (0, 0, 1), (1, 1, 1)]]}
    i = 0
    for left in (True, False):
        s = 'l' if left else 'r'
        for nm, (L, n, ncl, nodes) in P.items():
            for full in (True, False): add('prog-%s-%s%s' % (nm, s, 'F' if full else 'R'), program, L=L, n=n, ncl=ncl, nodes=nodes, supports=sup[n], left=left, full=full, past=1 + i % 3); i += 1
        for L, n, cb in ((2, 2, [(0, 1), (1, 0), (1, 1)]), (3, 2, [(2, 0), (0, 2), (1, 1), (2, 2)]), (11, 2, [(10, 3), (3, 10), (0, 1)]), (12, 2, [(1, 11), (11, 1), (0, 11)]), (4, 3, [(3, 0, 1), (0, 3, 2), (3, 3, 3), (1, 2, 0)])):
            for ch, wr in (((0,), (2,)), ((1,), (0,)), ((1, 0), (0, 2)), ((0, 1), (2, 1)), ((0, 1), (1, 2))):
                add('written-L%d-%s-%s-%s' % (L, ''.join(map(str, ch)), ''.join(map(str, wr)), s), written, L=L, n=n, combos=cb, chans=ch, wr=wr, ncl=3, left=left)
        for kind in ('matrix', 'coupling', 'generic', 'cphase', 'shift', 'direct'):
            for full in (True, False): add('custom-%s-%s%s' % (kind, s, 'F' if full else 'R'), custom, L=2, n=2, left=left, full=full, kind=kind)
        kinds = [M((0,), (0,)), M((1, 0), (0, 1)), ('set', (5, 'w'), (1, 0)), ('fun', inplace, (0,)), G('swap', 0, 1), ('shift', (0,), (1,)), ('cphase', 0, 1)]
        add('words3-' + s, words, L=2, n=2, kinds=kinds, supports=[[(1, 0), (0, 1)], [(1, 1), (0, 0)]], ncl=2, left=left, k=3)
        add('words4-' + s, words, tier='thorough', L=2, n=2, kinds=kinds, supports=[[(1, 0), (0, 1)], [(1, 1), (0, 0)]], ncl=2, left=left, k=4)
        add('words3-L3-' + s, words, tier='thorough', L=3, n=2, kinds=kinds, supports=[[(1, 0), (0, 2)], [(1, 1), (2, 2)]], ncl=2, left=left, k=3)
    return out
