"""C15  bridges and compound circuits = evaluating the circuits one after the other"""
from fractions import Fraction as F
from symx.runner import Case
from . import ref, prog
META = dict(bounds='chains of 1..4 circuits with Fock lengths 2..4 and 11, 2..4 optical and 0..3 classical channels each (growing, shrinking, equal), gates with symbolic angles, measurements, classical functions and classical control before and after the bridges; 1..2 input states with 1..3 symbolic complex amplitudes, weights and classical values; compound circuits and explicit bridges, repeated evaluation, refresh, reordering and extension of the list',
    outside='nodes behind a bridge node in the same circuit, circuits with different naming conventions, photon numbers at or above the next Fock length, photon-resolved or correlated photons across a bridge')

def inputs(h, L, n, ncl, spec):
    ss = []
    for j, (i, cb) in enumerate(spec):
        amps = h.box(cb, 'x%d' % j)
        for a in amps.values(): h.nonzero(a)
        ss.append(prog.st(amps, [h.real('k%d%d' % (j, q), -3, 3) for q in range(ncl)], h.real('P%d' % j, 0, 1, pos=True), [([7] * ncl, F(1, 2) if h.sym else .5)], i, {'tag': [j]}))
    return ss

def expected(h, stages, fs, ss):
    for k, (L, n, ncl, _) in enumerate(stages):
        if k:
            L0, n0, c0 = stages[k - 1][:3]
            ss = [t for s in ss for t in prog.reshape(h, s, L0, n0, c0, L, n, ncl)]
        ss = prog.run(fs[k], ss)
    return ss

def make(h, stages, left, full):
    cs, fs = [], []
    for L, n, ncl, nodes in stages:
        c, f = prog.build(h, L, n, ncl, nodes, left, full)
        cs.append(c); fs.append(f)
    if len(stages) > 1: h.thr_c = 2e-6
    return cs, fs

def chain(h, stages, spec, left=True, full=False, how='compound'):
    cs, fs = make(h, stages, left, full)
    L, n, ncl, _ = stages[0]
    ss = inputs(h, L, n, ncl, spec)
    want = expected(h, stages, fs, ss)
    col = h.collection(cs[0], [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)])
    before = {k: h.snapshot(s) for k, s in col.items()}
    lens = [len(c.node_list) for c in cs]
    last = cs[-1]
    if how == 'bridge':
        for a, b in zip(cs[::-1][1:], cs[::-1]): a.bridge(b)
        out = cs[0].evaluate_circuit(col)
        prog.match_mixture(h, 'bridge', out, last, want)
        out = cs[0].evaluate_circuit(col)
        prog.match_mixture(h, 'again', out, last, want)
    else:
        comp = h.fsc.CompoundFockStateCircuit(list_of_circuits=list(cs), compound_circuit_name='x')
        out = comp.evaluate_circuit(col)
        prog.match_mixture(h, 'compound', out, last, want)
        h.true('circuits not modified', [len(c.node_list) for c in cs] == lens, [len(c.node_list) for c in cs])
        comp.refresh(); comp.refresh()
        out2 = comp.evaluate_circuit(collection_of_states_input=col)
        prog.match_mixture(h, 'refreshed', out2, last, want)
        h.true('circuits not modified by refresh', [len(c.node_list) for c in cs] == lens and [id(a) for a in comp.list_of_circuits] == [id(c) for c in cs])
        one = cs[0].evaluate_circuit(col)
        prog.match_mixture(h, 'first circuit alone', one, cs[0], prog.run(fs[0], ss))
    h.true('channels', out._no_of_optical_channels == stages[-1][1] and out._no_of_classical_channels == stages[-1][2] and out._length_of_fock_state == stages[-1][0],
           (out._no_of_optical_channels, out._no_of_classical_channels, out._length_of_fock_state))
    for k, s in col.items(): h.eq_snapshot('input', h.snapshot(s), before[k])

def edited(h, stages, stages2, spec, left=True):
    """changing the list and calling refresh gives the new chain; nodes added to a listed circuit count after refresh"""
    cs, fs = make(h, stages, left, False)
    L, n, ncl, _ = stages[0]
    ss = inputs(h, L, n, ncl, spec)
    col = h.collection(cs[0], [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)])
    comp = h.fsc.CompoundFockStateCircuit(list(cs))
    prog.match_mixture(h, 'before', comp.evaluate_circuit(col), cs[-1], expected(h, stages, fs, ss))
    # same circuits in another order / with repetitions
    order = stages2
    comp.list_of_circuits = [cs[k] for k in order]
    comp.refresh()
    prog.match_mixture(h, 'reordered', comp.evaluate_circuit(col), cs[order[-1]], expected(h, [stages[k] for k in order], [fs[k] for k in order], ss))
    # a node added to the listed circuits
    g = prog.put(h, cs[-1], ('gate', ('phase', 0), 99), stages[-1][0])
    fs2 = list(fs); fs2[-1] = fs[-1] + [g]
    comp.list_of_circuits = list(cs); comp.refresh()
    prog.match_mixture(h, 'node added', comp.evaluate_circuit(col), cs[-1], expected(h, stages, fs2, ss))
    g = prog.put(h, cs[0], ('gate', ('phase', 1), 98), stages[0][0])
    fs3 = [fs2[0] + [g]] + fs2[1:] if len(cs) > 1 else [fs2[0] + [g]]
    comp.refresh()
    prog.match_mixture(h, 'node added, same list', comp.evaluate_circuit(col), cs[-1], expected(h, stages, fs3, ss))
    fs = fs3
    other = h.fsc.CompoundFockStateCircuit(); other.list_of_circuits.append(cs[0])
    h.true('independent', h.fsc.CompoundFockStateCircuit().list_of_circuits == [], 'shared list')
    other.refresh()
    prog.match_mixture(h, 'one', other.evaluate_circuit(col), cs[0], expected(h, stages[:1], fs[:1], ss))

def default(h, stages, left=True):
    """no input: every basis state of the first circuit"""
    cs, fs = make(h, stages, left, False)
    L, n, ncl, _ = stages[0]
    ss = [prog.st({v: 1}, [0] * ncl, 1, [], h.name(v, L, left)) for v in h.basis(L, n)]
    want = expected(h, stages, fs, ss)
    out = h.fsc.CompoundFockStateCircuit(list(cs)).evaluate_circuit()
    prog.match_mixture(h, 'compound', out, cs[-1], want)
    for a, b in zip(cs[::-1][1:], cs[::-1]): a.bridge(b)
    prog.match_mixture(h, 'bridge', cs[0].evaluate_circuit(), cs[-1], want)

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **cfg): out.append(Case(name, fn, tier=tier, **cfg))
    cnt = [0]
    def G(*g): cnt[0] += 1; return ('gate', g, cnt[0])
    M = lambda a, b: ('measure', a, b)
    inc = lambda cur: [x + 1 for x in cur]
    one3 = [('a', [(1, 0, 0), (0, 1, 0), (0, 0, 1)])]
    P = {
     'same': ([(2, 2, 1, [G('mix50', 0, 1)]), (2, 2, 1, [G('half', 0, 1)])], [('a', [(1, 0), (0, 1)])]),
     'grow': ([(2, 2, 1, [G('half', 0, 1)]), (2, 4, 3, [G('mix50', 1, 2), G('phase', 2), M((2, 3), (1, 2))])], [('a', [(1, 0), (0, 1)])]),
     'grow2': ([(2, 2, 0, [G('phase', 1)]), (2, 3, 2, [G('half', 2, 1), M((2,), (1,)), ('fun', inc, (0,))])], [('a', [(1, 0), (0, 1)]), ('b', [(1, 1)])]),
     'shrink': ([(2, 3, 2, [G('mix50', 0, 2)]), (2, 2, 1, [G('half', 0, 1)])], one3),
     'shrink3': ([(3, 4, 3, [M((3,), (0,)), G('swap', 0, 2)]), (3, 2, 1, [G('phase', 1), M((0,), (0,))])], [('a', [(1, 0, 1, 0), (0, 1, 0, 1), (1, 0, 0, 1)])]),
     'noclass': ([(2, 2, 2, [M((0,), (1,))]), (2, 2, 0, [G('half', 0, 1)])], [('a', [(1, 0), (0, 1)])]),
     'noclass2': ([(2, 3, 2, [M((2,), (1,))]), (2, 2, 0, [G('half', 0, 1)]), (2, 3, 1, [G('swap', 0, 2), M((2,), (0,))])], [('a', [(1, 0, 0), (0, 1, 1)])]),
     'lengthen': ([(2, 2, 1, [G('swap', 0, 1)]), (4, 2, 1, [G('half', 0, 1), M((1,), (0,))])], [('a', [(1, 1), (1, 0)]), ('b', [(0, 1), (1, 1)])]),
     'shorten': ([(4, 2, 1, [G('half', 0, 1)]), (2, 2, 2, [G('phase', 0), M((1,), (1,))])], [('a', [(1, 0), (0, 1)])]),
     'digits': ([(3, 2, 1, [G('swap', 0, 1)]), (11, 2, 1, [('shift', (0,), (9,)), M((0,), (0,))])], [('a', [(1, 0), (0, 1)])]),
     'digits-down': ([(11, 2, 1, [('shift_direct', (0,), (9,))]), (3, 3, 1, [G('swap', 0, 1), M((0,), (0,))])], [('a', [(3, 2), (4, 0)])]),
     'all': ([(3, 2, 2, [G('mix50', 0, 1), M((1,), (1,))]), (4, 3, 1, [G('swap', 1, 2), ('set', (4,), (0,))]), (3, 2, 3, [('shift', (1,), (1,)), M((0,), (2,))])], [('a', [(1, 1), (2, 0)])]),
     'control': ([(2, 2, 1, [M((0,), (0,))]), (2, 3, 2, [('cphase', 1, 0), ('set', ('w',), (1,)), ('cwp', 0, 1, 1, 0)])], [('a', [(1, 0), (0, 1)])]),
     'cshift': ([(3, 3, 1, [('c_shift', (0,), (2,))]), (3, 4, 1, [('c_shift_direct', (2,), (3,)), M((3,), (0,))])], [('a', [(1, 0, 1), (0, 2, 0), (1, 1, 0)])]),
     'empty-first': ([(2, 2, 1, []), (2, 3, 1, [G('half', 0, 2)])], [('a', [(1, 0), (0, 1)])]),
     'empty-last': ([(2, 3, 2, [G('half', 0, 2), M((1,), (1,))]), (3, 2, 1, [])], [('a', [(1, 0, 0), (0, 1, 1)])]),
     'empty-mid': ([(2, 2, 1, [G('half', 0, 1)]), (3, 4, 2, []), (2, 2, 1, [G('phase', 0)])], [('a', [(1, 0), (0, 1)])]),
     'four': ([(2, 2, 1, [G('swap', 0, 1)]), (2, 3, 0, [G('half', 1, 2)]), (3, 2, 2, [G('phase', 1), M((1,), (1,))]), (2, 3, 1, [G('swap', 1, 2)])], [('a', [(1, 0), (0, 1)])]),
     'single': ([(3, 2, 1, [G('half', 0, 1), M((1,), (0,))])], [('a', [(1, 0), (0, 1)])]),
    }
    for left in (True, False):
        s = 'l' if left else 'r'
        for nm, (st, spec) in P.items():
            for how in ('compound', 'bridge'):
                add('%s-%s-%s' % (how, nm, s), chain, stages=st, spec=spec, left=left, full=(how == 'bridge') == left, how=how)
                add('%s-%s-%s-other' % (how, nm, s), chain, tier='thorough', stages=st, spec=spec, left=left, full=(how == 'bridge') != left, how=how)
        E1 = [(2, 2, 1, [G('swap', 0, 1), G('phase', 0)]), (2, 4, 3, [G('swap', 1, 2), G('phase', 2), M((2, 3), (1, 2))])]
        E2 = [(2, 3, 2, [G('swap', 0, 2), ('fun', inc, (0,))]), (2, 2, 1, [G('half', 0, 1)])]
        E3 = [(3, 2, 1, [('shift', (0,), (1,)), G('phase', 1)]), (5, 2, 2, [('c_shift', (0,), (1,)), M((1,), (0,)), ('set', (5,), (1,))])]
        E4 = [(2, 2, 1, [G('mix50', 0, 1)]), (3, 3, 1, [G('phase', 1), G('swap', 1, 2)]), (2, 2, 1, [G('phase', 0)])]
        add('edited1-' + s, edited, stages=E1, stages2=[0, 1, 0], spec=P['grow'][1], left=left)
        add('edited2-' + s, edited, stages=E2, stages2=[0, 0, 1], spec=P['shrink'][1], left=left)
        add('edited3-' + s, edited, stages=E3, stages2=[0, 1, 1], spec=P['lengthen'][1][:1], left=left)
        add('edited4-' + s, edited, stages=E4, stages2=[0, 2, 1], spec=P['grow'][1], left=left)
        for nm in ('same', 'grow', 'shrink', 'noclass', 'lengthen', 'empty-first'): add('default-%s-%s' % (nm, s), default, stages=P[nm][0], left=left)
    return out
