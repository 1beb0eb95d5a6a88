"""C06  measurement: Born rule and collapse"""
import itertools
from symx.runner import Case
from . import ref, prog
META = dict(bounds='Fock length 2..4, 11 and 12 (photon numbers of two digits), 2..4 optical channels, up to 6 components per state, up to 3 states per collection, every channel subset in every order for 2 and 3 channels; all complex amplitudes and all weights',
            outside='more channels / components; amplitudes exactly zero of listed components; photon-resolved and PR-correlated collections (C19, C20)')

def sup(h, combos, name='x'): return h.box(combos, name)

def one(h, L, n, combos, chans, wr, left, full, ncl=4):
    """one measurement of one state: outcomes, probabilities, collapsed components"""
    c, steps = prog.build(h, L, n, ncl, [('measure', chans, wr)], left, full)
    P = h.real('P', 0, 1, pos=True)
    s = prog.st(sup(h, combos), [h.real('c%d' % i, -5, 5) for i in range(ncl)], P)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'a')]))
    prog.match(h, 'out', out, c, prog.run(steps, [s]))
    # by definition, independent of the interpreter
    tot = 0
    for t in out:
        am = h.amps(t, c); oc = {tuple(v[i] for i in chans) for v in am}
        h.true('one outcome per state', len(oc) == 1)
        if len(oc) != 1: continue
        o = oc.pop()
        for v, a in am.items(): h.true('component of the input', v in s['amps'])
        p = ref.sum_([h.abs2(a) for v, a in s['amps'].items() if tuple(v[i] for i in chans) == o])
        h.eq('weight', t.cumulative_probability, P * p); tot = tot + t.cumulative_probability
        h.eq('norm', ref.sum_([h.abs2(a) for a in am.values()]), 1)
        vs = list(am)
        for v in vs[1:]: h.eq('common factor %s' % (v,), am[v] * s['amps'][vs[0]], am[vs[0]] * s['amps'][v])
        h.le('positive factor', 0, h.re(am[vs[0]] * h.conj(s['amps'][vs[0]])), tol=1e-6)
    h.eq('total', tot, P * ref.sum_([h.abs2(a) for a in s['amps'].values()]))
    h.true('outcomes distinct', len({tuple(next(iter(h.amps(t, c)))[i] for i in chans) for t in out}) == len(out))

def again(h, L, n, combos, chans, left, full):
    """repeating the measurement gives the same outcome with certainty and leaves the state alone"""
    k = len(chans)
    c, _ = prog.build(h, L, n, 2 * k, [('measure', chans, list(range(k))), ('measure', list(chans)[::-1], list(range(k, 2 * k)))], left, full)
    s = prog.st(sup(h, combos), [9] * (2 * k))
    first = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'a')]), nodes_to_be_evaluated=[0])
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'a')]))
    h.true('same number', len(first) == len(out))
    f = {tuple(t.classical_channel_values[:k]): t for t in first}
    for t in out:
        o = tuple(t.classical_channel_values[:k])
        h.true('same outcome', list(o) == list(t.classical_channel_values[k:])[::-1], t.classical_channel_values)
        if o not in f: h.fail('outcome'); continue
        h.eq('certain', t.measurement_results[-1]['probability'], 1)
        h.eq('weight', t.cumulative_probability, f[o].cumulative_probability)
        h.eq_amps('state', h.amps(t, c), h.amps(f[o], c))

def split(h, L, n, combos, A, B, left):
    """measuring A then B gives the outcomes and weights of measuring A and B together"""
    k, m = len(A), len(B)
    c1, _ = prog.build(h, L, n, k + m, [('measure', A, list(range(k))), ('measure', B, list(range(k, k + m)))], left)
    c2, _ = prog.build(h, L, n, k + m, [('measure', list(A) + list(B), list(range(k + m)))], left)
    s = prog.st(sup(h, combos), [0] * (k + m))
    o1, o2 = [{tuple(t.classical_channel_values): t for t in c.evaluate_circuit(h.collection(c, [prog.spec(s, 'a')]))} for c in (c1, c2)]
    h.true('outcomes', set(o1) == set(o2), (list(o1), list(o2)))
    for o in set(o1) & set(o2):
        h.eq('weight %s' % (o,), o1[o].cumulative_probability, o2[o].cumulative_probability)
        h.eq_amps('state %s' % (o,), h.amps(o1[o], c1), h.amps(o2[o], c2))

def whole(h, L, n, nodes, states, ncl, left, full):
    """gates, classical nodes and measurements together, several states in the collection"""
    c, steps = prog.build(h, L, n, ncl, nodes, left, full)
    ss = [prog.st(sup(h, cb, 'x%d' % j), [h.real('c%d_%d' % (j, i), -3, 3) for i in range(ncl)], h.real('P%d' % j, 0, 1, pos=True), initial='in%d' % j) for j, cb in enumerate(states)]
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    prog.match(h, 'out', out, c, prog.run(steps, ss))
    for j, s in enumerate(ss):
        h.eq('total %d' % j, ref.sum_([t.cumulative_probability for t in out if t.initial_state == s['initial']]), s['prob'] * ref.sum_([h.abs2(a) for a in s['amps'].values()]))

def zeros(h, L, n, combos, zero, chans, left):
    """listed components with amplitude zero do not produce outcomes of their own and do not disturb the others"""
    c, steps = prog.build(h, L, n, 4, [('measure', chans, list(range(len(chans))))], left)
    s = prog.st(sup(h, combos), [5] * 4, h.real('P', 0, 1, pos=True))
    z = dict(s, amps=dict(list({v: 0 * h.I for v in zero}.items()) + list(s['amps'].items())))
    out = list(c.evaluate_circuit(h.collection(c, [prog.spec(z, 'a')])))
    want = prog.run(steps, [s])
    h.eq('total', ref.sum_([t.cumulative_probability for t in out]), ref.sum_([w['prob'] for w in want]))
    out = [t for t in out if not h.is_zero(t.cumulative_probability)]
    prog.match(h, 'out', out, c, want)

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    two = [(0, 0), (0, 1), (1, 0), (1, 1)]
    big = [(2, 0), (0, 2), (1, 1), (2, 1), (2, 2)]
    three = [(0, 0, 1), (0, 1, 0), (1, 0, 0), (1, 1, 1), (1, 1, 0)]
    three3 = [(2, 0, 0), (0, 2, 0), (1, 1, 0), (2, 1, 2), (0, 2, 2), (2, 0, 2)]
    four = [(1, 0, 1, 0), (0, 1, 1, 0), (1, 0, 0, 1), (0, 0, 1, 1), (1, 1, 1, 1)]
    mult = [(10, 0), (0, 10), (1, 0), (10, 10), (3, 7)]
    # photon numbers that read the same when written one after the other
    wide = [(1, 11), (11, 1), (0, 11), (1, 1), (11, 11)]
    wide3 = [(1, 1, 11), (1, 11, 1), (11, 1, 1), (1, 1, 1), (0, 11, 1)]
    n_ = 0
    for left in (True, False):
        s = 'l' if left else 'r'
        for nm, L, n, cb in (('two', 2, 2, two), ('big', 3, 2, big), ('three', 2, 3, three), ('three3', 3, 3, three3), ('mult', 11, 2, mult), ('wide', 12, 2, wide), ('wide3', 12, 3, wide3), ('four', 2, 4, four)):
            subs = [p for r in range(1, n + 1) for p in itertools.permutations(range(n), r)]
            if n == 4: subs = [(0,), (3,), (2, 0), (1, 3), (3, 2, 1), (0, 1, 2, 3), (3, 1, 0, 2)]
            if L > 10: subs = [(0,), (n - 1,), (1, 0), (0, 2) if n > 2 else (0, 1)] + [(0, 1, 2), (2, 0, 1)] * (n > 2)
            for ch in subs:
                wr = list(range(4))[n_ % 2:][:len(ch)] if len(ch) < 4 else [2, 3, 1, 0]
                if n_ % 3 == 0: wr = wr[::-1]
                add('one-%s-%s-%s' % (nm, ''.join(map(str, ch)), s), one, L=L, n=n, combos=cb, chans=ch, wr=wr, left=left, full=(n_ % 2 == 0) != left)
                n_ += 1
            for ch in (subs[0], subs[-1], subs[len(subs) // 2]): add('again-%s-%s-%s' % (nm, ''.join(map(str, ch)), s), again, L=L, n=n, combos=cb, chans=ch, left=left, full=left)
        for nm, L, n, cb in (('three', 2, 3, three), ('three3', 3, 3, three3), ('four', 2, 4, four)):
            for A, B in (((0,), (2,)), ((2,), (1, 0)), ((1, 2), (0,)), ((1,), (0,))): add('split-%s-%s-%s-%s' % (nm, ''.join(map(str, A)), ''.join(map(str, B)), s), split, L=L, n=n, combos=cb, A=A, B=B, left=left)
        for nm, a in (('none', ((0,), (0,), {})), ('from', ((1,), (0,), dict(optical_channels_to_be_measured=[1]))), ('to', ((0,), (1,), dict(classical_channels_to_be_written=[1])))):
            add('default-%s-%s' % (nm, s), whole, L=3, n=2, ncl=2, nodes=[('measure',) + a], states=[[(1, 0), (0, 1), (2, 1)], [(2, 2), (1, 2)]], left=left, full=left)
        add('split-wide-' + s, split, L=12, n=2, combos=wide, A=(1,), B=(0,), left=left)
        add('zeros-two-' + s, zeros, L=2, n=2, combos=[(1, 0), (1, 1)], zero=[(0, 1), (0, 0)], chans=(0,), left=left)
        add('zeros-big-' + s, zeros, L=3, n=2, combos=[(2, 0), (1, 1), (0, 2)], zero=[(0, 1), (2, 2)], chans=(1,), left=left)
        add('zeros-three-' + s, zeros, L=2, n=3, combos=three[:2], zero=three[2:], chans=(2, 0), left=left)
        add('split-two-' + s, split, L=3, n=2, combos=big, A=(1,), B=(0,), left=left)
        for full in (True, False):
            t = s + ('F' if full else 'R')
            G = lambda *g: ('gate', g)
            add('whole-hom-' + t, whole, L=3, n=2, ncl=2, nodes=[G('mix50', 0, 1), ('measure', (1, 0), (0, 1))], states=[[(1, 1)], [(1, 0), (0, 1)], [(2, 2), (1, 2)]], left=left, full=full)
            add('whole-wp-' + t, whole, L=3, n=2, ncl=2, nodes=[G('wave_plate', 0, 1), ('measure', (1,), (1,))], states=[[(1, 0)], [(1, 1), (0, 2)]], left=left, full=full)
            add('whole-mid-' + t, whole, L=2, n=3, ncl=3, nodes=[G('mix50', 2, 0), ('measure', (2,), (1,)), G('half', 0, 1), ('measure', (1, 0), (2, 0))], states=[[(1, 0, 0), (0, 1, 0)], [(0, 0, 1)]], left=left, full=full)
            add('whole-ghz-' + t, whole, L=2, n=4, ncl=2, nodes=[('c_shift', (0,), (3,)), ('measure', (3,), (0,)), G('half225', 0, 1), ('measure', (1,), (1,))], states=[[(1, 0, 0, 0), (0, 1, 0, 0)], [(1, 1, 1, 1), (0, 0, 0, 0)]], left=left, full=full)
            add('whole-meas3-' + t, whole, L=2, n=3, ncl=1, nodes=[('measure', (0,), (0,)), ('measure', (1,), (0,)), ('measure', (2,), (0,))], states=[three[:4], [(0, 0, 0), (1, 1, 1)], [(1, 1, 0)]], left=left, full=full)
    for L, n, N in ((4, 3, 4), (5, 2, 8)):
        cb = [v for v in itertools.product(range(L), repeat=n)][::5][:9]
        for ch in [(0,), (1, 0), (n - 1,)]: add('deep-L%d-%s' % (L, ''.join(map(str, ch))), one, tier='thorough', L=L, n=n, combos=cb, chans=ch, wr=list(range(len(ch))), left=False, full=False)
    return out
