"""C09  shift, controlled shift and coupling: modular arithmetic"""
import itertools
from symx.runner import Case
from . import ref, prog
META = dict(bounds='Fock length 2..5 and 11 (two digits per channel), 2..4 optical channels, all ordered channel pairs and chained lists of up to 4 pairs, shift amounts 0..2L+1, symbolic strength in [0,1], symbolic amplitudes of states with up to the full basis (single-step cases) or 5 components',
            outside='more channels, longer lists, more components')

def comps(L, n, m=5):
    """a spread of basis states incl. corners"""
    B = list(itertools.product(range(L), repeat=n))
    if len(B) <= m: return B
    return [B[(i * (len(B) - 1)) // (m - 1)] for i in range(m)]

def perm(h, L, n, node, left, full, cb=None, reps=1, two=False):
    c = h.circuit(L, n, c=1, left=left, full=full)
    f = [prog.put(h, c, node, L) for _ in range(reps)]
    ss = [prog.st(h.box(cb or comps(L, n), 'x'), [h.real('k')], h.real('P', 0, 1, pos=True), initial='a')]
    if two: ss.append(prog.st(h.box(comps(L, n, 3)[1:], 'y'), [h.real('k2')], h.real('P2', 0, 1, pos=True), initial='b'))
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    prog.match(h, 'out', out, c, prog.run(f, ss))

def both(h, L, n, node, left):
    """matrix and direct variant: identical results, also when applied one after the other"""
    k = node[0]
    ss = [prog.st(h.box(comps(L, n), 'x'), initial='a')]
    res = []
    for kind in (k, k + '_direct'):
        c = h.circuit(L, n, left=left); prog.put(h, c, (kind,) + node[1:], L)
        out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id') for s in ss]))
        res.append(h.amps(out.get_state(initial_state='a'), c))
    h.true('components', set(res[0]) == set(res[1]), (sorted(res[0]), sorted(res[1])))
    h.eq_amps('same', res[0], res[1])

def coup(h, amps, ctrl, targ, s, L):
    rs, rt = h.sqrt(s), h.sqrt(1 - s)
    for c, t in zip(ctrl, targ):
        o = {}
        def add(k, v): o[k] = o[k] + v if k in o else v
        for v, a in amps.items():
            if v[c] == 0: add(v, a); continue
            add(v, a * rt); add(v[:t] + ((v[t] + v[c]) % L,) + v[t + 1:], a * rs)
        amps = o
    return amps

def coupling(h, L, n, ctrl, targ, strength, left, full, cb=None, prob=False):
    s = h.real('s', 0, 1) if strength is None else strength
    c = h.circuit(L, n, left=left, full=full)
    c.channel_coupling(list(ctrl), list(targ), s)
    x = h.box(cb or comps(L, n), 'x')
    out = c.evaluate_circuit(h.collection(c, [prog.spec(prog.st(x, initial='a'), 'id')])).get_state(initial_state='a')
    got = h.amps(out, c)
    h.eq_amps('coupling', got, coup(h, x, ctrl, targ, s, L))
    if strength == 0: h.eq_amps('identity', got, x)
    if strength == 1: h.eq_amps('c-shift', got, prog.cshift(x, ctrl, targ, L))

def coupling_prob(h, L, n, ctrl, targ, v, left):
    """transition probabilities from one basis state"""
    s = h.real('s', 0, 1)
    c = h.circuit(L, n, left=left)
    c.channel_coupling([ctrl], [targ], s)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(prog.st({v: 1}, initial='a'), 'id')])).get_state(initial_state='a')
    got = {k: h.abs2(a) for k, a in h.amps(out, c).items()}
    w = v[:targ] + ((v[targ] + v[ctrl]) % L,) + v[targ + 1:]
    h.eq('stay', got.pop(v, 0), 1 - s if v != w else 1)
    if v != w: h.eq('move', got.pop(w, 0), s)
    h.true('nothing else', not got, list(got))

def defaults(h, gate, kw, left, full):
    """left-out arguments: control channel 0, target channel 1, shift 0, coupling strength 0"""
    L, n = 3, 3
    c = h.circuit(L, n, left=left, full=full)
    s = h.real('s', 0, 1)
    getattr(c, gate)(**{k: s if v == 's' else v for k, v in kw.items()})
    ct, tg, by = kw.get('control_channels', [0]), kw.get('target_channels', [1]), kw.get('shift_per_channel', [0])
    x = h.box([(1, 0, 2), (2, 1, 0), (0, 1, 1), (1, 2, 2)], 'x')
    out = c.evaluate_circuit(h.collection(c, [prog.spec(prog.st(x, initial='a'), 'id')])).get_state(initial_state='a')
    if gate[0] == 's': want = prog.shift(x, tg, by, L)
    elif gate[1] == '_': want = prog.cshift(x, ct, tg, L)
    else: want = coup(h, x, ct, tg, s if 'coupling_strength' in kw else 0, L)
    h.eq_amps(gate, h.amps(out, c), want)

def rejects(h, left):
    c = h.circuit(3, 3, left=left)
    bad = [(c.c_shift, [0], [3]), (c.c_shift, [3], [0]), (c.c_shift, [-1], [0]), (c.c_shift, [0], [-1]), (c.c_shift, [1], [1]), (c.c_shift, [0, 1], [2]), (c.c_shift, [0, 2], [1, 2]),
           (c.shift, [3], [1]), (c.shift, [-1], [1]), (c.shift, [0, 1], [1]), (c.shift, [0, 3], [1, 1])]
    for f, a, b in bad:
        h.raises('%s%s%s' % (f.__name__, a, b), f, a, b)
        g = getattr(c, f.__name__ + '_direct')
        h.raises('%s%s%s' % (g.__name__, a, b), g, a, b)
        if f == c.c_shift: h.raises('channel_coupling%s%s' % (a, b), c.channel_coupling, a, b, 0.5)
    h.true('no nodes', len(c.node_list) == 0)

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    j = lambda *x: '_'.join(''.join(map(str, y)) for y in x)
    for left in (True, False):
        s = 'l' if left else 'r'
        for full in (True, False):
            t = s + ('F' if full else 'R')
            for L, n in ((2, 2), (3, 2), (4, 2), (5, 2), (2, 3), (3, 3), (2, 4), (11, 2)):
                if L == 11 and n == 2 and not (full != left): continue
                if L ** n > 60 and full == left: continue
                for d in ('', '_direct'):
                    if L <= 5:
                        for a, b in itertools.permutations(range(n), 2): add('cs%s-%d%d-%d%d-%s' % (d, L, n, a, b, t), perm, L=L, n=n, node=('c_shift' + d, (a,), (b,)), left=left, full=full, two=n == 2)
                    elif n == 2: add('cs%s-%d%d-10-%s' % (d, L, n, t), perm, L=L, n=n, node=('c_shift' + d, (1,), (0,)), left=left, full=full, cb=[(10, 10), (1, 9), (9, 10), (0, 10), (10, 0), (1, 1)])
                    for a in range(n):
                        for by in ({0, 1, L - 1, L, 2 * L + 1} if L <= 3 else {1, L - 1, L + 2} if L <= 5 else {3, 10, 12}):
                            add('sh%s-%d%d-%d+%d-%s' % (d, L, n, a, by, t), perm, L=L, n=n, node=('shift' + d, (a,), (by,)), left=left, full=full)
            for d in ('', '_direct'):
                # full basis, chained lists, repeated channels
                for L, ct, tg in ((3, (0, 1), (1, 0)), (3, (0, 0), (1, 1)), (4, (1, 0), (0, 1)), (2, (0, 1, 0), (1, 0, 1)), (3, (0, 1, 0, 1), (1, 0, 1, 0))):
                    add('chain%s-%d-%s-%s' % (d, L, j(ct, tg), t), perm, L=L, n=2, node=('c_shift' + d, ct, tg), left=left, full=full, cb=list(itertools.product(range(L), repeat=2)) if L < 4 else None)
                for L, ct, tg in ((2, (0, 1), (1, 2)), (2, (1, 0), (2, 1)), (3, (0, 1), (1, 2)), (3, (2, 0), (0, 1)), (3, (0, 0), (1, 2)), (3, (0, 1), (2, 2)), (2, (0, 1, 2), (1, 2, 0)), (2, (2, 1, 0, 2), (1, 0, 2, 0))):
                    add('chain3%s-%d-%s-%s' % (d, L, j(ct, tg), t), perm, L=L, n=3, node=('c_shift' + d, ct, tg), left=left, full=full)
                for L, n, ch, by in ((3, 2, (0, 1), (1, 2)), (3, 2, (1, 0), (2, 1)), (3, 2, (0, 0), (2, 2)), (2, 3, (2, 0, 1), (1, 3, 0)), (4, 2, (1, 1, 0), (3, 2, 1)), (3, 3, (0, 2), (1, 2))):
                    add('shl%s-%d%d-%s-%s' % (d, L, n, j(ch, by), t), perm, L=L, n=n, node=('shift' + d, ch, by), left=left, full=full, cb=list(itertools.product(range(L), repeat=2)) if n == 2 and L < 4 else None)
            for L, n, pairs in ((2, 2, None), (3, 2, None), (4, 2, [(0, 1)]), (2, 3, None), (3, 3, [(2, 0), (0, 2)])):
                for a, b in pairs or itertools.permutations(range(n), 2):
                    for st in (0, 1, None, 0.5): add('coup-%d%d-%d%d-%s-%s' % (L, n, a, b, 's' if st is None else st, t), coupling, L=L, n=n, ctrl=(a,), targ=(b,), strength=st, left=left, full=full)
            for L, n, ct, tg in ((2, 2, (0, 1), (1, 0)), (3, 2, (1, 0), (0, 1)), (2, 3, (0, 1), (1, 2)), (2, 3, (2, 0), (1, 1)), (3, 2, (0, 0), (1, 1))):
                for st in (0, 1, None): add('coupl-%d%d-%s-%s-%s' % (L, n, j(ct, tg), 's' if st is None else st, t), coupling, L=L, n=n, ctrl=ct, targ=tg, strength=st, left=left, full=full)
        for L, n, nd in ((3, 2, ('c_shift', (0, 1), (1, 0))), (4, 3, ('c_shift', (2, 0), (0, 1))), (2, 4, ('c_shift', (3, 0, 1), (0, 2, 3))), (2, 4, ('c_shift', (0, 1), (2, 3))), (3, 3, ('shift', (0, 2, 0), (1, 2, 1))), (5, 2, ('shift', (1, 0), (7, 4))), (11, 2, ('c_shift', (1, 0), (0, 1)))):
            if L ** n > 70 and not left: continue
            add('both-%d%d-%s-%s' % (L, n, j(*nd[1:]), s), both, L=L, n=n, node=nd, left=left)
        for L, n, a, b, v in ((2, 2, 0, 1, (1, 0)), (2, 2, 1, 0, (1, 1)), (3, 2, 0, 1, (2, 2)), (3, 2, 0, 1, (0, 2)), (3, 3, 2, 1, (1, 2, 2)), (4, 2, 1, 0, (3, 3)), (2, 3, 0, 2, (1, 1, 1))):
            add('prob-%d%d-%d%d-%s-%s' % (L, n, a, b, j(v), s), coupling_prob, L=L, n=n, ctrl=a, targ=b, v=v, left=left)
        add('rejects-' + s, rejects, left=left)
        for k, (nm, kw) in enumerate([(a + d, kw) for d in ('', '_direct') for a, kw in (('shift', {}), ('shift', dict(shift_per_channel=[2])), ('shift', dict(target_channels=[2])), ('c_shift', {}), ('c_shift', dict(control_channels=[2])), ('c_shift', dict(target_channels=[2])))]
                                     + [('channel_coupling', {}), ('channel_coupling', dict(coupling_strength='s')), ('channel_coupling', dict(coupling_strength='s', control_channels=[2])), ('channel_coupling', dict(coupling_strength='s', target_channels=[2]))]):
            add('defaults-%d-%s-%s' % (k, nm, s), defaults, gate=nm, kw=kw, left=left, full=k % 2 == 0)
    return out
