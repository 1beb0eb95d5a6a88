"""C02  optical gates conserve norm, inner products and photon number"""
import itertools
from symx.runner import Case
from . import ref, gates
META = dict(bounds='Fock length 2..4, 2..4 channels, circuits of 1..3 gates as listed, all parameters, all pairs of input states on the listed support including components at and above the cut-off',
            outside='more channels, larger Fock lengths, longer circuits')

def inner(h, a, b): return ref.sum_([h.conj(a[k]) * b[k] for k in a if k in b])

def iso(h, gs, L, n, combos, left=True, full=False):
    """inner product of any two states is unchanged (hence also every norm); photon number sectors do not mix"""
    c = h.circuit(L, n, left=left, full=full)
    for k, g in enumerate(gs): gates.build(h, c, g, k)
    x = h.box(combos, 'x'); y = h.box(combos, 'y')
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, [dict(amps=x, id='x'), dict(amps=y, id='y')]))
    gx, gy = h.amps(out.get_state('x'), c), h.amps(out.get_state('y'), c)
    h.eq('inner', inner(h, gx, gy), inner(h, x, y))
    h.eq('State.inner', out.get_state('x').inner(out.get_state('y')), inner(h, x, y))
    h.eq('norm', ref.sum_([h.abs2(a) for a in gx.values()]), ref.sum_([h.abs2(a) for a in x.values()]))
    for N in range((L - 1) * n + 1):
        h.eq('photon number %d weight' % N, ref.sum_([h.abs2(a) for k, a in gx.items() if sum(k) == N]), ref.sum_([h.abs2(a) for k, a in x.items() if sum(k) == N]))
    h.check_state('out', out.get_state('x'), c)

def sector(h, gs, L, n, N, left=True, full=False):
    """all components with N photons in: nothing with another photon number comes out"""
    c = h.circuit(L, n, left=left, full=full)
    for k, g in enumerate(gs): gates.build(h, c, g, k)
    combos = [v for v in itertools.product(range(L), repeat=n) if sum(v) == N]
    x = h.box(combos)
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, [dict(amps=x)]))
    g = h.amps(out.get_state('st0'), c)
    for k in g:
        if sum(k) != N: h.eq('leak %s' % (k,), g[k], 0)
    h.true('some output', len(g) > 0)
    h.eq('norm', ref.sum_([h.abs2(a) for a in g.values()]), ref.sum_([h.abs2(a) for a in x.values()]))

def cases(tier, seed):
    out = []
    def nm(gs): return '+'.join('%s%s' % (g[0], ''.join(map(str, g[1:]))) for g in gs)
    def add(gs, L, n, combos, left=True, full=False, tier='quick', tag=''):
        out.append(Case('iso-%s-L%d-n%d-%s%s%s' % (nm(gs), L, n, 'l' if left else 'r', 'F' if full else 'R', tag), iso, tier=tier, gs=gs, L=L, n=n, combos=combos, left=left, full=full))
    two = ['wave_plate', 'half', 'quarter', 'half45', 'half225', 'quarter45', 'quarter225', 'swap', 'mix50', 'generic']
    k = 0
    for g in two:
        for p in ((0, 1), (1, 0)):
            for full in (True, False):
                k += 1
                add([(g,) + p], 2, 2, ref.combos(2, 2, 2), k % 2 == 0, full)
                add([(g,) + p], 3, 2, ref.combos(3, 2, 4), k % 2 == 1, full)
                # one superposition over the whole basis, above the cut-off included
                add([(g,) + p], 4, 2, [(0, 1), (1, 2), (3, 0), (2, 2), (3, 1), (3, 3)], k % 2 == 0, full)
        for p in itertools.permutations(range(3), 2):
            k += 1
            add([(g,) + p], 2, 3, ref.combos(2, 3, 3), k % 2 == 0, k % 3 == 0)
            add([(g,) + p], 3, 3, [(0, 1, 0), (1, 1, 0), (2, 1, 2), (0, 2, 1), (2, 2, 2), (1, 1, 1)], k % 2 == 1, k % 3 == 0)
    for ch in range(3): add([('phase', ch)], 3, 3, [(0, 0, 0), (1, 2, 0), (2, 2, 2), (0, 2, 1), (1, 0, 2)], ch % 2 == 0)
    for j, p in enumerate(((0, 1, 2, 3), (2, 3, 0, 1), (3, 1, 0, 2))):
        for g in ('pbs', 'npbs', 'npbs50'):
            add([(g,) + p], 2, 4, ref.combos(2, 4, 2) + [(1, 1, 1, 1), (1, 1, 1, 0)], j % 2 == 0)
            add([(g,) + p], 3, 4, [(2, 0, 0, 0), (1, 2, 0, 1), (2, 2, 2, 1), (0, 1, 2, 0), (1, 0, 1, 0)], j % 2 == 1, tier='quick' if g != 'npbs' else 'thorough')
    chains = [[('wave_plate', 0, 1), ('phase', 0)], [('half', 1, 0), ('quarter', 0, 1)], [('generic', 0, 1), ('swap', 1, 0)], [('phase', 1), ('mix50', 0, 1), ('half', 0, 1)],
              [('wave_plate', 0, 1), ('wave_plate', 1, 0)]]
    for j, gs in enumerate(chains):
        for full in (True, False):
            add(gs, 2, 2, ref.combos(2, 2, 2), j % 2 == 0, full)
            add(gs, 3, 2, [(1, 0), (1, 1), (2, 0), (2, 2), (1, 2)], j % 2 == 1, full, 'quick' if j != 4 else 'thorough')
    ch3 = [[('half', 0, 1), ('half', 1, 2), ('phase', 2)], [('mix50', 2, 0), ('generic', 1, 2)], [('swap', 0, 2), ('quarter', 2, 1), ('mix50', 1, 0)]]
    for j, gs in enumerate(ch3):
        add(gs, 2, 3, ref.combos(2, 3, 3), j % 2 == 0, True); add(gs, 2, 3, ref.combos(2, 3, 3), j % 2 == 1, False)
        add(gs, 3, 3, [(1, 1, 0), (2, 0, 1), (2, 2, 2), (0, 1, 2)], j % 2 == 0, False)
    for j, gs in enumerate([[('wave_plate', 0, 1)], [('wave_plate', 1, 0)], [('generic', 0, 1)], [('mix50', 1, 0)], chains[1], chains[3]]):
        for L in (3, 4):
            for N in range(0, 2 * (L - 1) + 1):
                out.append(Case('sector-%s-L%d-N%d' % (nm(gs), L, N), sector, tier='quick' if L == 3 or j in (2, 3) else 'thorough', gs=gs, L=L, n=2, N=N, left=N % 2 == 0, full=(N + j) % 2 == 0))
    for j, gs in enumerate(ch3):
        for N in range(0, 7): out.append(Case('sector-%s-L3-N%d' % (nm(gs), N), sector, gs=gs, L=3, n=3, N=N, left=N % 2 == 0, full=(N + j) % 2 == 0))
    return out
