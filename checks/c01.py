"""C01  bosonic linear-optics law"""
import itertools
from fractions import Fraction
from symx.runner import Case
from . import ref
META = dict(bounds='Fock length 2..4 (5 thorough), 2..4 channels (plus 11/12-level encodings), every ordered channel pair, all input amplitudes of the listed support, all angles / all complex matrix entries in the unit box',
            outside='more channels, larger Fock lengths, zero-threshold effects (the threshold tends to 0)')

def law(h, L, n, pair, combos, left, full, kind, inner=None):
    a, b = pair
    c = h.circuit(L, n, left=left, full=full)
    if kind == 'matrix':
        M = [[h.cplx('m%d%d' % (i, j)) for j in range(2)] for i in range(2)]
        c.custom_optical_node(matrix_optical=mat(h, M), optical_channels=[a, b], node_type='optical')
    elif kind == 'rmatrix':
        M = [[h.real('m%d%d' % (i, j), Fraction(-7, 10), Fraction(7, 10)) for j in range(2)] for i in range(2)]
        c.custom_optical_node(matrix_optical=mat(h, M), optical_channels=[a, b], node_type='optical')
    elif kind == 'plate':
        th, ph = h.angle('theta'), h.angle('phi')
        c.wave_plate(a, b, theta=th, phi=ph); M = ref.wave_plate(h, th, ph)
    elif kind == 'phase+plate':
        # two cooperating nodes: a phase on a, then a plate
        th, ph, al = h.angle('theta'), h.angle('phi'), h.angle('alpha')
        c.phase_shift_single_channel(channel_for_shift=a, phase_shift=al)
        c.wave_plate(a, b, theta=th, phi=ph); M = ref.wave_plate(h, th, ph)
    amps = h.box(combos)
    col = h.collection(c, [dict(amps=amps)])
    out = c.evaluate_circuit(collection_of_states_input=col)
    got = h.amps(out.get_state('st0'), c)
    if kind == 'phase+plate': amps = {v: x * h.exp(h.I * al * v[a]) for v, x in amps.items()}
    h.eq_amps('amp', got, ref.boson(h, amps, a, b, M, L))

def mat(h, M):
    import numpy as np
    if h.sym:
        from symx import shims
        return shims.array(M)
    return np.array(M, dtype=np.cdouble)

def two_nodes(h, L, n, pairs, combos, left, full):
    """two matrices on overlapping channels, second after the first"""
    c = h.circuit(L, n, left=left, full=full)
    Ms = []
    for k, (a, b) in enumerate(pairs):
        M = [[h.real('m%d%d%d' % (k, i, j), Fraction(-7, 10), Fraction(7, 10)) for j in range(2)] for i in range(2)]
        c.custom_optical_node(matrix_optical=mat(h, M), optical_channels=[a, b], node_type='optical'); Ms.append(M)
    amps = h.box(combos)
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, [dict(amps=amps)]))
    want = amps
    for (a, b), M in zip(pairs, Ms): want = ref.boson(h, want, a, b, M, L)
    h.eq_amps('amp', h.amps(out.get_state('st0'), c), want)

def cases(tier, seed):
    out = []
    def add(L, n, pair, combos, left, full, kind, tier='quick', tag=''):
        out.append(Case('law-%s-L%d-n%d-%d%d-%s%s%s' % (kind, L, n, pair[0], pair[1], 'l' if left else 'r', 'F' if full else 'R', tag), law, tier=tier,
                        L=L, n=n, pair=pair, combos=combos, left=left, full=full, kind=kind))
    # two channels: complete superpositions, both conventions, both evaluation modes
    for pair in itertools.permutations(range(2), 2):
        for left in (True, False):
            for full in (True, False):
                add(2, 2, pair, ref.combos(2, 2, 2), left, full, 'matrix')
                add(3, 2, pair, ref.combos(3, 2, 4), left, full, 'plate')
                add(3, 2, pair, ref.combos(3, 2, 4), left, full, 'matrix')
                add(4, 2, pair, ref.combos(4, 2, 6), left, full, 'rmatrix')
                add(4, 2, pair, ref.combos(4, 2, 3), left, full, 'plate', tier='thorough')
                add(4, 2, pair, ref.combos(4, 2, 3), left, full, 'matrix', tier='thorough')
                add(5, 2, pair, ref.combos(5, 2, 8), left, full, 'rmatrix', tier='thorough')
    # more channels: every ordered pair
    for k, pair in enumerate(itertools.permutations(range(3), 2)):
        for left, full in ((True, True), (True, False), (False, True), (False, False)):
            add(2, 3, pair, ref.combos(2, 3, 3), left, full, 'matrix')
            add(3, 3, pair, ref.combos(3, 3, 6), left, full, 'rmatrix', tier='quick' if (k + left + 2 * full) % 2 == 0 else 'thorough')
            add(3, 3, pair, ref.combos(3, 3, 3), left, full, 'plate', tier='quick' if (k + left) % 3 == 0 else 'thorough')
    for k, pair in enumerate(itertools.permutations(range(4), 2)):
        for left, full in ((True, False), (False, True), (True, True), (False, False)):
            add(2, 4, pair, ref.combos(2, 4, 4), left, full, 'plate', tier='quick' if full != left else 'thorough')
            add(3, 4, pair, ref.combos(3, 4, 2) + [(2, 2, 1, 0), (0, 1, 2, 2), (1, 2, 0, 2)], left, full, 'rmatrix', tier='quick' if not full and left == (k % 2 == 0) else 'thorough')
    for pair in ((0, 4), (4, 0), (3, 1), (2, 4)): add(2, 5, pair, ref.combos(2, 5, 2), pair[0] % 2 == 0, False, 'rmatrix')
    # two digits per channel
    for pair, left in (((0, 1), True), ((1, 0), False), ((0, 1), False)):
        add(11, 2, pair, [(3, 7), (10, 0), (0, 9), (10, 3), (5, 6), (1, 1), (0, 0)], left, False, 'rmatrix')
    add(12, 3, (2, 0), [(1, 10, 1), (0, 11, 2), (2, 0, 0)], False, False, 'rmatrix', tier='thorough')
    # a phase before the plate on the same channels; two matrices on overlapping channels
    for pair in ((0, 1), (1, 2), (2, 0), (2, 1)):
        for left, full in ((True, False), (False, True)): add(2, 3, pair, ref.combos(2, 3, 3), left, full, 'phase+plate')
    for j, pairs in enumerate((((0, 1), (1, 2)), ((2, 0), (0, 1)), ((1, 2), (2, 0)), ((2, 1), (1, 0)))):
        for left, full in ((True, False), (False, True), (True, True)):
            out.append(Case('two-%d%s%s' % (j, 'l' if left else 'r', 'F' if full else 'R'), two_nodes, L=3, n=3, pairs=pairs, combos=ref.combos(3, 3, 2) + [(2, 2, 0), (1, 2, 1)], left=left, full=full))
    return out
