"""C03  named optical gates realise their documented transformation"""
import itertools
from symx.runner import Case
from . import ref, gates
META = dict(bounds='Fock length 2..4, 2..5 channels, channel choices listed per case, all angles, all splitting ratios, all input amplitudes of the listed support',
            outside='more channels, larger Fock lengths; components whose two mixed channels hold length_of_fock_state photons or more are required to pass unchanged (C01)')

def named(h, g, L, n, combos, left=True, full=False):
    c = h.circuit(L, n, left=left, full=full)
    refs = gates.build(h, c, g)
    amps = h.box(combos)
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, [dict(amps=amps)]))
    st = out.get_state('st0')
    h.eq_amps('amp', h.amps(st, c), gates.apply(h, amps, refs, L))
    h.check_state('state', st, c)

def single(h, g, L, n, start, cross, left=True):
    """one photon, probabilities of staying and crossing"""
    c = h.circuit(L, n, left=left)
    x, y = gates.rt(h, 0)
    if g == 'generic': c.mix_generic_refl_transm(start, cross, reflection=x * x, transmission=y * y)
    elif g == 'generic2': c.mix_generic_refl_transm(cross, start, reflection=x * x, transmission=y * y)
    else:
        c.mix_50_50(start, cross); x = y = h.sqrt(gates.Fraction(1, 2) if h.sym else .5)
    v = lambda k: tuple(1 if i == k else 0 for i in range(n))
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, [dict(amps={v(start): 1})]))
    got = {k: h.abs2(a) for k, a in h.amps(out.get_state('st0'), c).items()}
    h.eq('stays', got.get(v(start), 0), x * x); h.eq('crosses', got.get(v(cross), 0), y * y)
    h.true('nothing else', set(got) <= {v(start), v(cross)})

def reject(h, r, t):
    c = h.circuit(2, 2)
    h.raises('sum of reflection and transmission must be one', c.mix_generic_refl_transm, 0, 1, reflection=r, transmission=t)

def reject_sym(h):
    c = h.circuit(2, 2)
    r, t = h.real('r', 0, 1), h.real('t', 0, 1)
    s = r + t - 1
    h.assume(s * s > gates.Fraction(1, 10**6) if h.sym else s * s > 1e-6)
    h.raises('sum of reflection and transmission must be one', c.mix_generic_refl_transm, 0, 1, reflection=r, transmission=t)

def defaults(h, gate, kw, left):
    """arguments left out take the values of the documented signature: channels 0, 1 (then 2, 3), angles 0, no reflection"""
    L, n = 3, 5
    c = h.circuit(L, n, left=left)
    a = h.angle('a'); x, y = gates.rt(h, 0)
    val = dict(a=a, r=x * x, t=y * y)
    getattr(c, gate)(**{k: val.get(v, v) if isinstance(v, str) else v for k, v in kw.items()})
    g = lambda k, d: a if kw.get(k) == 'a' else kw.get(k, d)
    hh, v = kw.get('channel_horizontal', 0), kw.get('channel_vertical', 1)
    A, B = kw.get('input_channels_a', (0, 1)), kw.get('input_channels_b', (2, 3))
    f1, f2 = kw.get('first_channel', 0), kw.get('second_channel', 1)
    cs, sn = (x, y) if 'reflection' in kw else (0, 1)
    pi = h.pi
    refs = {'wave_plate': lambda: gates.wp(h, hh, v, g('theta', 0), g('phi', 0)),
            'half_wave_plate': lambda: gates.wp(h, hh, v, g('angle', 0), pi), 'half_wave_plate_45': lambda: gates.wp(h, hh, v, pi / 4, pi), 'half_wave_plate_225': lambda: gates.wp(h, hh, v, pi / 8, pi),
            'quarter_wave_plate': lambda: gates.wp(h, hh, v, g('angle', 0), pi / 2), 'quarter_wave_plate_45': lambda: gates.wp(h, hh, v, pi / 4, pi / 2), 'quarter_wave_plate_225': lambda: gates.wp(h, hh, v, pi / 8, pi / 2),
            'phase_shift_single_channel': lambda: [('phase', kw.get('channel_for_shift', 0), g('phase_shift', 0))],
            'swap': lambda: [(f1, f2, [[0, 1], [1, 0]])], 'mix_50_50': lambda: gates.mixer(h, f1, f2, *[h.sqrt(gates.Fraction(1, 2) if h.sym else .5)] * 2),
            'mix_generic_refl_transm': lambda: gates.mixer(h, f1, f2, cs, sn), 'non_polarizing_beamsplitter': lambda: gates.mixer(h, A[0], B[0], cs, sn) + gates.mixer(h, A[1], B[1], cs, sn),
            'polarizing_beamsplitter': lambda: [(A[1], B[1], [[0, 1], [1, 0]])],
            'non_polarizing_50_50_beamsplitter': lambda: [m for q in (0, 1) for m in gates.mixer(h, A[q], B[q], *[h.sqrt(gates.Fraction(1, 2) if h.sym else .5)] * 2)]}[gate]()
    amps = h.box([tuple(int(i == k) for i in range(n)) for k in range(n)] + [(1, 1, 0, 0, 0), (0, 0, 2, 0, 0)])
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, [dict(amps=amps)]))
    h.eq_amps('amp', h.amps(out.get_state('st0'), c), gates.apply(h, amps, refs, L))

def few(h, L, n, left):
    """nodes on channels the circuit does not have are refused and not added"""
    c = h.circuit(L, n, left=left)
    for f, kw in ((c.polarizing_beamsplitter, {}), (c.non_polarizing_50_50_beamsplitter, {}), (c.non_polarizing_beamsplitter, {}), (c.wave_plate, dict(channel_vertical=n)), (c.wave_plate, dict(channel_horizontal=n)), (c.half_wave_plate, dict(channel_vertical=n)), (c.quarter_wave_plate, dict(channel_horizontal=n)),
                  (c.swap, dict(second_channel=n)), (c.swap, dict(first_channel=n)), (c.mix_50_50, dict(second_channel=n)), (c.mix_generic_refl_transm, dict(first_channel=n)), (c.phase_shift_single_channel, dict(channel_for_shift=n, phase_shift=1))):
        h.raises('%s%s' % (f.__name__, kw), f, **kw)
    h.true('no nodes', len(c.node_list) == 0, c.node_list)

DEFAULTS = [('wave_plate', {}), ('wave_plate', dict(theta='a')), ('wave_plate', dict(phi='a')), ('wave_plate', dict(theta='a', phi=.5)), ('wave_plate', dict(channel_horizontal=2, phi='a')), ('wave_plate', dict(channel_vertical=2, phi='a')),
    ('half_wave_plate', {}), ('half_wave_plate', dict(angle='a')), ('half_wave_plate', dict(channel_vertical=4)), ('half_wave_plate_45', {}), ('half_wave_plate_225', {}), ('half_wave_plate_225', dict(channel_horizontal=3)), ('half_wave_plate_45', dict(channel_vertical=3)),
    ('quarter_wave_plate', {}), ('quarter_wave_plate', dict(angle='a')), ('quarter_wave_plate', dict(channel_horizontal=4)), ('quarter_wave_plate_45', {}), ('quarter_wave_plate_225', {}), ('quarter_wave_plate_45', dict(channel_vertical=2)), ('quarter_wave_plate_225', dict(channel_horizontal=2)),
    ('phase_shift_single_channel', {}), ('phase_shift_single_channel', dict(phase_shift='a')), ('phase_shift_single_channel', dict(channel_for_shift=3)),
    ('swap', {}), ('swap', dict(first_channel=3)), ('swap', dict(second_channel=3)), ('mix_50_50', {}), ('mix_50_50', dict(first_channel=2)), ('mix_50_50', dict(second_channel=4)),
    ('mix_generic_refl_transm', {}), ('mix_generic_refl_transm', dict(reflection='r', transmission='t')), ('mix_generic_refl_transm', dict(first_channel=3)),
    ('non_polarizing_beamsplitter', {}), ('non_polarizing_beamsplitter', dict(reflection='r', transmission='t')), ('non_polarizing_beamsplitter', dict(input_channels_b=(4, 2))),
    ('polarizing_beamsplitter', {}), ('polarizing_beamsplitter', dict(input_channels_a=(3, 0), input_channels_b=(2, 4))), ('polarizing_beamsplitter', dict(input_channels_b=(4, 2))), ('non_polarizing_50_50_beamsplitter', {}), ('non_polarizing_50_50_beamsplitter', dict(input_channels_a=(0, 4)))]

def cases(tier, seed):
    out = []
    for j, (nm, kw) in enumerate(DEFAULTS): out.append(Case('defaults-%d-%s' % (j, nm), defaults, gate=nm, kw=kw, left=j % 2 == 0))
    for left in (True, False):
        for L, n in ((2, 2), (3, 3)): out.append(Case('few-%d%d-%s' % (L, n, 'l' if left else 'r'), few, L=L, n=n, left=left))
    def add(g, L, n, combos, left=True, full=False, tier='quick'):
        out.append(Case('%s-%s-L%d-n%d-%s%s' % (g[0], ''.join(map(str, g[1:])), L, n, 'l' if left else 'r', 'F' if full else 'R'), named, tier=tier, g=g, L=L, n=n, combos=combos, left=left, full=full))
    two = ['wave_plate', 'half', 'half45', 'half225', 'quarter', 'quarter45', 'quarter225', 'swap', 'mix50', 'generic']
    k = 0
    for g in two:
        for pair in itertools.permutations(range(2), 2): 
            for left in (True, False): add((g,) + pair, 3, 2, ref.combos(3, 2, 4), left, left)
        for pair in itertools.permutations(range(3), 2):
            k += 1
            add((g,) + pair, 3, 3, ref.combos(3, 3, 2) + [(2, 1, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2)], k % 2 == 0, k % 3 == 0)
        for pair in itertools.permutations(range(4), 2):
            k += 1
            add((g,) + pair, 2, 4, ref.combos(2, 4, 4), k % 2 == 0, k % 3 == 0, 'quick' if k % 2 else 'thorough')
            add((g,) + pair, 4, 4, [(1, 2, 0, 1), (2, 0, 1, 0), (0, 1, 1, 2), (3, 3, 3, 3), (0, 0, 3, 1)], k % 2 == 1, False, 'thorough')
        for pair in ((0, 1), (1, 0)): add((g,) + pair, 4, 2, ref.combos(4, 2, 3), pair[0] == 0, False, 'thorough' if g in ('wave_plate', 'generic') else 'quick')
    for L, n in ((2, 2), (3, 2), (3, 3), (2, 4), (4, 3)):
        for ch in range(n):
            for left in (True, False):
                k += 1
                add(('phase', ch), L, n, ref.combos(L, n, 99) if L ** n < 30 else ref.combos(L, n, 3) + [(3,) * n], left, k % 2 == 0)
    add(('phase', 1), 11, 2, [(3, 7), (10, 0), (0, 9), (10, 10), (1, 1)], False)
    add(('swap', 1, 0), 11, 2, [(3, 7), (10, 0), (0, 9), (5, 5), (1, 1)], False)
    four = ['pbs', 'npbs', 'npbs50']
    for g in four:
        for j, p in enumerate(((0, 1, 2, 3), (2, 3, 0, 1), (0, 2, 1, 3), (3, 1, 0, 2), (1, 0, 3, 2), (3, 2, 1, 0))):
            add((g,) + p, 2, 4, ref.combos(2, 4, 4), j % 2 == 0, j % 3 == 0)
            add((g,) + p, 3, 4, ref.combos(3, 4, 1) + [(2, 0, 0, 0), (0, 1, 0, 1), (1, 0, 1, 0), (1, 0, 0, 1), (2, 2, 0, 1)], j % 2 == 1, False)
        for p in ((4, 1, 0, 2), (1, 3, 4, 0)): add((g,) + p, 2, 5, ref.combos(2, 5, 2), p[0] == 4, False)
    for g in ('generic', 'generic2', 'mix50'):
        for L, n, a, b, left in ((2, 2, 0, 1, True), (2, 2, 1, 0, False), (3, 3, 2, 0, True), (3, 4, 1, 3, False)):
            out.append(Case('single-%s-L%d-n%d-%d%d' % (g, L, n, a, b), single, g=g, L=L, n=n, start=a, cross=b, left=left))
    out.append(Case('reject', reject_sym))
    return out
