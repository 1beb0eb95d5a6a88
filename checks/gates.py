"""Reference semantics of the named optical gates: each as a list of (a, b, 2x2 matrix) or ('phase', channel, angle)."""
from fractions import Fraction
from . import ref

def wp(h, a, b, theta, phi): return [(a, b, ref.wave_plate(h, theta, phi))]
def mixer(h, a, b, r, t):
    """stays with amplitude sqrt(r) (second channel: -sqrt(r)), crosses with amplitude sqrt(t)"""
    return [(a, b, [[r, t], [t, -1 * r]])]

def build(h, c, g, k=0):
    """put gate g on circuit c; returns the reference list.  k makes the parameter names of repeated gates distinct"""
    kind, ch = g[0], g[1:]
    pi = h.pi
    if kind == 'wave_plate':
        th, ph = h.angle('theta%d' % k), h.angle('phi%d' % k)
        c.wave_plate(ch[0], ch[1], theta=th, phi=ph); return wp(h, ch[0], ch[1], th, ph)
    if kind == 'half':
        th = h.angle('theta%d' % k); c.half_wave_plate(ch[0], ch[1], angle=th); return wp(h, ch[0], ch[1], th, pi)
    if kind == 'half45': c.half_wave_plate_45(ch[0], ch[1]); return wp(h, ch[0], ch[1], pi / 4, pi)
    if kind == 'half225': c.half_wave_plate_225(ch[0], ch[1]); return wp(h, ch[0], ch[1], pi / 8, pi)
    if kind == 'quarter':
        th = h.angle('theta%d' % k); c.quarter_wave_plate(ch[0], ch[1], angle=th); return wp(h, ch[0], ch[1], th, pi / 2)
    if kind == 'quarter45': c.quarter_wave_plate_45(ch[0], ch[1]); return wp(h, ch[0], ch[1], pi / 4, pi / 2)
    if kind == 'quarter225': c.quarter_wave_plate_225(ch[0], ch[1]); return wp(h, ch[0], ch[1], pi / 8, pi / 2)
    if kind == 'phase':
        al = h.angle('alpha%d' % k); c.phase_shift_single_channel(channel_for_shift=ch[0], phase_shift=al); return [('phase', ch[0], al)]
    if kind == 'swap': c.swap(ch[0], ch[1]); return [(ch[0], ch[1], [[0, 1], [1, 0]])]
    if kind == 'mix50':
        s = h.sqrt(Fraction(1, 2) if h.sym else .5)
        c.mix_50_50(ch[0], ch[1]); return mixer(h, ch[0], ch[1], s, s)
    if kind in ('generic', 'npbs'):
        # reflection = cos^2 t, transmission = sin^2 t for any t in [0, pi/2]
        cos, sin = rt(h, k)
        if kind == 'generic':
            c.mix_generic_refl_transm(ch[0], ch[1], reflection=cos * cos, transmission=sin * sin); return mixer(h, ch[0], ch[1], cos, sin)
        c.non_polarizing_beamsplitter((ch[0], ch[1]), (ch[2], ch[3]), reflection=cos * cos, transmission=sin * sin)
        return mixer(h, ch[0], ch[2], cos, sin) + mixer(h, ch[1], ch[3], cos, sin)
    if kind == 'pbs':
        c.polarizing_beamsplitter((ch[0], ch[1]), (ch[2], ch[3])); return [(ch[1], ch[3], [[0, 1], [1, 0]])]
    if kind == 'npbs50':
        s = h.sqrt(Fraction(1, 2) if h.sym else .5)
        c.non_polarizing_50_50_beamsplitter((ch[0], ch[1]), (ch[2], ch[3])); return mixer(h, ch[0], ch[2], s, s) + mixer(h, ch[1], ch[3], s, s)
    raise ValueError(kind)

def rt(h, k):
    """(cos, sin) of an angle in the first quadrant as non-negative reals with cos^2+sin^2=1"""
    if h.sym:
        x = h.real('r%d' % k, 0, 1)
        y = h.sqrt(1 - x * x)
        return x, y
    x = h.real('r%d' % k, 0, 1)
    return x, max(0.0, 1 - x * x) ** .5

def apply(h, amps, refs, L):
    for r in refs:
        if r[0] == 'phase': amps = {v: a * h.exp(h.I * (r[2] * v[r[1]])) for v, a in amps.items()}
        else: amps = ref.boson(h, amps, r[0], r[1], r[2], L)
    return amps
