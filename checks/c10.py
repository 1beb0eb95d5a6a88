"""C10  Hamiltonian gates: product of exponentials of ladder-operator polynomials"""
import itertools, math
from fractions import Fraction as F
from symx.runner import Case
from . import ref, prog
META = dict(bounds='Fock length 2..4 (12 for a single channel), 2..3 optical channels, every ordered channel assignment, Hamiltonians of up to 3 terms and lists of up to 3 Hamiltonians; coefficients symbolic (real and complex) with every eigenvalue below about 3, wave plate angles over the period for Fock length 2 and up to 1 in absolute value otherwise (one angle symbolic, the other from a list); states below the cut-off, power series of the reference cut at 45 terms',
            outside='larger coefficients (the code sums a fixed number of terms of the power series), both wave plate angles symbolic at once, states that the truncation at the cut-off affects')
K = 45

def up(h, n): return h.sqrt(F(n) if h.sym else float(n))

def act(h, amps, ham, chans, tol=0):
    """one application of the operator polynomial; string read from left to right, character i acts on chans[i]"""
    o = {}
    for v, a in amps.items():
        for s, c in ham:
            w, f, ok = list(v), 1, True
            for ch, k in zip(chans, s):
                if k == '+': w[ch] += 1; f = f * w[ch]
                elif k == '-':
                    if w[ch] == 0: ok = False; break
                    f = f * w[ch]; w[ch] -= 1
            if not ok: continue
            x = a * c * up(h, f); w = tuple(w)
            o[w] = o[w] + x if w in o else x
    return o
def expo(h, amps, ham, chans, terms=K):
    out = dict(amps); t = amps
    for k in range(1, terms + 1):
        t = {v: a * (F(1, k) if h.sym else 1.0 / k) for v, a in act(h, t, ham, chans).items()}
        t = {v: a for v, a in t.items() if not h.is_zero(a)} if h.sym else t
        if not t: break
        for v, a in t.items(): out[v] = out[v] + a if v in out else a
    return out
def coef(h, spec):
    """number, or 'name' (real), 'i*name' (imaginary), ('name', factor)"""
    if isinstance(spec, tuple): return coef(h, spec[0]) * (spec[1] if not isinstance(spec[1], complex) else spec[1].real + spec[1].imag * h.I)
    if isinstance(spec, complex): return spec
    if not isinstance(spec, str): return spec
    if spec.startswith('i*'): return h.I * h.real(spec[2:], -1, 1)
    return h.real(spec, -1, 1)

def gate(h, L, n, chans, hams, support, left, full, terms=K, scale=1, only=None, amp=True):
    """hams: list of (list of (string, coefficient spec), operator channels); chans: circuit channels of operator channels 0,1,.."""
    h.thr_c = 1e-8
    c = h.circuit(L, n, c=1, left=left, full=full)
    vals = [([(s, coef(h, x) * scale) for s, x in ops], oc) for ops, oc in hams]
    H = [h.fsc.Hamiltonian([(s, x) for s, x in ops], list(oc)) for ops, oc in vals]
    c.hamiltonian_operator_gate(list(chans), H)
    x = h.box(support, 'x') if amp else {support[0]: 1}
    out = c.evaluate_circuit(h.collection(c, [prog.spec(prog.st(x, [5], h.real('P', 0, 1, pos=True), initial='a'), 'id')]))
    t = out.get_state(initial_state='a')
    want = x
    for ops, oc in vals: want = expo(h, want, ops, [chans[k] for k in oc], terms)
    got = h.amps(t, c)
    for v in list(want):
        if max(v) >= L: want.pop(v)
    if only is not None: got, want = ({v: a for v, a in z.items() if only(v)} for z in (got, want))
    h.eq_amps('exp(H)', got, want)
    h.check_state('state', t, c)
    h.eq('classical', list(t.classical_channel_values), [5]); h.true('one state', len(out) == 1)

def spectator(h, L, left):
    """a single operator channel set: channels not named stay as they are, whatever they hold (also at the cut-off)"""
    gate(h, L, 3, (1,), [([('+-', 'u')], (0, 0))], [(L - 1, 0, 0), (0, 0, L - 1), (L - 1, 0, L - 1)], left, False, amp=True)

def plate(h, L, n, a, b, theta, phi, support, left, full, control=False):
    """Hamiltonian wave plate = wave plate law, for all angles in the interval"""
    h.thr_c = 1e-8
    ang = lambda s: h.real(s[0], s[1], s[2]) if isinstance(s, tuple) else s
    ph = ang(phi); th = ph if theta == 'same' else ang(theta)
    c = h.circuit(L, n, c=2, left=left, full=full)
    if control == 'default': c.wave_plate_from_hamiltonian_classical_control(a, b)
    elif control: c.wave_plate_from_hamiltonian_classical_control(a, b, 1, 0)
    elif a is None: c.wave_plate_from_hamiltonian(**{k: v for k, v in (('theta', th), ('phi', ph)) if v != 0}); a, b = 0, 1
    else: c.wave_plate_from_hamiltonian(a, b, theta=th, phi=ph)
    x = h.box(support, 'x')
    t = c.evaluate_circuit(h.collection(c, [prog.spec(prog.st(x, [ph, th] if control else [1, 2], initial='a'), 'id')])).get_state(initial_state='a')
    # reference: independent power series of cos, sin, exp
    def cs(z):
        if not h.sym: return math.cos(z), math.sin(z)
        if not isinstance(z, h.num(0).__class__): return F(math.cos(z)), F(math.sin(z))
        C = S = 0; p = 1 + 0 * z
        for k in range(0, 30):
            if k % 2 == 0: C = C + p * ((-1) ** (k // 2))
            else: S = S + p * ((-1) ** (k // 2))
            p = p * z * F(1, k + 1)
        return C, S
    cth, sth = cs(th); cph, sph = cs(ph)
    R = [[cth, -1 * sth], [sth, cth]]; Rm = [[cth, sth], [-1 * sth, cth]]
    M = ref.mm(R, ref.mm([[1, 0], [0, cph + h.I * sph]], Rm))
    h.eq_amps('plate', h.amps(t, c), ref.boson(h, x, a, b, M, L))

def linear(h, L, n, chans, hams, v, w, left):
    """sum of inputs gives sum of outputs"""
    h.thr_c = 1e-8
    A, B = h.cplx('A', F(1, 3)), h.cplx('B', F(1, 3))
    c = h.circuit(L, n, left=left)
    c.hamiltonian_operator_gate(list(chans), [h.fsc.Hamiltonian(ops, oc) for ops, oc in hams])
    col = h.collection(c, [prog.spec(prog.st(x, initial=i), i) for i, x in (('s', {v: A, w: B}), ('v', {v: 1}), ('w', {w: 1}))])
    out = c.evaluate_circuit(col)
    s, p, q = (h.amps(out.get_state(initial_state=i), c) for i in 'svw')
    want = {}
    for d, f in ((p, A), (q, B)):
        for k, a in d.items(): want[k] = want[k] + a * f if k in want else a * f
    h.eq_amps('linear', s, want)

def direct(h, L, n, chans, hams, support, left, power=None):
    """the operator applied by hand, to a state and to a collection; it can be used again, and what it is applied to stays as it is"""
    h.thr_c = 1e-8
    c = h.circuit(L, n, c=1, left=left)
    vals = [([(s, coef(h, x)) for s, x in ops], oc) for ops, oc in hams]
    kw = {} if power is None else dict(power_for_exponent_taylor_expansion=power)
    op = h.fsc.QuantumOperator([h.fsc.Hamiltonian([(s, x) for s, x in ops], list(oc)) for ops, oc in vals], L, **kw)
    x, y = h.box(support, 'x'), h.box(support[:1], 'y')
    col = h.collection(c, [prog.spec(prog.st(x, [5], h.real('P', 0, 1, pos=True), initial='a'), 'id'), prog.spec(prog.st(y, [7], h.real('Q', 0, 1, pos=True), initial='b'), 'other')])
    pic = {i: h.snapshot(t) for i, t in col.items()}
    def image(v):
        for ops, oc in vals: v = expo(h, v, ops, [chans[k] for k in oc])
        return {k: a for k, a in v.items() if max(k) < L}
    for again in (0, 1):
        t = op.apply_operator_to_state(col.get_state(initial_state='a'), list(chans))
        out = op.apply_operator_to_collection(col, list(chans))
        h.true('two states', len(out) == 2, len(out))
        for lab, u, v in (('state', t, x), ('first', out.get_state(initial_state='a'), x), ('second', out.get_state(initial_state='b'), y)):
            h.eq_amps('%s exp(H) %d' % (lab, again), h.amps(u, c), image(v)); h.check_state(lab, u, c)
            h.eq('classical', list(u.classical_channel_values), [5] if v is x else [7])
            h.eq('weight', u.cumulative_probability, pic['id' if v is x else 'other']['cumulative_probability'])
        for i, u in col.items(): h.eq_snapshot('input untouched %d' % again, h.snapshot(u), pic[i])
    w = op.apply_operator_to_state(t, list(chans))
    h.eq_amps('twice', h.amps(w, c), image(image(x))); h.eq_amps('once', h.amps(t, c), image(x))

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    S = [(0, 0), (1, 0), (0, 1)]
    emb = lambda v, n, ch, bg: tuple(v[ch.index(c)] if c in ch else bg[c] for c in range(n))
    mix = lambda u: ([('+-', u), ('-+', (u, -1))], (0, 1))
    mixi = lambda u: ([('+-', 'i*' + u), ('-+', 'i*' + u)], (0, 1))
    num = lambda u, k: ([('-+' if k == 0 else '00-+'[:4], u)], (0, 0) if k == 0 else (0, 0, 1, 1))
    for left in (True, False):
        s = 'l' if left else 'r'
        for full in (True, False):
            t = s + ('F' if full else 'R')
            for a, b in ((0, 1), (1, 0)):
                g = lambda nm, L, hams, sup, **k: add('%s-%d-%d%d-%s' % (nm, L, a, b, t), gate, L=L, n=2, chans=(a, b), hams=hams, support=sup, left=left, full=full, **k)
                if full == left:
                    g('mix', 2, [mix('u')], S); g('mixi', 2, [mixi('u')], S)
                    g('mix', 3, [mix('u')], [(2, 0), (1, 1)]); g('mix', 4, [mix('u')], [(3, 0), (1, 2)], scale=F(1, 2))
                    g('num', 3, [([('-+00', 'i*u'), ('00-+', 0.75j)], (0, 0, 1, 1))], [(2, 0), (1, 2), (2, 2)], scale=F(1, 3))
                    g('asym', 3, [([('+-', 'u')], (0, 1))], [(0, 2), (1, 1)]); g('asym2', 3, [([('-+', 'u'), ('+0', 'w')], (0, 1))], [(0, 0), (1, 0)], only=lambda v: sum(v) <= 2)
                    g('order', 2, [([('+-', 'u')], (0, 1)), ([('-+', 'w')], (0, 1))], [(0, 1), (1, 0)])
                    g('order3', 3, [mix('u'), ([('-+0', (0.5, 1j))], (0, 0, 1)), ([('+-', 0.25)], (0, 1))], [(1, 0), (0, 2)], scale=F(1, 2))
                    g('own', 3, [([('-+', 'i*u')], (0, 0)), ([('-+', -0.75j)], (1, 1))], [(2, 1), (1, 2)], scale=F(1, 2)); g('own2', 3, [([('-+', 0.25j)], (1, 1)), ([('-+', 'i*u')], (0, 0))], [(2, 1), (1, 2)], scale=F(1, 2))
                    g('rev', 2, [([('-+', 'u')], (1, 0)), mix('w')], S)
                    g('create', 4, [([('+0', 'u')], (0, 1))], [(0, 0), (1, 2)]); g('create2', 3, [([('++', 'u')], (0, 1))], [(0, 0), (0, 1)])
                    g('quad', 4, [([('++0', 'u')], (0, 0, 1))], [(0, 0), (1, 1)]); g('annih', 4, [([('-0', 'u')], (0, 1))], [(3, 0), (2, 3)])
                    g('dc', 3, [([('-+-+', 'i*u')], (0, 0, 1, 1))], [(1, 2), (2, 2), (1, 1)], scale=F(1, 4)); g('anti', 3, [([('+-00', 'u')], (0, 0, 1, 1))], [(1, 0), (0, 1)], scale=F(1, 3))
            for ch in itertools.permutations(range(3), 2):
                if full != left:
                    sup = [emb(v, 3, ch, (1, 1, 1)) for v in ((1, 0), (0, 1))] + [emb((1, 0), 3, ch, (0, 0, 0))]
                    add('mix3-%d%d-%s' % (ch + (t,)), gate, L=2, n=3, chans=ch, hams=[mix('u'), ([('-+', (0.5, 1j))], (1, 1))], support=sup, left=left, full=full)
                    sup = [emb((1, 1), 3, ch, (2, 2, 2)), emb((0, 2), 3, ch, (1, 1, 1))]
                    add('mix33-%d%d-%s' % (ch + (t,)), gate, L=3, n=3, chans=ch, hams=[mix('u')], support=sup, left=left, full=full, scale=F(1, 2))
            for ch in range(3):
                if full == left:
                    sup = [tuple(k if c == ch else 2 - k for c in range(3)) for k in range(3)]
                    add('one-%d-%s' % (ch, t), gate, L=3, n=3, chans=(ch,), hams=[([('-+', 'i*u')], (0, 0)), ([('+', 'w')], (0,))], support=sup, left=left, full=full, scale=F(1, 2))
        for perm in itertools.permutations(range(3)):
            add('tri-%s-%s' % (''.join(map(str, perm)), s), gate, L=2, n=3, chans=perm, hams=[([('+-0', 'u'), ('-+0', ('u', -1))], (0, 1, 2)), ([('0+-', 0.5), ('0-+', -0.5)], (0, 1, 2))], support=[(1, 0, 0), (0, 0, 1)], left=left, full=False)
        add('multi-digit-' + s, gate, L=12, n=2, chans=(1,), hams=[([('+', 'u')], (0,))], support=[(11, 8), (0, 9)], left=left, full=False)
        add('displace-' + s, gate, L=9, n=2, chans=(1,), hams=[([('+', 'u'), ('-', ('u', -1))], (0,))], support=[(3, 0)], left=left, full=False, scale=F(1, 4), terms=24, only=lambda v: v[1] <= 3, amp=False)
        add('squeeze-' + s, gate, L=10, n=2, chans=(0,), hams=[([('++', 'u'), ('--', ('u', -1))], (0, 0))], support=[(0, 3)], left=left, full=False, scale=F(1, 16), terms=24, only=lambda v: v[0] <= 2, amp=False)
        add('plate-default-phi-' + s, plate, L=3, n=3, a=None, b=None, theta=0, phi=('p', F(-3), F(3)), support=[(2, 0, 1), (1, 1, 0)], left=left, full=left)
        add('plate-default-both-' + s, plate, L=2, n=2, a=None, b=None, theta=0.4, phi=('p', F(-3), F(3)), support=[(1, 0), (0, 1)], left=left, full=left)
        add('plate-default-control-' + s, plate, L=2, n=2, a=1, b=0, theta='same', phi=('p', F(-1), F(1)), support=[(1, 0), (0, 1)], left=left, full=left, control='default')
        add('direct-' + s, direct, L=3, n=3, chans=(2, 0), hams=[mix('u'), ([('-+', 0.5j)], (1, 1))], support=[(0, 1, 1), (1, 0, 0)], left=left)
        add('direct-own-' + s, direct, L=3, n=2, chans=(1,), hams=[([('-+', 'i*u')], (0, 0))], support=[(2, 1), (0, 2)], left=left)
        add('direct-power-' + s, direct, L=2, n=2, chans=(0, 1), hams=[mixi('u')], support=[(1, 0), (0, 0)], left=left, power=30)
        add('spectator-' + s, spectator, L=3, left=left)
        add('linear-' + s, linear, L=3, n=2, chans=(1, 0), hams=[([('+-', 0.4), ('-+', -0.3j)], (0, 1)), ([('+0', 0.1)], (0, 1))], v=(1, 1), w=(0, 2), left=left)
        pi = math.pi; T = ('t', F(-4), F(4)); P = ('p', F(-4), F(4)); T1 = ('t', F(-1), F(1)); P1 = ('p', F(-1), F(1))
        for a, b in ((0, 1), (1, 0)):
            for i, ph in enumerate((0.3, pi / 2, pi, -2.5)): add('plate-L2-t%d-%d%d-%s' % (i, a, b, s), plate, L=2, n=2, a=a, b=b, theta=T if i % 2 else T1, phi=ph, support=S, left=left, full=left)
            for i, th in enumerate((0.3, pi / 4, -2, pi / 8)): add('plate-L2-p%d-%d%d-%s' % (i, a, b, s), plate, L=2, n=2, a=a, b=b, theta=th, phi=P, support=S, left=left, full=not left)
            add('plate-L3-tt-%d%d-%s' % (a, b, s), plate, L=3, n=2, a=a, b=b, theta=('t', F(-5, 2), F(5, 2)), phi=1.1, support=[(2, 0), (1, 1)], left=left, full=left)
            add('plate-L4-t-%d%d-%s' % (a, b, s), plate, L=4, n=2, a=a, b=b, theta=T1, phi=-0.6, support=[(3, 0), (1, 1)], left=left, full=left)
            add('plate-L3-t-%d%d-%s' % (a, b, s), plate, L=3, n=2, a=a, b=b, theta=T1, phi=1.1, support=[(2, 0), (1, 1)], left=left, full=left)
            add('plate-L3-p-%d%d-%s' % (a, b, s), plate, L=3, n=2, a=a, b=b, theta=0.7, phi=P, support=[(0, 2), (1, 1), (1, 0)], left=left, full=left)
            add('plate-L4-p-%d%d-%s' % (a, b, s), plate, L=4, n=2, a=a, b=b, theta=0.7, phi=('p', F(-3), F(3)), support=[(1, 2)], left=left, full=left)
        # amplitudes are wrong (errors up to 0.1) for three photons and angles near pi: the power series is cut too early
        add('finding-plate-L4-theta-near-pi-' + s, plate, L=4, n=2, a=0, b=1, theta=('t', F(31, 10), F(22, 7)), phi=1.1, support=[(3, 0)], left=left, full=left)
        for a, b in itertools.permutations(range(3), 2):
            sup = [emb(v, 3, (a, b), (1, 1, 1)) for v in ((1, 0), (0, 1))]
            add('plate3-%d%d-%s' % (a, b, s), plate, L=2, n=3, a=a, b=b, theta=0.4, phi=P, support=sup, left=left, full=not left, control=(a + b) % 2 == 0)
    return out
