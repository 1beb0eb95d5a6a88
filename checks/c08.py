"""C08  classical control is per state and equals the static gate"""
import itertools
from symx.runner import Case
from . import ref, prog, gates
META = dict(bounds='Fock length 2..4, 2..3 optical channels in every ordered pair, up to 4 states with independent symbolic classical values and amplitudes; controlled gates alone, in sequence and after nodes that change the classical values; controlled Hamiltonian wave plate: Fock length 2..3, angles within [-1,1] (polynomial arithmetic)',
            outside='more channels, larger Fock lengths')

def states(h, supports, ncl):
    return [prog.st(h.box(cb, 'x%d' % j), [h.angle('c%d_%d' % (j, i)) for i in range(ncl)], h.real('P%d' % j, 0, 1, pos=True), initial='in%d' % j) for j, cb in enumerate(supports)]

def controlled(h, L, n, nodes, supports, ncl, left, full):
    c, steps = prog.build(h, L, n, ncl, nodes, left, full)
    ss = states(h, supports, ncl)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    prog.match(h, 'out', out, c, prog.run(steps, ss))
    h.true('identifiers', sorted(out.state_identifiers_as_list()) == ['id%d' % j for j in range(len(ss))], out.state_identifiers_as_list())

def static(h, L, n, a, b, tc, pc, supports, ncl, left, full, kind):
    """each state of the collection comes out as from the circuit with the uncontrolled gate with that state's values"""
    c = h.circuit(L, n, c=ncl, left=left, full=full)
    if kind == 'wp': c.wave_plate_classical_control(a, b, tc, pc)
    else: c.phase_shift_single_channel_classical_control(a, pc)
    ss = states(h, supports, ncl)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    for j, s in enumerate(ss):
        c2 = h.circuit(L, n, c=ncl, left=left, full=not full)
        if kind == 'wp': c2.wave_plate(a, b, theta=s['classical'][tc], phi=s['classical'][pc])
        else: c2.phase_shift_single_channel(a, s['classical'][pc])
        o2 = c2.evaluate_circuit(h.collection(c2, [prog.spec(s, 'id')]))
        h.eq_amps('state %d' % j, h.amps(out.get_state('id%d' % j), c), h.amps(o2.get_state('id'), c2))
        h.eq('classical %d' % j, list(out.get_state('id%d' % j).classical_channel_values), s['classical'])

def near(h, L, n, a, b, supports, ncl, vals, left, full, kind):
    """control values close to each other (or equal) in the states of one collection: every state still gets its own gate"""
    c = h.circuit(L, n, c=ncl, left=left, full=full)
    if kind == 'wp': c.wave_plate_classical_control(a, b, 0, 1)
    else: c.phase_shift_single_channel_classical_control(a, 0)
    t = h.angle('t')
    ss = [prog.st(h.box(cb, 'x%d' % j), [t + Fraction(v) if isinstance(v, str) else v for v in vals[j]], initial='in') for j, cb in enumerate(supports)]
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    for j, s in enumerate(ss):
        cl = s['classical']
        want = gates.apply(h, s['amps'], [(a, b, ref.wave_plate(h, cl[0], cl[1])) if kind == 'wp' else ('phase', a, cl[0])], L)
        h.eq_amps('state %d' % j, h.amps(out.get_state('id%d' % j), c), want)

def classical(h, n_cl, chans, vals, supports, left):
    """set_classical_channels writes exactly the addressed channels, in the order given, in every state"""
    c = h.circuit(2, 2, c=n_cl, left=left)
    new = [h.real('v%d' % i, -9, 9) for i in range(len(chans))] if vals is None else vals
    keep = list(new)
    c.set_classical_channels(new, list(chans))
    ss = states(h, supports, n_cl)
    col = h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)])
    for rep in range(2):
        out = c.evaluate_circuit(col)
        for j, s in enumerate(ss):
            t = out.get_state('id%d' % j); want = list(s['classical'])
            for ch, v in zip(chans, keep): want[ch] = v
            h.eq('values %d' % j, list(t.classical_channel_values), want)
            h.eq_amps('amps %d' % j, h.amps(t, c), s['amps'])
    h.raises('channel outside', c.set_classical_channels, [1], [n_cl]); h.raises('lengths', c.set_classical_channels, [1, 2], [0])
    h.true('nothing added', len(c.node_list) == 1)

def function(h, n_cl, supports, left):
    """a classical function gets every state's own values, the given new values and channels; its result becomes that state's values"""
    c = h.circuit(2, 2, c=n_cl, left=left)
    w = [h.real('w%d' % i, -2, 2) for i in range(2)]
    seen = []
    def f(cur, new, aff):
        seen.append((list(cur), list(new), list(aff)))
        out = list(cur)
        out[aff[0]] = cur[aff[1]] + new[0]; out[aff[1]] = cur[aff[0]] * new[1]
        return out
    c.classical_channel_function(f, [n_cl - 1, 0], w)
    ss = states(h, supports, n_cl)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    h.true('called once per state', len(seen) == len(ss))
    for j, s in enumerate(ss):
        want = list(s['classical']); cl = s['classical']
        want[n_cl - 1] = cl[0] + w[0]; want[0] = cl[n_cl - 1] * w[1]
        h.eq('values %d' % j, list(out.get_state('id%d' % j).classical_channel_values), want)
        h.true('passed on', any(h.same(x[0], cl) and h.same(x[1], w) and x[2] == [n_cl - 1, 0] for x in seen))

def rejects(h, left):
    c = h.circuit(3, 3, c=2, left=left)
    for f, a in ((c.wave_plate_classical_control, (0, 1, 0, 2)), (c.wave_plate_classical_control, (0, 1, 2, 0)), (c.wave_plate_classical_control, (3, 1, 0, 1)),
                 (c.phase_shift_single_channel_classical_control, (0, 2)), (c.phase_shift_single_channel_classical_control, (3, 0)),
                 (c.wave_plate_from_hamiltonian_classical_control, (0, 1, 2, 0)), (c.wave_plate_from_hamiltonian_classical_control, (0, 3, 1, 0))):
        h.raises('%s%s' % (f.__name__, a), f, *a)
    h.true('no nodes', len(c.node_list) == 0)

def ham(h, L, n, a, b, tc, pc, supports, vals, left):
    """controlled Hamiltonian wave plate: every state comes out as from the static Hamiltonian wave plate with its own values"""
    h.thr_c = 1e-8
    c = h.circuit(L, n, c=3, left=left)
    c.wave_plate_from_hamiltonian_classical_control(a, b, tc, pc)
    ss = []
    for j, cb in enumerate(supports):
        cl = [v if not isinstance(v, str) else h.real('%s%d' % (v, j), Fraction(1, 5), 1) for v in vals[j]]
        ss.append(prog.st(h.box(cb, 'x%d' % j), cl, 1, initial='in%d' % j))
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    for j, s in enumerate(ss):
        c2 = h.circuit(L, n, c=3, left=left)
        c2.wave_plate_from_hamiltonian(a, b, theta=s['classical'][tc], phi=s['classical'][pc])
        o2 = c2.evaluate_circuit(h.collection(c2, [prog.spec(s, 'id')]))
        t = out.get_state(initial_state='in%d' % j)
        h.eq_amps('state %d' % j, h.amps(t, c), h.amps(o2.get_state(initial_state='in%d' % j), c2))
        h.eq('classical %d' % j, list(t.classical_channel_values), s['classical'])
def defaults(h, gate, args, kw, left):
    """left-out arguments: optical channels 0 and 1, classical channel 0 for every controlled variable"""
    c = h.circuit(3, 3, c=3, left=left)
    getattr(c, gate)(*args, **kw)
    ss = states(h, [[(1, 0, 0), (0, 1, 1)], [(0, 2, 0), (0, 0, 1)]], 3)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    for j, s in enumerate(ss):
        cl = s['classical']
        if gate[0] == 'p': refs = [('phase', kw.get('optical_channel_to_shift', 0), cl[kw.get('classical_channel_for_phase_shift', 0)])]
        else: refs = [(kw.get('optical_channel_horizontal', 0), kw.get('optical_channel_vertical', 1), ref.wave_plate(h, cl[kw.get('classical_channel_for_orientation', 0)], cl[kw.get('classical_channel_for_phase_shift', 0)]))]
        h.eq_amps('state %d' % j, h.amps(out.get_state('id%d' % j), c), gates.apply(h, s['amps'], refs, 3))

def ham_defaults(h, kw, vals, left):
    h.thr_c = 1e-8
    c, c2 = h.circuit(2, 3, c=3, left=left), h.circuit(2, 3, c=3, left=left)
    c.wave_plate_from_hamiltonian_classical_control(**kw)
    v = [h.real(x, Fraction(1, 5), 1) if isinstance(x, str) else x for x in vals]
    c2.wave_plate_from_hamiltonian(kw.get('optical_channel_horizontal', 0), kw.get('optical_channel_vertical', 1), theta=v[kw.get('classical_channel_for_orientation', 0)], phi=v[kw.get('classical_channel_for_phase_shift', 0)])
    s = prog.st(h.box([(1, 0, 0), (0, 1, 1)], 'x'), v, 1, initial='in')
    o, o2 = (q.evaluate_circuit(h.collection(q, [prog.spec(s, 'id')])).get_state(initial_state='in') for q in (c, c2))
    h.eq_amps('state', h.amps(o, c), h.amps(o2, c2))

def no_function(h, left):
    """without channels and values the function is called with empty lists"""
    c = h.circuit(2, 2, c=2, left=left); seen = []
    def f(cur, new, aff): seen.append((list(new), list(aff))); return [cur[1], cur[0]]
    c.classical_channel_function(f)
    ss = states(h, [[(1, 0)], [(0, 1), (1, 1)]], 2)
    out = c.evaluate_circuit(h.collection(c, [prog.spec(s, 'id%d' % j) for j, s in enumerate(ss)]))
    h.true('arguments', seen == [([], [])] * 2, seen)
    for j, s in enumerate(ss): h.eq('values %d' % j, list(out.get_state('id%d' % j).classical_channel_values), s['classical'][::-1])
from fractions import Fraction

def cases(tier, seed):
    out = []
    W, Ph = 'wave_plate_classical_control', 'phase_shift_single_channel_classical_control'
    for j, (g, kw) in enumerate(((W, {}), (W, dict(classical_channel_for_orientation=1)), (W, dict(classical_channel_for_phase_shift=2)), (W, dict(optical_channel_horizontal=2)), (W, dict(optical_channel_vertical=2)), (Ph, {}), (Ph, dict(optical_channel_to_shift=1)), (Ph, dict(classical_channel_for_phase_shift=1)))):
        out.append(Case('defaults-%d' % j, defaults, gate=g, args=(), kw=kw, left=j % 2 == 0))
    for j, (kw, v) in enumerate((({}, ['t', 5, 7]), (dict(classical_channel_for_orientation=1), [0.5, 't', 7]), (dict(classical_channel_for_phase_shift=2), [0.25, 5, 'p']), (dict(optical_channel_horizontal=2, classical_channel_for_phase_shift=1), ['t', 0.5, 3]), (dict(optical_channel_vertical=2, classical_channel_for_phase_shift=1), [0.75, 'p', 3]))):
        out.append(Case('ham-defaults-%d' % j, ham_defaults, kw=kw, vals=v, left=j % 2 == 1))
    for left in (True, False): out.append(Case('fun-default-%s' % left, no_function, left=left))
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    s2 = [[(1, 0), (0, 1)], [(1, 1)], [(0, 0), (1, 0)], [(0, 1)]]
    s23 = [[(2, 0), (1, 0)], [(1, 1), (2, 2)], [(0, 2)], [(0, 0), (1, 2)]]
    s3 = [[(1, 0, 0), (0, 1, 1)], [(1, 1, 0)], [(0, 0, 1), (0, 1, 0)]]
    s33 = [[(2, 0, 0)], [(0, 1, 1), (2, 2, 2)], [(1, 0, 2), (0, 0, 1)]]
    W = lambda *a: ('cwp',) + a
    Ph = lambda *a: ('cphase',) + a
    inc = lambda cur: [cur[-1]] + cur[:-1]
    for left in (True, False):
        s = 'l' if left else 'r'
        for full in (True, False):
            t = s + ('F' if full else 'R')
            for a, b in ((0, 1), (1, 0)):
                add('cwp-L2-%d%d-%s' % (a, b, t), controlled, L=2, n=2, nodes=[W(a, b, 0, 1)], supports=s2, ncl=2, left=left, full=full)
                add('cwp-L3-%d%d-%s' % (a, b, t), controlled, L=3, n=2, nodes=[W(a, b, 1, 0)], supports=s23, ncl=2, left=left, full=full)
                add('static-L3-%d%d-%s' % (a, b, t), static, L=3, n=2, a=a, b=b, tc=2, pc=0, supports=s23, ncl=3, left=left, full=full, kind='wp')
            for a, b in itertools.permutations(range(3), 2):
                add('cwp3-L2-%d%d-%s' % (a, b, t), controlled, L=2, n=3, nodes=[W(a, b, 2, 0)], supports=s3, ncl=3, left=left, full=full)
                add('cwp3-L3-%d%d-%s' % (a, b, t), controlled, L=3, n=3, nodes=[W(a, b, 1, 1)], supports=s33, ncl=2, left=left, full=full, tier='quick' if full != left else 'thorough')
                if a < b: add('static3-L2-%d%d-%s' % (a, b, t), static, L=2, n=3, a=b, b=a, tc=0, pc=1, supports=s3, ncl=2, left=left, full=full, kind='wp')
            for a in range(3):
                add('cphase-L3-%d-%s' % (a, t), controlled, L=3, n=3, nodes=[Ph(a, a % 2)], supports=s33 + [[(2, 2, 1), (1, 2, 0)]], ncl=2, left=left, full=full)
                add('static-ph-L3-%d-%s' % (a, t), static, L=3, n=3, a=a, b=None, tc=0, pc=1, supports=s33, ncl=2, left=left, full=full, kind='phase')
            add('seq-%s' % t, controlled, L=2, n=2, nodes=[W(0, 1, 0, 1), ('fun', inc, (0, 1)), Ph(1, 0)], supports=s2[:3], ncl=2, left=left, full=full)
            add('seq-set-%s' % t, controlled, L=2, n=3, nodes=[Ph(0, 0), ('set', ('w', 0), (1, 0)), W(2, 0, 0, 1), Ph(2, 1)], supports=s3, ncl=2, left=left, full=full)
            add('seq-ph-%s' % t, controlled, L=4, n=2, nodes=[Ph(0, 0), ('fun', inc, (0, 1)), Ph(1, 0), ('gate', ('swap', 0, 1))], supports=[[(3, 3), (1, 0)], [(2, 1), (0, 3)]], ncl=2, left=left, full=full)
            add('two-wp-%s' % t, controlled, L=2, n=2, nodes=[W(0, 1, 0, 1), W(1, 0, 1, 2)], supports=s2[:2], ncl=3, left=left, full=full)
        for kind in ('wp', 'ph'):
            add('near-sym-%s-%s' % (kind, s), near, L=2, n=2, a=0, b=1, supports=[[(1, 0), (1, 1)], [(1, 0), (0, 1)], [(1, 1), (1, 0)]], ncl=2, vals=[['0', 0.5], ['1/3000' if kind == 'ph' else '0', 0.5003], ['0', 0.5]], left=left, full=left, kind=kind)
            if kind == 'ph': add('near-con-%s-%s' % (kind, s), near, L=3, n=2, a=1, b=0, supports=[[(1, 1), (0, 2)], [(1, 1)], [(1, 1), (0, 1)], [(1, 1)]], ncl=2, vals=[[0.70001, 3.0], [0.70004, 3.0], [0.7, 3.00002], [0.7, 3]], left=left, full=not left, kind=kind)
        for ncl, ch in ((1, (0,)), (2, (1,)), (2, (1, 0)), (3, (2, 0)), (3, (0, 1, 2)), (3, (1, 2, 0)), (4, (3, 1))):
            add('set-%d-%s-%s' % (ncl, ''.join(map(str, ch)), s), classical, n_cl=ncl, chans=ch, vals=None, supports=s2[:3], left=left)
        add('set-lists-' + s, classical, n_cl=3, chans=(2, 1), vals=[4, 0], supports=s2[:2], left=left)
        for ncl in (2, 3): add('fun-%d-%s' % (ncl, s), function, n_cl=ncl, supports=s2[:3], left=left)
        add('rejects-' + s, rejects, left=left)
        add('ham-L2-' + s, ham, L=2, n=2, a=0, b=1, tc=0, pc=2, supports=[[(1, 0), (0, 1)], [(1, 0)]], vals=[['t', 9, 0.5], [0.25, 7, 'p']], left=left)
        add('ham-L2-10-' + s, ham, L=2, n=3, a=2, b=0, tc=1, pc=0, supports=[[(1, 0, 0), (0, 1, 1)], [(0, 0, 1), (0, 0, 0)]], vals=[['p', 0.125, 5], [0.75, 't', 4]], left=left)
    return out
