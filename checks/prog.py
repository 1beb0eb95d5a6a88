"""Reference interpreter for whole circuits: every node kind as a function on an explicit mixture of states."""
from . import ref, gates

def st(amps, classical=(), prob=1, hist=(), initial='in', aux=None):
    return dict(amps=dict(amps), classical=list(classical), prob=prob, hist=list(hist), initial=initial, aux=aux or {})

def drop(h, amps): return {v: a for v, a in amps.items() if not h.is_zero(a)}

def outcomes(h, amps, chans):
    """{outcome: (probability, collapsed amplitudes)}"""
    g = {}
    for v, a in drop(h, amps).items(): g.setdefault(tuple(v[c] for c in chans), {})[v] = a
    out = {}
    for o, comps in g.items():
        S = ref.sum_([h.abs2(a) for a in comps.values()]); r = h.sqrt(S)
        out[o] = (S, {v: a / r for v, a in comps.items()})
    return out

def put(h, c, node, L):
    """adds one node to circuit c, returns the reference: function(state) -> [states]"""
    k, a = node[0], node[1:]
    def opt(f):
        def g(s): return [dict(s, amps=drop(h, f(s)))]
        return g
    if k == 'gate':
        refs = gates.build(h, c, a[0], a[1] if len(a) > 1 else len(c.node_list))
        return opt(lambda s: gates.apply(h, s['amps'], refs, L))
    if k == 'shift':
        c.shift(*[list(x) for x in a])
        return opt(lambda s: shift(s['amps'], a[0], a[1], L))
    if k == 'shift_direct':
        c.shift_direct(*[list(x) for x in a]); return opt(lambda s: shift(s['amps'], a[0], a[1], L))
    if k == 'c_shift':
        c.c_shift(*[list(x) for x in a]); return opt(lambda s: cshift(s['amps'], a[0], a[1], L))
    if k == 'c_shift_direct':
        c.c_shift_direct(*[list(x) for x in a]); return opt(lambda s: cshift(s['amps'], a[0], a[1], L))
    if k == 'set':
        vals = [h.real(x, -3, 3) if isinstance(x, str) else x for x in a[0]]
        c.set_classical_channels(list(vals), list(a[1]))
        def f(s):
            cl = list(s['classical'])
            for x, ch in zip(vals, a[1]): cl[ch] = x
            return [dict(s, classical=cl)]
        return f
    if k == 'fun':
        fn, ch = a
        c.classical_channel_function(lambda cur, new, aff: fn(cur), list(ch))
        return lambda s: [dict(s, classical=list(fn(list(s['classical']))))]
    if k == 'measure':
        if len(a) > 2: c.measure_optical_to_classical(**a[2])
        else: c.measure_optical_to_classical(list(a[0]), list(a[1]))
        def f(s):
            res = []
            for o, (P, amps) in outcomes(h, s['amps'], a[0]).items():
                cl = list(s['classical'])
                for x, ch in zip(o, a[1]): cl[ch] = x
                res.append(dict(s, amps=amps, classical=cl, prob=s['prob'] * P, hist=s['hist'] + [(list(cl), P)]))
            return res
        return f
    if k == 'cwp':       # wave plate, classical control: (h, v, theta channel, phi channel)
        c.wave_plate_classical_control(a[0], a[1], a[2], a[3])
        return opt(lambda s: gates.apply(h, s['amps'], [(a[0], a[1], ref.wave_plate(h, s['classical'][a[2]], s['classical'][a[3]]))], L))
    if k == 'cphase':
        c.phase_shift_single_channel_classical_control(a[0], a[1])
        return opt(lambda s: gates.apply(h, s['amps'], [('phase', a[0], s['classical'][a[1]])], L))
    raise ValueError(k)

def shift(amps, chans, by, L):
    for c, b in zip(chans, by): amps = {v[:c] + ((v[c] + b) % L,) + v[c + 1:]: x for v, x in amps.items()}
    return amps
def cshift(amps, ctrl, targ, L):
    for c, t in zip(ctrl, targ): amps = {v[:t] + ((v[t] + v[c]) % L,) + v[t + 1:]: x for v, x in amps.items()}
    return amps

def run(steps, states):
    for f in steps: states = [t for s in states for t in f(s)]
    return states

def build(h, L, n, ncl, nodes, left=True, full=False, **kw):
    # collapsed states have norm 1 up to single precision: the concrete replay uses a threshold above that noise
    if any(nd[0] == 'measure' for nd in nodes): h.thr_c = 2e-6
    c = h.circuit(L, n, c=ncl, left=left, full=full, **kw)
    return c, [put(h, c, nd, L) for nd in nodes]

def spec(s, ident):
    """reference state -> state specification for h.collection"""
    return dict(amps=s['amps'], classical=s['classical'], prob=s['prob'], initial=s['initial'], id=ident, aux=dict(s['aux']),
                meas=[{'measurement_results': list(a), 'probability': b} for a, b in s['hist']])

def match(h, label, out, c, want, check_hist=True):
    """the output collection consists of exactly the reference states"""
    left = list(out)
    h.true(label + ' number of states', len(left) == len(want), '%d vs %d' % (len(left), len(want)))
    for w in want:
        key = lambda s: s.initial_state == w['initial'] and len(s.measurement_results) == len(w['hist']) and \
            all(len(m['measurement_results']) == len(x[0]) and h.same(list(m['measurement_results']), x[0]) for m, x in zip(s.measurement_results, w['hist'])) and h.same(list(s.classical_channel_values), list(w['classical']))
        cand = [i for i, s in enumerate(left) if key(s)]
        tag = '%s %s%s' % (label, w['initial'], [x[0] for x in w['hist']])
        if len(cand) > 1:      # same key: prefer the one with the same components
            ks = {v for v in w['amps']}
            cand = [i for i in cand if set(h.amps(left[i], c)) == ks] or cand
        if not cand: h.fail(tag + ' missing', [(s.initial_state, s.classical_channel_values, s.measurement_results) for s in left][:4]); continue
        s = left.pop(cand[0])
        h.eq_amps(tag, h.amps(s, c), w['amps'])
        h.check_state(tag, s, c)
        h.eq(tag + ' weight', s.cumulative_probability, w['prob'])
        if check_hist: h.eq(tag + ' history', [m['probability'] for m in s.measurement_results], [x[1] for x in w['hist']])
        h.true(tag + ' aux', h.same(dict(s.auxiliary_information), dict(w['aux'])), s.auxiliary_information)

# ---------------------------------------------------------------- several circuits one after the other
def reshape(h, s, L0, n0, ncl0, L1, n1, ncl1):
    """states after the bridge: vacuum / zero channels appended, or only the lowest channels kept"""
    cl = (list(s['classical']) + [0] * ncl1)[:ncl1] if ncl1 > ncl0 else list(s['classical'])[:ncl1]
    A = drop(h, s['amps'])
    if n1 >= n0: return [dict(s, classical=cl, amps={v + (0,) * (n1 - n0): a for v, a in A.items()})]
    g = {}
    for v, a in A.items(): g.setdefault(v[n1:], {})[v[:n1]] = a
    out = []
    for t, B in g.items():
        P = ref.sum_([h.abs2(a) for a in B.values()]); r = h.sqrt(P)
        out.append(dict(s, classical=cl, prob=s['prob'] * P, amps={v: a / r for v, a in B.items()}))
    return out

def mixture(h, states):
    """[key, {(v,w): sum weight conj(a_v) a_w}] with key = initial state, classical values, recorded results, auxiliary information"""
    out = []
    for s in states:
        key = (s['initial'], list(s['classical']), [list(x[0]) for x in s['hist']], s['aux'])
        for k, m in out:
            if h.same(list(k), list(key)): break
        else:
            m = {}; out.append((key, m))
        A = drop(h, s['amps'])
        for v in A:
            for w in A:
                x = h.conj(A[v]) * A[w] * s['prob']
                m[v, w] = m[v, w] + x if (v, w) in m else x
    return out

def of(h, t, c):
    return dict(initial=t.initial_state, classical=list(t.classical_channel_values), hist=[(list(m['measurement_results']), m['probability']) for m in t.measurement_results],
                aux=dict(t.auxiliary_information), amps=h.amps(t, c), prob=t.cumulative_probability)

def match_mixture(h, label, out, c, want):
    """same mixture per initial state / classical outcome / history, however it is split into states"""
    states = [of(h, t, c) for t in out]
    for t in out: h.check_state(label, t, c)
    G, W = mixture(h, states), mixture(h, want)
    for k, m in W:
        g = [x for x in G if h.same(list(x[0]), list(k))]
        if not g: h.fail('%s %s missing' % (label, k[:3]), [x[0] for x in G][:6]); continue
        for q in dict.fromkeys(list(m) + list(g[0][1])): h.eq('%s %s%s' % (label, k[:3], q), g[0][1].get(q, 0), m.get(q, 0))
    h.true(label + ' nothing else', len(G) == len(W), [x[0] for x in G][:6])
