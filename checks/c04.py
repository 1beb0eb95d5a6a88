"""C04  the evaluation strategy never changes the outcome"""
import itertools
from symx.runner import Case
from . import ref, gates
META = dict(bounds='Fock length 2..4 (11 for two digits), 2..4 channels, circuits of 2..4 nodes as listed, every listed node-index list, all gate parameters and all input amplitudes on the listed support',
            outside='more channels, larger Fock lengths, longer circuits')

def mk(h, gs, L, n, left, full, ncl=0):
    c = h.circuit(L, n, c=ncl, left=left, full=full)
    refs = []; idx = []
    for k, g in enumerate(gs):
        before = len(c.node_list); r = gates.build(h, c, g, k)
        idx += [len(refs) + i for i in range(len(r))]; refs += r
    return c, refs

def strat(h, gs, L, n, combos, left, orders, states=1):
    """full / reduced / node by node / index lists / get_fock_state_matrix all give the reference"""
    cF, refs = mk(h, gs, L, n, left, True)
    cR, _ = mk(h, gs, L, n, left, False)
    h.true('one node per reference gate', len(cR.node_list) == len(refs))
    amps = h.box(combos)
    m = lambda c: h.collection(c, [dict(amps=amps, id='s')])
    want = gates.apply(h, amps, refs, L)
    full, red = cF.evaluate_circuit(collection_of_states_input=m(cF)), cR.evaluate_circuit(collection_of_states_input=m(cR))
    h.eq_amps('full', h.amps(full.get_state('s'), cF), want)
    h.eq_amps('reduced', h.amps(red.get_state('s'), cR), want)
    for od in orders:
        w = gates.apply(h, amps, [refs[i] for i in od], L)
        for c, t in ((cF, 'F'), (cR, 'R')):
            g = c.evaluate_circuit(collection_of_states_input=m(c), nodes_to_be_evaluated=list(od))
            h.eq_amps('list %s %s' % (od, t), h.amps(g.get_state('s'), c), w)
        col = m(cR)
        for i in od: col = cR.evaluate_circuit(collection_of_states_input=col, nodes_to_be_evaluated=[i])
        h.eq_amps('one by one %s' % (od,), h.amps(col.get_state('s'), cR), w)

def matrix(h, gs, L, n, combos, left, lists):
    """get_fock_state_matrix times the state vector equals evaluating the same nodes, for either circuit setting"""
    for full in (False, True):
        c, refs = mk(h, gs, L, n, left, full)
        amps = h.box(combos)
        col = h.collection(c, [dict(amps=amps, id='s')])
        basis = [v for v in h.basis(L, n)]
        for od in lists:
            M = c.get_fock_state_matrix(list(od)) if od != 'all' else c.get_fock_state_matrix()
            w = gates.apply(h, amps, refs if od == 'all' else [refs[i] for i in od], L)
            h.true('shape', tuple(M.shape) == (L ** n, L ** n))
            h.eq('matrix %s' % (od,), [ref.sum_([M[i][basis.index(v)] * a for v, a in amps.items()]) for i in range(L ** n)], [w.get(v, 0) for v in basis])
            vec, names = col.get_state('s').translate_state_components_to_vector()
            h.true('basis', list(names) == [h.name(v, L, left) for v in basis])

def company(h, gs, L, n, supports, left, full):
    """each state comes out as if it were alone, keeping everything else it carries"""
    c, refs = mk(h, gs, L, n, left, full, ncl=2)
    spec = []
    for j, s in enumerate(supports):
        spec.append(dict(amps=h.box(s, 'x%d' % j), id='id%d' % j, initial='in%d' % (j % 2), prob=h.real('p%d' % j, 0, 1), classical=[h.real('c%d' % j, -3, 3), j],
                         meas=[{'measurement_results': [j, h.real('m%d' % j, 0, 3)], 'probability': h.real('q%d' % j, 0, 1)}] * (j % 2)))
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, spec))
    h.true('identifiers', sorted(out.state_identifiers_as_list()) == sorted(s['id'] for s in spec), out.state_identifiers_as_list())
    for s in spec:
        st = out.get_state(s['id'])
        h.eq_amps(s['id'], h.amps(st, c), gates.apply(h, s['amps'], refs, L))
        h.check_state(s['id'], st, c)
        h.true('initial_state', st.initial_state == s['initial'])
        h.eq('probability', st.cumulative_probability, s['prob'])
        h.eq('classical', st.classical_channel_values, s['classical'])
        h.eq('history', [[m['measurement_results'], m['probability']] for m in st.measurement_results], [[m['measurement_results'], m['probability']] for m in s['meas']])

def mixed(h, L, n, left, full, order):
    """lists over a circuit with optical, classical and custom nodes: out of order and repeated indices are all evaluated"""
    c = h.circuit(L, n, c=2, left=left, full=full)
    th = h.angle('theta')
    c.half_wave_plate(0, 1, angle=th)                                            # 0
    c.set_classical_channels([h.real('v', -3, 3)], [1])                          # 1
    c.swap(0, 1)                                                                 # 2
    c.shift([0], [1])                                                            # 3
    c.classical_channel_function(lambda cur, new, aff: [x + 1 for x in cur], [0, 1])   # 4
    amps = h.box(ref.combos(L, n, 2))
    a, cl = amps, [5, 7]
    for i in order:
        if i == 0: a = ref.boson(h, a, 0, 1, ref.wave_plate(h, th, h.pi), L)
        elif i == 1: cl = [cl[0], h.real('v', -3, 3) if not h.sym else c.node_list[1]['new_input_values'][0]]
        elif i == 2: a = ref.boson(h, a, 0, 1, [[0, 1], [1, 0]], L)
        elif i == 3: a = {((v[0] + 1) % L,) + v[1:]: x for v, x in a.items()}
        elif i == 4: cl = [x + 1 for x in cl]
    out = c.evaluate_circuit(collection_of_states_input=h.collection(c, [dict(amps=amps, classical=[5, 7], initial='here')]), nodes_to_be_evaluated=list(order))
    st = out.get_state(initial_state='here')
    h.eq_amps('amp', h.amps(st, c), a); h.eq('classical', st.classical_channel_values, cl)

def default(h, L, n, left, full):
    """without an input collection every basis state is evaluated"""
    c, refs = mk(h, [('wave_plate', 0, 1)], L, n, left, full)
    out = c.evaluate_circuit()
    h.true('count', len(out) == L ** n)
    for v in h.basis(L, n):
        st = out.get_state(initial_state=h.name(v, L, left))
        h.true('present %s' % (v,), st is not None)
        if st is not None: h.eq_amps('basis %s' % (v,), h.amps(st, c), gates.apply(h, {v: 1}, refs, L))

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    A = [('wave_plate', 0, 1), ('phase', 0), ('swap', 0, 1)]
    B = [('half', 1, 0), ('mix50', 0, 1), ('quarter45', 0, 1), ('phase', 1)]
    C3 = [('half', 0, 2), ('swap', 1, 2), ('generic', 2, 1)]
    D3 = [('mix50', 2, 0), ('phase', 1), ('wave_plate', 1, 2)]
    o3 = [(2, 1, 0), (0, 2), (1, 0, 1), (2, 2), (1,), (0, 1, 2)]
    o3b = [(2, 0, 1), (1, 2, 0), (0, 0, 2)]
    o4 = [(3, 2, 1, 0), (0, 3, 1), (2, 2, 0)]
    for left in (True, False):
        s = 'l' if left else 'r'
        for nm, gs, od in (('A', A, o3), ('A2', A, o3b), ('B', B, o4)):
            add('strat-%s-L2-%s' % (nm, s), strat, gs=gs, L=2, n=2, combos=ref.combos(2, 2, 2), left=left, orders=od)
            add('strat-%s-L3-%s' % (nm, s), strat, gs=gs, L=3, n=2, combos=ref.combos(3, 2, 2) + [(2, 1), (2, 2)], left=left, orders=od, tier='quick' if nm != 'A' else 'thorough')
        for nm, gs in (('C', C3), ('D', D3)):
            add('strat-%s-L2-%s' % (nm, s), strat, gs=gs, L=2, n=3, combos=ref.combos(2, 3, 3), left=left, orders=o3)
            add('strat-%s-L3-%s' % (nm, s), strat, gs=gs, L=3, n=3, combos=[(1, 0, 0), (0, 1, 1), (2, 0, 0), (2, 2, 1), (0, 1, 2)], left=left, orders=o3b)
            add('strat-%s-L3=-%s' % (nm, s), strat, gs=gs, L=3, n=3, combos=[(1, 1, 0), (0, 1, 1), (2, 0, 0), (0, 0, 2)], left=left, orders=o3)
        for nm, gs, n in (('A', A, 2), ('B', B, 2), ('C', C3, 3), ('D', D3, 3)):
            ls = ['all', (0,), (1, 0), (2,), (2, 0, 1)]
            add('matrix-%s-L2-%s' % (nm, s), matrix, gs=gs, L=2, n=n, combos=ref.combos(2, n, n), left=left, lists=ls)
            add('matrix-%s-L3-%s' % (nm, s), matrix, gs=gs, L=3, n=n, combos=ref.combos(3, n, 2) if n == 2 else [(1, 0, 0), (0, 1, 1), (2, 2, 1), (0, 1, 2)], left=left, lists=ls[:3])
        for full in (True, False):
            t = s + ('F' if full else 'R')
            sup3 = [[(0, 0, 0)], [(1, 0, 0), (0, 1, 0)], [(1, 1, 0), (0, 0, 1)], [(2, 2, 2)], [(2, 0, 0), (0, 1, 1)], [(1, 0, 1), (2, 1, 2), (0, 0, 0)], [(0, 0, 1)]]
            add('company-C-L3-' + t, company, gs=C3, L=3, n=3, supports=sup3, left=left, full=full)
            add('company-D-L3-' + t, company, gs=D3, L=3, n=3, supports=sup3[::-1], left=left, full=full)
            sup2 = [[(0, 1), (1, 0)], [(1, 1)], [(0, 0), (1, 1)], [(0, 0)]]
            add('company-A-L2-' + t, company, gs=A, L=2, n=2, supports=sup2, left=left, full=full)
            sup4 = [[(3, 3)], [(1, 2), (3, 0)], [(2, 2), (0, 1)], [(1, 1), (2, 0), (0, 2)], [(3, 1), (2, 2)]]
            add('company-B-L4-' + t, company, gs=B[:2], L=4, n=2, supports=sup4, left=left, full=full)
            for od in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (1, 4, 1), (3, 0, 2, 0, 4, 1), (2, 1), (4, 4, 0), (0, 3, 3, 0)):
                add('mixed-%s-%s' % (''.join(map(str, od)), t), mixed, L=3, n=2, left=left, full=full, order=od)
            add('default-L3-' + t, default, L=3, n=2, left=left, full=full)
            add('default-L2-' + t, default, L=2, n=3, left=left, full=full)
    add('company-L11', company, gs=[('half', 1, 0)], L=11, n=2, supports=[[(1, 0)], [(10, 0), (0, 10)], [(10, 10)], [(1, 1), (0, 1)]], left=False, full=False, tier='thorough')
    add('strat-L11', strat, gs=[('swap', 0, 1), ('phase', 1)], L=11, n=2, combos=[(1, 0), (10, 0), (3, 7), (10, 4), (0, 0)], left=False, orders=[(1, 0), (0, 0)])
    for nm, gs in (('C', C3), ('D', D3)):
        add('strat4-' + nm, strat, gs=gs, L=4, n=3, combos=[(1, 0, 2), (0, 1, 1), (3, 3, 3), (0, 3, 0)], left=True, orders=o3, tier='thorough')
    return out
