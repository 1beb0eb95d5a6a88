"""C17  evaluation and copying isolate inputs from outputs"""
import numpy as np
from fractions import Fraction as F
from symx.runner import Case
from . import ref, prog
META = dict(bounds='every node type once, and mixed programs of 3..6 nodes; Fock length 2, 3 and 11, 2..3 optical and 2..3 classical channels, both naming conventions, full and reduced matrices, 1..2 states with 2..3 symbolic amplitudes, symbolic weights, classical values, nested auxiliary information and 1..2 history entries; all copying and filtering operations of states and collections; every mutable container reachable from one object is overwritten and the other object compared with its snapshot',
    outside='circuits without nodes (the input itself is returned), lists handed over by the user when a node is added, larger systems')

class Num: pass
def deep(h, x, seen=None):
    """immutable picture of everything reachable from x"""
    if isinstance(x, dict): return ('d', tuple((k, deep(h, v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)): return ('l', tuple(deep(h, v) for v in x))
    if isinstance(x, set): return ('s', tuple(sorted(map(str, x))))
    if isinstance(x, np.ndarray): return ('a', tuple(deep(h, v) for v in x)) if x.ndim else x.item()
    if hasattr(x, 'state') and isinstance(getattr(x, 'state'), dict): return ('S', deep(h, {k: v for k, v in x.state.items() if k != 'auxiliary_information' or v}))
    if isinstance(x, h.fsc.CollectionOfStates): return ('C', tuple((k, deep(h, s)) for k, s in x.items()))
    if callable(x) or isinstance(x, h.fsc.FockStateCircuit): return ('o', id(x))
    return x
def same(h, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(h, x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple): return False
    if h.is_num(a) and h.is_num(b): return h.same(a, b)
    return type(a) == type(b) and bool(a == b)
def pairs(h, a, b, out):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(pairs(h, x, y, out) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple): return False
    if h.is_num(a) and h.is_num(b):
        if a is not b: out.append((a, b))
        return True
    return type(a) == type(b) and bool(a == b)
def cmp(h, label, a, b, detail='differs'):
    """one obligation for the structure and one per number that is not literally the same object"""
    out = []
    h.true(label, pairs(h, a, b, out), detail)
    for k, (x, y) in enumerate(out): h.eq('%s #%d' % (label, k), x, y)

def scribble(h, x):
    """overwrite every mutable container reachable from x"""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)): scribble(h, x[k])
            else: x[k] = 'scribbled'
        x['scribbled'] = 1
    elif isinstance(x, list):
        for k, v in enumerate(x):
            if isinstance(v, (dict, list)): scribble(h, v)
            else: x[k] = 'scribbled'
        x.append('scribbled')
    elif hasattr(x, 'state'): scribble(h, x.state)
    elif isinstance(x, h.fsc.CollectionOfStates):
        for s in list(x.values()): scribble(h, s)
        x._collection_of_states.clear()

def inputs(h, c, L, n, ncl, supports, hist=2, photon=False):
    ss = []
    for j, cb in enumerate(supports):
        amps = h.box(cb, 'x%d' % j)
        for a in amps.values(): h.nonzero(a)
        aux = {'tag': [j, {'deep': [1, 2]}], 'more': {'a': {'b': [3]}}}
        ss.append(dict(amps=amps, prob=h.real('P%d' % j, 0, F(1, len(supports)), pos=True), classical=[h.real('k%d%d' % (j, q), -2, 2) for q in range(ncl)], initial='i%d' % j, id='id%d' % j,
                       meas=[{'measurement_results': [j, q] + [0] * (ncl - 2), 'probability': 0.25} for q in range(hist)], aux=aux))
    return h.collection(c, ss)

def put(h, c, kind, L, n):
    I = np.array([[1 if i == j else 0 for j in range(L ** n)] for i in range(L ** n)]) if kind[0] == 'matrix' else None
    if kind[0] == 'matrix': c.custom_fock_state_node(I)
    elif kind[0] == 'coupling': c.channel_coupling([0], [1], 1)
    elif kind[0] == 'optical': c.custom_optical_node(np.array([[0, 1], [1, 0]]), [0, 1])
    elif kind[0] == 'generic':
        def f(col, par):
            for s in col:
                s.classical_channel_values[0] = 7
                s.auxiliary_information['new'] = [1]
                s.auxiliary_information['more']['a']['b'].append(4)
                s.measurement_results.append({'measurement_results': [1] * 2, 'probability': 1})
                s.cumulative_probability = s.cumulative_probability * F(1, 2) if h.sym else s.cumulative_probability * .5
                for v in s.optical_components.values(): v['amplitude'] = v['amplitude'] * -1
            return col
        c.generic_function_on_collection(f, [], {})
    elif kind[0] == 'hamiltonian': c.wave_plate_from_hamiltonian(0, 1, 0.25, 0.5)
    elif kind[0] == 'chamiltonian': c.wave_plate_from_hamiltonian_classical_control(0, 1, 0, 1)
    elif kind[0] == 'bridge':
        d = h.circuit(L + 1, n + 1, c=1, left=c._channel_0_left_in_state_name); d.swap(0, n); d.measure_optical_to_classical([n], [0]); c.bridge(d)
    elif kind[0] == 'delay': c.time_delay(affected_channels=[0], delay=kind[1], pulse_width=1)
    elif kind[0] == 'delayfull': c.time_delay_full(affected_channels=[0], delay=kind[1], pulse_width=1)
    elif kind[0] == 'width': c.set_pulse_width(None, 2)
    else: prog.put(h, c, kind, L)

def view(h, out):
    """content of an output collection without identifiers"""
    return [deep(h, s) for s in out]
def view_id(h, out): return deep(h, out)

def evaluate(h, L, n, ncl, nodes, supports, left=True, full=False, hist=2):
    h.thr_c = 2e-6
    c = h.circuit(L, n, c=ncl, left=left, full=full)
    for k, nd in enumerate(nodes): put(h, c, nd, L, n)
    col = inputs(h, c, L, n, ncl, supports, hist)
    before, nodes0 = deep(h, col), deep(h, c.node_list)
    settings = {k: v for k, v in vars(c).items() if isinstance(v, (int, float, str, bool))}
    out = c.evaluate_circuit(col)
    cmp(h, 'input unchanged', deep(h, col), before, deep(h, col))
    cmp(h, 'circuit unchanged', deep(h, c.node_list), nodes0, 'node_list')
    h.true('settings unchanged', all(vars(c).get(k) == v for k, v in settings.items()), settings)
    o1 = view(h, out)
    out2 = c.evaluate_circuit(col)
    o2 = view(h, out2)
    cmp(h, 'second evaluation gives the same', ('l', tuple(o1)), ('l', tuple(o2)), 'differs')
    cmp(h, 'input unchanged after second', deep(h, col), before, 'x')
    scribble(h, out2)
    cmp(h, 'outputs are independent', ('l', tuple(view(h, out))), ('l', tuple(o1)), 'outputs share data')
    cmp(h, 'input does not share data with the output', deep(h, col), before, 'input shares data')
    cmp(h, 'circuit does not share data with the output', deep(h, c.node_list), nodes0, 'node_list')
    states = list(out.values())
    for k in range(len(states) - 1):        # the states of one output are independent of each other
        rest = [deep(h, s) for s in states[k + 1:]]
        scribble(h, states[k])
        h.true('state %d shares no data with the others' % k, all(same(h, deep(h, s), r) for s, r in zip(states[k + 1:], rest)), 'states share data')
    out3 = c.evaluate_circuit(col)
    cmp(h, 'third evaluation gives the same', ('l', tuple(view(h, out3))), ('l', tuple(o1)), 'differs')
    scribble(h, col)
    cmp(h, 'output does not depend on the input object', ('l', tuple(view(h, out3))), ('l', tuple(o1)), 'output shares data')

def default(h, L, n, ncl, nodes, left=True, full=False):
    """no input collection: two evaluations are equal and independent"""
    h.thr_c = 2e-6
    c = h.circuit(L, n, c=ncl, left=left, full=full)
    for nd in nodes: put(h, c, nd, L, n)
    out = c.evaluate_circuit(); o1 = view(h, out)
    out2 = c.evaluate_circuit()
    cmp(h, 'same', ('l', tuple(view(h, out2))), ('l', tuple(o1)))
    scribble(h, out2)
    cmp(h, 'independent', ('l', tuple(view(h, out))), ('l', tuple(o1)))
    cmp(h, 'again', ('l', tuple(view(h, c.evaluate_circuit()))), ('l', tuple(o1)))
    col = h.fsc.CollectionOfStates(c)
    a = deep(h, col)
    scribble(h, list(col.values())[0]); scribble(h, list(col.values())[1])
    b = h.fsc.CollectionOfStates(c)
    cmp(h, 'default collection independent', deep(h, b), a)

def copies(h, L, n, ncl, supports, how, left=True):
    c = h.circuit(L, n, c=ncl, left=left)
    col = inputs(h, c, L, n, ncl, supports)
    col.print_only_last_measurement = False
    before = deep(h, col)
    ids = list(col.keys())
    S = h.fsc.State
    def make(src):
        if how == 'copy': return src.copy()
        if how == 'state': return [src[k].copy() for k in ids]
        if how == 'filter-initial': a = src.copy(); a.filter_on_initial_state(['i0', 'i1']); return a
        if how == 'filter-id': a = src.copy(); a.filter_on_identifier(ids); return a
        if how == 'filter-class': a = src.copy(); a.filter_on_classical_channel([], []); return a
        if how == 'extend': a = src.copy(); a.extend(1, 1); return a
        if how == 'extend-classical': a = src.copy(); a.extend(0, 2); return a
        if how == 'extend-mixed': a = src.copy(); a.extend(1, 0, [.5] * 2 + [0] * (L - 2) if not h.sym else [F(1, 2)] * 2 + [0] * (L - 2)); return a
        if how == 'adjust': a = src.copy(); a.adjust_length_of_fock_state(L + 1); return a
        if how == 'adjust-same': a = src.copy(); a.adjust_length_of_fock_state(L); return a
        if how == 'reduce': a = src.copy(); a.reduce([0, 1]); return a
        if how == 'reduce-classical': a = src.copy(); a.reduce([], [0]); return a
        if how == 'reduce-all': a = src.copy(); a.reduce(); return a
        if how == 'clean': a = src.copy(); a.clean_up(); return a
        if how == 'mixture': a = src.copy(); a.set_collection_as_statistical_mixture([(src[k], F(1, 4) if h.sym else .25) for k in ids]); return a
        if how == 'tensor': return [src[ids[0]].tensor(src[ids[-1]])]
        if how == 'empty': return src.copy(empty_template=True)
    a = make(col)
    aft = lambda x: [deep(h, s) for s in x]
    if how == 'empty':
        h.true('empty', len(a) == 0)
        s = S(a); s.optical_components = [(h.name(supports[0][0], L, left), 1.0)]; a.add_state(s, 'new')
        cmp(h, 'source unchanged', deep(h, col), before); return
    pa = aft(a)
    cmp(h, 'source unchanged by the operation', deep(h, col), before, 'x')
    if how == 'copy':
        cmp(h, 'copy equals source', deep(h, a), before)
        h.true('settings', a.print_only_last_measurement is False and a._no_of_optical_channels == n and a._no_of_classical_channels == ncl and a._length_of_fock_state == L)
    if how == 'state': h.true('copies equal source', all(same(h, deep(h, t), deep(h, col[k])) for t, k in zip(a, ids)))
    # a second result, scribbled over: first result and source stay as they are
    b = make(col)
    for s in list(b): scribble(h, s)
    cmp(h, 'two results are independent', ('l', tuple(aft(a))), ('l', tuple(pa)), 'shared')
    cmp(h, 'source independent', deep(h, col), before, 'shared')
    states = list(a)
    for k in range(len(states) - 1):
        rest = [deep(h, s) for s in states[k + 1:]]
        scribble(h, states[k])
        h.true('state %d shares no data with the others' % k, all(same(h, deep(h, s), r) for s, r in zip(states[k + 1:], rest)), 'states share data')
    if how == 'tensor': h.true('tensor', len(states) == 1)
    d = make(col); pd = aft(d)
    for s in list(col): scribble(h, s)
    cmp(h, 'result independent of source', ('l', tuple(aft(d))), ('l', tuple(pd)), 'shared')

def setters(h, L, n, ncl, left=True):
    """changing one copy through the public setters and methods is invisible in the other"""
    c = h.circuit(L, n, c=ncl, left=left)
    B = h.basis(L, n)
    col = inputs(h, c, L, n, ncl, [B[1:3], B[2:4]])
    before = deep(h, col)
    a = col.copy(); s = a['id0']
    s.classical_channel_values[0] = 99
    s.measurement_results[0]['measurement_results'][0] = 99
    s.measurement_results[0]['probability'] = 0
    s.measurement_results.append({'measurement_results': [1] * ncl, 'probability': 1})
    s.auxiliary_information['tag'][1]['deep'].append(1)
    s.auxiliary_information['x'] = 1
    nm = next(iter(s.optical_components)); s.optical_components[nm]['amplitude'] = 0; s.optical_components[nm]['probability'] = 0
    s.optical_components.pop(nm)
    s.initial_state = 'zz'; s.cumulative_probability = 0
    a.delete_state(identifier='id1'); a.add_state(s, 'id7')
    cmp(h, 'source unchanged', deep(h, col), before)
    t = col['id1'].copy(); t.set_state_components_from_vector([h._amp(1)] + [h._amp(0)] * (L ** n - 1)); t.clear() if hasattr(t, 'clear') else None
    cmp(h, 'source unchanged by vector', deep(h, col), before)
    u = col['id1'].copy(); u.initialize_this_state()
    cmp(h, 'source unchanged by initialise', deep(h, col), before)
    col.clear()
    h.true('clearing the source leaves the copy', len(a) == 2)
    v = h.fsc.State(a); w = h.fsc.State(a)
    v.classical_channel_values[0] = 5; v.measurement_results.append({'measurement_results': [0] * ncl, 'probability': 1}); v.auxiliary_information['q'] = [1]; next(iter(v.optical_components.values()))['amplitude'] = 0
    h.true('new states are independent', w.classical_channel_values[0] == 0 and 'q' not in w.auxiliary_information and w.measurement_results != v.measurement_results and next(iter(w.optical_components.values()))['amplitude'] == 1, w.state)

def cases(tier, seed):
    out = []
    def add(name, fn, tier='quick', **cfg): out.append(Case(name, fn, tier=tier, **cfg))
    M = lambda a, b: ('measure', a, b)
    G = lambda *g: ('gate', g)
    inc = lambda cur: [x + 1 for x in cur]
    def inplace(cur):
        cur[0] = cur[0] * 2; return cur
    K = {'swap': [G('swap', 0, 1)], 'half': [G('half', 0, 1)], 'phase': [G('phase', 1)], 'two': [G('mix50', 0, 1), G('phase', 0)], 'shift': [('shift', (0,), (1,))], 'sdirect': [('shift_direct', (0,), (1,))],
         'cshift': [('c_shift', (0,), (1,))], 'csdirect': [('c_shift_direct', (0,), (1,))], 'set': [('set', (5, 6), (0, 1))], 'fun': [('fun', inc, (0, 1))], 'inplace': [('fun', inplace, (0, 1))],
         'measure': [M((0,), (0,))], 'measure2': [M((1, 0), (0, 1))], 'measure-none': [M((0,), ())] if 0 else [M((1,), (1,))], 'cwp': [('cwp', 0, 1, 0, 1)], 'cphase': [('cphase', 0, 1)], 'matrix': [('matrix',)], 'coupling': [('coupling',)],
         'optical': [('optical',)], 'generic': [('generic',)], 'hamiltonian': [('hamiltonian',)], 'bridge': [('bridge',)], 'width': [('width',)]}
    P = {'mms': [M((0,), (0,)), ('set', (5, 6), (0, 1)), M((1,), (1,)), ('fun', inplace, (0, 1))],
         'ops': [('fun', inplace, (0, 1)), G('swap', 0, 1), M((1,), (0,)), ('shift', (0,), (1,)), M((0,), (1,)), ('cphase', 0, 1)],
         'gen': [M((0,), (1,)), ('generic',), G('phase', 1), M((0,), (0,)), ('set', (5,), (1,))],
         'bridged': [M((0,), (1,)), ('fun', inplace, (0,)), ('bridge',)],
         'delay0': [('delay', 0.5), M((0, 1), (0, 1))], 'delayf': [('delayfull', 0.5), M((0, 1), (0, 1))], 'delaymix': [('delayfull', 0.5), G('mix50', 0, 1), M((0, 1), (0, 1))]}
    sup = {(2, 2): [[(1, 0), (0, 1)], [(1, 1), (0, 1)]], (3, 2): [[(1, 0), (0, 2)], [(2, 1), (0, 1), (1, 1)]], (11, 2): [[(10, 0), (0, 10)], [(1, 10)]], (2, 3): [[(1, 0, 1), (0, 1, 1)], [(1, 1, 0), (0, 0, 1)]]}
    for left in (True, False):
        s = 'l' if left else 'r'
        for full in (True, False):
            f = s + ('F' if full else 'R')
            for nm, nd in K.items(): add('node-%s-%s' % (nm, f), evaluate, L=2, n=2, ncl=2, nodes=nd, supports=sup[2, 2], left=left, full=full)
            for nm, nd in P.items():
                if nm.startswith('delay'): add('prog-%s-%s' % (nm, f), evaluate, L=3, n=2, ncl=2, nodes=nd, supports=[[(1, 1)]], left=left, full=full, hist=1)
                else: add('prog-%s-%s' % (nm, f), evaluate, L=2, n=2, ncl=2, nodes=nd, supports=sup[2, 2], left=left, full=full)
            for nm in ('swap', 'shift', 'cshift', 'sdirect', 'measure2', 'set', 'cphase', 'generic', 'bridge'): add('node3-%s-%s' % (nm, f), evaluate, L=3, n=2, ncl=3, nodes=K[nm], supports=sup[3, 2], left=left, full=full, hist=1)
            for nm in ('sdirect', 'csdirect', 'measure', 'inplace', 'phase'): add('node11-%s-%s' % (nm, f), evaluate, L=11, n=2, ncl=2, nodes=K[nm], supports=sup[11, 2], left=left, full=False)
            for nm in ('two', 'measure2', 'cwp'): add('node-n3-%s-%s' % (nm, f), evaluate, L=2, n=3, ncl=2, nodes=K[nm], supports=sup[2, 3], left=left, full=full)
            for nm in ('swap', 'measure', 'fun', 'inplace', 'cphase', 'generic' if 0 else 'set', 'shift', 'sdirect', 'matrix'): add('default-%s-%s' % (nm, f), default, L=2, n=2, ncl=2, nodes=K[nm], left=left, full=full)
        for how in ('copy', 'state', 'filter-initial', 'filter-id', 'filter-class', 'extend', 'extend-classical', 'extend-mixed', 'adjust', 'adjust-same', 'reduce', 'reduce-classical', 'reduce-all', 'clean', 'mixture', 'tensor', 'empty'):
            for (L, n) in ((2, 2), (3, 2), (11, 2), (2, 3)):
                if (L, n) == (11, 2) and how in ('extend', 'extend-mixed', 'tensor'): continue
                add('copy-%s-%d%d-%s' % (how, L, n, s), copies, L=L, n=n, ncl=2, supports=sup[L, n], how=how, left=left)
        for L, n in ((2, 2), (3, 3)): add('setters-%d%d-%s' % (L, n, s), setters, L=L, n=n, ncl=2, left=left)
    return out
