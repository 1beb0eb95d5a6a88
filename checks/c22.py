"""C22  drawings show every node of a circuit once, on its channels and in order"""
import numpy as np
from fractions import Fraction as F
from symx.runner import Case
META = dict(bounds='circuits of 1..5 nodes on 2..5 optical and 0..3 classical channels, each node on symbolic channels; symbolic line spacing and marker sizes; 2..10 nodes per page; up to 3 bridged circuits; up to 3 stations with symbolic membership of the channels',
            outside='what matplotlib makes of the drawing commands (a recorder takes its place); fonts, colours and sizes; more nodes per page than the line is long; nodes made by hand without channel information')
class Page:
    """one page of the drawing: records what is drawn"""
    def __init__(self, fig, k): self.fig, self.k, self.log, self.gone, self.titles = fig, k, [], False, []
    def plot(self, x, y, *a, **k):
        seq = lambda v: list(v) if hasattr(v, '__len__') else [v]
        if len(seq(x)) != len(seq(y)): raise ValueError('x and y must have same first dimension')
        self.log.append(('plot', seq(x), seq(y), dict(k, fmt=a)))
    def scatter(self, x, y, *a, c=None, color=None, **k): self.plot(x, y, color=color or c, **k)
    def annotate(self, text, xy, *a, **k): self.log.append(('text', text, tuple(xy), k))
    def text(self, x, y, s, *a, **k): self.annotate(s, (x, y), **k)
    def add_patch(self, p): self.log.append(('patch', p))
    def set_title(self, t, *a, **k): self.titles.append(t)
    def axis(self, *a, **k): pass
    def remove(self): self.gone = True
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: None
class Figure:
    def __init__(self, rows, cols): self.grid = np.empty((rows, cols), dtype=object); self.shown = False; self.grid[:, :] = [[Page(self, i * cols + j) for j in range(cols)] for i in range(rows)]
    def delaxes(self, a): a.gone = True
    def pages(self): return [p for p in self.grid.ravel() if not p.gone]
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **k: None
class Patch:
    def __init__(self, xy, width, height, *a, **k): self.x, self.y, self.w, self.h, self.k = xy[0], xy[1], width, height, k
def drawing(h, f):
    import matplotlib.pyplot as plt, sys
    figs = []; old = []
    def subplots(nrows=1, ncols=1, **k): figs.append(Figure(nrows, ncols)); return figs[-1], figs[-1].grid
    def show(*a, **k):
        for g in figs: g.shown = True
    def put(o, k, v): old.append((o, k, getattr(o, k))); setattr(o, k, v)
    put(plt, 'subplots', subplots); put(plt, 'show', show)
    m = sys.modules[h.fsc.FockStateCircuit.draw.__module__]
    import matplotlib.patches as pat
    for o in (m, plt, pat):
        if hasattr(o, 'Rectangle'): put(o, 'Rectangle', Patch)
    try: f()
    finally:
        for o, k, v in reversed(old): setattr(o, k, v)
    for g in figs: h.true('shown', g.shown)
    return figs

OL, CL, BOX = 'optical line', 'classical line', 'box'
def settings(h, per, **k):
    return dict({'number_of_nodes_on_a_line': per, 'spacing_between_lines_in_relation_to_spacing_between_nodes': h.real('gap', F(1, 8), 3), 'optical_channel_line_color': OL, 'classical_channel_line_color': CL, 'box_around_node_color': BOX}, **k)
def info(j, n, m, **k):
    """drawing information by which the marks of node j can be told apart"""
    return dict({'label': 'node %d' % j, 'markercolor': ['%d.o%d' % (j, i) for i in range(n)], 'classical_marker_color': ['%d.c%d' % (j, i) for i in range(m)],
                 'connection_linecolor_optical': '%d.o.line' % j, 'connection_linecolor_classical': '%d.c.line' % j}, **k)

def rows(h, pages, n, m, on, cn):
    """y of every channel, by the labels at the start of the lines; the same on every page"""
    out = {}
    for p in pages:
        for e in p.log:
            if e[0] == 'text' and e[1] in on + cn:
                k = on.index(e[1]) if e[1] in on else n + cn.index(e[1])
                if k in out: h.eq('same line on every page', e[2][1], out[k])
                else: out[k] = e[2][1]
    h.true('labels', set(out) == set(range(n + m)), sorted(out))
    ks = sorted(out)
    for a, b in zip(ks, ks[1:]): h.true('lines from top to bottom', bool(out[b] < out[a]))
    return out
def look(h, fig, nodes, n, m, labels=None, lines=True, single=(), counts=None):
    """nodes: [(optical channels, classical channels)] in program order; returns {node: (page, x)}"""
    pages = fig.pages()
    on, cn = labels or (['optical %d' % k for k in range(n)], ['classical %d' % k for k in range(m)])
    y = rows(h, pages, n, m, on, cn)
    h.true('pages in order', [p.k for p in pages] == list(range(len(pages))))
    at = {}
    for j, (oc, cc) in enumerate(nodes):
        want = [('%d.o%d' % (j, i), c) for i, c in enumerate(oc)] + [('%d.c%d' % (j, i), n + c) for i, c in enumerate(cc)]
        seen = []
        for token, row in want:
            hits = [(p, s, e) for p in pages for s, e in enumerate(p.log) if e[0] == 'plot' and e[3].get('color') == token]
            h.true('node %d has one mark on channel %d' % (j, row), len(hits) == 1 and len(hits[0][2][1]) == 1 and len(hits[0][2][2]) == 1, len(hits))
            if len(hits) != 1: continue
            p, s, e = hits[0]; x = e[1][0]; seen.append((p, x, s))
            h.eq('mark of node %d on its channel' % j, e[2][0], y[row])
            h.true('mark not hidden', not any(q[0] == 'patch' and bool(q[1].x < x) and bool(x < q[1].x + q[1].w) for q in p.log[s:]), x)
            own = [q for q in p.log if q[0] == 'plot' and q[3].get('color') == (OL if row < n else CL) and len(q[1]) == 2 and bool(q[1][0] <= x) and bool(x <= q[1][1])]
            h.true('on a line', any(h.is_zero(q[2][0] - y[row]) and h.is_zero(q[2][1] - y[row]) for q in own), x)
        if not seen: continue
        h.true('node %d in one place' % j, len({(p.k, x) for p, x, s in seen}) == 1, [(p.k, x) for p, x, s in seen])
        p, x, s = seen[0]; at[j] = (p.k, x)
        rs = sorted(r for t, r in want)
        if len(set(rs)) > 1:
            parts = [(min(e[2]), max(e[2])) for e in p.log if e[0] == 'plot' and e[3].get('color') in ('%d.o.line' % j, '%d.c.line' % j) and len(e[1]) > 1 and all(h.is_zero(v - x) for v in e[1])]
            end = y[rs[-1]]; left = list(parts)
            while left:
                more = [q for q in left if bool(q[0] <= end)]
                if not more: break
                left = [q for q in left if q not in more]; end = max([end] + [q[1] for q in more])
            h.true('line of node %d' % j, bool(end >= y[rs[0]]), end)
        boxes_ = [e for e in p.log if e[0] == 'plot' and e[3].get('color') == BOX]
        around = [e for e in boxes_ if all(bool(min(e[1]) < x) and bool(x < max(e[1])) and bool(min(e[2]) < y[q]) and bool(y[q] < max(e[2])) for q in rs)]
        h.true('in one box', len(around) == 1, len(around))
        for e in around: h.true('box', len(e[1]) == 5 and all(h.is_zero(v[0] - v[4]) and all(h.is_zero(t - min(v)) or h.is_zero(t - max(v)) for t in v) for v in (e[1], e[2])) and not any(h.is_zero(e[1][a] - e[1][b]) and h.is_zero(e[2][a] - e[2][b]) for a in range(4) for b in range(a)))
        notes = [(q, e) for q in pages for e in q.log if e[0] == 'text' and e[1] == 'node %d' % j]
        h.true('label of node %d' % j, len(notes) == (0 if j in single else 1), len(notes))
        for q, e in notes: h.true('label at the node', q is p and bool(e[2][0] <= x) and bool(e[2][1] > y[rs[0]]) and bool(x - e[2][0] < 50))
    marks = [e[3].get('color') for p in fig.grid.ravel() for e in p.log if e[0] == 'plot' and str(e[3].get('color')).split('.')[0].isdigit() and not str(e[3].get('color')).endswith('line')]
    h.true('one box per label', sum(1 for p in pages for e in p.log if e[0] == 'plot' and e[3].get('color') == BOX) == sum(1 for p in pages for e in p.log if e[0] == 'text' and str(e[1]).startswith('node ')))
    h.true('no other marks', len(marks) == sum(len(a) + len(b) for a, b in nodes), len(marks))
    R = [[c for c in oc] + [n + c for c in cc] for oc, cc in nodes]
    for i in at:
        for j in at:
            if i < j and set(R[i]) & set(R[j]): h.true('%d before %d' % (i, j), at[i] < at[j], (at[i], at[j]))
            elif i < j and min(R[i]) <= max(R[j]) and min(R[j]) <= max(R[i]): h.true('%d and %d apart' % (i, j), at[i] != at[j], (at[i], at[j]))
    return at
def state_of(c): return [(nd['node_type'], {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in nd['node_info'].items()}) for nd in c.node_list], c._no_of_optical_channels, c._no_of_classical_channels
def picture(h, fig): return [(e[0],) + ((tuple(e[1]), tuple(e[2]), e[3].get('color')) if e[0] == 'plot' else e[1:3] if e[0] == 'text' else (e[1].x, e[1].w)) for p in fig.pages() for e in p.log]
def nothing(x, p): return x

def channels(h, j, shape, n, m):
    """symbolic channels: 'oo' two optical ones, 'oc' an optical and a classical one, ..."""
    o, c = [], []
    if isinstance(shape, tuple): return list(shape), []
    for i, s in enumerate(shape):
        dest, top = (o, n) if s == 'o' else (c, m)
        k = h.integer('%s%d_%d' % (s, j, i), 0, top - 1)
        for q in dest: h.assume(k != q)
        dest.append(k)
    return o, c
def layout(h, n, m, shapes, per, twice=False):
    """nodes on symbolic channels"""
    c = h.circuit(2, n, c=m, circuit_name='the circuit'); nodes = []
    for j, sh in enumerate(shapes):
        o, cl = channels(h, j, sh, n, m); nodes.append((o, cl))
        c.generic_function_on_collection(nothing, affected_optical_channels=list(o), affected_classical_channels=list(cl), node_info=info(j, len(o), len(cl)))
    before = state_of(c); given = settings(h, per); keep = dict(given)
    figs = drawing(h, lambda: c.draw(settings_for_drawing_circuit=given))
    h.true('one drawing', len(figs) == 1); h.true('settings kept', given == keep)
    h.true('circuit kept', h.same(state_of(c), before))
    nodes = [([int(v) for v in o], [int(v) for v in cl]) for o, cl in nodes]
    look(h, figs[0], nodes, n, m)
    h.true('title and name', figs[0].pages()[0].titles == ['Optical circuit'] and any(e[0] == 'text' and e[1] == 'the circuit' for e in figs[0].pages()[0].log))
    if twice:
        again = drawing(h, lambda: c.draw(settings_for_drawing_circuit=given))
        h.true('the same again', h.same(picture(h, again[0]), picture(h, figs[0])))

def kinds(h, kind, per=10):
    """every kind of node, with the drawing information it carries by itself"""
    n, m = 4, 3
    c = h.circuit(3, n, c=m, circuit_name='x'); add = []
    o = [h.integer('o%d' % k, 0, n - 1) for k in range(4)]; q = [h.integer('q%d' % k, 0, m - 1) for k in range(2)]
    def opt(k):
        for i in range(k):
            for j in range(i): h.assume(o[i] != o[j])
        v = [int(x) for x in o[:k]]; return v
    def cla(k):
        if k == 2: h.assume(q[0] != q[1])
        return [int(x) for x in q[:k]]
    want = None
    two = lambda f, *a, **k: (lambda v: (f(v[0], v[1], *a, **k), [(v, [])])[1])(opt(2))
    if kind == 'wave_plate': want = two(c.wave_plate, theta=.3, phi=.2)
    elif kind in ('half_wave_plate', 'quarter_wave_plate'): want = two(getattr(c, kind), angle=.3)
    elif kind in ('half_wave_plate_45', 'half_wave_plate_225', 'quarter_wave_plate_45', 'quarter_wave_plate_225', 'swap', 'mix_50_50'): want = two(getattr(c, kind))
    elif kind == 'mix_generic_refl_transm': want = two(c.mix_generic_refl_transm, reflection=.36, transmission=.64)
    elif kind == 'wave_plate_from_hamiltonian': want = two(c.wave_plate_from_hamiltonian, theta=.3, phi=.2)
    elif kind == 'phase': v = opt(1); c.phase_shift_single_channel(v[0], .3); want = [(v, [])]
    elif kind in ('non_polarizing_beamsplitter', 'non_polarizing_50_50_beamsplitter', 'polarizing_beamsplitter'):
        v = opt(4); getattr(c, kind)((v[0], v[1]), (v[2], v[3])); want = [([v[0], v[2]], []), ([v[1], v[3]], [])] if kind != 'polarizing_beamsplitter' else [([v[1], v[3]], [])]
    elif kind == 'custom': v = opt(2); c.custom_optical_node(np.array([[0, 1], [1, 0]]), list(v)); want = [(v, [])]
    elif kind == 'fock': c.custom_fock_state_node(np.eye(3 ** n)); want = [(list(range(n)), [])]
    elif kind in ('shift', 'shift_direct'): v = opt(2); getattr(c, kind)(list(v), [1, 2]); want = [(v, [])]
    elif kind in ('c_shift', 'c_shift_direct'): v = opt(2); getattr(c, kind)([v[0]], [v[1]]); want = [(v, [])]
    elif kind == 'channel_coupling': v = opt(2); c.channel_coupling([v[0]], [v[1]], .3); want = [(v, [])]
    elif kind == 'hamiltonian':
        v = opt(2); c.hamiltonian_operator_gate(list(v), [[[0, 0], [0, 0]]]); want = [(v, [])]
    elif kind == 'measure': v, w = opt(2), cla(2); c.measure_optical_to_classical(list(v), list(w)); want = [(v, w)]
    elif kind == 'set': w = cla(2); c.set_classical_channels([1, 2], list(w)); want = [([], w)]
    elif kind == 'function': w = cla(2); c.classical_channel_function(lambda a, b, d: a, affected_channels=list(w)); want = [([], w)]
    elif kind == 'controlled_phase': v, w = opt(1), cla(1); c.phase_shift_single_channel_classical_control(v[0], w[0]); want = [(v, w)]
    elif kind in ('wave_plate_classical_control', 'wave_plate_from_hamiltonian_classical_control'): v, w = opt(2), cla(2); getattr(c, kind)(v[0], v[1], w[0], w[1]); want = [(v, w)]
    elif kind in ('time_delay_full', 'time_delay'): v = opt(2); getattr(c, kind)(list(v), .5, 1); want = [(v, [])]
    elif kind in ('time_delay_classical_control_full', 'time_delay_classical_control'): v, w = opt(2), cla(1); getattr(c, kind)(list(v), w[0], 1); want = [(v, w)]
    elif kind == 'set_pulse_width': v = opt(2); c.set_pulse_width(list(v), 1); want = [(v, [])]
    elif kind == 'generic': v, w = opt(1), cla(1); c.generic_function_on_collection(nothing, list(v), list(w)); want = [(v, w)]
    elif kind == 'pr': v = opt(4); c.popescu_rohrlich_correlation_gate([{'channels_Ah_Av_Bh_Bv': list(v), 'quantumness_indicator': .5}]); want = [(v, [])]
    elif kind == 'ns': v = opt(4); c.create_no_signalling_boxes([{'channels_Ah_Av_Bh_Bv': list(v), 'quantumness_indicator': .5}]); want = [(v, [])]
    before = state_of(c)
    figs = drawing(h, lambda: c.draw(settings_for_drawing_circuit=settings(h, per)))
    h.true('circuit kept', h.same(state_of(c), before))
    pages = figs[0].pages(); y = rows(h, pages, n, m, ['optical %d' % k for k in range(n)], ['classical %d' % k for k in range(m)])
    got = {}
    for p in pages:
        for e in p.log:
            if e[0] == 'plot' and len(e[1]) == 1 and e[3].get('color') not in (OL, CL) and e[3].get('linestyle') != 'none' and e[3].get('marker') not in (None, 'none'):
                rs = [r for r in y if h.is_zero(e[2][0] - y[r])]; h.true('on a channel', len(rs) == 1)
                got.setdefault((p.k, e[1][0]), []).append(rs[0])
    h.true('marks', [sorted(got[k]) for k in sorted(got)] == [sorted(v + [n + k for k in w]) for v, w in want], (got, want))
    names = [e[1] for p in pages for e in p.log if e[0] == 'text' and e[1] == c.node_list[0]['node_info']['label']]
    h.true('label', len(names) == 1, names)

def boxes(h, n, per, groups, shapes=None):
    """combined nodes share a box; groups: [(name or None, number of nodes)]"""
    c = h.circuit(2, n, c=1, circuit_name='x'); nodes = []; single = []; last = None
    for g, k in groups:
        for i in range(k):
            j = len(nodes); o, cl = channels(h, j, shapes[j] if shapes else 'oo' if j % 3 != 2 else 'o', n, 1); nodes.append((o, cl))
            c.generic_function_on_collection(nothing, affected_optical_channels=list(o), affected_classical_channels=list(cl), node_info=info(j, len(o), 0, **({'combined_gate': g} if g else {})))
            if g and i and (k + 1) // 2 <= per: single.append(j)
    before = state_of(c)
    figs = drawing(h, lambda: c.draw(settings_for_drawing_circuit=settings(h, per)))
    h.true('circuit kept', h.same(state_of(c), before))
    nodes = [([int(v) for v in o], [int(v) for v in cl]) for o, cl in nodes]
    look(h, figs[0], nodes, n, 1, single=single)

def bridged(h, parts, per, compound=False):
    """circuits one after the other; parts: [(optical, classical channels, shapes of the nodes)]"""
    cs = []; nodes = []; N_, M_ = max(p[0] for p in parts), max(p[1] for p in parts)
    for i, (n, m, shapes) in enumerate(parts):
        c = h.circuit(2, n, c=m, circuit_name='part %d' % i); cs.append(c)
        for sh in shapes:
            j = len(nodes); o, cl = channels(h, j, sh, n, m); nodes.append((o, cl, i))
            c.generic_function_on_collection(nothing, affected_optical_channels=list(o), affected_classical_channels=list(cl), node_info=info(j, len(o), len(cl)))
    S = settings(h, per)
    if compound:
        whole = h.fsc.CompoundFockStateCircuit(list_of_circuits=list(cs)); run = whole
    else:
        for a, b in zip(cs, cs[1:]): a.bridge(b)
        run = cs[0]
    figs = drawing(h, lambda: run.draw(settings_for_drawing_circuit=S))
    h.true('one drawing', len(figs) == 1)
    at = look(h, figs[0], [([int(v) for v in o], [int(v) for v in cl]) for o, cl, i in nodes], N_, M_)
    for a in at:
        for b in at:
            if nodes[a][2] < nodes[b][2]: h.true('circuits in order', at[a] < at[b], (at[a], at[b]))
    for i in range(len(parts)):
        nm = [(p.k, e[2][0]) for p in figs[0].pages() for e in p.log if e[0] == 'text' and e[1] == 'part %d' % i]
        h.true('name of circuit %d' % i, len(nm) >= 1)
        first = min([at[a] for a in at if nodes[a][2] == i])
        h.true('name at its start', nm[0][0] == first[0] and nm[0][1] <= first[1], (nm, first))

def stations(h, n, m, shapes, names, per=10, draw=None):
    """every station shows its part of the circuit; the channels belong to symbolic stations"""
    c = h.circuit(2, n, c=m, circuit_name='x'); nodes = []; kinds_ = []; c0 = None; shapes = list(shapes)
    for j, sh in enumerate(shapes):
        j = len(nodes)
        kind, ch = sh
        if kind == 'bridge':
            d = h.circuit(2, n, c=m, circuit_name='y'); c0 = c0 or c; c.bridge(d); c = d; continue
        o, cl = [v for v in ch if v < n], [v - n for v in ch if v >= n]; nodes.append((o, cl)); kinds_.append(kind)
        if kind == 'measure': c.measure_optical_to_classical(list(o), list(cl), node_info=info(j, len(o), len(cl))); continue
        c.generic_function_on_collection(nothing, affected_optical_channels=list(o), affected_classical_channels=list(cl), node_info=info(j, len(o), len(cl)))
    c = c0 or c
    owner = [names[int(h.integer('s%d' % k, 0, len(names) - 1))] for k in range(n + m)]
    parts = {s: {'optical_channels': [k for k in range(n) if owner[k] == s], 'classical_channels': [k for k in range(m) if owner[n + k] == s]} for s in names}
    todo = names if draw is None else [draw] if isinstance(draw, str) else draw
    before = state_of(c); want = {s: {k: list(v) for k, v in d.items()} for s, d in parts.items()}
    arg = {'station_channels': parts}
    if draw is not None: arg['station_to_draw'] = draw
    busy = [s for s in todo if any(owner[k] == s for o, cl in nodes for k in o + [n + v for v in cl])]
    if len(busy) < len(todo): return
    figs = drawing(h, lambda: c.draw_station(arg, settings_for_drawing_circuit=settings(h, per)))
    h.true('circuit kept', h.same(state_of(c), before)); h.true('stations kept', parts == want)
    h.true('one drawing per station', len(figs) == len(todo), len(figs))
    sign = {}
    for s, fig in zip(todo, figs):
        o_, c_ = want[s]['optical_channels'], want[s]['classical_channels']
        h.true('title', fig.pages()[0].titles == ['Optical circuit, station: ' + s], fig.pages()[0].titles)
        local = []; 
        for o, cl in nodes: local.append(([o_.index(k) for k in o if k in o_], [c_.index(k) for k in cl if k in c_]))
        y = rows(h, fig.pages(), len(o_), len(c_), ['%s, Opt.%d' % (s, k) for k in range(len(o_))], ['%s, Clas.%d' % (s, k) for k in range(len(c_))])
        at = {}
        for j, ((o, cl), (lo, lc)) in enumerate(zip(nodes, local)):
            hits = [(p, e) for p in fig.pages() for e in p.log if e[0] == 'plot' and str(e[3].get('color')).startswith('%d.' % j) and not e[3].get('color').endswith('line')]
            h.true('marks of node %d' % j, len(hits) == len(lo) + len(lc), len(hits))
            rs = sorted(r for p, e in hits for r in y if h.is_zero(e[2][0] - y[r]))
            h.true('channels of node %d' % j, rs == sorted(lo + [len(o_) + k for k in lc]), rs)
            others = {owner[k] for k in o + [n + v for v in cl]} - {s}
            if kinds_[j] == 'measure': others = {q for a, b in zip(o, cl) for q in (owner[a], owner[n + b]) if s in (owner[a], owner[n + b])} - {s}
            if not hits: continue
            p, x = hits[0][0], hits[0][1][1][0]
            h.true('one place', all(q is p and e[1][0] == x for q, e in hits)); at[j] = (p.k, x)
            notes = [e for e in p.log if e[0] == 'text' and str(e[1]).startswith('To station(s):') and bool(e[2][0] > x) and bool(e[2][0] < x + 40 / per)]
            light = lambda who: (any(owner[k] == who for k in o), any(owner[n + k] == who for k in cl))
            nature = set()
            for q in others:
                a, b = light(s), light(q)
                if kinds_[j] == 'measure' or a == (False, True) or b == (False, True): nature |= {'c'}
                elif a == b == (True, False): nature |= {'o'}
                else: nature |= {'o', 'c'}
            down = [e for e in p.log if e[0] == 'plot' and len(e[1]) == 2 and e[1][0] == x and h.is_zero(e[2][0]) and e[3].get('color') != 'white']
            h.true('nature of the connections of node %d' % j, sorted(e[3]['color'] for e in down) == ['%d.%s.line' % (j, q) for q in sorted(nature)], ([e[3]['color'] for e in down], nature))
            signs = [e[3]['marker'] for e in p.log if e[0] == 'plot' and len(e[1]) == 1 and e[1][0] == x and h.is_zero(e[2][0]) and str(e[3].get('marker')).startswith('$')]
            h.true('one sign', len(signs) == (1 if others else 0), signs)
            for q in signs: h.true('same sign at every station', sign.setdefault(j, q) == q, (sign, q))
            h.true('connections of node %d' % j, len(notes) == (1 if others else 0) and all(sorted(e[1].split('\n')[1].split(',')) == sorted(others) for e in notes), ([e[1] for e in notes], others))
        R = [lo + [len(o_) + k for k in lc] for lo, lc in local]
        for i in at:
            for j in at:
                if i < j and set(R[i]) & set(R[j]): h.true('order', at[i] < at[j], (at[i], at[j]))
    if c0 is None: h.true('signs differ', len(set(sign.values())) == len(sign), sign)

def cases(tier, seed):
    out = []
    def add(nm, fn, tier='quick', **k): out.append(Case(nm, fn, tier=tier, **k))
    add('layout-oo', layout, n=3, m=0, shapes=['oo'], per=10)
    add('layout-oo-oo', layout, n=4, m=0, shapes=['oo', 'oo'], per=10)
    add('layout-o-oo-o', layout, n=3, m=0, shapes=['o', 'oo', 'o'], per=2)
    add('layout-oc-oo-c', layout, n=2, m=2, shapes=['oc', 'oo', 'c'], per=2, twice=True)
    for k in ('wave_plate', 'half_wave_plate', 'quarter_wave_plate', 'half_wave_plate_45', 'half_wave_plate_225', 'quarter_wave_plate_45', 'quarter_wave_plate_225', 'swap', 'mix_50_50', 'mix_generic_refl_transm', 'wave_plate_from_hamiltonian', 'phase',
              'non_polarizing_beamsplitter', 'non_polarizing_50_50_beamsplitter', 'polarizing_beamsplitter', 'custom', 'fock', 'shift', 'shift_direct', 'c_shift', 'c_shift_direct', 'channel_coupling', 'hamiltonian', 'measure', 'set', 'function', 'controlled_phase',
              'wave_plate_classical_control', 'wave_plate_from_hamiltonian_classical_control', 'time_delay_full', 'time_delay', 'time_delay_classical_control_full', 'time_delay_classical_control', 'set_pulse_width', 'generic', 'pr', 'ns'):
        add('kind-' + k, kinds, kind=k)
    for k, g in {'one': [('a', 1)], 'two': [('a', 2)], 'three': [('a', 3)], 'before': [(None, 1), ('a', 2)], 'after': [('a', 2), (None, 1)], 'apart': [('a', 1), (None, 1), ('a', 1)], 'next': [('a', 2), ('b', 1)], 'long': [('a', 5)], 'verylong': [('a', 7)]}.items():
        add('boxes-' + k, boxes, n=2, per=3 if k != 'page' else 2, groups=g)
    add('boxes-between', boxes, n=5, per=3, groups=[('a', 1), (None, 1)], shapes=['oo', 'o'])
    add('boxes-around', boxes, n=5, per=3, groups=[('a', 2), (None, 1)], shapes=[(0, 4), 'o', 'o'])
    add('boxes-beside', boxes, n=4, per=3, groups=[('a', 2), (None, 1)], shapes=['o', 'o', 'o'])
    add('boxes-page', boxes, n=2, per=2, groups=[(None, 1), ('a', 3)])
    for comp in (False, True):
        s = '-compound' if comp else ''
        add('bridged-2' + s, bridged, parts=[(2, 1, ['oo', 'c']), (2, 0, ['oo'])], per=10, compound=comp)
        add('bridged-page' + s, bridged, parts=[(2, 0, ['oo', 'o']), (3, 1, ['oo'])], per=2, compound=comp)
        add('bridged-3' + s, bridged, parts=[(2, 0, ['oo']), (2, 1, ['oc', 'o']), (2, 0, ['o'])], per=3, compound=comp)
        add('bridged-wide' + s, bridged, parts=[(3, 0, ['o', 'o', 'o']), (2, 0, ['o'])], per=3, compound=comp)
    add('stations-2', stations, n=2, m=2, shapes=[('', (0, 1)), ('', (1, 2)), ('', (3,))], names=['alice', 'bob'])
    add('stations-3', stations, n=3, m=1, shapes=[('', (0, 1, 2)), ('', (0, 3)), ('', (2,))], names=['a', 'b', 'c'])
    add('stations-measure', stations, n=2, m=2, shapes=[('', (0, 1)), ('measure', (0, 1, 2, 3)), ('', (2, 3))], names=['alice', 'bob', 'c'])
    add('stations-bridge', stations, n=2, m=1, shapes=[('', (0, 1)), ('bridge', ()), ('', (1, 2)), ('', (0,))], names=['alice', 'bob'])
    add('stations-page', stations, n=2, m=1, shapes=[('', (0, 1)), ('', (1, 2)), ('', (0,)), ('', (0, 1, 2))], names=['alice', 'bob'], per=2)
    add('stations-one', stations, n=3, m=1, shapes=[('', (0, 2)), ('', (1, 3))], names=['a', 'b'], draw='b')
    add('stations-some', stations, n=3, m=1, shapes=[('', (0, 2)), ('', (1, 3))], names=['a', 'b', 'c'], draw=['c', 'a'])
    return out
