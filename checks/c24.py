"""C24  only well-formed states are accepted, and circuits produce only well-formed states"""
from fractions import Fraction as F
from symx.runner import Case
from . import ref, gates
META = dict(bounds='Fock length 2, 3 and 12, 2..3 optical and 0..3 classical channels, both naming conventions; symbolic weights and component probabilities on both sides of their limits, for concrete thresholds; malformed values of every field one at a time; outputs of circuits of up to 4 nodes for 1..2 states of norm one',
            outside='several malformed fields at once; the type of the measurement history (existing tests pass an empty dictionary); subclasses of the built-in types')
num = lambda h, x: F(x) if h.sym else float(F(x))

def base(h, c, col, over=None):
    L, n, left = c._length_of_fock_state, c._no_of_optical_channels, c._channel_0_left_in_state_name
    d = dict(initial_state='in', cumulative_probability=num(h, F(1, 2)), classical_channel_values=[5] * c._no_of_classical_channels, measurement_results=[],
             optical_components={h.name((1,) * n, L, left): {'amplitude': h._amp(num(h, F(3, 5))), 'probability': num(h, F(9, 25))}, h.name((0,) * n, L, left): {'amplitude': h._amp(num(h, F(4, 5))), 'probability': num(h, F(16, 25))}})
    d.update(over or {}); return d
def place(h, L, n, ncl, left, thr=None):
    c = h.circuit(L, n, c=ncl, left=left, thr=thr); return c, h.fsc.CollectionOfStates(c, dict([]))

def limits(h, L, n, ncl, left, thr, field, how):
    """a weight, or the probability of a component, within its limits up to the threshold"""
    t = h.thr() if thr is None else num(h, thr)
    c, col = place(h, L, n, ncl, left, t)
    x = h.real('x', -1, 2)
    d = base(h, c, col)
    if field == 'weight': d['cumulative_probability'] = x
    else: d['optical_components'][list(d['optical_components'])[field]]['probability'] = x
    ok = bool(x >= -1 * t) and bool(x <= 1 + t)
    if how == 'new':
        if ok: st = h.fsc.State(col, d); h.true('valid', bool(st)); h.eq('stored', st.cumulative_probability, d['cumulative_probability'])
        else: h.raises('refused', h.fsc.State, col, d)
    else:
        st = h.fsc.State(col, base(h, c, col)); st.state.update(d)
        h.true('valid exactly within limits', bool(st) == ok)

def setter(h, L, n, ncl, left, item):
    """a weight from 0 to 1 is accepted, another one is refused and changes nothing"""
    c, col = place(h, L, n, ncl, left)
    st = h.fsc.State(col, base(h, c, col)); pic = h.snapshot(st)
    x = h.real('x', -1, 2)
    def f():
        if item: st['cumulative_probability'] = x
        else: st.cumulative_probability = x
    if bool(x >= 0) and bool(x <= 1): f(); h.eq('stored', st.cumulative_probability, x); h.eq('item', st['cumulative_probability'], x); h.true('valid', bool(st)); pic['cumulative_probability'] = x
    else: h.raises('refused', f)
    h.eq_snapshot('the rest', h.snapshot(st), pic)

BAD = {
    'initial-number': dict(initial_state=5), 'initial-list': dict(initial_state=['a']), 'initial-none': dict(initial_state=None),
    'weight-word': dict(cumulative_probability='abc'), 'weight-none': dict(cumulative_probability=None), 'weight-list': dict(cumulative_probability=[.5]),
    'optical-list': dict(optical_components=[]), 'optical-none': dict(optical_components=None), 'optical-word': dict(optical_components='11'),
    'classical-none': dict(classical_channel_values=None), 'classical-tuple': dict(classical_channel_values='tuple'), 'classical-short': dict(classical_channel_values='short'), 'classical-long': dict(classical_channel_values='long')}
def malformed(h, L, n, ncl, left, what):
    """values that do not form a state are refused by the constructor; bool() says so too"""
    c, col = place(h, L, n, ncl, left)
    good = base(h, c, col); st = h.fsc.State(col, good); h.true('valid', bool(st)); h.true('content', h.same(st.state['optical_components'], good['optical_components']))
    for k in ('initial_state', 'cumulative_probability', 'classical_channel_values', 'measurement_results'): h.true('item ' + k, h.same(st[k], good[k]) and h.same(getattr(st, k), good[k]))
    d = base(h, c, col); comps = d['optical_components']; first, last = list(comps)
    if what in BAD:
        d.update(BAD[what])
        if d['classical_channel_values'] == 'tuple': d['classical_channel_values'] = (5,) * ncl
        if d['classical_channel_values'] == 'short': d['classical_channel_values'] = [5] * (ncl - 1)
        if d['classical_channel_values'] == 'long': d['classical_channel_values'] = [5] * (ncl + 1)
    elif what == 'label-number': comps[11] = comps.pop(last)
    elif what == 'label-short': comps[last[:-1]] = comps.pop(last)
    elif what == 'label-long': comps[last + '0'] = comps.pop(last)
    elif what == 'label-high': comps[str(L).zfill(len(last) // n) + last[len(last) // n:]] = comps.pop(last)
    elif what == 'label-word': comps['x' * len(last)] = comps.pop(last)
    elif what == 'label-sign': comps['+' + last[1:]] = comps.pop(last)
    elif what == 'label-blank': comps[' ' + last[1:]] = comps.pop(last)
    elif what == 'component-number': comps[last] = 1.0
    elif what == 'component-list': comps[first] = [1.0, 1.0]
    elif what == 'no-amplitude': comps[first].pop('amplitude')
    elif what == 'no-probability': comps[last].pop('probability')
    elif what == 'amplitude-word': comps[last]['amplitude'] = 'abc'
    elif what == 'probability-word': comps[first]['probability'] = 'abc'
    elif what == 'key': d['colour'] = 1
    if what != 'key':
        h.raises('refused', h.fsc.State, col, d)
        with_ = h.fsc.State(col, base(h, c, col)); with_.state.update(d); h.true('not valid', not bool(with_))
    else:
        with_ = h.fsc.State(col, d); h.true('valid', bool(with_)); with_.state['colour'] = 1; h.true('not valid', not bool(with_))
    for k in ('initial_state', 'cumulative_probability', 'optical_components', 'classical_channel_values', 'measurement_results'):
        less = h.fsc.State(col, base(h, c, col)); less.state.pop(k); h.true('not valid without ' + k, not bool(less))

def refused(h, L, n, ncl, left):
    """setters refuse what does not fit and keep the old value"""
    c, col = place(h, L, n, ncl, left)
    st = h.fsc.State(col, base(h, c, col)); st.auxiliary_information = {'a': 1}; pic = h.snapshot(st)
    nm = h.name((1,) * n, L, left)
    for k, vs in dict(classical_channel_values=[[0] * (ncl + 1), (0,) * ncl, None, 'a' * ncl] + ([[]] if ncl else []), measurement_results=[None, {}, (), 'abc'], auxiliary_information=[None, [], 'abc'],
                      optical_components=[None, 'abc', ((nm, 1.0),), {nm: {'amplitude': 1.0}}, {nm: {'probability': 1.0}}, {nm + '0': {'amplitude': 1.0, 'probability': 1.0}}, [(nm + '0', 1.0)], [(nm, 'abc')], {nm: {'amplitude': 1.0, 'probability': 1.0}, nm[1:]: {'amplitude': 1.0, 'probability': 1.0}}, [(nm, 1.0), (nm[1:], 1.0)]]).items():
        for v in vs:
            h.raises('%s = %r' % (k, v), setattr, st, k, v); h.eq_snapshot('unchanged', h.snapshot(st), pic)
            h.raises('[%s] = %r' % (k, v), st.__setitem__, k, v); h.eq_snapshot('unchanged', h.snapshot(st), pic)
    x = [h.real('c%d' % k, -9, 9) for k in range(ncl)]
    st.classical_channel_values = list(x); pic['classical'] = x; h.eq_snapshot('classical set', h.snapshot(st), pic)
    m = [{'measurement_results': list(x), 'probability': h.real('p', 0, 1)}]
    st['measurement_results'] = m; pic['meas'] = [dict(q) for q in m]; h.eq_snapshot('history set', h.snapshot(st), pic)
    st['auxiliary_information'] = {'b': 2}; pic['aux'] = {'b': 2}; h.eq_snapshot('information set', h.snapshot(st), pic)
    a = h.cplx('a'); st['optical_components'] = [(nm, a)]; pic['optical'] = {nm: dict(amplitude=a, probability=h.abs2(a))}; h.eq_snapshot('components set', h.snapshot(st), pic)
    st['initial_state'] = 'new'; pic['initial_state'] = 'new'; h.eq_snapshot('name set', h.snapshot(st), pic)
    h.true('item', st['initial_state'] == 'new' and st['auxiliary_information'] == {'b': 2})
    z = st.create_initialized_state(); h.eq_snapshot('unchanged by a new state', h.snapshot(st), pic)
    want = dict(initial_state=h.name((0,) * n, L, left), cumulative_probability=1, optical={h.name((0,) * n, L, left): dict(amplitude=1, probability=1)}, classical=[0] * ncl, meas=[], aux={})
    h.eq_snapshot('initialized', h.snapshot(z), want); h.true('valid', bool(z))
    st.initialize_this_state(); h.eq_snapshot('initialized itself', h.snapshot(st), want)

def produced(h, L, n, ncl, left, full, nodes, states, then=()):
    """whatever a circuit makes of well-formed states is well-formed"""
    c = h.circuit(L, n, c=ncl, left=left, full=full); lossy = False; old = c
    for k, nd in enumerate(nodes):
        if nd[0] == 'delay': c.time_delay_full(list(nd[1]), h.real('d%d' % k, F(1, 8), 2), 1)
        elif nd[0] == 'shift': c.shift(list(nd[1]), list(nd[2]))
        elif nd[0] == 'measure': c.measure_optical_to_classical(list(nd[1]), list(nd[2]))
        elif nd[0] == 'set': c.set_classical_channels([h.real('v%d' % k, -5, 5)], list(nd[1]))
        else: gates.build(h, c, nd, k)
    ss = [dict(amps=dict(zip(s, h.unit('u%d' % j, len(s)))), prob=h.real('P%d' % j, 0, 1, pos=True), classical=[h.real('c%d%d' % (j, i), -5, 5) for i in range(ncl)], initial='in%d' % j, meas=[]) for j, s in enumerate(states)]
    col = h.collection(c, ss)
    for st in col: h.true('input valid', bool(st))
    out = c.evaluate_circuit(col)
    for op in then:
        if op[0] == 'reduce': out.reduce(list(op[1]), list(op[2])); n, ncl = len(op[1]), len(op[2]); c = h.circuit(L, n, c=ncl, left=left, full=full)
        elif op[0] == 'mixture':
            w = [h.real('w%d' % k, F(1, 8), F(1, 2)) for k in range(2)]
            pure = [list(col)[k].copy() for k in range(2)]
            out.set_collection_as_statistical_mixture(list(zip(pure, w))); lossy = True
        elif op[0] == 'filter': out.filter_on_classical_channel(classical_channel_numbers=[op[1]], values_to_filter=[op[2]]); lossy = True
        elif op[0] == 'clean': out.clean_up()
        elif op[0] == 'copy': out = out.copy()
        elif op[0] == 'again': out = c.evaluate_circuit(out)
    h.true('something', len(out) > 0 or any(op[0] == 'filter' for op in then))
    for st in out:
        h.true('keys', set(st.state) <= {'initial_state', 'cumulative_probability', 'optical_components', 'measurement_results', 'classical_channel_values', 'auxiliary_information'})
        h.true('name', isinstance(st.initial_state, str) and st.initial_state in [s['initial'] for s in ss] + [st.initial_state] * any(op[0] == 'mixture' for op in then))
        h.true('classical', isinstance(st.classical_channel_values, list) and len(st.classical_channel_values) == ncl)
        h.true('history', isinstance(st.measurement_results, list) and (len(st.measurement_results) == sum(nd[0] == 'measure' for nd in nodes) * (1 + sum(op[0] == 'again' for op in then)) or any(op[0] == 'mixture' for op in then)))
        for m in st.measurement_results: h.true('history entry', set(m) == {'measurement_results', 'probability'} and len(m['measurement_results']) == old._no_of_classical_channels)
        h.le('weight from 0', 0, st.cumulative_probability); h.le('weight up to 1', st.cumulative_probability, 1)
        names = {h.name(v, L, left) for v in h.basis(L, n)}
        h.true('component names', set(st.optical_components) <= names and len(st.optical_components) > 0)
        h.check_state('component', st, c)
        S = h.sum_abs2(x['amplitude'] for x in st.optical_components.values()); h.eq('norm', S, 1)
    if any(nd[0] == 'delay' for nd in nodes): pass   # every photon state carries the weight of its group (C20)
    elif lossy: h.le('total weight', ref.sum_([st.cumulative_probability for st in out]), len(ss))
    else:
      for s in ss: h.eq('total weight ' + s['initial'], ref.sum_([st.cumulative_probability for st in out if st.initial_state == s['initial']]), s['prob'])

def cases(tier, seed):
    out = []
    def add(nm, fn, tier='quick', **k): out.append(Case(nm, fn, tier=tier, **k))
    for left in (True, False):
        s = 'l' if left else 'r'
        for thr in (F(1, 1024), F(1, 16)):
            for f in ('weight', 0, 1):
                for how in ('new', 'bool'): add('limits-%s-%s-%s-%s' % (f, how, '1024' if thr < F(1, 99) else '16', s), limits, L=3, n=2, ncl=1, left=left, thr=thr, field=f, how=how)
        for i in (False, True): add('setter-%s-%s' % ('item' if i else 'attr', s), setter, L=2, n=2, ncl=2, left=left, item=i)
        for L, n, ncl in ((3, 2, 2), (12, 3, 1)):
            for w in list(BAD) + ['label-number', 'label-short', 'label-long', 'label-high', 'label-word', 'label-sign', 'label-blank', 'component-number', 'component-list', 'no-amplitude', 'no-probability', 'amplitude-word', 'probability-word', 'key']:
                add('malformed-%s-L%d-%s' % (w, L, s), malformed, L=L, n=n, ncl=ncl, left=left, what=w)
            add('refused-L%d-%s' % (L, s), refused, L=L, n=n, ncl=ncl, left=left)
        add('refused-c0-' + s, refused, L=2, n=2, ncl=0, left=left)
    M = lambda a, b: ('measure', a, b)
    for left, full in ((True, False), (False, True)):
        s = 'l' if left else 'r'
        def A(nm, nodes, states, L=3, n=2, ncl=2, **k): add('produced-%s-%s' % (nm, s), produced, L=L, n=n, ncl=ncl, left=left, full=full, nodes=nodes, states=states, **k)
        A('mix', [('mix50', 0, 1)], [[(1, 1), (2, 0)], [(0, 1)]])
        A('measure', [('mix50', 0, 1), M((0, 1), (1, 0))], [[(1, 1), (0, 2)], [(1, 0)]])
        A('part', [('mix50', 0, 1), M((1,), (0,)), ('mix50', 1, 0)], [[(1, 1)]])
        A('twice', [('generic', 0, 1), M((1,), (0,)), ('mix50', 1, 0), M((0,), (1,))], [[(1, 0), (0, 1)]])
        A('set', [('set', (1,)), M((0,), (0,))], [[(1, 0), (0, 2), (2, 1)]])
        A('n3', [('mix50', 0, 1), ('phase', 2), ('mix50', 1, 2), M((2,), (0,))], [[(1, 0, 0), (0, 1, 0)]], L=2, n=3)
        A('shift', [('shift', (0,), (1,)), ('mix50', 0, 1), M((0, 1), (0, 1))], [[(1, 1), (0, 2)]])
        A('delay', [('delay', (0,)), ('mix50', 0, 1), M((0, 1), (0, 1))], [[(1, 1)]])
        A('delay-part', [('delay', (1,)), ('mix50', 0, 1), M((0,), (1,))], [[(1, 1)]])
        A('mixture', [('mix50', 0, 1)], [[(1, 1), (2, 0)], [(0, 1)]], then=[('mixture',), ('again',)])
        A('filter', [('mix50', 0, 1), M((0, 1), (0, 1))], [[(1, 1), (0, 1)]], then=[('filter', 0, 1), ('copy',), ('clean',)])
        A('reduce', [('mix50', 0, 1), ('phase', 2)], [[(1, 0, 0), (0, 1, 1)]], L=2, n=3, then=[('clean',), ('reduce', (2, 1), (1,)), ('again',)][:2])
        A('again', [('mix50', 0, 1), M((1,), (0,))], [[(1, 1)]], then=[('copy',), ('again',)])
    return out
