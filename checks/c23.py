"""C23  the decomposition of states into photon columns is lossless"""
import itertools
from math import factorial
from fractions import Fraction as F
from symx.runner import Case
from . import ref
META = dict(bounds='Fock length 2, 3, 4 and 12, 1..3 optical channels, states of 1..4 components with symbolic complex amplitudes of norm 1, symbolic weights, classical values, column amplitudes, boson factors and photon overlaps; up to 4 columns per group and 3 states per collection',
            outside='states whose norm is not 1; several columns of a group with the same component (documented: boson factors have to be rescaled by the caller); components with amplitude exactly zero')
PR = 'photon_resolution'
KEYS = ('column_amplitude', 'column_boson_factor', 'column_identifier', 'group_cumulative_probability', 'interference_group_identifier')
fact = lambda v: __import__('math').prod(factorial(m) for m in v)
root = lambda h, x: h.sqrt(F(x) if h.sym else float(x))

def mk(h, L, n, comps, left, j=0, ncl=1, initial=None, amps=None, meas=True):
    c = h.circuit(L, n, c=ncl, left=left)
    if amps is None: amps = dict(zip(comps, h.unit('u%d' % j, len(comps))))
    return c, dict(amps=amps, prob=h.real('P%d' % j, 0, F(1, 2), pos=True), classical=[h.real('c%d%d' % (j, i), -2, 2) for i in range(ncl)], initial=initial or 'in%d' % j,
                   meas=[{'measurement_results': [j] * ncl, 'probability': 0.5}] if meas else [], aux={'tag': [j]})
def one(h, L, n, comps, left, **k):
    c, s = mk(h, L, n, comps, left, **k)
    col = h.collection(c, [s])
    return c, s, [t for t in col][0]
def consistent(h, g, lab=''):
    """the group, its columns and the tags of its states all tell the same"""
    ids = []
    for col in g:
        key = col.column_identifier; ids.append(key)
        h.true(lab + 'group identifier', col.interference_group_identifier == g.interference_group_identifier)
        h.eq(lab + 'group weight', col.group_cumulative_probability, g.group_cumulative_probability)
        tags(h, col, lab)
        h.true(lab + 'by identifier', g.extract_column_by_identifier(key) is col)
    h.true(lab + 'identifiers differ', len(set(ids)) == len(ids) == len(g))
    h.true(lab + 'by_column', [id(x) for x in g.by_column()] == [id(x) for x in g])
    h.true(lab + 'by_state', [id(t) for t in g.by_state()] == [id(t) for x in g for t in x])
def tags(h, col, lab=''):
    for t in col:
        for k in KEYS: h.eq(lab + 'tag ' + k, t.auxiliary_information[PR][k], getattr(col, k))
def kept(h, t, s, lab=''):
    h.true(lab + 'initial state', t.initial_state == s['initial'])
    h.eq(lab + 'classical', list(t.classical_channel_values), list(s['classical']))
    h.true(lab + 'history', h.same(t.measurement_results, s['meas']))
    h.true(lab + 'other information', t.auxiliary_information.get('tag') == s['aux']['tag'])
def by_component(h, c, g):
    out = {}
    for col in g:
        v = tuple(col.generate_optical_component_corresponding_to_column(return_values_instead_of_component_name_as_string=True))
        out.setdefault(v, []).append(col)
    return out

def decompose(h, L, n, comps, left, gid=None):
    """split, expand into photons, put back together"""
    c, s, st = one(h, L, n, comps, left)
    pic = h.snapshot(st)
    back = {}
    for how in ('as it is', 'split', 'photons'):
        t = st.copy()
        h.eq_snapshot('untouched', h.snapshot(st), pic)
        g = h.fsc.InterferenceGroup(state=t) if gid is None else h.fsc.InterferenceGroup(state=t, interference_group_identifier=gid)
        h.true('one column', len(g) == 1); h.eq('weight', g.group_cumulative_probability, s['prob']); consistent(h, g, 'new ')
        h.true('identifier', g.interference_group_identifier == (gid or 0), g.interference_group_identifier)
        if how != 'as it is':
            for again in (0, 1):
                g.split_columns()
                h.true('columns', len(g) == len(comps), len(g)); consistent(h, g, 'split ')
                h.eq('weight after split', g.group_cumulative_probability, s['prob'])
                got = by_component(h, c, g)
                h.true('components', set(got) == set(comps) and all(len(x) == 1 for x in got.values()), got)
                for v in comps:
                    if v not in got: continue
                    col = got[v][0]
                    h.true('one state', len(col) == 1)
                    if len(comps) > 1:
                        h.eq('amplitude %s' % (v,), col.column_amplitude, s['amps'][v]); h.eq_amps('component', h.amps(col[0], c), {v: 1})
                        h.true('single', col.all_states_single_optical_component())
                    h.eq('boson factor', col.column_boson_factor, 1)
                    h.true('photons', col.all_states_single_photon_states() == (sum(v) < 2))
                    h.true('name', col.generate_optical_component_corresponding_to_column() == h.name(v, L, left))
                    kept(h, col[0], s, 'split ')
        if how == 'photons':
            g.single_photon_states(); consistent(h, g, 'photons ')
            h.true('columns', len(g) == len(comps))
            h.eq('weight after expansion', g.group_cumulative_probability, s['prob'])
            got = by_component(h, c, g)
            h.true('components', set(got) == set(comps), got)
            for v in comps:
                if v not in got: continue
                col = got[v][0]
                h.eq('boson factor %s' % (v,), col.column_boson_factor, root(h, fact(v)))
                if len(comps) > 1: h.eq('amplitude %s' % (v,), col.column_amplitude, s['amps'][v])
                h.true('number of states', len(col) == max(1, sum(v)), len(col))
                h.true('single photons', col.all_states_single_photon_states() and all(sum(list(h.amps(t, c))[0]) == min(1, sum(v)) for t in col))
                h.true('list of photons', [p[0] for p in col.list_of_photons()] == [k for k, m in enumerate(v) for _ in range(m)], col.list_of_photons())
                for t in col: kept(h, t, s, 'photon ')
                h.true('name', col.generate_optical_component_corresponding_to_column() == h.name(v, L, left))
                h.true('stored name', col.generate_optical_component_corresponding_to_column(use_stored_values=True) == h.name(v, L, left))
                h.true('distinct states', len({id(t) for t in col}) == len(col))
        r = g.generate_single_state_from_interference_group()
        kept(h, r, s, how + ' '); h.eq(how + ' weight', r.cumulative_probability, s['prob'])
        h.true(how + ' no columns left', PR not in r.auxiliary_information)
        got = h.amps(r, c)
        if len(comps) > 1: h.eq_amps(how, got, s['amps'])
        else: h.eq(how, {v: h.abs2(a) for v, a in got.items()}, {comps[0]: 1})
        h.true(how + ' components', set(got) == set(comps), got)
        h.check_state(how, r, c)
    h.eq_snapshot('untouched', h.snapshot(st), pic)

def refuse(h, L, n, comps, left, where):
    """a column with undivided components is not expanded into photons"""
    c, s, st = one(h, L, n, comps, left)
    if where == 'column': h.raises('refused', h.fsc.ColumnOfStates(state=st).single_photon_states)
    elif where == 'second':
        _, s2, st2 = one(h, L, n, comps[:1], left, j=1)
        h.raises('refused', h.fsc.ColumnOfStates(list_of_states=[st2, st]).single_photon_states)
    elif where == 'group': h.raises('refused', h.fsc.InterferenceGroup(state=st).single_photon_states)
    elif where == 'both':
        h.raises('refused', lambda: h.fsc.ColumnOfStates(list_of_states=[st], state=st.copy()))
        col = h.fsc.ColumnOfStates(state=st)
        h.raises('refused', lambda: h.fsc.InterferenceGroup(list_of_state_columns=[col], state=st.copy()))

def column(h, L, n, lists, left, j=0, info=None):
    """a column of states with one component each, symbolic amplitude and boson factor"""
    c = h.circuit(L, n, c=1, left=left)
    ss = [dict(amps={v: 1}, prob=h.real('P%d%d' % (j, k), 0, F(1, 2), pos=True), classical=[h.real('c%d%d' % (j, k), -2, 2)], initial='in', meas=[{'measurement_results': [k], 'probability': 0.5}], aux={'tag': [k]}) for k, v in enumerate(lists)]
    cs = h.collection(c, ss)
    col = h.fsc.ColumnOfStates(list_of_states=[t for t in cs], column_information=info if info is not None else
        dict(column_amplitude=h.cplx('a%d' % j), column_boson_factor=h.real('b%d' % j, F(1, 2), 3, pos=True), column_identifier=3 + j, group_cumulative_probability=h.real('G%d' % j, 0, 1, pos=True), interference_group_identifier=7))
    return c, ss, col

def picture(h, col): return [h.snapshot(t) for t in col], {k: getattr(col, k) for k in KEYS}
def same_picture(h, lab, a, b):
    h.true(lab + ' states', len(a[0]) == len(b[0]))
    for x, y in zip(a[0], b[0]): h.eq_snapshot(lab, x, y)
    for k in KEYS: h.eq(lab + ' ' + k, a[1][k], b[1][k])

def condense(h, L, n, lists, left, flag, api):
    """one state with the photons of all states; the boson factor follows"""
    c, ss, col = column(h, L, n, lists, left)
    tags(h, col)
    tot = tuple(sum(x) for x in zip(*lists)); pic = picture(h, col)
    fits = max(tot) < L
    name = col.generate_optical_component_corresponding_to_column()
    h.true('name', name == (h.name(tot, L, left) if fits else None), name)
    h.true('values', tuple(col.generate_optical_component_corresponding_to_column(return_values_instead_of_component_name_as_string=True)) == tot)
    same_picture(h, 'column after its name', picture(h, col), pic)
    h.true('photons', [p[0] for p in col.list_of_photons()] == [k for v in lists for k, m in enumerate(v) for _ in range(m)])
    h.true('all single photons', col.all_states_single_photon_states() == all(sum(v) < 2 for v in lists))
    h.true('all single components', col.all_states_single_optical_component())
    kw = {} if flag is None else dict(use_group_cumulative_probability_for_state=flag)
    if not fits:
        h.raises('too many photons', getattr(col, api), **kw); same_picture(h, 'column after refusal', picture(h, col), pic); return
    a, b, G = pic[1]['column_amplitude'], pic[1]['column_boson_factor'], pic[1]['group_cumulative_probability']
    if api == 'condense_column_to_single_state':
        col.condense_column_to_single_state(**kw)
        h.true('one state', len(col) == 1); tags(h, col)
        want = 1
        for v in lists: want = want * fact(v)
        h.eq('boson factor', col.column_boson_factor, b * root(h, F(want, fact(tot))))
        for k in KEYS:
            if k != 'column_boson_factor': h.eq(k, getattr(col, k), pic[1][k])
        t = col[0]
    else:
        t = col.generate_single_state_from_column(**kw)
        same_picture(h, 'column untouched', picture(h, col), pic)
        h.true('no columns left', PR not in t.auxiliary_information)
    h.eq_amps('photons', h.amps(t, c), {tot: 1}); h.check_state('state', t, c)
    h.true('initial', t.initial_state == 'in')
    if flag is not False: h.eq('weight', t.cumulative_probability, G * h.abs2(a))
    else: h.true('weight kept', any(h.same(t.cumulative_probability, s['prob']) for s in ss))

def expand(h, L, n, lists, left):
    """expansion of a column of several states: every photon once, boson factor times the factorials"""
    c, ss, col = column(h, L, n, lists, left)
    pic = picture(h, col)
    col.set_photon_information({'time_delay': 1})
    col.single_photon_states(); tags(h, col)
    h.true('photons', [p[0] for p in col.list_of_photons()] == [k for v in lists for k, m in enumerate(v) for _ in range(m)])
    h.true('vacuum kept', len(col) == sum(max(1, sum(v)) for v in lists), len(col))
    h.true('information kept', all(p[1] == {'time_delay': 1} for p in col.list_of_photons()))
    w = 1
    for v in lists: w = w * fact(v)
    h.eq('boson factor', col.column_boson_factor, pic[1]['column_boson_factor'] * root(h, w))
    for k in KEYS:
        if k != 'column_boson_factor': h.eq(k, getattr(col, k), pic[1][k])
    k = 0
    for s, v in zip(ss, lists):
        for _ in range(max(1, sum(v))): kept(h, col[k], s); h.eq('weight of state', col[k].cumulative_probability, s['prob']); k += 1
    col.condense_column_to_single_state() if max(sum(x) for x in zip(*lists)) < L else None
    if len(col) == 1 and len(lists) == 1: h.eq('boson factor back', col.column_boson_factor, pic[1]['column_boson_factor'])

def information(h, L, n, lists, left, filt, default, form):
    """photon information reaches the states that match, others get the default or keep theirs"""
    c, ss, col = column(h, L, n, lists, left)
    A, B, D = ({'time_delay': h.real(x, -2, 2), 'pulse_width': 1} for x in 'ABD')
    h.true('none yet', all(p[1] == {} for p in col.list_of_photons()))
    col.set_photon_information(A)
    same = lambda t, X: h.same(t.auxiliary_information[PR]['photon_information'], X)
    h.true('all', all(same(t, A) for t in col)); tags(h, col)
    kw = dict(filter_for_optical_values=[form(v) for v in filt])
    if default: kw['default_photon_information'] = D
    col.set_photon_information(B, **kw); tags(h, col)
    for t, v in zip(col, lists): h.true('photon %s' % (v,), same(t, B if v in filt else D if default else A))

def rebuild(h, L, n, left, source):
    """the constructor: arguments before what the first state tells, before the defaults"""
    c, ss, col = column(h, L, n, [(1,) * n, (0,) * n], left)
    pic = picture(h, col)
    ts = [t for t in col]
    if source == 'states':
        new = h.fsc.ColumnOfStates(list_of_states=ts); same_picture(h, 'rebuilt', picture(h, new), pic)
        new = h.fsc.ColumnOfStates(state=ts[1])
        for k in KEYS: h.eq('rebuilt ' + k, getattr(new, k), pic[1][k])
    elif source == 'over':
        x = dict(column_boson_factor=h.real('bb', 1, 2, pos=True), column_identifier=11)
        for new in (h.fsc.ColumnOfStates(list_of_states=ts, column_information=x), h.fsc.ColumnOfStates(state=ts[0], column_information=x)):
            for k in KEYS: h.eq('given ' + k, getattr(new, k), x.get(k, pic[1][k]))
            tags(h, new)
    elif source == 'defaults':
        D = dict(column_amplitude=1, column_boson_factor=1, column_identifier=0, group_cumulative_probability=1, interference_group_identifier=0)
        t = ts[0].copy(); t.auxiliary_information.pop(PR)
        u = ts[0].copy(); u.auxiliary_information[PR] = {'photon_information': {'time_delay': 1}}
        for new in (h.fsc.ColumnOfStates(state=t), h.fsc.ColumnOfStates(), h.fsc.ColumnOfStates(list_of_states=[u])):
            for k in KEYS: h.eq('default ' + k, getattr(new, k), D[k])
            tags(h, new)
        x = dict(column_identifier=4, column_amplitude=h.cplx('aa'))
        new = h.fsc.ColumnOfStates(column_information=x)
        h.true('empty', len(new) == 0)
        for k in KEYS: h.eq('empty ' + k, getattr(new, k), x.get(k, D[k]))
        h.true('defaults not shared', h.fsc.ColumnOfStates().column_identifier == 0)
    elif source == 'add':
        e = h.fsc.ColumnOfStates(); w = h.real('w', 0, 1, pos=True)
        e.column_identifier = 5; e.interference_group_identifier = 6; e.column_amplitude = h.cplx('aa'); e.column_boson_factor = h.real('bb', 1, 2, pos=True); e.group_cumulative_probability = w
        t = ts[0].copy(); t.auxiliary_information.pop(PR)
        before = [h.snapshot(x) for x in ts]
        e.add_state(t); e.add_state(ts[1].copy()); tags(h, e); h.true('two', len(e) == 2 and e[0] is t)
        h.eq('weight', e.group_cumulative_probability, w)
        h.true('new columns empty', len(h.fsc.ColumnOfStates()) == 0)
        for x, y in zip(ts, before): h.eq_snapshot('others', h.snapshot(x), y)
    elif source == 'copy':
        new = col.copy(); same_picture(h, 'copy', picture(h, new), pic); tags(h, new)
        new.column_amplitude = 5; new.column_identifier = 99; new.group_cumulative_probability = 0; new.column_boson_factor = 9; new.interference_group_identifier = 8
        new.set_photon_information({'time_delay': 3}); new[0].classical_channel_values[0] = 77; new[0].measurement_results.append({}); new[0].initial_state = 'x'
        new.condense_column_to_single_state()
        same_picture(h, 'original', picture(h, col), pic); tags(h, col)

def identifiers(h, left, script):
    """columns and states are added under the identifiers asked for; nothing is overwritten"""
    fsc = h.fsc; L, n = 3, 2
    c = h.circuit(L, n, c=1, left=left)
    k = [0]
    def st(ident=None, pr=None):
        k[0] += 1
        cs = h.collection(c, [dict(amps={(1, k[0] % 3): 1}, prob=F(1, 4) if h.sym else .25, classical=[k[0]], initial='in', meas=[], aux={})])
        t = [x for x in cs][0]
        if pr is not None: t.auxiliary_information[PR] = dict(pr)
        return t
    g = fsc.InterferenceGroup(interference_group_identifier=4)
    h.true('empty', len(g) == 0 and g.interference_group_identifier == 4); h.eq('weight 1', g.group_cumulative_probability, 1)
    model = {}              # identifier -> list of states
    def free():
        i = 0
        while i in model: i += 1
        return i
    for op in script:
        if op[0] == 'column':
            own, want = op[1], op[2]
            t = st(); col = fsc.ColumnOfStates(state=t, column_information=dict(column_identifier=own, interference_group_identifier=4))
            g.add_column(col) if want is None else g.add_column(col, column_identifier=want)
            model[free() if want is None or want in model else want] = [t]
        else:
            own, want = op[1], op[2]
            t = st(pr=None if own is None else {} if own == 'none' else {'column_identifier': own, 'interference_group_identifier': 4})
            g.add_state(t) if want is None else g.add_state(t, column_identifier=want)
            ident = want if want is not None else own if own != 'none' else None
            if ident is None: ident = free()
            model.setdefault(ident, []).append(t)
        h.true('columns after %s' % (op,), {col.column_identifier: [id(t) for t in col] for col in g} == {i: [id(t) for t in ts] for i, ts in model.items()},
               ({col.column_identifier: len(col) for col in g}, {i: len(x) for i, x in model.items()}))
        consistent(h, g)
    g.interference_group_identifier = 9; consistent(h, g)
    w = h.real('w', 0, 1, pos=True); g.group_cumulative_probability = w; consistent(h, g); h.eq('weight', g.group_cumulative_probability, w)

def groups_from_columns(h, left, given):
    c, s0, A = column(h, 3, 2, [(1, 1)], left, 0); _, s1, B = column(h, 3, 2, [(2, 0), (0, 1)], left, 1)
    B.column_identifier = {'same': 3, 'other': 4}[given[0]]; w = A.group_cumulative_probability
    B.group_cumulative_probability = w
    g = h.fsc.InterferenceGroup(list_of_state_columns=[A, B]) if given[1] is None else h.fsc.InterferenceGroup(list_of_state_columns=[A, B], interference_group_identifier=given[1])
    h.true('columns', [id(x) for x in g] == [id(A), id(B)]); h.eq('weight', g.group_cumulative_probability, w)
    h.true('identifier', g.interference_group_identifier == (7 if given[1] is None else given[1]))
    consistent(h, g)
    for col in g: col.interference_group_identifier = 77
    g.set_interference_group_identifier(); consistent(h, g)

def rescale(h, L, n, lists, left, what):
    """column amplitudes rescaled to norm one; boson factors to the wave packets of the column"""
    cols = []; ls = []
    for j, l in enumerate(lists):
        c, s, col = column(h, L, n, l, left, j); h.nonzero(col.column_amplitude); cols.append(col)
    if what == 'amplitudes':
        old = [col.column_amplitude for col in cols]
        g = h.fsc.InterferenceGroup(list_of_state_columns=cols); b = [col.column_boson_factor for col in cols]
        g.rescale_column_amplitudes()
        S = h.sqrt(h.sum_abs2(old))
        for col, x, y in zip(g, old, b): h.eq('amplitude', col.column_amplitude, x / S); h.eq('boson factor', col.column_boson_factor, y); tags(h, col)
        h.eq('norm', ref.sum_([h.abs2(col.column_amplitude) for col in g]), 1)
        return
    q = h.real('q', 0, 1, pos=True)
    for col in cols:
        for k, t in enumerate(col): t.auxiliary_information[PR]['photon_information'] = {'kind': k % 2}
    g = h.fsc.InterferenceGroup(list_of_state_columns=cols)
    g.photon_probability_function = lambda x, y: 1 if x['kind'] == y['kind'] else q
    if what == 'boson':
        a = [col.column_amplitude for col in g]
        g.rescale_boson_factors()
        for col, l, x in zip(g, lists, a):
            h.eq('amplitude', col.column_amplitude, x); tags(h, col)
            ph = [(k, i % 2) for i, v in enumerate(l) for k, m in enumerate(v) for _ in range(m)]
            tot = tuple(sum(v) for v in zip(*l))
            # |amplitude|^2 / (projection factor * boson factor)^2 * sum over pairings (all orders of either side) = |amplitude|^2
            per = 1
            for ch in range(n):
                X = [p[1] for p in ph if p[0] == ch]; tt = 0
                for o in itertools.permutations(range(len(X))):
                    w = 1
                    for i, j in zip(range(len(X)), o): w = w * (1 if X[i] == X[j] else q)
                    tt = tt + w
                per = per * tt * factorial(len(X))
            h.eq('boson factor', col.column_boson_factor * col.column_boson_factor * fact(tot), per)

def outcomes(h, L, n, comps, left, only):
    """all outcomes of a total measurement: the squared moduli, adding up to one"""
    c, s, st = one(h, L, n, comps, left)
    g = h.fsc.InterferenceGroup(state=st); g.photon_probability_function = lambda x, y: 1
    g.split_columns(); g.single_photon_states()
    lst = None if only is None else [h.name(v, L, left) for v in only]
    got = g.total_probability_for_group_all_outcomes() if only is None else g.total_probability_for_group_all_outcomes(list_of_projections=lst)
    h.true('outcomes', set(got) == set(lst if lst is not None else [h.name(v, L, left) for v in comps]), got)
    want = lambda v: 1 if len(comps) == 1 and v in comps else h.abs2(s['amps'][v]) if v in comps else 0
    for v in (comps if only is None else only): h.eq('outcome %s' % (v,), got.get(h.name(v, L, left), 0), want(v))
    if only is None: h.eq('sum', ref.sum_(got.values()), 1)

def whole(h, L, n, specs, left, steps):
    """a collection taken apart and put back together"""
    c = None; ss = []
    for j, (i, comps) in enumerate(specs):
        c, s = mk(h, L, n, comps, left, j, initial=i); ss.append(s)
    cs = h.collection(c, ss)
    pic = [h.snapshot(t) for t in cs]
    cc = h.fsc.CollectionOfStateColumns(collection_of_states=cs.copy())
    def look(x, k):
        gs = [g for g in x.by_group()]
        h.true('groups', len(gs) == len(specs), len(gs))
        h.true('by column', [id(y) for y in x.by_column()] == [id(y) for g in gs for y in g])
        h.true('by state', [id(t) for t in x.by_state()] == [id(t) for g in gs for t in g.by_state()])
        h.true('dictionary', {i: [id(g) for g in d.values()] for i, d in x.as_dictionary().items()} == {i: [id(g) for g in gs if next(g.by_state()).initial_state == i] for i in x.as_dictionary()})
        left_ = list(range(len(specs)))
        for g in gs:
            consistent(h, g)
            t = next(g.by_state()); j = t.auxiliary_information['tag'][0]
            h.true('group once', j in left_); left_.remove(j)
            h.eq('weight', g.group_cumulative_probability, ss[j]['prob'])
            for t in g.by_state(): kept(h, t, ss[j])
            if k:
                got = by_component(h, c, g)
                h.true('components', set(got) == set(specs[j][1]), got)
                for v in specs[j][1]:
                    if v in got:
                        if len(specs[j][1]) > 1: h.eq('amplitude', got[v][0].column_amplitude, ss[j]['amps'][v])
                        h.eq('boson factor', got[v][0].column_boson_factor, root(h, fact(v)) if k == 2 else 1)
            else: h.true('one state', len(list(g.by_state())) == 1); h.eq_amps('components', h.amps(t, c), ss[j]['amps'])
        for i in x.as_dictionary(): h.true('identifiers', len({g.interference_group_identifier for g in x.as_dictionary()[i].values()}) == len(x.as_dictionary()[i]) and all(a == g.interference_group_identifier for a, g in x.as_dictionary()[i].items()))
    k = 0; look(cc, 0)
    for s in steps:
        if s == 'split': cc.split(); k = max(k, 1)
        elif s == 'photons': cc.single_photon_states(); k = 2
        elif s == 'again': cc = cc.new_instance_from_state_information()
        elif s == 'collection':
            out = cc.generate_collection_of_states(); mine = {id(t) for t in cc.by_state()}
            h.true('copies', not any(id(t) in mine for t in out)); h.true('states', len(out) == len(mine))
            for t in out: t.classical_channel_values[0] = 55; t.auxiliary_information[PR]['column_amplitude'] = 5
        look(cc, k)
    f = lambda a, b: 1
    h.raises('no function yet', lambda: cc.photon_probability_function)
    cc.photon_probability_function = f
    h.true('function', cc.photon_probability_function is f and all(g.photon_probability_function is f for g in cc.by_group()))
    for g in cc.by_group():
        r = g.generate_single_state_from_interference_group(); j = r.auxiliary_information['tag'][0]
        h.eq('weight back', r.cumulative_probability, ss[j]['prob']); kept(h, r, ss[j])
        if len(specs[j][1]) > 1: h.eq_amps('back', h.amps(r, c), ss[j]['amps'])
        else: h.true('back', list(h.amps(r, c)) == list(specs[j][1]))
    for t, p in zip(cs, pic): h.eq_snapshot('given collection', h.snapshot(t), p)

def preset(h, L, n, left, marks):
    """states which carry the names of their groups and columns: every state lands in the group and column it names, in order"""
    c = None; ss = []
    comps = [v for v in itertools.product(range(L), repeat=n) if sum(v)]
    for j, (i, gid, cid) in enumerate(marks):
        c, s = mk(h, L, n, [comps[j % len(comps)]], left, j, initial=i, amps={comps[j % len(comps)]: 1}); ss.append(s)
    amp = {}; fac = {}; wgt = {}
    for i, gid, cid in marks:
        amp.setdefault((i, gid, cid), h.cplx('a%d' % len(amp))); fac.setdefault((i, gid, cid), h.real('b%d' % len(fac), 0, 2, pos=True)); wgt.setdefault((i, gid), h.real('w%d' % len(wgt), 0, 1))
    for s, (i, gid, cid) in zip(ss, marks):
        s['aux'][PR] = {'column_amplitude': amp[i, gid, cid], 'column_boson_factor': fac[i, gid, cid], 'column_identifier': cid, 'group_cumulative_probability': wgt[i, gid], 'interference_group_identifier': gid}
    x = h.fsc.CollectionOfStateColumns(collection_of_states=h.collection(c, ss))
    for k in range(2):
        want = {}
        for j, (i, gid, cid) in enumerate(marks): want.setdefault(i, {}).setdefault(gid, {}).setdefault(cid, []).append(j)
        got = {i: {a: {col.column_identifier: [t.measurement_results[0]['measurement_results'][0] for t in col] for col in g} for a, g in d.items()} for i, d in x.as_dictionary().items()}
        h.true('membership', got == want, (got, want))
        h.true('order', [list(d) for d in got.values()] == [list(d) for d in want.values()], got)
        for i, d in x.as_dictionary().items():
            for a, g in d.items():
                h.true('group', g.interference_group_identifier == a); h.eq('weight', g.group_cumulative_probability, wgt[i, a]); consistent(h, g)
                for col in g:
                    h.eq('amplitude', col.column_amplitude, amp[i, a, col.column_identifier]); h.eq('boson factor', col.column_boson_factor, fac[i, a, col.column_identifier])
                    for t in col: kept(h, t, ss[t.measurement_results[0]['measurement_results'][0]])
            used = set(want[i]); free = x.find_next_free_interference_group_identifier(i)
            h.true('next free group', free == min(v for v in range(len(marks) + 1) if v not in used), free)
        x = x.new_instance_from_state_information()

def cases(tier, seed):
    out = []
    def add(nm, fn, tier='quick', **k): out.append(Case(nm, fn, tier=tier, **k))
    S = {'1': [(1, 2)], 'vac': [(0, 0)], '2': [(1, 1), (2, 0)], '2v': [(0, 0), (2, 2)], '3': [(0, 2), (1, 0), (2, 2)], '4': [(2, 1), (0, 0), (1, 1), (0, 1)]}
    for left in (True, False):
        s = 'l' if left else 'r'
        for k, v in S.items(): add('decompose-%s-%s' % (k, s), decompose, L=3, n=2, comps=v, left=left)
        add('decompose-id-' + s, decompose, L=3, n=2, comps=S['2'], left=left, gid=5)
        add('decompose-n3-' + s, decompose, L=4, n=3, comps=[(1, 1, 0), (0, 1, 1), (1, 0, 1), (3, 0, 0)], left=left)
        pass
        add('decompose-long-' + s, decompose, L=12, n=2, comps=[(1, 11), (11, 1), (10, 0)], left=left, )
        for w in ('column', 'second', 'group', 'both'): add('refuse-%s-%s' % (w, s), refuse, L=3, n=2, comps=S['2'], left=left, where=w)
        for k, l in {'ex1': [(0, 0, 1), (1, 0, 0), (1, 0, 0)], 'ex2': [(0, 1), (0, 1), (1, 0), (1, 0)], 'ex3': [(2, 0), (0, 2)], 'ex4': [(1, 1), (1, 1)], 'one': [(2, 1)], 'vac': [(0, 0), (2, 1)], 'allvac': [(0, 0)], 'big': [(2, 1), (1, 0)],
                     'mixed': [(1, 2), (1, 0), (0, 0)]}.items():
            for flag in (None, True, False):
                for api in ('condense_column_to_single_state', 'generate_single_state_from_column'):
                    add('condense-%s-%s-%s-%s' % (k, api[:3], {None: 'd', True: 't', False: 'f'}[flag], s), condense, L=3, n=len(l[0]), lists=l, left=left, flag=flag, api=api)
            add('expand-%s-%s' % (k, s), expand, L=3, n=len(l[0]), lists=l, left=left)
        for i, (l, f) in enumerate((([(1, 0), (0, 1), (1, 0)], [(1, 0)]), ([(1, 0), (0, 1)], []), ([(0, 0), (0, 2), (2, 0)], [(0, 2), (0, 0)]))):
            for d in (True, False): add('information-%d-%s-%s' % (i, 'd' if d else 'k', s), information, L=3, n=2, lists=l, left=left, filt=f, default=d, form=tuple if d else list)
        for x in ('states', 'over', 'defaults', 'add', 'copy'): add('rebuild-%s-%s' % (x, s), rebuild, L=3, n=2, left=left, source=x)
        scripts = [[('column', 0, None), ('column', 0, None), ('column', 5, None)], [('column', 2, 2), ('column', 0, None), ('column', 2, 2), ('column', 1, 6)], [('column', 0, 3), ('column', 1, 0), ('column', 9, None), ('column', 9, 3)],
                   [('state', None, None), ('state', None, None), ('state', None, 0), ('state', None, 4), ('state', None, 4)], [('state', 2, None), ('state', 2, None), ('state', 3, 2), ('state', 2, 5), ('state', 5, None)],
                   [('state', None, 7), ('column', 7, 7), ('state', 7, None), ('state', None, None), ('state', 'none', None)], [('state', 'none', None), ('state', 'none', None), ('state', 'none', 1)]]
        for i, x in enumerate(scripts): add('identifiers-%d-%s' % (i, s), identifiers, left=left, script=x)
        for a in ('same', 'other'):
            for b in (None, 0, 5): add('columns-%s-%s-%s' % (a, b, s), groups_from_columns, left=left, given=(a, b))
        add('rescale-1-' + s, rescale, L=3, n=2, lists=[[(1, 1)]], left=left, what='amplitudes')
        add('rescale-3-' + s, rescale, L=3, n=2, lists=[[(1, 1)], [(2, 0)], [(0, 1), (1, 0)]], left=left, what='amplitudes')
        add('boson-1-' + s, rescale, L=4, n=2, lists=[[(1, 0), (1, 0)]], left=left, what='boson')
        add('boson-2-' + s, rescale, L=4, n=2, lists=[[(1, 0), (0, 1), (1, 0)], [(0, 1), (0, 1)]], left=left, what='boson')
        add('boson-3-' + s, rescale, L=4, n=2, lists=[[(1, 0), (1, 0), (1, 0)]], left=left, what='boson')
        for k, v in S.items(): add('outcomes-%s-%s' % (k, s), outcomes, L=3, n=2, comps=v, left=left, only=None)
        add('outcomes-only-' + s, outcomes, L=3, n=2, comps=S['3'], left=left, only=[(1, 0), (2, 2)])
        add('outcomes-other-' + s, outcomes, L=3, n=2, comps=S['3'], left=left, only=[(1, 1), (0, 2)])
        for st in (['split'], ['split', 'photons'], ['collection', 'split', 'collection', 'photons', 'collection'], ['split', 'again', 'photons', 'again']):
            add('whole-%s-%s' % ('-'.join(st), s), whole, L=3, n=2, specs=[('in0', [(1, 1), (2, 0)]), ('in0', [(0, 1)]), ('in1', [(2, 1), (0, 0), (1, 1)])], left=left, steps=st)
        for i, m in enumerate(([('a', 1, 0), ('a', 0, 0), ('a', 1, 0), ('a', 3, 2), ('a', 3, 0)], [('a', 2, 1), ('b', 2, 1), ('a', 2, 1), ('b', 0, 4), ('a', 0, 1)], [('a', 0, 0), ('a', 1, 0), ('a', 1, 1), ('a', 0, 1), ('a', 2, 0)], [('b', 4, 4)])):
            add('preset-%d-%s' % (i, s), preset, L=3, n=2, left=left, marks=m)
    return out
