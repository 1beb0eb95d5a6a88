"""C05  component names, photon-number lists and indices are mutually inverse"""
import itertools
from symx.runner import Case
META = dict(bounds='arithmetic: all photon numbers / indices for symbolic Fock length 2..1200 and up to 6 channels; names: every photon-number vector for the listed lengths (1, 2 and 3 digits), 1..4 channels, both conventions; lookup histories of up to 3 (thorough 4) operations',
            outside='names longer than 3 digits per channel, more than 4 channels for strings')

def objs(h, L, n, left):
    cn = h.fsc.ComponentNames(length_of_fock_state=L, no_of_optical_channels=n, channel_0_left_in_state_name=left)
    return cn, h.fsc.OpticalValues(cn)
def index(v, L): return sum(x * L ** i for i, x in enumerate(v))

# ------------------------------------------------------------ arithmetic, fully symbolic
def weigh(h, n, left):
    """index_of(values) = sum n_i L^i and reorder, for symbolic photon numbers and a symbolic Fock length"""
    cn, ov = objs(h, 7, n, left)
    L = h.integer('L', 2, 1200)
    cn.length_of_fock_state = ov.length_of_fock_state = L
    v = [h.integer('v%d' % i, 0, 1199) for i in range(n)]
    want = 0; p = 1
    for x in v: want = want + x * p; p = p * L
    h.eq('index', ov.index_of(v), want, tol=1e-3)
    for perm in itertools.permutations(range(n)):
        w = 0; p = 1
        for i in perm: w = w + v[i] * p; p = p * L
        h.eq('reorder%s' % (perm,), ov.reorder(v, list(perm)), w, tol=1e-3)

def digits(h, L, n, left):
    """index -> values: photon numbers within range whose weighted sum is the index, for every index"""
    cn, ov = objs(h, L, n, left)
    i = h.integer('idx', 0, L ** n - 1)
    v = ov.at_index(i)
    h.true('length', len(v) == n)
    s = 0
    for k, x in enumerate(v):
        h.true('low %d' % k, x >= 0); h.true('high %d' % k, x < L)
        s = s + x * L ** k
    h.true('weighted sum', s == i)
    h.eq('index_of', ov.index_of(v), i, tol=1e-3)

def member(h, L, n, left):
    """membership of photon-number lists: exactly the vectors with every entry in 0..L-1"""
    cn, ov = objs(h, L, n, left)
    v = [h.integer('v%d' % i, -2, L + 2) for i in range(n)]
    ok = all(bool(x >= 0) and bool(x < L) for x in v)
    h.true('list', bool(v in ov) == ok); h.true('tuple', bool(tuple(v) in ov) == ok)
    h.true('short', (v[:-1] in ov) == False); h.true('long', (v + [0]) not in ov)

# ------------------------------------------------------------ names
def names(h, L, n, left, lo=0):
    v = tuple(h.choose('v%d' % i, range(lo, L)) for i in range(n))
    cn, ov = objs(h, L, n, left)
    nm = h.name(v, L, left); i = index(v, L)
    first = h.choose('first', ['ov', 'cn', 'in', 'at'])
    if first == 'cn': h.true('name->values', list(cn[nm]) == list(v))
    if first == 'in': h.true('in', nm in cn)
    if first == 'at': h.true('at_index', cn.at_index(i) == nm)
    h.true('values->name', ov[v] == nm, ov[v]); h.true('values->name (list)', ov[list(v)] == nm)
    h.true('name->values', list(cn[nm]) == list(v), cn[nm])
    h.true('name->index', cn.index_of(nm) == i); h.true('values->index', ov.index_of(v) == i)
    h.true('index->name', cn.at_index(i) == nm); h.true('index->values', list(ov.at_index(i)) == list(v))
    h.true('member', nm in cn and v in ov)
    for bad in (nm + '0', nm[:-1], nm + nm, nm[1:], ''): h.true('wrong length %r' % bad, bad not in cn)
    d = len(str(L - 1))
    big = str(L).zfill(d)
    if len(big) == d:
        for k in range(n): h.true('out of range', (nm[:k * d] + big + nm[(k + 1) * d:]) not in cn)
    # a list handed out is not the stored one
    x = cn[nm]; x[0] = 77
    h.true('lookup still right', list(cn[nm]) == list(v))

def pairs(h, L, n, left, pool):
    """two lookups in the same objects: neither disturbs the other"""
    cn, ov = objs(h, L, n, left)
    for tag in 'vw':
        v = tuple(h.choose('%s%d' % (tag, i), pool) for i in range(n)); nm = h.name(v, L, left); i = index(v, L)
        h.true(tag + ' index', ov.index_of(v) == i and ov.index_of(list(v)) == i); h.true(tag + ' name', ov[v] == nm); h.true(tag + ' name index', cn.index_of(nm) == i)
        h.true(tag + ' values', list(cn[nm]) == list(v)); h.true(tag + ' at', cn.at_index(i) == nm and list(ov.at_index(i)) == list(v))
        h.true(tag + ' reorder', ov.reorder(v, [*range(n)][::-1]) == index(v[::-1], L)); h.true(tag + ' in', nm in cn and v in ov and list(v) in ov)

def tables(h, L, n, left, k):
    """after any history of lookups, iteration / keys / items / len of both objects enumerate the whole basis in order"""
    cn, ov = objs(h, L, n, left)
    basis = h.basis(L, n); nm = [h.name(v, L, left) for v in basis]
    picks = [basis[1], basis[-1], basis[len(basis) // 2 + 1]]
    for j in range(k):
        op = h.choose('op%d' % j, ['ov', 'cn', 'cn bad', 'in bad', 'iter cn', 'iter ov', 'index', 'ov bad'])
        v = picks[j % 3]
        if op == 'ov': h.true('ov', ov[v] == h.name(v, L, left))
        elif op == 'cn': h.true('cn', list(cn[h.name(v, L, left)]) == list(v))
        elif op == 'cn bad': cn[nm[2] + '1']
        elif op == 'in bad': h.true('bad', str(L).zfill(len(str(L - 1))) * n not in cn)
        elif op == 'iter cn': h.true('cn iter', list(cn) == nm)
        elif op == 'iter ov': h.true('ov iter', [tuple(x) for x in ov] == basis)
        elif op == 'index': h.true('idx', cn.index_of(nm[-2]) == len(basis) - 2)
        elif op == 'ov bad': ov[v + (1,)]
    order = h.choose('order', [0, 1])
    for which in ((0, 1) if order == 0 else (1, 0)):
        if which == 0:
            h.true('keys', list(cn.keys()) == nm, list(cn.keys())[:6]); h.true('iter', list(cn) == nm)
            h.true('items', [(a, tuple(b)) for a, b in cn.items()] == list(zip(nm, basis))); h.true('values', [tuple(b) for b in cn.values()] == basis)
            h.true('len', len(cn) == L ** n)
        else:
            h.true('ov keys', [tuple(x) for x in ov.keys()] == basis); h.true('ov items', [(tuple(a), b) for a, b in ov.items()] == list(zip(basis, nm)))
            h.true('ov values', list(ov.values()) == nm); h.true('ov len', len(ov) == L ** n); h.true('ov iter', [tuple(x) for x in ov] == basis)

def circ(h, L, n, left, k):
    """the circuit's basis and the names used by states follow the encoding, whatever was looked up or evaluated before"""
    c = h.circuit(L, n, left=left)
    basis = h.basis(L, n); nm = [h.name(v, L, left) for v in basis]
    a = h.cplx('x', 0.5)
    for j in range(k):
        op = h.choose('op%d' % j, ['state', 'reject', 'vec', 'evaluate', 'basis'])
        if op == 'state':
            s = h.fsc.State(h.fsc.CollectionOfStates(c, dict([]))); s.optical_components = [(nm[-1 - j], a)]
            h.eq('state', h.amps(s, c)[basis[-1 - j]], a)
        elif op == 'reject':
            s = h.fsc.State(h.fsc.CollectionOfStates(c, dict([])))
            h.raises('long name', setattr, s, 'optical_components', [(nm[0] + '0', a)]); h.raises('short name', setattr, s, 'optical_components', {nm[1][:-1]: {'amplitude': a, 'probability': 0}})
        elif op == 'vec':
            s = h.fsc.State(h.fsc.CollectionOfStates(c, dict([]))); s.optical_components = [(nm[2], a), (nm[1], 2 * a)]
            vec, bs = s.translate_state_components_to_vector()
            h.true('vector basis', list(bs) == nm); h.eq('vector', list(vec), [0, 2 * a, a] + [0] * (L ** n - 3))
        elif op == 'evaluate':
            if n > 1: c.swap(0, 1)
            col = h.collection(c, [dict(amps={basis[1]: a})]); c.evaluate_circuit(col)
        elif op == 'basis': h.true('basis len', len(c.basis()) == L ** n)
    h.true('basis', list(c.basis().keys()) == nm); h.true('basis items', [tuple(x) for x in c.basis().values()] == basis)
    col = h.fsc.CollectionOfStates(c, dict([]))
    h.true('names', list(col.generate_allowed_components_names_as_list_of_strings()) == nm)
    d = h.fsc.CollectionOfStates(c)
    h.true('default collection', [s.initial_state for s in d] == nm)
    for v, s in zip(basis, d):
        h.true('default photons', s.photon_number == (sum(v), True) if not callable(s.photon_number) else s.photon_number() == (sum(v), True))

def ctor(h, kw):
    """a circuit built with arguments left out: two channels of up to one photon, channel 0 first in the name, no classical channels"""
    c = h.fsc.FockStateCircuit(**kw)
    L, n, left = kw.get('length_of_fock_state', 2), kw.get('no_of_optical_channels', 2), kw.get('channel_0_left_in_state_name', True)
    basis = h.basis(L, n); nm = [h.name(v, L, left) for v in basis]
    h.true('basis', list(c.basis().keys()) == nm and [tuple(x) for x in c.basis().values()] == basis, list(c.basis().items())[:4])
    col = h.fsc.CollectionOfStates(c)
    h.true('states', [s.initial_state for s in col] == nm)
    for s in col:
        h.eq('classical', list(s.classical_channel_values), [0] * kw.get('no_of_classical_channels', 0)); h.eq('weight', s.cumulative_probability, 1)
        h.true('no history', list(s.measurement_results) == [] and dict(s.auxiliary_information) == {})
        h.true('component', list(s.optical_components) == [s.initial_state]); h.eq('amplitude', s.optical_components[s.initial_state]['amplitude'], 1)
    out = c.evaluate_circuit()
    h.true('without nodes', [s.initial_state for s in out] == nm)

def ctor_bad(h):
    for kw in (dict(no_of_optical_channels=1), dict(no_of_optical_channels=0), dict(length_of_fock_state=0)): h.raises('%s' % kw, h.fsc.FockStateCircuit, **kw)

def cases(tier, seed):
    out = [Case('ctor-%d' % i, ctor, kw=kw) for i, kw in enumerate(({}, dict(length_of_fock_state=3), dict(no_of_optical_channels=3), dict(no_of_classical_channels=2), dict(channel_0_left_in_state_name=False, length_of_fock_state=11), dict(use_full_fock_matrix=True, no_of_optical_channels=3)))] + [Case('ctor-bad', ctor_bad)]
    def add(name, fn, tier='quick', **k): out.append(Case(name, fn, tier=tier, **k))
    for left in (True, False):
        s = 'l' if left else 'r'
        for n in range(1, 5): add('weigh-n%d-%s' % (n, s), weigh, n=n, left=left)
        for L, ns in ((2, (1, 2, 5)), (3, (1, 3, 4)), (5, (2,)), (9, (2,)), (10, (1, 2, 3)), (11, (1, 2, 3)), (12, (2,)), (100, (2,)), (101, (2,)), (115, (3,)), (1001, (1, 2))):
            for n in ns: add('digits-L%d-n%d-%s' % (L, n, s), digits, L=L, n=n, left=left)
        for L, n in ((2, 2), (3, 3), (11, 2), (101, 2)): add('member-L%d-n%d-%s' % (L, n, s), member, L=L, n=n, left=left)
        for L, n in ((2, 1), (2, 2), (2, 4), (3, 3), (4, 2), (10, 2), (11, 1), (11, 2), (12, 2)): add('names-L%d-n%d-%s' % (L, n, s), names, L=L, n=n, left=left)
        add('names-L11-n3-' + s, names, L=11, n=3, left=left, lo=8)
        add('names-L101-n2-' + s, names, L=101, n=2, left=left, lo=95)
        add('names-L115-n3-' + s, names, L=115, n=3, left=left, lo=112)
        for L, n, pool in ((12, 2, (0, 1, 10, 11)), (12, 3, (1, 11)), (10, 2, (0, 1, 9)), (3, 3, (0, 1, 2)), (112, 2, (1, 10, 11, 110, 111))): add('pairs-L%d-n%d-%s' % (L, n, s), pairs, L=L, n=n, left=left, pool=pool)
        for L, n, t in ((9, 3, 'thorough'), (25, 2, 'thorough'), (3, 4, 'thorough'), (4, 4, 'thorough')): add('names-L%d-n%d-%s' % (L, n, s), names, tier=t, L=L, n=n, left=left)
        for L, n, k in ((2, 3, 3), (3, 2, 3), (11, 2, 2), (10, 2, 2)): add('tables-L%d-n%d-%s' % (L, n, s), tables, L=L, n=n, left=left, k=k)
        add('tables-L101-n1-' + s, tables, L=101, n=1, left=left, k=2)
        for L, n, k in ((3, 2, 4), (2, 3, 4), (11, 2, 3)): add('tables-L%d-n%d-k%d-%s' % (L, n, k, s), tables, tier='thorough', L=L, n=n, left=left, k=k)
        for L, n in ((3, 2), (2, 2), (2, 3)): add('circ-L%d-n%d-%s' % (L, n, s), circ, L=L, n=n, left=left, k=2)
        add('circ-L11-n2-' + s, circ, L=11, n=2, left=left, k=1)
        add('circ-L3-n3-k3-' + s, circ, tier='thorough', L=3, n=3, left=left, k=3)
    return out
