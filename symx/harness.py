"""One harness API for both the symbolic run and the concrete replay of a check."""
from __future__ import annotations
import math as _m, cmath as _cm, itertools
from fractions import Fraction
import numpy as _np
from . import num as N, shims
from .num import Sym, SymBool

TOL_S = 1e-4          # obligation tolerance (exact arithmetic): well above single-precision noise of the code
TOL_C = 5e-5          # concrete replay tolerance
THR_C = 1e-10         # concrete value of the symbolic zero-threshold

class CheckFail(Exception): pass
class Skip(Exception): pass

class H:
    def __init__(self, mode, fsc, mods, path=None, env=None, rnd=None):
        self.sym = mode == 'sym'; self.mode = mode; self.fsc = fsc; self._mods = mods
        self.p = path; self.env = env or {}; self.failures = []; self.nchecks = 0; self.rnd = rnd
        self.used = {}; self.thr_c = THR_C
    def mod(self, name): return self._mods[name]
    # ------------------------------------------------ inputs
    def _in(self, name, kind, default, **kw):
        if self.sym:
            s = N.var(name, kind, **kw)
            self.p.inputs[name] = dict(kind=kind, atom=self.p.ctx.byname[name])
            return s
        v = self.env.get(name, default)
        self.used[name] = v
        return v
    def real(self, name, lo=-1, hi=1, pos=False):
        return self._in(name, 'real', float(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(7, 11)), lo=lo, hi=hi, pos=pos)
    def angle(self, name, den=1, lo=None, hi=None):
        """an angle in radians, unrestricted (or within [lo,hi]); den: the finest fraction of it the code takes cos/sin of"""
        d = 0.7 if lo is None else (lo + hi) / 2
        return self._in(name, 'angle', d, den=den, lo=lo, hi=hi)
    def cplx(self, name, r=Fraction(7, 10)):
        x, y = self.real(name + '.re', -r, r), self.real(name + '.im', -r, r)
        return x + y * self.I
    def box(self, names, name='x', r=None):
        """independent complex amplitudes {key: amplitude}, each small enough that every component is a valid probability"""
        names = list(names); r = r or Fraction(1, len(names) + 1)
        label = lambda v: ('_' if max(v, default=0) > 9 else '').join(map(str, v)) if isinstance(v, tuple) else v
        out = {}
        for v in names:
            n = '%s%s' % (name, label(v))
            out[v] = self.cplx(n, r)
            if self.sym: self.p.amp_atoms.append((self.p.inputs[n + '.re']['atom'], self.p.inputs[n + '.im']['atom'], r))
            elif abs(out[v]) < 1e-7: raise Skip('amplitude zero')       # outside the bounds: a listed component is present
        return out
    @property
    def I(self): return N.imag_unit() if self.sym else 1j
    def integer(self, name, lo, hi): return self._in(name, 'int', lo, lo=lo, hi=hi)
    def choose(self, name, options):
        options = list(options)
        if len(options) == 1: return options[0]
        if self.sym:
            s = self._in(name, 'int', 0, lo=0, hi=len(options) - 1, choice=True)
            return options[int(s)]
        v = int(self._in(name, 'int', 0))
        return options[v % len(options)]
    def unit(self, name, k):
        """k complex amplitudes, arbitrary up to a global phase, squared moduli summing to one"""
        out = []; rest = 1
        for j in range(k):
            if j < k - 1:
                t = self.angle('%s.t%d' % (name, j))
                mag = rest * self.cos(t); rest = rest * self.sin(t)
            else: mag = rest
            if j: mag = mag * self.exp(self.I * self.angle('%s.p%d' % (name, j)))
            out.append(mag + 0 * self.I if not self.sym else N.lift(mag))
        return out
    def thr(self):
        """symbolic 'numerically zero' threshold, 0 < thr <= 1e-9"""
        if self.sym:
            s = N.var('thr', 'real', lo=0, hi=Fraction(1, 10**9), pos=True, tiny=True)
            self.p.thr = self.p.ctx.byname['thr']
            return s
        return self.thr_c
    # ------------------------------------------------ functions usable in both modes
    @property
    def pi(self): return N.pi() if self.sym else _m.pi
    def cos(self, x): return N.trig(x)[0] if self.sym else _m.cos(x)
    def sin(self, x): return N.trig(x)[1] if self.sym else _m.sin(x)
    def exp(self, x): return N.sym_exp(x) if self.sym else (_cm.exp(x) if isinstance(x, complex) else _m.exp(x))
    def sqrt(self, x): return N.sym_sqrt(Sym.of(x)) if self.sym else _m.sqrt(max(x, 0.0) if x > -1e-9 else x)
    def conj(self, x): return N.lift(x).conjugate() if self.sym else complex(x).conjugate()
    def abs2(self, x):
        if self.sym:
            x = N.lift(x); return (x * x.conjugate()).real
        return abs(x) ** 2
    def sum_abs2(self, xs):
        """sum of squared moduli; recorded as a non-negative quantity"""
        r = 0
        for x in xs: r = r + self.abs2(x)
        if self.sym:
            r = N.lift(r)
            if not r.d: N.C.nonnegs.add(N.p_key(r.n))
        return r
    def psd(self, x):
        """x is non-negative for all inputs (a norm); the modulus of x is x"""
        if self.sym:
            x = N.lift(x)
            if x.n and not x.d: N.C.psds.add(N.psd_key(x.n))
        return x
    def log(self, x): return N.sym_log(x) if self.sym else _m.log(x)
    def re(self, x): return N.lift(x).real if self.sym else complex(x).real
    def im(self, x): return N.lift(x).imag if self.sym else complex(x).imag
    def num(self, x): return Sym.of(x) if self.sym else x
    def is_zero(self, x):
        return not N.lift(x).n if self.sym else abs(x) < 1e-9
    def is_num(self, x):
        return isinstance(x, (int, float, complex, _np.number, Sym, SymBool, Fraction)) and not isinstance(x, bool)
    # ------------------------------------------------ assumptions and obligations
    def assume(self, c):
        if self.sym: self.p.assume(c)
        elif not bool(c): raise Skip('assumption not met')
    def nonzero(self, x):
        """assume x is not (numerically) zero"""
        if self.sym:
            q = self.abs2(x)
            if not q.n: self.p.assume(False)
            c = SymBool.rel('==', q)
            if isinstance(c, SymBool): self.p.assume(~c)
        elif abs(x) < 1e-3: raise Skip('degenerate')
    def fail(self, label, detail=''):
        self.nchecks += 1
        if self.sym: self.p.ob_true(label, False)
        else: self.failures.append((label, str(detail)[:300]))
    def true(self, label, cond, detail=''):
        self.nchecks += 1
        if self.sym: self.p.ob_true(label, cond)
        elif not bool(cond): self.failures.append((label, str(detail)[:300]))
    def le(self, label, a, b, tol=TOL_C):
        if self.sym: self.true(label, N.lift(a) <= N.lift(b) + Fraction(tol).limit_denominator(10**9) * 2)
        else: self.true(label, a <= b + tol, '%r > %r' % (a, b))
    def eq(self, label, a, b, tol=None, skip_structure=False):
        """a equals b: numbers up to tolerance, containers elementwise"""
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)): return self.fail(label, '%r vs %r' % (type(a), type(b)))
            if set(map(str, a)) != set(map(str, b)): return self.fail(label + ' keys', '%s vs %s' % (sorted(map(str, a)), sorted(map(str, b))))
            bb = {str(k): v for k, v in b.items()}
            for k, v in a.items(): self.eq('%s[%s]' % (label, k), v, bb[str(k)], tol)
            return
        cont = lambda x: isinstance(x, (list, tuple)) or isinstance(x, _np.ndarray) and x.shape != ()
        if cont(a) != cont(b): return self.fail(label, '%r vs %r' % (type(a), type(b)))
        if cont(a):
            la, lb = list(a), list(b)
            if len(la) != len(lb): return self.fail(label + ' length', '%d vs %d' % (len(la), len(lb)))
            if not la: return self.true(label, True)
            for i, (x, y) in enumerate(zip(la, lb)): self.eq('%s[%d]' % (label, i), x, y, tol)
            return
        if self.is_num(a) and self.is_num(b):
            self.nchecks += 1
            if self.sym:
                try: self.p.ob_eq(label, N.lift(a), N.lift(b), tol or TOL_S)
                except N.Unsupported: raise
            else:
                t = max((tol or TOL_S) / 2, 2 * self.thr_c ** .5)
                try: d = abs(complex(a) - complex(b))
                except OverflowError: d = float('nan')
                if not d <= t: self.failures.append((label, '%r vs expected %r' % (a, b)))
            return
        self.true(label, type(a) == type(b) and a == b or (a == b) is True, '%r vs %r' % (a, b))
    def raises(self, label, fn, *a, **k):
        """fn must raise an Exception"""
        try: fn(*a, **k)
        except Exception as e:
            if isinstance(e, N.Unsupported): raise
            self.true(label, True); return e
        self.fail(label, 'no exception raised')
    # ------------------------------------------------ library helpers
    def circuit(self, L, n, c=0, left=True, full=False, thr=None, **kw):
        return self.fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=n, no_of_classical_channels=c,
                channel_0_left_in_state_name=left, threshold_probability_for_setting_to_zero=self.thr() if thr is None else thr,
                use_full_fock_matrix=full, **kw)
    def name(self, values, L, left=True):
        """reference encoding of photon numbers as a component name (independent of the code under test)"""
        d = len(str(L - 1))
        vs = list(values) if left else list(values)[::-1]
        return ''.join(str(int(v)).zfill(d) for v in vs)
    def values(self, name, L, left=True):
        d = len(str(L - 1))
        vs = [int(name[i:i + d]) for i in range(0, len(name), d)]
        return tuple(vs if left else vs[::-1])
    def basis(self, L, n):
        """reference enumeration of the basis: channel 0 runs fastest"""
        return [tuple((i // L ** c) % L for c in range(n)) for i in range(L ** n)]
    def collection(self, circ, states):
        """states: list of dicts(amps={values: amp}, classical=[..], prob, initial, id, meas, aux)"""
        fsc = self.fsc
        col = fsc.CollectionOfStates(circ, dict([]))
        for i, s in enumerate(states):
            col.add_state(self.state(circ, col, s), identifier=s.get('id', 'st%d' % i))
        return col
    def state(self, circ, col, s):
        L, left = circ._length_of_fock_state, circ._channel_0_left_in_state_name
        st = self.fsc.State(col)
        st.optical_components = {self.name(v, L, left): {'amplitude': self._amp(a), 'probability': self._prob(a)} for v, a in s['amps'].items()}
        if 'classical' in s: st.classical_channel_values = list(s['classical'])
        if 'prob' in s: st.cumulative_probability = s['prob']
        st.initial_state = s.get('initial', self.name(next(iter(s['amps'])), L, left))
        if 'meas' in s: st.measurement_results = s['meas']
        if 'aux' in s: st.auxiliary_information = s['aux']
        return st
    def _amp(self, a): return N.lift(a) if self.sym else _np.cdouble(a)
    def _prob(self, a): return self.abs2(N.lift(a)) if self.sym else abs(a) ** 2
    def amps(self, state, circ):
        """{photon numbers: amplitude} of a state (decoded with the reference decoding)"""
        L, left = circ._length_of_fock_state, circ._channel_0_left_in_state_name
        return {self.values(k, L, left): v['amplitude'] for k, v in state.optical_components.items()}
    def eq_amps(self, label, got, want, keys=None):
        """same vector: components absent on one side count as zero"""
        ks = list(dict.fromkeys(list(got) + list(want)))
        for k in ks: self.eq('%s%s' % (label, list(k) if isinstance(k, tuple) else k), got.get(k, 0), want.get(k, 0))
    def check_state(self, label, st, circ):
        """every component's probability is the squared modulus of its amplitude"""
        for k, v in st.optical_components.items():
            self.eq('%s prob(%s)' % (label, k), v['probability'], self.abs2(v['amplitude']))
    def snapshot(self, st):
        s = st.state if hasattr(st, 'state') else st
        import copy
        return dict(initial_state=s['initial_state'], cumulative_probability=s['cumulative_probability'],
            optical={k: dict(v) for k, v in s['optical_components'].items()}, classical=list(s['classical_channel_values']),
            meas=[{k: (list(v) if isinstance(v, list) else v) for k, v in m.items()} for m in s['measurement_results']],
            aux=copy.deepcopy(s.get('auxiliary_information', {}) or {}))
    def eq_snapshot(self, label, a, b):
        self.true(label + ' initial_state', a['initial_state'] == b['initial_state'], (a['initial_state'], b['initial_state']))
        self.eq(label + ' cumulative_probability', a['cumulative_probability'], b['cumulative_probability'])
        self.eq(label + ' optical', a['optical'], b['optical'])
        self.eq(label + ' classical', a['classical'], b['classical'])
        self.eq(label + ' measurement history', a['meas'], b['meas'])
        self.true(label + ' auxiliary', self.same(a['aux'], b['aux']), (a['aux'], b['aux']))
    def same(self, a, b):
        """exact structural equality"""
        if isinstance(a, dict) and isinstance(b, dict): return list(a.keys()) == list(b.keys()) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if self.is_num(a) and self.is_num(b):
            if self.sym:
                r = (N.lift(a) - N.lift(b))
                return not r.n
            return abs(complex(a) - complex(b)) < 1e-9
        r = a == b
        return r if isinstance(r, bool) else bool(r) if not hasattr(r, '__len__') else all(r)
