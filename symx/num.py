"""Exact symbolic numbers: quotients of polynomials with rational coefficients over "atoms".

Atoms are the symbolic inputs (real or integer variables), the imaginary unit, square roots of
integers, cosines/sines of symbolic base angles, roots of symbolic expressions and uninterpreted
transcendental values.  Algebraic relations (i^2=-1, s^2=1-c^2, r^2=P ...) are applied while
multiplying, so most identities reach a zero normal form; whatever does not is left to the SMT solver.
"""
from __future__ import annotations
from fractions import Fraction
import math as _m, numbers
import numpy as _np

class Unsupported(Exception):
    """the symbolic semantics does not cover an operation: the obligation becomes inconclusive"""
    def __init__(self, *a):
        super().__init__(*a)
        if C is not None and C.eng is not None: C.eng.abort = self

class Ctx:
    """per-path universe of atoms; `eng` is the running path (decides branches)."""
    def __init__(self, eng=None):
        self.eng = eng
        self.atoms = []        # list of dict(kind,name,...)
        self.byname = {}
        self.red = {}          # atom id -> polynomial dict equal to atom**2
        self._mul = {}
        self._fresh = 0
        self.pows = []; self.squares = {}; self.sinv = {}; self.nonnegs = set(); self.psds = set()
        self.I = self.atom('imag', 'i')
        self.red[self.I] = {(): -1}
    def atom(self, kind, name, **kw):
        if name in self.byname: return self.byname[name]
        a = len(self.atoms); self.atoms.append(dict(kind=kind, name=name, **kw)); self.byname[name] = a
        return a
    def fresh(self, p):
        self._fresh += 1
        return '%s!%d' % (p, self._fresh)
C: Ctx = None
def set_ctx(c):
    global C
    C = c
def ctx(): return C

# ------------------------------------------------------------------ polynomials as dict mono->coef
def _q(x):
    if type(x) is int: return x
    if isinstance(x, Fraction): return x.numerator if x.denominator == 1 else x
    if isinstance(x, (bool, _np.bool_)): return int(x)
    if isinstance(x, (_np.integer, numbers.Integral)): return int(x)
    if isinstance(x, (float, _np.floating)):
        if not _m.isfinite(x): raise Unsupported('non-finite float')
        f = float(x)
        if f == int(f): return int(f)
        if isinstance(x, (_np.float32,)): return _q(Fraction(str(x)))
        g = Fraction(f).limit_denominator(100000)
        if g and abs(float(g) - f) <= 3e-16 * abs(f): return g
        return _q(Fraction(repr(f)))
    raise Unsupported('coef %r' % type(x))

def p_add(a, b):
    if not a: return b
    if not b: return a
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def p_scale(a, k):
    if not k: return {}
    if k == 1: return a
    return {m: _n(c * k) for m, c in a.items()}
def _n(c):
    if type(c) is int: return c
    d = c.denominator
    if d == 1: return c.numerator
    if d.bit_length() > 384:
        # long power series only: 200 significant bits instead of the exact fraction
        n = c.numerator; s = 200 - n.bit_length() + d.bit_length()
        if s > 0: return Fraction((n << s) // d, 1 << s)
        return (n // (d << -s)) << -s
    return c
def _mono_mul(m1, m2):
    key = (m1, m2) if m1 <= m2 else (m2, m1)
    r = C._mul.get(key)
    if r is not None: return r
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    extra = None
    for a, e in list(d.items()):
        if e >= 2 and a in C.red:
            k, rem = divmod(e, 2)
            if rem: d[a] = 1
            else: del d[a]
            rp = C.red[a]
            for _ in range(k):
                extra = rp if extra is None else p_mul(extra, rp)
    base = {tuple(sorted(d.items())): 1}
    r = base if extra is None else p_mul(base, extra)
    r = tuple(r.items())
    C._mul[key] = r
    return r
def p_mul(a, b):
    if not a or not b: return {}
    if len(a) == 1 and () in a: return p_scale(b, a[()])
    if len(b) == 1 and () in b: return p_scale(a, b[()])
    r = {}
    if len(a) * len(b) > 400000: raise Unsupported('polynomial too large')
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            cc = c1 * c2
            for m, c in _mono_mul(m1, m2):
                v = r.get(m, 0) + c * cc
                if v: r[m] = v
                else: del r[m]
    return {m: _n(c) for m, c in r.items()}
def p_pow(a, n):
    r = {(): 1}
    while n:
        if n & 1: r = p_mul(r, a)
        n >>= 1
        if n: a = p_mul(a, a)
    return r
def p_split(p, atom):
    """p = A + B*atom for an atom with exponent <= 1"""
    A, B = {}, {}
    for m, c in p.items():
        for j, (a, e) in enumerate(m):
            if a == atom:
                B[m[:j] + m[j+1:] if e == 1 else m[:j] + ((a, e-1),) + m[j+1:]] = c; break
        else: A[m] = c
    return A, B
def p_atoms(p):
    return {a for m in p for a, _ in m}
def p_key(p): return tuple(sorted(p.items()))

class Sym:
    __slots__ = ('n', 'd')           # numerator poly, denominator: tuple of ((polykey),exp)
    __array_priority__ = 1000
    def __init__(self, n, d=()):
        self.n = n; self.d = d
    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Sym): return x
        if isinstance(x, SymBool): return Sym.of(1 if bool(x) else 0)
        if isinstance(x, (complex, _np.complexfloating)):
            re, im = _q(x.real), _q(x.imag)
            n = {}
            if re: n[()] = re
            if im: n[((C.I, 1),)] = im
            return Sym(n)
        q = _q(x)
        return Sym({(): q} if q else {})
    def const(self):
        """rational value if constant else None"""
        if self.d: return None
        if not self.n: return 0
        if len(self.n) == 1 and () in self.n: return self.n[()]
        return None
    def atoms(self):
        s = p_atoms(self.n)
        for k, _ in self.d: s |= p_atoms(dict(k))
        return s
    def iszero(self): return not self.n
    # -- parts
    @property
    def real(self):
        A, _ = p_split(self.n, C.I); return Sym(A, self.d)
    @property
    def imag(self):
        _, B = p_split(self.n, C.I); return Sym(B, self.d)
    def isreal(self): return not any(a == C.I for m in self.n for a, _ in m)
    def conjugate(self):
        A, B = p_split(self.n, C.I)
        if not B: return self
        return Sym(p_add(A, p_scale(p_mul(B, {((C.I, 1),): 1}), -1)), self.d)
    conj = conjugate
    # -- arithmetic
    def __add__(s, o):
        o = lift(o)
        if o is NotImplemented: return o
        if s.d == o.d: return Sym(p_add(s.n, o.n), s.d) if s.d == () else _cancel(p_add(s.n, o.n), s.d)
        ds, do = dict(s.d), dict(o.d)
        L = dict(ds)
        for k, e in do.items(): L[k] = max(L.get(k, 0), e)
        a, b = s.n, o.n
        for k, e in L.items():
            fa, fb = e - ds.get(k, 0), e - do.get(k, 0)
            if fa: a = p_mul(a, p_pow(dict(k), fa))
            if fb: b = p_mul(b, p_pow(dict(k), fb))
        return _cancel(p_add(a, b), tuple(sorted(L.items())))
    __radd__ = __add__
    def __neg__(s): return Sym(p_scale(s.n, -1), s.d)
    def __pos__(s): return s
    def __sub__(s, o):
        o = lift(o)
        if o is NotImplemented: return o
        return s + (-o)
    def __rsub__(s, o):
        o = lift(o)
        if o is NotImplemented: return o
        return o + (-s)
    def __mul__(s, o):
        o = lift(o)
        if o is NotImplemented: return o
        n = p_mul(s.n, o.n)
        if not n: return Sym({})
        if not s.d and not o.d: return Sym(n)
        D = dict(s.d)
        for k, e in o.d: D[k] = D.get(k, 0) + e
        return _cancel(n, tuple(sorted(D.items())))
    __rmul__ = __mul__
    def inv(s):
        if not s.n: raise ZeroDivisionError('symbolic division by zero')
        mult = {(): 1}; D = s.n
        for _ in range(40):
            # rationalise radicals (incl. the imaginary unit)
            rads = [a for a in p_atoms(D) if a in C.red and C.atoms[a]['kind'] != 'sin']
            if len(D) == 1: rads = [a for a in rads if C.atoms[a]['kind'] != 'sqrt']     # 1/sqrt(S) stays a denominator factor
            if not rads: break
            a = max(rads)
            A, B = p_split(D, a)
            if not A:           # D = B*a : multiply by a
                mult = p_mul(mult, {((a, 1),): 1}); D = p_mul(B, C.red[a]); continue
            conj = p_add(A, p_scale(p_mul(B, {((a, 1),): 1}), -1))
            mult = p_mul(mult, conj); D = p_mul(D, conj)
            if not D: raise Unsupported('zero divisor while rationalising')
        num = mult
        for k, e in s.d: num = p_mul(num, p_pow(dict(k), e))
        if len(D) == 1 and () in D: return Sym(p_scale(num, Fraction(1) / D[()]))
        if C.eng is not None: C.eng.nonzero(Sym(s.n))
        lead = D[max(D)]
        D = p_scale(D, Fraction(1) / lead)
        # content monomial factors
        common = None
        for m in D:
            dm = dict(m)
            if common is None: common = dm
            else: common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        fac = []
        if common:
            for a, e in sorted(common.items()): fac.append((((((a, 1),), 1),), e))
            D2 = {}
            for m, c in D.items():
                dm = dict(m)
                for a, e in common.items():
                    dm[a] -= e
                    if not dm[a]: del dm[a]
                D2[tuple(sorted(dm.items()))] = c
            D = D2
        if not (len(D) == 1 and () in D): fac.append((p_key(D), 1))
        return _cancel(p_scale(num, Fraction(1) / lead), tuple(sorted(fac)))
    def __truediv__(s, o):
        o = lift(o)
        if o is NotImplemented: return o
        c = o.const()
        if c: return Sym(p_scale(s.n, Fraction(1) / c), s.d)
        return s * o.inv()
    def __rtruediv__(s, o):
        if isinstance(o, (list, tuple)):          # a numpy scalar turns the sequence into an array
            from . import shims
            return shims.array(o) / s
        o = lift(o)
        if o is NotImplemented: return o
        return o * s.inv()
    def __pow__(s, e):
        if isinstance(e, Sym):
            c = e.const()
            if c is None: return sym_power(s, e)
            e = c
        if isinstance(e, (float, _np.floating)): e = _q(e)
        if isinstance(e, Fraction): return sym_power(s, Sym.of(e))
        e = int(e)
        if e < 0: return (s ** (-e)).inv()
        if not s.d: return Sym(p_pow(s.n, e))
        r = Sym.of(1)
        for _ in range(e): r = r * s
        return r
    def __rpow__(s, b): return sym_power(Sym.of(b), s)
    def __abs__(s):
        if s.isreal():
            c = s.const()
            if c is not None: return Sym.of(abs(c))
            sg = known_sign(s)
            if sg: return s if sg > 0 else -s
            if nonneg(s): return s
            if nonneg(-s): return -s
            if C.psds:
                if psd(s): return s
                if psd(-s): return -s
            if len(s.atoms()) <= 1 and not s.d and C.eng is not None and getattr(C.eng, 'abs_fork', False):
                return s if (s >= 0) else -s
        q = (s * s.conjugate()).real
        if not s.d: C.squares.setdefault(p_key(q.n), (s.real, s.imag))
        elif not q.d: C.squares.setdefault(p_key(q.n), None)
        return sym_sqrt(q)
    # -- comparisons
    def __eq__(s, o):
        o = lift(o)
        if o is NotImplemented: return False
        return SymBool.rel('==', s - o)
    def __ne__(s, o):
        r = s.__eq__(o)
        if r is False: return True
        return ~r if isinstance(r, SymBool) else (not r)
    def __lt__(s, o): return _ord('<', s, o)
    def __le__(s, o): return _ord('<=', s, o)
    def __gt__(s, o): return _ord('<', o, s)
    def __ge__(s, o): return _ord('<=', o, s)
    def __bool__(s):
        return bool(s != 0)
    def isint(s):
        return not s.d and all(type(c) is int for c in s.n.values()) and all(C.atoms[a]['kind'] == 'int' for a in p_atoms(s.n))
    def __hash__(s):
        c = s.const()
        if c is not None: return hash(c)
        if s.isint(): return hash(int(s))
        # one bucket for all symbolic numbers: dictionaries then decide by comparing (which forks); a concrete key never meets a symbolic one
        if C.eng is not None and 'symkey' not in C.eng.known:
            C.eng.known['symkey'] = True; C.eng.stats.assumed += 1; C.eng.notes.append('symbolic dictionary key: assumed different from concrete keys')
        return 7919
    def __index__(s):
        c = s.const()
        if c is not None:
            if type(c) is int: return c
            raise TypeError('not an integer')
        if s.isint(): return C.eng.concretise(s)
        raise TypeError('symbolic real used as index')
    def __int__(s):
        c = s.const()
        if c is not None: return int(c)
        if s.isint(): return C.eng.concretise(s)
        return int(sym_trunc(s))
    def __trunc__(s): return sym_trunc(s)
    def __floor__(s): return sym_floor(s)
    def __round__(s, nd=None):
        c = s.const()
        if c is not None: return Sym.of(_q(Fraction(round(c, nd)) if nd is not None else round(c)))
        if s.isint(): return s
        return sym_round(s, nd or 0)
    def __float__(s):
        c = s.const()
        if c is not None: return float(c)
        v = const_float(s)
        if v is not None: return v.real
        raise Unsupported('float() of symbolic value')
    def __complex__(s):
        v = const_float(s)
        if v is not None: return v
        raise Unsupported('complex() of symbolic value')
    def __mod__(s, o):
        return divmod_sym(s, lift(o))[1]
    def __floordiv__(s, o):
        return divmod_sym(s, lift(o))[0]
    def __rmod__(s, o): return divmod_sym(lift(o), s)[1]
    def __rfloordiv__(s, o): return divmod_sym(lift(o), s)[0]
    def __divmod__(s, o): return divmod_sym(s, lift(o))
    def __repr__(s): return show(s)
    def __format__(s, spec):
        c = s.const()
        if c is not None:
            return format(c if type(c) is int else float(c), spec)
        if s.isint(): return format(int(s), spec)
        return show(s)
    def __copy__(s): return s
    def __deepcopy__(s, memo): return s
    # numpy-scalar look-alikes
    @property
    def dtype(s): return _np.dtype(object)
    shape = ()
    def item(s): return s
    def tolist(s): return s
    def astype(s, *a, **k): return s
    def round(s, nd=0): return s.__round__(nd)
    def is_integer(s):
        return s.isint()
    # numpy object-dtype ufuncs call these methods
    def sqrt(s): return sym_sqrt(s)
    def cos(s): return trig(s)[0]
    def sin(s): return trig(s)[1]
    def tan(s):
        c, t = trig(s); return t / c
    def exp(s): return sym_exp(s)
    def log(s): return sym_log(s)
    def arctan(s): return sym_arctan(s)
    def floor(s): return sym_floor(s)
    def rint(s): return sym_round(s, 0)
    def square(s): return s * s

def _cancel(n, d):
    if not n: return Sym({})
    if not d: return Sym(n)
    out = []
    if any(e > 1 and len(k) == 1 and len(k[0][0]) == 1 and C.atoms[k[0][0][0][0]]['kind'] == 'sqrt' for k, e in d):
        D = {}                               # sqrt(S)^2 in the denominator is S
        for k, e in d:
            if e > 1 and len(k) == 1 and len(k[0][0]) == 1 and C.atoms[k[0][0][0][0]]['kind'] == 'sqrt':
                a = k[0][0][0][0]
                iv = C.sinv.get(a)
                if iv is None: iv = C.sinv[a] = Sym(C.red[a]).inv() if a in C.red else (C.atoms[a]['arg']).inv()
                for _ in range(e // 2):
                    n = p_mul(n, iv.n)
                    for k2, e2 in iv.d: D[k2] = D.get(k2, 0) + e2
                if e % 2: D[k] = D.get(k, 0) + 1
            else: D[k] = D.get(k, 0) + e
        return _cancel(n, tuple(sorted(D.items())))
    for k, e in d:
        if len(k) == 1:                      # single monomial atom factor
            (mono, _c), = k
            (a, _), = mono
            while e:
                # divisible by atom a ?
                if all(any(x == a for x, _ in m) for m in n):
                    n2 = {}
                    for m, c in n.items():
                        dm = dict(m); dm[a] -= 1
                        if not dm[a]: del dm[a]
                        n2[tuple(sorted(dm.items()))] = c
                    n = n2; e -= 1
                else: break
        else:
            while e:
                q = p_divexact(n, dict(k))
                if q is None: break
                n = q; e -= 1
        if e: out.append((k, e))
    return Sym(n, tuple(out))

def p_divexact(n, k):
    """cheap exact division: n = q*k, multivariate leading-term division under lex order of monomials.
    Only attempted when every atom of k is a free atom (no reduction), else proportional test."""
    if len(n) < len(k): return None
    # proportional?
    if len(n) == len(k):
        m0 = next(iter(k))
        if m0 in n:
            r = Fraction(n[m0]) / k[m0]
            if all(m in n and n[m] == c * r for m, c in k.items()): return {(): _n(r)}
    if len(n) > 3000: return None
    lead = _lm(k)
    lc = k[lead]; q = {}; rem = dict(n); steps = 0
    dl = dict(lead)
    while rem:
        steps += 1
        if steps > 3000: return None
        m = _lm(rem); dm = dict(m)
        for a, e in dl.items():
            v = dm.get(a, 0) - e
            if v < 0: return None
            if v: dm[a] = v
            else: dm.pop(a, None)
        qm = tuple(sorted(dm.items())); qc = _n(Fraction(rem[m]) / lc)
        q[qm] = qc
        rem = p_add(rem, p_scale(p_mul({qm: qc}, k), -1))
        if m in rem: return None
    return q
def _lm(p):
    # graded ordering on exponent vectors
    return max(p, key=lambda m: (sum(e for _, e in m), tuple((-a, e) for a, e in m)))

def lift(o):
    if isinstance(o, Sym): return o
    if isinstance(o, (int, float, complex, Fraction, _np.number, _np.bool_)): return Sym.of(o)
    if isinstance(o, SymBool): return Sym.of(o)
    if isinstance(o, _np.ndarray) and o.shape == (): return lift(o.item())
    return NotImplemented

def _ord(op, a, b):
    a, b = lift(a), lift(b)
    if a is NotImplemented or b is NotImplemented: return NotImplemented
    d = a - b
    if not d.isreal(): raise TypeError("'<' not supported between instances of 'complex'")
    return SymBool.rel(op, d)

class SymBool:
    """formula tree; forks the path when its truth value is needed"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    @staticmethod
    def rel(op, e):
        c = e.const()
        if c is not None: return {'==': c == 0, '<': c < 0, '<=': c <= 0}[op]
        if op == '==' and not e.isreal():
            a, b = SymBool.rel('==', e.real), SymBool.rel('==', e.imag)
            return b_and(a, b)
        v = const_float(e)
        if v is not None:
            # algebraic constant: exact zero test done by normal form, order by value
            if op == '==': return False
            return v.real < 0
        sg = known_sign(e)
        if sg:
            if op == '==' : return False
            return sg < 0
        return SymBool(('rel', op, e))
    def __bool__(s): return C.eng.decide(s)
    def __invert__(s): return SymBool(('not', s))
    def __and__(s, o): return b_and(s, o)
    __rand__ = __and__
    def __or__(s, o): return b_or(s, o)
    __ror__ = __or__
    def __eq__(s, o):
        if isinstance(o, bool): return s if o else ~s
        return bool(s) == bool(o)
    def __ne__(s, o): return bool(s) != bool(o)
    def __hash__(s): return hash(bool(s))
    def __int__(s): return int(bool(s))
    def __index__(s): return int(bool(s))
    def __add__(s, o): return int(bool(s)) + o
    __radd__ = __add__
    def __mul__(s, o): return int(bool(s)) * o
    __rmul__ = __mul__
    def __repr__(s): return 'SymBool%r' % (s.t,)
def b_and(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    if isinstance(a, (_np.bool_,)): return b_and(bool(a), b)
    if isinstance(b, (_np.bool_,)): return b_and(a, bool(b))
    return SymBool(('and', a, b))
def b_or(a, b):
    if isinstance(a, (_np.bool_,)): a = bool(a)
    if isinstance(b, (_np.bool_,)): b = bool(b)
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return SymBool(('or', a, b))
def b_not(a):
    return (~a) if isinstance(a, SymBool) else (not a)

# ------------------------------------------------------------------ atoms
def var(name, kind='real', **kw):
    if kw.get('lo') is not None and kw['lo'] >= 0: kw['nonneg'] = True
    assert name not in ('i', 'pi'), name
    a = C.atom(kind, name, **kw)
    return Sym({((a, 1),): 1})
def atom_sym(a): return Sym({((a, 1),): 1})
def imag_unit(): return Sym({((C.I, 1),): 1})

def root_int(n):
    """exact sqrt of a non-negative integer"""
    out, rad, p = 1, [], 2
    while p * p <= n:
        while n % (p * p) == 0: n //= p * p; out *= p
        if n % p == 0: rad.append(p); n //= p
        p += 1
    if n > 1: rad.append(n)
    r = Sym.of(out)
    for p in rad:
        name = 'sqrt%d' % p
        new = name not in C.byname
        a = C.atom('rootint', name, n=p)
        if new: C.red[a] = {(): p}
        r = r * atom_sym(a)
    return r

def c8():
    r2 = root_int(2)
    new = 'cospi8' not in C.byname
    a = C.atom('rootint', 'cospi8', n=None)
    if new: C.red[a] = ((Sym.of(2) + r2) / 4).n
    return atom_sym(a)

def sym_sqrt(x):
    x = lift(x)
    if x is NotImplemented: raise Unsupported('sqrt arg')
    c = x.const()
    if c is not None:
        if not c: return Sym.of(0)
        if c < 0: return imag_unit() * sym_sqrt(Sym.of(-c))
        return root_frac(c)
    if not x.isreal(): raise Unsupported('sqrt of complex symbolic value')
    # constant content out of the root: sqrt(q*P) = sqrt(q) sqrt(P), q>0 leading coefficient square part
    num, den = Sym(x.n), Sym.of(1)
    if x.d and nonneg(num) and all(nonneg(Sym(dict(k))) for k, e in x.d):
        out = sym_sqrt(num)
        for k, e in x.d: out = out / sym_sqrt(Sym(dict(k))) ** e
        return out
    if x.d:
        # sqrt(n/d) = sqrt(n*d)/|d| ; denominators come from squares/positive quantities
        dd = Sym.of(1)
        for k, e in x.d: dd = dd * (Sym(dict(k)) ** e)
        sg = known_sign(dd)
        if sg == 0 and C.eng is not None:
            sg = 1 if bool(dd > 0) else -1
        return sym_sqrt(num * dd) / (dd if sg >= 0 else -dd)
    # perfect square of a single monomial  q * prod atoms^(even)
    if len(x.n) == 1:
        (m, cf), = x.n.items()
        if all(e % 2 == 0 for _, e in m):
            base = Sym({tuple((a, e // 2) for a, e in m): 1})
            if Fraction(cf) > 0:
                s = known_sign(base)
                if s: return root_frac(cf) * (base if s > 0 else -base)
                return root_frac(cf) * mk_abs(base)
    f = root_factors(x) if C.eng is not None and C.eng.opts.get('root_factors') else None
    if f is not None: return f[0] * sym_sqrt(f[1])
    name = 'sqrt(%s)' % (show_poly(x.n),)
    new = name not in C.byname
    a = C.atom('sqrt', name, arg=x)
    if new:
        C.red[a] = x.n
        if C.eng is not None:
            if known_sign(x) <= 0 and not nonneg(x) and p_key(x.n) not in C.squares: C.eng.require_nonneg(x)
    return atom_sym(a)
def root_factors(x):
    """(f, y) with sqrt(x) = f*sqrt(y): square monomials and known radicands are taken out of the root"""
    n = x.n
    common = None
    for m in n:
        dm = dict(m)
        common = {a: e // 2 * 2 for a, e in m} if common is None else {a: min(e, dm[a] // 2 * 2) for a, e in common.items() if a in dm}
    common = {a: e for a, e in (common or {}).items() if e and a not in C.red}
    if common:
        n2 = {}
        for m, c in n.items():
            dm = dict(m)
            for a, e in common.items():
                dm[a] -= e
                if not dm[a]: del dm[a]
            n2[tuple(sorted(dm.items()))] = c
        return mk_abs(Sym({tuple(sorted((a, e // 2) for a, e in common.items())): 1})), Sym(n2)
    den = 1; g = 0
    for c in n.values(): den = _m.lcm(den, Fraction(c).denominator)
    for c in n.values(): g = _m.gcd(g, int(c * den))
    k = Fraction(g, den)
    a, b = _m.isqrt(k.numerator), _m.isqrt(k.denominator)
    k = Fraction(a * a, b * b) if a * a == k.numerator and b * b == k.denominator else 1
    if k != 1: return Sym.of(Fraction(a, b)), Sym(p_scale(n, 1 / k))
    if 1 < len(n) <= 200:
        for a in list(C.red):
            at = C.atoms[a]; S = C.red[a]
            if at['kind'] == 'sqrt' and 1 < len(S) and a not in p_atoms(n) and p_key(S) != p_key(n) and not p_atoms(S) & set(C.red) and p_atoms(S) <= p_atoms(n):
                q = p_divexact(n, S)
                if q is not None: return atom_sym(a), Sym(q)
        q = p_root(n)
        if q is not None:
            q = Sym(q)
            sg = 1 if nonneg(q) else known_sign(q) or (-1 if nonneg(-q) else 0)
            if sg == 0 and C.eng is not None: sg = 1 if bool(q >= 0) else -1
            if sg: return (q if sg > 0 else -q), Sym.of(1)
    return None
def p_root(n):
    """polynomial q with q*q == n, or None (free atoms only)"""
    if p_atoms(n) & set(C.red): return None
    lead = _lm(n)
    if any(e % 2 for _, e in lead) or n[lead] < 0: return None
    lc = Fraction(n[lead]); a, b = _m.isqrt(lc.numerator), _m.isqrt(lc.denominator)
    if a * a != lc.numerator or b * b != lc.denominator: return None
    lm = tuple((x, e // 2) for x, e in lead); q = {lm: _n(Fraction(a, b))}; dl = dict(lm)
    rem = p_add(n, p_scale(p_mul(q, q), -1))
    for _ in range(60):
        if not rem: return q
        m = _lm(rem); dm = dict(m)
        for x, e in dl.items():
            v = dm.get(x, 0) - e
            if v < 0: return None
            if v: dm[x] = v
            else: dm.pop(x, None)
        t = {tuple(sorted(dm.items())): _n(Fraction(rem[m]) / (2 * Fraction(a, b)))}
        if next(iter(t)) in q: return None
        rem = p_add(rem, p_scale(p_add(p_scale(p_mul(q, t), 2), p_mul(t, t)), -1))
        q = p_add(q, t)
    return None
def root_frac(c):
    if not c: return Sym.of(0)
    f = Fraction(c)
    if f.numerator * f.denominator > 10**12:
        a, b = _m.isqrt(f.numerator), _m.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator: return Sym.of(Fraction(a, b))
        if f.numerator * f.denominator > 10**18:      # no radical form: 200 significant bits
            k = max(0, 220 - (f.numerator.bit_length() - f.denominator.bit_length()) // 2)
            return Sym.of(Fraction(_m.isqrt((f.numerator << (2 * k)) // f.denominator), 1 << k))
    return root_int(f.numerator * f.denominator) / f.denominator
def mk_abs(base):
    """|monomial|, as product of absolute values of its atoms"""
    (m, cf), = base.n.items()
    out = Sym.of(abs(cf))
    for a, e in m:
        s = atom_sym(a)
        if e % 2 == 0 or known_sign(s) > 0 or C.atoms[a].get('nonneg'): out = out * s ** e; continue
        name = '|%s|' % C.atoms[a]['name']
        new = name not in C.byname
        b = C.atom('sqrt', name, arg=s * s)
        if new: C.red[b] = (s * s).n
        out = out * atom_sym(b) ** e
    return out

def psd_key(n):
    """key of a polynomial up to a positive factor"""
    k = p_key(n); c = abs(Fraction(k[0][1]))
    return tuple((m, Fraction(x) / c) for m, x in k)
def psd(x):
    """a quantity registered as non-negative by the harness (h.psd), over denominators that are positive"""
    if not C.psds or not x.n: return False
    return (psd_key(x.n) in C.psds or nonneg(Sym(x.n))) and all(e % 2 == 0 or psd_key(dict(k)) in C.psds or nonneg(Sym(dict(k))) for k, e in x.d)
def nonneg(x):
    """syntactic: sum of even monomials with positive coefficients"""
    if x.d: return False
    if C.nonnegs and p_key(x.n) in C.nonnegs: return True
    for m, c in x.n.items():
        if c < 0: return False
        for a, e in m:
            if e % 2 and not C.atoms[a].get('nonneg') and C.atoms[a]['kind'] not in ('rootint', 'sqrt', 'exp'): return False
    return True
def known_sign(x):
    """+1/-1 when the sign is syntactically certain and non-zero, else 0"""
    if not x.n: return 0
    sg = None
    for m, c in x.n.items():
        strict = True
        for a, e in m:
            k = C.atoms[a]
            if k['kind'] in ('rootint', 'exp') or k.get('pos'): continue
            return 0
        s = 1 if c > 0 else -1
        if sg is None: sg = s
        elif sg != s: return 0
    for k, e in x.d:
        s = known_sign(Sym(dict(k)))
        if s == 0: return 0
        if e % 2: sg *= s
    return sg

PI_NUM = Fraction(355, 113)
def pi():
    a = C.atom('pi', 'pi', pos=True)
    return atom_sym(a)

def angle_parts(x):
    """x as rational combination of angle/real atoms and pi: returns ({atom:coef}, coef_pi, const)"""
    x = lift(x)
    if x.d or not x.isreal(): raise Unsupported('trig of quotient')
    lin, cpi, c0 = {}, Fraction(0), Fraction(0)
    for m, c in x.n.items():
        if m == (): c0 = Fraction(c); continue
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if C.atoms[a]['kind'] == 'pi': cpi += Fraction(c)
            elif C.atoms[a]['kind'] in ('angle', 'real', 'angval', 'halfang'): lin[a] = lin.get(a, 0) + Fraction(c)
            else: raise Unsupported('trig of %s' % C.atoms[a]['kind'])
        else: raise Unsupported('trig of non-linear argument')
    return lin, cpi, c0

def trig(x):
    """(cos x, sin x) for a symbolic or constant x"""
    lin, cpi, c0 = angle_parts(x)
    if c0:
        q = Fraction(float(c0) / _m.pi).limit_denominator(96)
        if abs(float(q) * _m.pi - float(c0)) < 1e-12: cpi += q; c0 = Fraction(0)
    if c0:
        if not lin and not cpi:
            nm = 'cs(%s)' % c0
            c, s = base_cs(nm, dict(value=float(c0)))
        else:
            c, s = base_cs('cs(%s)' % c0, dict(value=float(c0)))
    else: c, s = Sym.of(1), Sym.of(0)
    def comb(c1, s1, c2, s2): return c1 * c2 - s1 * s2, s1 * c2 + c1 * s2
    for a, k in sorted(lin.items()):
        at = C.atoms[a]
        den = at.get('den', 1)
        n = k * den
        if n.denominator != 1: raise Unsupported('angle fraction')
        n = int(n)
        if at['kind'] == 'angval': bc, bs = at['cs']
        else: bc, bs = base_cs(at['name'] + ('/%d' % den if den != 1 else ''), dict(of=a, den=den))
        mc, ms = Sym.of(1), Sym.of(0)
        for _ in range(abs(n)): mc, ms = comb(mc, ms, bc, bs)
        if n < 0: ms = -ms
        c, s = comb(c, s, mc, ms)
    if cpi:
        q = cpi % 2
        if (q * 8).denominator != 1:
            bc, bs = base_cs('cspi(%s)' % q, dict(value=float(q) * _m.pi))
        else: bc, bs = pi8(int(q * 8))
        c, s = comb(c, s, bc, bs)
    return c, s
def pi8(k):
    """(cos, sin)(k*pi/8)"""
    k %= 16
    r2 = root_int(2)
    cc = c8(); ss = (r2 - 1) * cc
    tab = {0: (Sym.of(1), Sym.of(0)), 1: (cc, ss), 2: (r2 / 2, r2 / 2), 3: (ss, cc)}
    quad, r = divmod(k, 4)
    c, s = tab[r]
    for _ in range(quad): c, s = -s, c
    return c, s
def base_cs(name, info):
    nc, ns = 'cos(%s)' % name, 'sin(%s)' % name
    new = nc not in C.byname
    a = C.atom('cos', nc, **info); b = C.atom('sin', ns, cos=a, **info)
    if new:
        C.red[b] = {(): 1, ((a, 2),): -1}
    return atom_sym(a), atom_sym(b)

def angle_value(c, s, name):
    """an angle object with given cosine and sine (result of atan2 / np.angle)"""
    a = C.atom('angval', C.fresh(name), cs=(c, s))
    return atom_sym(a)
def sym_atan2(y, x):
    y, x = Sym.of(y), Sym.of(x)
    if not y.n:                          # on the real axis: 0 or pi
        if not x.n or nonneg(x) or known_sign(x) > 0: return Sym.of(0)
        if nonneg(-x) or known_sign(x) < 0 or not (x >= 0): return pi()
        return Sym.of(0)
    r = sym_sqrt(x * x + y * y)
    c, s = x / r, y / r
    full = angle_value(c, s, 'atan2')
    a = next(iter(full.atoms()))
    # offer the half angle as base when the angle lies in [0, pi/2] (both arguments non-negative)
    if (nonneg(y) or known_sign(y) >= 1) and (nonneg(x) or known_sign(x) >= 1):
        hc = sym_sqrt((Sym.of(1) + c) / 2); hs = s * hc / (Sym.of(1) + c)
        C.atoms[a]['cs'] = (hc, hs); C.atoms[a]['den'] = 2
    C.atoms[a]['full'] = (c, s)
    C.atoms[a]['num'] = ('atan2', y, x)
    return full
def sym_angle(z):
    z = Sym.of(z); return sym_atan2(z.imag, z.real)

def sym_exp(x):
    x = Sym.of(x)
    re, im = x.real, x.imag
    r = Sym.of(1)
    if re.n:
        name = 'exp(%s)' % show(re)
        a = C.atom('exp', name, arg=re, pos=True)
        r = atom_sym(a)
    if im.n:
        c, s = trig(im)
        r = r * (c + imag_unit() * s)
    return r
def sym_log(x):
    x = Sym.of(x)
    c = x.const()
    if c == 1: return Sym.of(0)
    name = 'log(%s)' % show(x)
    a = C.atom('log', name, arg=x, pos=bool(c is not None and c > 1))
    return atom_sym(a)
def sym_power(x, e):
    x, e = Sym.of(x), Sym.of(e)
    c = e.const()
    if c is not None:
        f = Fraction(c)
        if f.denominator == 1: return x ** int(f)
        if f == Fraction(1, 2): return sym_sqrt(x)
        if f.denominator == 2: return sym_sqrt(x) ** f.numerator
    cx = x.const()
    if cx == 1: return Sym.of(1)
    if cx == 0: return Sym.of(0)
    name = 'pow(%s,%s)' % (show(x), show(e))
    if name not in C.byname and C.eng is not None:
        for b in C.pows:                 # the same power of a provably equal argument is the same value
            at = C.atoms[b]
            if (at['ex'] - e).n or not x.atoms() & at['arg'].atoms(): continue
            d = SymBool.rel('==', at['arg'] - x)
            if d is True or isinstance(d, SymBool) and C.eng.solve([~d], timeout=2500)[0] == 'unsat': return atom_sym(b)
    if name not in C.byname: C.pows.append(len(C.atoms))
    a = C.atom('pow', name, arg=x, ex=e, nonneg=True)
    return atom_sym(a)
def sym_arctan(x):
    x = Sym.of(x)
    return sym_atan2(x, Sym.of(1))

def divmod_sym(a, b):
    cb = b.const(); ca = a.const()
    if ca is not None and cb is not None:
        q = Fraction(ca) / cb
        q = _m.floor(q); return Sym.of(q), Sym.of(_q(Fraction(ca) - Fraction(cb) * q))
    if cb is None or cb == 0: raise Unsupported('mod by symbolic value')
    if cb == 1 and a.isint(): return a, Sym.of(0)
    name = 'floordiv(%s,%s)' % (show(a), cb)
    new = name not in C.byname
    q = C.atom('int', name, arg=a, mod=cb)
    qs = atom_sym(q)
    r = a - qs * cb
    if new: C.eng.side.append(('fdiv', q, a, cb))
    return qs, r
def sym_floor(x):
    q, _ = divmod_sym(x, Sym.of(1)); return q
def sym_trunc(x):
    if x >= 0: return sym_floor(x)
    return -sym_floor(-x)
def sym_round(x, nd):
    """numpy/python rounding to nd decimals; ties are irrelevant to the properties (|err| <= half a unit)"""
    sc = Fraction(10) ** nd
    name = 'round(%s,%d)' % (show(x), nd)
    new = name not in C.byname
    q = C.atom('int', name, arg=x, scale=_q(sc), rnd=True)
    if new: C.eng.side.append(('round', q, x, _q(sc)))
    return atom_sym(q) / _q(sc)

# ------------------------------------------------------------------ numeric evaluation
def const_float(s):
    """complex value when only algebraic constants occur"""
    for a in s.atoms():
        if C.atoms[a]['kind'] not in ('rootint', 'imag', 'pi') and not ('value' in C.atoms[a]): return None
    return evalf(s, {})
def evalf(s, env, cache=None):
    """numeric value (complex) under env: atom name -> float for the free atoms"""
    if cache is None: cache = {}
    v = 0
    for m, c in s.n.items():
        t = float(c)
        for a, e in m: t = t * atom_val(a, env, cache) ** e
        v += t
    for k, e in s.d:
        dv = 0
        for m, c in k:
            t = float(c)
            for a, x in m: t = t * atom_val(a, env, cache) ** x
            dv += t
        v = v / dv ** e
    return complex(v)
def atom_val(a, env, cache):
    if a in cache: return cache[a]
    at = C.atoms[a]; k = at['kind']
    if at['name'] in env: v = env[at['name']]
    elif k == 'imag': v = 1j
    elif k == 'rootint': v = _m.cos(_m.pi / 8) if at['n'] is None else _m.sqrt(at['n'])
    elif k == 'pi': v = _m.pi
    elif k in ('cos', 'sin'):
        th = at['value'] if 'value' in at else env[C.atoms[at['of']]['name']] / at['den']
        v = _m.cos(th) if k == 'cos' else _m.sin(th)
    elif k == 'sqrt':
        x = evalf(at['arg'], env, cache).real
        v = _m.sqrt(max(x, 0.0))
    elif k == 'exp': v = _m.exp(evalf(at['arg'], env, cache).real)
    elif k == 'log': v = _m.log(evalf(at['arg'], env, cache).real)
    elif k == 'pow':
        v = max(evalf(at['arg'], env, cache).real, 0.0) ** evalf(at['ex'], env, cache).real
    elif k == 'angval':
        kk = at['num']; v = _m.atan2(evalf(kk[1], env, cache).real, evalf(kk[2], env, cache).real)
    elif k == 'int' and at.get('rnd'): v = round(evalf(at['arg'], env, cache).real * float(at['scale']))
    elif k == 'int' and 'mod' in at: v = _m.floor(evalf(at['arg'], env, cache).real / float(at['mod']) + 1e-12)
    else: raise KeyError(at['name'])
    cache[a] = v
    return v

def show_poly(p):
    if not p: return '0'
    ts = []
    for m, c in sorted(p.items()):
        f = '*'.join((C.atoms[a]['name'] + ('^%d' % e if e > 1 else '')) for a, e in m)
        ts.append(('%s*%s' % (c, f) if f and c != 1 else (f or str(c))))
    return ' + '.join(ts)
def show(s):
    t = show_poly(s.n)
    for k, e in s.d: t = '(%s)/(%s)^%d' % (t, show_poly(dict(k)), e)
    return t
