"""Path exploration (re-execution with decision prefixes), z3 queries and proof obligations."""
from __future__ import annotations
import time, random, math
from fractions import Fraction
import z3
from . import num as N
from .num import Sym, SymBool, Unsupported, Ctx

import os
SLOW = float(os.environ.get('SYMX_SLOW', '0'))
class Infeasible(BaseException): pass
class Deadline(BaseException): pass
class DivZero(ZeroDivisionError): pass
class PathLimit(BaseException): pass

class Stats:
    def __init__(s):
        s.queries = 0; s.solver_s = 0.0; s.unsat = 0; s.sat = 0; s.unknown = 0
        s.paths = 0; s.decisions = 0; s.obligations = 0; s.normal = 0; s.by_solver = 0
        s.inconclusive = 0; s.generic = 0; s.validated = 0; s.unsupported = 0; s.reach = 0; s.valpoints = 0; s.assumed = 0
    def add(s, o):
        for k, v in (o.items() if isinstance(o, dict) else o.__dict__.items()): setattr(s, k, getattr(s, k) + v)

def frac(c):
    c = Fraction(c); return z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)

class Path:
    def __init__(self, prefix, stats, opts, deadline, seed):
        self.prefix = list(prefix); self.pos = 0
        self.alts = []                 # alternative prefixes discovered
        self.pc = []                   # list of formula trees (SymBool or raw)
        self.side = []
        self.stats = stats; self.opts = opts; self.deadline = deadline
        self.ctx = Ctx(self); self.zatoms = {}; self.zside = []; self.done = set()
        self.trace = []
        self.rng = random.Random(seed)
        self.cands = []; self.pending = []; self.notes = []
        self.inputs = {}               # name -> dict(kind, atom, ...)
        self.abs_fork = opts.get('abs_fork', False)
        self.amp_atoms = []            # (re, im, bound) of amplitudes that are not zero
        self.pool = []; self.known = {}; self.fixed = {}; self.thr = None; self.abort = None

    # ---------------------------------------------------------------- z3 translation
    def za(self, a):
        if a in self.zatoms: return self.zatoms[a]
        at = self.ctx.atoms[a]; k = at['kind']; nm = '%s#%d' % (at['name'][:40], a)
        if k == 'int':
            zi = z3.Int(nm); v = z3.ToReal(zi); self.zatoms[a] = v
            lo, hi = at.get('lo'), at.get('hi')
            if lo is not None: self.zside.append((a, zi >= lo))
            if hi is not None: self.zside.append((a, zi <= hi))
        else:
            v = z3.Real(nm); self.zatoms[a] = v
        S = lambda c: self.zside.append((a, c))
        if k in ('real', 'angle', 'halfang'):
            if at.get('lo') is not None: S(v >= frac(at['lo']))
            if at.get('hi') is not None: S(v <= frac(at['hi']))
            if at.get('pos'): S(v > 0)
        elif k == 'rootint':
            S(v > 0)
            if at['n'] is None: S(v * v == self.zpoly(self.ctx.red[a])); S(v > frac(Fraction(92, 100)))
            else: S(v * v == at['n'])
        elif k == 'sqrt':
            S(v >= 0); x = at['arg']
            S(v * v * self.zden(x) == self.zpoly(x.n))
        elif k == 'cos':
            if 'value' in at:
                q = Fraction(math.cos(at['value'])).limit_denominator(10**12)
                S(v > frac(q - Fraction(1, 10**9))); S(v < frac(q + Fraction(1, 10**9)))
            else: S(v >= -1); S(v <= 1)
        elif k == 'sin':
            c = self.za(at['cos']); S(v * v + c * c == 1)
            if 'value' in at: S(v > 0) if math.sin(at['value']) > 0 else S(v < 0)
            else: S(v >= -1); S(v <= 1)
        elif k == 'pi':
            S(v > frac(Fraction(31415926, 10**7))); S(v < frac(Fraction(31415927, 10**7)))
        elif k == 'exp':
            S(v > 0); x = at['arg']; xz = self.zexpr(x)
            S(z3.Implies(xz <= 0, v <= 1)); S(z3.Implies(xz < 0, v < 1)); S(z3.Implies(xz == 0, v == 1)); S(z3.Implies(xz > 0, v > 1))
        elif k == 'log':
            c = at['arg'].const()
            if c is not None:
                q = Fraction(math.log(c)).limit_denominator(10**12)
                S(v > frac(q - Fraction(1, 10**10))); S(v < frac(q + Fraction(1, 10**10)))
        elif k == 'pow':
            S(v >= 0); x = self.zexpr(at['arg'])
            S(z3.Implies(x == 0, v == 0)); S(z3.Implies(x == 1, v == 1)); S(z3.Implies(z3.And(x >= 0, x <= 1), v <= 1)); S(z3.Implies(x > 0, v > 0))
            e = at['ex'].const()
            if e is not None and 0 < e <= 1: S(z3.Implies(z3.And(x >= 0, x <= 1), v >= x))
        elif k == 'int' and 'mod' in at:
            x = self.zexpr(at['arg']); m = frac(at['mod']); S(v * m <= x); S(x < (v + 1) * m)
        elif k == 'int' and at.get('rnd'):
            x = self.zexpr(at['arg']) * frac(at['scale']); S(v - x <= z3.RealVal('1/2')); S(x - v <= z3.RealVal('1/2'))
        return v
    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            t = None
            for a, e in m:
                v = self.za(a)
                for _ in range(e): t = v if t is None else t * v
            cf = frac(c)
            ts.append(cf if t is None else (t if c == 1 else cf * t))
        if not ts: return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def zden(self, x):
        r = z3.RealVal(1)
        for k, e in x.d:
            z = self.zpoly(dict(k))
            for _ in range(e): r = r * z
        return r
    def zexpr(self, x):
        """only for use where a quotient may appear as a z3 term"""
        if not x.d: return self.zpoly(x.n)
        return self.zpoly(x.n) / self.zden(x)
    def zf(self, f):
        if f is True or f is False: return z3.BoolVal(f)
        t = f.t
        if t[0] == 'not': return z3.Not(self.zf(t[1]))
        if t[0] == 'and': return z3.And(self.zf(t[1]), self.zf(t[2]))
        if t[0] == 'or': return z3.Or(self.zf(t[1]), self.zf(t[2]))
        op, e = t[1], t[2]
        n = self.zpoly(e.n)
        if op == '==': return n == 0
        if e.d:
            sg = 1
            for k, x in e.d:
                if x % 2 == 0: continue
                n = n * self.zpoly(dict(k))
        return n < 0 if op == '<' else n <= 0

    def solve(self, forms, timeout=None, pins=None, model=False, nopc=False):
        """is pc /\\ side /\\ forms satisfiable? A model is chosen, if possible, with all amplitudes away from zero"""
        r, m = self._solve(forms, timeout, pins, model, nopc)
        if r == 'sat' and model and not pins and self.amp_atoms:
            for far in (True, False):
                nz = []
                for a, b, k in self.amp_atoms:
                    x, y = self.za(a), self.za(b); q = frac(Fraction(k) / 20)
                    nz.append(z3.Or(x > q, x < -q, y > q, y < -q) if far else z3.Or(x != 0, y != 0))
                r2, m2 = self._solve(list(forms) + nz, 1500, pins, True, nopc)
                if r2 == 'sat': return r2, m2
        return r, m
    def _solve(self, forms, timeout=None, pins=None, model=False, nopc=False):
        if self.deadline and time.time() > self.deadline: self.fail(Deadline())
        zs = [self.zf(f) if isinstance(f, (SymBool, bool)) else f for f in forms]
        if not nopc: zs += [self.zf(f) if isinstance(f, (SymBool, bool)) else f for f in self.pc]
        if pins: zs += pins
        s = z3.Solver()
        s.set('timeout', int(timeout or self.opts.get('timeout', 4000)))
        for z in zs: s.add(z)
        for _, z in list(self.zside): s.add(z)
        t0 = time.time()
        r = s.check()
        if SLOW and time.time() - t0 > SLOW: self.notes.append('slow %.1fs %s %s' % (time.time() - t0, r, str(forms)[:300]))
        self.stats.solver_s += time.time() - t0; self.stats.queries += 1
        if r == z3.unsat: self.stats.unsat += 1; return ('unsat', None)
        if r == z3.sat: self.stats.sat += 1; return ('sat', s.model() if model else None)
        self.stats.unknown += 1
        return ('unknown', None)

    # ---------------------------------------------------------------- numeric guidance (pool of sample points)
    def sample_one(self, env):
        """extend/complete env with rational points for all input atoms present"""
        R = self.rng
        for a, at in enumerate(self.ctx.atoms):
            k = at['kind']; n = at['name']
            if n in env: continue
            if n in self.fixed: env[n] = self.fixed[n]; continue
            if k == 'real':
                lo = Fraction(-1 if at.get('lo') is None else at['lo']); hi = Fraction(1 if at.get('hi') is None else at['hi'])
                if at.get('tiny'): env[n] = Fraction(1, 10**12); continue
                q = Fraction(R.randint(1, 59), 60) * (hi - lo) + lo
                if at.get('pos') and q <= 0: q = Fraction(1, 7)
                env[n] = q
            elif k == 'int' and 'mod' not in at and not at.get('rnd'):
                env[n] = R.randint(-3 if at.get('lo') is None else at['lo'], 3 if at.get('hi') is None else at['hi'])
            elif k == 'angle':
                t = Fraction(R.randint(-40, 40), R.choice((7, 13, 17, 29)))
                lo, hi = at.get('lo'), at.get('hi')
                c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
                den = at.get('den', 1)
                th = math.atan2(s, c) * den
                for _ in range(30):
                    if (lo is None or th >= lo) and (hi is None or th <= hi): break
                    t = Fraction(R.randint(-60, 60), 17); c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t); th = math.atan2(s, c) * den
                env[n] = th; env['@' + n] = (c, s)
        return env
    def fenv(self, env):
        """float environment for evalf (exact circle points for the cos/sin atoms)"""
        fe = {}
        for k, v in env.items():
            if k[0] == '@': continue
            fe[k] = float(v)
        for a, at in enumerate(self.ctx.atoms):
            if at['kind'] in ('cos', 'sin') and 'of' in at:
                src = self.ctx.atoms[at['of']]['name']
                cs = env.get('@' + src)
                if cs is not None: fe[at['name']] = float(cs[0] if at['kind'] == 'cos' else cs[1])
        return fe
    def pins_of(self, env):
        out = []
        for a, z in list(self.zatoms.items()):
            at = self.ctx.atoms[a]
            if at['kind'] in ('cos', 'sin') and 'of' in at:
                cs = env.get('@' + self.ctx.atoms[at['of']]['name'])
                if cs is not None: out.append(z == frac(cs[0] if at['kind'] == 'cos' else cs[1]))
            elif at['name'] in env and at['kind'] in ('real', 'int'): out.append(z == frac(env[at['name']]))
        return out
    def pool_points(self, want=None):
        """sample points satisfying the path condition numerically; (env, float env)"""
        want = want or self.opts.get('pool', 12)
        keep = []
        for env in self.pool:
            self.sample_one(env)
            if self.env_ok(env): keep.append(env)
        self.pool = keep
        tries = 0
        lim = self.opts.get('pool_tries', 60)
        while len(self.pool) < want and tries < lim:
            tries += 1
            env = self.sample_one({})
            if self.env_ok(env): self.pool.append(env)
        return self.pool
    def env_ok(self, env):
        n0 = env.get('@n', 0); pc = self.pc
        try:
            fe = self.fenv(env)
            ok = all(self.feval(f, fe) for f in pc if isinstance(f, SymBool))
        except (ZeroDivisionError, KeyError, ValueError, OverflowError): return False
        return ok
    def feval(self, f, env):
        if f is True or f is False: return f
        t = f.t
        if t[0] == 'not': return not self.feval(t[1], env)
        if t[0] == 'and': return self.feval(t[1], env) and self.feval(t[2], env)
        if t[0] == 'or': return self.feval(t[1], env) or self.feval(t[2], env)
        v = N.evalf(t[2], env)
        if t[1] == '==': return abs(v) < 1e-9
        return v.real < -1e-11 if t[1] == '<' else v.real <= 1e-11

    # ---------------------------------------------------------------- interval arithmetic (sound fast path)
    def bounds(self, e):
        """(lo, hi) enclosing the real expression e, or None"""
        lo = hi = 0.0
        if e.d: return None
        if len(e.n) > 3:
            r = self.sq_bounds(e)
            if r is not None: return r
        for m, c in e.n.items():
            l = h = float(c)
            for a, x in m:
                b = self.abounds(a)
                if b is None: return None
                p = [b[0] ** x, b[1] ** x]
                pl, ph = min(p), max(p)
                if x % 2 == 0 and b[0] < 0 < b[1]: pl = 0.0
                q = (l * pl, l * ph, h * pl, h * ph)
                l, h = min(q), max(q)
            lo += l; hi += h
        eps = 1e-9 * (abs(lo) + abs(hi) + 1e-300)
        return lo - eps, hi + eps
    def sq_bounds(self, e):
        """tighter enclosure of  const + k*|x|^2  for a recorded squared modulus"""
        n = dict(e.n); c0 = float(n.pop((), 0))
        for k in (1, -1):
            m = n if k == 1 else N.p_scale(n, -1)
            for key in (N.p_key(m),):
                x = self.ctx.squares.get(key)
                if x is None: continue
                b, c = self.bounds(x[0]) , self.bounds(x[1])
                if b is None or c is None: return None
                hi = max(abs(b[0]), abs(b[1])) ** 2 + max(abs(c[0]), abs(c[1])) ** 2
                return (c0 - 1e-9, c0 + hi + 1e-9) if k == 1 else (c0 - hi - 1e-9, c0 + 1e-9)
        return None
    def abounds(self, a):
        at = self.ctx.atoms[a]; k = at['kind']
        if k == 'rootint': v = math.cos(math.pi / 8) if at['n'] is None else math.sqrt(at['n']); return (v, v)
        if k in ('cos', 'sin'): return (-1.0, 1.0)
        if k in ('real', 'int', 'angle') and at.get('lo') is not None and at.get('hi') is not None: return (float(at['lo']), float(at['hi']))
        if k == 'pi': return (math.pi, math.pi)
        if k == 'sqrt':
            b = self.bounds(at['arg'])
            return None if b is None else (0.0, math.sqrt(max(b[1], 0.0)))
        return None

    # ---------------------------------------------------------------- branching
    def key_of(self, sb):
        t = sb.t
        if t[0] == 'rel': return (t[1], N.p_key(t[2].n), t[2].d)
        return (t[0],) + tuple(self.key_of(x) if isinstance(x, SymBool) else x for x in t[1:])
    def decide(self, sb):
        if isinstance(sb, bool): return sb
        t = sb.t
        if t[0] == 'not': return not self.decide(t[1])
        if t[0] == 'and': return self.decide(t[1]) and self.decide(t[2])
        if t[0] == 'or': return self.decide(t[1]) or self.decide(t[2])
        op, e = t[1], t[2]
        # symbolic numerical threshold (thr -> 0+): generic sign
        if self.thr is not None and any(a == self.thr for m in e.n for a, _ in m):
            return self.decide_thr(op, e)
        if op != '==' and self.ctx.psds:
            # a registered non-negative quantity: positive, except on a lower-dimensional set (counted)
            if N.psd(e): self.stats.generic += op == '<='; return False
            if N.psd(-e): self.stats.generic += op == '<'; return True
        if op != '==' and not e.d:
            b = self.bounds(e)
            if b is not None:
                if b[1] < 0: return True
                if b[0] > 0: return False
        key = self.key_of(sb)
        if key in self.known: return self.known[key]
        if op == '==' and (N.nonneg(e) or len(e.n) > 4) and not any(self.ctx.atoms[a]['kind'] == 'int' for a in e.atoms()):
            # a sum of squares / a larger polynomial vanishing: a lower-dimensional set (excluded, counted; zero amplitudes have cases of their own)
            self.known[key] = False; self.stats.generic += 1; self.pc.append(~sb)
            return False
        self.stats.decisions += 1
        r = self._decide(sb)
        self.known[key] = r
        return r
    def decide_thr(self, op, e):
        A, B = {}, {}
        for m, c in e.n.items():
            if any(a == self.thr for a, _ in m): B[m] = c
            else: A[m] = c
        if not A:
            B2 = Sym({tuple((a, x) for a, x in m if a != self.thr): c for m, c in B.items()}, e.d)
            r = SymBool.rel(op, B2)
            return r if isinstance(r, bool) else self.decide(r)
        A = Sym(A, e.d)
        if op == '==': return False
        if N.nonneg(A): self.stats.generic += 1; return False
        if N.nonneg(-A): self.stats.generic += 1; return True
        r = SymBool.rel('<', A)
        if isinstance(r, bool): return r
        self.stats.generic += 1
        # the zero set of A (a lower-dimensional set of inputs) is outside the claim, except where A <= 0 (or >= 0) always
        if self.sq_like(A): return False
        key = self.key_of(r)
        if key not in self.known:
            self.stats.decisions += 1
            self.known[key] = self._decide(r, soft=True)
        return self.known[key]
    def sq_like(self, A):
        """A is a squared modulus by construction (recorded by __abs__ / real**2+imag**2)?"""
        return N.p_key(A.n) in self.ctx.squares
    def _decide(self, sb, soft=False):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
            if d[0] != 'b': raise Unsupported('non-deterministic replay')
            if d[2]: self.pc.append(sb if d[1] else SymBool(('not', sb)))
            self.trace.append(d)
            return d[1]
        t = f = False
        for env in self.pool_points():
            try: v = self.feval(sb, self.fenv(env))
            except (ZeroDivisionError, KeyError, ValueError, OverflowError): continue
            if v: t = True
            else: f = True
            if t and f: break
        neg = SymBool(('not', sb))
        if soft and t != f:
            # numerical-threshold test: an undecided other side is assumed away (counted, noted)
            r, _ = self.solve([neg if t else sb], timeout=self.opts.get('soft_timeout', 500))
            if r == 'unknown':
                self.stats.generic += 1; self.notes.append('assumed side of threshold test')
                self.pc.append(sb if t else neg); self._push(('b', t, True)); return t
            if r == 'sat': t = f = True
        else:
            if not t: t = self.feasible(sb, f)
            if not f: f = self.feasible(neg, t)
        if not t and not f: self.fail(Infeasible())
        if t and not f: self._push(('b', True, False)); return True
        if f and not t: self._push(('b', False, False)); return False
        self.alts.append(self.trace + [('b', False, True)])
        self.pc.append(sb); self._push(('b', True, True))
        return True
    def feasible(self, f, other):
        r, _ = self.solve([f], timeout=self.opts.get('branch_timeout', 800 if isinstance(f, SymBool) and f.t[0] == 'rel' and f.t[1] == '==' else 2500))
        if r == 'unknown' and other:      # undecided side next to a reachable one: left out, recorded
            self.stats.assumed += 1; self.notes.append('branch side not explored (solver undecided)'); self.pc.append(b_not_(f))
            return False
        return r != 'unsat'
    def fail(self, exc):
        self.abort = exc
        raise exc
    def _push(self, d):
        self.trace.append(d); self.pos += 1; self.prefix.append(d)
        if len(self.trace) > self.opts.get('max_decisions', 4000): self.fail(PathLimit())
    def nonzero(self, s):
        """division by s: fork off the zero case"""
        if s.isreal():
            if N.known_sign(s) != 0: return
            b = self.bounds(s)
            if b is not None and (b[0] > 0 or b[1] < 0): return
            e = SymBool.rel('==', s)
        else: e = N.b_and(SymBool.rel('==', s.real), SymBool.rel('==', s.imag))
        if e is False: return
        if e is not True and self.opts.get('generic_div', True):
            # exact zeros of a non-constant divisor: a lower-dimensional set; excluded and counted
            key = ('nz', N.p_key(s.n))
            if key not in self.known:
                self.known[key] = True; self.stats.generic += 1
                self.pc.append(SymBool(('not', e)))
            return
        if e is True or self.decide(e): raise DivZero('division by zero')
    def require_nonneg(self, x):
        c = SymBool.rel('<', x)
        if c is False: return
        if c is True or self.decide(c): raise ValueError('math domain error')
    def concretise(self, s):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
            if d[0] != 'i': raise Unsupported('non-deterministic replay')
            self.trace.append(d); self._fix(s, d[1])
            return d[1]
        at = None
        if len(s.n) == 1:
            (m, c), = s.n.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1: at = self.ctx.atoms[m[0][0]]
        if at is not None and at.get('choice') and at['name'] not in self.fixed:
            vals = list(range(at['lo'], at['hi'] + 1))
        else:
            vals = []; excl = []
            while len(vals) < 200:
                z = self.zpoly(s.n)
                r, m = self.solve(excl, model=True)
                if r != 'sat':
                    if r == 'unknown': raise Unsupported('cannot enumerate integer')
                    break
                v = m.eval(z, model_completion=True)
                v = Fraction(v.as_fraction()) if hasattr(v, 'as_fraction') else Fraction(str(v))
                if v.denominator != 1: raise Unsupported('non integer')
                vals.append(int(v)); excl.append(z != int(v))
        if not vals: self.fail(Infeasible())
        vals.sort()
        for v in vals[1:]: self.alts.append(self.trace + [('i', v)])
        self._push(('i', vals[0])); self._fix(s, vals[0])
        return vals[0]
    def _fix(self, s, v):
        if len(s.n) == 1:
            (m, c), = s.n.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                self.fixed[self.ctx.atoms[m[0][0]]['name']] = v
        f = SymBool.rel('==', s - v)
        if isinstance(f, SymBool): self.pc.append(f)
        self.pool = []
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond: self.fail(Infeasible())
            return
        if not isinstance(cond, SymBool): return self.assume(bool(cond))
        self.pc.append(cond)

    # ---------------------------------------------------------------- obligations
    def ob_eq(self, label, a, b, tol):
        """obligation: |a-b| <= tol for all inputs of this path"""
        self.stats.obligations += 1
        self.pending.append(('zero', label, a, b, tol))
    def ob_true(self, label, cond):
        self.stats.obligations += 1
        if not isinstance(cond, SymBool): cond = bool(cond)
        self.pending.append(('true', label, cond, None, None))
    def neg_form(self, kind, res, tol):
        if kind == 'true': return b_not_(res)
        t = Fraction(tol).limit_denominator(10**12)
        r = False
        for part in (res.real, res.imag):
            if not part.n: continue
            r = N.b_or(r, N.b_or(SymBool.rel('<', part + t), SymBool.rel('<', Sym.of(t) - part)))
        return r
    def round_only(self, res, tol):
        """the two sides differ by rounding errors only: the rounded quantities are opaque to the solver"""
        rnd = [a for a in res.atoms() if self.ctx.atoms[a].get('rnd')]
        if not rnd or res.d or self.ctx.I in res.atoms(): return False
        zs, terms, rest = [], [], Sym(res.n)
        for a in rnd:
            at = self.ctx.atoms[a]; k = res.n.get(((a, 1),))
            if k is None or any(b == a for m in res.n if m != ((a, 1),) for b, _ in m): return False
            q, x = z3.Int('q%d' % a), z3.Real('x%d' % a); sc = frac(at['scale'])
            zs += [2 * (z3.ToReal(q) - sc * x) <= 1, 2 * (sc * x - z3.ToReal(q)) <= 1]
            terms.append(frac(k) * (z3.ToReal(q) - sc * x))
            rest = rest - Sym({((a, 1),): k}) + N.lift(at['arg']) * at['scale'] * k
        if rest.n: return False
        t = frac(Fraction(tol).limit_denominator(10**12)); e = sum(terms[1:], terms[0])
        r, _ = self.solve(zs + [z3.Or(e > t, e < -t)], nopc=True)
        return r == 'unsat'
    def discharge(self):
        """decide all pending obligations of this path with the solver; returns [(label, input env)] counterexamples"""
        cex, batch, hard = [], [], []
        for ob in self.pending:
            if ob[0] == 'zero':
                res = ob[2] - ob[3]
                if not res.n:
                    self.stats.normal += 1
                    if len(ob[2].n) < 400: batch.append(ob)
                    continue
                if self.round_only(res, ob[4]): self.stats.by_solver += 1; continue
                hard.append(('zero', ob[1], res, ob[4]))
            else:
                if ob[2] is True: self.stats.normal += 1; continue
                hard.append(('true', ob[1], ob[2], None))
        # one query for the obligations whose two sides have the same normal form
        if batch:
            lits = []
            for _, label, a, b, tol in batch:
                for pa, pb in ((a.real, b.real), (a.imag, b.imag)):
                    za, zb = self.zpoly(pa.n), self.zpoly(pb.n)
                    lits.append(za - zb > frac(Fraction(tol).limit_denominator(10**12)) )
                    lits.append(zb - za > frac(Fraction(tol).limit_denominator(10**12)) )
            r, m = self.solve([z3.Or(lits)], model=True, nopc=True)
            if r == 'unsat': self.stats.by_solver += len(batch)
            elif r == 'sat':
                e = self.model_env(m); cex.append((batch[0][1], e))
            else: self.notes.append('batch query undecided (%d obligations hold by normal form)' % len(batch))
        t_end = time.time() + self.opts.get('discharge_s', 25)
        for kind, label, res, tol in hard:
            if len(cex) >= self.opts.get('max_cex', 3): break
            if time.time() > t_end:
                self.stats.inconclusive += 1; self.notes.append('inconclusive (time): ' + label); continue
            found = None
            margins = (0.05, 0.004) if kind == 'zero' else (0,)
            for mg in margins:
                f = self.neg_form(kind, res, max(mg, tol or 0))
                if f is False: continue
                if f is True: found = self.path_model(); break
                found = self._guided_cex(f)
                if found is not None: break
            if found is None:
                f = self.neg_form(kind, res, tol)
                if f is False: self.stats.by_solver += 1; continue
                if kind == 'zero':
                    br, bi = self.bounds(res.real), self.bounds(res.imag)
                    if br and bi and max(map(abs, br + bi)) <= tol: self.stats.by_solver += 1; continue
                r, m = self.solve([f], model=True)
                if r == 'unsat': self.stats.by_solver += 1; continue
                if r == 'sat': found = self.model_env(m)
                else:
                    found = self._guided_cex(f, tries=200)
                    if found is None:
                        self.stats.inconclusive += 1; self.notes.append('inconclusive: ' + label); continue
            cex.append((label, found))
        self.pending = []
        return cex
    def _guided_cex(self, f, tries=40):
        n = 0
        if f is False: return None
        for env in list(self.pool_points(tries if tries > 40 else 16)):
            try:
                if f is not True and not self.feval(f, self.fenv(env)): continue
            except (ZeroDivisionError, KeyError, ValueError, OverflowError): continue
            n += 1
            self.zf(f)
            r, m = self.solve([f], timeout=2000, pins=self.pins_of(env), model=True)
            if r == 'sat': return self.env_inputs(env)
            if n > 3: break
        return None
    def env_inputs(self, env):
        return {n: (int(env[n]) if i['kind'] == 'int' else float(env[n])) for n, i in self.inputs.items() if n in env}
    def model_env(self, m):
        out = {}
        def val(z):
            v = m.eval(z, model_completion=True)
            if z3.is_algebraic_value(v): v = v.approx(12)
            if hasattr(v, 'as_fraction'): return float(v.as_fraction())
            return float(v.as_long())
        vals = {a: val(z) for a, z in self.zatoms.items()}
        for n, info in self.inputs.items():
            a = info['atom']
            # an angle is recovered from its cosine/sine atoms
            cs = [(x, y) for x, y in enumerate(self.ctx.atoms) if y['kind'] == 'cos' and y.get('of') == a]
            v = None
            for x, y in cs:
                sb = [p for p, q in enumerate(self.ctx.atoms) if q['kind'] == 'sin' and q['cos'] == x][0]
                if x in vals or sb in vals:
                    v = math.atan2(vals.get(sb, 0.0), vals.get(x, 1.0)) * y['den']
            if v is None: v = vals.get(a)
            if v is not None: out[n] = int(round(v)) if info['kind'] == 'int' else v
            elif n in self.fixed: out[n] = self.fixed[n]
        return out
    def path_model(self):
        """a witness of the path condition (inputs), or None"""
        for env in self.pool_points(4):
            for f in self.pc: self.zf(f)
            r, m = self.solve([], timeout=2000, pins=self.pins_of(env), model=True)
            if r == 'sat': return self.env_inputs(env)
        r, m = self.solve([], model=True)
        if r == 'sat': return self.model_env(m)
        return None

def b_not_(c): return (~c) if isinstance(c, SymBool) else (not c)
