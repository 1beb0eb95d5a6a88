"""Runs the harness cases of one property: explore every path, discharge with the solver, replay every counterexample."""
from __future__ import annotations
import sys, os, json, time, traceback, fnmatch, multiprocessing as mp, glob, hashlib, signal
from . import num as N, loader
from .engine import Path, Stats, Infeasible, Deadline, DivZero, PathLimit
from .harness import H, Skip

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')

class Case:
    def __init__(self, name, fn, tier='quick', limit=None, **cfg):
        self.name = name; self.fn = fn; self.tier = tier; self.limit = limit
        self.opts = cfg.pop('opts', {}); self.cfg = cfg

def _mods(mode): return sys.modules if loader._mode == mode else (loader._real if mode == 'real' else loader._sym)

_called = set()
def _monitor():
    try:
        m = sys.monitoring
        m.use_tool_id(3, 'symx')
        def cb(code, off):
            if code.co_filename.startswith(loader.SRC):
                _called.add((os.path.relpath(code.co_filename, loader.SRC), code.co_qualname))
            return m.DISABLE
        m.register_callback(3, m.events.PY_START, cb)
        m.set_events(3, m.events.PY_START)
    except Exception: pass

def concrete(case, env):
    """run the harness on the untouched code; returns (failures, nchecks, skipped)"""
    loader.load()
    old = loader.swap('real'); N.set_ctx(None)
    rnd = loader.random_stub('real'); rnd.reset()
    h = H('real', loader.package('real'), _mods('real'), env=env, rnd=rnd)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            so = sys.stdout; sys.stdout = open(os.devnull, 'w')
            try: case.fn(h, **case.cfg)
            finally: sys.stdout.close(); sys.stdout = so
    except Skip: return [], h.nchecks, True
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(loader.SRC)]
        if not where and not isinstance(e, (KeyError, IndexError, TypeError, AttributeError, ValueError)): raise
        h.failures.append(('no exception', '%s: %s at %s' % (type(e).__name__, str(e)[:150], ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in where[-2:]])))
    finally: loader.swap(old)
    return h.failures, h.nchecks, False

def run_case(case, seed=1, limit=60.0):
    loader.load()
    st = Stats(); notes = []; viol = []; samples = []
    t0 = time.time(); deadline = t0 + (case.limit or limit)
    opts = dict(timeout=4000); opts.update(case.opts)
    stack = [[]]; incomplete = False; seen_labels = set()
    def add_violation(label, env, fails, how):
        key = label.split('[')[0]
        viol.append(dict(case=case.name, label=label, env=env, failures=fails[:6], how=how))
        seen_labels.add(key)
    while stack:
        if time.time() > deadline: incomplete = True; break
        if len(viol) >= 4: break
        prefix = stack.pop()
        p = Path(prefix, st, opts, deadline, seed)
        N.set_ctx(p.ctx)
        loader.swap('sym'); rnd = loader.random_stub('sym'); rnd.reset()
        h = H('sym', loader.package('sym'), _mods('sym'), path=p, rnd=rnd)
        st.paths += 1
        unsup = None; dead = False
        so = sys.stdout; sys.stdout = open(os.devnull, 'w')
        try:
            try: case.fn(h, **case.cfg)
            except (Infeasible, Deadline, PathLimit): pass
            except Skip: dead = True
            except N.Unsupported as e: unsup = 'unsupported: %s' % e
            except RecursionError as e: unsup = 'recursion'
            except Exception as e:
                if p.abort is None:
                    tb = traceback.extract_tb(e.__traceback__)
                    p.exc = '%s: %s @ %s' % (type(e).__name__, str(e)[:160], ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]])
                    p.ob_true('no exception', False)
                    unsup = None
            if p.abort is not None:
                if isinstance(p.abort, Infeasible): dead = True
                elif isinstance(p.abort, (Deadline, PathLimit)): incomplete = True; notes.append('limit: %s' % type(p.abort).__name__)
                elif unsup is None: unsup = 'unsupported: %s' % p.abort
        finally:
            sys.stdout.close(); sys.stdout = so; loader.swap('real')
        stack.extend(reversed(p.alts))
        if dead: continue
        if isinstance(p.abort, (Deadline, PathLimit)): continue
        cex = []; wit = None
        try:
            if unsup is None: cex = p.discharge()
            p.abort = None
            wit = p.path_model()
        except Deadline: incomplete = True
        except N.Unsupported as e: unsup = 'unsupported in discharge: %s' % e
        except Exception as e:
            unsup = 'engine: %s %s' % (type(e).__name__, str(e)[:100]); notes.append(traceback.format_exc()[-400:])
        if wit is not None: st.reach += 1
        notes += p.notes[:5]
        if getattr(p, 'exc', None): notes.append('path exception ' + p.exc)
        bad = False
        for label, env in cex:
            if env is None: env = wit or {}
            fails, n, sk = concrete(case, env)
            st.validated += 1
            if fails: add_violation(label, env, fails, 'solver counterexample'); bad = True
            else: st.inconclusive += 1; notes.append('counterexample did not reproduce: %s %s%s' % (label, env, ' exc=' + p.exc if getattr(p, 'exc', None) else ''))
        if not bad and wit is not None or unsup:
            fails, n, sk = concrete(case, wit or {})
            st.validated += 1; st.valpoints += n
            if fails: add_violation(fails[0][0], wit or {}, fails, 'witness of the path condition replayed on the real code')
            elif len(samples) < 2: samples.append(dict(case=case.name, inputs=wit, checks=n))
        if unsup:
            st.unsupported += 1; st.inconclusive += 1; notes.append(unsup)
            # the symbolic semantics gave up: replay further points of the input box on the real code
            try:
                for _ in range(6):
                    env = p.sample_one({})
                    fails, n, sk = concrete(case, p.env_inputs(env)); st.validated += 1
                    if fails: add_violation(fails[0][0], p.env_inputs(env), fails, 'replayed point'); break
            except Exception: pass
    N.set_ctx(None)
    return dict(case=case.name, stats=st.__dict__, violations=viol, notes=notes[:12], incomplete=incomplete,
                seconds=time.time() - t0, samples=samples, called=sorted(_called))

_CASES = None
def _worker(i_limit):
    i, seed, limit, tend = i_limit
    c = _CASES[i]
    if time.time() > tend: return dict(case=c.name, stats=Stats().__dict__, violations=[], notes=['not started: out of time'], incomplete=True, seconds=0, samples=[], called=[])
    try: return run_case(c, seed, min(limit, max(5.0, tend - time.time())))
    except BaseException as e:
        return dict(case=c.name, stats=Stats().__dict__, violations=[], notes=['engine failure: ' + traceback.format_exc()[-600:]], incomplete=True, seconds=0, samples=[], called=[])

def known_findings(pid):
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if not line.startswith('known:'): continue
            d = dict(x.split('=', 1) for x in line[6:].split(' :: ')[0].split() if '=' in x)
            d['text'] = line.split(' :: ', 1)[1] if ' :: ' in line else ''
            if d.get('property') == pid: out.append(d)
    return out

def main(pid, cases, meta, tier, seed, only=None, verbose=False, nproc=None):
    global _CASES
    loader.load(); _monitor()
    t0 = time.time()
    cases = [c for c in cases if tier == 'thorough' or c.tier == 'quick']
    if only: cases = [c for c in cases if fnmatch.fnmatch(c.name, only)]
    _CASES = cases
    per = 100.0 if tier == 'quick' else 900.0
    total = float(os.environ.get('SYMX_TOTAL', 420 if tier == 'quick' else 5400))
    tend = t0 + total
    jobs = [(i, seed, per, tend) for i in range(len(cases))]
    results = []
    nproc = nproc or int(os.environ.get('SYMX_PROCS', '8'))
    if nproc <= 1:
        for j in jobs: results.append(_worker(j))
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(nproc, maxtasksperchild=20) as pool:
            it = pool.imap_unordered(_worker, jobs, chunksize=1)
            done = 0
            while done < len(jobs):
                try: r = it.next(timeout=max(1.0, tend + 60 - time.time()))
                except mp.TimeoutError: break
                results.append(r); done += 1
            pool.terminate()
    got = {r['case'] for r in results}
    for c in cases:
        if c.name not in got: results.append(dict(case=c.name, stats=Stats().__dict__, violations=[], notes=['no answer'], incomplete=True, seconds=0, samples=[], called=[]))
    tot = Stats(); called = set(); viol = []; inc = []
    for r in sorted(results, key=lambda r: r['case']):
        tot.add(r['stats']); called |= set(map(tuple, r['called']))
        viol += r['violations']
        if r['incomplete'] or r['stats']['inconclusive']: inc.append((r['case'], r['notes'][:3]))
        if verbose:
            s = r['stats']
            print('%-50s %5.1fs paths %d oblig %d normal %d z3 %d (%.1fs) inconcl %d generic %d reach %d viol %d %s' % (r['case'], r['seconds'], s['paths'], s['obligations'], s['normal'], s['queries'], s['solver_s'], s['inconclusive'], s['generic'], s['reach'], len(r['violations']), 'INCOMPLETE' if r['incomplete'] else ''))
            for n in r['notes'][:verbose if isinstance(verbose, int) else 3]: print('      ', n[:700])
    kf = known_findings(pid); used = set(); real = []
    for v in viol:
        hit = None
        for k in kf:
            if fnmatch.fnmatch(v['case'], k.get('case', '*')) and fnmatch.fnmatch(v['label'].replace(' ', '_'), k.get('label', '*')): hit = k; break
        if hit is not None: used.add(json.dumps(hit, sort_keys=True))
        else: real.append(v)
    code = 0
    for k in kf:
        if json.dumps(k, sort_keys=True) in used: print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    rdir = os.path.join(EVID, 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '-*.json')): os.unlink(f)
    for i, v in enumerate(real[:8]):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, **v), open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('   case %s: %s  inputs %s' % (v['case'], v['failures'][:2], v['env']))
        code = 1
    vac = [r['case'] for r in results if r['stats']['paths'] and not r['stats']['reach'] and not r['incomplete'] and not r['violations']]
    ev = dict(property_id=pid, tier=tier, seed=seed, level='model_checking', seconds=round(time.time() - t0, 2),
        states_explored=tot.paths, transitions=tot.decisions, traces_validated_against_impl=tot.validated,
        cases=len(cases), obligations=tot.obligations, obligations_same_normal_form=tot.normal, obligations_discharged_by_solver=tot.by_solver,
        solver_queries=tot.queries, solver_unsat=tot.unsat, solver_sat=tot.sat, solver_unknown=tot.unknown, solver_seconds=round(tot.solver_s, 2),
        reachable_paths=tot.reach, inconclusive=tot.inconclusive, generic_assumptions=tot.generic, undecided_sides_left_out=tot.assumed, unsupported_paths=tot.unsupported,
        functions_encoded=sorted('%s:%s' % c for c in called), bounds=meta.get('bounds', ''), outside=meta.get('outside', ''),
        violations=len(real), known_findings=len(used), inconclusive_cases=inc[:20], vacuous_cases=vac[:20],
        samples=[s for r in results for s in r['samples']][:5])
    meta_ev(pid, ev, tier)
    print('%s %s: %d cases, %d paths, %d obligations (%d by solver), %d z3 queries %.1fs, %d replays, inconclusive %d, vacuous %d, assumed %d, violations %d, %.1fs' % (
        pid, tier, len(cases), tot.paths, tot.obligations, tot.by_solver, tot.queries, tot.solver_s, tot.validated, tot.inconclusive, len(vac), tot.assumed, len(real), time.time() - t0))
    return code

def meta_ev(pid, ev, tier):
    from . import evidence
    evidence.write(pid, ev, tier)

def replay(path, cases):
    v = json.load(open(path))
    loader.load()
    for c in cases:
        if c.name == v['case']:
            fails, n, sk = concrete(c, v['env'])
            print('replay %s: %d checks, failures: %s' % (c.name, n, fails))
            return 1 if fails else 0
    print('case not found'); return 2
