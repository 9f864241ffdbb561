"""Contracts as cases, their obligations, their replay, and the evidence.

A case is a function case(c).  It obtains every input from `c` (c.real, c.pos,
c.cplx, c.choice ...), builds the real objects of /repo with them, calls the
real functions and states the contract with c.eq / c.true.

The same case is executed
  sym   on exact symbolic scalars, once per feasible path: every c.eq is a proof
        obligation quantified over all values of the inputs;
  num   on machine numbers: engine cross-check, replay of refutations, and the
        bounded stand-in for cases the engine cannot follow;
  arr   on numpy arrays (broadcast inputs), same purpose.
"""
import cmath
import contextlib
import json
import math
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import warnings

from . import sym, paths
from .sym import SV, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Skip(Exception):
    """concrete sample outside the precondition"""


class Fail(Exception):
    pass


class Case(object):
    def __init__(self, func, name, arr=True, sym=True, num=True, samples=None, bounded=False, doc=None, specials=True, tol=1e-7, limit=(240, 900)):
        self.limit = limit
        self.func = func
        self.name = name
        self.arr = arr
        self.sym = sym
        self.num = num
        self.samples = samples
        self.bounded = bounded
        self.doc = doc or (func.__doc__ or '').strip()
        self.specials = specials
        self.tol = tol


class Suite(object):
    def __init__(self, prop, level='proof', trusted=(), assumptions=()):
        self.prop = prop
        self.level = level
        self.cases = []
        self.trusted = list(trusted)
        self.assumptions = list(assumptions)
        self.extra = []      # callables (tier, seed) -> dict(obligations=[...], violations=[...], ...)

    def case(self, name=None, **kw):
        def deco(f):
            self.cases.append(Case(f, name or f.__name__, **kw))
            return f
        return deco

    def engine(self, f):
        """a back end of its own: f(tier, seed) -> list of Result dicts"""
        self.extra.append(f)
        return f


# ---------------------------------------------------------------------------
class CtxBase(object):
    mode = None

    def __init__(self):
        self.obls = []
        self.names = {}

    # -- to be specialised
    def system(self, **kw):
        from phasor.system import BGSystem
        return BGSystem(**kw)

    def _name(self, n):
        return n


class SymCtx(CtxBase):
    mode = 'sym'
    sym = True

    def real(self, name, lo=None, hi=None, nz=False, special=()):
        v = sym.real(name)
        self.names[name] = 'real'
        if lo is not None:
            paths.assume('>=', v - lo)
        if hi is not None:
            paths.assume('>=', SV.lift(hi) - v)
        if nz:
            paths.assume('!=', v)
        return v

    def pos(self, name, special=()):
        self.names[name] = 'pos'
        return sym.pos(name)

    def nonneg(self, name):
        self.names[name] = 'real'
        v = sym.real(name)
        paths.assume('>=', v)
        return v

    def cplx(self, name, nz=False):
        self.names[name] = 'cplx'
        v = sym.cplx(name)
        if nz:
            paths.assume('!=', v)
        return v

    def choice(self, name, options):
        options = list(options)
        i = paths.CTX.choose('c', name, list(range(len(options))))
        paths.CTX.choices[name] = i
        return options[i]

    def assume(self, rel, v):
        paths.assume(rel, SV.lift(v))

    def eq(self, label, got, want, scale=None, assume_def=True):
        g = lift(got)
        w = lift(want)
        if isinstance(g, (list, tuple)):
            assert len(g) == len(w), label
            for i, (a, b) in enumerate(zip(g, w)):
                self.obls.append(('eq', '%s[%d]' % (label, i), SV.lift(a), SV.lift(b), scale))
            return
        self.obls.append(('eq', label, g, w, scale))

    def true(self, label, cond):
        """a concrete (path-determined) boolean"""
        self.obls.append(('true', label, bool(cond), True, None))

    def ge(self, label, got, bound=0, scale=None):
        self.obls.append(('ge', label, SV.lift(got), SV.lift(bound), scale))


def lift(x):
    if isinstance(x, (list, tuple)):
        return [SV.lift(a) for a in x]
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.shape == ():
            return SV.lift(x.item())
        return [SV.lift(a) for a in x.ravel()]
    r = SV.lift(x)
    if r is NotImplemented:
        raise Unsupported('not a scalar: %r' % (type(x),))
    return r


class NumCtx(CtxBase):
    mode = 'num'
    sym = False

    def __init__(self, rng, env=None, choices=None, shape=None, tol=1e-7, specials=True, choice_prefix=None):
        CtxBase.__init__(self)
        self.rng = rng
        self.env = dict(env or {})
        self.used = {}
        self.cho = dict(choices or {})
        self.shape = shape
        self.tol = tol
        self.specials = specials
        self.fails = []
        self.n = 0
        if shape is not None:
            self.mode = 'arr'

    def _draw(self, name, f):
        if name in self.used:
            return self.used[name]
        if name in self.env:
            v = self.env[name]
            if isinstance(v, list):
                import numpy as np
                v = np.array([complex(*x) if isinstance(x, list) else x for x in v])
        elif self.shape is None:
            v = f()
        else:
            import numpy as np
            v = np.array([f() for _ in range(self.shape)])
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, nz=False, special=()):
        r = self.rng

        def f():
            for _ in range(50):
                u = r.random()
                if self.specials and u < .12:
                    x = 0.
                elif self.specials and u < .2:
                    x = r.choice([1., -1.])
                elif special and u < .35:
                    x = r.choice(list(special))
                elif lo is not None and hi is not None:
                    x = r.uniform(lo, hi)
                elif lo is not None:
                    x = lo + abs(r.gauss(0, 2))
                elif hi is not None:
                    x = hi - abs(r.gauss(0, 2))
                else:
                    x = r.gauss(0, 2)
                if nz and x == 0:
                    continue
                if lo is not None and x < lo or hi is not None and x > hi:
                    continue
                return float(x)
            raise Skip()
        return self._draw(name, f)

    def pos(self, name, special=()):
        r = self.rng
        return self._draw(name, lambda: float(r.choice(list(special)) if special and r.random() < .3
                                              else (1. if self.specials and r.random() < .1 else math.exp(r.gauss(0, 1)))))

    def nonneg(self, name):
        return self.real(name, lo=0)

    def cplx(self, name, nz=False):
        r = self.rng
        return self._draw(name, lambda: 0j if (self.specials and not nz and r.random() < .1)
                          else complex(r.gauss(0, 1.5), r.gauss(0, 1.5)))

    def choice(self, name, options):
        options = list(options)
        if name in self.cho:
            i = self.cho[name]
        else:
            i = self.rng.randrange(len(options))
            self.cho[name] = i
        return options[i]

    def assume(self, rel, v):
        import numpy as np
        v = np.asarray(v)
        if np.iscomplexobj(v) and rel not in ('==', '!='):
            v = v.real
        ok = {'==': lambda: abs(v) < 1e-12, '!=': lambda: abs(v) > 1e-9, '>': lambda: v > 1e-9,
              '<': lambda: v < -1e-9, '>=': lambda: v >= 0, '<=': lambda: v <= 0}[rel]()
        if not np.all(ok):
            raise Skip()

    def eq(self, label, got, want, scale=None, assume_def=True):
        import numpy as np
        self.n += 1
        try:
            w = np.asarray(want, dtype=complex)
        except TypeError:
            w = np.asarray(complex(want))
        if not np.all(np.isfinite(w)):
            raise Skip()
        try:
            g = np.asarray(got, dtype=complex)
        except TypeError:
            try:
                g = np.asarray(complex(got))
            except TypeError:
                self.fails.append((label, repr(got)[:200], repr(want)[:200]))
                return
        self.obls.append((label, g, w))
        try:
            err = abs(g - w)
        except ValueError:
            self.fails.append((label, 'shape %s' % (g.shape,), 'shape %s' % (w.shape,)))
            return
        if assume_def and not np.all(np.isfinite(g)):
            pass
        s = np.maximum(abs(g), abs(w))
        ok = err <= self.tol * s
        z = (w == 0)
        sc = 1. if scale is None else np.asarray(scale, dtype=complex)
        ok = ok | (z & (err <= 1e-9 * abs(sc)))
        if scale is not None:
            ok = ok | (err <= 1e-9 * abs(sc))
        ok = np.asarray(ok)
        if not np.all(ok) or not np.all(np.isfinite(g)):
            bad = ~(ok & np.isfinite(err))
            self.fails.append((label, repr(np.broadcast_to(g, bad.shape)[bad].ravel()[:3].tolist()) if bad.shape else repr(complex(g)),
                               repr(np.broadcast_to(w, bad.shape)[bad].ravel()[:3].tolist()) if bad.shape else repr(complex(w))))

    def true(self, label, cond):
        import numpy as np
        self.n += 1
        c = bool(np.all(cond))
        self.obls.append((label, c, True))
        if not c:
            self.fails.append((label, 'False', 'True'))

    def ge(self, label, got, bound=0, scale=None):
        import numpy as np
        self.n += 1
        g = np.asarray(got)
        if np.iscomplexobj(g):
            if np.any(abs(g.imag) > 1e-9 * (abs(g) + 1)):
                self.fails.append((label, repr(g), 'real'))
            g = g.real
        b = np.asarray(bound).real
        tol = 1e-9 * (np.maximum(abs(g), abs(b)) if scale is None else scale)
        if not np.all(g - b >= -tol):
            self.fails.append((label, repr(got), '>= %r' % (bound,)))


# ---------------------------------------------------------------------------
_seen_funcs = set()


def track_functions():
    """record which functions of /repo the cases really execute"""
    try:
        mon = sys.monitoring
        mon.use_tool_id(4, 'vc')
    except Exception:
        return

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/phasor'):
            _seen_funcs.add('%s:%s' % (fn[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


class TimeUp(BaseException):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def ring(sig, frm):
        raise TimeUp()
    old = signal.signal(signal.SIGALRM, ring)
    t0 = time.time()
    left = signal.alarm(max(1, int(seconds)))
    try:
        yield
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.alarm(max(1, int(left - (time.time() - t0))) if left else 0)


HANG_S = 120       # concrete runs take milliseconds
SUITE_S = {'quick': 600}
_START = [time.time()]


def run_num(case, rng, env=None, choices=None, shape=None):
    """one concrete run: (ctx, error or None)"""
    import numpy as np
    c = NumCtx(rng, env=env, choices=choices, shape=shape, tol=case.tol, specials=case.specials)
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings(), time_limit(HANG_S):
            warnings.simplefilter('ignore')
            case.func(c)
    except TimeUp:
        return c, 'no result within %d s' % HANG_S
    except Skip:
        return None, None
    except (ZeroDivisionError, OverflowError) as e:
        if not any('/phasor/' in f.filename for f in traceback.extract_tb(e.__traceback__)):
            return None, None           # of the contract itself: outside of its domain
        return c, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    except Exception as e:
        return c, '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    return c, None


def run_case(args):
    case, tier, seed = args
    t0 = time.time()
    res = dict(case=case.name, obligations=0, discharged=0, undischarged=[], backends={}, paths=0,
               evaluations=0, violations=[], notes=[], functions=[], domains=[], cross_checked=0, vacuous=False,
               bounded=case.bounded, doc=case.doc)
    track_functions()
    base_rng = random.Random('%s/%s' % (seed, case.name))
    cands = []
    limit = case.limit[0 if tier == 'quick' else 1]
    if tier in SUITE_S:
        # late starters of a slow suite get what is left
        limit = max(20, min(limit, SUITE_S[tier] - (t0 - _START[0])))
    sym_err = None
    if case.sym:
        try:
            with time_limit(limit + 20):
                sym_phase(case, res, cands, t0, limit)
        except TimeUp:
            sym_err = 'time limit'
            paths.CTX = None
        except Unsupported as e:
            sym_err = 'engine cannot follow: %s' % e
        except RecursionError as e:
            sym_err = 'engine recursion'
        except Exception as e:
            sym_err = 'exception under symbolic execution: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:])
        if sym_err:
            res['undischarged'].append(dict(case=case.name, why=sym_err.split('\n')[0]))
            res['notes'].append(sym_err)
    # replay candidates
    for cand in cands:
        env = {k: (v.real if isinstance(v, complex) and v.imag == 0 else v) for k, v in (cand['env'] or {}).items()}
        c, err = run_num(case, random.Random(1), env=env, choices=cand['choices'])
        if c is not None and (err or c.fails):
            add_violation(res, case, c, err, cand)
            break
    else:
        if cands:
            # the witness itself does not fail on the real code; search near by
            hit = False
            for t in range(200):
                rng = random.Random('cand/%s/%s' % (seed, t))
                c, err = run_num(case, rng, choices=cands[t % len(cands)]['choices'])
                if c is not None and (err or c.fails):
                    add_violation(res, case, c, err, cands[t % len(cands)])
                    hit = True
                    break
            if not hit:
                res['notes'].append('refuted symbolically, agrees with the real code numerically: engine limit (counted undischarged)')
    # concrete layer
    if case.num:
        n = case.samples * (1 if tier == 'quick' else 10) if case.samples else (25 if tier == 'quick' else 400)
        t1 = time.time()
        if sym_err or case.bounded:
            n *= 2
        for t in range(n):
            if time.time() - t1 > max(60, limit // 2):
                res['notes'].append('concrete layer cut short by time')
                break
            if res['violations']:
                break
            shape = None
            if case.arr and t % 3 == 2:
                shape = 4
            rng = random.Random('%s/%s/%d' % (seed, case.name, t))
            c, err = run_num(case, rng, shape=shape)
            if c is None:
                continue
            res['evaluations'] += 1
            if err or c.fails:
                add_violation(res, case, c, err, None)
    res['functions'] = sorted(_seen_funcs)
    res['stats'] = dict(paths.STATS)
    res['wall'] = time.time() - t0
    return res


def sym_phase(case, res, cands, t0, limit):
    some_witness = False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        def body():
            c = SymCtx()
            try:
                case.func(c)
            except ZeroDivisionError:
                c.zero_div = True
            return c
        npath = 0
        for ctx, c in paths.explore(body):
            npath += 1
            if time.time() - t0 > limit:
                raise Unsupported('time limit in path exploration')
            if getattr(c, 'zero_div', False):
                # a denominator is zero on this path: outside the domain of the contract
                res['domains'].append('excluded: division by zero when ' + ', '.join('%s %s 0' % (v, r) for r, v in ctx.facts)[:200])
                if not any(r == '==' for r, v in ctx.facts):
                    # nothing is special here: the real code has to show it
                    old, paths.CTX = paths.CTX, ctx
                    try:
                        wit = paths.find_witness(SV.lift(1), ctx.facts, tries=40)
                    finally:
                        paths.CTX = old
                    if wit is not None:
                        cands.append(dict(label='division by zero', env=wit, choices=dict(ctx.choices)))
                continue
            facts = list(ctx.facts) + [('!=', v) for v in ctx.divisors.values()] + [('>=', v) for v in ctx.roots.values()]
            old = paths.CTX
            paths.CTX = ctx
            try:
                wit = paths.find_witness(SV.lift(1), facts, tries=40)
                if wit is not None:
                    some_witness = True
                for kind, label, g, w, scale in c.obls:
                    res['obligations'] += 1
                    if kind == 'true':
                        if g:
                            status, info = 'proved', 'path evaluation'
                        else:
                            status, info = 'refuted', wit
                    elif kind == 'ge':
                        status, info = prove_ge(g - w, facts)
                    else:
                        status, info = paths.prove_zero(g - w, facts)
                    if status == 'proved':
                        res['discharged'] += 1
                        res['backends'][info] = res['backends'].get(info, 0) + 1
                    else:
                        res['undischarged'].append(dict(case=case.name, obligation=label, status=status,
                                                        path=['%s %s 0' % (str(v)[:80], r) for r, v in ctx.facts],
                                                        why=info if isinstance(info, str) else 'refuted',
                                                        got=str(g)[:200], want=str(w)[:200]))
                        if status == 'refuted':
                            cands.append(dict(label=label, env=info if isinstance(info, dict) else wit,
                                              choices=dict(ctx.choices)))
            finally:
                paths.CTX = old
            if wit is not None and npath <= 6:
                # engine against CPython at the witness
                env = {k: v for k, v in wit.items() if not isinstance(v, tuple)}
                cc, err = run_num(case, random.Random(1), env=env, choices=ctx.choices)
                if cc is not None and not err and not cc.fails:
                    mine = [o for o in c.obls if o[0] != 'ge']
                    theirs = [o for o in cc.obls if not (len(o) == 3 and isinstance(o[1], bool)) ]
                    mine = [o for o in mine if o[0] == 'eq']
                    if [o[1] for o in mine] == [o[0] for o in theirs]:
                        pairs = zip(mine, theirs)
                    else:
                        lab = {}
                        for o in theirs:
                            lab.setdefault(o[0], []).append(o)
                        cnt = {}
                        for o in mine:
                            cnt[o[1]] = cnt.get(o[1], 0) + 1
                        pairs = [(o, lab[o[1]][0]) for o in mine if cnt[o[1]] == 1 and len(lab.get(o[1], ())) == 1]
                    for m, o in pairs:
                        if o[1].shape == ():
                            try:
                                x = m[2].evalf(dict(env))
                            except Exception:
                                continue
                            y = complex(o[1])
                            if abs(x - y) > 1e-6 * max(abs(x), abs(y), abs(complex(o[2]))) + 1e-9:
                                res['notes'].append('ENGINE MISMATCH %s: engine %r python %r' % (o[0], x, y))
                                res['mismatch'] = True
                            else:
                                res['cross_checked'] += 1
        res['paths'] = npath
    if res['obligations'] and not some_witness:
        res['vacuous'] = True
        res['notes'].append('no numeric witness for any path: vacuous?')


def prove_ge(d, facts):
    if not d.num:
        return 'proved', 'exact normal form'
    s = sym.syn_sign(d)
    if s is not None and s >= 0:
        return 'proved', 'sum of squares'
    # d >= 0 is refuted by a point with d < 0
    r = paths.z3_check(facts + [('<', d)], 10000)
    if r == 'unsat':
        return 'proved', 'z3'
    env = None
    rng = random.Random(7)
    for t in range(50):
        e = paths.find_witness(SV.lift(1), facts, tries=5, rng=rng)
        if e is None:
            continue
        try:
            x = d.evalf(dict(e))
        except Exception:
            continue
        if x.real < -1e-7:
            return 'refuted', e
    return 'undecided', 'z3: ' + r


def jsonable(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return [jsonable(x) for x in v.tolist()]
    if isinstance(v, complex):
        return [v.real, v.imag]
    if isinstance(v, (float, int, str)) or v is None:
        return v
    return repr(v)


def add_violation(res, case, c, err, cand):
    f = c.fails[0] if c.fails else ('exception', (err or '').strip().split('\n')[0], 'no exception')
    env = {}
    for k, v in c.used.items():
        jv = jsonable(v)
        env[k] = dict(cplx=jv) if isinstance(v, complex) else jv
    res['violations'].append(dict(case=case.name, obligation=f[0], got=f[1], want=f[2], inputs=env,
                                  choices=c.cho, shape=c.shape, error=err,
                                  refuted_obligation=cand['label'] if cand else None))


# ---------------------------------------------------------------------------
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def run_suite(suite, tier, seed):
    t0 = time.time()
    _START[0] = t0
    jobs = int(os.environ.get('VC_JOBS', '6'))
    tasks = [(c, tier, seed) for c in suite.cases]
    results = []
    if jobs > 1 and len(tasks) > 1:
        mp = multiprocessing.get_context('fork')
        global _TASKS
        _TASKS = tasks
        with mp.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_run_idx, range(len(tasks)), chunksize=1):
                results.append(r)
    else:
        for t in tasks:
            results.append(run_case(t))
    for f in suite.extra:
        for r in f(tier, seed):
            results.append(r)
    results.sort(key=lambda r: r['case'])
    return finish(suite, results, tier, seed, time.time() - t0)


def _run_idx(i):
    try:
        with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f):      # the code under test prints
            return run_case(_TASKS[i])
    except BaseException as e:
        return dict(case=_TASKS[i][0].name, obligations=0, discharged=0, undischarged=[dict(case=_TASKS[i][0].name, why='crash: %r' % e)],
                    backends={}, paths=0, evaluations=0, violations=[], notes=[traceback.format_exc()[-800:]], functions=[],
                    domains=[], cross_checked=0, vacuous=False, bounded=True, crash=True)


def finish(suite, results, tier, seed, wall):
    obligations = sum(r['obligations'] for r in results)
    discharged = sum(r['discharged'] for r in results)
    # an engine that disagrees with CPython proves nothing
    for r in results:
        if r.get('mismatch') or r.get('vacuous'):
            discharged -= r['discharged']
            r['undischarged'].append(dict(case=r['case'], why='engine mismatch' if r.get('mismatch') else 'vacuous path condition'))
    evals = sum(r['evaluations'] for r in results)
    backends = {}
    funcs = set()
    und = []
    doms = set()
    z3t = 0.
    z3q = 0
    for r in results:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
        funcs.update(r['functions'])
        und.extend(r['undischarged'])
        doms.update(r.get('domains', ()))
        z3t += r.get('stats', {}).get('z3_time', 0)
        z3q += r.get('stats', {}).get('z3_queries', 0)
    known = known_findings(suite.prop)
    viols = []
    for r in results:
        for v in r['violations']:
            k = match_known(v, known)
            if k is not None:
                print('KNOWN-FINDING: property=%s %s' % (suite.prop, k['what']))
                k['_seen'] = True
            else:
                viols.append(v)
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    bounded_cases = sorted({r['case'] for r in results if r.get('bounded') or r['undischarged']})
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='/verif/run.sh %s %s' % (suite.prop, tier),
        trusted_base=[
            'CPython 3.12 executing the unmodified source of /repo',
            'vc/sym.py exact arithmetic over Q(i)[atoms], vc/paths.py path exploration',
            'z3 (path feasibility, inequalities, equalities that need path facts)',
            'numpy ufunc dispatch of object scalars to their methods (sqrt, exp, cos, ...)',
            'machine floating point treated as exact field arithmetic; float constants read as the decimal / k*pi / sqrt(rational) they denote',
        ] + suite.trusted,
        back_ends=backends, z3_queries=z3q, z3_seconds=round(z3t, 3),
        functions_under_contract=sorted(funcs),
        functions_count=len(funcs),
        cases=[dict(case=r['case'], obligations=r['obligations'], discharged=r['discharged'], paths=r['paths'],
                    concrete_evaluations=r['evaluations'], cross_checked=r.get('cross_checked', 0),
                    wall_s=round(r.get('wall', 0), 2), contract=r.get('doc', '')) for r in results],
        evaluations=evals,
        engine_cross_checks=sum(r.get('cross_checked', 0) for r in results),
        bounded_stand_ins=bounded_cases,
        undischarged=und[:60], undischarged_count=len(und),
        domain_exclusions=sorted(doms)[:40],
        notes=[n for r in results for n in r['notes']][:40],
    )
    ev = dict(property=suite.prop, tier=tier, seed=seed, level=suite.level, coverage=cov,
              assumptions=suite.assumptions, wall_s=round(wall, 2), violations=len(viols))
    if suite.level != 'proof':
        cov['explanation'] = 'see DESIGN.md'
    with open(os.path.join(VERIF, 'evidence', suite.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d undischarged; %d concrete evaluations; %d functions; %.1fs'
          % (suite.prop, tier, obligations, discharged, obligations - discharged, evals, len(funcs), wall))
    for r in results:
        for n in r['notes'][:2]:
            print('  note [%s]: %s' % (r['case'], n.split('\n')[0][:300]))
    if os.environ.get('VC_VERBOSE'):
        for u in und[:40]:
            print('  undischarged', json.dumps(u, default=str)[:600])
        for r in results:
            for n in r['notes']:
                print(n)
    if viols:
        for i, v in enumerate(viols):
            path = os.path.join(rdir, '%s_%d.json' % (suite.prop, i))
            v['property'] = suite.prop
            v['replay_cmd'] = '/verif/run.sh replay %s' % path
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            tail = '' if v.get('inputs') is not None else ' no-failing-input-found'
            print('  violated [%s] %s: got %s want %s' % (v['case'], v['obligation'], str(v.get('got'))[:200], str(v.get('want'))[:200]))
            if v.get('error') and os.environ.get('VC_VERBOSE'):
                print(v['error'])
            print('VIOLATION property=%s replay=%s%s' % (suite.prop, path, tail))
        return 1
    if obligations == 0 and suite.level == 'proof' or any(r.get('crash') for r in results):
        print('ERROR: no obligations were generated or a case crashed')
        return 2
    return 0


def match_known(v, known):
    for k in known:
        m = k['match']
        if m.get('case') == v['case'] and m.get('obligation', v['obligation']) == v['obligation']:
            return k
    return None


def decode_env(inputs):
    out = {}
    for k, v in inputs.items():
        if isinstance(v, dict) and 'cplx' in v:
            v = complex(*v['cplx'])
        out[k] = v
    return out


def replay(suite, v):
    for case in suite.cases:
        if case.name == v['case']:
            c, err = run_num(case, random.Random(1), env=decode_env(v['inputs']), choices=v.get('choices'),
                             shape=v.get('shape'))
            if c is None:
                print('sample outside the precondition')
                return 2
            for f in c.fails:
                print('FAILS %s: got %s want %s' % f)
            if err:
                print(err)
            return 1 if (err or c.fails) else 0
    for f in suite.extra:
        if hasattr(f, 'replay'):
            r = f.replay(v)
            if r is not None:
                return r
    print('unknown case')
    return 2
