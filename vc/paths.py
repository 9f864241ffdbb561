"""Path exploration and the proof of equalities under path facts.

The code under contract is *run* (CPython executes /repo's source) on SVs.
A truth test on an SV is a decision; `explore` re-executes the body once for
every feasible combination of decisions (depth first), so each completed run
is one path and its recorded decisions are the path condition.
"""
import random
import sys
from fractions import Fraction

from . import sym
from .sym import SV, Unsupported, REG, F0, F1, p_key, p_normal, p_add, p_mul, p_const

ABS_FORK = True
MAX_PATHS = 4000
MAX_DEPTH = 200

STATS = dict(z3_queries=0, z3_time=0.0, nf=0, paths=0)


class Infeasible(Exception):
    pass


class Ctx(object):
    """decisions are kept by what was asked, not by when: /repo iterates over
    sets, so a re-run may ask the same questions in another order"""

    def __init__(self, prefix):
        self.trail = list(prefix)      # (kind, key, option, SV or None)
        self.fixed = {}
        self.pending = []
        self.facts = []        # (rel, SV) rel in '==','!=','>','<','>=','<='
        self.known = {}        # polykey -> set of still possible signs
        self.divisors = {}
        self.roots = {}
        self.choices = {}
        for kind, key, opt, sv in prefix:
            self.fixed[kind, key] = opt
            if kind != 'c':
                self.learn(kind, key, opt, sv)

    def learn(self, kind, key, opt, sv):
        if kind == 'z':
            rel, poss = ('==', {0}) if opt else ('!=', {-1, 1})
        else:
            rel, poss = {1: '>', -1: '<', 0: '=='}[opt], {opt}
        self.known[key] = self.known.get(key, {-1, 0, 1}) & poss
        self.facts.append((rel, sv))

    def choose(self, kind, key, options, sv=None):
        """generic decision with a list of options"""
        if (kind, key) in self.fixed:
            o = self.fixed[kind, key]
            if o not in options:
                raise Infeasible()
            return o
        if len(options) > 1:
            if len(self.trail) > MAX_DEPTH:
                raise Unsupported('path too deep')
            for alt in options[1:]:
                self.pending.append(self.trail + [(kind, key, alt, sv)])
        o = options[0]
        self.trail.append((kind, key, o, sv))
        self.fixed[kind, key] = o
        if kind != 'c':
            self.learn(kind, key, o, sv)
        return o


CTX = None


def explore(body, max_paths=MAX_PATHS):
    """yield (ctx, result) for every path"""
    global CTX
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix)
        old = CTX
        CTX = ctx
        try:
            try:
                res = body()
            except Infeasible:
                res = None
                ctx.infeasible = True
            else:
                ctx.infeasible = False
            stack.extend(ctx.pending)
            n += 1
            STATS['paths'] += 1
            if n > max_paths:
                raise Unsupported('too many paths')
            if not ctx.infeasible:
                yield ctx, res
        finally:
            CTX = old


# ------------------------------------------------------------ decisions
def _canon(p):
    """canonical real representation (poly key, sign flip) of poly up to positive factor"""
    q, m, c = p_normal(p)
    return q, m, c


def decide_zero(v):
    """is v == 0 on this path?"""
    v = simplify(v)
    if not v.num:
        return True
    if v.is_const():
        return False
    # strip denominators: v == 0 iff num == 0
    num = v.num
    q, m, c = p_normal(num)
    # monomial content: zero iff one of the (not invertible) atoms is zero
    for i, e in m:
        A = REG[i]
        if A.kind in ('pos', 'unit') or A.nz or e < 0:
            continue
        if _decide_poly_zero({((i, F1),): (F1, F0)}):
            return True
    if len(q) == 1:
        return False
    return _decide_poly_zero(q)


def _is_real_poly(p):
    return SV(p).is_real()


def _decide_poly_zero(q):
    if CTX is None:
        raise Unsupported('truth test outside a path')
    k = p_key(p_normal(q)[0] if len(q) > 1 else q)
    s = CTX.known.get(k)
    sv = SV(q)
    if s is None:
        syn = sym.syn_sign(sv)
        if syn is not None and syn != 0 and _strict(sv):
            return False
        s = {-1, 0, 1}
    if s == {0}:
        return True
    if 0 not in s:
        return False
    # ask z3 whether the facts decide it
    opts = []
    if feasible([('!=', sv)]):
        opts.append(False)
    if feasible([('==', sv)]):
        opts.append(True)
    if not opts:
        raise Infeasible()
    if len(opts) > 1:
        return CTX.choose('z', k, opts, sv)
    CTX.learn('z', k, opts[0], sv)
    return opts[0]


def _strict(sv):
    """every term nonzero and at least one surely nonzero"""
    for m, c in sv.num.items():
        if all(REG[i].kind in ('pos', 'unit') or REG[i].nz for i, e in m):
            return True
    return False


def decide_sign(v):
    v = simplify(v)
    if not v.num:
        return 0
    if v.is_const():
        c = v.const()
        if c[1] != 0:
            raise Unsupported('ordering of complex values')
        return 1 if c[0] > 0 else -1
    if not v.is_real():
        raise Unsupported('ordering of complex values')
    # sign(num/den) = sign(num * prod den^odd)
    sgn = 1
    num = v.num
    for k, e in v.den:
        if e % 2:
            dk = dict(k)
            if not SV(dk).is_real():
                # combine
                num = p_mul(num, dk)
            else:
                sgn *= _decide_poly_sign(dk)
    return sgn * _decide_poly_sign(num)


def _decide_poly_sign(num):
    q, m, c = p_normal(num)
    sv = SV(q)
    if c[1] != 0 or not sv.is_real() or any(REG[i].kind in ('cplx', 'unit') for i, e in m):
        q = num
        sgn = 1
        m = ()
    else:
        sgn = 1 if c[0] > 0 else -1
    for i, e in m:
        A = REG[i]
        if A.kind == 'pos':
            continue
        if e.denominator != 1:
            continue
        s = _poly_sign_atomic({((i, F1),): (F1, F0)})
        if s == 0:
            return 0
        if int(e) % 2:
            sgn *= s
    if len(q) == 1 and list(q)[0] == ():
        return sgn * (1 if q[()][0] > 0 else -1)
    return sgn * _poly_sign_atomic(q)


def _poly_sign_atomic(q):
    if CTX is None:
        raise Unsupported('comparison outside a path')
    sv = SV(q)
    k = p_key(q)
    s = CTX.known.get(k)
    if s is None:
        syn = sym.syn_sign(sv)
        if syn is not None and syn != 0:
            s = {syn} if _strict(sv) else {syn, 0}
        else:
            s = {-1, 0, 1}
    if len(s) == 1:
        return list(s)[0]
    opts = []
    for t, rel in ((1, '>'), (-1, '<'), (0, '==')):
        if t in s and feasible([(rel, sv)]):
            opts.append(t)
    if not opts:
        raise Infeasible()
    if len(opts) > 1:
        return CTX.choose('s', k, opts, sv)
    CTX.learn('s', k, opts[0], sv)
    return opts[0]


def assume(rel, v):
    """add a fact (precondition)"""
    v = SV.lift(v)
    CTX.facts.append((rel, v))
    if not v.num:
        if rel in ('!=', '>', '<'):
            raise Infeasible()
        return
    if v.is_const():
        c = v.const()[0]
        ok = {'==': c == 0, '!=': c != 0, '>': c > 0, '<': c < 0, '>=': c >= 0, '<=': c <= 0}[rel]
        if not ok:
            raise Infeasible()
        return
    if not v.den:
        q, m, c = p_normal(v.num)
        if not m and c[1] == 0:
            k = p_key(q)
            poss = {'==': {0}, '!=': {1, -1}, '>': {1}, '<': {-1}, '>=': {0, 1}, '<=': {0, -1}}[rel]
            if c[0] < 0:
                poss = {-x for x in poss}
            CTX.known[k] = CTX.known.get(k, {-1, 0, 1}) & poss
        elif len(q) == 1 and len(m) == 1 and m[0][1] == 1 and c[1] == 0:
            k = p_key({m: (F1, F0)})
            poss = {'==': {0}, '!=': {1, -1}, '>': {1}, '<': {-1}, '>=': {0, 1}, '<=': {0, -1}}[rel]
            if c[0] < 0:
                poss = {-x for x in poss}
            CTX.known[k] = CTX.known.get(k, {-1, 0, 1}) & poss


def note_division(o):
    o = SV.lift(o)
    if not o.num or simplify(o).is_zero():
        raise ZeroDivisionError('division by a value that is zero on this path')
    if CTX is None or o.is_const():
        return
    q, m, c = p_normal(o.num)
    if len(q) == 1 and all(REG[i].kind in ('pos', 'unit') for i, e in m):
        return
    CTX.divisors[p_key(o.num)] = o


def note_root(v):
    if CTX is None:
        return
    CTX.roots[p_key(v.num)] = v


# ------------------------------------------------------------ substitution
def subst_atom(v, idx, val):
    """v with atom idx replaced by the SV val (and its conjugate atom)"""
    A = REG[idx]
    table = {idx: val}
    if A.kind == 'cplx':
        table[A.conj.idx] = val.conjugate()
    for j in v.atoms():
        B = REG[j]
        if j in table:
            continue
        if B.kind == 'root' and isinstance(B.data, SV) and {idx, A.conj.idx if A.conj else idx} & B.data.allatoms():
            table[j] = subst_atom(B.data, idx, val).sqrt()
        elif B.kind == 'unit' and isinstance(B.data, SV) and idx in B.data.allatoms():
            table[j] = ('exp', sym.I * subst_atom(B.data, idx, val))
        elif isinstance(B.data, tuple) and B.data and B.data[0] == 'expm' and idx in B.data[1].allatoms():
            table[j] = ('exp', subst_atom(B.data[1], idx, val))
        elif isinstance(B.data, tuple) and B.data and B.data[0] == 'app' and any(idx in a.allatoms() for a in B.data[2]):
            args = [subst_atom(a, idx, val) for a in B.data[2]]
            table[j] = getattr(args[0], B.data[1])(*args[1:])

    def sp(p):
        out = SV({})
        plain = {}
        for m, c in p.items():
            if any(i in table for i, e in m):
                t = SV({tuple((i, e) for i, e in m if i not in table): c})
                for i, e in m:
                    if i in table:
                        w = table[i]
                        # exp(x)**e is exp(e x): the branch is part of the atom
                        t = t * ((w[1] * SV.lift(e)).exp() if isinstance(w, tuple) else w ** e)
                out = out + t
            else:
                plain[m] = c
        return out + SV(plain)
    r = sp(v.num)
    for k, e in v.den:
        d = sp(dict(k))
        if d.is_zero():
            raise ZeroDivisionError
        r = r * d.inv() ** e
    return r


def _solve_fact(sv):
    """atom idx, value such that sv == 0 => atom = value"""
    if CTX is None:
        return _solve_fact_raw(sv)
    cache = CTX.__dict__.setdefault('solve_cache', {})
    k = (sv.key(), len(CTX.facts))
    if k not in cache:
        cache[k] = _solve_fact_raw(sv)
    return cache[k]


def _sure_nonzero(v):
    if v.is_const():
        return bool(v.num)
    q, m, c = p_normal(v.num)
    if not all(REG[j].kind in ('pos', 'unit') or REG[j].nz for j, e in m):
        return False
    if len(q) == 1:
        return True
    sq = SV(q)
    s = sym.syn_sign(sq)
    if s is not None and s != 0 and _strict(sq):
        return True
    kn = CTX.known.get(p_key(q)) if CTX is not None else None
    if kn is not None and 0 not in kn:
        return True
    if CTX is not None:
        return z3_check(CTX.facts + [('==', sq)], 1000) == 'unsat'
    return False


def _solve_fact_raw(sv):
    if sv.den:
        sv = SV(sv.num)
    num = sv.num
    cand = {}
    for m in num:
        for i, e in m:
            cand.setdefault(i, []).append((m, e))
    hidden = sv.allatoms() - set(cand)     # atoms inside roots, units, applications
    # a sum of terms that cannot be negative: each one is zero
    if len(num) > 1:
        s = sym.syn_sign(sv)
        if s:
            for m in num:
                base = {i for i, e in m if not (REG[i].kind in ('pos', 'unit') or REG[i].nz)}
                base = {min(i, REG[i].conj.idx) for i in base}
                if len(base) == 1:
                    i = base.pop()
                    if REG[i].kind in ('real', 'cplx'):
                        return i, SV({})
    for i, occ in cand.items():
        A = REG[i]
        if any(e != 1 for m, e in occ):
            continue
        if A.kind not in ('real', 'cplx') or i in hidden:
            continue
        if A.kind == 'cplx' and (A.conj.idx in cand or A.conj.idx in hidden):
            continue
        coeff, other = {}, {}
        for m, c in num.items():
            if any(j == i for j, e in m):
                coeff[tuple((j, e) for j, e in m if j != i)] = c
            else:
                other[m] = c
        coeff, other = SV(coeff), SV(other)
        if not _sure_nonzero(coeff):
            continue
        val = -(other * coeff.inv())
        if A.kind == 'real' and not val.is_real():
            continue
        return i, val
    return None


def simplify(v):
    """use the == facts of the path that can be solved for an atom"""
    if CTX is None or not v.num:
        return v
    for rel, f in CTX.facts:
        if rel != '==':
            continue
        s = _solve_fact(f)
        if s is None:
            continue
        i, val = s
        if {i, REG[i].conj.idx} & v.allatoms():
            try:
                v = subst_atom(v, i, val)
            except ZeroDivisionError:
                return v
    return v


# ------------------------------------------------------------ z3
_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
        if p not in sys.path:
            sys.path.append(p)
        import z3
        _z3 = z3
    return _z3


class Tr(object):
    """translation of SVs into pairs of z3 real polynomials"""

    def __init__(self):
        self.z3 = z3mod()
        self.vars = {}
        self.side = []
        self.exps = {}

    def collect(self, svs):
        seen = set()
        todo = [i for v in svs for i in v.atoms()]
        exps = {}
        allp = []
        for v in svs:
            allp.append(v.num)
            allp.extend(dict(k) for k, e in v.den)
        while allp:
            p = allp.pop()
            for m in p:
                for i, e in m:
                    A = REG[i]
                    d = e.denominator
                    o = exps.get(i, 1)
                    if o % d:
                        import math
                        exps[i] = o * d // math.gcd(o, d)
                    else:
                        exps.setdefault(i, 1)
                    if i not in seen:
                        seen.add(i)
                        if isinstance(A.data, SV) and A.kind == 'root':
                            allp.append(A.data.num)
                            allp.extend(dict(k) for k, e in A.data.den)
        self.exps = exps

    def var(self, i):
        if i in self.vars:
            return self.vars[i]
        z3 = self.z3
        A = REG[i]
        n = 'a%d' % i
        if A.kind == 'cplx':
            j = A.conj.idx
            if j in self.vars:
                re, im = self.vars[j]
                r = (re, -im)
            else:
                r = (z3.Real(n + 're'), z3.Real(n + 'im'))
        elif A.kind == 'unit':
            c, s = z3.Real(n + 'c'), z3.Real(n + 's')
            self.side.append(c * c + s * s == 1)
            r = (c, s)
        else:
            x = z3.Real(n)
            r = (x, None)
            self.vars[i] = r
            if A.kind == 'pos':
                self.side.append(x > 0)
            elif A.kind == 'root':
                self.side.append(x >= 0)
                re, im = self.poly(A.data.num)
                if A.data.den:
                    raise Unsupported('root of a fraction')
                self.side.append(x * x == re)
            if A.name == 'pi':
                self.side.append(x > self.z3.Q(314159, 100000))
                self.side.append(x < self.z3.Q(314160, 100000))
        self.vars[i] = r
        return r

    def cmul(self, a, b):
        (ar, ai), (br, bi) = a, b
        if ai is None and bi is None:
            return (ar * br, None)
        if ai is None:
            return (ar * br, ar * bi)
        if bi is None:
            return (ar * br, ai * br)
        return (ar * br - ai * bi, ar * bi + ai * br)

    def cpow(self, a, n):
        r = (self.z3.RealVal(1), None)
        for _ in range(n):
            r = self.cmul(r, a)
        return r

    def mono_pos(self, m):
        """monomial with nonnegative exponents (others multiplied away by caller)"""
        r = (self.z3.RealVal(1), None)
        for i, e in m:
            D = self.exps.get(i, 1)
            A = REG[i]
            v = self.var(i)
            # with D>1 the z3 variable stands for atom**(1/D)
            n = e * D
            assert n.denominator == 1
            n = int(n)
            if n < 0:
                if A.kind == 'unit':
                    v = (v[0], -v[1])
                    n = -n
                else:
                    raise AssertionError
            r = self.cmul(r, self.cpow(v, n))
        return r

    def poly(self, p):
        z3 = self.z3
        re = z3.RealVal(0)
        im = None
        # clear negative exponents is done by caller (clear())
        for m, (x, y) in p.items():
            r, i = self.mono_pos(m)
            xq, yq = z3.Q(x.numerator, x.denominator), z3.Q(y.numerator, y.denominator)
            t = self.cmul((r, i), (xq, yq if y != 0 else None))
            re = re + t[0]
            if t[1] is not None:
                im = t[1] if im is None else im + t[1]
        return re, im

    @staticmethod
    def clear(p):
        """multiply by even powers of atoms so that exponents are >= 0; keeps sign and zero set
        (atoms with negative exponents are nonzero)"""
        mins = {}
        for m in p:
            for i, e in m:
                if e < 0 and REG[i].kind != 'unit':
                    mins[i] = min(mins.get(i, 0), e)
        if not mins:
            return p, ()
        mul = []
        for i, e in mins.items():
            n = -e
            if REG[i].kind not in ('pos',):
                import math
                n = math.ceil(n)
                if n % 2:
                    n += 1
            mul.append((i, Fraction(n)))
        mm = tuple(sorted(mul))
        return {sym.m_mul(m, mm): c for m, c in p.items()}, mm

    def fact(self, rel, v):
        z3 = self.z3
        num = v.num
        if rel in ('==', '!='):
            num, mm = self.clear(num)
            for i, e in mm:
                if REG[i].kind == 'real':
                    self.side.append(self.var(i)[0] != 0)
            re, im = self.poly(num)
            c = re == 0
            if im is not None:
                c = z3.And(c, im == 0)
            return c if rel == '==' else z3.Not(c)
        for k, e in v.den:
            if e % 2:
                num = p_mul(num, dict(k))
        num, mm = self.clear(num)
        for i, e in mm:
            if REG[i].kind == 'real':
                self.side.append(self.var(i)[0] != 0)
        re, im = self.poly(num)
        return {'>': re > 0, '<': re < 0, '>=': re >= 0, '<=': re <= 0}[rel]


def z3_check(facts, timeout_ms=1500):
    """'sat' / 'unsat' / 'unknown' for a conjunction of facts"""
    import time
    z3 = z3mod()
    t0 = time.time()
    STATS['z3_queries'] += 1
    try:
        tr = Tr()
        tr.collect([v for r, v in facts])
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout_ms)
        cs = [tr.fact(r, v) for r, v in facts]
        for c in tr.side:
            s.add(c)
        for c in cs:
            s.add(c)
        r = s.check()
        return str(r)
    except z3.Z3Exception:
        return 'unknown'
    finally:
        STATS['z3_time'] += time.time() - t0


_feas_cache = {}


def feasible(extra):
    facts = CTX.facts + extra
    rels = [v for r, v in facts]
    if len(facts) == len(extra):
        # no facts: one literal over independent atoms; treat as feasible
        return True
    key = tuple((r, v.key()) for r, v in facts)
    if key in _feas_cache:
        return _feas_cache[key]
    r = z3_check(facts) != 'unsat'
    _feas_cache[key] = r
    return r


# ------------------------------------------------------------ proof of an equality
def prove_zero(d, facts, timeout_ms=10000):
    """('proved', backend) | ('refuted', env or None) | ('undecided', why)"""
    STATS['nf'] += 1
    if not d.num:
        return 'proved', 'exact normal form'
    d2 = simplify(d)
    if not d2.num:
        return 'proved', 'exact normal form + path substitution'
    env = find_witness(d, facts)
    if env is not None:
        return 'refuted', env
    r = z3_check(facts + [('!=', d2)], timeout_ms)
    if r == 'unsat':
        return 'proved', 'z3'
    if r == 'sat':
        return 'refuted', None
    return 'undecided', 'z3: ' + r


def find_witness(d, facts, tries=60, rng=None):
    """numeric point satisfying the facts where d is clearly nonzero"""
    rng = rng or random.Random(12345)
    base = base_atoms([d] + [v for r, v in facts])
    subs = []
    for rel, f in facts:
        if rel == '==':
            s = _solve_fact(f)
            if s is not None:
                subs.append(s)
    bnd = _bounds(facts)
    for t in range(tries):
        env = sample(base, rng)
        for n, (lo, hi) in bnd.items():
            if n in env and not (lo <= env[n] <= hi):
                if lo == hi:
                    env[n] = lo
                elif hi == INF:
                    env[n] = lo + rng.uniform(0, 3)
                elif lo == -INF:
                    env[n] = hi - rng.uniform(0, 3)
                else:
                    env[n] = rng.uniform(lo, hi)
        try:
            for i, val in reversed(subs):
                A = REG[i]
                x = val.evalf(dict(env))
                env[A.name] = x.real if A.kind == 'real' else x
                if A.kind == 'cplx':
                    env[A.conj.name] = x.conjugate()
            e2 = dict(env)
            ok = True
            for rel, f in facts:
                x = f.evalf(e2)
                a = abs(x)
                if rel == '==' and a > 1e-9:
                    ok = False
                elif rel == '!=' and a < 1e-9:
                    ok = False
                elif rel in ('>', '>=') and x.real < (1e-9 if rel == '>' else -1e-12):
                    ok = False
                elif rel in ('<', '<=') and x.real > (-1e-9 if rel == '<' else 1e-12):
                    ok = False
                if not ok:
                    break
            if not ok:
                continue
            x = d.evalf(e2)
            mag = mag_evalf(d, e2)
            if abs(x) > 1e-7 * max(mag, 1e-300):
                return env
        except (ZeroDivisionError, OverflowError, KeyError, ValueError):
            continue
    return None


INF = float('inf')


def _bounds(facts):
    """intervals of single real atoms from the linear facts"""
    out = {}
    for rel, f in facts:
        if rel not in ('>', '>=', '<', '<=') or f.den or len(f.num) > 2:
            continue
        a = b = 0.
        at = None
        for m, (x, y) in f.num.items():
            if y != 0:
                break
            if not m:
                b = float(x)
            elif len(m) == 1 and m[0][1] == 1 and REG[m[0][0]].kind == 'real':
                at, a = REG[m[0][0]].name, float(x)
            else:
                break
        else:
            if at is None or a == 0:
                continue
            lo, hi = out.get(at, (-INF, INF))
            r = -b / a
            if (a > 0) == (rel in ('>', '>=')):
                lo = max(lo, r)
            else:
                hi = min(hi, r)
            if lo <= hi:
                out[at] = (lo, hi)
    return out


def mag_evalf(d, env):
    tot = 0.
    for m, (x, y) in d.num.items():
        t = abs(complex(float(x), float(y)))
        for i, e in m:
            v = sym.atom_eval(REG[i], env)
            if isinstance(v, tuple):
                continue
            t *= abs(v) ** float(e)
        tot += t
    for k, e in d.den:
        tot = tot / abs(sym.p_eval(dict(k), env)) ** e
    return tot


def base_atoms(svs):
    out = set()
    for v in svs:
        for i in v.allatoms():
            A = REG[i]
            if A.kind in ('real', 'pos', 'cplx') and not isinstance(A.data, (SV, tuple)):
                out.add(A.name)
            elif A.kind == 'unit' and not (A.data == 'pi' or isinstance(A.data, SV)):
                out.add(A.name)
    return sorted(out)


def sample(names, rng):
    import cmath
    import math
    env = {}
    for n in names:
        if n in env:
            continue
        A = sym.Atom.byname[n]
        if n == 'pi':
            env[n] = math.pi
        elif A.kind == 'pos':
            env[n] = rng.choice([1., 2., rng.uniform(.1, 3)])
        elif A.kind == 'real':
            env[n] = rng.choice([1., -1., rng.uniform(-3, 3), rng.uniform(-3, 3)])
        elif A.kind == 'cplx':
            z = complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
            env[n] = z
            env[A.conj.name] = z.conjugate()
        elif A.kind == 'unit':
            env[n] = cmath.exp(1j * rng.uniform(0, 6))
    return env
