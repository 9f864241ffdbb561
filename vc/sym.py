"""Exact symbolic scalars.

An SV is a fraction num/den.  `num` and every factor of `den` are Laurent
polynomials with Gaussian-rational coefficients and *rational* exponents in
atoms.  The atoms are

  real   an arbitrary real                      conj(x) = x
  pos    an arbitrary positive real             conj(x) = x, x**q allowed
  cplx   an arbitrary complex number            conj(z) = the paired atom
  unit   exp(i*m), m a real monomial            conj(u) = 1/u
  root   q with q**2 = P (P an SV, P >= 0)      conj(q) = q
  app    an uninterpreted (opaque) application  real or complex

Python arithmetic on SVs is the arithmetic of the *mathematical* field: machine
floats met on the way are read as the decimal they print as (and k*pi,
sqrt(rational) are recognised).  Comparisons and truth tests do not return a
symbolic boolean: they ask the current path (see paths.py) and fork it.
"""
from fractions import Fraction
import math
import numbers

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """the engine cannot follow the code here: undecided, never a violation"""


# ---------------------------------------------------------------- atoms
class Atom(object):
    __slots__ = ('idx', 'name', 'kind', 'conj', 'data', 'nz', '_sub')
    registry = []
    byname = {}

    def __init__(self, name, kind, data=None, nz=False):
        self.idx = len(Atom.registry)
        self.name = name
        self.kind = kind
        self.conj = self
        self.data = data
        self.nz = nz
        Atom.registry.append(self)

    def __repr__(self):
        return self.name


def atom(name, kind='real', data=None, nz=False):
    a = Atom.byname.get(name)
    if a is None:
        a = Atom(name, kind, data, nz)
        Atom.byname[name] = a
        if kind == 'cplx':
            b = Atom(name + '*', 'cplx', data, nz)
            Atom.byname[name + '*'] = b
            a.conj = b
            b.conj = a
    assert a.kind == kind, (name, kind, a.kind)
    return a


def reset():
    del Atom.registry[:]
    Atom.byname.clear()
    _rootcache.clear()


REG = Atom.registry
_rootcache = {}

# ---------------------------------------------------------------- polynomials
# poly: dict {mono: (re, im)};  mono: tuple of (atom idx, exponent), sorted


def p_const(re, im=F0):
    if re == 0 and im == 0:
        return {}
    return {(): (Fraction(re), Fraction(im))}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def m_pow(a, q):
    if q == 0:
        return ()
    return tuple((i, e * q) for i, e in a)


def p_add(a, b, sign=1):
    r = dict(a)
    for m, (x, y) in b.items():
        if sign < 0:
            x, y = -x, -y
        o = r.get(m)
        if o is None:
            r[m] = (x, y)
        else:
            x, y = o[0] + x, o[1] + y
            if x == 0 and y == 0:
                del r[m]
            else:
                r[m] = (x, y)
    return r


def p_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, (x1, y1) in a.items():
        for m2, (x2, y2) in b.items():
            m = m_mul(m1, m2)
            if y1 == 0 and y2 == 0:
                x, y = x1 * x2, F0
            else:
                x, y = x1 * x2 - y1 * y2, x1 * y2 + y1 * x2
            o = r.get(m)
            if o is not None:
                x, y = o[0] + x, o[1] + y
            r[m] = (x, y)
    r = {m: c for m, c in r.items() if c[0] != 0 or c[1] != 0}
    if len(r) > LIMIT_TERMS:
        raise Unsupported('polynomial too large')
    return p_reduce(r)


LIMIT_TERMS = 60000


def p_scale(a, c):
    x2, y2 = c
    return {m: (x * x2 - y * y2, x * y2 + y * x2) for m, (x, y) in a.items()}


def p_conj(a):
    r = {}
    for m, (x, y) in a.items():
        mm = []
        for i, e in m:
            A = REG[i]
            if A.kind == 'unit':
                mm.append((i, -e))
            else:
                mm.append((A.conj.idx, e))
        mm.sort()
        r[tuple(mm)] = (x, -y)
    return r


def p_reduce(p):
    """root atoms: q**2 -> P when P is polynomial (exponent kept in [0,2))"""
    todo = None
    for m in p:
        for i, e in m:
            A = REG[i]
            if A.kind == 'root' and (e >= 2 or e < 0):
                todo = A
                break
            if A.kind == 'unit' and A.data == 'pi':
                todo = A
                break
        if todo is not None:
            break
    if todo is None:
        return p
    A = todo
    out = {}
    if A.kind == 'unit':
        for m, c in p.items():
            d = dict(m)
            e = d.pop(A.idx, None)
            if e is None:
                out = p_add(out, {m: c})
                continue
            # exp(i*pi*e)
            e2 = e * 4
            base = {tuple(sorted(d.items())): c}
            e = e % 2
            if e2.denominator == 1:
                k = int(e2) % 8
                half, odd = divmod(k, 2)
                f = [(F1, F0), (F0, F1), (-F1, F0), (F0, -F1)][half]
                base = p_scale(base, f)
                if odd:
                    s2 = sqrt_rational(Fraction(1, 2)).num
                    base = p_mul(base, p_mul(s2, {(): (F1, F1)}))
                out = p_add(out, base)
            else:
                raise Unsupported('exp(i pi q) with q=%s' % e)
        return p_reduce(out)
    P = A.data
    if P.den:
        raise Unsupported('root of fraction in polynomial position')
    for m, c in p.items():
        d = dict(m)
        e = d.get(A.idx)
        if e is None or (0 <= e < 2):
            out = p_add(out, {m: c})
            continue
        if e.denominator != 1:
            raise Unsupported('fractional power of a root')
        if e < 0:
            raise Unsupported('negative power of a root in a polynomial')
        k, rem = divmod(int(e), 2)
        if rem:
            d[A.idx] = Fraction(rem)
        else:
            del d[A.idx]
        t = {tuple(sorted(d.items())): c}
        for _ in range(k):
            t = p_mul(t, P.num)
        out = p_add(out, t)
    return p_reduce(out)


def p_key(p):
    return tuple(sorted(p.items()))


def p_is_mono(p):
    return len(p) == 1


# ---------------------------------------------------------------- floats
def _simple(fr, maxden=10**4):
    return fr.denominator <= maxden


_floatcache = {}


def from_float(f):
    """meaning of a machine float: the decimal it prints as, k*pi, sqrt(q)"""
    r = _floatcache.get(f)
    if r is not None:
        return r[0], r[1], r[2]
    if math.isinf(f) or math.isnan(f):
        raise Unsupported('non-finite float %r' % f)
    txt = repr(f)
    out = None
    fr = Fraction(txt)
    digits = len(txt.replace('-', '').replace('.', '').split('e')[0].strip('0'))
    if f == 0:
        out = (F0, None, None)
    elif digits <= 13:
        out = (fr, None, None)
    else:
        # small rational?
        for den in (3, 6, 7, 9, 11, 12, 13, 15, 21, 27, 30, 36, 45, 60, 90, 180, 360):
            n = round(f * den)
            if n and abs(n) < 10**6 and n / den == f:
                out = (Fraction(n, den), None, None)
                break
        if out is None:
            for k in (1, -1, 2):
                base = math.pi ** k
                q = f / base
                for den in (1, 2, 3, 4, 6, 8, 180, 360, 90, 60, 45, 36):
                    n = round(q * den)
                    if n and abs(n) < 10**5 and abs(f - base * n / den) <= 4e-16 * abs(f):
                        out = (Fraction(n, den), k, None)
                        break
                if out is None:
                    # 180/pi style
                    for den in (1, 2, 3, 4, 180, 360):
                        n = round(q * den)
                        if n and abs(n) < 10**5 and abs(f - base * n / den) <= 4e-16 * abs(f):
                            out = (Fraction(n, den), k, None)
                            break
                if out is not None:
                    break
        if out is None:
            sq = f * f
            for den in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 20, 25, 100):
                n = round(sq * den)
                if n and n < 10**4 and abs(sq - n / den) <= 5e-16 * sq:
                    out = (F1 if f > 0 else -F1, None, Fraction(n, den))
                    break
        if out is None:
            # a product of short decimals that picked up rounding
            for nd in (11, 12):
                q = Fraction('%.*e' % (nd, f))
                if abs(float(q) - f) <= 9e-16 * abs(f):
                    out = (q, None, None)
                    break
        if out is None:
            out = (fr, None, None)
    _floatcache[f] = out
    return out


def _small_factor(n):
    """n = s**2 * r, r squarefree (trial division)"""
    s, r = 1, 1
    d = 2
    while d * d <= n:
        c = 0
        while n % d == 0:
            n //= d
            c += 1
        if c:
            s *= d ** (c // 2)
            if c % 2:
                r *= d
        d += 1 if d == 2 else 2
        if d > 100000:
            break
    q = math.isqrt(n)
    if q * q == n:
        s *= q
    else:
        r *= n
    return s, r


def sqrt_rational(q):
    q = Fraction(q)
    if q == 0:
        return SV({}, ())
    if q < 0:
        return sqrt_rational(-q) * SV(p_const(0, 1), ())
    n = q.numerator * q.denominator
    s, r = _small_factor(n)
    out = SV(p_const(Fraction(s, q.denominator)), ())
    # r squarefree: product of prime roots
    d = 2
    while r > 1:
        if d * d > r or d > 20000:
            d = r
        if r % d == 0:
            a = atom('sqrt(%d)' % d, 'root', SV(p_const(d), ()), nz=True)
            out = out * SV({((a.idx, F1),): (F1, F0)}, ())
            r //= d
        else:
            d += 1 if d == 2 else 2
    return out


# ---------------------------------------------------------------- the scalar
def elementwise(op):
    """scalar (op) array broadcasts, as for numpy scalars"""
    def f(self, o):
        if type(o).__module__ == 'numpy' and getattr(o, 'shape', ()) != ():
            import numpy as np
            r = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                r[i] = op(self, o[i])
            return r
        return op(self, o)
    f.__name__ = op.__name__
    return f


class SV(object):
    __slots__ = ('num', 'den')
    __array_priority__ = 1000

    def __init__(self, num, den=()):
        self.num = num
        self.den = den      # tuple of (poly_key, exp>0) sorted

    # -------------------------------------------------- construction
    @staticmethod
    def lift(x):
        if type(x) is SV:
            return x
        if isinstance(x, bool):
            return SV(p_const(int(x)))
        if isinstance(x, int):
            return SV(p_const(x))
        if isinstance(x, Fraction):
            return SV(p_const(x))
        if isinstance(x, float):
            v, k, s = from_float(float(x))
            r = SV(p_const(v))
            if k:
                r = r * (PI() ** k)
            if s:
                r = r * sqrt_rational(s)
            return r
        if isinstance(x, complex):
            x = complex(x)
            return SV.lift(x.real) + SV.lift(x.imag) * SV(p_const(0, 1))
        t = type(x)
        if t.__module__ == 'numpy':
            if getattr(x, 'shape', None) == ():
                it = x.item()
                if it is not x:
                    return SV.lift(it)
        if hasattr(x, '__sv__'):
            return x.__sv__()
        return NotImplemented

    # -------------------------------------------------- structure
    def _denpoly(self):
        r = p_const(1)
        for k, e in self.den:
            pk = dict(k)
            for _ in range(e):
                r = p_mul(r, pk)
        return r

    def atoms(self):
        s = set()
        for m in self.num:
            for i, e in m:
                s.add(i)
        for k, e in self.den:
            for m, c in k:
                for i, e2 in m:
                    s.add(i)
        return s

    def allatoms(self):
        """atoms, through roots and units"""
        out = set()
        todo = list(self.atoms())
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            A = REG[i]
            if isinstance(A.data, SV):
                todo.extend(A.data.atoms())
            elif isinstance(A.data, tuple):
                for d in A.data:
                    if isinstance(d, SV):
                        todo.extend(d.atoms())
        return out

    def is_const(self):
        return not self.den and all(m == () for m in self.num)

    def const(self):
        return self.num.get((), (F0, F0))

    def key(self):
        return (p_key(self.num), self.den)

    # -------------------------------------------------- arithmetic
    @staticmethod
    def make(num, den):
        """den: dict polykey->exp; folds monomials; cancels num if it is a factor"""
        if not num:
            return SV({}, ())
        d2 = {}
        for k, e in den.items():
            if e == 0:
                continue
            if len(k) == 1:
                m, (x, y) = k[0]
                # 1/(c*m)
                n2 = x * x + y * y
                ci = (x / n2, -y / n2)
                if any(REG[i].kind == 'root' for i, _ in m):
                    # 1/q = q/P
                    for i, ee in m:
                        A = REG[i]
                        if A.kind == 'root':
                            if A.data.den:
                                raise Unsupported('root of a fraction in a denominator')
                            assert ee == 1
                            for _ in range(e):
                                num = p_mul(num, {((i, F1),): (F1, F0)})
                            kk = p_key(A.data.num)
                            d2.setdefault(kk, 0)
                            d2[kk] += e
                    m = tuple((i, ee) for i, ee in m if REG[i].kind != 'root')
                mi = m_pow(m, Fraction(-1))
                for _ in range(e):
                    num = p_mul(num, {mi: ci})
                continue
            d2[k] = d2.get(k, 0) + e
        if any(len(k) == 1 for k in d2):
            return SV.make(num, d2)
        if d2:
            # normalise each factor to a canonical associate
            d3 = {}
            for k, e in d2.items():
                p = dict(k)
                p, m, c = p_normal(p)
                # factor = c*m*p
                n2 = c[0] * c[0] + c[1] * c[1]
                ci = (c[0] / n2, -c[1] / n2)
                for _ in range(e):
                    num = p_mul(num, {m_pow(m, Fraction(-1)): ci})
                kk = p_key(p)
                d3[kk] = d3.get(kk, 0) + e
            d2 = d3
            # cheap cancellation: num associate of a factor
            pn, m, c = p_normal(num)
            kk = p_key(pn)
            if kk in d2:
                num = {m: c}
                d2[kk] -= 1
                if not d2[kk]:
                    del d2[kk]
            elif len(num) > 1:
                for k in list(d2):
                    while k in d2 and len(num) >= len(k):
                        q = p_divide(num, dict(k))
                        if q is None:
                            break
                        num = q
                        d2[k] -= 1
                        if not d2[k]:
                            del d2[k]
        return SV(num, tuple(sorted(d2.items(), key=repr)))

    @elementwise
    def __add__(self, o):
        o = SV.lift(o)
        if o is NotImplemented:
            return o
        if self.den == o.den:
            n = p_add(self.num, o.num)
            if not self.den:
                return SV(n, ())
            return SV.make(n, dict(self.den))
        d1, d2 = dict(self.den), dict(o.den)
        lc = dict(d1)
        for k, e in d2.items():
            if lc.get(k, 0) < e:
                lc[k] = e
        n1, n2 = self.num, o.num
        for k, e in lc.items():
            for _ in range(e - d1.get(k, 0)):
                n1 = p_mul(n1, dict(k))
            for _ in range(e - d2.get(k, 0)):
                n2 = p_mul(n2, dict(k))
        return SV.make(p_add(n1, n2), lc)

    __radd__ = __add__

    def __neg__(self):
        return SV({m: (-x, -y) for m, (x, y) in self.num.items()}, self.den)

    def __pos__(self):
        return self

    @elementwise
    def __sub__(self, o):
        o = SV.lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    @elementwise
    def __rsub__(self, o):
        return (-self) + o

    @elementwise
    def __mul__(self, o):
        o = SV.lift(o)
        if o is NotImplemented:
            return o
        n = p_mul(self.num, o.num)
        if not self.den and not o.den:
            return SV(n, ())
        d = dict(self.den)
        for k, e in o.den:
            d[k] = d.get(k, 0) + e
        return SV.make(n, d)

    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError('symbolic division by zero')
        nk = p_key(self.num)
        n = p_const(1)
        for k, e in self.den:
            for _ in range(e):
                n = p_mul(n, dict(k))
        return SV.make(n, {nk: 1})

    @elementwise
    def __truediv__(self, o):
        o = SV.lift(o)
        if o is NotImplemented:
            return o
        note_division(o)
        return self * o.inv()

    @elementwise
    def __rtruediv__(self, o):
        o = SV.lift(o)
        if o is NotImplemented:
            return o
        return o / self

    __div__ = __truediv__

    def __pow__(self, q):
        if isinstance(q, SV):
            if q.is_const() and q.const()[1] == 0:
                q = q.const()[0]
            else:
                raise Unsupported('symbolic exponent')
        if isinstance(q, float):
            q = from_float(q)[0]
        if not isinstance(q, (int, Fraction)):
            l = SV.lift(q)
            if l is NotImplemented:
                return l
            if l.is_const() and l.const()[1] == 0:
                q = l.const()[0]
            else:
                raise Unsupported('exponent %r' % (q,))
        q = Fraction(q)
        if q.denominator == 1:
            n = int(q)
            b = self if n >= 0 else (note_division(self), self.inv())[1]
            r = SV(p_const(1))
            for _ in range(abs(n)):
                r = r * b
            return r
        if q.denominator == 2:
            return self.sqrt() ** int(q * 2)
        # rational power of positive monomials only
        if p_is_mono(self.num) and not self.den:
            (m, c), = self.num.items()
            if c == (F1, F0) and all(REG[i].kind == 'pos' for i, _ in m):
                return SV({m_pow(m, q): c})
        raise Unsupported('power %s' % q)

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')

    def conjugate(self):
        n = p_conj(self.num)
        if not self.den:
            return SV(n, ())
        d = {}
        for k, e in self.den:
            kk = p_key(p_conj(dict(k)))
            d[kk] = d.get(kk, 0) + e
        return SV.make(n, d)

    conj = conjugate

    @property
    def real(self):
        if self._syn_real():
            return self
        return (self + self.conjugate()) * SV(p_const(Fraction(1, 2)))

    @property
    def imag(self):
        if self._syn_real():
            return SV({})
        return (self - self.conjugate()) * SV(p_const(0, Fraction(-1, 2)))

    def _syn_real(self):
        for p in [self.num] + [dict(k) for k, e in self.den]:
            for m, c in p.items():
                if c[1] != 0:
                    return False
                for i, e in m:
                    if REG[i].kind in ('cplx', 'unit'):
                        return False
                    if REG[i].kind == 'app' and REG[i].conj is not REG[i]:
                        return False
        return True

    def is_real(self):
        return self._syn_real() or (self - self.conjugate()).is_zero()

    # -------------------------------------------------- functions
    def sqrt(self):
        from . import paths
        if not self.num:
            return self
        if self.is_const():
            c = self.const()
            if c[1] == 0:
                return sqrt_rational(c[0])
        if not self.is_real():
            raise Unsupported('sqrt of a non-real value')
        if self.den:
            # sqrt(n/d) = sqrt(n*d)/|d|
            d = SV(self._denpoly())
            n = SV(self.num)
            return (n * d).sqrt() / abs(d)
        # pull out the monomial content of positive atoms and even powers
        p, m, c = p_normal(self.num, unit_only=False)
        # self = c*m*p
        cont = []
        rest = []
        out = SV(p_const(1))
        for i, e in m:
            A = REG[i]
            if A.kind == 'pos':
                out = out * SV({((i, e / 2),): (F1, F0)})
            elif e.denominator == 1 and e % 2 == 0 and A.kind in ('real', 'root', 'app'):
                t = SV({((i, F1),): (F1, F0)})
                out = out * abs(t) ** int(e / 2)
            elif A.kind in ('real',) and e.denominator == 1:
                # odd power: e = 2k + 1 (k may be negative)
                k = (e - 1) / 2
                if k:
                    out = out * abs(SV({((i, F1),): (F1, F0)})) ** int(k)
                rest.append((i, F1))
            else:
                rest.append((i, e))
        inner = {}
        rm = tuple(rest)
        if c[1] != 0:
            # complex content: put it back
            inner = p_mul({rm: c}, p)
            cc = F1
        else:
            cc = abs(c[0])
            inner = p_mul({rm: (F1 if c[0] > 0 else -F1, F0)}, p)
        out = out * sqrt_rational(cc)
        inn = SV(inner)
        if inn.is_const() and inn.const() == (F1, F0):
            return out
        # perfect square of a polynomial?
        sq = p_sqrt(inner)
        if sq is not None:
            return out * abs(SV(sq))
        # a root may only be taken of something that is nonnegative
        paths.note_root(inn)
        key = p_key(inner)
        A = _rootcache.get(key)
        if A is None:
            A = atom('root#%d' % len(_rootcache), 'root', inn)
            _rootcache[key] = A
        return out * SV({((A.idx, F1),): (F1, F0)})

    def __abs__(self):
        if self.is_real():
            if self.is_const():
                c = self.const()
                return self if c[0] >= 0 else -self
            s = syn_sign(self)
            if s is not None:
                return self if s >= 0 else -self
            from . import paths
            if paths.ABS_FORK:
                return self if not (self < 0) else -self
            v = self * self
            return v.sqrt_of_square(self)
        return (self * self.conjugate()).real.sqrt()

    def sqrt_of_square(self, base):
        from . import paths
        # |base| decided by the path
        return base if not (base < 0) else -base

    def exp(self):
        if self.den:
            # only exp(p/q) with monomial content cannot occur: den has >1 terms
            key = ('exp', self.key())
            re, im = self.real, self.imag
            out = SV(p_const(1))
            if re.num:
                out = out * app_atom('exp', (re,), real=True, pos=True)
            if im.num:
                out = out * unit_atom(im)
            return out
        mono = {}
        oth = SV(p_const(1))
        num = self.num
        # every monomial must be real, otherwise split by re/im
        for m, c in num.items():
            if any(REG[i].kind in ('cplx', 'unit') for i, e in m):
                re, im = self.real, self.imag
                out = SV(p_const(1))
                if re.num:
                    out = out * app_atom('exp', (re,), real=True, pos=True)
                if im.num:
                    out = out * unit_atom(im)
                return out
        out = {(): (F1, F0)}
        turn = None
        for m, (x, y) in num.items():
            if y != 0 and x == 0 and y.denominator == 1 and len(m) == 1 and m[0][1] == 1:
                d = REG[m[0][0]].data
                if isinstance(d, tuple) and len(d) == 3 and d[:2] == ('app', 'arctan2'):
                    # exp(i*arctan2(b, a)) = (a + i b)/sqrt(a^2 + b^2), and 1 at the origin
                    b, a = d[2]
                    h2 = a * a + b * b
                    if h2 == 0:
                        continue
                    u = (a + SV(p_const(0, 1)) * b) / h2.sqrt()
                    if y < 0:
                        u = u.conjugate()
                    for _ in range(abs(int(y))):
                        turn = u if turn is None else turn * u
                    continue
            if x != 0:
                A = atom('exp[%s]' % mono_str(m), 'pos', ('expm', SV({m: (F1, F0)})))
                out = p_mul(out, {((A.idx, x),): (F1, F0)})
            if y != 0:
                data = 'pi' if m == ((PI_ATOM().idx, F1),) else SV({m: (F1, F0)})
                A = atom('cis[%s]' % mono_str(m), 'unit', data)
                out = p_mul(out, {((A.idx, y),): (F1, F0)})
        out = SV(p_reduce(out))
        return out if turn is None else out * turn

    def cos(self):
        e = (self * I).exp()
        f = (-self * I).exp()
        return (e + f) / 2

    def sin(self):
        e = (self * I).exp()
        f = (-self * I).exp()
        return (e - f) / (2 * I)

    def tan(self):
        return self.sin() / self.cos()

    def log(self):
        return app_atom('log', (self,), real=True)

    def arctan(self):
        return app_atom('arctan', (self,), real=True)

    def arctan2(self, o):
        return app_atom('arctan2', (self, SV.lift(o)), real=True)

    def arccos(self):
        return app_atom('arccos', (self,), real=True)

    def sign(self):
        if self.is_zero():
            return SV({})
        return SV(p_const(1)) if self > 0 else SV(p_const(-1))

    def isfinite(self):
        return True

    # -------------------------------------------------- decisions
    def is_zero(self):
        """syntactic zero after reduction (no path facts, no fork)"""
        return not self.num

    def __bool__(self):
        from . import paths
        return not paths.decide_zero(self)

    def __eq__(self, o):
        o = SV.lift(o)
        if o is NotImplemented:
            return o
        from . import paths
        return paths.decide_zero(self - o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r

    def __lt__(self, o):
        return _cmp(self, o) < 0

    def __le__(self, o):
        return _cmp(self, o) <= 0

    def __gt__(self, o):
        return _cmp(self, o) > 0

    def __ge__(self, o):
        return _cmp(self, o) >= 0

    def __hash__(self):
        return 77

    def __float__(self):
        if self.is_const() and self.const()[1] == 0:
            return float(self.const()[0])
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        if self.is_const():
            c = self.const()
            return complex(float(c[0]), float(c[1]))
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        raise Unsupported('index of a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -------------------------------------------------- text / numbers
    def __repr__(self):
        n = p_str(self.num)
        if not self.den:
            return n
        return '(%s)/(%s)' % (n, ' * '.join('(%s)%s' % (p_str(dict(k)), '' if e == 1 else '^%d' % e) for k, e in self.den))

    def __format__(self, spec):
        return repr(self)

    def evalf(self, env):
        """numeric value; env: {atom name: number}"""
        n = p_eval(self.num, env)
        for k, e in self.den:
            n = n / p_eval(dict(k), env) ** e
        return n


numbers.Number.register(SV)


def _cmp(a, b):
    if isinstance(b, float) and math.isinf(b):
        return -1 if b > 0 else 1
    b = SV.lift(b)
    if b is NotImplemented:
        raise Unsupported('comparison')
    from . import paths
    d = a - b
    return paths.decide_sign(d)


def note_division(o):
    from . import paths
    paths.note_division(o)


def p_normal(p, unit_only=False):
    """p = c*m*q with q canonical: monomial content removed, leading coeff 1"""
    if not p:
        return p, (), (F1, F0)
    # monomial content: minimal exponent of every atom over all monomials
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for i in list(mins):
                e = d.get(i, F0)
                if e < mins[i]:
                    mins[i] = e
            for i, e in d.items():
                if i not in mins:
                    mins[i] = min(F0, e)
    cont = tuple(sorted((i, e) for i, e in mins.items() if e != 0 and REG[i].kind != 'root'))
    if cont:
        ci = m_pow(cont, Fraction(-1))
        p = {m_mul(m, ci): c for m, c in p.items()}
    lead = min(p)
    c = p[lead]
    n2 = c[0] * c[0] + c[1] * c[1]
    inv = (c[0] / n2, -c[1] / n2)
    if c != (F1, F0):
        p = p_scale(p, inv)
    return p, cont, c


def p_divide(a, b):
    """exact division of Laurent polynomials a/b (after content removal), or None"""
    if len(b) < 2:
        return None
    if len(a) * len(b) > 4000:
        return None
    q = {}
    # lexicographic division wrt a fixed term order: total order on exponent maps
    atoms_ = sorted({i for m in list(a) + list(b) for i, e in m})

    def ordkey(m):
        d = dict(m)
        return tuple(d.get(i, F0) for i in atoms_)
    lb = max(b, key=ordkey)
    cb = b[lb]
    n2 = cb[0] * cb[0] + cb[1] * cb[1]
    ib = (cb[0] / n2, -cb[1] / n2)
    lbi = m_pow(lb, Fraction(-1))
    r = dict(a)
    lo_b = ordkey(min(b, key=ordkey))
    lo_a = ordkey(min(a, key=ordkey))
    steps = 0
    for i in atoms_:
        if REG[i].kind == 'root':
            return None
    while r:
        steps += 1
        if steps > 400:
            return None
        lr = max(r, key=ordkey)
        cr = r[lr]
        m = m_mul(lr, lbi)
        # the smallest term of the quotient times min(b) must reach min(a)
        if ordkey(m_mul(m, min(b, key=ordkey))) < lo_a:
            return None
        c = (cr[0] * ib[0] - cr[1] * ib[1], cr[0] * ib[1] + cr[1] * ib[0])
        q[m] = c
        r = p_add(r, {m_mul(m, mb): (c[0] * x - c[1] * y, c[0] * y + c[1] * x) for mb, (x, y) in b.items()}, -1)
    return q


def p_sqrt(p):
    """polynomial square root, or None (small cases)"""
    if len(p) == 1:
        (m, c), = p.items()
        if c[1] == 0 and c[0] > 0:
            ok = all(REG[i].kind == 'pos' or (e.denominator == 1 and e % 2 == 0) for i, e in m)
            if ok:
                s = sqrt_rational(c[0])
                return p_mul(s.num, {m_pow(m, Fraction(1, 2)): (F1, F0)})
        return None
    if len(p) > 60:
        return None
    atoms_ = sorted({i for m in p for i, e in m})
    for i in atoms_:
        if REG[i].kind == 'root':
            return None

    def ordkey(m):
        d = dict(m)
        return tuple(d.get(i, F0) for i in atoms_)
    lead = max(p, key=ordkey)
    c = p[lead]
    if c[1] != 0 or c[0] <= 0:
        return None
    cs = Fraction(c[0])
    s, r = _small_factor(cs.numerator * cs.denominator)
    if r != 1:
        return None
    root = Fraction(s, cs.denominator)
    q = {m_pow(lead, Fraction(1, 2)): (root, F0)}
    if any(e.denominator != 1 and REG[i].kind not in ('pos', 'unit') for m in q for i, e in m):
        return None
    lq = m_pow(lead, Fraction(-1, 2))
    for _ in range(40):
        rem = p_add(p, p_mul(q, q), -1)
        if not rem:
            return q
        lr = max(rem, key=ordkey)
        cr = rem[lr]
        m = m_mul(lr, lq)
        if ordkey(m) >= ordkey(m_pow(lead, Fraction(1, 2))):
            return None
        if any(e.denominator != 1 and REG[i].kind not in ('pos', 'unit') for i, e in m):
            return None
        if any(e < 0 for i, e in m if REG[i].kind in ('real', 'cplx')):
            return None
        q = p_add(q, {m: (cr[0] / (2 * root), cr[1] / (2 * root))})
    return None


def mono_str(m):
    return '*'.join(REG[i].name + ('' if e == 1 else '^%s' % e) for i, e in m) or '1'


def p_str(p):
    if not p:
        return '0'
    out = []
    for m, (x, y) in sorted(p.items()):
        if y == 0:
            c = str(x)
        elif x == 0:
            c = '%sj' % y
        else:
            c = '(%s+%sj)' % (x, y)
        ms = mono_str(m)
        if ms == '1':
            out.append(c)
        elif c == '1':
            out.append(ms)
        else:
            out.append(c + '*' + ms)
        if len(out) > 12:
            out.append('...(%d terms)' % len(p))
            break
    return ' + '.join(out)


def atom_eval(A, env):
    import cmath
    v = env.get(A.name)
    if v is not None:
        return v
    if A.kind == 'unit':
        if A.data == 'pi':
            v = complex(-1)
        else:
            v = ('cis', A.data.evalf(env).real)
    elif A.kind == 'root':
        p = A.data.evalf(env)
        v = abs(p) ** .5 if p.real >= 0 else cmath.sqrt(p)
    elif A.kind == 'pos' and isinstance(A.data, tuple) and A.data[0] == 'expm':
        v = math.exp(A.data[1].evalf(env).real)
    elif A.kind == 'cplx' and A.name.endswith('*') and A.conj.name in env:
        v = complex(env[A.conj.name]).conjugate()
    elif isinstance(A.data, tuple) and A.data and A.data[0] == 'app':
        args = [a.evalf(env) for a in A.data[2]]
        v = APP_EVAL[A.data[1]](*args)
    else:
        raise KeyError(A.name)
    env[A.name] = v
    return v


APP_EVAL = {
    'exp': lambda x: math.exp(x.real),
    'log': lambda x: math.log(x.real),
    'arctan': lambda x: math.atan(x.real),
    'arctan2': lambda y, x: math.atan2(y.real, x.real),
}


def p_eval(p, env):
    import cmath
    tot = 0j
    for m, (x, y) in p.items():
        t = complex(float(x), float(y))
        for i, e in m:
            v = atom_eval(REG[i], env)
            if isinstance(v, tuple) and v[0] == 'cis':
                t *= cmath.exp(1j * v[1] * float(e))
            else:
                t *= v ** (int(e) if e.denominator == 1 else float(e))
        tot += t
    return tot


def app_atom(fname, args, real=True, pos=False):
    key = '%s(%s)' % (fname, ', '.join(repr(a.key()) for a in args))
    A = Atom.byname.get(key)
    if A is None:
        A = atom(key, 'pos' if pos else ('app' if real else 'cplx'), ('app', fname, tuple(args)))
    return SV({((A.idx, F1),): (F1, F0)})


def unit_atom(im):
    key = 'cis(%r)' % (im.key(),)
    A = Atom.byname.get(key)
    if A is None:
        # share sign: canonical associate
        A = atom(key, 'unit', im)
    return SV({((A.idx, F1),): (F1, F0)})


def syn_sign(v):
    """sign known from the shape alone: sums of squares / positive atoms"""
    if not v.num:
        return 0
    s = _p_sign(v.num)
    if s is None:
        return None
    for k, e in v.den:
        if e % 2 == 0:
            continue
        t = _p_sign(dict(k))
        if t is None or t == 0:
            return None
        s *= t
    return s


def _p_sign(p):
    sg = None
    for m, (x, y) in p.items():
        if y != 0:
            return None
        for i, e in m:
            A = REG[i]
            if A.kind == 'pos':
                continue
            if A.kind == 'root':
                continue
            if A.kind in ('real', 'app') and e.denominator == 1 and e % 2 == 0:
                continue
            # z * conj z
            if A.kind == 'cplx' and dict(m).get(A.conj.idx) == e:
                continue
            return None
        t = 1 if x > 0 else -1
        if sg is None:
            sg = t
        elif sg != t:
            return None
    return sg


I = SV(p_const(0, 1))


def PI_ATOM():
    return atom('pi', 'pos', None)


def PI():
    return SV({((PI_ATOM().idx, F1),): (F1, F0)})


def real(name):
    return SV({((atom(name, 'real').idx, F1),): (F1, F0)})


def pos(name):
    return SV({((atom(name, 'pos').idx, F1),): (F1, F0)})


def cplx(name):
    return SV({((atom(name, 'cplx').idx, F1),): (F1, F0)})


def const(x, y=0):
    return SV(p_const(Fraction(x), Fraction(y)))
