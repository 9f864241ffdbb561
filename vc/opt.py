"""Optical keys and port-by-port comparison of declared maps."""
import itertools
import numpy as np
from . import sym
from .phys import Sys, record, ckey, install   # noqa
from .sym import SV


def _f(x, n):
    if isinstance(x, SV):
        return getattr(x, n)()
    return getattr(np, n)(x)


def sqrt(x):
    return _f(x, 'sqrt')


def cos(x):
    return _f(x, 'cos')


def sin(x):
    return _f(x, 'sin')


def exp(x):
    return _f(x, 'exp')


class OSys(Sys):
    """a system with one optical carrier and its second harmonic"""

    def __init__(self, c, wavelen=None, **kw):
        Sys.__init__(self, c, **kw)
        from phasor import optics
        lam = c.pos('lam') if wavelen is None else wavelen
        self.lam = lam
        self.iw = 1 / lam
        from phasor.optics.frequency import OpticalFrequency
        self.sys.own.F_opt = OpticalFrequency(wavelen_m=lam, name='F_opt', order=3)
        self.Fo = self.sys.F_opt

    def ok(self, pol='S', q='L', cl=None, n=1):
        return okey(self.Fo, pol, q, cl, n)


def okey(Fo, pol='S', q='L', cl=None, n=1):
    from phasor.optics import ports as op
    k = op.DictKey({op.OpticalFreqKey: op.FrequencyKey({Fo: n}), op.ClassicalFreqKey: op.FrequencyKey(dict(cl or {}))})
    return k | (op.PolS if pol == 'S' else op.PolP) | (op.LOWER if q == 'L' else op.RAISE)


def expand(M):
    """sum of identical entries is already done by Recorder.matrix"""
    return M


def compare(c, M, want, sel=None, scale=None):
    """every declared coupling is wanted and every wanted coupling declared:
    entry by entry, absent = 0"""
    keys = sorted(set(M) | set(want), key=repr_pk)
    for k in keys:
        if sel is not None and not sel(k):
            continue
        c.eq(label(k), M.get(k, 0), want.get(k, 0), scale=scale)


def orecord(el, ports, okeys, ckeys=()):
    """record the element with okeys at its optical ports and ckeys at its classical ones"""
    ps = {}
    for p in ports:
        if p is None:
            continue
        for d in ('i', 'o'):
            ps[getattr(p, d)] = okeys
    return record(el, ckeys, portsets=ps)


def pname(p):
    from phasor.base.ports import ElementKey, PortKey
    return '%s.%s' % (p[ElementKey], p[PortKey])


def kname(k):
    out = []
    for n, v in sorted(((str(a), b) for a, b in k._dict.items())):
        if hasattr(v, 'F_dict'):
            v = '+'.join('%s*%s' % (m, getattr(F, 'name', None) or F.name_child) for F, m in
                         sorted(v.F_dict.items(), key=lambda t: str(getattr(t[0], 'name_child', t[0]))))
        out.append('%s' % (v,))
    return ','.join(out)


def label(k):
    (pf, kf), (pt, kt) = k
    return '%s[%s] -> %s[%s]' % (pname(pf), kname(kf), pname(pt), kname(kt))


def repr_pk(k):
    return label(k)


def fields(c, s, K):
    return {k: c.cplx('E[%s]' % n) for n, k in enumerate(sorted(K, key=kname))}


def harmonics(c, s, N=2, pols='S'):
    """keys of |n| <= N at one frequency of order N, and the classical keys"""
    f = c.pos('fm')
    F = s.freq('Fm', f, order=N)
    opt = {}
    for p, q, n in itertools.product(pols, 'LR', range(-N, N + 1)):
        opt[p, q, n] = s.ok(p, q, {F: n} if n else {})
    cl = {m: ckey({F: m} if m else {}) for m in range(-N, N + 1)}
    return f, F, opt, cl


def evaluate(c, r, val):
    """outputs of everything declared, the products included, at the fields val"""
    out = {}

    def add(pk, v):
        out[pk] = out[pk] + v if pk in out else v
    for pf, kf, pt, kt, v, vp in r.edges:
        if (pf, kf) not in val or any(x not in val for x in vp):
            continue
        t = v * val[pf, kf]
        for x in vp:
            t = t * val[x]
        add((pt, kt), t)
    for a, b, pk, v in r.triplets:
        if a in val and b in val:
            add(pk, v * val[a] * val[b])
    return out
