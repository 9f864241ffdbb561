"""P18: mirrors and beamsplitters, linear scattering and what is built from them."""
import itertools
import numpy as np
from vc.harness import Suite
from vc.opt import OSys, orecord, ckey, okey, compare, sqrt, cos, sin, exp
from phasor import optics, readouts

S = Suite('P18')

QS = ['L', 'R']


def keys_of(s, f1=True):
    K = {}
    F1 = s.freq('F1', s.c.real('f1'))
    for cl, pol, q in itertools.product([{}, {F1: 2, s.sys.F_AC: -1}], 'SP', QS):
        K[s.ok(pol, q, cl)] = (pol, q)
    K[s.ok('S', 'L', {}, 2)] = ('S', 'L')
    K[s.ok('S', 'R', {}, 2)] = ('S', 'R')
    return K


def powers(c, loss=True):
    """T_hr, L_hr, L_t, and the power reflected, transmitted and lost"""
    T = c.real('T_hr', 0, 1, special=[0, 1])
    Lh = c.real('L_hr', 0, 1, special=[0]) if loss else 0
    Lt = c.real('L_t', 0, 1, special=[0]) if loss else 0
    c.assume('>=', T - Lt)
    c.assume('>=', 1 - T - Lh)
    return T, Lh, Lt


def ports_of(m):
    return [m.po_FrA, m.po_FrB, m.po_BkA, m.po_BkB] if m.is_4_port else [m.po_Fr, m.po_Bk]


def loss_ports(m):
    return [m._LFrA, m._LFrB, m._LBkA, m._LBkB] if m.is_4_port else [m._LFr, m._LBk]


def record_(m, K):
    return orecord(m, ports_of(m) + loss_ports(m), K).matrix()


def expected(m, K, t, r, l, ph, rbs=0, bph=0):
    w = {}

    def add(a, b, k, v):
        w[(a.i, k), (b.o, k)] = v
    for k, (pol, q) in K.items():
        e = exp(1j * ph) if q == 'L' else exp(-1j * ph)       # conjugate from the back (unitarity)
        eB = exp(-1j * ph) if q == 'L' else exp(1j * ph)
        eb = exp(1j * bph) if q == 'L' else exp(-1j * bph)
        if m.is_4_port:
            for a, b in [(m.po_FrA, m.po_BkA), (m.po_FrB, m.po_BkB)]:
                add(a, b, k, t)
                add(b, a, k, t)
            add(m.po_FrA, m.po_FrB, k, r * e)
            add(m.po_FrB, m.po_FrA, k, r * e)
            add(m.po_BkA, m.po_BkB, k, -r * eB)
            add(m.po_BkB, m.po_BkA, k, -r * eB)
            if rbs is not None:
                for p, sg in [(m.po_FrA, 1), (m.po_FrB, -1), (m.po_BkA, -1), (m.po_BkB, 1)]:
                    add(p, p, k, sg * rbs * eb)
        else:
            add(m.po_Fr, m.po_Bk, k, t)
            add(m.po_Bk, m.po_Fr, k, t)
            add(m.po_Fr, m.po_Fr, k, r * e)
            add(m.po_Bk, m.po_Bk, k, -r * eB)
        if m._has_loss:
            for p, L in zip(ports_of(m), loss_ports(m)):
                add(L, p, k, l)
    return w


@S.case('scattering of one mirror: transmission, reflection, loss, phase and orientation')
def _(c):
    T, Lh, Lt = powers(c)
    s = OSys(c)
    ph = c.real('phase', special=[0])
    flip = c.choice('flip', [False, True])
    aoi = c.choice('aoi', [0, 45, 30])
    m = s.add('m', optics.Mirror(T_hr=T, L_hr=Lh, L_t=Lt, phase_rad=ph, flip_sign=flip, AOI_deg=aoi))
    K = keys_of(s)
    M = record_(m, set(K))
    sg = -1 if flip else 1
    compare(c, M, expected(m, K, sqrt(T - Lt), sg * sqrt(1 - T - Lh), sqrt(Lh + Lt), ph, None))


@S.case('transmission and loss of any size, however small', sym=False, arr=False, bounded=True, samples=60)
def _(c):
    s = OSys(c)
    D = [1e-2, 1e-5, 1e-8, 1e-10, 1e-13, 1e-16, 1e-20]
    T, Lh, Lt = (c.choice(n, D) * c.real(n + 'm', 1, 5) for n in ('T', 'Lh', 'Lt'))
    if c.choice('no loss inside', [True, False]):
        Lt = 0
    else:
        Lt = T * min(Lt, .5)
    m = s.add('m', optics.Mirror(T_hr=T, L_hr=c.choice('loss', [0, 1]) * Lh, L_t=Lt, AOI_deg=c.choice('aoi', [0, 45])))
    K = keys_of(s)
    M = record_(m, set(K))
    t, l = (T - Lt)**.5, (m.L_hr + Lt)**.5
    c.true('loss ports', bool(m._has_loss) == (l != 0))
    for e, w in expected(m, K, t, (1 - T - m.L_hr)**.5, l, 0, None).items():
        c.eq('coupling', M.get(e, 0) / w, 1)


@S.case('reflectivity of any size, however small', sym=False, arr=False, bounded=True, samples=40)
def _(c):
    s = OSys(c)
    R = 2.**-c.choice('bits', [4, 12, 20, 30, 40, 50])
    ph = c.real('phase')
    aoi = c.choice('aoi', [0, 45])
    m = s.add('m', optics.Mirror(T_hr=1 - R, phase_rad=ph, AOI_deg=aoi))    # 1 - R is exact
    K = keys_of(s)
    M = record_(m, set(K))
    for e, w in expected(m, K, (1 - R)**.5, R**.5, 0, ph, None).items():
        c.eq('coupling', M.get(e, 0) / w, 1)


@S.case('commutators are preserved: the noise power into every out-port sums to one, and lossless mirrors are unitary')
def _(c):
    T, Lh, Lt = powers(c)
    s = OSys(c)
    ph = c.real('phase', special=[0])
    aoi = c.choice('aoi', [0, 45])
    m = s.add('m', optics.Mirror(T_hr=T, L_hr=Lh, L_t=Lt, phase_rad=ph, AOI_deg=aoi))
    k = s.ok('S', c.choice('q', QS), {s.sys.F_AC: 1})
    M = record_(m, {k})
    outs = [p.o for p in ports_of(m)]
    ins = [p.i for p in ports_of(m)] + ([p.i for p in loss_ports(m)] if m._has_loss else [])
    for i, a in enumerate(outs):
        for j, b in enumerate(outs[:i + 1]):
            tot = sum(M.get(((x, k), (a, k)), 0) * np.conj(M.get(((x, k), (b, k)), 0)) for x in ins)
            # vacua of the loss ports enter one out-port each
            c.eq('sum over inputs, outputs %d %d' % (i, j), tot, 1 if i == j else 0, scale=1)


@S.case('backscatter returns on the port it came from, with its own phase')
def _(c):
    T = c.real('T_hr', 0, 1, special=[0])
    B = c.real('R_bs', 0, 1, special=[0])
    c.assume('>=', 1 - T - B)
    s = OSys(c)
    ph, bph = c.real('phase', special=[0]), c.real('bphase', special=[0])
    flip = c.choice('flip', [False, True])
    m = s.add('m', optics.Mirror(T_hr=T, R_backscatter=B, phase_rad=ph, backscatter_phase_rad=bph, AOI_deg=45, flip_sign=flip))
    K = {s.ok('S', q, cl): ('S', q) for q in QS for cl in ({}, {s.sys.F_AC: 1})}
    sg = -1 if flip else 1
    compare(c, record_(m, set(K)), expected(m, K, sqrt(T), sg * sqrt(1 - T - B), 0, ph, sg * sqrt(B), bph))


def pd_power(s, name, pd):
    return s.add(name, readouts.DCReadout(port=pd.Wpd.o))


@S.case('one mirror, end to end: reflected, transmitted and lost power', samples=12)
def _(c):
    T, Lh, Lt = powers(c)
    if c.sym:
        c.assume('!=', T - Lt)
        c.assume('!=', 1 - T - Lh)
        c.assume('!=', Lh + Lt)
    P = c.pos('P')
    side = c.choice('side', ['Fr', 'Bk'])
    s = OSys(c)
    s.add('laser', optics.Laser(F=s.Fo, power_W=P, phase_rad=c.real('lph', special=[0])))
    s.add('pdr', optics.MagicPD())
    s.add('pdt', optics.PD())
    m = s.add('m', optics.Mirror(T_hr=T, L_hr=Lh, L_t=Lt, phase_rad=c.real('ph', special=[0])))
    b = s.sys.bond
    b(s.sys.laser.po_Fr, s.sys.pdr.po_Bk)
    a, z = (m.po_Fr, m.po_Bk) if side == 'Fr' else (m.po_Bk, m.po_Fr)
    b(s.sys.pdr.po_Fr, a)
    b(z, s.sys.pdt.po_Fr)
    R, X = pd_power(s, 'R', s.sys.pdr), pd_power(s, 'X', s.sys.pdt)
    c.eq('reflected', R.DC_readout, P * (1 - T - Lh), scale=P)
    c.eq('transmitted', X.DC_readout, P * (T - Lt), scale=P)


def _refl(c, n):
    """a power transmission strictly between 0 and 1, its r and t (rationally parametrised)"""
    u = c.real('u%d' % n, .02, .98)
    if c.sym:
        c.assume('>', u)
        c.assume('>', 1 - u)
    r, t = (1 - u * u) / (1 + u * u), 2 * u / (1 + u * u)
    return t * t, r, t


@S.case('two mirror cavity: circulating, transmitted and reflected power', samples=12, arr=False, limit=(120, 400))
def _(c):
    T1, r1, t1 = _refl(c, 1)
    T2, r2, t2 = _refl(c, 2)
    P = c.pos('P')
    u = c.choice('u', [0, 1, 3])           # detuning in eighths of a wave
    s = OSys(c, wavelen=1.)
    s.add('laser', optics.Laser(F=s.Fo, power_W=P))
    s.add('pdr', optics.MagicPD())
    s.add('pdc', optics.MagicPD())
    s.add('pdt', optics.PD())
    m1 = s.add('m1', optics.Mirror(T_hr=T1))
    m2 = s.add('m2', optics.Mirror(T_hr=T2))
    sp = s.add('sp', optics.Space(L_m=c.real('L', 0), L_detune_m=u / 8.))
    b = s.sys.bond
    b(s.sys.laser.po_Fr, s.sys.pdr.po_Bk)
    b(s.sys.pdr.po_Fr, m1.po_Bk)
    b(m1.po_Fr, s.sys.pdc.po_Fr)
    b(s.sys.pdc.po_Bk, sp.po_Fr)
    b(sp.po_Bk, m2.po_Fr)
    b(m2.po_Bk, s.sys.pdt.po_Fr)
    R, C, X = pd_power(s, 'R', s.sys.pdr), pd_power(s, 'C', s.sys.pdc), pd_power(s, 'X', s.sys.pdt)
    ph = {0: 1, 1: -1j, 3: 1j}[u]          # round trip exp(-2i k u/8 lambda)
    g = 1 - r1 * r2 * ph
    c2 = T1 / (g * np.conj(g)) if not c.sym else T1 / (g * g.conjugate() if not isinstance(g, complex) else 1)
    rr = -r1 + t1 * t1 * r2 * ph / g
    c.eq('circulating', C.DC_readout, P * c2)
    c.eq('transmitted', X.DC_readout, P * c2 * T2)
    c.eq('reflected', R.DC_readout, P * rr * np.conj(rr) if not c.sym else P * rr * rr.conjugate(), scale=P)
    c.eq('energy', C.DC_readout * T2 + R.DC_readout, P, scale=P)


@S.case('beamsplitter with two end mirrors: both ports share the power by the path difference', samples=12, arr=False)
def _(c):
    T, r, t = _refl(c, 1)
    P = c.pos('P')
    u = c.choice('u', [0, 1, 2, 3])
    s = OSys(c, wavelen=1.)
    s.add('laser', optics.Laser(F=s.Fo, power_W=P, polarization=c.choice('pol', ['S', 'P'])))
    bs = s.add('bs', optics.Mirror(T_hr=T, AOI_deg=45))
    x, y = s.add('x', optics.Mirror(T_hr=0)), s.add('y', optics.Mirror(T_hr=0))
    sx = s.add('sx', optics.Space(L_m=c.real('L', 0), L_detune_m=u / 8.))
    sym, asy = s.add('symPD', optics.MagicPD()), s.add('asPD', optics.PD())
    b = s.sys.bond
    b(s.sys.laser.po_Fr, sym.po_Bk)
    b(sym.po_Fr, bs.po_FrA)
    b(bs.po_FrB, y.po_Fr)
    b(bs.po_BkA, sx.po_Fr)
    b(sx.po_Bk, x.po_Fr)
    b(bs.po_BkB, asy.po_Fr)
    A, B = pd_power(s, 'A', asy), pd_power(s, 'B', sym)
    ph = {0: 1, 1: -1j, 2: -1, 3: 1j}[u]
    ea = r * t * (1 - ph)
    eb = r * r + t * t * ph
    cj = lambda z: z.conjugate() if hasattr(z, 'conjugate') else z
    c.eq('antisymmetric', A.DC_readout, P * ea * cj(ea), scale=P)
    c.eq('symmetric', B.DC_readout, P * eb * cj(eb), scale=P)
