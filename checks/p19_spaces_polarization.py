"""P19: propagation, polarization, circulators and selectors."""
import itertools
import numpy as np
from vc.harness import Suite
from vc.opt import OSys, orecord, ckey, okey, compare, sqrt, cos, sin, exp
from phasor import optics, readouts
from phasor.optics import selectors

S = Suite('P19')
POLS, QS = 'SP', 'LR'


def grid(s, n=1, extra=True):
    """keys of several harmonics, both polarizations, both signs; their frequency"""
    f1 = s.c.real('f1')
    F1 = s.freq('F1', f1)
    fa = s.sys.F_AC.F_Hz.val
    out = {}
    for (cl, f), p, q in itertools.product([({}, 0), ({F1: 2, s.sys.F_AC: -1}, 2 * f1 - fa), ({s.sys.F_AC: 1}, fa)], POLS, QS):
        out[s.ok(p, q, cl, n)] = (p, q, f, cl)
    return out


@S.case('propagation delays every frequency by its own phase, both ways')
def _(c):
    s = OSys(c)
    L, d = c.real('L', special=[0]), c.real('d', special=[0])
    el = s.add('el', optics.Space(L_m=L, L_detune_m=d))
    n = c.choice('n', [1, 2])
    K = grid(s, n)
    M = orecord(el, [el.po_Fr, el.po_Bk], set(K)).matrix()
    w = {}
    for k, (p, q, f, cl) in K.items():
        th = 2 * np.pi * (f * L / 299792458 + d * n / s.lam)
        e = exp(-1j * th) if q == 'L' else exp(1j * th)
        w[(el.po_Fr.i, k), (el.po_Bk.o, k)] = e
        w[(el.po_Bk.i, k), (el.po_Fr.o, k)] = e
    compare(c, M, w, scale=1)


@S.case('propagation of sidebands scanned along different axes', sym=False, arr=False, bounded=True, samples=20)
def _(c):
    from phasor import base, system
    SH = [(), (3,), (2, 1), (4, 1, 1)]

    def scan(n):
        sh = c.choice('shape ' + n, SH)
        return np.array([c.real('%s%d' % (n, i), nz=True) * 1e7 for i in range(int(np.prod(sh)))]).reshape(sh)[()]
    fa, f1, L = scan('fa'), scan('f1'), scan('L') * 1e-7
    sys = system.BGSystem(F_AC=fa)
    sys.own.F1 = base.Frequency(F_Hz=f1)
    F1 = sys.own.F1
    sys.own.el = optics.Space(L_m=L)
    el = sys.own.el
    for n1, na in ((1, 1), (1, -1), (2, 0), (0, 1)):
        key = okey(sys.F_carrier_1064, 'S', 'L', {F: n for F, n in ((F1, n1), (sys.F_AC, na)) if n})
        M = orecord(el, [el.po_Fr, el.po_Bk], {key}).matrix()
        c.eq('delay', M.get(((el.po_Fr.i, key), (el.po_Bk.o, key)), 0),
             np.exp(-2j * np.pi * (n1 * f1 + na * fa) * L / 299792458), scale=1)


def rot_matrix(C, Sn):
    return {('S', 'S'): C, ('S', 'P'): Sn, ('P', 'P'): C, ('P', 'S'): -Sn}


@S.case('rotators: reciprocal (polarization) and non-reciprocal (Faraday)', arr=False)
def _(c):
    s = OSys(c)
    kind = c.choice('kind', ['PolarizationRotator', 'FaradayRotator'])
    a = c.choice('a', ['any', 0, 90, -90, 180, -180, 270, -270, 45, 30])
    th = c.real('th', special=[0, 90, 180]) if a == 'any' else a
    rad = th * np.pi / 180
    el = s.add('el', getattr(optics, kind)(rotate_deg=th))
    K = grid(s)
    M = orecord(el, [el.po_Fr, el.po_Bk], set(K)).matrix()
    if a == 'any':
        C, Sn = cos(rad), sin(rad)
    else:
        C, Sn = {0: (1, 0), 90: (0, 1), -90: (0, -1), 180: (-1, 0), -180: (-1, 0), 270: (0, -1), -270: (0, 1),
                 45: (np.sqrt(.5), np.sqrt(.5)), 30: (np.sqrt(.75), .5)}[a]
    w = {}
    for k, (p, q, f, cl) in K.items():
        for p2 in POLS:
            k2 = s.ok(p2, q, cl)
            w[(el.po_Fr.i, k), (el.po_Bk.o, k2)] = rot_matrix(C, Sn)[p, p2]
            w[(el.po_Bk.i, k), (el.po_Fr.o, k2)] = rot_matrix(C, Sn if kind[0] == 'F' else -Sn)[p, p2]
    compare(c, M, w, scale=1)


@S.case('wave plates multiply each polarization by its own factor, conjugated for the conjugate field')
def _(c):
    s = OSys(c)
    kind = c.choice('kind', ['custom', 'UnmountedHalfWavePlate', 'UnmountedQuarterWavePlate'])
    if kind == 'custom':
        gS, gP = c.cplx('gS'), c.cplx('gP')
        el = s.add('el', optics.WavePlate(cplgS=gS, cplgP=gP))
    else:
        gS, gP = 1 + 0j, (-1 + 0j if 'Half' in kind else 1j)
        el = s.add('el', getattr(optics, kind)())
    K = grid(s)
    M = orecord(el, [el.po_Fr, el.po_Bk], set(K)).matrix()
    w = {}
    for k, (p, q, f, cl) in K.items():
        g = gS if p == 'S' else gP
        g = g if q == 'L' else g.conjugate()
        w[(el.po_Fr.i, k), (el.po_Bk.o, k)] = g
        w[(el.po_Bk.i, k), (el.po_Fr.o, k)] = g
    compare(c, M, w, scale=1)


@S.case('circulator sends every port to the next')
def _(c):
    s = OSys(c)
    N = c.choice('N', [2, 3, 4, 6])
    el = s.add('el', optics.OpticalCirculator(N_ports=N))
    P = [getattr(el, 'P%d' % i) for i in range(N)]
    K = grid(s)
    M = orecord(el, P, set(K)).matrix()
    w = {}
    for k in K:
        for i in range(N):
            w[(P[i].i, k), (P[(i + 1) % N].o, k)] = 1
    compare(c, M, w)


@S.case('selectors split by polarization or wavelength and recombine')
def _(c):
    s = OSys(c)
    kind = c.choice('kind', ['PolarizingSelector', 'PolSelector', 'GenericSelector', 'by order'])
    K = grid(s)
    if kind == 'PolSelector':
        el = s.add('el', selectors.PolSelector())
        out = {'S': el.Bk_S, 'P': el.Bk_P}
        pick = lambda k: K[k][0]
    elif kind == 'PolarizingSelector':
        el = s.add('el', optics.PolarizingSelector())
        out = {'S': el.Bk_S, 'P': el.Bk_P}
        pick = lambda k: K[k][0]
    elif kind == 'GenericSelector':
        from phasor.optics import ports as op
        el = s.add('el', selectors.GenericSelector(select_map=dict(S=op.LOWER, P=op.RAISE)))
        out = {'S': el.Bk_S, 'P': el.Bk_P}
        pick = lambda k: 'S' if K[k][1] == 'L' else 'P'
    else:
        from phasor.optics import ports as op
        K2 = grid(s, 2)
        h = lambda n: op.DictKey({op.OpticalFreqKey: op.FrequencyKey({s.Fo: n})})
        el = s.add('el', selectors.GenericSelector(select_map=dict(S=h(1), P=h(2))))
        out = {'S': el.Bk_S, 'P': el.Bk_P}
        K = dict(list(K.items()) + list(K2.items()))
        pick = lambda k: 'P' if k in K2 else 'S'
    # what arrives at a selected port is of that selection
    ps = {}
    for n, p in out.items():
        ks = {k for k in K if pick(k) == n}
        ps[p.i] = ks
        ps[p.o] = ks
    ps[el.po_Fr.i] = set(K)
    ps[el.po_Fr.o] = set(K)
    from vc.opt import record
    M = record(el, (), portsets=ps).matrix()
    w = {}
    for k in K:
        p = out[pick(k)]
        w[(el.po_Fr.i, k), (p.o, k)] = 1
        w[(p.i, k), (el.po_Fr.o, k)] = 1
    compare(c, M, w)


def split_powers(c, s, port):
    """power in each polarization leaving a port"""
    sel = s.add('sel', optics.PolarizingSelector())
    pS, pP = s.add('pdS', optics.PD()), s.add('pdP', optics.PD())
    s.sys.bond(port, sel.po_Fr)
    s.sys.bond(sel.Bk_S, pS.po_Fr)
    s.sys.bond(sel.Bk_P, pP.po_Fr)
    return (s.add('rS', readouts.DCReadout(port=pS.Wpd.o)), s.add('rP', readouts.DCReadout(port=pP.Wpd.o)))


def laser(c, s, P, pol):
    return s.add('laser', optics.Laser(F=s.Fo, power_W=P, polarization=pol))


@S.case('mounted wave plates at an angle, end to end, from either side', samples=15, arr=False)
def _(c):
    s = OSys(c)
    P = c.pos('P')
    pl = c.choice('pol', ['S', 'P'])
    kind = c.choice('kind', ['HalfWavePlate', 'QuarterWavePlate', 'Rotator', 'Faraday'])
    side = c.choice('side', [0, 1])
    th = c.real('th', 1, 44)
    rad = th * np.pi / 180
    las = laser(c, s, P, pl)
    if kind == 'Rotator':
        el = s.add('el', optics.PolarizationRotator(rotate_deg=th))
    elif kind == 'Faraday':
        el = s.add('el', optics.FaradayRotator(rotate_deg=th))
    else:
        el = s.add('el', getattr(optics, kind)(rotate_deg=th))
    ab = [el.po_Fr, el.po_Bk][::-1 if side else 1]
    s.sys.bond(las.po_Fr, ab[0])
    rS, rP = split_powers(c, s, ab[1])
    C, Sn = cos(rad), sin(rad)
    same = {'HalfWavePlate': (C * C - Sn * Sn) ** 2, 'QuarterWavePlate': C ** 4 + Sn ** 4,
            'Rotator': C * C, 'Faraday': C * C}[kind]
    a, b = (rS, rP) if pl == 'S' else (rP, rS)
    c.eq('kept polarization', a.DC_readout, P * same, scale=P)
    c.eq('other polarization', b.DC_readout, P * (1 - same), scale=P)


@S.case('double pass: a rotation is undone, a Faraday rotation doubles', samples=15, arr=False)
def _(c):
    s = OSys(c)
    P = c.pos('P')
    th = c.real('th', 1, 44)
    rad = th * np.pi / 180
    kind = c.choice('kind', ['PolarizationRotator', 'FaradayRotator'])
    las = laser(c, s, P, 'S')
    el = s.add('el', getattr(optics, kind)(rotate_deg=th))
    m = s.add('m', optics.Mirror(T_hr=0))
    ci = s.add('circ', optics.OpticalCirculator(N_ports=3))
    s.sys.bond(las.po_Fr, ci.P0)
    s.sys.bond(ci.P1, el.po_Fr)
    s.sys.bond(el.po_Bk, m.po_Fr)
    rS, rP = split_powers(c, s, ci.P2)
    C2 = cos(2 * rad) if kind[0] == 'F' else 1
    c.eq('S', rS.DC_readout, P * C2 * C2, scale=P)
    c.eq('P', rP.DC_readout, P * (1 - C2 * C2), scale=P)


@S.case('polarizing mirrors act on each polarization as its own mirror', samples=12, arr=False)
def _(c):
    s = OSys(c)
    P = c.pos('P')
    pl = c.choice('pol', ['S', 'P'])
    aoi = c.choice('aoi', [0, 45])
    T = {}
    for p in 'SP':
        T[p] = c.real('T' + p, .01, .99)
    las = laser(c, s, P, pl)
    mag = s.add('pdr', optics.MagicPD())
    m = s.add('m', optics.PolarizingMirror(mirror_S=optics.Mirror(T_hr=T['S']), mirror_P=optics.Mirror(T_hr=T['P']), AOI_deg=aoi))
    t = s.add('pdt', optics.PD())
    s.sys.bond(las.po_Fr, mag.po_Bk)
    s.sys.bond(mag.po_Fr, m.po_FrA if aoi else m.po_Fr)
    s.sys.bond(m.po_BkA if aoi else m.po_Bk, t.po_Fr)
    if aoi:
        r = s.add('pd2', optics.PD())
        s.sys.bond(m.po_FrB, r.po_Fr)
    else:
        r = mag
    rT, rR = s.add('rT', readouts.DCReadout(port=t.Wpd.o)), s.add('rR', readouts.DCReadout(port=r.Wpd.o))
    c.eq('transmitted', rT.DC_readout, P * T[pl])
    c.eq('reflected', rR.DC_readout, P * (1 - T[pl]))
