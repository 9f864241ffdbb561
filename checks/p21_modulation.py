"""P21: modulators and moving mirrors: sidebands, back action, and what a detector sees of them."""
import itertools
import numpy as np
from vc.harness import Suite
from vc.opt import OSys, orecord, ckey, sqrt, cos, sin, exp, kname, pname, harmonics, evaluate
from phasor import optics, readouts

S = Suite('P21')
C0 = 299792458
BIG = 2 ** 28


def drives(c, cl, p, name='x'):
    """fields of a drive at every harmonic but the mean"""
    return {m: c.cplx('%s%d' % (name, m)) for m in sorted(cl) if m}


def optfields(c, opt, sel, name='E'):
    return {k: c.cplx('%s%s%s%d' % ((name,) + k)) for k in sorted(opt) if sel(k)}


def sidebands(E, x, pol, q, n, N, gain, gainC):
    """E_L(n) + g sum x(m) E_L(n-m); E_R(n) + g' sum x(m) E_R(n+m)"""
    t = 0
    for m, v in x.items():
        j = n - m if q == 'L' else n + m
        if abs(j) <= N:
            t = t + v * E[pol, q, j]
    return (gain if q == 'L' else gainC) * t


MODS = {'PM': [('DrvPM', .5j, -.5j)], 'AM': [('DrvAM', .5, .5)],
        'AMPM': [('DrvAM', .5, .5), ('DrvPM', .5j, -.5j)]}


@S.case('modulators multiply the field by one plus their drives, at every sideband', samples=40)
def _(c):
    s = OSys(c)
    kind = c.choice('kind', sorted(MODS))
    el = s.add('el', getattr(optics, kind)())
    N = c.choice('N', [1, 2])
    f, F, opt, cl = harmonics(c, s, N, c.choice('pols', ['S', 'P']))
    pol = 'S' if any(p == 'S' for p, q, n in opt) else 'P'
    r = orecord(el, [el.po_Fr, el.po_Bk], set(opt.values()), set(cl.values()))
    # one field at a time from one side: the map is bilinear
    side = c.choice('from', ['Fr', 'Bk'])
    pin = el.po_Fr.i if side == 'Fr' else el.po_Bk.i
    pout = el.po_Bk.o if side == 'Fr' else el.po_Fr.o
    back = el.po_Fr.o if side == 'Fr' else el.po_Bk.o
    E = optfields(c, opt, lambda k: True)
    val = {(pin, opt[k]): v for k, v in E.items()}
    X = []
    for j, (name, g, gC) in enumerate(MODS[kind]):
        x = drives(c, cl, None, 'x%d_' % j)
        dc = c.real('xdc%d' % j)
        X.append((x, g, gC))
        for m, v in x.items():
            val[getattr(el, name).i, cl[m]] = v
    out = evaluate(c, r, val)
    sc = None if c.sym else 1 + sum(abs(v) for v in E.values()) * (1 + sum(abs(v) for x, _, _ in X for v in x.values()))
    for k in sorted(opt):
        p, q, n = k
        w = E[k]
        for x, g, gC in X:
            w = w + sidebands(E, x, p, q, n, N, g, gC)
        c.eq('out %s%s%d' % k, out.get((pout, opt[k]), 0), w, scale=sc)
        c.true('nothing returned', (back, opt[k]) not in out)


@S.case('a modulator without drive is transparent', samples=20)
def _(c):
    s = OSys(c)
    kind = c.choice('kind', sorted(MODS))
    el = s.add('el', getattr(optics, kind)())
    f, F, opt, cl = harmonics(c, s, 2, 'SP')
    r = orecord(el, [el.po_Fr, el.po_Bk], set(opt.values()), ())
    M = r.matrix()
    want = {}
    for k in opt.values():
        want[(el.po_Fr.i, k), (el.po_Bk.o, k)] = 1
        want[(el.po_Bk.i, k), (el.po_Fr.o, k)] = 1
    for e in sorted(set(M) | set(want), key=lambda e: (pname(e[0][0]), kname(e[0][1]), pname(e[1][0]), kname(e[1][1]))):
        c.eq('%s -> %s' % (kname(e[0][1]), pname(e[1][0])), M.get(e, 0), want.get(e, 0))


@S.case('back action of modulators: power for phase, its conjugate quadrature for amplitude', samples=40)
def _(c):
    s = OSys(c)
    kind = c.choice('kind', ['PM', 'AM'])
    el = s.add('el', getattr(optics, kind)())
    N = c.choice('N', [1, 2])
    f, F, opt, cl = harmonics(c, s, N, 'S')
    r = orecord(el, [el.po_Fr, el.po_Bk], set(opt.values()), set(cl.values()))
    side = c.choice('from', ['po_Fr', 'po_Bk'])
    pin = getattr(el, side).i
    E = optfields(c, opt, lambda k: True)
    sc = None if c.sym else 1 + sum(abs(v) for v in E.values()) ** 2
    out = evaluate(c, r, {(pin, opt[k]): v for k, v in E.items()})
    lin = {}
    for pf, kf, pt, kt, v, vp in r.edges:
        if pt != el.BA.o or pf != pin:
            continue
        t = v
        for x in vp:
            t = t * {(pin, opt[k]): w for k, w in E.items()}.get(x, 0)
        lin[kf, kt] = lin[kf, kt] + t if (kf, kt) in lin else t
    g, gC = (1 / C0, 1 / C0) if kind == 'PM' else (1j / C0, -1j / C0)
    for m in sorted(cl):
        tot = 0
        for n in range(-N, N + 1):
            if abs(n + m) <= N:
                tot = tot + E['S', 'L', n + m] * E['S', 'R', n]
        c.eq('BA(%d)' % m, out.get((el.BA.o, cl[m]), 0) * BIG, (g * tot + gC * tot) * (1 if m else .5) * BIG, scale=sc)
        if m == 0:
            continue
        for (p, q, j), k in sorted(opt.items()):
            n = j - m if q == 'L' else j + m
            w = (g if q == 'L' else gC) * E['S', 'R' if q == 'L' else 'L', n] if abs(n) <= N else 0
            c.eq('d BA(%d)/d E%s%d' % (m, q, j), lin.get((k, cl[m]), 0) * BIG, w * BIG, scale=sc)


@S.case('a moving mirror modulates the phase of its reflection: 2 k cos(AOI) z, opposite from the back', samples=50,
        arr=False, limit=(40, 200))
def _(c):
    s = OSys(c)
    u = c.real('u', .05, .95)
    r, t = (1 - u * u) / (1 + u * u), 2 * u / (1 + u * u)
    flip = c.choice('flip', [False, True])
    phased = c.choice("phase", [0, 1])
    ph = c.real("ph") if phased else 0
    aoi = c.choice('AOI', [0, 45, 'any'])
    N = c.choice('N', [1, 2]) if aoi == 0 else 1
    deg = aoi if aoi != 'any' else c.real('aoi', 1, 44)
    el = s.add('m', optics.Mirror(T_hr=t * t, AOI_deg=deg, flip_sign=flip, phase_rad=ph))
    f, F, opt, cl = harmonics(c, s, N, 'S')
    ps = [el.po_FrA, el.po_FrB, el.po_BkA, el.po_BkB] if deg != 0 or aoi else [el.po_Fr, el.po_Bk]
    name = c.choice('port', ['FrA', 'FrB', 'BkA', 'BkB'] if len(ps) == 4 else ['Fr', 'Bk'])
    other = {'FrA': 'FrB', 'FrB': 'FrA', 'BkA': 'BkB', 'BkB': 'BkA', 'Fr': 'Fr', 'Bk': 'Bk'}[name]
    through = {'FrA': 'BkA', 'FrB': 'BkB', 'BkA': 'FrA', 'BkB': 'FrB', 'Fr': 'Bk', 'Bk': 'Fr'}[name]
    rr = orecord(el, ps, set(opt.values()), set(cl.values()))
    pin = getattr(el, 'po_' + name).i
    E = optfields(c, opt, lambda k: True)
    x = drives(c, cl, None, 'z')
    lam = s.lam
    val = {(pin, opt[k]): v for k, v in E.items()}
    val.update({(el.Z.d.o, cl[m]): v for m, v in x.items()})
    out = evaluate(c, rr, val)
    sgn = 1 if name.startswith('Fr') else -1
    refl = (-r if flip else r) * sgn
    ca = 1 if aoi == 0 else (1 / 2 ** .5 if aoi == 45 else cos(deg * np.pi / 180 if not c.sym else deg * s.sys.symbols.pi / 180))
    k2 = 2 * ca * s.sys.symbols.pi * 2 * s.iw
    sc = None if c.sym else (1 + sum(abs(v) for v in E.values())) * (1 + abs(k2) * sum(abs(v) for v in x.values()))
    for k in sorted(opt):
        p, q, n = k
        e = exp(1j * sgn * ph) if q == 'L' else exp(-1j * sgn * ph)
        if not phased:
            e = 1
        w = refl * e * (E[k] + sidebands(E, x, p, q, n, N, -sgn * 1j * k2, sgn * 1j * k2))
        c.eq('reflected %s%d' % (q, n), out.get((getattr(el, 'po_' + other).o, opt[k]), 0), w, scale=sc)
        c.eq('transmitted %s%d' % (q, n), out.get((getattr(el, 'po_' + through).o, opt[k]), 0), t * E[k], scale=sc)


def cosd(c, s, deg):
    return cos(deg * np.pi / 180 if not c.sym else deg * s.sys.symbols.pi / 180)


def force_setup(c, aoi, deg, flip=False, ph=0, tag=''):
    s = OSys(c)
    N = c.choice('N', [1, 2]) if aoi == 0 and not tag else 1
    u = c.real('u', .05, .95)
    r, t = (1 - u * u) / (1 + u * u), 2 * u / (1 + u * u)
    el = s.add('m', optics.Mirror(T_hr=t * t, AOI_deg=deg, flip_sign=flip, phase_rad=ph))
    f, F, opt, cl = harmonics(c, s, N, 'S')
    ps = [el.po_FrA, el.po_FrB, el.po_BkA, el.po_BkB] if deg is not 0 else [el.po_Fr, el.po_Bk]  # noqa
    rr = orecord(el, ps, set(opt.values()), set(cl.values()))
    E = optfields(c, opt, lambda k: True)
    return s, N, r, el, opt, cl, rr, E


@S.case('radiation force of one beam is a multiple of its power at every frequency, scaling with cos(AOI)', arr=False, samples=40)
def _(c):
    aoi = c.choice('AOI', [0, 45, 'any'])
    deg = aoi if aoi != 'any' else c.real('aoi', 1, 44)
    s, N, r, el, opt, cl, rr, E = force_setup(c, aoi, deg, c.choice('flip', [False, True]))
    name = c.choice('port', ['Fr', 'Bk'] if aoi == 0 else ['FrA', 'FrB', 'BkA', 'BkB'])
    pin = getattr(el, 'po_' + name).i
    out = evaluate(c, rr, {(pin, opt[k]): v for k, v in E.items()})
    power = {m: sum((E['S', 'L', n + m] * E['S', 'R', n] for n in range(-N, N + 1) if abs(n + m) <= N), 0) for m in cl}
    one = {(pin, opt['S', q, 0]): 1 for q in 'LR'}
    per = evaluate(c, rr, one).get((el.Z.F.i, cl[0]), 0)      # force of a unit of power
    sc = None if c.sym else 1 + sum(abs(v) for v in E.values()) ** 2
    for m in sorted(cl):
        c.eq('force at %d' % m, out.get((el.Z.F.i, cl[m]), 0) * BIG, per * (2 if m else 1) * power[m] * BIG, scale=sc)
    if aoi == 'any':
        deg2 = c.real('aoi2', 1, 44)
        s2, N2, r2, el2, opt2, cl2, rr2, E2 = force_setup(c, aoi, deg2, el.flip_sign, tag='2')
        pin2 = getattr(el2, 'po_' + name).i
        per2 = evaluate(c, rr2, {(pin2, opt2['S', q, 0]): 1 for q in 'LR'}).get((el2.Z.F.i, cl2[0]), 0)
        c.eq('cos(AOI)', per * cosd(c, s, deg2) * BIG, per2 * cosd(c, s, deg) * BIG)
    # linear response: half of each pair
    lin = {}
    for pf, kf, pt, kt, v, vp in rr.edges:
        if pt == el.Z.F.i and pf == pin:
            t = v
            for x in vp:
                t = t * {(pin, opt[k]): w for k, w in E.items()}.get(x, 0)
            lin[kf, kt] = lin[kf, kt] + t if (kf, kt) in lin else t
    for m in sorted(cl):
        if m:
            for (p, q, j), k in sorted(opt.items()):
                n = j - m if q == 'L' else j + m
                w = per * E['S', 'R' if q == 'L' else 'L', n] if abs(n) <= N else 0
                c.eq('d F(%d)/d E%s%d' % (m, q, j), lin.get((k, cl[m]), 0) * BIG, w * BIG, scale=sc)


def unit_forces(c):
    s, N, r, el, opt, cl, rr, E = force_setup(c, 0, 0, tag='u')
    f = {}
    for name in ['Fr', 'Bk']:
        pin = getattr(el, 'po_' + name).i
        f[name] = evaluate(c, rr, {(pin, opt['S', q, 0]): 1 for q in 'LR'}).get((el.Z.F.i, cl[0]), 0) * BIG
    return f, r


@S.case('radiation force: momentum of the reflected light', arr=False, samples=20)
def _(c):
    f, r = unit_forces(c)
    c.eq('force is 2 R P / c', f['Fr'] * f['Fr'], (2 * r * r * BIG / C0) ** 2)


@S.case('radiation force: front and back push against each other', arr=False, samples=20)
def _(c):
    f, r = unit_forces(c)
    c.eq('sum of forces', f['Fr'] + f['Bk'], 0, scale=None if c.sym else 1)


@S.case('a mirror that reflects nothing feels no force and modulates nothing', arr=False, samples=6)
def _(c):
    s = OSys(c)
    el = s.add('m', optics.Mirror(T_hr=1))
    f, F, opt, cl = harmonics(c, s, 1, 'S')
    rr = orecord(el, [el.po_Fr, el.po_Bk], set(opt.values()), set(cl.values()))
    E = optfields(c, opt, lambda k: True)
    out = evaluate(c, rr, dict([((el.po_Fr.i, opt[k]), v) for k, v in E.items()] +
                               [((el.Z.d.o, cl[m]), c.cplx('z%d' % m)) for m in sorted(cl) if m]))
    c.eq('force', sum((v for (p, k), v in sorted(out.items(), key=lambda t: kname(t[0][1])) if p == el.Z.F.i), 0), 0)
    for k in sorted(opt):
        c.eq('reflected', out.get((el.po_Fr.o, opt[k]), 0), 0)
        c.eq('transmitted', out.get((el.po_Bk.o, opt[k]), 0), E[k])


@S.case('modulated light on a detector: amplitude gives the relative power, phase gives nothing', arr=False, samples=20)
def _(c):
    s = OSys(c, F_AC=c.pos('fac'))
    P = c.pos('P')
    u = c.real('u', .05, .95)
    kind, drv = c.choice('drive', [('AM', 'DrvAM'), ('PM', 'DrvPM'), ('AMPM', 'DrvAM'), ('AMPM', 'DrvPM')])
    las = s.add('las', optics.Laser(F=s.Fo, power_W=P, phase_rad=c.real('ph'), polarization=c.choice('pol', 'SP')))
    mod = s.add('mod', getattr(optics, kind)())
    m = s.add('m', optics.Mirror(T_hr=u * u))
    sp = s.add('sp', optics.Space(L_m=c.real('L'), L_detune_m=0))
    pd = s.add('pd', optics.PD())
    if c.choice('reverse', [0, 1]):
        s.sys.bond(las.po_Fr, mod.po_Bk)
        s.sys.bond(mod.po_Fr, sp.po_Fr)
    else:
        s.sys.bond(las.po_Fr, mod.po_Fr)
        s.sys.bond(mod.po_Bk, sp.po_Fr)
    s.sys.bond(sp.po_Bk, m.po_Fr)
    s.sys.bond(m.po_Bk, pd.po_Fr)
    dc = s.add('dc', readouts.DCReadout(port=pd.Wpd.o))
    ac = s.add('ac', readouts.ACReadout(portD=getattr(mod, drv).i, portN=pd.Wpd.o, include_noise=False))
    c.eq('mean', dc.DC_readout, P * u * u)
    A = ac.AC_sensitivity
    if drv == 'DrvAM':
        c.eq('relative power', A * conj(A), (P * u * u) ** 2)
    else:
        c.eq('no power', A, 0, scale=None if c.sym else P)


def conj(z):
    return z.conjugate() if hasattr(z, 'conjugate') else z


@S.case('a moving mirror of an interferometer: the response is the derivative of the power', arr=False, samples=20)
def _(c):
    s = OSys(c, wavelen=1., F_AC=c.pos('fac'))
    P = c.pos('P')
    a, b = c.real('a'), c.real('b')
    which = c.choice('moving', ['X', 'Y'])
    facing = c.choice('facing', ['Fr', 'Bk'])
    bs = s.add('bs', optics.Mirror(T_hr=.5, AOI_deg=45))
    las = s.add('las', optics.Laser(F=s.Fo, power_W=P))
    mx, my = s.add('mx', optics.Mirror(T_hr=0, phase_rad=a)), s.add('my', optics.Mirror(T_hr=0, phase_rad=b))
    pd = s.add('pd', optics.PD())
    s.sys.bond(las.po_Fr, bs.po_FrA)
    s.sys.bond(bs.po_BkA, getattr(mx, 'po_' + facing))
    s.sys.bond(bs.po_FrB, getattr(my, 'po_' + facing))
    s.sys.bond(bs.po_BkB, pd.po_Fr)
    mv = mx if which == 'X' else my
    dc = s.add('dc', readouts.DCReadout(port=pd.Wpd.o))
    ac = s.add('ac', readouts.ACReadout(portD=mv.Z.d.o, portN=pd.Wpd.o, include_noise=False))
    D = a - b
    # at the dark or the bright port, by the phases of the beamsplitter
    pw = dc.DC_readout
    c.eq('power', (pw - P / 2) * (pw - P / 2), (P * cos(D) / 2) * (P * cos(D) / 2))
    got = ac.AC_sensitivity
    k2 = 2 * 2 * s.sys.symbols.pi
    c.eq('dP/dz', got * cos(D), (pw - P / 2) * k2 * sin(D) * (1 if which == 'X' else -1), scale=None if c.sym else P * 20)
