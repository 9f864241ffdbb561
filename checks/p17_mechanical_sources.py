"""P17: mechanical sources, meters and thermal / driven noise."""
import numpy as np
from vc.harness import Suite
from checks.elec import Sys, record, ckey, freqs, drive, w
from phasor import mechanical as m, readouts

S = Suite('P17')
ONE = ['one-sided', 'one sided', 'one', 'single-sided', 'single sided', 'single']
TWO = ['two-sided', 'two sided', 'two', 'double-sided', 'double sided', 'double']


def mech(c, el, ports, key, oth, *a, **kw):
    return drive(c, el, ports, key, oth, *a, Z0=1, **kw)


@S.case('displacement source')
def _(c):
    s = Sys(c)
    el = s.add('el', m.DisplacementSource())
    key, f, oth = freqs(c, s)
    d, F, a, x, y, sc, r = mech(c, el, [el.pm_A], key, oth, [el.d.i])
    c.eq('d = drive whatever the load', d[0], x[0], scale=sc)


@S.case('force source')
def _(c):
    s = Sys(c)
    el = s.add('el', m.ForceSource())
    key, f, oth = freqs(c, s)
    d, F, a, x, y, sc, r = mech(c, el, [el.pm_A], key, oth, [el.F.i])
    c.eq('F out = drive whatever the load', -F[0], x[0], scale=sc)


@S.case('balanced displacement source')
def _(c):
    s = Sys(c)
    el = s.add('el', m.DisplacementSourceBalanced())
    key, f, oth = freqs(c, s)
    d, F, a, x, y, sc, r = mech(c, el, [el.pm_A, el.pm_B], key, oth, [el.d.i, el.F.i])
    c.eq('d_A - d_B = drive', d[0] - d[1], x[0], scale=sc)
    c.eq('net force out = force drive', -(F[0] + F[1]), x[1], scale=sc)


@S.case('driven port: force in, displacement out', samples=15)
def _(c):
    """a ForceToDisplacement port on a node: adds the driven force, reads the displacement"""
    k, R = c.pos('k'), c.pos('R')
    M = c.pos('M')
    s = Sys(c)
    drv = s.add('drv', m.MechanicalPortDriven())
    sp = s.add('sp', m.TerminatorSpring(elasticity_N_m=k))
    dm = s.add('dm', m.TerminatorDamper(resistance_Ns_m=R))
    ms = s.add('ms', m.Mass(mass_kg=M))
    drv.bond(sp.pm_A)
    drv.bond(dm.pm_A)
    drv.bond(ms.pm_A)
    ro = s.add('ro', readouts.ACReadout(portD=drv.F.i, portN=drv.d.o))
    W = w(c, c.pos('f_AC'))
    if c.sym:
        c.assume('!=', W * W * M - 1)
        c.assume('!=', k - 1)
    c.eq('susceptibility', ro.AC_sensitivity, 1 / (k + 1j * W * R - W * W * M))


@S.case('driven port: a driven force adds its wave to the port, the readout is the sum of the waves outside', samples=15)
def _(c):
    k = c.pos('k')
    if c.sym:
        c.assume('!=', k - 1)
    F = c.real('F')
    s = Sys(c)
    drv = s.add('drv', m.MechanicalPortDriven())
    sp = s.add('sp', m.TerminatorSpring(elasticity_N_m=k))
    drv.bond(sp.pm_A)
    md = s.add('md', m.DisplacementReadout(terminal=sp.pm_A))
    r1 = s.add('r1', readouts.ACReadout(portD=drv.F.i, portN=drv.d.o))
    r2 = s.add('r2', readouts.ACReadout(portD=drv.F.i, portN=md.d.o))
    c.eq('the port reads the displacement of the bonded point', r1.AC_sensitivity, r2.AC_sensitivity)
    key, f, oth = freqs(c, s)
    r = record(drv, {key} | set(oth))
    M = r.matrix()
    c.eq('unit wave per force', M[(drv.F.i, key), (drv.o, key)], 1)
    for o in oth:
        if o != key:
            c.eq('same frequency only', M.get(((drv.F.i, key), (drv.o, o)), 0), 0)


def node(c, s, n=2):
    ks, els = [], []
    for i in range(n):
        k = c.pos('k%d' % i)
        if c.sym:
            c.assume('!=', k - 1)
        ks.append(k)
        els.append(s.add('k%d' % i, m.TerminatorSpring(elasticity_N_m=k)))
    return ks, els


@S.case('sources and meters end to end', samples=12)
def _(c):
    s = Sys(c)
    n = c.choice('n', [1, 2] if c.sym else [1, 2, 3])
    kind = c.choice('kind', ['d', 'F'])
    ks, els = node(c, s, n)
    src = s.add('src', m.DisplacementSource() if kind == 'd' else m.ForceSource())
    for e in els:
        src.pm_A.bond(e.pm_A)
    drv = src.d.i if kind == 'd' else src.F.i
    K = sum(ks)
    d = 1 if kind == 'd' else 1 / K
    md = s.add('md', m.DisplacementReadout(terminal=src.pm_A))
    mF = s.add('mF', m.ForceReadout(terminal=src.pm_A))
    rd = s.add('rd', readouts.ACReadout(portD=drv, portN=md.d.o))
    rF = s.add('rF', readouts.ACReadout(portD=drv, portN=mF.F.o))
    rs = []
    for i, e in enumerate(els):
        mm = s.add('m%d' % i, m.ForceReadout(terminal=e.pm_A, direction='in'))
        m2 = s.add('n%d' % i, m.DisplacementReadout(terminal=e.pm_A, terminal_N=src.pm_A))
        rs.append((s.add('a%d' % i, readouts.ACReadout(portD=drv, portN=mm.F.o)),
                   s.add('b%d' % i, readouts.ACReadout(portD=drv, portN=m2.d.o))))
    c.eq('node displacement', rd.AC_sensitivity, d)
    c.eq('source force', rF.AC_sensitivity, d * K)
    for i, (a, b) in enumerate(rs):
        c.eq('force %d' % i, a.AC_sensitivity, d * ks[i])
        c.eq('difference along a bond %d' % i, b.AC_sensitivity, 0, scale=abs(d) if not c.sym else None)


@S.case('DC equilibrium: displacement and force sources superpose', samples=12, arr=False)
def _(c):
    k1, k2 = c.pos('k1'), c.pos('k2')
    d0, F0 = c.real('d0'), c.real('F0')
    s = Sys(c)
    ds = s.add('ds', m.DisplacementSource(d_DC=d0))
    fs = s.add('fs', m.ForceSource(F_DC=F0))
    s1 = s.add('s1', m.SeriesSpring(elasticity_N_m=k1))
    s2 = s.add('s2', m.TerminatorSpring(elasticity_N_m=k2))
    ds.pm_A.bond(s1.pm_A)
    s1.pm_B.bond(s2.pm_A)
    s1.pm_B.bond(fs.pm_A)
    md = s.add('md', m.DisplacementReadout(terminal=s2.pm_A))
    mF = s.add('mF', m.ForceReadout(terminal=s2.pm_A, direction='in'))
    mo = s.add('mo', m.ForceReadout(terminal=ds.pm_A, direction='out'))
    if c.sym:
        c.assume('!=', k2 - 1)
    d = (F0 + k1 * d0) / (k1 + k2)
    sc = None if c.sym else (1 + abs(d0) + abs(F0)) * (1 + k1 + k2) * (1 + 1 / k1 + 1 / k2)
    c.eq('displacement', md.DC_readout, d, scale=sc)
    c.eq('force in', mF.DC_readout, k2 * d, scale=sc)
    c.eq('force out', mo.DC_readout, k1 * (d0 - d), scale=sc)


@S.case('balanced source DC', samples=12, arr=False)
def _(c):
    k1, k2 = c.pos('k1'), c.pos('k2')
    d0, F0 = c.real('d0'), c.real('F0')
    s = Sys(c)
    b = s.add('b', m.DisplacementSourceBalanced(d_DC=d0, F_DC=F0))
    r1 = s.add('r1', m.TerminatorSpring(elasticity_N_m=k1))
    r2 = s.add('r2', m.TerminatorSpring(elasticity_N_m=k2))
    b.pm_A.bond(r1.pm_A)
    b.pm_B.bond(r2.pm_A)
    md = s.add('md', m.DisplacementReadout(terminal=r1.pm_A, terminal_N=r2.pm_A))
    m1 = s.add('m1', m.ForceReadout(terminal=r1.pm_A, direction='in'))
    m2 = s.add('m2', m.ForceReadout(terminal=r2.pm_A, direction='in'))
    sc = None if c.sym else (1 + abs(d0) + abs(F0)) * (1 + k1 + k2) * (1 + 1 / k1 + 1 / k2)
    c.eq('difference', md.DC_readout, d0, scale=sc)
    c.eq('net force', m1.DC_readout + m2.DC_readout, F0, scale=sc)
    c.eq('F/k', m1.DC_readout / k1 - m2.DC_readout / k2, d0, scale=sc)


@S.case('unbonded ports are free')
def _(c):
    k1 = c.pos('k1')
    s = Sys(c)
    v = s.add('v', m.DisplacementSource())
    r1 = s.add('r1', m.SeriesSpring(elasticity_N_m=k1))
    v.pm_A.bond(r1.pm_A)
    md = s.add('md', m.DisplacementReadout(terminal=r1.pm_B))
    i = s.add('i', m.ForceReadout(terminal=v.pm_A, direction='out'))
    ro = s.add('ro', readouts.ACReadout(portD=v.d.i, portN=md.d.o))
    ri = s.add('ri', readouts.ACReadout(portD=v.d.i, portN=i.F.o))
    c.eq('follows', ro.AC_sensitivity, 1)
    c.eq('no force', ri.AC_sensitivity, 0, scale=1)


# ------------------------------------------------------------------ noise
def kT4(s):
    return 4 * s.sys.symbols.kB_J_K * s.sys.symbols.temp_K


def body(c, which):
    """a mechanical network at one point and its stiffness Y"""
    s = Sys(c, **({'sided_spectra': 2} if c.choice('spectra', [1, 2]) == 2 else {}))
    f = c.pos('f_AC')
    W = w(c, f)
    R, k = c.pos('R'), c.pos('k')
    if c.sym:
        c.assume('!=', k - 1)
    if which == 'damper':
        e = s.add('e', m.TerminatorDamper(resistance_Ns_m=R))
        return s, W, e.pm_A, 1j * W * R
    if which == 'damper || spring':
        e = s.add('e', m.TerminatorDamper(resistance_Ns_m=R))
        e2 = s.add('e2', m.TerminatorSpring(elasticity_N_m=k))
        e.pm_A.bond(e2.pm_A)
        return s, W, e.pm_A, 1j * W * R + k
    if which == 'damper + spring':
        e = s.add('e', m.SeriesDamper(resistance_Ns_m=R))
        e2 = s.add('e2', m.TerminatorSpring(elasticity_N_m=k))
        e.pm_A.bond(e2.pm_A)
        return s, W, e.pm_B, 1 / (1 / (1j * W * R) + 1 / k)
    if which == 'mass + damper':
        M = c.pos('M')
        if c.sym:
            c.assume('!=', W * W * M - 1)
        e = s.add('e', m.SeriesDamper(resistance_Ns_m=R))
        e2 = s.add('e2', m.Mass(mass_kg=M))
        e.pm_A.bond(e2.pm_A)
        return s, W, e.pm_B, 1 / (1 / (1j * W * R) - 1 / (W * W * M))
    phi = c.pos('phi')
    if which == 'lossy spring':
        e = s.add('e', m.TerminatorSpring(elasticity_N_m=k, loss_angle_by_freq=phi))
        return s, W, e.pm_A, k * (1 + 1j * phi)
    if which == 'lossy spring(f)':
        e = s.add('e', m.TerminatorSpring(elasticity_N_m=k, loss_angle_by_freq=lambda F: phi * F))
        return s, W, e.pm_A, k * (1 + 1j * phi * f)
    M = c.pos('M')
    if c.sym:
        c.assume('!=', W * W * M - 1)
    e = s.add('e', m.SeriesSpring(elasticity_N_m=k, loss_angle_by_freq=phi))
    e2 = s.add('e2', m.Mass(mass_kg=M))
    e3 = s.add('e3', m.TerminatorShorted())
    e.pm_A.bond(e2.pm_A)
    e.pm_B.bond(e3.pm_A)
    return s, W, e.pm_A, k * (1 + 1j * phi) - W * W * M


def im(c, z):
    z = z if c.sym else np.asarray(z, dtype=complex)
    return (z - np.conj(z)) / 2j


for _which in ['damper', 'damper || spring', 'damper + spring', 'mass + damper', 'lossy spring', 'lossy spring(f)', 'lossy spring - mass']:
    def _mk(which):
        @S.case('free displacement noise of %s is 4 k T Im(-1/Y)/w' % which, samples=20)
        def _(c):
            s, W, p, Y = body(c, which)
            src = s.add('I', m.ForceSource())
            src.pm_A.bond(p)
            md = s.add('md', m.DisplacementReadout(terminal=p))
            ro = s.add('ro', readouts.ACReadout(portD=src.F.i, portN=md.d.o))
            c.eq('susceptibility', ro.AC_sensitivity, 1 / Y)
            two = s.sys.sided_spectra if s.sys.sided_spectra == 2 else 1
            c.eq('PSD', ro.AC_PSD * 1e23, -1e23 * kT4(s) * im(c, 1 / Y) / W / two)

        @S.case('clamped force noise of %s is 4 k T Im(Y)/w' % which, samples=20)
        def _(c):
            s, W, p, Y = body(c, which)
            src = s.add('I', m.DisplacementSource())
            src.pm_A.bond(p)
            md = s.add('md', m.ForceReadout(terminal=src.pm_A, direction='out'))
            ro = s.add('ro', readouts.ACReadout(portD=src.d.i, portN=md.F.o))
            c.eq('stiffness', ro.AC_sensitivity, Y)
            two = s.sys.sided_spectra if s.sys.sided_spectra == 2 else 1
            c.eq('PSD', ro.AC_PSD * 1e23, 1e23 * kT4(s) * im(c, Y) / W / two)
    _mk(_which)


@S.case('switching thermal noise off removes it; lossless elements have none')
def _(c):
    off = c.choice('off', [0, 1])
    s = Sys(c, include_johnson_noise=bool(1 - off))
    k, R, phi = c.pos('k'), c.pos('R'), c.pos('phi')
    kinds = {'TD': lambda: m.TerminatorDamper(resistance_Ns_m=R), 'SD': lambda: m.SeriesDamper(resistance_Ns_m=R),
             'TS': lambda: m.TerminatorSpring(elasticity_N_m=k, loss_angle_by_freq=phi),
             'SS': lambda: m.SeriesSpring(elasticity_N_m=k, loss_angle_by_freq=phi)}
    less = {'S': lambda: m.TerminatorSpring(elasticity_N_m=k), 'SS': lambda: m.SeriesSpring(elasticity_N_m=k),
            'M': lambda: m.Mass(mass_kg=k), 'SM': lambda: m.SeriesMass(mass_kg=k)}
    pick = kinds if off else less
    kind = c.choice('kind', sorted(pick))
    el = s.add('el', pick[kind]())
    V = s.add('V', m.DisplacementSource())
    V.pm_A.bond(el.pm_A)
    mm = s.add('m', m.ForceReadout(terminal=V.pm_A, direction='out'))
    ro = s.add('ro', readouts.ACReadout(portD=V.d.i, portN=mm.F.o))
    c.eq('no noise', ro.AC_PSD, 0, scale=1e-30)


@S.case('displacement and force noise sources', samples=30)
def _(c):
    kind = c.choice('kind', ['d', 'F'])
    sided = c.choice('sided', ONE + TWO)
    spectra = c.choice('spectra', [1, 2])
    s = Sys(c, include_johnson_noise=False, sided_spectra=spectra)
    k1, k2, k3, N0, N1 = c.pos('k1'), c.pos('k2'), c.pos('k3'), c.pos('N0'), c.pos('N1')
    if c.sym:
        for k in (k1, k3):
            c.assume('!=', k - 1)
    f = c.pos('f_AC')
    psd = lambda F: N0 + N1 * F * F   # noqa
    e1 = s.add('e1', m.TerminatorSpring(elasticity_N_m=k1))
    e2 = s.add('e2', m.SeriesSpring(elasticity_N_m=k2))
    e3 = s.add('e3', m.TerminatorSpring(elasticity_N_m=k3))
    e1.pm_A.bond(e2.pm_A)
    e2.pm_B.bond(e3.pm_A)
    k23 = k2 * k3 / (k2 + k3)
    far = k2 / (k2 + k3)
    from phasor.mechanical import noise
    if kind == 'd':
        p = [e1.pm_A, e2.pm_A][c.choice('port', [0, 1])]
        s.add('n', noise.DisplacementFluctuation(port=p, dsq_Hz_by_freq=psd, sided=sided))
        h = k1 / (k1 + k23) * far
    else:
        s.add('n', noise.ForceFluctuation(portA=e1.pm_A, portB=e2.pm_A, Fsq_Hz_by_freq=psd, sided=sided))
        h = far / (k1 + k23)
    md = s.add('md', m.DisplacementReadout(terminal=e3.pm_A))
    mf = s.add('mf', m.ForceReadout(terminal=e3.pm_A, direction='in'))
    rd = s.add('rd', readouts.ACReadout(portD=e1.pm_A.i, portN=md.d.o))
    rf = s.add('rf', readouts.ACReadout(portD=e1.pm_A.i, portN=mf.F.o))
    two = 1 if sided in TWO else 2
    adj = 2 if spectra == 1 else 1
    P = (N0 + N1 * f * f) / two * adj
    c.eq('displacement noise', rd.AC_PSD, P * h * h)
    c.eq('force noise', rf.AC_PSD, P * h * h * k3 * k3)


@S.case('meters outside of the fluctuation of their own port', samples=30)
def _(c):
    s = Sys(c, include_johnson_noise=False)
    k1, k2, N = c.pos('k1'), c.pos('k2'), c.pos('N')
    if c.sym:
        for k in (k1, k2):
            c.assume('!=', k - 1)
    e1 = s.add('e1', m.TerminatorSpring(elasticity_N_m=k1))
    e2 = s.add('e2', m.TerminatorSpring(elasticity_N_m=k2))
    e1.pm_A.bond(e2.pm_A)
    from phasor.mechanical import noise
    s.add('n', noise.DisplacementFluctuation(port=e1.pm_A, dsq_Hz_by_freq=lambda F: N, sided='one-sided'))
    which = c.choice('which', [0, 1])
    t, o = (e1, e2) if which == 0 else (e2, e1)
    mV = s.add('mV', m.DisplacementReadout(terminal=t.pm_A))
    mD = s.add('mD', m.DisplacementReadout(terminal=t.pm_A, terminal_N=o.pm_A))
    mI = s.add('mI', m.ForceReadout(terminal=t.pm_A, direction='in'))
    rV = s.add('rV', readouts.ACReadout(portD=e1.pm_A.i, portN=mV.d.o))
    rD = s.add('rD', readouts.ACReadout(portD=e1.pm_A.i, portN=mD.d.o))
    rI = s.add('rI', readouts.ACReadout(portD=e1.pm_A.i, portN=mI.F.o))
    c.eq('displacement', rV.AC_PSD, N * (k1 / (k1 + k2))**2)
    c.eq('difference of two ends of a bond', rD.AC_PSD, 0, scale=N)
    c.eq('force', rI.AC_PSD, N * (k1 * k2 / (k1 + k2))**2)
