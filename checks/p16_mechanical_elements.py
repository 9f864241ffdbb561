"""P16: mechanical elements: d = a + b, F (into the element) = (a - b)/Zm, F = Y(f) d."""
import numpy as np
from vc.harness import Suite
from checks.elec import Sys, record, ckey, freqs, drive, w
from phasor import mechanical as m, readouts

S = Suite('P16', assumptions=['ZConverter regularises its admittances by 1e-18, which is treated as exact'])


def mech(c, el, ports, key, oth, **kw):
    return drive(c, el, ports, key, oth, Z0=1, **kw)


def stiffness(c, kind, f):
    W = w(c, f)
    if kind == 'Damper':
        R = c.pos('R')
        return dict(resistance_Ns_m=R), 1j * W * R
    if kind == 'Spring':
        k = c.pos('k')
        return dict(elasticity_N_m=k), k
    if kind == 'LossySpring':
        k, phi = c.pos('k'), c.nonneg('phi')
        sgn = 1 if c.choice('sign', [1, -1]) == 1 else -1
        return dict(elasticity_N_m=k, loss_angle_by_freq=phi), k * (1 + 1j * phi * np.sign(f))
    if kind == 'LossySpring(f)':
        k, p0, p1 = c.pos('k'), c.real('p0'), c.real('p1')
        return dict(elasticity_N_m=k, loss_angle_by_freq=lambda F: p0 + p1 * F), k * (1 + 1j * (p0 + p1 * f))
    M = c.pos('M')
    return dict(mass_kg=M), -W**2 * M


CLS = {'Damper': ('TerminatorDamper', 'SeriesDamper'), 'Spring': ('TerminatorSpring', 'SeriesSpring'),
       'LossySpring': ('TerminatorSpring', 'SeriesSpring'), 'LossySpring(f)': ('TerminatorSpring', 'SeriesSpring'),
       'Mass': ('Mass', 'SeriesMass')}


def _mk(kind):
    from phasor.mechanical import passive

    @S.case('%s to ground: F = Y d' % kind)
    def _(c):
        s = Sys(c)
        key, f, oth = freqs(c, s)
        kw, Y = stiffness(c, kind, f)
        el = s.add('el', getattr(passive, CLS[kind][0])(**kw))
        d, F, a, x, y, sc, r = mech(c, el, [el.pm_A], key, oth)
        c.eq('F = Y d', F[0], Y * d[0], scale=sc)

    @S.case('%s between two points: F = Y (d_A - d_B), through force' % kind)
    def _(c):
        s = Sys(c)
        key, f, oth = freqs(c, s)
        kw, Y = stiffness(c, kind, f)
        el = s.add('el', getattr(passive, CLS[kind][1])(**kw))
        d, F, a, x, y, sc, r = mech(c, el, [el.pm_A, el.pm_B], key, oth)
        c.eq('F = Y (d_A - d_B)', F[0], Y * (d[0] - d[1]), scale=sc)
        c.eq('through', F[0], -F[1], scale=sc)


for _k in CLS:
    _mk(_k)


@S.case('mobility hooks define the law')
def _(c):
    from phasor.mechanical import passive
    Y = c.cplx('Y')
    kind = c.choice('kind', ['TerminatorMobility', 'SeriesMobility'])
    seen = []
    cls = type(str('X'), (getattr(passive, kind),), {'mobility_by_freq': lambda self, F: (seen.append(F), Y)[1]})
    s = Sys(c)
    el = s.add('el', cls())
    f1 = c.pos('f1')
    n = c.choice('n', [1, -1, 0, 3])
    key = ckey({s.freq('F1', f1): n} if n else {})
    two = kind.startswith('Series')
    d, F, a, x, y, sc, r = mech(c, el, [el.pm_A, el.pm_B] if two else [el.pm_A], key, [])
    for G in seen:
        c.eq('evaluated at the frequency of the key', G, n * f1)
    c.eq('F = Y d', F[0], Y * (d[0] - d[1] if two else d[0]), scale=sc)
    if two:
        c.eq('through', F[0], -F[1], scale=sc)


@S.case('free and rigid terminations')
def _(c):
    s = Sys(c)
    kind = c.choice('kind', ['TerminatorOpen', 'TerminatorShorted'])
    el = s.add('el', getattr(m, kind)())
    key, f, oth = freqs(c, s)
    d, F, a, x, y, sc, r = mech(c, el, [el.pm_A], key, oth)
    c.eq(kind, F[0] if kind == 'TerminatorOpen' else d[0], 0, scale=sc)


@S.case('junction of N ports: one displacement, no net force')
def _(c):
    N = c.choice('N', [2, 3, 4, 5, 7])
    s = Sys(c)
    el = s.add('J', m.Connection(N_ports=N))
    key, f, oth = freqs(c, s)
    d, F, a, x, y, sc, r = mech(c, el, el.ports_mechanical, key, oth)
    for i in range(1, N):
        c.eq('d_%d = d_0' % i, d[i], d[0], scale=sc)
    c.eq('sum of forces', sum(F), 0, scale=sc)


@S.case('cable delays and attenuates', arr=False)
def _(c):
    s = Sys(c)
    t, L = c.nonneg('t'), c.real('Loss', lo=0, hi=1)
    from phasor.mechanical import elements
    el = s.add('el', elements.Cable(delay_s=t, Loss=L))
    key, f, oth = freqs(c, s)
    d, F, a, x, y, sc, r = mech(c, el, [el.pm_A, el.pm_B], key, oth)
    g = np.exp(-2j * np.pi * f * t) * (1 - L)**.5
    c.eq('B follows A', d[1] - a[1], g * a[0], scale=sc)
    c.eq('A follows B', d[0] - a[0], g * a[1], scale=sc)


@S.case('rigid lever (one axis): d_A - d_B = D theta, forces balance, torque = -D F_A', arr=False)
def _(c):
    s = Sys(c)
    D = c.real('D')
    from phasor.mechanical import xyz
    el = s.add('el', xyz.Moment1D(displacement=D))
    key, f, oth = freqs(c, s)
    d, F, a, x, y, sc, r = mech(c, el, [el.pm_A, el.pm_B, el.L], key, oth)
    c.eq('d_A - d_B = D theta', d[0] - d[1], D * d[2], scale=sc)
    c.eq('net force', F[0] + F[1], 0, scale=sc)
    c.eq('torque', F[2], -D * F[0], scale=sc)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


@S.case('rigid lever (three axes): d_A - d_B = D x theta, forces balance, torque = D x F_A', samples=20, arr=False)
def _(c):
    s = Sys(c)
    D = []
    for i in range(3):
        if c.choice('zero%d' % i, [1, 0] if i else [1]):
            D.append(c.real('D%d' % i, nz=True))
        else:
            D.append(0)
    if c.sym:   # couplings that vanish at special lengths are inserted or dropped: same map
        c.assume('!=', sum(x * x for x in D) - 2)
    from phasor.mechanical import xyz
    el = s.add('el', xyz.XYZMomentDriver(displacementXYZ=D))
    f1 = c.pos('f1')
    key = ckey({s.freq('F1', f1): 1})
    P = [getattr(q, ax) for q in (el.pm_A, el.pm_B, el.L) for ax in 'XYZ']
    d, F, a, x, y, sc, r = mech(c, el, P, key, [])
    dA, dB, th = d[:3], d[3:6], d[6:]
    FA, FB, T = F[:3], F[3:6], F[6:]
    dx = cross(D, th)
    tx = cross(D, FA)
    for i in range(3):
        c.eq('lever %d' % i, dA[i] - dB[i], dx[i], scale=sc)
        c.eq('net force %d' % i, FA[i] + FB[i], 0, scale=sc)
        c.eq('torque %d' % i, T[i], tx[i], scale=sc)


@S.case('rigid levers with arms of any size, however short', sym=False, arr=False, bounded=True, samples=20)
def _(c):
    # for a short arm what crosses to and from the lever is proportional to the arm
    from phasor.mechanical import xyz
    d = [c.real('d%d' % i, nz=True) for i in range(3)]

    def M(u):
        s = Sys(c)
        key = ckey({s.freq('F1', 1.): 1})
        one = s.add('one', xyz.Moment1D(displacement=d[0] * u))
        r1 = record(one, {key}).matrix()
        xy = s.add('xyz', xyz.XYZMomentDriver(displacementXYZ=[x * u for x in d]))
        r3 = record(xy, {key}).matrix()
        lin = {('one', p, q): r1.get(((getattr(one, p).i, key), (getattr(one, q).o, key)), 0) / u
               for p in ('pm_A', 'pm_B', 'L') for q in ('pm_A', 'pm_B', 'L') if (p == 'L') != (q == 'L')}
        lin.update({('xyz', p, q, x, y): r3.get(((getattr(getattr(xy, p), x).i, key), (getattr(getattr(xy, q), y).o, key)), 0) / u
                    for p in ('pm_A', 'pm_B', 'L') for q in ('pm_A', 'pm_B', 'L') if (p == 'L') != (q == 'L')
                    for x in 'XYZ' for y in 'XYZ' if x != y})
        return lin
    want, got = M(1e-6), M(10.**c.choice('unit', [-8, -11, -14, -20]))
    c.true('the arm couples', any(v != 0 for k, v in want.items() if k[0] == 'one') and any(v != 0 for k, v in want.items() if k[0] == 'xyz'))
    for k in sorted(want):
        c.eq('per length of the arm, %s' % (k,), got[k], want[k], scale=1 + sum(abs(x) for x in d))


@S.case('three axis terminations act axis by axis')
def _(c):
    from phasor.mechanical import xyz
    s = Sys(c)
    key, f, oth = freqs(c, s)
    W = w(c, f)
    kind = c.choice('kind', ['XYZMass', 'XYZTerminatorSpring', 'XYZTerminatorDamper', 'XYZMoment', 'XYZTerminatorOpen', 'XYZTerminatorShorted'])
    scalar = c.choice('scalar', [0, 1])
    v = [c.pos('v')] * 3 if scalar else [c.pos('v%d' % i) for i in range(3)]
    arg = v[0] if scalar else v
    if kind in ('XYZTerminatorOpen', 'XYZTerminatorShorted'):
        el = s.add('el', getattr(xyz, kind)())
    else:
        if getattr(c, 'shape', None) is not None and scalar:
            c.assume('==', 1)      # an array of three is per axis, not a broadcast
        nm = {'XYZMass': 'mass_kg', 'XYZTerminatorSpring': 'elasticity_N_m', 'XYZTerminatorDamper': 'resistance_Ns_m', 'XYZMoment': 'moment_kgmsq'}[kind]
        el = s.add('el', getattr(xyz, kind)(**{nm: arg}))
    p3 = el.L if kind == 'XYZMoment' else el.pm_A
    for i, ax in enumerate('XYZ'):
        sub = getattr(el, ax)
        c.true('port of the axis', getattr(p3, ax) is sub.pm_A)
        d, F, a, x, y, sc, r = mech(c, sub, [sub.pm_A], key, oth)
        if kind in ('XYZMass', 'XYZMoment'):
            c.eq('F %s' % ax, F[0], -W**2 * v[i] * d[0], scale=sc)
        elif kind == 'XYZTerminatorSpring':
            c.eq('F %s' % ax, F[0], v[i] * d[0], scale=sc)
        elif kind == 'XYZTerminatorDamper':
            c.eq('F %s' % ax, F[0], 1j * W * v[i] * d[0], scale=sc)
        elif kind == 'XYZTerminatorOpen':
            c.eq('F %s' % ax, F[0], 0, scale=sc)
        else:
            c.eq('d %s' % ax, d[0], 0, scale=sc)


@S.case('piezo stack: I = s (C V + d F), u = F/k + d V')
def _(c):
    from phasor import transducers
    s = Sys(c)
    C, k = c.pos('C'), c.pos('k')
    how = c.choice('how', ['d_eff', 'swing'])
    if how == 'd_eff':
        dd = c.real('d_eff')
        el = s.add('el', transducers.PZTMountedGrounded(capacitance_F=C, k_N_m=k, d_eff_m_V=dd))
    else:
        um, mv = c.real('um'), c.pos('maxV')
        dd = um * 1e-6 / mv
        el = s.add('el', transducers.PZTMountedGrounded(capacitance_F=C, k_N_m=k, full_swing_um=um, max_voltage_V=mv))
    key, f, oth = freqs(c, s)
    keys = {key} | set(oth)
    r = record(el, keys)
    M = r.matrix()
    for (pkf, pkt), v in M.items():
        if pkf[1] != pkt[1]:
            c.eq('no conversion between frequencies', v, 0)
    ae, am = c.cplx('ae'), c.cplx('am')
    P = {'e': el.pe_A, 'm': el.pm_Z}
    out = {}
    for q in 'em':
        out[q] = M.get(((P['e'].i, key), (P[q].o, key)), 0) * ae + M.get(((P['m'].i, key), (P[q].o, key)), 0) * am
    V, I50 = ae + out['e'], ae - out['e']
    u, F = am + out['m'], am - out['m']
    sI = 2j * np.pi * f
    sc = None if c.sym else 1e4 * (1 + abs(ae) + abs(am)) * (1 + abs(sI)) * (1 + C + abs(dd)) * (1 + 1 / k)
    c.eq('I = s (C V + d F)', I50, 50 * sI * (C * V + dd * F), scale=sc)
    c.eq('u = F/k + d V', u, F / k + dd * V, scale=sc)


def _string(c):
    from phasor.mechanical import string
    s = Sys(c)
    T, rho, L = c.pos('T'), c.pos('rho'), c.pos('L')
    el = s.add('el', string.String(tension_N=T, mass_density_kg_m=rho, length_m=L))
    return s, T, rho, L, el


@S.case('string: delay, and converters that pass power', arr=False)
def _(c):
    s, T, rho, L, el = _string(c)
    c.eq('delay', el.cable.delay_s**2, L**2 * rho / T)
    key = ckey({s.freq('F1', c.pos('f1')): 1})
    for conv in (el.ZconvA, el.ZconvB):
        c.eq('characteristic', conv.mobility_Ns_m**2, T * rho)
        d, F, a, x, y, sc, r = mech(c, conv, [conv.pm_A, conv.pm_B], key, [])
        c.eq('one displacement', d[0], d[1], scale=sc)


@S.case('string: force of a wave is i w sqrt(T rho) d', arr=False)
def _(c):
    """the string end seen from outside, with a matched (infinite) string behind it"""
    s, T, rho, L, el = _string(c)
    f = c.pos('f1')
    key = ckey({s.freq('F1', f): 1})
    conv = el.ZconvA
    r = record(conv, {key})
    M = r.matrix()
    S11 = M[(conv.pm_A.i, key), (conv.pm_A.o, key)]
    Y = 1j * w(c, f) * (T * rho)**.5
    c.eq('F = Y d', 1 - S11, Y * (1 + S11), scale=1e4 * (1 + abs(Y)) if not c.sym else None)


@S.case('oscillator solved end to end', samples=15)
def _(c):
    k, R, M = c.pos('k'), c.pos('R'), c.pos('M')
    s = Sys(c)
    F = s.add('F', m.ForceSource())
    M1 = s.add('M1', m.Mass(mass_kg=M))
    sp = s.add('sp', m.SeriesSpring(elasticity_N_m=k))
    dm = s.add('dm', m.SeriesDamper(resistance_Ns_m=R))
    g = s.add('g', m.TerminatorShorted())
    F.pm_A.bond(M1.pm_A)
    F.pm_A.bond(sp.pm_A)
    F.pm_A.bond(dm.pm_A)
    sp.pm_B.bond(g.pm_A)
    dm.pm_B.bond(g.pm_A)
    d = s.add('d', m.DisplacementReadout(terminal=M1.pm_A))
    fo = s.add('fo', m.ForceReadout(terminal=sp.pm_A, direction='in'))
    ro = s.add('ro', readouts.ACReadout(portD=F.F.i, portN=d.d.o))
    rf = s.add('rf', readouts.ACReadout(portD=F.F.i, portN=fo.F.o))
    W = w(c, c.pos('f_AC'))
    if c.sym:
        c.assume('!=', W * W * M - 1)
        c.assume('!=', k - 1)
    chi = 1 / (k + 1j * W * R - W**2 * M)
    c.eq('displacement', ro.AC_sensitivity, chi)
    c.eq('spring force', rf.AC_sensitivity, k * chi)
