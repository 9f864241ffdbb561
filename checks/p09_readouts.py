"""P09: readouts report the transfer functions, loop gains and noise of the network."""
import itertools
import numpy as np
from vc.harness import Suite
from vc.net import Problem
from vc.phys import Sys, ckey
from vc import opt
from phasor import signals as sg, readouts

S = Suite('P09')


class Port(object):
    def __init__(self, pk):
        self.i = pk


def network(c, mixing=True, ins=2, outs=2, loop=False, **kw):
    """ports 0..ins-1 feed ports ins.. by arbitrary couplings between DC and both signs of the AC frequency"""
    E = {}

    def build(p):
        ks = [p.k0, p.kp, p.km]
        edges = []
        for a in range(ins):
            for b in range(ins, ins + outs):
                for i, j in itertools.product(range(3), range(3)):
                    if i == j or (mixing and a == 0 and (i + j) % 2 == 1):
                        E[a, i, b, j] = c.cplx('g%d%d%d%d' % (a, i, b, j), nz=True)
                        edges.append((a, ks[i], b, ks[j], E[a, i, b, j]))
        return dict(keys=ks, edges=edges)
    pr = Problem(c, ins + outs, build, **kw)
    return pr, lambda a, i, b, j: E.get((a, i, b, j), 0)


def mag(c, *vals):
    return None if c.sym else 1 + sum(abs(v) for v in vals)


K0, KP, KM = 0, 1, 2
NEG = {K0: K0, KP: KM, KM: KP}


@S.case('transfer function: the response at the positive AC frequency to both of its signs')
def _(c):
    pr, g = network(c)
    n = pr.net
    ro = pr.s.add('ro', readouts.ACReadout(portD=n.I(0), portN=n.O(2)))
    r2 = pr.s.add('r2', readouts.ACReadoutCLG(portD=n.I(0), portN=n.O(3)))
    c.eq('sensitivity', ro.AC_sensitivity, g(0, KP, 2, KP) + g(0, KM, 2, KP))
    c.eq('closed loop sensitivity', r2.AC_sensitivity, g(0, KP, 3, KP) + g(0, KM, 3, KP))
    c.eq('frequency', ro.F_Hz.val, pr.s.sys.F_AC.F_Hz.val)
    c.eq('frequency', r2.F_Hz.val, pr.s.sys.F_AC.F_Hz.val)


@S.case('transfer function between two ports, driven from a third')
def _(c):
    pr, g = network(c)
    n = pr.net
    ro = pr.s.add('ro', readouts.ACReadout(portD=n.O(2), portN=n.O(3), portDrv=n.I(0)))
    num = g(0, KP, 3, KP) + g(0, KM, 3, KP)
    den = g(0, KP, 2, KP) + g(0, KM, 2, KP)
    c.assume('!=', den)
    c.eq('from the drive', ro.AC_sensitivity, num)
    c.eq('ratio of both', ro.AC_sensitivityOL * den, num)


@S.case('transfer function of which only one sign of the frequency reaches one of the ports')
def _(c):
    num = c.choice('numerator from', ['+', '-', 'both'])
    den = c.choice('denominator from', ['+', '-', 'both'])
    E = {}

    def build(p):
        edges = []
        for b, kind in ((2, den), (3, num)):
            for sgn, k in (('+', p.kp), ('-', p.km)):
                if kind in (sgn, 'both'):
                    E[b, sgn] = c.cplx('g%d%s' % (b, sgn), nz=True)
                    edges.append((0, k, b, p.kp, E[b, sgn]))
        return dict(keys=[p.k0, p.kp, p.km], edges=edges)
    pr = Problem(c, 4, build)
    n = pr.net
    noise = c.choice('noise too', [False, True])
    ro = pr.s.add('ro', readouts.ACReadout(portD=n.O(2), portN=n.O(3), portDrv=n.I(0), include_noise=noise))
    r2 = pr.s.add('r2', readouts.ACReadoutCLG(portD=n.I(0), portN=n.O(3), include_noise=noise, port_set='CLG'))
    r3 = pr.s.add('r3', readouts.ACReadoutLG(portDrv=n.I(0), portSense=n.O(3), portAct=n.O(2), include_noise=noise, port_set='LG'))
    N = E.get((3, '+'), 0) + E.get((3, '-'), 0)
    D = E.get((2, '+'), 0) + E.get((2, '-'), 0)
    c.assume('!=', D)
    c.eq('closed loop sensitivity', r2.AC_sensitivity, N)
    if den != '-':
        c.eq('plant', r3.GPlant * E[2, '+'], E.get((3, '+'), 0))
    c.eq('from the drive', ro.AC_sensitivity, N)
    c.eq('ratio of both', ro.AC_sensitivityOL * D, N)


@S.case('loop gains')
def _(c):
    s = Sys(c)
    H, G, k = c.cplx('H', nz=True), c.cplx('G', nz=True), c.cplx('k', nz=True)
    P = s.add('P', sg.SummingAmplifier(port_gains=dict(x=1., y=1.)))
    A = s.add('A', sg.Gain(gain=H))
    B = s.add('B', sg.Gain(gain=G))
    s.sys.bond(P.ps_Out, A.ps_In)
    s.sys.bond(A.ps_Out, B.ps_In)
    s.sys.bond(B.ps_Out, P.x)
    L = H * G
    c.assume('!=', 1 - L)
    which = c.choice('ports', ['both', 'act', 'sense', 'driven elsewhere'])
    kw = dict(portAct=P.ps_Out.o, portSense=A.ps_Out.o)
    if which == 'act':
        kw.pop('portSense')
    elif which == 'sense':
        kw.pop('portAct')
    elif which == 'driven elsewhere':
        kw['portDrv'] = P.y.i
    kw['include_noise'] = c.choice('noise too', [False, True])
    ro = s.add('ro', readouts.ACReadoutLG(**kw))
    c.eq('closed loop gain', ro.CLG * (1 - L), 1)
    c.eq('open loop gain', ro.OLG, -L)
    if which in ('both', 'driven elsewhere'):
        c.eq('plant', ro.GPlant, H)
    c.eq('frequency', ro.F_Hz.val, s.sys.F_AC.F_Hz.val)


def noises(c, pr, ports):
    """white or coloured noise at ports; returns {port: two-sided density as a function of the key index}"""
    f = pr.s.sys.F_AC.F_Hz.val
    fr = {K0: 0, KP: f, KM: -f}
    out = {}
    for a in ports:
        sided = c.choice('sided%d' % a, ['one-sided', 'two-sided'])
        kind = c.choice('kind%d' % a, ['white', 'coloured'])
        d = 2 if sided == 'one-sided' else 1
        if kind == 'white':
            v = c.pos('n%d' % a)
            pr.s.add('n%d' % a, sg.WhiteNoise(port=Port(pr.net.I(a)), magnitude_ASD=v, sided=sided))
            out[a] = lambda i, v=v, d=d: v**2 / d
        else:
            p, q = c.pos('p%d' % a), c.pos('q%d' % a)
            pr.s.add('n%d' % a, sg.PSDFunctionNoise(port=Port(pr.net.I(a)), PSD_function=lambda F, p=p, q=q: p + q * F**2,
                                                    sided=sided))
            out[a] = lambda i, p=p, q=q, d=d: (p + q * fr[i]**2) / d
    return out


def density(g, nz, b, e, kp=KP, adj=1):
    """sum over noises and their frequencies of density * G(k -> b, +f) G(-k -> e, -f)"""
    by = {a: sum(d(i) * g(a, i, b, kp) * g(a, NEG[i], e, NEG[kp]) for i in (K0, KP, KM)) for a, d in nz.items()}
    return by


def real(x):
    return x.real if hasattr(x, 'real') else x


def adjust(c):
    n = c.choice('sided_spectra', [1, 2])
    return dict(sided_spectra=n), (2 if n == 1 else 1)


@S.case('noise density at a port, and by source', samples=30)
def _(c):
    kw, adj = adjust(c)
    pr, g = network(c, outs=1, **kw)
    nz = noises(c, pr, [0, 1])
    ro = pr.s.add('ro', readouts.ACReadout(portD=pr.net.I(0), portN=pr.net.O(2)))
    by = {a: adj * real(v) for a, v in density(g, nz, 2, 2).items()}
    src = {k.name_child: v for k, v in ro.AC_PSD_by_source.items()}
    sc = mag(c, *by.values())
    c.eq('density', ro.AC_PSD, by[0] + by[1], scale=sc)
    for a in (0, 1):
        c.eq('of source %d' % a, src.get('n%d' % a, 0), by[a], scale=sc)


@S.case('cross densities of two ports, in both orders', samples=30)
def _(c):
    kw, adj = adjust(c)
    pr, g = network(c, outs=2, **kw)
    nz = noises(c, pr, [0, 1])
    n = pr.net
    ro = pr.s.add('ro', readouts.noise.NoiseReadout(port_map=dict(X=n.O(2), Y=n.O(3))))
    P = {'X': 2, 'Y': 3}
    for x, y in itertools.product('XY', 'XY'):
        by = {a: adj * v for a, v in density(g, nz, P[x], P[y]).items()}
        if x == y:
            by = {a: real(v) for a, v in by.items()}
        sc = mag(c, *by.values())
        c.eq('%s%s' % (x, y), ro.CSD[x, y], by[0] + by[1], scale=sc)
        src = {k.name_child: v for k, v in ro.CSD_by_source.items()}
        for a in (0, 1):
            c.eq('%s%s of source %d' % (x, y, a), src['n%d' % a][x, y] if 'n%d' % a in src else 0, by[a], scale=sc)


@S.case('noise at DC', samples=20)
def _(c):
    kw, adj = adjust(c)
    pr, g = network(c, outs=1, **kw)
    nz = noises(c, pr, [0, 1])
    ro = pr.s.add('ro', readouts.noise.NoiseReadout(portN=pr.net.O(2), AC_sidebands_use=False))
    by = density(g, nz, 2, 2, kp=K0)
    c.eq('density', ro.CSD['R', 'R'], adj * real(by[0] + by[1]), scale=mag(c, *by.values()))


@S.case('cross densities of real and complex paths, each along axes of its own', sym=False, arr=False, bounded=True, samples=20)
def _(c):
    from phasor import system
    SH = [(), (3,), (2, 1)]

    def scan(n):
        sh = c.choice('shape ' + n, SH)
        return np.array([c.real('%s%d' % (n, i), nz=True) for i in range(int(np.prod(sh)))]).reshape(sh)[()]
    n = 3
    s = system.BGSystem(F_AC=10.)
    s.own.X = sg.SummingAmplifier(port_gains={'a%d' % k: 1. for k in range(n)})
    s.own.Y = sg.SummingAmplifier(port_gains={'a%d' % k: 1. for k in range(n)})
    X, Y = s.own.X, s.own.Y
    want, wx = 0, 0
    for k in range(n):
        gx, gr, gi = scan('gx%d' % k), scan('gr%d' % k), scan('gi%d' % k)
        re = c.choice('real%d' % k, [0, 1])
        setattr(s.own, 'D%d' % k, sg.DistributionAmplifier(port_gains=dict(x=gx, y=gr)))
        D = getattr(s.own, 'D%d' % k)
        setattr(s.own, 'n%d' % k, sg.WhiteNoise(port=D.ps_In, magnitude_ASD=1., sided='one-sided'))
        D.x.bond(getattr(X, 'a%d' % k))
        if re:
            D.y.bond(getattr(Y, 'a%d' % k))
            h = gr
        else:
            setattr(s.own, 'T%d' % k, sg.TransferFunctionSISO(filter_func=lambda f, gi=gi: 1 + 1j * np.sign(f) * gi))
            T = getattr(s.own, 'T%d' % k)
            D.y.bond(T.ps_In)
            T.ps_Out.bond(getattr(Y, 'a%d' % k))
            h = gr * (1 + 1j * gi)
        want = want + gx * np.conj(h)
        wx = wx + gx * gx
    s.own.ro = readouts.NoiseReadout(port_map=dict(P=X.ps_Out.o, Q=Y.ps_Out.o))
    ro = s.own.ro
    sc = 1 + abs(np.asarray(want))
    c.eq('P Q', ro.CSD['P', 'Q'], want, scale=sc)
    c.eq('Q P', ro.CSD['Q', 'P'], np.conj(want), scale=sc)
    c.eq('P P', ro.CSD['P', 'P'], wx, scale=sc)


@S.case('amplitude densities and noise-limited sensitivity')
def _(c):
    s = Sys(c)
    h, n = c.cplx('h', nz=True), c.pos('n')
    A = s.add('A', sg.TransferFunctionSISO(filter_func=lambda f: h if bool(np.all(f > 0)) else h.conjugate()))
    s.add('n', sg.WhiteNoise(port=A.ps_In, magnitude_ASD=n, sided='one-sided'))
    kind = c.choice('kind', ['ACReadout', 'ACReadoutCLG', 'Testpoint'])
    h2 = (h * h.conjugate()).real
    if kind == 'Testpoint':
        ro = s.add('ro', readouts.Testpoint(port=A.ps_Out.o))
    else:
        ro = s.add('ro', getattr(readouts, kind)(portD=A.ps_In.i, portN=A.ps_Out.o))
        c.eq('limit: what is at the input', ro.AC_noise_limited_sensitivity**2, n**2)
        c.eq('sensitivity', ro.AC_sensitivity, h)
    by = {k.name_child: v for k, v in ro.AC_PSD_by_source.items()}
    c.true('each source, and no other', set(by) == {'n'})
    c.eq('density by source', by['n'], h2 * n**2)
    c.eq('density', ro.AC_PSD, h2 * n**2)
    c.eq('ASD squared is the PSD', ro.AC_ASD**2, h2 * n**2)
    c.ge('ASD is not negative', ro.AC_ASD, 0)


def dc(c, mk):
    s = Sys(c)
    F = s.freq('Fm', c.pos('fm'), order=2, F_center_Hz=5.)
    a, h = c.cplx('a', nz=True), mk('h', nz=True)
    g = s.add('g', sg.SignalGenerator(F=F, amplitude=a))
    m = s.add('m', sg.MeanSquareMixer())
    G = s.add('G', sg.Gain(gain=h))
    s.sys.bond(g.ps_Out, m.ps_In)
    s.sys.bond(m.MS, G.ps_In)
    # each alone has to ask for what it reads
    kind = c.choice('kind', ['both', 'DCReadout', 'of its own set', 'Testpoint', 'two sets'])
    ro = tp = r2 = None
    if kind in ('both', 'DCReadout', 'two sets'):
        ro = s.add('ro', readouts.DCReadout(port=G.ps_Out.o))
    if kind in ('of its own set', 'two sets'):
        r2 = s.add('r2', readouts.DCReadout(port=G.ps_Out.o if kind == 'of its own set' else m.MS.o, port_set='mine'))
    if kind in ('both', 'Testpoint'):
        tp = s.add('tp', readouts.Testpoint(port=G.ps_Out.o))
    want = real(h) * (a * a.conjugate()).real / 2
    sc = mag(c, h * a**2)
    if ro is not None:
        c.eq('DC', ro.DC_readout, want, scale=sc)
    if r2 is not None:
        c.eq('DC of the set', r2.DC_readout, want if kind == 'of its own set' else (a * a.conjugate()).real / 2, scale=sc)
    if tp is not None:
        c.eq('DC of a testpoint', tp.DC, want, scale=sc)


@S.case('a testpoint inside a port reads that port')
def _(c):
    s = Sys(c)
    h, n = c.real('h', nz=True), c.pos('n')
    A = s.add('A', sg.Gain(gain=h))
    B = s.add('B', sg.Gain(gain=2.))
    N = s.add('N', sg.SignalNode())
    s.sys.bond(A.ps_Out, B.ps_In)
    s.sys.bond(B.ps_Out, N)
    s.add('n', sg.WhiteNoise(port=A.ps_In, magnitude_ASD=n, sided='one-sided'))
    where = c.choice('where', ['output', 'input', 'node'])
    p = dict(output=A.ps_Out, input=B.ps_In, node=N)[where]
    p.own.tp = readouts.Testpoint()
    c.true('the port', p.tp.port == (p.i if where == 'input' else p.o))
    k = dict(output=1, input=1, node=4)[where]
    c.eq('density', p.tp.AC_PSD, k * h**2 * n**2, scale=mag(c, h**2 * n**2))
    c.eq('frequency', p.tp.F_Hz.val, s.sys.F_AC.F_Hz.val)


@S.case('DC values')
def _(c):
    dc(c, c.real)


@S.case('DC values are the real part', sym=False, bounded=True)
def _(c):
    dc(c, c.cplx)


# ---------------------------------------------------------------------------
# homodyne readout: two quadratures, any angle

def homodyne(c, shared=True, phase=None, real_signal=False, tri=None):
    # tri: N = L L^H with L lower triangular, enough for every positive definite noise
    tri = tri or (c.real if real_signal else None)
    s = Sys(c)
    ph = c.real('ph') if phase is None else phase
    mk = (lambda n: c.real(n, nz=True)) if real_signal else (lambda n: c.cplx(n, nz=True))
    sI, sQ = mk('sI'), mk('sQ')
    gains, nz = [], []
    U = s.add('U', sg.SummingAmplifier(port_gains=dict(s=1., a=1., b=1.)))
    V = s.add('V', sg.SummingAmplifier(port_gains=dict(s=1., a=1., b=1.)))
    X = s.add('X', sg.DistributionAmplifier(port_gains=dict(x=sI, y=sQ)))
    s.sys.bond(X.x, U.s)
    s.sys.bond(X.y, V.s)
    for nm in 'ab':
        # the response to a noise at -f is the conjugate of that at f
        if tri:
            g = [1., tri('r', nz=True)] if nm == 'a' else [0., 1.]
        else:
            g = [c.cplx('g%s%d' % (nm, k), nz=True) for k in (0, 1)]
        D = s.add('D' + nm, sg.DistributionAmplifier(port_gains=dict(x=1., y=1.)))
        n = c.pos('n' + nm)
        s.add('n' + nm, sg.WhiteNoise(port=D.ps_In, magnitude_ASD=n, sided='one-sided'))
        for k, (out, tgt) in enumerate(((D.x, U[nm]), (D.y, V[nm]))):
            H = s.add('H%s%d' % (nm, k), sg.TransferFunctionSISO(
                filter_func=lambda f, v=g[k]: v if bool(np.all(f > 0)) else np.conjugate(v)))
            s.sys.bond(out, H.ps_In)
            s.sys.bond(H.ps_Out, tgt)
        gains.append(g)
        nz.append(n)
    h = s.add('h', readouts.HomodyneACReadout(portNI=U.ps_Out.o, portNQ=V.ps_Out.o, portD=X.ps_In.i, phase_deg=ph))
    N = [[sum(n**2 * g[i] * np.conjugate(g[j]) for g, n in zip(gains, nz)) for j in (0, 1)] for i in (0, 1)]
    return s, h, ph, (sI, sQ), N, (gains, nz)


def rot(ph):
    x = ph * np.pi / 180
    cs, sn = opt.cos(x), opt.sin(x)
    return [[cs, sn], [-sn, cs]]


def sandwich(R, N):
    return [[sum(R[i][k] * N[k][l] * R[j][l] for k in (0, 1) for l in (0, 1)) for j in (0, 1)] for i in (0, 1)]


@S.case('homodyne: rotating the readout angle rotates signal and noise', arr=False, samples=20)
def _(c):
    s, h, ph, sig, N, (gs, nz) = homodyne(c)
    R = rot(ph)
    sc = mag(c, *sig)
    IQ = h.AC_sensitivity_IQ
    for k in (0, 1):
        c.eq('signal %d' % k, IQ[k], R[k][0] * sig[0] + R[k][1] * sig[1], scale=sc)
    c.eq('the sensitivity is in phase', h.AC_sensitivity, R[0][0] * sig[0] + R[0][1] * sig[1], scale=sc)
    W = sandwich(R, N)
    sn = mag(c, *[x for r in N for x in r])
    for i, j in itertools.product((0, 1), (0, 1)):
        c.eq('noise %d%d' % (i, j), h.AC_CSD_IQ[i, j], W[i][j], scale=sn)
    c.eq('noise in phase', h.AC_PSD, W[0][0], scale=sn)
    by = {k.name_child: v for k, v in h.AC_PSD_by_source.items()}
    for nm, g, n in zip('ab', gs, nz):
        w = sandwich(R, [[n**2 * g[i] * np.conjugate(g[j]) for j in (0, 1)] for i in (0, 1)])
        c.eq('of source ' + nm, by.get('n' + nm, 0), w[0][0], scale=sn)


@S.case('homodyne: the rotated readout is the readout at the sum of the angles', arr=False, samples=10)
def _(c):
    s, h, ph, sig, N, _ = homodyne(c)
    d = c.real('d')
    r = h.rotate_deg(d)
    R = rot(ph + d)
    c.eq('signal', r.AC_sensitivity, R[0][0] * sig[0] + R[0][1] * sig[1], scale=mag(c, *sig))
    c.eq('noise', r.AC_PSD, sandwich(R, N)[0][0], scale=mag(c, *[x for r in N for x in r]))


@S.case('homodyne: no angle is better than the optimal sensitivity', arr=False, samples=25)
def _(c):
    s, h, ph, sig, N, _ = homodyne(c, phase=0)
    re = [[real(x) for x in r] for r in N]
    det = re[0][0] * re[1][1] - re[0][1] * re[1][0]
    c.assume('>', det)
    o = h.AC_noise_limited_sensitivity_optimal
    # |s|^2 of the best combination: s* adj(N) s / det(N)
    q = sum(np.conjugate(sig[i]) * sig[j] * ((re[1 - i][1 - j]) * (1 if i == j else -1)) for i in (0, 1) for j in (0, 1))
    sc = mag(c, q, det)
    c.eq('1/optimal^2', o**-2 * det, q, scale=sc)


@S.case('homodyne: optimal readout angle reaches the optimal sensitivity', arr=False, samples=40)
def _(c):
    s, h, ph, sig, N, _ = homodyne(c, phase=0, real_signal=True)
    c.assume('>', N[0][0] * N[1][1] - N[0][1] * N[1][0])
    best = h.AC_noise_limited_sensitivity_optimal
    # its square is det/(s.adj(N).s): the sensitivity that no angle improves
    ro = h.optimal_readout
    got = ro.AC_PSD / (ro.AC_sensitivity * np.conjugate(ro.AC_sensitivity))
    c.eq('noise over signal at the optimal angle', got * best**-2, 1)
    ro = h.rotate_deg(h.AC_optimal_readout_deg)
    got = ro.AC_PSD / (ro.AC_sensitivity * np.conjugate(ro.AC_sensitivity))
    c.eq('noise over signal of the rotated readout', got * best**-2, 1)


@S.case('homodyne: noise ellipse', arr=False, samples=30)
def _(c):
    s, h, ph, sig, N, _ = homodyne(c, phase=0, tri=c.cplx)
    a, b, d = real(N[0][0]), real(N[0][1]), real(N[1][1])
    c.assume('!=', b)
    e = h.AC_CSD_ellipse
    sc = mag(c, a, b, d)
    c.eq('the sum of the axes is the total noise', e.min + e.max, a + d, scale=sc)
    c.eq('the product of the axes is the determinant', e.min * e.max, a * d - b * b, scale=mag(c, sc and sc * sc))
    c.ge('the minor axis is the smaller', e.max, e.min)
    c.eq('least in-phase noise given the other quadrature', e.Imin * d, a * d - b * b, scale=mag(c, sc and sc * sc))
    c.eq('least out-of-phase noise given the other quadrature', e.Qmin * a, a * d - b * b, scale=mag(c, sc and sc * sc))
    n = h.AC_CSD_ellipse_norm
    c.eq('normalized: ratio of the axes', n.min**2 * e.max, e.min, scale=sc)
    c.eq('normalized: product of the axes', n.min * n.max, 1)
    q = s.sys.adjust_PSD * s.sys.symbols.h_Js * s.sys.symbols.c_m_s / 1064e-9
    n = h.AC_CSD_ellipse_normSN
    c.eq('against shot noise: minor', n.min * q, e.min, scale=sc)
    c.eq('against shot noise: major', n.max * q, e.max, scale=sc)
