"""P20: lasers, vacuum fluctuations, photodetectors."""
import itertools
import numpy as np
from vc.harness import Suite
from vc.opt import OSys, orecord, ckey, compare, sqrt, cos, sin, exp, kname, fields, harmonics, evaluate
from phasor import optics, readouts

S = Suite('P20')
QS = 'LR'
H, C0 = 6.6260700408e-34, 299792458   # CODATA within its uncertainty, as the system states it


def conj(z):
    return z.conjugate() if hasattr(z, 'conjugate') else z


@S.case('a laser emits its power at its carrier, with its phase, in its polarization')
def _(c):
    s = OSys(c)
    P, ph = c.nonneg('P'), c.real('ph', special=[0])
    pol = c.choice('pol', 'SP')
    mult = c.choice('mult', [1, 2])
    F1 = s.freq('F1', c.real('f1'))
    cl = c.choice('cl', [None, {F1: 1}])
    kw = {} if cl is None else dict(classical_fdict=cl)
    el = s.add('las', optics.Laser(F=s.Fo, power_W=P, phase_rad=ph, polarization=pol, multiple=mult, **kw))
    K = {s.ok(p, q, d, n) for p in 'SP' for q in QS for d in ({}, {F1: 1}) for n in (1, 2)}
    r = orecord(el, [el.po_Fr], K)
    src = r.sourcevec()
    w = {(el.po_Fr.o, s.ok(pol, 'L', cl or {}, mult)): sqrt(P) * exp(1j * ph),
         (el.po_Fr.o, s.ok(pol, 'R', cl or {}, mult)): sqrt(P) * exp(-1j * ph)}
    for k in sorted(set(src) | set(w), key=lambda k: kname(k[1])):
        c.eq('source ' + kname(k[1]), src.get(k, 0), w.get(k, 0), scale=1)
    c.true('reflects nothing', not r.edges)


@S.case('vacuum enters every open port at every frequency: half a photon per mode, between conjugate fields')
def _(c):
    s = OSys(c)
    kind = c.choice('kind', ['VacuumTerminator', 'Laser', 'PD'])
    if kind == 'Laser':
        el = s.add('el', optics.Laser(F=s.Fo, power_W=c.pos('P')))
    else:
        el = s.add('el', getattr(optics, kind)())
    F1 = s.freq('F1', c.real('f1'))
    K = {s.ok(p, q, d, n): (p, q, d, n) for p in 'SP' for q in QS for d in ({}, {F1: 1}, {s.sys.F_AC: -1}) for n in (1, 2)}
    r = orecord(el._fluct, [el.po_Fr], set(K))
    hooks = {}
    el._fluct.system_setup_noise(r)
    for p1, k1, p2, k2, ob in r.noises:
        hooks[(p1, k1), (p2, k2)] = hooks.get(((p1, k1), (p2, k2)), 0) + ob.noise_2pt_expectation(p1, k1, p2, k2)
    w = {}
    for k, (p, q, d, n) in K.items():
        k2 = s.ok(p, 'R' if q == 'L' else 'L', d, n)
        w[(el.po_Fr.o, k), (el.po_Fr.o, k2)] = (H * C0) * (n / s.lam) / 2
    big = 1e25
    compare(c, {k: v * big for k, v in hooks.items()}, {k: v * big for k, v in w.items()})


@S.case('photodetectors produce the power: the sum of products of conjugate fields, per frequency')
def _(c):
    s = OSys(c)
    kind = c.choice('kind', ['PD', 'MagicPD'])
    el = s.add('el', getattr(optics, kind)())
    N = 1 if c.sym else c.choice('N', [1, 2])
    f, F, opt, cl = harmonics(c, s, N, 'SP')
    ports = [el.po_Fr] if kind == 'PD' else [el.po_Fr, el.po_Bk]
    ps = [x for x in ports]
    r = orecord(el, ps, set(opt.values()), set(cl.values()) if kind == 'MagicPD' else set(cl.values()))
    E = {}
    for p in sorted(opt):
        E[p] = c.cplx('E%s%s%d' % p)
    val = {(el.po_Fr.i, opt[p]): v for p, v in E.items()}
    out = evaluate(c, r, val)
    sc = None if c.sym else 1 + sum(abs(v) for v in E.values()) ** 2
    for m in sorted(cl):
        tot = 0
        for p in 'SP':
            for n in range(-N, N + 1):
                if -N <= n + m <= N:
                    tot = tot + E[p, 'L', n + m] * E[p, 'R', n]
        # the output at +f and -f: amplitude of the beat (twice the product), the mean: once
        c.eq('Wpd at %d' % m, out.get((el.Wpd.o, cl[m]), 0), tot * (1 if m == 0 else 2), scale=sc)
    # small signal: exactly the products of one fluctuating and one steady field
    lin = {}
    for pf, kf, pt, kt, v, vp in r.edges:
        if pt != el.Wpd.o:
            continue
        t = v
        for x in vp:
            t = t * val.get(x, 0)
        lin[kf, kt] = lin[kf, kt] + t if (kf, kt) in lin else t
    want = {}
    for (p, q, j), m in itertools.product(sorted(opt), sorted(cl)):
        if m == 0:
            continue
        n = j - m if q == 'L' else j + m
        if -N <= n <= N:
            want[opt[p, q, j], cl[m]] = E[p, 'R' if q == 'L' else 'L', n]
    for k in sorted(set(lin) | set(want), key=lambda k: (kname(k[0]), kname(k[1]))):
        if k[1] == cl[0]:
            continue
        c.eq('d Wpd[%s] / d E[%s]' % (kname(k[1]), kname(k[0])), lin.get(k, 0), want.get(k, 0), scale=sc)
    if kind == 'MagicPD':
        for k in sorted(opt):
            c.eq('passes', out.get((el.po_Bk.o, opt[k]), 0), E[k], scale=sc)
        back = {(el.po_Bk.i, opt[p]): v for p, v in E.items()}
        o2 = evaluate(c, r, back)
        for k in sorted(opt):
            c.eq('passes back', o2.get((el.po_Fr.o, opt[k]), 0), E[k], scale=sc)
        c.true('blind to the other direction', not any(p == el.Wpd.o for p, k in o2))
    else:
        c.true('absorbs', not any(p == el.po_Fr.o for p, k in out))


@S.case('laser, loss and detector end to end: power, beat notes and shot noise', samples=12, arr=False)
def _(c):
    s = OSys(c)
    P = c.pos('P')
    u = c.real('u', .05, .95)
    T = u * u
    which = c.choice('loss', ['none', 'mirror', 'loss port'])
    pol = c.choice('pol', 'SP')
    las = s.add('las', optics.Laser(F=s.Fo, power_W=P, phase_rad=c.real('ph'), polarization=pol))
    det = c.choice('detector', ['PD', 'PD with readouts', 'MagicPD', 'MagicPD with readouts'])
    own = 'readouts' in det
    kw = dict(include_readouts=True) if own else {}
    pd = s.add('pd', getattr(optics, det.split()[0])(**kw))
    if det[0] == 'M':
        end = s.add('end', optics.PD())
        s.sys.bond(pd.po_Bk, end.po_Fr)
        after = s.add('after', readouts.DCReadout(port=end.Wpd.o))
    if which == 'none':
        s.sys.bond(las.po_Fr, pd.po_Fr)
        eff = 1
    else:
        m = s.add('m', optics.Mirror(T_hr=T) if which == 'mirror' else optics.Mirror(T_hr=1, L_t=1 - T))
        s.sys.bond(las.po_Fr, m.po_Fr)
        s.sys.bond(m.po_Bk, pd.po_Fr)
        eff = T
    dc = pd.DC if own else s.add('dc', readouts.DCReadout(port=pd.Wpd.o))
    n = pd.noise if own else s.add('n', readouts.NoiseReadout(portN=pd.Wpd.o))
    c.eq('power', dc.DC_readout, P * eff)
    if det[0] == 'M':
        c.eq('power behind', after.DC_readout, P * eff)
    big = 1e19
    N = n.CSD['R', 'R']
    if c.sym:
        sided = s.sys.adjust_PSD
    else:
        sided = s.sys.adjust_PSD
    # two-sided: h nu P
    c.eq('shot noise', N / sided * big, H * C0 / s.lam * P * eff * big)


@S.case('two lasers of one carrier beat by the difference of their frequencies', samples=12, arr=False)
def _(c):
    s = OSys(c)
    P1, P2 = c.pos('P1'), c.pos('P2')
    a1, a2 = c.real('a1'), c.real('a2')
    F1 = s.freq('F1', c.pos('f1'))
    l1 = s.add('l1', optics.Laser(F=s.Fo, power_W=P1, phase_rad=a1))
    l2 = s.add('l2', optics.Laser(F=s.Fo, power_W=P2, phase_rad=a2, classical_fdict={F1: 1}))
    bs = s.add('bs', optics.Mirror(T_hr=.5, AOI_deg=45))
    pa, pb = s.add('pa', optics.PD()), s.add('pb', optics.PD())
    s.sys.bond(l1.po_Fr, bs.po_FrA)
    s.sys.bond(l2.po_Fr, bs.po_BkB)
    s.sys.bond(bs.po_FrB, pa.po_Fr)
    s.sys.bond(bs.po_BkA, pb.po_Fr)
    from phasor.base import DictKey, FrequencyKey
    A, B = s.add('A', readouts.DCReadout(port=pa.Wpd.o)), s.add('B', readouts.DCReadout(port=pb.Wpd.o))
    c.eq('mean A', A.DC_readout, (P1 + P2) / 2)
    c.eq('mean B', B.DC_readout, (P1 + P2) / 2)
