"""P23: mixers, modulators and mean-square detectors multiply the signals they are given.

A line at f stands for the real signal Re(x e^{i w t}): half of x at f and half
of its conjugate at -f; a DC line is its amplitude.
"""
import itertools
import numpy as np
from vc.harness import Suite
from vc.phys import Sys, ckey, record, Recorder
from vc import opt
from phasor import signals as sg, readouts

S = Suite('P23')
N = 2


def ladder(c, s, N=N):
    F = s.freq('Fm', c.pos('fm'), order=N, F_center_Hz=5.)
    return F, {n: ckey({F: n} if n else {}) for n in range(-2 * N, 2 * N + 1)}


def lines(c, pk, ns):
    return {n: c.cplx('%s[%d]' % (pk, n)) for n in ns}


def half(n):
    return 1 if n == 0 else 2


def product(a, b, N, wa=lambda n: 1, skip=lambda p, q: False):
    out = {}
    for p, q in itertools.product(a, b):
        if abs(p + q) <= N and not skip(p, q):
            out[p + q] = out.get(p + q, 0) + wa(p) * (a[p] / half(p)) * (b[q] / half(q)) * half(p + q)
    return out


def outputs(c, r, val, want, K, port, scale):
    out = opt.evaluate(c, r, val)
    ks = {K[n]: n for n in K}
    seen = set()
    for (p, k), v in sorted(out.items(), key=repr):
        if p != port:
            continue
        n = ks[k]
        seen.add(n)
        if n in want:
            c.eq('line %d' % n, v, want[n], scale=scale)
        else:
            c.eq('no line %d' % n, v, 0, scale=scale)
    for n in want:
        c.true('line %d is produced' % n, n in seen)


def sign(n):
    return (n > 0) - (n < 0)


@S.case('mixer: the product of its inputs, and that with the LO shifted by a quarter')
def _(c):
    s = Sys(c)
    F, K = ladder(c, s)
    el = s.add('el', sg.Mixer())
    nl = c.choice('LO', [(1, -1), (0,), (2, 1, 0, -1, -2)])
    ni = c.choice('In', [(1, -1), (0, 2, -2), (2, 1, 0, -1, -2)])
    a, b = lines(c, 'LO', nl), lines(c, 'In', ni)
    r = Recorder({el.ps_LO.i: {K[n] for n in nl}, el.ps_In.i: {K[n] for n in ni}}, system=s.sys)
    el.system_setup_coupling(r)
    val = {(el.ps_LO.i, K[n]): a[n] for n in nl}
    val.update({(el.ps_In.i, K[n]): b[n] for n in ni})
    sc = 1 + sum(abs(x) for x in a.values()) * sum(abs(x) for x in b.values())
    outputs(c, r, val, product(a, b, N), K, el.ps_R_I.o, sc)
    outputs(c, r, val, product(a, b, N, lambda n: 1j * sign(n)), K, el.ps_R_Q.o, sc)
    c.true('LO is ps_LO', el.LO is el.ps_LO)
    c.true('no linear couplings', not r.edges and not r.sources)


@S.case('modulator: carrier times (1 + amplitude + i phase), turned by its phase')
def _(c):
    s = Sys(c)
    F, K = ladder(c, s)
    ph = c.real('ph')
    el = s.add('el', sg.Modulator(phase_rad=ph))
    ni = c.choice('In', [(1, -1), (0, 2, -2), (2, 1, 0, -1, -2)])
    na = c.choice('amp', [(), (1, -1), (0, 2, -2), (2, 1, 0, -1, -2)])
    np_ = c.choice('phase', [(), (1, -1), (0, 2, -2), (2, 1, 0, -1, -2)])
    x, a, p = lines(c, 'In', ni), lines(c, 'amp', na), lines(c, 'phase', np_)
    r = Recorder({el.ps_In.i: {K[n] for n in ni}, el.Mod_amp.i: {K[n] for n in na},
                  el.Mod_phase.i: {K[n] for n in np_}}, system=s.sys)
    el.system_setup_coupling(r)
    val = {(el.ps_In.i, K[n]): x[n] for n in ni}
    val.update({(el.Mod_amp.i, K[n]): a[n] for n in na})
    val.update({(el.Mod_phase.i, K[n]): p[n] for n in np_})
    y = {n: v * (opt.exp(1j * sign(n) * ph) if n else 1) for n, v in x.items()}
    want = dict(y)
    for m in (product(y, a, N), product(y, p, N, lambda n: 1j * sign(n))):
        for n, v in m.items():
            want[n] = want.get(n, 0) + v
    sc = 1 + sum(abs(v) for v in x.values()) * (1 + sum(abs(v) for v in a.values()) + sum(abs(v) for v in p.values()))
    outputs(c, r, val, want, K, el.ps_Out.o, sc)


@S.case('second harmonic of each sideband pair of one sign')
def _(c):
    s = Sys(c)
    n_ = 3
    F, K = ladder(c, s, n_)
    el = s.add('el', sg.Harmonic2Generator())
    ni = c.choice('In', [(1, -1), (0, 1, -1), (2, 1, 0, -1, -2)])
    x = lines(c, 'In', ni)
    r = Recorder({el.ps_In.i: {K[n] for n in ni}}, system=s.sys)
    el.system_setup_coupling(r)
    want = {}
    for p, q in itertools.product(ni, ni):
        if p * q > 0 and abs(p + q) <= n_:
            want[p + q] = want.get(p + q, 0) + x[p] * x[q]
    outputs(c, r, {(el.ps_In.i, K[n]): v for n, v in x.items()}, want, K, el.ps_Out.o,
            1 + sum(abs(v) for v in x.values())**2)


@S.case('mean square of a signal')
def _(c):
    s = Sys(c)
    F, K = ladder(c, s)
    el = s.add('el', sg.MeanSquareMixer())
    ni = c.choice('In', [(0,), (1, -1), (0, 2, -2), (2, 1, 0, -1, -2)])
    x = lines(c, 'In', ni)
    r = Recorder({el.ps_In.i: {K[n] for n in ni}}, system=s.sys)
    el.system_setup_coupling(r)
    want = {0: sum(x[n] * x[-n] / 2 for n in ni if n > 0) + (x[0]**2 if 0 in ni else 0)}
    outputs(c, r, {(el.ps_In.i, K[n]): v for n, v in x.items()}, want, K, el.MS.o,
            1 + sum(abs(v) for v in x.values())**2)


def generator(c, s, F, name, **kw):
    a = c.cplx(name, nz=True)
    return a, s.add(name, sg.SignalGenerator(F=F, amplitude=a, **kw))


def abs2(a):
    return (a * a.conjugate()).real


@S.case('two generators at one frequency, demodulated at DC, end to end')
def _(c):
    s = Sys(c)
    F = s.freq('Fm', c.pos('fm'), order=2, F_center_Hz=5.)
    a, ga = generator(c, s, F, 'a')
    b, gb = generator(c, s, F, 'b')
    m = s.add('m', sg.Mixer())
    s.sys.bond(ga.ps_Out, m.ps_LO)
    s.sys.bond(gb.ps_Out, m.ps_In)
    I = s.add('I', readouts.DCReadout(port=m.ps_R_I.o))
    Q = s.add('Q', readouts.DCReadout(port=m.ps_R_Q.o))
    x = a.conjugate() * b
    sc = 1 + abs(a) * abs(b)
    c.eq('in phase: half of Re(a* b)', I.DC_readout, x.real / 2, scale=sc)
    c.eq('quadrature: half of Im(a* b)', Q.DC_readout, x.imag / 2, scale=sc)


@S.case('mean square of a generator and its harmonics, end to end')
def _(c):
    s = Sys(c)
    F = s.freq('Fm', c.pos('fm'), order=3, F_center_Hz=5.)
    a = c.cplx('a', nz=True)
    b = c.cplx('b', nz=True)
    g = s.add('g', sg.SignalGenerator(F=F, amplitude=a, harmonic_gains={2: b}))
    U = s.add('U', sg.SummingAmplifier(port_gains=dict(x=1, y=1)))
    m = s.add('m', sg.MeanSquareMixer())
    s.sys.bond(g.ps_Out, U.x)
    s.sys.bond(g.OutH2, U.y)
    s.sys.bond(U.ps_Out, m.ps_In)
    M = s.add('M', readouts.DCReadout(port=m.MS.o))
    c.eq('mean square', M.DC_readout, (abs2(a) + abs2(b)) / 2)


@S.case('modulation is recovered by demodulation, end to end')
def _(c):
    s = Sys(c)
    s.sys.F_AC.order = 1
    F = s.freq('Fm', c.pos('fm'), order=1, F_center_Hz=5e6)
    for k in (1, -1):
        c.assume('>', F.F_Hz.val - s.sys.F_AC.F_Hz.val)
    a, g = generator(c, s, F, 'a')
    m = s.add('m', sg.Modulator())
    x = s.add('x', sg.Mixer())
    s.sys.bond(g.ps_Out, m.ps_In)
    s.sys.bond(m.ps_Out, x.ps_In)
    s.sys.bond(g.ps_Out, x.ps_LO)
    R = {}
    for n, d, o in (('AI', m.Mod_amp, x.ps_R_I), ('AQ', m.Mod_amp, x.ps_R_Q), ('PI', m.Mod_phase, x.ps_R_I),
                    ('PQ', m.Mod_phase, x.ps_R_Q), ('FI', m.Mod_freq, x.ps_R_I), ('FQ', m.Mod_freq, x.ps_R_Q)):
        R[n] = s.add('r' + n, readouts.ACReadout(portD=d.i, portN=o.o))
    a2 = abs2(a)
    c.eq('amplitude in phase', R['AI'].AC_sensitivity, a2 / 2)
    c.eq('amplitude in quadrature', R['AQ'].AC_sensitivity, 0, scale=1 + a2)
    c.eq('phase in phase', R['PI'].AC_sensitivity, 0, scale=1 + a2)
    c.eq('phase in quadrature', R['PQ'].AC_sensitivity, a2 / 2)
    c.eq('frequency in phase', R['FI'].AC_sensitivity, 0, scale=1 + a2)
    c.eq('frequency is the derivative of the phase', R['FQ'].AC_sensitivity * s.sys.F_AC.F_Hz.val, 1j * a2 / 2)
