"""P13: junctions, sources and meters of the electrical layer."""
import numpy as np
from vc.harness import Suite
from checks.elec import Sys, record, ckey, freqs, drive, w
from phasor import electronics as e, readouts

S = Suite('P13')


@S.case('junction of N ports: one voltage, no net current')
def _(c):
    N = c.choice('N', [2, 3, 4, 5, 7])
    s = Sys(c)
    el = s.add('J', e.Connection(N_ports=N))
    key, f, oth = freqs(c, s)
    V, I, a, x, y, sc, r = drive(c, el, el.ports_electrical, key, oth)
    for i in range(1, N):
        c.eq('V_%d = V_0' % i, V[i], V[0], scale=sc)
    c.eq('sum of currents', 50 * sum(I), 0, scale=sc)


@S.case('voltage source')
def _(c):
    s = Sys(c)
    el = s.add('el', e.VoltageSource())
    key, f, oth = freqs(c, s)
    V, I, a, x, y, sc, r = drive(c, el, [el.pe_A], key, oth, [el.V.i])
    c.eq('V = drive whatever the load', V[0], x[0], scale=sc)


@S.case('current source')
def _(c):
    s = Sys(c)
    el = s.add('el', e.CurrentSource())
    key, f, oth = freqs(c, s)
    V, I, a, x, y, sc, r = drive(c, el, [el.pe_A], key, oth, [el.ps_In.i])
    c.eq('I out = drive whatever the load', -50 * I[0], 50 * x[0], scale=sc)


@S.case('balanced voltage source')
def _(c):
    s = Sys(c)
    el = s.add('el', e.VoltageSourceBalanced())
    key, f, oth = freqs(c, s)
    V, I, a, x, y, sc, r = drive(c, el, [el.pe_A, el.pe_B], key, oth, [el.V.i, el.ps_In.i])
    c.eq('V_A - V_B = drive', V[0] - V[1], x[0], scale=sc)
    c.eq('net current out = current drive', -50 * (I[0] + I[1]), 50 * x[1], scale=sc)


@S.case('opamp models of the port: matched, open and short terminations')
def _(c):
    s = Sys(c)
    kind = c.choice('kind', ['TerminatorMatched', 'TerminatorOpen', 'TerminatorShorted'])
    el = s.add('el', getattr(e, kind)())
    key, f, oth = freqs(c, s)
    V, I, a, x, y, sc, r = drive(c, el, [el.pe_A], key, oth)
    c.eq(kind, {'TerminatorMatched': V[0] - 50 * I[0], 'TerminatorOpen': 50 * I[0], 'TerminatorShorted': V[0]}[kind], 0, scale=sc)


@S.case('cable delays a wave by its length')
def _(c):
    s = Sys(c)
    t = c.nonneg('t')
    el = s.add('el', e.Cable(length_ns=t))
    key, f, oth = freqs(c, s)
    V, I, a, x, y, sc, r = drive(c, el, [el.pe_A, el.pe_B], key, oth)
    d = np.exp(-2j * np.pi * f * t * 1e-9)
    c.eq('B follows A', V[1] - a[1], d * a[0], scale=sc)
    c.eq('A follows B', V[0] - a[0], d * a[1], scale=sc)


def _net(c, s, n):
    """a node with n resistive arms to n terminators"""
    R, T, Rs, Ts = [], [], [], []
    for i in range(n):
        R.append(c.pos('R%d' % i))
        T.append(c.pos('T%d' % i))
        if c.sym:      # the reflectionless value is a case of its own (P05 covers dropped couplings)
            c.assume('!=', T[i] - 50)
        Rs.append(s.add('R%d' % i, e.SeriesResistor(resistance_Ohms=R[i])))
        Ts.append(s.add('T%d' % i, e.TerminatorResistor(resistance_Ohms=T[i])))
        Rs[i].pe_B.bond(Ts[i].pe_A)
    return R, T, Rs, Ts


@S.case('parallel arms bonded at one port: node voltage and every current, end to end', samples=12)
def _(c):
    n = c.choice('n', [1, 2] if c.sym else [1, 2, 3])
    how = c.choice('how', ['from source', 'from arms', 'chain'])
    kind = c.choice('kind', ['V', 'I'])
    s = Sys(c)
    R, T, Rs, Ts = _net(c, s, n)
    src = s.add('src', e.VoltageSource() if kind == 'V' else e.CurrentSource())
    if how == 'from source':
        for r in Rs:
            src.pe_A.bond(r.pe_A)
    elif how == 'from arms':
        for r in Rs:
            r.pe_A.bond(src.pe_A)
    else:
        src.pe_A.bond(Rs[0].pe_A)
        for r1, r2 in zip(Rs[:-1], Rs[1:]):
            r1.pe_A.bond(r2.pe_A)
    drv = src.V.i if kind == 'V' else src.ps_In.i
    V = s.add('MV', e.VoltageReadout(terminal=src.pe_A))
    I = s.add('MI', e.CurrentReadout(terminal=src.pe_A, direction='out'))
    rV = s.add('rV', readouts.ACReadout(portD=drv, portN=V.V.o))
    rI = s.add('rI', readouts.ACReadout(portD=drv, portN=I.I.o))
    arms = []
    for i in range(n):
        MI = s.add('MI%d' % i, e.CurrentReadout(terminal=Ts[i].pe_A, direction='in'))
        MV = s.add('MV%d' % i, e.VoltageReadout(terminal=Rs[i].pe_A, terminal_N=Rs[i].pe_B))
        arms.append((s.add('rI%d' % i, readouts.ACReadout(portD=drv, portN=MI.I.o)),
                     s.add('rV%d' % i, readouts.ACReadout(portD=drv, portN=MV.V.o))))
    G = sum(1 / (r + t) for r, t in zip(R, T))
    v = 1 if kind == 'V' else 1 / G
    c.eq('node voltage', rV.AC_sensitivity, v)
    c.eq('source current', rI.AC_sensitivity, v * G)
    for i, (ri, rv) in enumerate(arms):
        c.eq('arm current %d' % i, ri.AC_sensitivity, v / (R[i] + T[i]))
        c.eq('arm voltage %d' % i, rv.AC_sensitivity, v * R[i] / (R[i] + T[i]))


@S.case('DC operating point: two sources superpose', samples=12, arr=False)
def _(c):
    R1, R2, R3 = c.pos('R1'), c.pos('R2'), c.pos('R3')
    V0, I0 = c.real('V0'), c.real('I0')
    s = Sys(c)
    va = s.add('va', e.VoltageSource(V_DC=V0))
    ia = s.add('ia', e.CurrentSource(I_DC=I0))
    r1 = s.add('r1', e.SeriesResistor(resistance_Ohms=R1))
    r2 = s.add('r2', e.SeriesResistor(resistance_Ohms=R2))
    r3 = s.add('r3', e.TerminatorResistor(resistance_Ohms=R3))
    va.pe_A.bond(r1.pe_A)
    ia.pe_A.bond(r2.pe_A)
    r1.pe_B.bond(r3.pe_A)
    r2.pe_B.bond(r3.pe_A)
    m = s.add('m', e.VoltageReadout(terminal=r3.pe_A))
    d = s.add('d', e.VoltageReadout(terminal=ia.pe_A, terminal_N=va.pe_A))
    i3 = s.add('i3', e.CurrentReadout(terminal=r3.pe_A, direction='in'))
    o3 = s.add('o3', e.CurrentReadout(terminal=va.pe_A, direction='out'))
    v = (V0 / R1 + I0) / (1 / R1 + 1 / R3)
    sc = None if c.sym else 1 + abs(V0) + abs(I0) * (1 + R1 + R2 + R3)
    c.eq('node', m.DC_readout, v, scale=sc)
    c.eq('difference', d.DC_readout, v + I0 * R2 - V0, scale=sc)
    c.eq('current in', i3.DC_readout, v / R3, scale=sc)
    c.eq('current out', o3.DC_readout, (V0 - v) / R1, scale=sc)


@S.case('balanced source DC', samples=12, arr=False)
def _(c):
    R1, R2 = c.pos('R1'), c.pos('R2')
    V0 = c.real('V0')
    I0 = c.real('I0')
    s = Sys(c)
    b = s.add('b', e.VoltageSourceBalanced(V_DC=V0, I_DC=I0))
    r1 = s.add('r1', e.TerminatorResistor(resistance_Ohms=R1))
    r2 = s.add('r2', e.TerminatorResistor(resistance_Ohms=R2))
    b.pe_A.bond(r1.pe_A)
    b.pe_B.bond(r2.pe_A)
    d = s.add('d', e.VoltageReadout(terminal=r1.pe_A, terminal_N=r2.pe_A))
    ia = s.add('ia', e.CurrentReadout(terminal=r1.pe_A, direction='in'))
    ib = s.add('ib', e.CurrentReadout(terminal=r2.pe_A, direction='in'))
    sc = None if c.sym else 1 + abs(V0) + abs(I0)
    c.eq('difference', d.DC_readout, V0, scale=sc)
    c.eq('net current', ia.DC_readout + ib.DC_readout, I0, scale=sc)
    c.eq('R I', R1 * ia.DC_readout - R2 * ib.DC_readout, V0, scale=sc)


@S.case('DC of any size, however small', sym=False, arr=False, bounded=True, samples=40)
def _(c):
    u = 10.**c.choice('unit', [-4, -9, -14, -20, 6])
    R1, R2, R3 = c.pos('R1'), c.pos('R2'), c.pos('R3')
    V0, I0, V1 = (c.choice('has' + n, [0, 1]) * c.real(n, nz=True) * u for n in ('V0', 'I0', 'V1'))
    s = Sys(c)
    va = s.add('va', e.VoltageSource(V_DC=V0))
    ia = s.add('ia', e.CurrentSource(I_DC=I0))
    r1 = s.add('r1', e.SeriesResistor(resistance_Ohms=R1))
    r3 = s.add('r3', e.TerminatorResistor(resistance_Ohms=R3))
    va.pe_A.bond(r1.pe_A)
    ia.pe_A.bond(r3.pe_A)
    r1.pe_B.bond(r3.pe_A)
    m = s.add('m', e.VoltageReadout(terminal=r3.pe_A))
    sc = u * (1 + abs(V0 / u) + abs(I0 / u) * (1 + R1 + R3))
    c.eq('node', m.DC_readout, (V0 / R1 + I0) / (1 / R1 + 1 / R3), scale=sc)
    s = Sys(c)
    b = s.add('b', e.VoltageSourceBalanced(V_DC=V1, I_DC=I0))
    r1 = s.add('r1', e.TerminatorResistor(resistance_Ohms=R1))
    r2 = s.add('r2', e.TerminatorResistor(resistance_Ohms=R2))
    b.pe_A.bond(r1.pe_A)
    b.pe_B.bond(r2.pe_A)
    d = s.add('d', e.VoltageReadout(terminal=r1.pe_A, terminal_N=r2.pe_A))
    a1 = s.add('a1', e.CurrentReadout(terminal=r1.pe_A, direction='in'))
    a2 = s.add('a2', e.CurrentReadout(terminal=r2.pe_A, direction='in'))
    sc = u * (1 + abs(V1 / u) + abs(I0 / u)) * (1 + R1 + R2)
    c.eq('difference', d.DC_readout, V1, scale=sc)
    c.eq('net current', a1.DC_readout + a2.DC_readout, I0, scale=sc)


@S.case('unbonded ports terminate open')
def _(c):
    R1, R2 = c.pos('R1'), c.pos('R2')
    s = Sys(c)
    v = s.add('v', e.VoltageSource())
    r1 = s.add('r1', e.SeriesResistor(resistance_Ohms=R1))
    v.pe_A.bond(r1.pe_A)
    m = s.add('m', e.VoltageReadout(terminal=r1.pe_B))
    i = s.add('i', e.CurrentReadout(terminal=v.pe_A, direction='out'))
    ro = s.add('ro', readouts.ACReadout(portD=v.V.i, portN=m.V.o))
    ri = s.add('ri', readouts.ACReadout(portD=v.V.i, portN=i.I.o))
    c.eq('no drop', ro.AC_sensitivity, 1)
    c.eq('no current', ri.AC_sensitivity, 0, scale=1)
