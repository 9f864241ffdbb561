"""P12: two-terminal and series electrical elements obey V = Z I at every frequency."""
import numpy as np
from vc.harness import Suite
from vc.phys import Sys, record, ckey

S = Suite('P12')


def freqs(c, s):
    """a key of arbitrary harmonic content and its frequency"""
    f1, f2 = c.pos('f1'), c.real('f2')
    F1, F2 = s.freq('F1', f1), s.freq('F2', f2)
    n1 = c.choice('n1', [1, 0, -1, 2])
    n2 = c.choice('n2', [0, 1, -2])
    d = {}
    if n1:
        d[F1] = n1
    if n2:
        d[F2] = n2
    return ckey(d), n1 * f1 + n2 * f2, [ckey({F1: 1}), ckey({F2: 1}), ckey({F1: 3})]


def waves(c, el, ports, key, others):
    """drive every port with an arbitrary wave: returns (V_i, I_i) at key"""
    keys = {key} | set(others)
    r = record(el, keys)
    M = r.matrix()
    for (pkf, pkt), v in M.items():
        if pkf[1] != pkt[1]:
            c.eq('no conversion between frequencies', v, 0)
    Z0 = el.Ze_termination
    a = [c.cplx('a%d' % i) for i in range(len(ports))]
    V, I = [], []
    for j, q in enumerate(ports):
        b = 0
        for i, p in enumerate(ports):
            b = b + M.get(((p.i, key), (q.o, key)), 0) * a[i]
        V.append(a[j] + b)
        I.append((a[j] - b) / Z0)
    return V, I, a


def w(c, f):
    return 2 * np.pi * f


def term(make, law):
    def case(c):
        s = Sys(c)
        el = s.add('el', make(c))
        key, f, oth = freqs(c, s)
        V, I, a = waves(c, el, [el.pe_A], key, oth)
        law(c, f, V[0], I[0], a[0])
    return case


def res(c):
    return c.pos('R')


from phasor import electronics as e   # noqa


@S.case('terminator resistor: V = R I')
def _(c):
    R = c.pos('R')
    term(lambda c: e.TerminatorResistor(resistance_Ohms=R), lambda c, f, V, I, a: c.eq('V = R I', V, R * I, scale=abs(a)))(c)


@S.case('terminator capacitor: I = i w C V')
def _(c):
    C = c.pos('C')
    term(lambda c: e.TerminatorCapacitor(capacitance_Farads=C),
         lambda c, f, V, I, a: c.eq('I = iwC V', 50 * I, 50 * 1j * w(c, f) * C * V, scale=abs(a)))(c)


@S.case('terminator inductor: V = (R + i w L) I')
def _(c):
    L, R = c.pos('L'), c.nonneg('R')
    term(lambda c: e.TerminatorInductor(inductance_Henries=L, resistance_Ohms=R),
         lambda c, f, V, I, a: c.eq('V = (R + iwL) I', V, (R + 1j * w(c, f) * L) * I, scale=abs(a)))(c)


@S.case('terminators matched, open, shorted')
def _(c):
    which = c.choice('kind', ['TerminatorMatched', 'TerminatorOpen', 'TerminatorShorted'])

    def law(c, f, V, I, a):
        if which == 'TerminatorOpen':
            c.eq('no current', 50 * I, 0, scale=abs(a))
        elif which == 'TerminatorShorted':
            c.eq('no voltage', V, 0, scale=abs(a))
        else:
            c.eq('V = 50 I', V, 50 * I, scale=abs(a))
    term(lambda c: getattr(e, which)(), law)(c)


def series(name, make, law):
    @S.case(name)
    def case(c):
        s = Sys(c)
        el, info = make(c)
        el = s.add('el', el)
        key, f, oth = freqs(c, s)
        V, I, a = waves(c, el, [el.pe_A, el.pe_B], key, oth)
        sc = abs(a[0]) + abs(a[1]) if not c.sym else None
        c.eq('current through: I_A = -I_B', 50 * I[0], -50 * I[1], scale=sc)
        law(c, f, V, I, info, sc)
    return case


def mk_sr(c):
    R = c.pos('R')
    return e.SeriesResistor(resistance_Ohms=R), (R,)


def mk_sc(c):
    C = c.pos('C')
    return e.SeriesCapacitor(capacitance_Farads=C), (C,)


def mk_sl(c):
    L, R = c.pos('L'), c.nonneg('R')
    return e.SeriesInductor(inductance_Henries=L, resistance_Ohms=R), (L, R)


series('series resistor: V_A - V_B = R I', mk_sr,
       lambda c, f, V, I, p, sc: c.eq('V_A - V_B = R I', V[0] - V[1], p[0] * I[0], scale=sc))
series('series capacitor: I = i w C (V_A - V_B)', mk_sc,
       lambda c, f, V, I, p, sc: c.eq('I = iwC dV', 50 * I[0], 50 * 1j * w(c, f) * p[0] * (V[0] - V[1]), scale=sc))
series('series inductor: V_A - V_B = (R + i w L) I', mk_sl,
       lambda c, f, V, I, p, sc: c.eq('dV = (R + iwL) I', V[0] - V[1], (p[1] + 1j * w(c, f) * p[0]) * I[0], scale=sc))


@S.case('subclass impedance/admittance hooks define the law')
def _(c):
    """any impedance (admittance) function of frequency, not just the built-in ones"""
    from phasor.electronics import passive
    Z = c.cplx('Z')
    kind = c.choice('kind', ['TerminatorImpedance', 'TerminatorAdmittance', 'SeriesImpedance', 'SeriesAdmittance'])
    seen = []

    def fn(self, F):
        seen.append(F)
        return Z
    cls = type(str('X'), (getattr(passive, kind),), {
        'impedance_by_freq': fn, 'admittance_by_freq': fn})
    s = Sys(c)
    el = s.add('el', cls())
    f1 = c.pos('f1')
    F1 = s.freq('F1', f1)
    n = c.choice('n', [1, -1, 0, 3])
    key = ckey({F1: n} if n else {})
    two = kind.startswith('Series')
    V, I, a = waves(c, el, [el.pe_A, el.pe_B] if two else [el.pe_A], key, [])
    for F in seen:
        c.eq('evaluated at the frequency of the key', F, n * f1)
    dV = V[0] - V[1] if two else V[0]
    sc = sum(abs(x) for x in a) * (1 + abs(Z)) if not c.sym else None
    if kind.endswith('Impedance'):
        c.eq('V = Z I', dV, Z * I[0], scale=sc)
    else:
        c.eq('I = Y V', 50 * I[0], 50 * Z * dV, scale=sc)
    if two:
        c.eq('through current', 50 * I[0], -50 * I[1], scale=sc)


@S.case('transformer: winding currents balance, reciprocity, lossless')
def _(c):
    L1, L2 = c.pos('L1'), c.pos('L2')
    k = c.real('k', lo=0, hi=1)
    s = Sys(c)
    el = s.add('el', e.Transformer(L1_inductance_Henries=L1, L2_inductance_Henries=L2,
                                   transformer_k_by_freq=lambda F: k))
    f1 = c.pos('f1')
    key = ckey({s.freq('F1', f1): 1})
    P = [el.pe_A, el.pe_B, el.pe_C, el.pe_D]
    r = record(el, {key})
    M = r.matrix()
    Sm = [[M.get(((p.i, key), (q.o, key)), 0) for q in P] for p in P]
    for i in range(4):
        c.eq('primary winding current in = out [%d]' % i, Sm[i][0] + Sm[i][1], 1 if i < 2 else 0, scale=1)
        c.eq('secondary winding current in = out [%d]' % i, Sm[i][2] + Sm[i][3], 1 if i >= 2 else 0, scale=1)
        for j in range(i):
            c.eq('reciprocal %d%d' % (i, j), Sm[i][j], Sm[j][i], scale=1)
    for i in range(4):
        for j in range(i + 1):
            t = 0
            for q in range(4):
                t = t + Sm[i][q] * np.conj(Sm[j][q])
            c.eq('lossless %d%d' % (i, j), t, 1 if i == j else 0, scale=1)


@S.case('voltage divider solved end to end', arr=True)
def _(c):
    """real system assembly, solver contract, real meters and AC readout"""
    from phasor import readouts
    R1, R2, C = c.pos('R1'), c.pos('R2'), c.pos('C')
    s = Sys(c)
    V = s.add('V', e.VoltageSource())
    r1 = s.add('R1', e.SeriesResistor(resistance_Ohms=R1))
    r2 = s.add('R2', e.TerminatorResistor(resistance_Ohms=R2))
    c2 = s.add('C2', e.TerminatorCapacitor(capacitance_Farads=C))
    V.pe_A.bond(r1.pe_A)
    r1.pe_B.bond(r2.pe_A)
    r1.pe_B.bond(c2.pe_A)
    RV = s.add('RV', e.VoltageReadout(terminal=r2.pe_A))
    ro = s.add('ro', readouts.ACReadout(portD=V.V.i, portN=RV.V.o))
    Z2 = 1 / (1 / R2 + 1j * w(c, c.pos('f_AC')) * C)
    c.eq('divider', ro.AC_sensitivity, Z2 / (R1 + Z2))


@S.case('RLC network solved end to end', arr=False)
def _(c):
    """series R - L into parallel C with current readout"""
    from phasor import readouts
    R1, L, C = c.pos('R1'), c.pos('L'), c.pos('C')
    s = Sys(c)
    V = s.add('V', e.VoltageSource())
    r1 = s.add('R1', e.SeriesResistor(resistance_Ohms=R1))
    l1 = s.add('L1', e.SeriesInductor(inductance_Henries=L))
    c2 = s.add('C2', e.TerminatorCapacitor(capacitance_Farads=C))
    V.pe_A.bond(r1.pe_A)
    r1.pe_B.bond(l1.pe_A)
    l1.pe_B.bond(c2.pe_A)
    RI = s.add('RI', e.CurrentReadout(terminal=c2.pe_A, direction='in'))
    ro = s.add('ro', readouts.ACReadout(portD=V.V.i, portN=RI.I.o))
    W = w(c, c.pos('f_AC'))
    Zt = R1 + 1j * W * L + 1 / (1j * W * C)
    c.eq('current', ro.AC_sensitivity, 1 / Zt)
