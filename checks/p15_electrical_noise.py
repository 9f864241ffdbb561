"""P15: fluctuation-dissipation of the electrical layer and its noise sources."""
import numpy as np
from vc.harness import Suite
from checks.elec import Sys, record, ckey, freqs, drive, w
from phasor import electronics as e, readouts

S = Suite('P15')

ONE = ['one-sided', 'one sided', 'one', 'single-sided', 'single sided', 'single']
TWO = ['two-sided', 'two sided', 'two', 'double-sided', 'double sided', 'double']


def kT4(s):
    return 4 * s.sys.symbols.kB_J_K * s.sys.symbols.temp_K


@S.case('constants')
def _(c):
    s = Sys(c)
    c.true('k_B within 1e-5', abs(float(s.sys.symbols.kB_J_K) / 1.380649e-23 - 1) < 1e-5)


def noise_net(c, which):
    """a two-arm network between ground and a node, its impedance, and its johnson elements"""
    s = Sys(c, **({'sided_spectra': 2} if c.choice('spectra', [1, 2]) == 2 else {}))
    two = s.sys.sided_spectra == 2
    W = w(c, c.pos('f_AC'))
    R1, R2 = c.pos('R1'), c.pos('R2')
    if c.sym:
        for R in (R1, R2):
            c.assume('!=', R - 50)
    r1 = s.add('r1', e.TerminatorResistor(resistance_Ohms=R1))
    if which == 'R':
        node, Z = r1.pe_A, R1
    elif which == 'R+R':
        r2 = s.add('r2', e.SeriesResistor(resistance_Ohms=R2))
        r2.pe_A.bond(r1.pe_A)
        node, Z = r2.pe_B, R1 + R2
    elif which == 'R||R':
        r2 = s.add('r2', e.TerminatorResistor(resistance_Ohms=R2))
        r2.pe_A.bond(r1.pe_A)
        node, Z = r1.pe_A, R1 * R2 / (R1 + R2)
    elif which == 'R||C':
        C = c.pos('C')
        c1 = s.add('c1', e.TerminatorCapacitor(capacitance_Farads=C))
        c1.pe_A.bond(r1.pe_A)
        node, Z = r1.pe_A, R1 / (1 + 1j * W * C * R1)
    elif which == 'R||L(r)':
        L = c.pos('L')
        l1 = s.add('l1', e.TerminatorInductor(inductance_Henries=L, resistance_Ohms=R2))
        l1.pe_A.bond(r1.pe_A)
        zl = R2 + 1j * W * L
        node, Z = r1.pe_A, R1 * zl / (R1 + zl)
    elif which == 'R+L(r)||C':
        L, C = c.pos('L'), c.pos('C')
        l1 = s.add('l1', e.SeriesInductor(inductance_Henries=L, resistance_Ohms=R2))
        c1 = s.add('c1', e.TerminatorCapacitor(capacitance_Farads=C))
        l1.pe_A.bond(r1.pe_A)
        l1.pe_B.bond(c1.pe_A)
        zl = R1 + R2 + 1j * W * L
        node, Z = c1.pe_A, zl / (1 + 1j * W * C * zl)
    elif which == 'matched':
        r3 = s.add('r3', e.TerminatorMatched())
        r3.pe_A.bond(r1.pe_A)
        node, Z = r1.pe_A, R1 * 50 / (R1 + 50)
    return s, node, Z, (2 if two else 1)


for _which in ['R', 'R+R', 'R||R', 'R||C', 'R||L(r)', 'R+L(r)||C', 'matched']:
    def _mk(which):
        @S.case('Nyquist: open circuit voltage noise of %s is 4 k T Re Z' % which, samples=20)
        def _(c):
            s, node, Z, two = noise_net(c, which)
            I = s.add('I', e.CurrentSource())
            I.pe_A.bond(node)
            m = s.add('m', e.VoltageReadout(terminal=node))
            ro = s.add('ro', readouts.ACReadout(portD=I.ps_In.i, portN=m.V.o))
            c.eq('transimpedance', ro.AC_sensitivity, Z)
            Zc = Z if c.sym else np.asarray(Z, dtype=complex)
            re = (Zc + np.conj(Zc)) / 2
            c.eq('PSD', ro.AC_PSD * 1e23, 1e23 * kT4(s) * re / two)

        @S.case('Nyquist: short circuit current noise of %s is 4 k T Re Y' % which, samples=20)
        def _(c):
            s, node, Z, two = noise_net(c, which)
            V = s.add('V', e.VoltageSource())
            V.pe_A.bond(node)
            m = s.add('m', e.CurrentReadout(terminal=V.pe_A, direction='out'))
            ro = s.add('ro', readouts.ACReadout(portD=V.V.i, portN=m.I.o))
            c.eq('admittance', ro.AC_sensitivity, 1 / Z)
            Y = 1 / (Z if c.sym else np.asarray(Z, dtype=complex))
            re = (Y + np.conj(Y)) / 2
            c.eq('PSD', ro.AC_PSD * 1e23, 1e23 * kT4(s) * re / two)
    _mk(_which)


@S.case('Nyquist for a resistance of any size', sym=False, arr=False, bounded=True, samples=40)
def _(c):
    s = Sys(c)
    R = c.real('m', 1, 9) * 10.**c.choice('decade', [-10, -9, -8, -6, -4, -2, 2, 4, 6, 8])
    kind = c.choice('kind', ['TR', 'SR', 'TL', 'SL'])
    L = 1e-3 * R
    el = s.add('el', {'TR': lambda: e.TerminatorResistor(resistance_Ohms=R), 'SR': lambda: e.SeriesResistor(resistance_Ohms=R),
                      'TL': lambda: e.TerminatorInductor(inductance_Henries=L, resistance_Ohms=R),
                      'SL': lambda: e.SeriesInductor(inductance_Henries=L, resistance_Ohms=R)}[kind]())
    if kind[0] == 'S':
        g = s.add('g', e.TerminatorShorted())
        el.pe_B.bond(g.pe_A)
    V = s.add('V', e.VoltageSource())
    V.pe_A.bond(el.pe_A)
    m = s.add('m', e.CurrentReadout(terminal=V.pe_A, direction='out'))
    ro = s.add('ro', readouts.ACReadout(portD=V.V.i, portN=m.I.o))
    Z = R + (1j * 2 * np.pi * s.sys.F_AC.F_Hz.val * L if kind[1] == 'L' else 0)
    # the waves of a resistance far from their impedance carry little of it: some digits are lost
    c.eq('PSD', ro.AC_PSD / (kT4(s) * R / abs(Z)**2), 1, scale=1e7)


@S.case('switching johnson noise off removes it')
def _(c):
    s = Sys(c, include_johnson_noise=False)
    R1, L, r = c.pos('R1'), c.pos('L'), c.pos('r')
    kind = c.choice('kind', ['TR', 'SR', 'TL', 'SL', 'TM'])
    V = s.add('V', e.VoltageSource())
    el = {'TR': lambda: e.TerminatorResistor(resistance_Ohms=R1), 'SR': lambda: e.SeriesResistor(resistance_Ohms=R1),
          'TL': lambda: e.TerminatorInductor(inductance_Henries=L, resistance_Ohms=r),
          'SL': lambda: e.SeriesInductor(inductance_Henries=L, resistance_Ohms=r),
          'TM': e.TerminatorMatched}[kind]()
    el = s.add('el', el)
    V.pe_A.bond(el.pe_A)
    m = s.add('m', e.CurrentReadout(terminal=V.pe_A, direction='out'))
    ro = s.add('ro', readouts.ACReadout(portD=V.V.i, portN=m.I.o))
    c.eq('no noise', ro.AC_PSD, 0, scale=1e-30)


@S.case('sources of noise: series voltage and parallel current, sided conventions, both spectra', samples=30)
def _(c):
    kind = c.choice('kind', ['V', 'I', 'I two nodes', 'V2', 'I2'])
    sided = c.choice('sided', ONE + TWO if kind in ('V', 'I') else [ONE[0], TWO[0]])
    spectra = c.choice('spectra', [1, 2])
    s = Sys(c, include_johnson_noise=False, sided_spectra=spectra)
    R1, R2, N0, N1 = c.pos('R1'), c.pos('R2'), c.pos('N0'), c.pos('N1')
    f = c.pos('f_AC')
    psd = lambda F: N0 + N1 * F * F
    r1 = s.add('r1', e.TerminatorResistor(resistance_Ohms=R1))
    r2 = s.add('r2', e.SeriesResistor(resistance_Ohms=R2))
    t2 = s.add('t2', e.TerminatorShorted())
    r2.pe_B.bond(t2.pe_A)
    r1.pe_A.bond(r2.pe_A)
    port = c.choice('port', [0, 1])
    p = [r1.pe_A, r2.pe_A][port]
    if kind == 'V':
        s.add('n', e.VoltageFluctuation(port=p, Vsq_Hz_by_freq=psd, sided=sided))
        # divider seen from the meter on the other element
        h = R1 / (R1 + R2)
    elif kind == 'I':
        s.add('n', e.CurrentFluctuation(port=p, Isq_Hz_by_freq=psd, sided=sided))
        h = R1 * R2 / (R1 + R2)
    elif kind == 'V2':
        s.add('n', e.VoltageFluctuation2(port=p, Vsq_Hz_by_freq=psd, sided=sided))
    elif kind == 'I2':
        s.add('n', e.noise.CurrentFluctuation2(port=p, Isq_Hz_by_freq=psd, sided=sided))
    else:
        s.add('n', e.CurrentFluctuation(portA=r1.pe_A.i, portB=r1.pe_A.o, Isq_Hz_by_freq=psd, sided=sided))
        h = R1 * R2 / (R1 + R2)
    m = s.add('m', e.VoltageReadout(terminal=r2.pe_B, terminal_N=r2.pe_A))
    m1 = s.add('m1', e.CurrentReadout(terminal=t2.pe_A, direction='in'))
    ro = s.add('ro', readouts.ACReadout(portD=r1.pe_A.i, portN=m1.I.o))
    two = 1 if sided in TWO else 2          # two sided density of the source: psd/two
    adj = 2 if spectra == 1 else 1
    P = (N0 + N1 * f * f) / two * adj
    if kind in ('V', 'V2'):
        c.eq('current noise', ro.AC_PSD, P / (R1 + R2)**2)
    else:
        c.eq('current noise', ro.AC_PSD, P * (R1 / (R1 + R2))**2)


@S.case('meters outside of the fluctuation of their own port', samples=30)
def _(c):
    s = Sys(c, include_johnson_noise=False)
    R1, R2, N = c.pos('R1'), c.pos('R2'), c.pos('N')
    r1 = s.add('r1', e.TerminatorResistor(resistance_Ohms=R1))
    r2 = s.add('r2', e.TerminatorResistor(resistance_Ohms=R2))
    r1.pe_A.bond(r2.pe_A)
    s.add('n', e.VoltageFluctuation(port=r1.pe_A, Vsq_Hz_by_freq=lambda F: N, sided='one-sided'))
    which = c.choice('which', [0, 1])
    t = [r1, r2][which].pe_A
    o = [r1, r2][1 - which].pe_A
    mV = s.add('mV', e.VoltageReadout(terminal=t))
    mD = s.add('mD', e.VoltageReadout(terminal=t, terminal_N=o))
    mI = s.add('mI', e.CurrentReadout(terminal=t, direction='in'))
    rV = s.add('rV', readouts.ACReadout(portD=r1.pe_A.i, portN=mV.V.o))
    rD = s.add('rD', readouts.ACReadout(portD=r1.pe_A.i, portN=mD.V.o))
    rI = s.add('rI', readouts.ACReadout(portD=r1.pe_A.i, portN=mI.I.o))
    c.eq('voltage', rV.AC_PSD, N * (R2 / (R1 + R2))**2)
    c.eq('difference of two ends of a wire', rD.AC_PSD, 0, scale=N)
    c.eq('current', rI.AC_PSD, N / (R1 + R2)**2)
