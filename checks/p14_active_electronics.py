"""P14: ideal amplifiers impose V_out = G(f) (V_p - V_n) with their terminal laws."""
import numpy as np
from vc.harness import Suite
from checks.elec import Sys, record, ckey, freqs, drive, w
from phasor import electronics as e, readouts

S = Suite('P14')


def gains(c, s):
    """a gain that is an arbitrary function of frequency: G(f) for the key asked"""
    key, f, oth = freqs(c, s)
    G = c.cplx('G')
    seen = []

    def gain(F):
        seen.append(F)
        # a different value at any other frequency: G only at f
        d = F - f
        return G + d
    return key, f, oth, G, gain


@S.case('opamp: output voltage, input currents')
def _(c):
    s = Sys(c)
    key, f, oth, G, gain = gains(c, s)
    el = s.add('el', e.OpAmp(gain_by_freq=gain))
    V, I, a, x, y, sc, r = drive(c, el, [el.in_p, el.in_n, el.out], key, oth)
    sc = None if c.sym else sc * (1 + abs(G))
    c.eq('V_out = G (V_p - V_n)', V[2], G * (V[0] - V[1]), scale=sc)
    c.eq('no current into in_p', 50 * I[0], 0, scale=sc)
    c.eq('no current into in_n', 50 * I[1], 0, scale=sc)


@S.case('voltage amplifier: gain, input admittance, output impedance')
def _(c):
    s = Sys(c)
    key, f, oth, G, gain = gains(c, s)
    Y, Z = c.nonneg('Y') + 1j * c.real('Yi', special=[0]), c.nonneg('Z') + 1j * c.real('Zi', special=[0])
    el = s.add('el', e.VAmp(gain_by_freq=gain))
    el.Y_input, el.Z_output = Y, Z
    keys = {key} | set(oth)
    r = record(el, keys)
    M = r.matrix()
    # driving wave into in_n and out; the amplifier reads in_n.i and in_n.o
    a, b = c.cplx('a0'), c.cplx('a1')
    get = lambda p, q: M.get(((p, key), (q, key)), 0)
    bn = get(el.in_n.i, el.in_n.o) * a
    Vn, In = a + bn, (a - bn) / 50
    bo = get(el.in_n.i, el.out.o) * a + get(el.in_n.o, el.out.o) * bn + get(el.out.i, el.out.o) * b
    Vo, Io = b + bo, (b - bo) / 50
    sc = None if c.sym else 1e3 * (1 + abs(a) + abs(b)) * (1 + abs(G)) * (1 + abs(Z)) * (1 + abs(Y))
    c.eq('I_in = Y V_in', 50 * In, 50 * Y * Vn, scale=sc)
    c.eq('V_out = -G V_in + Z_out I_out', Vo, -G * Vn + Z * Io, scale=sc)


@S.case('inverting and non-inverting amplifier with finite gain, end to end')
def _(c):
    from phasor import readouts
    kind = c.choice('kind', ['inverting', 'follower', 'noninverting', 'open'])
    s = Sys(c)
    G = c.cplx('G')
    R1, R2 = c.pos('R1'), c.pos('R2')
    amp = s.add('amp', e.OpAmp(gain_by_freq=lambda F: G))
    V = s.add('V', e.VoltageSource())
    m = s.add('m', e.VoltageReadout(terminal=amp.out))
    if kind == 'inverting':
        r1 = s.add('r1', e.SeriesResistor(resistance_Ohms=R1))
        r2 = s.add('r2', e.SeriesResistor(resistance_Ohms=R2))
        t = s.add('t', e.TerminatorShorted())
        t.pe_A.bond(amp.in_p)
        V.pe_A.bond(r1.pe_A)
        r1.pe_B.bond(amp.in_n)
        r2.pe_A.bond(amp.in_n)
        r2.pe_B.bond(amp.out)
        want = -G * R2 / (R1 + R2 + G * R1)
    elif kind == 'follower':
        V.pe_A.bond(amp.in_p)
        amp.out.bond(amp.in_n)
        want = G / (1 + G)
    elif kind == 'noninverting':
        r1 = s.add('r1', e.TerminatorResistor(resistance_Ohms=R1))
        r2 = s.add('r2', e.SeriesResistor(resistance_Ohms=R2))
        V.pe_A.bond(amp.in_p)
        r1.pe_A.bond(amp.in_n)
        r2.pe_A.bond(amp.in_n)
        r2.pe_B.bond(amp.out)
        want = G / (1 + G * R1 / (R1 + R2))
    else:
        r1 = s.add('r1', e.TerminatorResistor(resistance_Ohms=R1))
        r2 = s.add('r2', e.TerminatorResistor(resistance_Ohms=R2))
        V.pe_A.bond(amp.in_n)
        r1.pe_A.bond(amp.in_p)
        r2.pe_A.bond(amp.out)
        want = -G
    ro = s.add('ro', readouts.ACReadout(portD=V.V.i, portN=m.V.o))
    c.eq('closed loop gain', ro.AC_sensitivity, want)


@S.case('amplifier driving a load from its output impedance, end to end')
def _(c):
    from phasor import readouts
    s = Sys(c)
    G, Z, Y = c.cplx('G'), c.nonneg('Z') + 1j * c.real('Zi', special=[0]), c.nonneg('Y') + 1j * c.real('Yi', special=[0])
    Rs, Rl = c.pos('Rs'), c.pos('Rl')
    amp = s.add('amp', e.VAmp(gain_by_freq=lambda F: G))
    amp.Y_input, amp.Z_output = Y, Z
    V = s.add('V', e.VoltageSource())
    r1 = s.add('r1', e.SeriesResistor(resistance_Ohms=Rs))
    r2 = s.add('r2', e.TerminatorResistor(resistance_Ohms=Rl))
    V.pe_A.bond(r1.pe_A)
    r1.pe_B.bond(amp.in_n)
    amp.out.bond(r2.pe_A)
    m = s.add('m', e.VoltageReadout(terminal=r2.pe_A))
    ro = s.add('ro', readouts.ACReadout(portD=V.V.i, portN=m.V.o))
    c.eq('gain', ro.AC_sensitivity, -G / (1 + Rs * Y) * Rl / (Rl + Z))


@S.case('imperfect opamp: input referred voltage and current noise', samples=20)
def _(c):
    from phasor import readouts
    s = Sys(c, include_johnson_noise=False)
    Gr, Gi = c.real('Gr'), c.real('Gi')
    en, inn = c.pos('en'), c.pos('in')
    Rp, Rn = c.pos('Rp'), c.pos('Rn')
    amp = s.add('amp', e.ImperfectOpAmp(gain_by_freq=lambda F: Gr + 1j * Gi * F, V_spectrum_one_sided=lambda F: en,
                                        I_spectrum_one_sided=lambda F: inn))
    rp = s.add('rp', e.TerminatorResistor(resistance_Ohms=Rp))
    rn = s.add('rn', e.TerminatorResistor(resistance_Ohms=Rn))
    V = s.add('V', e.VoltageSource())
    v = s.add('v', e.SeriesResistor(resistance_Ohms=1))
    rp.pe_A.bond(amp.in_p)
    rn.pe_A.bond(amp.in_n)
    m = s.add('m', e.VoltageReadout(terminal=amp.out))
    ro = s.add('ro', readouts.ACReadout(portD=amp.in_p.i, portN=m.V.o))
    c.eq('PSD', ro.AC_PSD, (Gr**2 + (Gi * c.pos('f_AC'))**2) * (en + inn * (Rp**2 + Rn**2)))
