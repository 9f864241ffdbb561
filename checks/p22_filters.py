"""P22: filters, amplifiers and state-space models apply the transfer function they are given."""
import itertools
import numpy as np
from vc.harness import Suite
from vc.phys import Sys, ckey, record
from vc import opt
from phasor import signals as sg, readouts
from phasor.signals import ZPSOS, siso_filter

S = Suite('P22')


def signed(c, s):
    """frequencies of several kinds and their signed values"""
    F1 = s.freq('F1', c.pos('f1'), F_center_Hz=7.)
    fa, f1 = s.sys.F_AC.F_Hz.val, F1.F_Hz.val
    A = s.sys.F_AC
    return [(ckey({A: 1}), fa), (ckey({A: -1}), -fa), (ckey({F1: 1}), f1), (ckey({F1: -2}), -2 * f1),
            (ckey({F1: 1, A: -1}), f1 - fa)]


def exactly(c, r, want):
    """the element contributes `want` {(pfrom, kfrom, pto, kto): value} and nothing else"""
    M = r.matrix()
    for (pk, pt), v in sorted(M.items(), key=repr):
        k = pk + pt
        if k in want:
            c.eq('%s -> %s' % (pk[1], pt[1]), v, want[k])
        else:
            c.eq('no coupling %s -> %s' % (pk[1], pt[1]), v, 0, scale=1)
    for k in want:
        c.true('coupled %s -> %s' % (k[1], k[3]), ((k[0], k[1]), (k[2], k[3])) in M)
    c.true('nothing else', not r.sources and not r.triplets and not r.noises and not r.injections)


def through(c, el, freqs, H):
    r = record(el, {k for k, f in freqs})
    exactly(c, r, {(el.ps_In.i, k, el.ps_Out.o, k): H(f) for k, f in freqs})


def endtoend(s, pin, pout, name='ac'):
    return later(s, pin, pout, name).AC_sensitivity


def later(s, pin, pout, name):
    return s.add(name, readouts.ACReadout(portD=pin, portN=pout))


def poly(c, n=3):
    a = [c.cplx('a%d' % k) for k in range(n)]
    return lambda f: sum(x * f**k for k, x in enumerate(a))


@S.case('gain')
def _(c):
    s = Sys(c)
    g = c.cplx('g')
    el = s.add('el', sg.Gain(gain=g))
    fr = signed(c, s)
    through(c, el, fr + [(s.kDC(), 0)], lambda f: g)
    c.eq('end to end', endtoend(s, el.ps_In.i, el.ps_Out.o), g)


@S.case('gain of one unless told otherwise')
def _(c):
    s = Sys(c)
    el = s.add('el', sg.Gain())
    fr = signed(c, s)
    through(c, el, fr, lambda f: 1)


@S.case('filter given as a function of frequency')
def _(c):
    s = Sys(c)
    H = poly(c)
    el = s.add('el', sg.TransferFunctionSISO(filter_func=H))
    through(c, el, signed(c, s) + [(s.kDC(), 0)], H)
    c.eq('end to end', endtoend(s, el.ps_In.i, el.ps_Out.o), H(s.sys.F_AC.F_Hz.val))


@S.case('subclass with its own filter function')
def _(c):
    s = Sys(c)
    H = poly(c)

    class Mine(siso_filter.TransferFunctionSISOBase):
        def filter_func(self, freq):
            return H(freq)
    el = s.add('el', Mine())
    through(c, el, signed(c, s) + [(s.kDC(), 0)], H)


@S.case('integrator')
def _(c):
    s = Sys(c)
    el = s.add('el', sg.Integrator())
    fr = signed(c, s)
    for k, f in fr:
        c.assume('!=', f)
    through(c, el, fr, lambda f: 1j / f)
    c.eq('end to end', endtoend(s, el.ps_In.i, el.ps_Out.o) * s.sys.F_AC.F_Hz.val, 1j)
    r = record(el, {s.kDC()})
    c.true('nothing at DC', not r.edges)


@S.case('cutoffs and no_DC select by the center of the frequency', arr=False)
def _(c):
    s = Sys(c)
    fc = c.pos('fc')
    hi, lo = c.pos('hi'), c.nonneg('lo')
    kw = {}
    w = c.choice('which', ['none', 'high', 'low', 'both'])
    if w in ('high', 'both'):
        kw['F_cutoff'] = hi
    if w in ('low', 'both'):
        kw['F_cutoff_low'] = lo
    nodc = c.choice('no_DC', [False, True])
    H = poly(c, 2)
    el = s.add('el', sg.TransferFunctionSISO(filter_func=H, no_DC=nodc, **kw))
    F1 = s.freq('F1', c.pos('f1'), F_center_Hz=fc)
    keys = [(ckey({F1: 1}), 1), (ckey({F1: -1}), -1), (ckey({F1: 3}), 3), (s.kDC(), 0)]
    want = {}
    for k, n in keys:
        x = abs(n) * fc
        if 'F_cutoff' in kw and bool(x > hi):
            continue
        if 'F_cutoff_low' in kw and bool(x < lo):
            continue
        if n == 0 and nodc:
            continue
        want[el.ps_In.i, k, el.ps_Out.o, k] = H(n * F1.F_Hz.val)
    exactly(c, record(el, {k for k, n in keys}), want)


@S.case('no_DC removes exactly zero frequency, for one gain at many frequencies too')
def _(c):
    s = Sys(c, F_AC=np.array([0., 1., 0., 3.]) if not c.sym else 0.)
    g = c.cplx('g')
    kind = c.choice('kind', ['gain', 'function'])
    el = s.add('el', sg.Gain(gain=g, no_DC=True) if kind == 'gain'
               else sg.TransferFunctionSISO(filter_func=lambda f: g * (1 + f), no_DC=True))
    got = endtoend(s, el.ps_In.i, el.ps_Out.o)
    f = np.asarray(s.sys.F_AC.F_Hz.val)
    want = np.where(f == 0, 0, g if kind == 'gain' else g * (1 + f))
    got = np.broadcast_to(np.asarray(got), want.shape)
    for k in np.ndindex(*want.shape):
        c.eq('gain at %r' % (f[k],), got[k], want[k], scale=abs(g) + 1)


@S.case('mechanical resonance', arr=False)
def _(c):
    s = Sys(c)
    m, f0, x = c.pos('m'), c.pos('f0'), c.pos('x')
    if c.choice('by', ['q', 'FWHM']) == 'q':
        el = s.add('el', sg.TransferFunctionSISOMechSingleResonance(mass_kg=m, center_Hz=f0, q_factor=x))
        width = f0 / x
    else:
        el = s.add('el', sg.TransferFunctionSISOMechSingleResonance(mass_kg=m, center_Hz=f0, FWHM_Hz=x))
        width = x
    c.eq('Q', el.q_factor * width, f0)
    c.eq('FWHM', el.FWHM_Hz, width)
    fr = signed(c, s)
    r = record(el, {k for k, f in fr})
    M = r.matrix()
    for k, f in fr:
        h = M[(el.ps_In.i, k), (el.ps_Out.o, k)]
        c.eq('H (k - m w^2 + i m w0 w / Q) = 1 at %s' % k,
             h * (m * (2 * np.pi)**2) * (f0**2 - f**2 + 1j * width * f), 1)


MANY = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 1, 1), (2, 3, 0, 0), (0, 0, 2, 2)]
FEW = [(0, 0, 0, 0), (1, 0, 0, 0), (0, 0, 0, 1), (1, 1, 0, 0)]


def roots(c, opts):
    n = c.choice('n', opts)
    zr = [c.real('zr%d' % k, nz=True) for k in range(n[0])]
    pr = [c.real('pr%d' % k, nz=True) for k in range(n[1])]
    zc = [c.cplx('zc%d' % k, nz=True) for k in range(n[2])]
    pc = [c.cplx('pc%d' % k, nz=True) for k in range(n[3])]

    def num(f):
        v = 1
        for z in zr:
            v = v * (1 - 1j * f / z)
        for z in zc:
            v = v * (1 - 1j * f / z) * (1 - 1j * f / z.conjugate())
        return v

    def den(f):
        v = 1
        for z in pr:
            v = v * (1 - 1j * f / z)
        for z in pc:
            v = v * (1 - 1j * f / z) * (1 - 1j * f / z.conjugate())
        return v
    return dict(zeros_r=zr, poles_r=pr, zeros_c=zc, poles_c=pc), num, den


@S.case('zeros and poles', samples=40, arr=False)
def _(c):
    s = Sys(c)
    kw, num, den = roots(c, MANY)
    el = s.add('el', ZPSOS.SZPCascade(**kw))
    fr = signed(c, s)[:2]
    for k, f in fr:
        c.assume('!=', den(f))
    M = record(el, {k for k, f in fr}).matrix()
    for k, f in fr:
        c.eq('H = zeros/poles at %s' % k, M[(el.ps_In.i, k), (el.ps_Out.o, k)] * den(f), num(f))
    c.eq('a real filter: H(-f) = H(f)*', M[(el.ps_In.i, fr[1][0]), (el.ps_Out.o, fr[1][0])],
         M[(el.ps_In.i, fr[0][0]), (el.ps_Out.o, fr[0][0])].conjugate()
         if hasattr(M[(el.ps_In.i, fr[0][0]), (el.ps_Out.o, fr[0][0])], 'conjugate') else 1)


@S.case('rational filter: gain, delay and unit gain at a frequency', samples=40, arr=False)
def _(c):
    s = Sys(c)
    kw, num, den = roots(c, FEW)
    g = c.real('g', nz=True)
    kw['gain'] = g
    d = c.choice('delay', ['none', 'delay'])
    t = 0
    if d == 'delay':
        t = kw['delay_s'] = c.pos('t')
    f0 = None
    if c.choice('norm', [False, True]):
        f0 = kw['gain_F_Hz'] = c.pos('f0')
        c.assume('!=', den(f0))
        c.assume('!=', num(f0))
    el = s.add('el', ZPSOS.SRationalFilter(**kw))
    fr = signed(c, s)[:2]
    for k, f in fr:
        c.assume('!=', den(f))
    M = record(el, {k for k, f in fr}).matrix()
    for k, f in fr:
        h = M[(el.ps_In.i, k), (el.ps_Out.o, k)] * den(f)
        want = num(f) * g * opt.exp(-2j * np.pi * f * t)
        if f0 is not None:
            # |H(f0)|^2 = |g|^2, with the phase of the zeros, poles and delay
            a2 = lambda v: v * v.conjugate() if hasattr(v, 'conjugate') else v * v
            c.eq('squared magnitude at %s' % k, a2(h) * a2(num(f0)), a2(want) * a2(den(f0)))
            x = h * (want.conjugate() if hasattr(want, 'conjugate') else want)
            c.eq('phase at %s' % k, getattr(x, 'imag', 0), 0, scale=1 + abs(x))
            c.ge('phase is not reversed at %s' % k, getattr(x, 'real', x), 0)
        else:
            c.eq('H at %s' % k, h, want)


@S.case('measured response at the AC frequency')
def _(c):
    s = Sys(c)
    g = c.cplx('g')
    own = c.choice('conjugate', ['default', 'given'])
    gc = c.cplx('gc') if own == 'given' else g.conjugate()
    kw = dict(gain_arrayC=gc) if own == 'given' else {}
    el = s.add('el', sg.TFACArray(gain_array=np.asarray(g), **kw))
    F1 = s.freq('F1', c.pos('f1'), F_center_Hz=7.)
    A = s.sys.F_AC
    ks = [ckey({A: 1}), ckey({A: -1}), ckey({A: 2}), ckey({A: 1, F1: 1}), ckey({A: -1, F1: -1}), ckey({F1: 1}), s.kDC()]
    r = record(el, set(ks))
    exactly(c, r, {(el.ps_In.i, ks[0], el.ps_Out.o, ks[0]): g, (el.ps_In.i, ks[1], el.ps_Out.o, ks[1]): gc})
    c.eq('end to end', endtoend(s, el.ps_In.i, el.ps_Out.o), g)


@S.case('distribution and summing amplifiers')
def _(c):
    s = Sys(c)
    n = c.choice('n', [1, 2, 4])
    g = {'x%d' % k: c.cplx('g%d' % k) for k in range(n)}
    h = {'x%d' % k: c.cplx('h%d' % k) for k in range(n)}
    D = s.add('D', sg.DistributionAmplifier(port_gains=g))
    U = s.add('U', sg.SummingAmplifier(port_gains=h))
    fr = signed(c, s) + [(s.kDC(), 0)]
    ks = {k for k, f in fr}
    exactly(c, record(D, ks), {(D.ps_In.i, k, getattr(D, x).o, k): v for k in ks for x, v in g.items()})
    exactly(c, record(U, ks), {(getattr(U, x).i, k, U.ps_Out.o, k): v for k in ks for x, v in h.items()})
    for x in g:
        s.sys.bond(getattr(D, x), getattr(U, x))
    c.eq('through both', endtoend(s, D.ps_In.i, U.ps_Out.o), sum(g[x] * h[x] for x in g),
         scale=1 + sum(abs(g[x] * h[x]) for x in g))


@S.case('matrix amplifier and filters of many inputs and outputs')
def _(c):
    s = Sys(c)
    full = [('a', 'a'), ('a', 'b'), ('b', 'b'), ('c', 'a')]
    pairs = c.choice('pairs', [[('a', 'b')], [('a', 'b'), ('b', 'a')], full])
    g = {p: c.cplx('g%s%s' % p) for p in pairs}
    h = {p: poly(c, 2) for p in pairs}
    A = s.add('A', sg.MatrixAmplifier(port_pair_gains=g))
    T = s.add('T', sg.TransferFunctionMIMO(port_pair_xfers=h))
    fr = signed(c, s) + [(s.kDC(), 0)]
    ks = {k for k, f in fr}
    exactly(c, record(A, ks), {(A.ps_In[i].i, k, A.O[o].o, k): v for k in ks for (i, o), v in g.items()})
    exactly(c, record(T, ks), {(T.ps_In[i].i, k, T.O[o].o, k): v(f) for k, f in fr for (i, o), v in h.items()})
    f = s.sys.F_AC.F_Hz.val
    i, o = pairs[-1]
    r1, r2 = later(s, A.ps_In[i].i, A.O[o].o, 'r1'), later(s, T.ps_In[i].i, T.O[o].o, 'r2')
    c.eq('end to end', r1.AC_sensitivity, g[i, o])
    c.eq('end to end, filters', r2.AC_sensitivity, h[i, o](f))


@S.case('max_freq drops what lies at or above it', arr=False)
def _(c):
    s = Sys(c)
    fm = c.pos('fm')
    h = poly(c, 2)
    T = s.add('T', sg.TransferFunctionMIMO(port_pair_xfers={('a', 'b'): h}, max_freq=fm))
    fr = signed(c, s) + [(s.kDC(), 0)]
    want = {(T.ps_In.a.i, k, T.O.b.o, k): h(f) for k, f in fr if bool(abs(f) < fm)}
    exactly(c, record(T, {k for k, f in fr}), want)


@S.case('loop of a summing amplifier, a filter and a distribution amplifier')
def _(c):
    s = Sys(c)
    H = poly(c, 2)
    g, h, k1, k2 = [c.cplx(n) for n in ('g', 'h', 'k1', 'k2')]
    U = s.add('U', sg.SummingAmplifier(port_gains=dict(a=g, b=h)))
    T = s.add('T', sg.TransferFunctionSISO(filter_func=H))
    D = s.add('D', sg.DistributionAmplifier(port_gains=dict(a=k1, b=k2)))
    s.sys.bond(U.ps_Out, T.ps_In)
    s.sys.bond(T.ps_Out, D.ps_In)
    s.sys.bond(D.b, U.b)
    f = s.sys.F_AC.F_Hz.val
    L = 1 - H(f) * k2 * h
    c.assume('!=', L)
    c.eq('closed loop', endtoend(s, U.a.i, D.a.o) * L, g * H(f) * k1)


def ss(c, dims, sparse=False):
    ni, no, nx = dims
    def mat(n, m, nm):
        M = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                M[i, j] = c.real('%s%d%d' % (nm, i, j), nz=True)
                if sparse and (i + 2 * j) % 3 == 1:
                    M[i, j] = 0
        return M if c.sym else np.array(M, dtype=float)
    return mat(nx, nx, 'A'), mat(nx, ni, 'B'), mat(no, nx, 'C'), mat(no, ni, 'D')


def ssmodel(c, s, A, B, C, D):
    return s.add('el', sg.StateSpaceModel(names_in=['u%d' % k for k in range(B.shape[1])],
                                          names_out=['y%d' % k for k in range(C.shape[0])], A=A, B=B, C=C, D=D))


def ss_oracle(c, A, B, C, D, x, ui):
    """(s - A) X = B, Y = C X + D by Cramer's rule; returns (numerators per output, determinant)"""
    n = A.shape[0]
    M = [[(x if i == j else 0) - A[i, j] for j in range(n)] for i in range(n)]
    b = [B[i, ui] for i in range(n)]

    def det(M):
        if len(M) == 1:
            return M[0][0]
        return sum((-1)**j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))
    d = det(M)
    X = [det([r[:k] + [b[i]] + r[k + 1:] for i, r in enumerate(M)]) for k in range(n)]
    return [sum(C[o, k] * X[k] for k in range(n)) + D[o, ui] * d for o in range(C.shape[0])], d


@S.case('state space, end to end: Y = (C (s - A)^-1 B + D) U', samples=30, arr=False)
def _(c):
    dims, sparse = c.choice('dims', [((1, 1, 1), False), ((2, 1, 1), False), ((1, 2, 1), False), ((1, 1, 2), False),
                                     ((2, 2, 2), False), ((2, 2, 2), True), ((1, 2, 3), True)])
    s = Sys(c)
    A, B, C, D = ss(c, dims, sparse)
    el = ssmodel(c, s, A, B, C, D)
    x = 2j * np.pi * s.sys.F_AC.F_Hz.val
    R = {(ui, o): later(s, el.ports_in[ui].i, el.ports_out[o].o, 'ac%d%d' % (ui, o))
         for ui in range(dims[0]) for o in range(dims[1])}
    for ui in range(dims[0]):
        num, d = ss_oracle(c, A, B, C, D, x, ui)
        c.assume('!=', d)
        for o in range(dims[1]):
            c.eq('y%d/u%d' % (o, ui), R[ui, o].AC_sensitivity * d, num[o],
                 scale=1 + abs(d) + abs(num[o]))


@S.case('state space: states, inputs and outputs in units of their own', sym=False, arr=False, bounded=True, samples=40)
def _(c):
    dims = c.choice('dims', [(1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 2)])
    s = Sys(c)
    A, B, C, D = ss(c, dims, c.choice('sparse', [False, True]))
    U = [-12, -6, 0, 6, 12]
    ux = np.array([10.**c.choice('x%d' % i, U) for i in range(dims[2])])
    ui = np.array([10.**c.choice('u%d' % i, U) for i in range(dims[0])])
    uo = np.array([10.**c.choice('y%d' % i, U) for i in range(dims[1])])
    el = ssmodel(c, s, A * ux[:, None] / ux, B * ux[:, None] / ui, C * uo[:, None] / ux, D * uo[:, None] / ui)
    x = 2j * np.pi * s.sys.F_AC.F_Hz.val
    R = {(i, o): later(s, el.ports_in[i].i, el.ports_out[o].o, 'ac%d%d' % (i, o))
         for i in range(dims[0]) for o in range(dims[1])}
    for i in range(dims[0]):
        num, d = ss_oracle(c, A, B, C, D, x, i)
        for o in range(dims[1]):
            c.eq('y%d/u%d' % (o, i), R[i, o].AC_sensitivity * d * ui[i] / uo[o], num[o], scale=1 + abs(d) + abs(num[o]))


@S.case('state space: the equations it contributes', samples=30, arr=False)
def _(c):
    dims = c.choice('dims', [(1, 1, 1), (2, 1, 2), (1, 3, 2), (2, 2, 3), (3, 1, 4)])
    s = Sys(c)
    A, B, C, D = ss(c, dims, c.choice('sparse', [False, True]))
    el = ssmodel(c, s, A, B, C, D)
    fr = signed(c, s)
    for k, f in fr:
        c.assume('!=', f)
    # referencing the ports creates them
    I, O, X = el.ports_in, el.ports_out, el.ports_states
    r = record(el, {k for k, f in fr})
    want = {}
    for k, f in fr:
        x = 2j * np.pi * f
        for i, j in itertools.product(range(dims[2]), range(dims[2])):
            want[X[j].node, k, X[i].node, k] = A[i, j] and A[i, j] / x
        for i, j in itertools.product(range(dims[2]), range(dims[0])):
            want[I[j].i, k, X[i].node, k] = B[i, j] and B[i, j] / x
        for i, j in itertools.product(range(dims[1]), range(dims[2])):
            want[X[j].node, k, O[i].o, k] = C[i, j]
        for i, j in itertools.product(range(dims[1]), range(dims[0])):
            want[I[j].i, k, O[i].o, k] = D[i, j]
    want = {k: v for k, v in want.items() if not (isinstance(v, (int, float, complex)) and v == 0)}
    exactly(c, r, want)


@S.case('signal generator')
def _(c):
    s = Sys(c)
    F1, F2 = s.freq('F1', c.pos('f1'), F_center_Hz=7.), s.freq('F2', c.pos('f2'), F_center_Hz=9.)
    a = c.cplx('a', nz=True)
    ph = c.real('ph')
    kw = {}
    if c.choice('phase', [False, True]):
        kw['phase_rad'] = ph
    else:
        ph = 0
    kind = c.choice('at', ['F', 'multiple', 'dict'])
    d = {F1: 1} if kind == 'F' else ({F1: 3} if kind == 'multiple' else {F1: 2, F2: -1})
    kw.update({'F': dict(F=F1), 'multiple': dict(F=F1, multiple=3), 'dict': dict(f_dict=d)}[kind])
    ac = a.conjugate()
    if c.choice('lower', ['default', 'given']) == 'given':
        ac = kw['amplitudeC'] = c.cplx('ac', nz=True)
    g2, g3 = c.cplx('g2', nz=True), c.cplx('g3', nz=True)
    el = s.add('el', sg.SignalGenerator(amplitude=a, harmonic_gains={2: g2, 3: g3}, **kw))
    r = record(el, set())
    got = r.sourcevec()
    want = {}
    e = opt.exp
    for n, port, u, l in ((1, el.ps_Out, a, ac), (2, el.OutH2, g2, g2.conjugate()), (3, el.OutH3, g3, g3.conjugate())):
        want[port.o, ckey({F: n * m for F, m in d.items()})] = u * e(1j * n * ph)
        want[port.o, ckey({F: -n * m for F, m in d.items()})] = l * e(-1j * n * ph)
    c.true('the lines it makes', set(got) == set(want))
    for k in sorted(want, key=repr):
        if k in got:
            c.eq('%s' % (k[1],), got[k], want[k])
    c.true('nothing else', not r.edges and not r.triplets and not r.noises)
