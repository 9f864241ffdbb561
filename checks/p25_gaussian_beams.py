"""P25: Gaussian beams: their parameters, propagation, Gouy phase and overlap."""
import itertools
import numpy as np
from vc.harness import Suite
from vc import phys, opt
import phasor.alm as alm
from phasor.alm import beam_param, substrates, utils
from phasor.math.complex import Complex

S = Suite('P25')
phys.install()
Q = beam_param.ComplexBeamParam
pi = np.pi


def val(c, q):
    """the complex number a beam parameter holds"""
    v = q.value if isinstance(q, Q) else q
    return v.real + 1j * v.imag


def beam(c, n='', lam=None, **kw):
    z, zr = c.real('z' + n), c.pos('r' + n)
    lam = c.pos('lam' + n) if lam is None else lam
    return Q.from_Z_ZR(z, zr, wavelen=lam, **kw), z, zr, lam


def matrix(c, n=''):
    a, b, d = (c.real(x + n) for x in 'abd')
    e = c.real('e' + n)
    if np.shape(a):
        return np.array([[a, b], [d, e]]), (a, b, d, e)
    return np.matrix([[a, b], [d, e]], dtype=object if c.sym else float), (a, b, d, e)


def sq(z):
    return z.real**2 + z.imag**2


@S.case('waist, size, curvature and divergence agree', samples=40)
def _(c):
    q, z, zr, lam = beam(c)
    c.eq('place', q.Z, z)
    c.eq('Rayleigh range', q.ZR, zr)
    c.eq('waist size', q.W0**2 * pi, lam * zr)
    c.eq('size', q.W**2 * zr * zr, q.W0**2 * (zr * zr + z * z))
    c.eq('curvature', q.R_inv * (z * z + zr * zr), z)
    c.eq('divergence', q.divergence_rad * pi * q.W0, 2 * lam)
    c.eq('wavenumber', q.k * lam, 2 * pi)
    c.ge('positive size', q.W, 0)
    c.ge('positive waist', q.W0, 0)


@S.case('curvature radius', arr=False, samples=20)
def _(c):
    q, z, zr, lam = beam(c)
    c.assume('!=', z)
    c.eq('radius', q.R * z, z * z + zr * zr)


@S.case('a beam from its waist, size, curvature or divergence', arr=False, samples=40)
def _(c):
    lam, w = c.pos('lam'), c.pos('w')
    kind = c.choice('from', ['waist', 'size and curvature', 'flat', 'divergence', 'range'])
    z = c.real('z')
    if kind == 'waist':
        q = Q.from_Z_W0(z, w, wavelen=lam)
        c.eq('waist', q.W0, w)
        c.eq('place', q.Z, z)
    elif kind == 'range':
        q = Q.from_Z_ZR(z, w, wavelen=lam)
        c.eq('range', q.ZR, w)
        c.eq('place', q.Z, z)
    elif kind == 'divergence':
        q = Q.from_dRad_Z(w, z, wavelen=lam)
        c.eq('divergence', q.divergence_rad, w)
        c.eq('place', q.Z, z)
    elif kind == 'flat':
        q = Q.from_W_R(w, 0, wavelen=lam)
        c.eq('size', q.W, w)
        c.eq('curvature', q.R_inv, 0)
    else:
        c.assume('!=', z)
        q = Q.from_W_R(w, z, wavelen=lam)
        c.eq('size', q.W, w)
        c.eq('curvature', q.R, z)
    c.eq('wavelength', q.wavelen, lam)
    g = c.cplx('g', nz=True)
    mk = {'waist': Q.from_Z_W0, 'range': Q.from_Z_ZR}.get(kind)
    if mk is not None:
        p = mk(z, w, wavelen=lam, gouy_phasor=g)
        c.eq('phasor', p.gouy_phasor, g)
        p = mk(z, w)
        c.eq('nominal wavelength', p.wavelen, 1.064e-6)
        c.eq('no phase', p.gouy_phasor, 1)


@S.case('a beam follows the matrix of the optics', samples=40)
def _(c):
    g = c.cplx('g', nz=True)
    q, z, zr, lam = beam(c, gouy_phasor=g)
    m, (a, b, d, e) = matrix(c)
    v = z + 1j * zr
    c.assume('!=', (v * d + e).real**2 + (v * d + e).imag**2)
    p = q.propagate_matrix(m)
    c.eq('parameter', val(c, p) * (d * v + e), a * v + b)
    c.eq('wavelength', p.wavelen, lam * (a * e - b * d))
    # the phase gained is that of conj(A + B/q)
    w = np.conjugate(a + b / v)
    t = p.gouy_phasor * np.conjugate(g) * np.conjugate(w)
    c.eq('phase', t.imag, 0, scale=None if c.sym else 1 + abs(t))
    c.ge('phase, not its opposite', t.real, 0)


@S.case('a beam over a distance', samples=30)
def _(c):
    g = c.cplx('g', nz=True)
    q, z, zr, lam = beam(c, gouy_phasor=g)
    l = c.real('l')
    p = q.propagate_distance(l)
    c.eq('place', p.Z, z + l)
    c.eq('Rayleigh range', p.ZR, zr)
    c.eq('waist', p.W0, q.W0)
    c.eq('wavelength', p.wavelen, lam)
    # atan(z/zr) advances
    t = p.gouy_phasor * np.conjugate(g) * (zr + 1j * z) * (zr - 1j * (z + l))
    c.eq('Gouy phase', t.imag, 0, scale=None if c.sym else 1 + abs(t))
    c.ge('Gouy phase, not its opposite', t.real, 0)


@S.case('propagation composes', arr=False, samples=30)
def _(c):
    q, z, zr, lam = beam(c)
    m1, (a, b, d, e) = matrix(c, '1')
    m2, _ = matrix(c, '2')
    c.assume('>', a * e - b * d)
    c.assume('>', m2[0, 0] * m2[1, 1] - m2[0, 1] * m2[1, 0])
    p1 = q.propagate_matrix(m1).propagate_matrix(m2)
    p2 = q.propagate_matrix(m2 * m1)
    x, y = val(c, p1), val(c, p2)
    sc = None if c.sym else 1 + abs(x) ** 2
    c.eq('parameter', x, y, scale=sc)
    c.eq('wavelength', p1.wavelen, p2.wavelen)
    t = p1.gouy_phasor * np.conjugate(p2.gouy_phasor)
    c.eq('phase', t.imag, 0, scale=None if c.sym else 1 + abs(t))
    c.ge('phase, not its opposite', t.real, 0)


@S.case('overlap of two beams', arr=False, samples=40)
def _(c):
    lam = c.pos('lam')
    q, z, zr, _ = beam(c, '1', lam)
    p, y, yr, _ = beam(c, '2', lam)
    o, o2 = val(c, q.overlap_with(p)), val(c, p.overlap_with(q))
    d = (z - y)**2 + (zr + yr)**2
    c.eq('power', sq(o) * d, 4 * zr * yr)
    c.eq('from the other side', o2, np.conjugate(o))
    s = val(c, q.overlap_with(q))
    c.eq('with itself', s, 1)
    l = c.real('l')
    o3 = val(c, q.propagate_distance(l).overlap_with(p.propagate_distance(l)))
    c.eq('further on', sq(o3), sq(o))
    f = c.real('f', nz=True)
    o4 = val(c, q.propagate_matrix(utils.matrix_focus(f)).overlap_with(p.propagate_matrix(utils.matrix_focus(f))))
    c.eq('past a lens', sq(o4), sq(o))


@S.case('the same beam met from the other side', samples=20)
def _(c):
    g = c.cplx('g', nz=True)
    q, z, zr, lam = beam(c, gouy_phasor=g)
    p = q.reversed()
    c.eq('place', p.Z, -z)
    c.eq('range', p.ZR, zr)
    c.eq('size', p.W, q.W)
    c.eq('curvature', p.R_inv, -q.R_inv)
    c.eq('wavelength', p.wavelen, lam)
    c.eq('phase', p.gouy_phasor, g)
    c.eq('twice', val(c, p.reversed()), z + 1j * zr)


@S.case('coupling to the second order mode', samples=20)
def _(c):
    g = c.cplx('g', nz=True)
    q, z, zr, lam = beam(c, gouy_phasor=g)
    v = z + 1j * zr
    x = q.cplg02
    c.eq('cplg02', val(c, x) * zr * np.conjugate(v) * np.conjugate(g), v * g)


@S.case('sensitivity to displacement and tilt', arr=False, samples=20)
def _(c):
    q, z, zr, lam = beam(c)
    M = q.sensitivity_matrix
    for i, j, w in ((0, 0, 1), (0, 1, -z), (1, 0, -z), (1, 1, z * z + zr * zr)):
        c.eq('matrix %d%d' % (i, j), M[i, j] * lam * zr * 2, -pi * w)
    if not c.sym:
        R = q.sensitivity_matrix_sqrt
        for i, j in itertools.product((0, 1), (0, 1)):
            c.eq('root %d%d' % (i, j), (R * R)[i, j], -M[i, j], scale=float(abs(M).max()))


@S.case('resonant beam of a stable resonator', arr=False, samples=40)
def _(c):
    m, (a, b, d, e) = matrix(c)
    c.assume('!=', d)
    c.assume('>', -((a - e)**2 + 4 * b * d))
    q = utils.eigen_q(m)
    v = val(c, q)
    c.eq('returns to itself', v * (d * v + e), a * v + b, scale=None if c.sym else 1 + abs(v)**2 * abs(d) + abs(b))
    c.ge('positive Rayleigh range', v.imag, 0)
    c.true('not degenerate', bool(v.imag > 0))


@S.case('profile of a beam', sym=False, bounded=True, arr=False, samples=25)
def _(c):
    q, z, zr, lam = beam(c)
    if not .1 < lam < 10:
        lam = 1.
        q = Q.from_Z_ZR(z, zr, wavelen=lam)
    tr, tilt = c.real('t') / 4, .1
    w = q.W
    x = np.linspace(-6 * w, 6 * w, 4001) - tr
    u = beam_param.beam_shape_1D(x, q, tr, 0.)
    dx = x[1] - x[0]
    c.eq('unit power', np.sum(abs(u)**2) * dx, 1)
    c.eq('width', 4 * np.sum(abs(u)**2 * (x + tr)**2) * dx, w * w)
    o = beam_param.beam_shape_1D(x, q, tr, tilt) / u
    c.eq('tilt', o, np.exp(2j * pi * x / lam * np.sin(tilt)))
    xy = beam_param.beam_transverse(x[:3], x[5:9], q)
    c.eq('two dimensions', xy, np.outer(beam_param.beam_shape_1D(x[5:9], q, 0., 0.), beam_param.beam_shape_1D(x[:3], q, 0., 0.)))


# ---------------------------------------------------------------------------
# beams in a layout

def layout(c, resonator=False):
    x, w, f, l = c.pos('x'), c.pos('w'), c.real('f', nz=True), c.pos('l')
    q, z, zr, lam = beam(c, '1', 1.064e-6)
    p, y, yr, _ = beam(c, '2', 1.064e-6)
    s = alm.RootSystem(env_substrate=substrates.substrate_vacuum)
    s.own.q1 = alm.BeamTarget(loc_m=0, q_raw=q)
    s.own.lens = alm.ThinLens(loc_m=x, f_m=f)
    s.own.q2 = alm.BeamTarget(loc_m=x + w, q_raw=p)
    s.own.end = alm.NoP(loc_m=x + w + l)
    M = lambda n, b: np.array([[1, n], [b, 1]], dtype=object if c.sym else float)
    A, F, B, C = M(x, 0), M(0, -1 / f), M(w, 0), M(l, 0)
    return s, (q, p), (x, w, f, l), (A, F, B, C)


def moebius(m, v):
    return (m[0, 0] * v + m[0, 1]) / (m[1, 0] * v + m[1, 1])


@S.case('beams at the places of a layout', arr=False, samples=30)
def _(c):
    s, (q, p), (x, w, f, l), (A, F, B, C) = layout(c)
    src = c.choice('source', [None, 'q1', 'q2', 'principal'])
    if src == 'principal':
        s.env_principle_target = 'q2'
    u = c.pos('u')
    at = c.choice('at', ['before the lens', 'past the lens', 'right end', 'q1', 'q2'])
    m = np.linalg.inv if not c.sym else phys.np.linalg.inv
    two = src in ('q2', 'principal')
    v = val(c, p if two else q)
    path = B.dot(F).dot(A)
    if at == 'before the lens':
        c.assume('>', x - u)
        t, z = np.array([[1, u], [0, 1]], dtype=A.dtype), u
    elif at == 'past the lens':
        c.assume('>', w - u)
        t, z = np.array([[1, u], [0, 1]], dtype=A.dtype).dot(F).dot(A), x + u
    elif at == 'right end':
        t, z = C.dot(path), ('right',)
        z = utils.TargetRight
    elif at == 'q1':
        t, z = np.array([[1, 0], [0, 1]], dtype=A.dtype), 'q1'
    else:
        t, z = path, 'q2'
    if two:
        t = t.dot(m(path))
    kw = dict(beam_source=src) if src in ('q1', 'q2') else {}
    got = s.measurements.target_q(z, **kw)
    sc = None if c.sym else 1 + abs(moebius(t, v)) ** 2
    c.eq('beam', val(c, got), moebius(t, v), scale=sc)
    if at in ('before the lens', 'past the lens'):
        got = s.measurements.q_target_z(z, **kw)
        c.eq('beam', val(c, got), moebius(t, v), scale=sc)
        if src in (None, 'q1'):
            mt = s.measurements.mat_target_z('q1', z)
            for i, j in itertools.product((0, 1), (0, 1)):
                c.eq('matrix', mt[i, j], t[i, j])
    c.eq('wavelength', got.wavelen, 1.064e-6)


@S.case('overlap and phase between targets', arr=False, samples=30)
def _(c):
    s, (q, p), (x, w, f, l), (A, F, B, C) = layout(c)
    path = B.dot(F).dot(A)
    v, y = moebius(path, val(c, q)), val(c, p)
    o = val(c, s.measurements.overlap('q1', 'q2'))
    d = (v.real - y.real)**2 + (v.imag + y.imag)**2
    c.eq('power', sq(o) * d, 4 * v.imag * y.imag)
    o = val(c, s.measurements.overlap())
    c.eq('power of the only two', sq(o) * d, 4 * v.imag * y.imag)
    mt = s.measurements.mat_target_between('q1', 'q2')
    for i, j in itertools.product((0, 1), (0, 1)):
        c.eq('matrix', mt[i, j], path[i, j])
    g = s.measurements.relative_gouy_phasor('q1', 'q2')
    want = np.conjugate(path[0, 0] + path[0, 1] / val(c, q))
    c.eq('unit phasor', sq(g), 1)
    t = g * np.conjugate(want)
    c.eq('phase', t.imag, 0, scale=None if c.sym else 1 + abs(t))
    c.ge('phase, not its opposite', t.real, 0)
    # between two positions
    u = c.pos('u')
    c.assume('>', w - u)
    g = s.measurements.relative_gouy_phasor('q1', x + u)
    m = np.array([[1, u], [0, 1]], dtype=A.dtype).dot(F).dot(A)
    t = g * (m[0, 0] + m[0, 1] / val(c, q))
    c.eq('phase to a position', t.imag, 0, scale=None if c.sym else 1 + abs(t))
    c.ge('phase to a position, not its opposite', t.real, 0)


@S.case('phase between two positions', arr=False, samples=30)
def _(c):
    s, (q, p), (x, w, f, l), (A, F, B, C) = layout(c)
    u, k = c.pos('u'), c.pos('k')
    c.assume('>', w - u)
    c.assume('>', x - k)
    g = s.measurements.relative_gouy_phasor(k, x + u)
    M = lambda n: np.array([[1, n], [0, 1]], dtype=A.dtype)
    m = M(u).dot(F).dot(M(x - k))
    v = val(c, q) + k
    t = g * (m[0, 0] + m[0, 1] / v)
    c.eq('phase', t.imag, 0, scale=None if c.sym else 1 + abs(t))
    c.ge('phase, not its opposite', t.real, 0)
    g = s.measurements.relative_gouy_phasor(x + u, 'q2')
    v = moebius(M(u).dot(F).dot(A), val(c, q))
    t = g * (1 + (w - u) / v)
    c.eq('phase to a target', t.imag, 0, scale=None if c.sym else 1 + abs(t))
    c.ge('phase to a target, not its opposite', t.real, 0)


@S.case('many positions at once', sym=False, bounded=True, arr=False, samples=15)
def _(c):
    s, (q, p), (x, w, f, l), (A, F, B, C) = layout(c)
    end = x + w + l
    zs = np.array([.1, .3, .55, .8, .95]) * end
    order = c.choice('order', ['rising', 'falling', 'mixed'])
    if order == 'falling':
        zs = zs[::-1]
    elif order == 'mixed':
        zs = zs[[3, 0, 4, 2, 1]]
    src = c.choice('source', ['q1', 'q2'])
    if order == 'mixed':
        zs = np.concatenate([zs, zs[:1]]).reshape(2, 3)
    got = val(c, s.measurements.q_target_z(zs, beam_source=src))
    c.true('shape', got.shape == zs.shape)
    for i in np.ndindex(zs.shape):
        mt = s.measurements.mat_target_z(src, zs)
        m1 = s.measurements.mat_target_z(src, zs[i])
        for a, b in itertools.product((0, 1), (0, 1)):
            c.eq('matrix', mt[(a, b) + i], m1[a, b])
        c.eq('beam', got[i], val(c, s.measurements.q_target_z(zs[i], beam_source=src)))


@S.case('a resonator gives its beam to the layout', arr=False, samples=20)
def _(c):
    d, r = c.pos('d'), c.pos('r')
    c.assume('>', r * 2 - d)      # stable
    s = alm.RootSystem(env_substrate=substrates.substrate_vacuum)
    s.own.q1 = alm.BeamTarget(loc_m=0, q_system=alm.System(loc_m=0))
    cav = s.q1.q_system
    cav.own.m1 = alm.Mirror(R_m=r, loc_m=0)
    cav.own.m2 = alm.Mirror(R_m=r, loc_m=d)
    cav.own.back = alm.NoP(loc_m=2 * d)
    c.assume('!=', r - d)
    v = val(c, s.q1.beam_q)
    M = cav.matrix
    c.eq('resonant', v * (M[1, 0] * v + M[1, 1]), M[0, 0] * v + M[0, 1], scale=None if c.sym else 1 + abs(v)**2 / r + d)
    # symmetric resonator, just before its mirror: half its length from the waist
    c.eq('waist in the middle', v.imag**2 * 4, d * (2 * r - d))
    c.eq('place', sq(v) and v.real**2 * 4, d * d)


@S.case('waists are found in their spaces', arr=False, samples=30)
def _(c):
    q, z, zr, lam = beam(c, '1', 1.064e-6)
    n, l = c.pos('n'), c.pos('l')
    s = alm.RootSystem(env_substrate=substrates.Substrate(n_by_lambda_nm={1064: n}))
    s.own.sp = alm.Space(loc_m=0, L_m=l)
    if c.sym:
        alm.space.str_m = lambda *a, **k: ''      # text only
    at = c.real('at')
    c.assume('>', (z * n)**2 - 1e-8)        # not at an end
    c.assume('!=', z * n + l)
    c.assume('!=', z * n - l)
    side = c.choice('side', ['left', 'right'])
    got = s.sp.waist_description(at, q, utils.TargetLeft if side == 'left' else utils.TargetRight)
    inside = bool(-z * n > 0) and bool(-z * n < l) if side == 'left' else bool(z * n > 0) and bool(z * n < l)
    c.true('found', (got is not None) == inside)
    if got is not None:
        c.eq('where', got.z, at - z * n)
        c.eq('range', got.ZR, zr)
