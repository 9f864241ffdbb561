"""P24: beam layouts: ray matrices of elements, systems and the paths between their targets."""
import itertools
import numpy as np
from vc.harness import Suite
from vc import phys
import phasor.alm as alm
from phasor.alm import bases, beam_param, substrates
from phasor.alm.utils import TargetIdx, TargetLeft, TargetRight

S = Suite("P24")
phys.install()
Q = beam_param.ComplexBeamParam
N0 = 1.          # refractive index of the surroundings
L, R = TargetLeft, TargetRight


def mat(a, b, c, d):
    return [[a, b], [c, d]]


def mul(*ms):
    r = mat(1, 0, 0, 1)
    for m in ms:
        r = [[sum(r[i][k] * m[k][j] for k in (0, 1)) for j in (0, 1)] for i in (0, 1)]
    return r


def inv(m):
    d = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return mat(m[1][1] / d, -m[0][1] / d, -m[1][0] / d, m[0][0] / d)


def sp(l, n=N0):
    return mat(1, l / n, 0, 1)


def lens(f):
    return mat(1, 0, -1 / f, 1)


def back(m):
    """the same optics met from the other side"""
    i = inv(m)
    return mat(i[0][0], -i[0][1], -i[1][0], i[1][1])


def eq(c, label, got, want):
    got = np.asarray(got)
    for i, j in itertools.product((0, 1), (0, 1)):
        c.eq('%s [%d%d]' % (label, i, j), got[i, j], want[i][j], scale=None if c.sym else 1 + sum(abs(x) for r in want for x in r)**2)


def increasing(c, n, first=0.):
    zs = [first]
    for i in range(n):
        zs.append(zs[-1] + c.pos('d%d' % i))
    return zs


def substrate(c, name, lam=1064):
    return substrates.Substrate(n_by_lambda_nm={lam: c.pos(name), 1596 - lam: 1.})


@S.case('elements', arr=False, samples=40)
def _(c):
    rev = c.choice('reversed', [False, True])
    lam = c.choice('wavelength', [1064, 532])
    AIR, GLASS = substrate(c, 'n1', lam), substrate(c, 'n2', lam)
    n1, n2 = AIR.n_by_lambda_nm[lam], GLASS.n_by_lambda_nm[lam]
    s = alm.RootSystem(env_wavelength_nm=lam, env_substrate=AIR)
    s.own.sub = alm.System(loc_m=0, reversed=rev)
    kind = c.choice('element', ['lens', 'mirror', 'flat mirror', 'generic', 'nothing', 'curved interface', 'flat interface', 'space in glass', 'space'])
    r = c.real('r', nz=True)
    if kind == 'lens':
        e, m = alm.ThinLens(f_m=r, loc_m=0), lens(r)
    elif kind == 'mirror':
        e, m = alm.Mirror(R_m=r, loc_m=0), lens(r / 2)
    elif kind == 'flat mirror':
        e, m = alm.Mirror(R_m=None, loc_m=0), mat(1, 0, 0, 1)
    elif kind == 'generic':
        b, d = c.real('b'), c.real('d')
        e, m = alm.ABCDGeneric(A=r, B=b, C=d, loc_m=0), mat(r, b, d, (1 + b * d) / r)
    elif kind == 'nothing':
        e, m = alm.NoP(loc_m=0), mat(1, 0, 0, 1)
    elif kind == 'space':
        e, m = alm.Space(L_m=r, loc_m=0), sp(r, n1)
    elif kind == 'space in glass':
        e, m = alm.Space(L_m=r, loc_m=0, substrate=GLASS), sp(r, n2)
    else:
        flat = kind == 'flat interface'
        e = bases.LensInterface(R_m=None if flat else r, loc_m=0, substrate_to=GLASS)
        m = mat(1, 0, 0 if flat else (n1 / n2 - 1) / r, n1 / n2)
        if rev:
            m = mat(1, 0, 0 if flat else -(n2 / n1 - 1) / r, n2 / n1)
    s.sub.own.e = e
    e = s.sub.e
    c.eq('side', bool(e.env_reversed), rev)
    eq(c, 'matrix', e.matrix, m)
    eq(c, 'its inverse', e.matrix_inv, inv(m))
    eq(c, 'left to right', e.matrix_between(L, R), m)
    eq(c, 'right to left', e.matrix_between(R, L), inv(m))
    eq(c, 'nowhere', e.matrix_between(L, L), mat(1, 0, 0, 1))
    eq(c, 'nowhere', e.matrix_between(R, R), mat(1, 0, 0, 1))
    if kind.startswith('space'):
        # an inner position, reached from either side
        n = n1 if kind == 'space' else n2
        z = c.nonneg('z')
        c.assume('>=', r - z)
        eq(c, 'from the left to a place inside', e.matrix_target_to_z_single(L, z), sp(z, n))
        eq(c, 'from the right to a place inside', e.matrix_target_to_z_single(R, z), mul(sp(z, n), inv(m)))


# ---------------------------------------------------------------------------
# systems

def layout(c, rev=False, order=None):
    """four thin things and a thick one at increasing places; reference = list of (position, name, matrix, width)"""
    zs = increasing(c, 3)
    w = c.pos('w')
    f, g = c.real('f', nz=True), c.real('g', nz=True)
    s = alm.RootSystem(reversed=rev, env_substrate=substrates.substrate_vacuum)
    qa = Q(c.cplx('qa'), wavelen=1e-6)
    parts = [
        ('q1', lambda: alm.BeamTarget(loc_m=zs[0], q_raw=qa), zs[0], mat(1, 0, 0, 1), 0),
        ('l1', lambda: alm.ThinLens(loc_m=zs[1], f_m=f), zs[1], lens(f), 0),
        ('sp', lambda: alm.Space(loc_m=zs[2], L_m=w), zs[2], sp(w), w),
        ('l2', lambda: alm.ThinLens(loc_m=zs[3] + w, f_m=g), zs[3] + w, lens(g), 0),
    ]
    for i in (order or range(4)):
        s.insert(parts[i][1](), parts[i][0])
    ref = []
    end = parts[-1][2]
    for nm, _, z, m, wd in parts:
        ref.append((nm, end - z - wd if rev else z, m, wd))
    if rev:
        ref = ref[::-1]
    return s, ref, qa


def total(ref, a, b):
    """matrix from just left of element a to just left of element b (len(ref) = right end)"""
    m = mat(1, 0, 0, 1)
    for i in range(a, b):
        m = mul(ref[i][2], m)
        if i + 1 < len(ref):
            m = mul(sp(ref[i + 1][1] - ref[i][1] - ref[i][3]), m)
    return m


@S.case('a system is its elements in order of place with the gaps between them', arr=False, samples=30)
def _(c):
    rev = c.choice('reversed', [False, True])
    order = c.choice('insertion', [None, (3, 1, 0, 2)])
    s, ref, _ = layout(c, rev, order)
    eq(c, 'matrix', s.matrix, total(ref, 0, 4))
    eq(c, 'inverse', s.matrix_inv, inv(total(ref, 0, 4)))
    c.eq('width', s.width_m, ref[-1][1] + ref[-1][3])
    c.eq('number of parts', len(s.filled_list), 7)
    for k, (nm, z, m, w) in enumerate(ref):
        e = getattr(s, nm)
        c.true('%s in its place' % nm, s.filled_list[2 * k] is e)
        c.eq('left of %s' % nm, s.measurements.object_z(e), z)
        c.eq('right of %s' % nm, s.measurements.object_z(e, 'right'), z + w)
    c.eq('target', s.measurements.target_z('q1'), [z for nm, z, _, _ in ref if nm == 'q1'][0])


@S.case('matrices between any two places of a system', arr=False, samples=10)
def _(c):
    rev = c.choice('reversed', [False, True])
    s, ref, _ = layout(c, rev)
    places = [('left', L, mat(1, 0, 0, 1)), ('right', R, total(ref, 0, 4))]
    for k, (nm, z, m, w) in enumerate(ref):
        e = getattr(s, nm)
        t = total(ref, 0, k)
        places.append((nm + ' left', e.as_target('left'), t))
        places.append((nm + ' right', e.as_target('right'), mul(m, t)))
        if nm == 'q1':
            places.append((nm, s.measurements.target_idx('q1'), t))
    for (na, ta, ma), (nb, tb, mb) in itertools.product(places, places):
        eq(c, '%s to %s' % (na, nb), s.matrix_between(ta, tb), mul(mb, inv(ma)))
        eq(c, '%s to %s, again' % (na, nb), s.matrix_between(ta, tb), mul(mb, inv(ma)))


@S.case('matrices to positions', arr=False, samples=30)
def _(c):
    s, ref, _ = layout(c)
    k = c.choice('between', [0, 1, 2, 3, 4, 5])
    u = c.pos('u')
    # a place strictly inside a gap, inside the thick space, or outside
    if k == 0:
        z, m = -u, sp(-u, 1)
    elif k == 4:
        z = ref[2][1] + u
        c.assume('>', ref[2][3] - u)
        m = mul(sp(u), total(ref, 0, 2))
    elif k == 5:
        z, m = ref[3][1] + u, mul(sp(u, 1), total(ref, 0, 4))
    else:
        a, b = ref[k - 1], ref[k]
        z = a[1] + a[3] + u
        c.assume('>', b[1] - z)
        m = mul(sp(u), a[2], total(ref, 0, k - 1))
    src = c.choice('from', ['left', 'right', 'q1', 'l1', 'l2'])
    t, ms = {'left': (L, mat(1, 0, 0, 1)), 'right': (R, total(ref, 0, 4))}.get(src, (None, None))
    if src == 'q1':
        t, ms = s.measurements.target_idx('q1'), mat(1, 0, 0, 1)
    elif src == 'l1':
        t, ms = s.l1.as_target('left'), total(ref, 0, 1)
    elif src == 'l2':
        t, ms = s.l2.as_target('right'), total(ref, 0, 4)
    if src in ('l1', 'l2', 'q1'):
        t = t if src == 'q1' else TargetIdx(t)
    eq(c, 'to the position', s.matrix_target_to_z_single(t, z), mul(m, inv(ms)))
    if src == 'left':
        eq(c, 'matrix at the position', s.matrix_at_single(z), m)
        eq(c, 'and back', s.matrix_target_to_z_single(t, z, invert=True), inv(m))


@S.case('truncated systems', arr=False, samples=30)
def _(c):
    rev = c.choice('reversed', [False, True])
    zs = increasing(c, 5)
    f, g, h = (c.real(n, nz=True) for n in 'fgh')
    cut = c.choice('cut', ['none', 'left', 'right', 'both', 'everything'])
    kw = {}
    if cut in ('left', 'both'):
        kw['boundary_left_m'] = zs[2]
    if cut in ('right', 'both'):
        kw['boundary_right_m'] = zs[4]
    if cut == 'everything':
        kw = dict(boundary_left_m=zs[2], boundary_right_m=zs[3] - c.real('y'))
        c.assume('>', kw['boundary_right_m'] - zs[2])
        c.assume('>', zs[3] - kw['boundary_right_m'])
    s = alm.RootSystem(env_substrate=substrates.substrate_vacuum)
    s.own.sub = alm.System(loc_m=0, reversed=rev, **kw)
    s.sub.own.a = alm.ThinLens(loc_m=zs[1], f_m=f)
    s.sub.own.b = alm.ThinLens(loc_m=zs[3], f_m=g)
    s.sub.own.d = alm.ThinLens(loc_m=zs[5], f_m=h)
    e = {'none': [(zs[1], lens(f)), (zs[3], lens(g)), (zs[5], lens(h))],
         'left': [(zs[2], sp(0)), (zs[3], lens(g)), (zs[5], lens(h))],
         'right': [(zs[1], lens(f)), (zs[3], lens(g)), (zs[4], sp(0))],
         'both': [(zs[2], sp(0)), (zs[3], lens(g)), (zs[4], sp(0))],
         'everything': [(zs[2], sp(0)), (kw.get('boundary_right_m'), sp(0))]}[cut]
    m, at = mat(1, 0, 0, 1), e[0][0]
    for z, x in e:
        m, at = mul(x, sp(z - at), m), z
    eq(c, 'matrix', s.sub.matrix, back(m) if rev else m)
    c.eq('width', s.sub.width_m, e[-1][0] - e[0][0])


@S.case('systems in systems, reversed and not', arr=False, samples=20)
def _(c):
    r0, r1 = c.choice('outer reversed', [False, True]), c.choice('inner reversed', [False, True])
    zs = increasing(c, 2)
    us = increasing(c, 2)
    f, g, h = (c.real(n, nz=True) for n in 'fgh')
    s = alm.RootSystem(env_substrate=substrates.substrate_vacuum, reversed=r0)
    qa = Q(c.cplx('qa'), wavelen=1e-6)
    s.own.a = alm.ThinLens(loc_m=zs[0], f_m=f)
    s.own.sub = alm.System(loc_m=zs[1], reversed=r1)
    s.sub.own.q = alm.BeamTarget(loc_m=0, q_raw=qa)
    s.sub.own.b = alm.ThinLens(loc_m=us[1], f_m=g)
    s.sub.own.e = alm.NoP(loc_m=us[2])
    s.own.d = alm.ThinLens(loc_m=zs[2] + us[2], f_m=h)
    gap1, gap2 = zs[1], zs[2] - zs[1]
    u1, u2 = us[1], us[2] - us[1]
    if r1:
        u1, u2 = u2, u1
    inner = mul(sp(u2), lens(g), sp(u1))
    whole = mul(lens(h), sp(gap2), inner, sp(gap1), lens(f))
    tot = zs[2] + us[2]
    # positions and matrices from the left end of the layout as declared
    pos = dict(a=zs[0], b=zs[1] + u1, q=zs[1] + (us[2] if r1 else 0), d=tot)
    frm = dict(a=mat(1, 0, 0, 1), b=mul(sp(gap1 + u1), lens(f)), q=mul(inner if r1 else mat(1, 0, 0, 1), sp(gap1), lens(f)),
               d=mul(sp(gap2), inner, sp(gap1), lens(f)))
    if r0:
        pos = {k: tot - v for k, v in pos.items()}
        own = dict(a=lens(f), b=lens(g), q=mat(1, 0, 0, 1), d=lens(h))
        frm = {k: back(mul(whole, inv(mul(own[k], frm[k])))) for k in own}
        whole = back(whole)
    eq(c, 'matrix', s.matrix, whole)
    eq(c, 'inner matrix', s.sub.matrix, back(inner) if r0 else inner)
    eq(c, 'inner inverse', s.sub.matrix_inv, inv(back(inner) if r0 else inner))
    objs = dict(a=s.a, b=s.sub.b, d=s.d)
    tg = {k: o.as_target() for k, o in objs.items()}
    tg['q'] = s.measurements.target_idx('sub.q')
    for k in 'abdq':
        c.eq('place of ' + k, s.target_pos(tg[k]), pos[k])
        eq(c, 'to ' + k, s.matrix_between(L, tg[k]), frm[k])
        eq(c, 'from the right to ' + k, s.matrix_between(R, tg[k]), mul(frm[k], inv(whole)))
        for j in 'abdq':
            eq(c, '%s to %s' % (j, k), s.matrix_between(tg[j], tg[k]), mul(frm[k], inv(frm[j])))
    b = s.measurements.target_obj('sub.q').beam_q
    c.eq('beam', b.value.real, -qa.value.real if r0 ^ r1 else qa.value.real)
    c.eq('beam', b.value.imag, qa.value.imag)
    # through the whole of a nested system to a place inside of it
    u = c.pos('u')
    first = u1 if not r0 else u2
    c.assume('>', first - u)
    gap, l0 = (gap1, lens(f)) if not r0 else (gap2, lens(h))
    eq(c, 'to a place inside', s.matrix_target_to_z_single(L, gap + u), mul(sp(u), sp(gap), l0))


@S.case('lenses and mirrors with a substrate', arr=False, samples=30)
def _(c):
    rev = c.choice('reversed', [False, True])
    n1 = c.pos('n1')
    n2 = c.pos('n2')
    mk = lambda n: substrates.Substrate(n_by_lambda_nm={1064: n})
    A, G = mk(n1), mk(n2)
    s = alm.RootSystem(env_substrate=A)
    s.own.sub = alm.System(loc_m=0, reversed=rev)
    r, r2, l = c.real('r', nz=True), c.real('r2', nz=True), c.pos('l')
    kind = c.choice('kind', ['PLCX', 'CXCX', 'PLCXMirror'])
    i1 = lambda R: mat(1, 0, (n1 / n2 - 1) / R if R is not None else 0, n1 / n2)
    i2 = lambda R: mat(1, 0, (n2 / n1 - 1) / R if R is not None else 0, n2 / n1)
    if kind == 'PLCX':
        s.sub.own.e = alm.PLCX(loc_m=0, R_m=r, L_m=l, substrate_inner=G)
        m = mul(i2(None), sp(l, n2), i1(r))
    elif kind == 'CXCX':
        s.sub.own.e = alm.CXCX(loc_m=0, R1_m=r, R2_m=r2, L_m=l, substrate_inner=G)
        m = mul(i2(-r2), sp(l, n2), i1(r))
    else:
        s.sub.own.e = alm.PLCXMirror(loc_m=0, R_m=r, L_m=l, substrate_inner=G)
        m = mul(i2(None), sp(l, n2), lens(r / 2), sp(l, n2), i1(None))
    if rev:
        m = back(m)
    eq(c, 'matrix', s.sub.e.matrix, m)
    eq(c, 'inverse', s.sub.e.matrix_inv, inv(m))
    eq(c, 'in its system', s.matrix, m)
    c.eq('width', s.sub.e.width_m, 2 * l if kind == 'PLCXMirror' else l)
    z = c.real('z')
    if c.sym:
        alm.composites.str_m = lambda *a, **k: ''      # text only
    d = s.sub.e.lens_description(z, L) if kind != 'PLCXMirror' else s.sub.e.mirror_description(z, L)
    c.eq('focal length', d.f_m * m[1][0], -1)


@S.case('a layout that grows after it was read', arr=False, samples=20)
def _(c):
    s, ref, _ = layout(c)
    eq(c, 'before', s.matrix, total(ref, 0, 4))
    eq(c, 'before', s.matrix_between(L, s.l2.as_target()), total(ref, 0, 3))
    t = s.measurements.beam_targets.tname
    h, u = c.real('h', nz=True), c.pos('u')
    c.assume('>', ref[1][1] - u)
    s.own.extra = alm.ThinLens(loc_m=u, f_m=h)
    s.own.q2 = alm.BeamTarget(loc_m=ref[3][1] + 1, q_raw=Q(c.cplx('qb'), wavelen=1e-6))
    new = [ref[0], ('extra', u, lens(h), 0)] + ref[1:] + [('q2', ref[3][1] + 1, mat(1, 0, 0, 1), 0)]
    eq(c, 'after', s.matrix, total(new, 0, 6))
    eq(c, 'after', s.matrix_inv, inv(total(new, 0, 6)))
    eq(c, 'after', s.matrix_between(L, s.l2.as_target()), total(new, 0, 4))
    c.eq('width', s.width_m, ref[3][1] + 1)
    c.true('targets', t == ['q1'] and s.measurements.beam_targets.tname == ['q1', 'q2'])


@S.case('elements at one place keep the order they were given in', arr=False, samples=10)
def _(c):
    z, f = c.pos('z'), c.real('f', nz=True)
    s = alm.RootSystem(env_substrate=substrates.substrate_vacuum)
    s.own.a = alm.NoP(loc_m=0)
    names = c.choice('names', ['lm', 'ml'])
    g = {'l': c.real('g', nz=True), 'm': c.real('h', nz=True)}
    for n in names:
        s.insert(alm.ThinLens(loc_m=z, f_m=g[n]), n)
    s.own.b = alm.ABCDGeneric(loc_m=z, A=1., B=f, C=0.)
    eq(c, 'matrix', s.matrix, mul(mat(1, f, 0, 1), lens(g[names[1]]), lens(g[names[0]]), sp(z)))


@S.case('a plate between two faces shortens the way by its index', arr=False, samples=5)
def _(c):
    n, l = c.pos('n'), c.pos('l')
    s = alm.RootSystem(env_substrate=substrates.substrate_vacuum)
    G = substrates.Substrate(n_by_lambda_nm={1064: n})
    s.own.a = bases.LensInterface(R_m=None, loc_m=0, substrate_to=G)
    s.own.b = alm.Space(L_m=l, loc_m=0, substrate=G)
    s.own.e = bases.LensInterface(R_m=None, loc_m=l, substrate_from=G)
    eq(c, 'plate', s.matrix, sp(l, n))
