"""P06: products of fields: linearisation, iteration and the settled solution."""
import numpy as np
from vc.harness import Suite, Skip
from vc import phys, net

S = Suite('P06')
phys.install()


class Reads(dict):
    """a solution vector that records which entries are used"""

    def __init__(self, d):
        dict.__init__(self, d)
        self.used = set()

    def get(self, k, d=None):
        self.used.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.used.add(k)
        return dict.__getitem__(self, k)


def flow(inj, x0, x):
    """what arrives at every target when the fields are x and the linearisation point is x0"""
    out = {}
    for (f, t), fn in inj.edges_pkpk_dict.items():
        v = fn(x0, None) * x.get(f, 0)
        out[t] = out[t] + v if t in out else v
    for t, fn in inj.sources_pk_dict.items():
        v = fn(x0, None)
        out[t] = out[t] + v if t in out else v
    return out


def injection(c, kind, a='a', b='b', t='t', n=('n',)):
    from phasor.system import matrix_injections as mi
    v = c.cplx('cplg')
    if kind == 'triplet':
        return mi.TripletCoupling(pkfrom1=a, pkfrom2=b, pkto=t, cplg=v), v, lambda x: 1
    if kind == 'norm':
        f = c.choice('norm function', ['linear', 'square'])
        fn = (lambda z: z) if f == 'linear' else (lambda z: 2 * z * z)
        kw = {} if f == 'linear' else dict(pknorm_func=fn)
        return mi.TripletNormCoupling(pkfrom1=a, pkfrom2=b, pkto=t, pknorm=n[0], cplg=v, **kw), v, lambda x: fn(x[n[0]])
    fn = lambda p, q: p * p + 3 * q
    return mi.TripletNormsCoupling(pkfrom1=a, pkfrom2=b, pkto=t, pknorms=n, cplg=v, pknorms_func=fn), v, lambda x: fn(*[x[k] for k in n])


KINDS = [('triplet', ()), ('norm', ('n',)), ('norms', ('n', 'm'))]


@S.case('a product of two fields is reproduced and linearised')
def _(c):
    kind, n = c.choice('kind', KINDS)
    same = c.choice('same field', [0, 1])
    b = 'a' if same else 'b'
    inj, v, norm = injection(c, kind, 'a', b, 't', n)
    x0 = {k: c.cplx('x_' + k) for k in ['a', 'b'][:1 if same else 2]}
    for k in n:
        x0[k] = c.pos('x_' + k)
    nv = norm(x0) if n else 1
    tol = None
    # (1) at the settled point what arrives is the product
    got = flow(inj, x0, x0)
    # (the library regularises the norm of the compensating source by 1e-30)
    if not (n and not same and c.sym and kind == 'norm'):
        c.eq('settled: product of the fields', got.get('t', 0) * nv, v * x0['a'] * x0[b], scale=tol)
    c.true('only one target', set(got) <= {'t'})
    if not same:
        # (2) around the settled point it is the tangent: exact first derivative
        d = {k: c.cplx('d_' + k) for k in 'ab'}
        x1 = dict(x0)
        for k in 'ab':
            x1[k] = x0[k] + d[k]
        c.eq('tangent', (flow(inj, x0, x1)['t'] - flow(inj, x0, x0)['t']) * nv,
             v * (x0['b'] * d['a'] + x0['a'] * d['b']), scale=tol)
        # (3) first of the two fields may still be absent (zero)
        c.eq('no second field yet', flow(inj, {k: x0[k] for k in n}, x1)['t'], 0)


@S.case('declared dependencies are what the product uses')
def _(c):
    kind, n = c.choice('kind', KINDS)
    same = c.choice('same field', [0, 1])
    b = 'a' if same else 'b'
    inj, v, norm = injection(c, kind, 'a', b, 't', n)
    full = {k: c.cplx('x_' + k) for k in ['a', 'b'][:1 if same else 2]}
    for k in n:
        full[k] = c.pos('x_' + k)
    for what, fns, NZ, REQ in [('edge', inj.edges_pkpk_dict, inj.edges_NZ_pkset_dict, inj.edges_req_pkset_dict),
                               ('source', inj.sources_pk_dict, inj.sources_NZ_pkset_dict, inj.sources_req_pkset_dict)]:
        c.true('%s: dependencies for every entry' % what, set(fns) == set(NZ) and set(fns) == set(REQ))
        for e, fn in fns.items():
            r = Reads(full)
            fn(r, None)
            c.true('%s uses only required fields' % what, r.used <= set(REQ[e]))
            c.true('%s: necessary fields are required' % what, set(NZ[e]) <= set(REQ[e]))
            for z in NZ[e]:
                w = dict(full)
                del w[z]
                c.eq('%s vanishes without each necessary field' % what, fn(w, None), 0)


@S.case('couplings and sources multiplied by fields')
def _(c):
    from phasor.system import matrix_injections as mi
    k = c.choice('number', [0, 1, 2, 3])
    fs = ['f%d' % j for j in range(k)]
    if k == 3 and c.choice('repeated', [0, 1]):
        fs[2] = fs[0]
    v = c.cplx('v')
    x = {f: c.cplx(f) for f in set(fs)}
    w = v
    for f in fs:
        w = w * x[f]
    e = mi.MultiplicativeEdgeCoupling(pkfrom='a', pkto='t', cplg=v, pksrc_list=fs)
    s = mi.MultiplicativeSourceCoupling(pksrc='t', cplg=v, pksrc_list=fs)
    c.true('shape', set(e.edges_pkpk_dict) == {('a', 't')} and set(s.sources_pk_dict) == {'t'} and not e.sources_pk_dict
           and not s.edges_pkpk_dict)
    c.eq('edge', e.edges_pkpk_dict['a', 't'](x, None), w)
    c.eq('source', s.sources_pk_dict['t'](x, None), w)
    c.true('dependencies', set(e.edges_NZ_pkset_dict['a', 't']) == set(fs) and set(s.sources_NZ_pkset_dict['t']) == set(fs)
           and set(e.edges_req_pkset_dict['a', 't']) == set(fs) and set(s.sources_req_pkset_dict['t']) == set(fs))
    for f in set(fs):
        y = dict(x)
        del y[f]
        c.eq('absent field', e.edges_pkpk_dict['a', 't'](y, None), 0)
        c.eq('absent field', s.sources_pk_dict['t'](y, None), 0)
    ce, cs = mi.ConstantEdgeCoupling('a', 't', v), mi.ConstantSourceCoupling('t', v)
    c.eq('constant edge', ce.edges_pkpk_dict['a', 't'](x, None), v)
    c.eq('constant source', cs.sources_pk_dict['t'](x, None), v)
    c.true('constants depend on nothing', not ce.edges_NZ_pkset_dict['a', 't'] and not cs.sources_NZ_pkset_dict['t'])


# ---------------------------------------------------------------------------
def val(c, name):
    return c.real(name, nz=True) if c.sym else c.cplx(name, nz=True)


def solve(c, n, edges=(), sources=(), triplets=(), medges=(), msources=(), injections=(), keys=1, bonds=None, reads=None, **kw):
    def build(p):
        K = [p.k0, p.kp, p.km][:keys]
        p.K = K
        return dict(keys=K, edges=[(a, K[ka], b, K[kb], v) for a, ka, b, kb, v in edges],
                    sources=[(b, K[k], v) for b, k, v in sources],
                    triplets=[(a, K[ka], b, K[kb], t, K[kt], v) for a, ka, b, kb, t, kt, v in triplets],
                    medges=[(a, K[ka], b, K[kb], v, [(q, K[kq]) for q, kq in vp]) for a, ka, b, kb, v, vp in medges],
                    msources=[(b, K[k], v, [(q, K[kq]) for q, kq in vp]) for b, k, v, vp in msources],
                    injections=[(lambda net, f=f: f(p, net)) for f in injections],
                    drives=[(b, k) for b in range(n) for k in K],
                    reads=[(b, k) for b in (range(n) if reads is None else reads) for k in K])
    return net.Problem(c, n, build, bonds=bonds, **kw)


def sc(c):
    return None if c.sym else 1e3


@S.case('feed forward products settle at the product', samples=40)
def _(c):
    # x0 = s0, x1 = s1, x2 = m x1 + c x0 x1, x3 = d x2 x0 , x4 = e x3 x3
    s0, s1, m, v, d, e = [val(c, k) for k in ('s0', 's1', 'm', 'c', 'd', 'e')]
    depth = c.choice('depth', [1, 2, 3])
    kw = c.choice('order', [{}, {'exact_order': 2}, {'exact_order': 5}])
    if kw and kw['exact_order'] < depth + 1:
        kw = {'exact_order': 6}
    tr = [(0, 0, 1, 0, 2, 0, v), (2, 0, 0, 0, 3, 0, d), (3, 0, 3, 0, 4, 0, e)][:depth]
    only_last = c.choice('reads', [0, 1])
    p = solve(c, 5, [(1, 0, 2, 0, m)], [(0, 0, s0), (1, 0, s1)], tr, reads=[depth + 1] if only_last else None, **kw)
    x2 = m * s1 + v * s0 * s1
    x3 = d * x2 * s0
    x4 = e * x3 * x3
    want = [s0, s1, x2, x3, x4]
    for b in range(2 + depth) if not only_last else [depth + 1]:
        c.eq('settled value', p.x(b, p.K[0]), want[b], scale=sc(c))
    for b in range(2 + depth, 5) if not only_last else []:
        c.eq('untouched', p.x(b, p.K[0]), 0)


@S.case('small signals see the derivative of the settled solution', samples=40)
def _(c):
    # every product also acts on (DC, AC): elements declare both orders
    s0, s1, m, v, d = [val(c, k) for k in ('s0', 's1', 'm', 'c', 'd')]
    ac = c.choice('sideband', [1, 2])

    def prod(a, b, t, g):
        out = [(a, 0, b, 0, t, 0, g), (a, ac, b, 0, t, ac, g)]
        if a != b:
            out.append((a, 0, b, ac, t, ac, g))
        else:
            out = [(a, 0, a, 0, t, 0, g), (a, ac, a, 0, t, ac, 2 * g)]
        return out
    sq = c.choice('square', [0, 1])
    tr = prod(0, 1, 2, v) + (prod(2, 2, 3, d) if sq else prod(2, 0, 3, d))
    p = solve(c, 4, [(1, 0, 2, 0, m), (1, ac, 2, ac, m)], [(0, 0, s0), (1, 0, s1)], tr, keys=3)
    x2 = m * s1 + v * s0 * s1
    x3 = d * x2 * x2 if sq else d * x2 * s0
    c.eq('settled', p.x(3, p.K[0]), x3, scale=sc(c))
    k = p.K[ac]
    c.eq('dx2/dx0', p.G(0, k, 2, k), v * s1, scale=sc(c))
    c.eq('dx2/dx1', p.G(1, k, 2, k), m + v * s0, scale=sc(c))
    if sq:
        c.eq('dx3/dx0', p.G(0, k, 3, k), 2 * d * x2 * v * s1, scale=sc(c))
        c.eq('dx3/dx1', p.G(1, k, 3, k), 2 * d * x2 * (m + v * s0), scale=sc(c))
    else:
        c.eq('dx3/dx0', p.G(0, k, 3, k), d * (x2 + s0 * v * s1), scale=sc(c))
        c.eq('dx3/dx1', p.G(1, k, 3, k), d * s0 * (m + v * s0), scale=sc(c))
    o = p.K[3 - ac]
    for a in range(4):
        for b in range(4):
            if a != b:
                c.eq('other sideband silent', p.G(a, o, b, o), 0)
            c.eq('sidebands do not mix', p.G(a, k, b, o), 0)


@S.case('couplings and sources multiplied by solved fields', samples=40)
def _(c):
    s0, s1, g, h = [val(c, k) for k in ('s0', 's1', 'g', 'h')]
    rep = c.choice('fields', [[(0, 0)], [(0, 0), (1, 0)], [(0, 0), (0, 0)]])
    w = 1
    for q, _k in rep:
        w = w * (s0, s1)[q]
    p = solve(c, 4, [], [(0, 0, s0), (1, 0, s1)], medges=[(1, 0, 2, 0, g, rep)], msources=[(3, 0, h, rep)])
    c.eq('coupling', p.x(2, p.K[0]), g * w * s1, scale=sc(c))
    c.eq('source', p.x(3, p.K[0]), h * w, scale=sc(c))
    c.eq('response of the coupling', p.G(1, p.K[0], 2, p.K[0]), g * w, scale=sc(c))


@S.case('a product without its second field does nothing', samples=30)
def _(c):
    s0, v, m = val(c, 's0'), val(c, 'c'), val(c, 'm')
    p = solve(c, 4, [(2, 0, 3, 0, m)], [(0, 0, s0)], [(0, 0, 1, 0, 2, 0, v)])
    c.eq('no output', p.x(2, p.K[0]), 0)
    c.eq('nor later', p.x(3, p.K[0]), 0)
    c.eq('derivative to the dark field is the bright field', p.G(1, p.K[0], 3, p.K[0]), v * s0 * m, scale=sc(c))


@S.case('a bilinear loop settles on the solution of its equations', samples=40)
def _(c):
    # x0 = s0 ; x1 = s1 + c x0 x1 (a loop closed through a product): x1 = s1/(1 - c s0)
    s0, s1, v = val(c, 's0'), val(c, 's1'), val(c, 'c')
    if c.sym:
        c.assume('!=', 1 - v * s0)
    else:
        if np.any(abs(v * s0) > .9) or np.any(abs(1 - v * s0) < .1):
            raise Skip()
    p = solve(c, 2, [], [(0, 0, s0), (1, 0, s1)], [(0, 0, 1, 0, 1, 0, v)], **(dict(exact_order=3) if c.sym else {}))
    c.eq('x1 (1 - c s0) = s1', p.x(1, p.K[0]) * (1 - v * s0), s1, scale=sc(c))
    c.eq('drive of x1', p.G(1, p.K[0], 1, p.K[0]) * (1 - v * s0), 1, scale=sc(c))
    c.eq('drive of x0 is the derivative', p.G(0, p.K[0], 1, p.K[0]) * (1 - v * s0) ** 2, v * s1, scale=sc(c))


@S.case('normalised products settle at the normalised product', samples=40)
def _(c):
    from phasor.system import matrix_injections as mi
    s0, s1, v = val(c, 's0'), val(c, 's1'), val(c, 'c')
    n0 = c.pos('n')
    if c.sym or c.choice('norms', [0, 1]):
        # (the single norm is regularised by 1e-30 in the library: decided on numbers)
        m0 = c.pos('m')
        f = lambda p, net: mi.TripletNormsCoupling(pkfrom1=(net.I(0), p.k0), pkfrom2=(net.I(1), p.k0), pkto=(net.O(4), p.k0),
                                                   pknorms=[(net.I(2), p.k0), (net.I(3), p.k0)], cplg=v,
                                                   pknorms_func=lambda a, b: a * a + b)
        w, src = n0 * n0 + m0, [(2, 0, n0), (3, 0, m0)]
    else:
        f = lambda p, net: mi.TripletNormCoupling(pkfrom1=(net.I(0), p.k0), pkfrom2=(net.I(1), p.k0), pkto=(net.O(4), p.k0),
                                                  pknorm=(net.I(2), p.k0), cplg=v)
        w, src = n0, [(2, 0, n0)]
    p = solve(c, 5, [], [(0, 0, s0), (1, 0, s1)] + src, injections=[f])
    c.eq('x = c a b / norm', p.x(4, p.K[0]) * w, v * s0 * s1, scale=sc(c))


@S.case('random nonlinear systems satisfy their equations', sym=False, arr=False, bounded=True, samples=100)
def _(c):
    import io
    import contextlib
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n = rng.randint(2, 6)
    z = lambda s: s * complex(rng.randn(), rng.randn())
    edges = [(a, 0, b, 0, z(.3)) for a in range(n) for b in range(n) if rng.rand() < .35]
    src = [(b, 0, z(1)) for b in range(n) if rng.rand() < .6]
    tr = [(rng.randint(n), 0, rng.randint(n), 0, rng.randint(n), 0, z(.05)) for _ in range(rng.randint(1, 4))]
    ms = [(rng.randint(n), 0, z(.05), [(rng.randint(n), 0) for _ in range(rng.randint(1, 3))]) for _ in range(rng.randint(0, 2))]
    A = np.eye(n, dtype=complex)
    for a, _a, b, _b, v in edges:
        A[b, a] -= v
    if np.linalg.cond(A) > 10 or np.linalg.norm(np.linalg.inv(A), 2) > 3:
        raise Skip()
    with contextlib.redirect_stdout(io.StringIO()):
        p = solve(c, n, edges, src, tr, msources=ms)
    if len(p.solver.driven_solution_bunches) > 40:
        raise Skip()        # does not settle
    x = [p.x(b, p.K[0]) for b in range(n)]
    for t in range(n):
        w = 0
        for a, _a, b, _b, v in edges:
            if b == t:
                w += v * x[a]
        for b, _b, v in src:
            if b == t:
                w += v
        for a, _a, b, _b, d, _d, v in tr:
            if d == t:
                w += v * x[a] * x[b]
        for b, _b, v, vp in ms:
            if b == t:
                for q, _q in vp:
                    v = v * x[q]
                w += v
        c.true('x = M x + s + products: %g' % abs(x[t] - w), abs(x[t] - w) <= 1e-3 * (1 + max(map(abs, x))))
