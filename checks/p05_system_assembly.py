"""P05: the system that is solved is the superposition of what the elements declared."""
import itertools
import numpy as np
from vc.harness import Suite, Skip
from vc import phys, net

S = Suite('P05')
phys.install()


def solve(c, n, edges, sources, keys=1, bonds=None):
    """edges: list of (a, ka, b, kb, v); sources (b, k, v); k indexes [DC, +AC, -AC]"""
    def build(p):
        K = [p.k0, p.kp, p.km][:keys] if keys > 1 else [p.k0]
        p.K = K
        return dict(keys=K, edges=[(a, K[ka], b, K[kb], v) for a, ka, b, kb, v in edges],
                    sources=[(b, K[k], v) for b, k, v in sources],
                    drives=[(b, k) for b in range(n) for k in K], reads=[(b, k) for b in range(n) for k in K])
    return net.Problem(c, n, build, bonds=bonds)


def total(edges, n, nk, bonds):
    """M[(b, kb)][(a, ka)] acting on the out ports"""
    into = {}
    for o, i in bonds:
        into.setdefault(i, []).append(o)
    M = {}
    for a, ka, b, kb, v in edges:
        for o in into.get(a, []):
            k = (b, kb), (o, ka)
            M[k] = M[k] + v if k in M else v
    return M


def scale(c):
    return None if c.sym else 1e3


def conditioned(c, M, n, nk):
    """precondition: the system has a well conditioned unique solution"""
    N = [(b, k) for b in range(n) for k in range(nk)]
    if c.sym:
        return
    if any(np.ndim(v) for v in M.values()):
        arrs = np.broadcast_arrays(*[np.asarray(v, complex) for v in M.values()])
        for idx in np.ndindex(arrs[0].shape):
            conditioned(c, {k: a[idx] for k, a in zip(M, arrs)}, n, nk)
        return
    A = np.array([[(1. if p == q else 0.) - complex(M.get((p, q), 0)) for q in N] for p in N])
    if not np.all(np.isfinite(A)) or np.linalg.cond(A) > 1e4:
        raise Skip()


def check(c, n, edges, sources, keys=1, bonds=None):
    nk = keys
    bonds = [(k, k) for k in range(n)] if bonds is None else bonds
    M = total(edges, n, nk, bonds)
    conditioned(c, M, n, nk)
    p = solve(c, n, edges, sources, keys, bonds)
    s = {}
    for b, k, v in sources:
        s[b, k] = s[b, k] + v if (b, k) in s else v
    N = [(b, k) for b in range(n) for k in range(nk)]
    x = {q: p.x(q[0], p.K[q[1]]) for q in N}
    for q in N:
        w = s.get(q, 0)
        for r in N:
            if (q, r) in M:
                w = w + M[q, r] * x[r]
        c.eq('x = M x + s', x[q], w, scale=scale(c))
    for d in N:
        g = {q: p.G(d[0], p.K[d[1]], q[0], p.K[q[1]]) for q in N}
        for q in N:
            w = 1 if q == d else 0
            for r in N:
                if (q, r) in M:
                    w = w + M[q, r] * g[r]
            c.eq('G = 1 + M G', g[q], w, scale=scale(c))
    return p, M, s, x


def val(c, name):
    return c.cplx(name) if not c.sym else c.real(name)


@S.case('couplings inserted on the same pair add', samples=60)
def _(c):
    # 0 -> 1 inserted up to three times (possibly cancelling), 1 -> 0 once, a self loop
    k = c.choice('times', [1, 2, 3])
    cancel = c.choice('cancel', [0, 1])
    v = [val(c, 'm%d' % j) for j in range(k)]
    edges = [(0, 0, 1, 0, w) for w in v]
    if cancel:
        tot = v[0]
        for w in v[1:]:
            tot = tot + w
        edges.append((0, 0, 1, 0, -tot))
    if c.choice('loop', [0, 1]):
        r = val(c, 'r')
        if c.sym:
            t = 0
            for e in edges:
                t = t + e[4]
            c.assume('!=', 1 - r * t)
        edges.append((1, 0, 0, 0, r))
    check(c, 2, edges, [(0, 0, val(c, 's0'))] + ([(1, 0, val(c, 's1'))] if c.choice('src1', [0, 1]) else []))


@S.case('sources inserted on the same port add', samples=60)
def _(c):
    m = val(c, 'm')
    src = [(0, 0, val(c, 's%d' % j)) for j in range(c.choice('times', [0, 1, 2, 3]))]
    if src and c.choice('cancel', [0, 1]):
        t = src[0][2]
        for q in src[1:]:
            t = t + q[2]
        src.append((0, 0, -t))
    src += [(1, 0, val(c, 't%d' % j)) for j in range(c.choice('more', [0, 2]))]
    check(c, 2, [(0, 0, 1, 0, m)], src)


@S.case('self couplings', samples=40)
def _(c):
    m = val(c, 'm')
    e = [(0, 0, 0, 0, m)]
    if c.choice('twice', [0, 1]):
        m2 = val(c, 'm2')
        e.append((0, 0, 0, 0, m2))
        m = m + m2
    if c.sym:
        c.assume('!=', 1 - m)
    check(c, 1, e, [(0, 0, val(c, 's'))])


@S.case('couplings between frequencies stay between those frequencies', samples=60)
def _(c):
    e = [(0, 0, 1, 1, val(c, 'up')), (0, 1, 1, 0, val(c, 'down')), (0, 2, 1, 2, val(c, 'same'))]
    if c.choice('both', [0, 1]):
        e.append((0, 0, 1, 2, val(c, 'up2')))
    check(c, 2, e, [(0, 0, val(c, 's0')), (0, 2, val(c, 's2'))], keys=3)


@S.case('bonds: every source port reaches every port bonded to it, and they add', samples=60)
def _(c):
    bonds = c.choice('bonds', [((0, 1), (2, 1)), ((0, 1), (0, 2)), ((0, 1), (0, 2), (1, 2)), ((0, 0), (1, 1), (0, 1)),
                               ()])
    e = [(1, 0, 2, 0, val(c, 'm12')), (2, 0, 1, 0, val(c, 'm21'))]
    if c.sym:
        M = total(e, 3, 1, bonds)
        lp = (1 - M.get(((1, 0), (1, 0)), 0)) * (1 - M.get(((2, 0), (2, 0)), 0)) - M.get(((1, 0), (2, 0)), 0) * M.get(((2, 0), (1, 0)), 0)
        if hasattr(lp, 'is_zero'):
            c.assume('!=', lp)
            for q in ((1, 0), (2, 0)):
                d = 1 - M.get((q, q), 0)
                if hasattr(d, 'is_zero'):
                    c.assume('!=', d)
    check(c, 3, e, [(0, 0, val(c, 's0')), (1, 0, val(c, 's1'))], bonds=bonds)


@S.case('feedback over three ports', arr=False, samples=60)
def _(c):
    m = {e: val(c, 'm%d%d' % e) for e in [(0, 1), (1, 2), (2, 0)]}
    e = [(a, 0, b, 0, v) for (a, b), v in m.items()]
    w = m[0, 1] * m[1, 2] * m[2, 0]
    if c.choice('short cut', [0, 1]):
        v = val(c, 'x')
        e.append((0, 0, 2, 0, v))
        w = w + v * m[2, 0]
    if c.sym:
        c.assume('!=', 1 - w)
    check(c, 3, e, [(0, 0, val(c, 's0')), (2, 0, val(c, 's2'))])


@S.case('assembled matrix: sums of the declarations, bonds are one, zeros dropped', samples=60)
def _(c):
    n = 2
    edges = []
    lots = c.choice('multiple', [(0, 0), (0, 1), (1, 0)])
    for a in range(n):
        for b in range(n):
            for j in range(c.choice('t%d%d' % (a, b), [0, 1, 2] if (a, b) == lots else [0, 1])):
                edges.append((a, 0, b, 0, val(c, 'm%d%d%d' % (a, b, j))))
    kill = c.choice('cancel', [0, 1])
    if kill and edges:
        a, _k, b, _k, v = edges[0]
        for e in edges[1:]:
            if e[0] == a and e[2] == b:
                v = v + e[4]
        edges.append((a, 0, b, 0, -v))
    src = [(0, 0, val(c, 's%d' % j)) for j in range(c.choice('src', [0, 2]))]

    def build(p):
        return dict(keys=[p.k0], edges=[(a, p.k0, b, p.k0, v) for a, _a, b, _b, v in edges],
                    sources=[(b, p.k0, v) for b, _k, v in src],
                    drives=[(b, p.k0) for b in range(n)], reads=[(b, p.k0) for b in range(n)])
    Net = net.classes()
    P = net.Problem.__new__(net.Problem)
    from vc.phys import Sys
    P.s = Sys(c)
    P.k0 = P.s.kDC()
    P.net = P.s.add('net', Net(n, **build(P)))
    for k in range(n):
        P.s.sys.bond(getattr(P.net, 'pO%d' % k), getattr(P.net, 'pI%d' % k))
    P.s.sys._setup_sequence()
    sol = P.s.sys.solver
    csgb = sol.matrix_algorithm.coherent_subgraph_bunch
    seq = {k: set(v) for k, v in csgb.seq_full.items()}
    req = {k: set(v) for k, v in csgb.req_full.items()}
    from collections import defaultdict
    seq, req = defaultdict(set, seq), defaultdict(set, req)
    cm, cms = sol._edge_matrix_generate(seq, req, {}, None)
    got = dict(cm.items())
    want = {}
    for a, _a, b, _b, v in edges:
        k = P.net.I(a), P.net.O(b)
        want[k] = want[k] + v if k in want else v
    for a in range(n):
        for b in range(n):
            k = P.net.I(a), P.net.O(b)
            g = got.get(((k[0], P.k0), (k[1], P.k0)), None)
            c.eq('sum of the couplings', 0 if g is None else g, want.get(k, 0))
            if g is not None:
                c.true('a stored coupling is not zero', np.any(np.asarray(g != 0)))
        c.eq('bond', got.get(((P.net.O(a), P.k0), (P.net.I(a), P.k0)), 0), 1)
    c.true('nothing else', all((f in [(P.net.I(a), P.k0) for a in range(n)] and t in [(P.net.O(a), P.k0) for a in range(n)])
                               or (f, t) in [((P.net.O(a), P.k0), (P.net.I(a), P.k0)) for a in range(n)] for f, t in got))
    c.true('adjacency is the matrix', {(f, t) for f in seq for t in seq[f]} == set(got))
    c.true('backward adjacency', {(f, t) for t in req for f in req[t]} == set(got))
    sv, _ = sol._source_vector_generate(csgb.inputs_set, {}, None)
    tot = 0
    for _b, _k, v in src:
        tot = tot + v
    c.eq('sum of the sources', sv.get((P.net.O(0), P.k0), 0), tot)
    c.true('no other sources', set(k for k, _ in sv.items()) <= {(P.net.O(0), P.k0)})


@S.case('larger random systems against numpy', sym=False, arr=False, bounded=True, samples=60)
def _(c):
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n, nk = rng.randint(2, 7), rng.choice([1, 3])
    edges = [(rng.randint(n), rng.randint(nk), rng.randint(n), rng.randint(nk), complex(rng.randn(), rng.randn()) * .6)
             for _ in range(rng.randint(1, 4 * n))]
    src = [(rng.randint(n), rng.randint(nk), complex(rng.randn(), rng.randn())) for _ in range(rng.randint(0, n))]
    bonds = [(k, k) for k in range(n)]
    for _ in range(rng.randint(0, 3)):
        b = (rng.randint(n), rng.randint(n))
        if b not in bonds:
            bonds.append(b)
    check(c, n, edges, src, nk, bonds)


@S.case('ports in units of their own', sym=False, arr=False, bounded=True, samples=60)
def _(c):
    """the unit of the signal at a port is arbitrary: no coupling or source is too small to count"""
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n, nk = rng.randint(2, 6), rng.choice([1, 3])
    N = [(b, k) for b in range(n) for k in range(nk)]
    M = {}
    for _ in range(rng.randint(1, 4 * n)):
        M[N[rng.randint(len(N))], N[rng.randint(len(N))]] = complex(rng.randn(), rng.randn()) * .6
    s = {N[rng.randint(len(N))]: complex(rng.randn(), rng.randn()) for _ in range(rng.randint(1, n + 1))}
    A = np.array([[(p == q) - M.get((q, p), 0) for q in N] for p in N], complex)
    if np.linalg.cond(A) > 100:
        raise Skip()
    W = np.linalg.inv(A)
    t = {q: 10. ** rng.uniform(-13, 13) for q in N}
    p = solve(c, n, [a + b + (v * t[b] / t[a],) for (a, b), v in M.items()], [q + (v * t[q],) for q, v in s.items()], nk)
    for j, q in enumerate(N):
        c.eq('solution', p.x(q[0], p.K[q[1]]) / t[q], sum(W[j, N.index(r)] * v for r, v in s.items()), scale=1e3)
        for i, r in enumerate(N):
            c.eq('response', p.G(r[0], p.K[r[1]], q[0], p.K[q[1]]) * (t[r] / t[q]), W[j, i], scale=1e3)
