"""P02: the other solver back ends answer the same linear system."""
import contextlib
import itertools
import numpy as np
from vc.harness import Suite, Skip
from vc import graphs, phys, elec_sys

S = Suite('P02', trusted=['scipy.sparse.linalg.spsolve solves A x = b (symbolic obligations use this contract, concrete runs use SciPy itself)'])
phys.install()


def backend(name):
    from phasor.matrix import scisparse_algorithm, graph_algorithm
    from vc import scipy_contract
    if name == 'scisparse':
        return scisparse_algorithm.inverse_solve_inplace, lambda: scipy_contract.contract(scisparse_algorithm)
    return graph_algorithm.inverse_solve_inplace, contextlib.nullcontext


def system(c, name, n, shape, ins, srcs, outs, scat, val):
    f, ctx = backend(name)
    N = [graphs.node(i) for i in range(n)]
    M = {}
    for i in range(n):
        for j in range(n):
            if shape[i * n + j]:
                M[i, j] = val('m%d%d' % (i, j))
    neg = c.choice('negative', [False, True])
    if n == 3 and c.sym:
        pin, pout = True, True
    else:
        # the graph backend documents that it needs purging
        pin, pout = c.choice('purge_in', [True, False] if name == 'scisparse' else [True]), c.choice('purge_out', [True, False] if name == 'scisparse' else [True])
    s = {i: val('s%d' % i) for i in srcs}
    m = lambda i, j: M.get((i, j), 0)
    sign = 1 if scat else -1
    A = [[(sign if (i == j and scat) else 0) - sign * m(j, i) for j in range(n)] for i in range(n)]   # rows: to
    if not c.sym:
        if np.max(np.linalg.cond(mat(A))) > 1e6:
            raise Skip()
        if name != 'scisparse' and not dominant(A):
            raise Skip()        # documented as unstable: needs non-zero pivots in any order
    seq, req = graphs.maps([(N[i], N[j]) for i, j in M])
    for k in N:
        seq[k], req[k]
    with graphs.quiet(), (ctx() if c.sym else contextlib.nullcontext()):
        b = f(seq=seq, req=req, edge_map={(N[i], N[j]): v for (i, j), v in M.items()},
              outputs_set=set(N[i] for i in outs), inputs_set=set(N[i] for i in ins),
              inputs_map={N[i]: v for i, v in s.items()} if srcs else None,
              scattering=scat, negative=neg, purge_in=pin, purge_out=pout)
    from vc.scipy_contract import det
    if c.sym:
        D = det(A)
    else:
        D = np.linalg.det(mat(A))
    sg = -1 if neg else 1

    def solved(rhs, o):
        T = [r[:o] + [rhs[i]] + r[o + 1:] for i, r in enumerate(A)]
        return det(T) if c.sym else np.linalg.det(mat(T))
    sc = None if c.sym else 1e4
    for o in outs:
        if srcs:
            c.eq('sourced solution: det x = cofactors', b.outputs_map.get(N[o], 0) * D,
                 sg * solved([s.get(i, 0) for i in range(n)], o), scale=sc)
        for i in ins:
            c.eq('drive to readout: det G = cofactor', b.edge_map.get((N[i], N[o]), 0) * D,
                 sg * solved([1 if k == i else 0 for k in range(n)], o), scale=sc)
    for (i, o) in b.edge_map:
        c.true('only requested couplings', i in [N[k] for k in ins] and o in [N[k] for k in outs])
        c.true('adjacency of the result', o in b.seq[i] and i in b.req[o])
    c.true('no sources, no solution', bool(srcs) or b.outputs_map is None)


def mat(A):
    n = len(A)
    flat = np.broadcast_arrays(*[np.asarray(v, complex) for r in A for v in r])
    return np.moveaxis(np.array(flat), 0, -1).reshape(flat[0].shape + (n, n))


def dominant(A):
    A = mat(A)
    n = A.shape[-1]
    return all(np.all(abs(A[..., i, i]) > 1.01 * sum(abs(A[..., j, i]) for j in range(n) if j != i)) for i in range(n))


def cases(name, scat):
    lab = '%s%s' % (name, '' if scat else ' (M x = s)')

    @S.case('%s: one node' % lab, samples=60)
    def _(c):
        sh = [c.choice('e', [1, 0])] if scat else [1]
        system(c, name, 1, sh, [0], [0] if c.choice('sourced', [1, 0]) else [], [0], scat, c.cplx)

    @S.case('%s: two nodes' % lab, samples=120)
    def _(c):
        sh = [c.choice('e%d' % k, [1, 0]) for k in range(4)]
        if not scat and not ((sh[0] and sh[3]) or (sh[1] and sh[2])):
            sh = [1] * 4
        io = c.choice('io', [([0, 1], [0, 1], [0, 1]), ([0], [], [1]), ([], [1], [0, 1]), ([1], [0], [0])])
        system(c, name, 2, sh, io[0], io[1], io[2], scat, c.cplx)

    @S.case('%s: three nodes' % lab, samples=120)
    def _(c):
        full = [1] * 9
        k = c.choice('absent', list(range(10)))
        if k < 9:
            full[k] = 0
        k2 = c.choice('absent2', [0, 2, 7])
        full[k2] = 0
        if not scat and k in (0, 4, 8):
            full = [1] * 9
        io = c.choice('io', [([0, 1], [2], [0, 2]), ([0], [0, 1, 2], [1])])
        system(c, name, 3, full, io[0], io[1], io[2], scat, c.cplx if not c.sym else c.real)


cases('scisparse', True)
cases('scisparse', False)
cases('graph', True)


def random_systems(name, scat, zeros=True, units=None):
    def case(c):
        p = graphs.Problem('P02/%d' % c.choice('seed', range(30000)), scattering=scat, zeros=zeros)
        if name == 'graph':
            p.pin = p.pout = True
            for k in p.e:
                p.e[k] = p.e[k] / (2. * len(p.nodes))
        W = p.reference()
        if W is None:
            raise Skip()
        if units:
            if abs(W).max() > 100:
                raise Skip()
            p.units(units)
        p.check(c, p.solve(backend(name)[0]), W)
    return case


for _n in ('scisparse', 'graph'):
    S.case('%s: nodes in units of their own' % _n, sym=False, arr=False, bounded=True, samples=150)(random_systems(_n, True, zeros=False, units=4))


S.case('scisparse: random systems against numpy', sym=False, arr=False, bounded=True, samples=300)(random_systems('scisparse', True))
S.case('scisparse: random systems M x = s', sym=False, arr=False, bounded=True, samples=200)(random_systems('scisparse', False))
S.case('graph: random systems against numpy', sym=False, arr=False, bounded=True, samples=300)(random_systems('graph', True))


@S.case('systems answer the same with every solver', sym=False, arr=False, bounded=True, samples=12)
def _(c):
    from phasor.matrix.solvers_registry import solvers_all
    kind = c.choice('system', ['electrical', 'cavity'])
    rng = __import__('random').Random(c.choice('seed', range(30000)))
    par = [rng.uniform(.2, 2) for _ in range(12)]
    if c.choice('array', [0, 1]):
        par[0] = np.array([par[0], par[1], 2 * par[0]])
    ref = None
    for name in ('loop_LUQ', 'loop_fast_unstable', 'scisparse', 'scisparse_superLU'):
        with graphs.quiet():
            got = getattr(elec_sys, kind)(par, name)
        if ref is None:
            ref = got
        for k in ref:
            c.eq('%s: %s' % (name, k), got[k], ref[k], scale=1e3 * np.max(abs(np.asarray(ref[k]))))
