"""P01: the default solver returns the exact solution of the keyed linear system.

Contracts of the elimination steps (every edge value symbolic), the contract of
the whole solve on small systems (symbolic), and on random larger ones (concrete)."""
import itertools
from vc.harness import Suite
from vc import graphs, lemmas, phys, unbounded

S = Suite('P01')
phys.install()


def bits(c, name, items):
    """a sub set of the items, one boolean choice each"""
    return [x for x in items if c.choice('%s%s' % (name, x), [0, 1])]


def state_choice(c, n=3, pivot=True, real=False):
    # node 0 is acted on; full generality of the edges which share it
    edges = [(0, 0)] if pivot else []
    pairs = [(i, j) for i in range(n) for j in range(n) if (i, j) != (0, 0)]
    edges += bits(c, 'e', pairs)
    return edges


@S.case('reduceLU is the Schur complement of its node', arr=True, samples=60)
def _(c):
    from phasor.matrix.DAG_algorithm_impl import reduceLU
    # every pair of other nodes, inputs and outputs: m' = m - m_to m_nn^-1 m_from
    sel = c.choice('family', ['inner', 'io'])
    if sel == 'inner':
        edges = [(0, 0)] + bits(c, 'e', [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (1, 1), (2, 1)])
        alpha, beta, direct = [(0, 0)], [(0, 0)], []
    else:
        edges = [(0, 0)] + bits(c, 'e', [(0, 1), (1, 0)])
        alpha = bits(c, 'a', [(0, 0), (0, 1), (1, 0)])
        beta = bits(c, 'b', [(0, 0), (1, 0), (0, 1)])
        direct = bits(c, 'd', [(0, 0), (1, 1)])
    g = graphs.SGraph(c, 3 if sel == 'inner' else 2, edges, alpha, beta, direct)
    st = g.state()
    n = g.N[0]
    c.assume('!=', g.e[n, n])
    reduceLU(SRABE=st, node=n, node_costs_invalid_in_queue=set())
    seq, req, ra, sb, em = st
    graphs.well_formed(c, st, g.A, g.B)
    for m in (seq, req, ra, sb):
        c.true('the node is gone', not m.get(n))
    c.true('no edge of the node is left', not any(n in k for k in em))
    for a in g.N[1:] + g.A:
        for b in g.N[1:] + g.B:
            want = g.e.get((a, b), 0)
            if (a, n) in g.e and (n, b) in g.e:
                want = want - g.e[a, n] * g.e[n, b] / g.e[n, n]
            c.eq("m' = m - m_to m_from / m_nn", em.get((a, b), 0), want)


@S.case('pivotCOL_OP swaps two columns and nothing else', samples=60)
def _(c):
    from phasor.matrix.DAG_algorithm_impl import pivotCOL_OP
    edges = bits(c, 'e', [(i, j) for i in range(3) for j in range(3) if (i, j) != (2, 2)])
    beta = bits(c, 'b', [(0, 0), (1, 0)]) if len(edges) > 5 or not c.sym else [(0, 0)]
    g = graphs.SGraph(c, 3, edges, [(0, 0)], beta, [])
    st = g.state()
    n1, n2 = g.N[0], g.N[1]
    pivotCOL_OP(SRABE=st, node1=n1, node2=n2, node_costs_invalid_in_queue=set())
    graphs.well_formed(c, st, g.A, g.B)
    sw = {n1: n2, n2: n1}
    em = st[4]
    for a in g.N + g.A:
        for b in g.N + g.B:
            c.eq('edges from the two nodes are exchanged', em.get((a, b), 0), g.e.get((sw.get(a, a), b), 0))


@S.case('pivotROW_OP swaps two rows and nothing else', samples=60)
def _(c):
    from phasor.matrix.DAG_algorithm_impl import pivotROW_OP
    edges = bits(c, 'e', [(i, j) for i in range(3) for j in range(3) if (i, j) != (2, 2)])
    alpha = bits(c, 'a', [(0, 0), (0, 1)]) if len(edges) > 5 or not c.sym else [(0, 0)]
    g = graphs.SGraph(c, 3, edges, alpha, [(0, 0)], [])
    st = g.state()
    n1, n2 = g.N[0], g.N[1]
    pivotROW_OP(SRABE=st, node1=n1, node2=n2, node_costs_invalid_in_queue=set())
    graphs.well_formed(c, st, g.A, g.B)
    sw = {n1: n2, n2: n1}
    em = st[4]
    for a in g.N + g.A:
        for b in g.N + g.B:
            c.eq('edges to the two nodes are exchanged', em.get((a, b), 0), g.e.get((a, sw.get(b, b)), 0))


def householder(c, col):
    from phasor.matrix import DAG_algorithm_impl as I
    # symbolic: the two-dimensional reflection; concrete samples: also three nodes
    n = 2 if c.sym else c.choice('n', [2, 3])
    # the reduced node 0 is fed by every node of nodes_from
    base = [(i, 0) for i in range(n)] if not col else [(0, i) for i in range(n)]
    free = [(i, j) for i in range(n) for j in range(n) if (i, j) not in base]
    edges = base + bits(c, 'e', free)
    alpha = bits(c, 'a', [(0, 0), (0, 1)])
    beta = bits(c, 'b', [(0, 0), (1, 0)])
    if c.sym and (len(alpha) == 0 or len(beta) == 0):
        alpha, beta = [], []
    three = n == 3 and c.choice('from', [1, 2]) == 2
    frm = {1, 2} if three else {1}
    g = graphs.SGraph(c, n, edges, alpha, beta, [])
    # each of the others may be in a unit of its own
    unit = {b: 1. if c.sym or j == 0 else 10. ** c.choice('unit%d' % j, [0, 0, -14, 14]) for j, b in enumerate(g.N + (g.A if col else g.B))}
    if not c.sym:
        for a, b in list(g.e):
            g.e[a, b] = g.e[a, b] * unit.get(a if col else b, 1.)
    st = g.state()
    for i in frm:
        e = g.e[(g.N[i], g.N[0]) if not col else (g.N[0], g.N[i])]
        c.assume('!=', e)
    if c.sym:
        # generic position (the excluded values are sampled concretely)
        key = (lambda i, b: (g.N[i], b)) if not col else (lambda i, b: (b, g.N[i]))
        e0, e1 = g.e[key(0, g.N[0])], g.e[key(1, g.N[0])]
        c.assume('!=', e0)
        a0, a1 = I.abssq(e0), I.abssq(e1)
        u0 = e0 + (a1 + a0)**.5 * (e0 / abs(e0))
        nrm = (a1 + I.abssq(u0))**.5
        u = [u0 / nrm, e1 / nrm]
        for b in g.N:
            ov = 0
            for i in ((1, 0)):
                if key(i, b) in g.e:
                    ov = ov + u[i].conjugate() * g.e[key(i, b)]
            if not (isinstance(ov, int)):
                c.assume('!=', ov)
    op = I.householderREFL_COL_OP if col else I.householderREFL_ROW_OP
    op(SRABE=st, node_into=g.N[0], nodes_from={g.N[i] for i in frm}, node_costs_invalid_in_queue=set())
    graphs.well_formed(c, st, g.A, g.B)
    em = st[4]
    old, new = {}, {}
    if not col:
        ends = g.N + g.B
        for b in ends:
            for i in range(n):
                old[b, i] = g.e.get((g.N[i], b), 0)
                new[b, i] = em.get((g.N[i], b), 0)
    else:
        ends = g.N + g.A
        for b in ends:
            for i in range(n):
                old[b, i] = g.e.get((b, g.N[i]), 0)
                new[b, i] = em.get((b, g.N[i]), 0)
    for i in frm:
        c.true('the reduced edges are removed', ((g.N[i], g.N[0]) if not col else (g.N[0], g.N[i])) not in em)
    for i in range(n):
        if i not in frm and i != 0:
            for b in ends:
                c.eq('other vectors are untouched', new[b, i], old[b, i])
    if not c.sym:
        for b, i in list(old):
            old[b, i], new[b, i] = old[b, i] / unit[b], new[b, i] / unit[b]
    # the map is unitary on the reflected directions: inner products are kept
    for b in ends:
        for d in ends:
            if ends.index(d) < ends.index(b):
                continue
            o, w = 0, 0
            for i in [0] + sorted(frm):
                o = o + old[b, i] * cj(old[d, i])
                w = w + new[b, i] * cj(new[d, i])
            c.eq('inner products are kept', w, o, scale=None if c.sym else 1e3)
    # the other side is not touched
    for (a, b), v in g.e.items():
        if (not col and a in g.A) or (col and b in g.B):
            c.eq('inputs/outputs of the other side are untouched', em.get((a, b), 0), v)


def cj(x):
    import numpy as np
    return x.conjugate() if hasattr(x, 'conjugate') else np.conj(x)


@S.case('householderREFL_ROW_OP clears edges by a unitary map of the columns', samples=60)
def _(c):
    householder(c, False)


@S.case('householderREFL_COL_OP clears edges by a unitary map of the rows', samples=60)
def _(c):
    householder(c, True)


@S.case('one node: x = m x + s', samples=60)
def _(c):
    small(c, 1, c.cplx)


def two_nodes(shape, neg):
    def case(c):
        small(c, 2, c.real, shape, neg)
    return case


for shape in itertools.product([0, 1], repeat=4):
    for neg in [[False], [True]] if sum(shape) == 4 else [[False, True]]:
        S.case('two nodes: x = M x + s for every real M of shape %d%d%d%d' % shape + (', %s' % ('negative' if neg[0] else 'positive') if len(neg) == 1 else ''),
               samples=10 if sum(shape) < 4 else 100, limit=(300, 800))(two_nodes(shape, neg))


def small(c, n, val, shape=None, neg=(False, True)):
    from phasor.matrix.DAG_algorithm import inverse_solve_inplace
    N = [graphs.node(i) for i in range(n)]
    M = {}
    for i in range(n):
        for j in range(n):
            if shape[i * n + j] if shape else c.choice('e%d%d' % (i, j), [0, 1]):
                M[i, j] = val('m%d%d' % (i, j))
    neg = c.choice('negative', neg)
    s = {i: val('s%d' % i) for i in range(n)}
    m = lambda i, j: M.get((i, j), 0)
    det = (1 - m(0, 0)) if n == 1 else (1 - m(0, 0)) * (1 - m(1, 1)) - m(0, 1) * m(1, 0)
    c.assume('!=', det)
    seq, req = graphs.maps([(N[i], N[j]) for i, j in M])
    with graphs.quiet():
        b = inverse_solve_inplace(seq=seq, req=req, edge_map={(N[i], N[j]): v for (i, j), v in M.items()},
                                  outputs_set=set(N), inputs_set=set(N), inputs_map={N[i]: v for i, v in s.items()},
                                  scattering=True, negative=neg)
    sg = -1 if neg else 1
    x = [sg * b.outputs_map.get(k, 0) for k in N]
    G = {(i, j): sg * b.edge_map.get((N[i], N[j]), 0) for i in range(n) for j in range(n)}
    sc = None
    for j in range(n):
        r = s[j]
        for i in range(n):
            r = r + m(i, j) * x[i]
        c.eq('x = M x + s', x[j], r, scale=1e6 if not c.sym else None)
        for i in range(n):
            r = 1 if i == j else 0
            for k in range(n):
                r = r + m(k, j) * G[i, k]
            c.eq('G = M G + 1', G[i, j], r, scale=1e6 if not c.sym else None)


def random_systems(scattering):
    def case(c):
        from phasor.matrix.DAG_algorithm import inverse_solve_inplace
        from vc.harness import Skip
        p = graphs.Problem('P01/%d' % c.choice('seed', range(30000)), scattering=scattering)
        W = p.reference()
        if W is None:
            raise Skip()
        b = p.solve(inverse_solve_inplace)
        p.check(c, b, W)
    return case


for k in range(4):
    S.case('random systems x = M x + s, against numpy (%d)' % k, sym=False, arr=False, bounded=True, samples=400)(random_systems(True))
S.case('random systems M x = s, against numpy', sym=False, arr=False, bounded=True, samples=400)(random_systems(False))


@S.case('elimination in key order (sorted_order) of diagonally dominant systems', sym=False, arr=False, bounded=True, samples=150)
def _(c):
    from phasor.matrix.DAG_algorithm import inverse_solve_inplace
    p = graphs.Problem('P01s/%d' % c.choice('seed', range(30000)), scattering=True, zeros=False)
    for k in p.e:
        p.e[k] = p.e[k] * .1
    p.neg = False
    W = p.reference()
    b = p.solve(inverse_solve_inplace, sorted_order=True)
    p.check(c, b, W)


def units(D, dens=None):
    def case(c):
        """the unit of each node is arbitrary: only ratios of couplings have a meaning"""
        from phasor.matrix.DAG_algorithm import inverse_solve_inplace
        from vc.harness import Skip
        p = graphs.Problem('P01u/%d' % c.choice('seed', range(30000)), scattering=True, zeros=False)
        W = p.reference()
        if W is None or abs(W).max() > 100:
            raise Skip()
        p.units(D)
        p.check(c, p.solve(inverse_solve_inplace), W)
    return case


S.case('nodes in units of their own', sym=False, arr=False, bounded=True, samples=300)(units(9))


def proofs():
    """contracts/elim.py: elimination of a node, swap of two, reflection of any number, over every graph, and the
    driver that eliminates the nodes which need no reflection"""
    from phasor.matrix import DAG_algorithm_impl as M, DAG_algorithm as D
    from contracts import elim as G
    return G.contracts(M, D)


unbounded.add(S, proofs)

# what these contracts mean for the equations: each step keeps every equation and readout, and loses no solution
lemmas.add(S, 'Elimination.lean', ['unbounded proofs: that the lemmas of lemmas/Elimination.lean state the contracts of contracts/elim.py is by reading; sums over sets of nodes are given by their recursion'])
