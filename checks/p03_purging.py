"""P03: purging removes exactly what cannot matter."""
import itertools
import warnings
from collections import defaultdict
import numpy as np
from vc.harness import Suite, Skip
from vc import phys, graphs, unbounded

S = Suite('P03')
phys.install()


def graph(n, bits, extra=()):
    E = [(a, b) for k, (a, b) in enumerate((a, b) for a in range(n) for b in range(n)) if bits >> k & 1]
    return E


def maps(n, E):
    seq, req = defaultdict(set), defaultdict(set)
    for k in range(n):
        seq[k], req[k]
    for a, b in E:
        seq[a].add(b)
        req[b].add(a)
    return seq, req


def reach(start, nxt):
    seen, todo = set(start), list(start)
    while todo:
        for m in nxt.get(todo.pop(), ()):
            if m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


def check_purged(c, n, E, seq, req, em, keep, orig):
    c.true('kept nodes', set(seq) == keep and set(req) == keep)
    R = {(a, b) for a, b in E if a in keep and b in keep}
    c.true('kept couplings', {(a, b) for a in seq for b in seq[a]} == R)
    c.true('backward map agrees', {(a, b) for b in req for a in req[b]} == R)
    if em is not None:
        c.true('values of kept couplings', all(em.get(e) == orig[e] for e in R))
        c.true('no value of a coupling out of a purged node', all(a in keep for a, b in em))
        c.true('no new values', set(em) <= set(orig))


def purge(c, n, E, which, start):
    from phasor.matrix import matrix_generic as G
    seq, req = maps(n, E)
    orig = {e: 10. * e[0] + e[1] + 1 for e in E}
    em = dict(orig) if c.choice('values', [1, 0]) else None
    fwd, bwd = maps(n, E)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        if which == 'req':
            G.purge_reqless_inplace(seq=seq, req=req, except_set=set(start), edge_map=em)
            keep = reach(start, fwd)
        else:
            G.purge_seqless_inplace(seq=seq, req=req, except_set=set(start), edge_map=em)
            keep = reach(start, bwd)
    check_purged(c, n, E, seq, req, em, keep, orig)
    # purging again changes nothing
    s2 = {k: set(v) for k, v in seq.items()}
    (G.purge_reqless_inplace if which == 'req' else G.purge_seqless_inplace)(seq=seq, req=req, except_set=set(start), edge_map=em)
    c.true('idempotent', {k: set(v) for k, v in seq.items()} == s2)


@S.case('every graph of three nodes', sym=False, arr=False, bounded=True, samples=1500)
def _(c):
    E = graph(3, c.choice('graph', range(512)))
    start = [k for k in range(3) if c.choice('start', range(8)) >> k & 1]
    purge(c, 3, E, c.choice('direction', ['req', 'seq']), start)


@S.case('larger graphs', sym=False, arr=False, bounded=True, samples=300)
def _(c):
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n = rng.randint(1, 14)
    E = [(a, b) for a in range(n) for b in range(n) if rng.rand() < rng.choice([.1, .25])]
    purge(c, n, E, ['req', 'seq'][rng.randint(2)], [k for k in range(n) if rng.rand() < .3])


@S.case('drives and readouts that meet no path are dropped', sym=False, arr=False, bounded=True, samples=300)
def _(c):
    """with the maps of drives (req_alpha) and readouts (seq_beta) as the solver passes them"""
    from phasor.matrix import matrix_generic as G
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n = rng.randint(1, 8)
    E = [(a, b) for a in range(n) for b in range(n) if rng.rand() < .25]
    seq, req = maps(n, E)
    fwd, bwd = maps(n, E)
    ra, sb = {}, {}
    for k in range(n):
        if rng.rand() < .4:
            ra[k] = {('in', k)}
        if rng.rand() < .4:
            sb[k] = {('out', k)}
    ra0, sb0 = dict(ra), dict(sb)
    em = {e: 1. for e in E}
    if c.choice('direction', ['req', 'seq']) == 'req':
        G.purge_reqless_inplace(req_alpha=ra, seq_beta=sb, seq=seq, req=req, edge_map=em)
        keep = reach(ra0, fwd)
        c.true('drives kept', ra == ra0)
        c.true('no readout is dropped that can be reached by a coupling', all(k in sb for k in sb0 if req.get(k)))
        c.true('readouts', all(sb[k] == sb0[k] for k in sb) and all(k in keep and bool(req.get(k)) for k in sb))
    else:
        G.purge_seqless_inplace(req_alpha=ra, seq_beta=sb, seq=seq, req=req, edge_map=em)
        keep = reach(sb0, bwd)
        c.true('readouts kept', sb == sb0)
        c.true('no drive is dropped that acts through a coupling', all(k in ra for k in ra0 if seq.get(k)))
        c.true('drives', all(ra[k] == ra0[k] for k in ra) and all(k in keep and bool(seq.get(k)) for k in ra))
    check_purged(c, n, E, seq, req, None, keep, em)


@S.case('couplings without a value are dropped first', sym=False, arr=False, bounded=True, samples=300)
def _(c):
    from phasor.matrix import matrix_generic as G
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n = rng.randint(1, 7)
    E = [(a, b) for a in range(n) for b in range(n) if rng.rand() < .4]
    seq, req = maps(n, E)
    em = {e: 1. for e in E if rng.rand() < .6}
    G.pre_purge_inplace(seq, req, em)
    c.true('forward', {(a, b) for a in seq for b in seq[a]} == set(em))
    c.true('backward', {(a, b) for b in req for a in req[b]} == set(em))
    c.true('nodes stay', set(seq) == set(range(n)) and set(req) == set(range(n)))
    c.true('balanced', G.check_seq_req_balance(seq, req, em) is None)
    if E and em:
        a, b = sorted(em)[0]
        req[b].discard(a)
        try:
            G.check_seq_req_balance(seq, req)
            c.true('imbalance is detected', False)
        except AssertionError:
            pass


@S.case('answers do not depend on purging', sym=False, arr=False, bounded=True, samples=150)
def _(c):
    from phasor.matrix import DAG_algorithm as D
    p = graphs.Problem('P03/%d' % c.choice('seed', range(30000)))
    if p.reference() is None:
        raise Skip()
    W = p.reference()
    for pin in (False, True):
        for pout in (False, True):
            p.pin, p.pout = pin, pout
            p.check(c, p.solve(D.inverse_solve_inplace), W)


@S.case('the sparsity graph keeps every field that can be excited', sym=False, arr=False, bounded=True, samples=150)
def _(c):
    """products open couplings only when their fields can be excited: the settled graph is the least closure"""
    from vc import net
    from phasor.system import system
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n = rng.randint(2, 7)
    edges = [(rng.randint(n), rng.randint(n)) for _ in range(rng.randint(0, n + 2))]
    src = [k for k in range(n) if rng.rand() < .4]
    tr = [(rng.randint(n), rng.randint(n), rng.randint(n)) for _ in range(rng.randint(0, 4))]
    me = [(rng.randint(n), rng.randint(n), [int(v) for v in rng.randint(0, n, rng.randint(1, 3))]) for _ in range(rng.randint(0, 3))]
    ms = [(rng.randint(n), [int(v) for v in rng.randint(0, n, rng.randint(1, 3))]) for _ in range(rng.randint(0, 3))]
    net.classes()
    from vc.phys import Sys
    s = Sys(c, F_AC=1.)
    k0 = s.kDC()
    N = s.add('net', net.classes()(n, [k0], edges=[(a, k0, b, k0, 1.) for a, b in edges], sources=[(b, k0, 1.) for b in src],
                                   triplets=[(a, k0, b, k0, t, k0, .1) for a, b, t in tr],
                                   medges=[(a, k0, b, k0, 1., [(q, k0) for q in v]) for a, b, v in me],
                                   msources=[(b, k0, 1., [(q, k0) for q in v]) for b, v in ms]))
    for k in range(n):
        s.sys.bond(getattr(N, 'pO%d' % k), getattr(N, 'pI%d' % k))
    s.sys._setup_sequence()
    b = s.sys.matrix_algorithm.coherent_subgraph_bunch
    # independent least fixed point: which fields can be non-zero, which couplings are open
    live, opened = set(src), set(edges)
    while True:
        l2 = set(live)
        o2 = set(opened)
        for a, q, t in tr:
            if a in live:
                o2.add((q, t))
            if q in live:
                o2.add((a, t))
        for a, t, v in me:
            if all(q in live for q in v):
                o2.add((a, t))
        for t, v in ms:
            if all(q in live for q in v):
                l2.add(t)
        for a, t in o2:
            if a in live:
                l2.add(t)
        if (l2, o2) == (live, opened):
            break
        live, opened = l2, o2
    O = {N.O(k): k for k in range(n)}
    I = {N.I(k): k for k in range(n)}
    got = {(I[f[0]], O[t[0]]) for f in b.seq_full for t in b.seq_full[f] if f[0] in I}
    # a product of two dark fields leaves both couplings closed; one bright field opens the other
    c.true('open couplings', got == opened)
    c.true('backward map', {(f, t) for f in b.seq_full for t in b.seq_full[f]} == {(f, t) for t in b.req_full for f in b.req_full[t]})
    c.true('excited fields', {O[q[0]] for q in b.active if q[0] in O} == live)
    want_in = set(src) | {t for t, v in ms if all(q in live for q in v)} | {t for a, q, t in tr if a != q and a in live and q in live}
    c.true('sources', {O[q[0]] for q in b.inputs_set} == want_in)
    need = set()
    for a, q, t in tr:
        if q in live:
            need.add(q)
        if a in live:
            need.add(a)
    for a, t, v in me:
        if all(q in live for q in v):
            need |= set(v)
    for t, v in ms:
        if all(q in live for q in v):
            need |= set(v)
    c.true('every field a product needs is solved for', need <= {I[q[0]] for q in b.outputs_set if q[0] in I})
    # the purged graph: exactly what leads from a source to a needed field
    ful = {f: set(t) for f, t in b.seq_full.items()}
    bak = {}
    for f in ful:
        for t in ful[f]:
            bak.setdefault(t, set()).add(f)
    want = reach(b.inputs_set, ful) & reach(b.outputs_set, bak)
    E1 = {(f, t) for f in b.seq_perturb for t in b.seq_perturb[f]}
    c.true('purged graph', E1 == {(f, t) for f in ful for t in ful[f] if f in want and t in want})
    c.true('purged graph, backward', E1 == {(f, t) for t in b.req_perturb for f in b.req_perturb[t]})


@S.case('nodes off every path do not change the answer', samples=60)
def _(c):
    from phasor.matrix import DAG_algorithm as D
    N = [graphs.node(i) for i in range(4)]
    real = lambda n: c.real(n, nz=True)
    M = {(0, 1): real('m01')}
    # node 2 is driven but leads nowhere, node 3 leads to the readout but is not driven
    for e in c.choice('off path', [[(0, 2), (3, 1)], [(0, 2), (3, 1), (3, 2)], [(3, 2), (3, 1)]]):
        M[e] = c.choice('v', [2., -.5])
    loop = c.choice('loop', [None, 1, 2])
    if loop is not None:
        M[loop, loop] = real('l') if loop == 1 else .25
        if loop != 1:
            pass
        elif c.sym:
            c.assume('!=', 1 - M[loop, loop])
        elif np.any(abs(1 - M[loop, loop]) < 1e-2):
            raise Skip()
    s0 = real('s0')
    seq, req = graphs.maps([(N[i], N[j]) for i, j in M])
    for k in N:
        seq[k], req[k]
    with graphs.quiet():
        b = D.inverse_solve_inplace(seq=seq, req=req, edge_map={(N[i], N[j]): v for (i, j), v in M.items()},
                                    outputs_set={N[1]}, inputs_set={N[0]}, inputs_map={N[0]: s0}, scattering=True,
                                    purge_in=c.choice('purge_in', [True, False]), purge_out=c.choice('purge_out', [True, False]))
    g = (1 - M[1, 1]) if loop == 1 else 1
    c.eq('solution', b.outputs_map.get(N[1], 0) * g, M[0, 1] * s0, scale=None if c.sym else 1e4)
    c.eq('coupling', b.edge_map.get((N[0], N[1]), 0) * g, M[0, 1], scale=None if c.sym else 1e4)
    c.true('only what was asked', set(b.outputs_map) <= {N[1]} and set(b.edge_map) <= {(N[0], N[1])})


def proofs():
    """contracts/generic.py: what is left is exactly what can be reached, over every graph"""
    from phasor.matrix import matrix_generic as M
    from contracts import generic as G
    return G.contracts(M)


unbounded.add(S, proofs)
