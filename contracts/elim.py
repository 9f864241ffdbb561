"""Contracts on the elimination of nodes: phasor/matrix/DAG_algorithm_impl.py."""
import z3
from vc.wp import Contract, A, Ex, And, Or, Not, Implies, If, K, P as PAIR, R, SETS, NUMS, B, MUL, INV, CONJ, ABS, SQRT, RE, IM, prod, recip, fresh

IN = z3.Function('is_input', K, B)
OUT = z3.Function('is_output', K, B)
N = ['SRABE[%d]' % i for i in range(5)]
SEQ, REQ, ALPHA, BETA, EM = N


def ring():
    yield 'products commute', A(lambda x, y: MUL(x, y) == MUL(y, x), sorts=[R, R], pats=lambda x, y: [MUL(x, y)])
    yield 'products associate', A(lambda x, y, z: MUL(x, MUL(y, z)) == MUL(y, MUL(x, z)), sorts=[R, R, R], pats=lambda x, y, z: [MUL(x, MUL(y, z))])


def node(e, k):
    return e.has(SEQ, k)


def left(e, a):
    return Or(node(e, a), IN(a))


def right(e, b):
    return Or(node(e, b), OUT(b))


def shape(e):
    """the links of a graph are its couplings, by the kinds of their ends"""
    for d in (SEQ, REQ, ALPHA, BETA):
        yield 'sets are not shared', e.owned(d)
        yield 'sets exist', e.allocated(d)
    yield 'the same nodes on both sides', A(lambda k: e.has(SEQ, k) == e.has(REQ, k), pats=lambda k: [e.has(SEQ, k), e.has(REQ, k)])
    yield 'nodes are neither inputs nor outputs', A(lambda k: Not(Or(And(IN(k), node(e, k)), And(OUT(k), node(e, k)), And(IN(k), OUT(k)))), pats=lambda k: [node(e, k), IN(k), OUT(k)])
    yield 'couplings have their ends in the graph', A(lambda a, b: Implies(e.edge(EM, a, b), And(left(e, a), right(e, b))), pats=lambda a, b: [e.edge(EM, a, b)])
    for nm, d, m, c in (('successors', SEQ, lambda a, b: And(e.has(SEQ, a), e.mem(SEQ, a, b)), lambda a, b: And(node(e, a), node(e, b))),
                        ('predecessors', REQ, lambda a, b: And(e.has(REQ, b), e.mem(REQ, b, a)), lambda a, b: And(node(e, a), node(e, b))),
                        ('inputs', ALPHA, lambda a, b: And(e.has(ALPHA, b), e.mem(ALPHA, b, a)), lambda a, b: And(IN(a), right(e, b))),
                        ('outputs', BETA, lambda a, b: And(e.has(BETA, a), e.mem(BETA, a, b)), lambda a, b: And(left(e, a), OUT(b)))):
        f = lambda a, b: m(a, b) == And(e.edge(EM, a, b), c(a, b))
        yield nm, A(f, pats=lambda a, b: [e.edge(EM, a, b)])
        yield nm, A(f, pats=lambda a, b: [e.mem(d, a, b) if d in (SEQ, BETA) else e.mem(d, b, a)])


def same_nodes(e, o):
    yield 'the nodes stay', A(lambda k: e.has(SEQ, k) == o.has(SEQ, k), pats=lambda k: [e.has(SEQ, k)])


ANSWER = z3.Function('readouts_of', z3.ArraySort(PAIR, B), z3.ArraySort(PAIR, R), R)


def answer(e):
    """what the outputs of the graph read for given inputs, as a function of all its couplings"""
    d = e._d(EM)
    return ANSWER(d['dom'], d['val'])


def reduceLU(M):
    def P(e, a):
        n = e.t('node')
        return And(a != n, e.old.edge(EM, a, n), left(e.old, a))

    def S(e, b):
        n = e.t('node')
        return And(b != n, e.old.edge(EM, n, b), right(e.old, b))

    def through(e, a, b):
        """what passes through the node from a to b"""
        n, o = e.t('node'), e.old
        return -MUL(o.val(EM, n, b), MUL(o.val(EM, a, n), INV(o.val(EM, n, n))))

    def upto(e, D):
        n, o = e.t('node'), e.old
        for d in (SEQ, REQ, ALPHA, BETA):
            yield 'entries keep their sets %s' % d, A(lambda k: Implies(e.pre.has(d, k), And(e.has(d, k), e.ref(d, k) == e.pre.ref(d, k))), pats=lambda k: [e.ref(d, k), e.has(d, k)])
        was = lambda a, b: And(o.edge(EM, a, b), Not(And(a == n, b == n)))
        yield from shape(e)
        yield from same_nodes(e, o)
        yield 'where couplings are', A(lambda a, b: e.edge(EM, a, b) == Or(was(a, b), D(a, b)), pats=lambda a, b: [e.edge(EM, a, b)])
        yield 'couplings', A(lambda a, b: Implies(e.edge(EM, a, b), e.val(EM, a, b) == If(was(a, b), o.val(EM, a, b), 0) + If(D(a, b), through(e, a, b), 0)), pats=lambda a, b: [e.val(EM, a, b)])

    def l1(e):
        yield from upto(e, lambda a, b: And(P(e, a), e.done[b]))

    def l2(e):
        s, T = e.t('snode'), e.encl[0]
        yield from upto(e, lambda a, b: Or(And(P(e, a), T[b]), And(b == s, e.done[a])))

    def l3(e):
        s, T = e.t('snode'), e.encl[0]
        yield from upto(e, lambda a, b: Or(And(P(e, a), T[b]), And(b == s, Or(And(P(e, a), node(e.old, a)), e.done[a]))))

    def first(e, a, b):
        return And(P(e, a), S(e, b), node(e.old, b))

    def l4(e):
        yield from upto(e, lambda a, b: Or(first(e, a, b), And(P(e, a), e.done[b])))

    def l5(e):
        s, T = e.t('snode'), e.encl[0]
        yield from upto(e, lambda a, b: Or(first(e, a, b), And(P(e, a), T[b]), And(b == s, e.done[a])))

    def l6(e):
        s, T = e.t('snode'), e.encl[0]
        yield from upto(e, lambda a, b: Or(first(e, a, b), And(P(e, a), T[b]), And(b == s, Or(And(P(e, a), node(e.old, a)), e.done[a]))))

    def gone(e, D, D2=None, d=None):
        """couplings D went, and in the sets of d the node"""
        o, n = e.pre, e.t('node')
        yield 'couplings', A(lambda a, b: And(e.edge(EM, a, b) == And(o.edge(EM, a, b), Not(D(a, b))), e.val(EM, a, b) == o.val(EM, a, b)), pats=lambda a, b: [e.edge(EM, a, b)])
        yield 'values', A(lambda a, b: e.val(EM, a, b) == o.val(EM, a, b), pats=lambda a, b: [e.val(EM, a, b)])
        if d:
            yield 'links', A(lambda k, x: Implies(e.has(d, k), e.mem(d, k, x) == And(o.mem(d, k, x), Not(And(x == n, D2(k))))), pats=lambda k, x: [e.mem(d, k, x)])

    def l7(e):
        n = e.t('node')
        yield from gone(e, lambda a, b: And(a == n, e.done[b]), lambda k: e.done[k], REQ)

    def l8(e):
        n = e.t('node')
        yield from gone(e, lambda a, b: And(a == n, e.done[b]))

    def l9(e):
        n = e.t('node')
        yield from gone(e, lambda a, b: And(b == n, e.done[a]), lambda k: e.done[k], SEQ)

    def l10(e):
        n = e.t('node')
        yield from gone(e, lambda a, b: And(b == n, e.done[a]))

    def req(e):
        yield from ring()
        yield from shape(e)
        n = e.t('node')
        yield 'it is a node', node(e, n)
        yield 'its own coupling is there', e.edge(EM, n, n)
        yield 'its own coupling has an inverse', e.val(EM, n, n) != 0

    def kept(e):
        """theorem eliminate (lemmas/Elimination.lean) on what it ensures"""
        yield 'the readouts are kept', answer(e) == answer(e.old)

    def ens(e):
        o, n = e.old, e.t('node')
        yield from shape(e)
        yield 'the node is gone', A(lambda k: e.has(SEQ, k) == And(o.has(SEQ, k), k != n), pats=lambda k: [e.has(SEQ, k)])
        D = lambda a, b: And(P(e, a), S(e, b))
        yield 'couplings of the graph without the node', A(lambda a, b: Implies(And(a != n, b != n), e.edge(EM, a, b) == Or(o.edge(EM, a, b), D(a, b))), pats=lambda a, b: [e.edge(EM, a, b)])
        yield 'each gains what passed through the node', A(lambda a, b: Implies(And(a != n, b != n, e.edge(EM, a, b)), e.val(EM, a, b) == If(o.edge(EM, a, b), o.val(EM, a, b), 0) + If(D(a, b), through(e, a, b), 0)), pats=lambda a, b: [e.val(EM, a, b)])
    out = []
    for q in ('none', 'set'):
        out.append(Contract('reduceLU%s' % (' (with costs)' if q == 'set' else ''), M.reduceLU,
                            dict(SRABE=('tuple', ['dict:set', 'dict:set', 'ddict:set', 'ddict:set', 'dict:num']), node='K', SRABE_SYM='none', node_costs_invalid_in_queue=q),
                            req, ens, loops=[l1, l2, l3, l4, l5, l6, l7, l8, l9, l10], lemma=kept, modifies=N + ([] if q == 'none' else ['node_costs_invalid_in_queue'])))
    return out


def linked(e, n):
    """both ends know the couplings of a node"""
    yield 'it is a node', And(e.has(SEQ, n), e.has(REQ, n))
    for d, o in ((SEQ, REQ), (REQ, SEQ)):
        yield 'linked at both ends', A(lambda b: Implies(e.mem(d, n, b), And(e.has(o, b), e.mem(o, b, n))), pats=lambda b: [e.mem(d, n, b)])


def check_graph_at_node(M):
    same = lambda e: ()
    return [Contract('check_graph_at_node', M.check_graph_at_node, dict(SRABE=GRAPH, node='K'), lambda e: linked(e, e.t('node')), None, loops=[same, same])]


GRAPH = ('tuple', ['dict:set', 'dict:set', 'ddict:set', 'ddict:set', 'dict:num'])


def pivot(M, name, S, Q, X, sw):
    """what leaves one of two nodes, and all of it, leaves the other (S the sets of ends, Q their
    counterparts, X the sets at the border; sw(a, b) orders a coupling from the swapped side)"""
    T = 'edge_map_2'
    edge = lambda e, d, a, b: e.edge(d, *sw(a, b))
    val = lambda e, d, a, b: e.val(d, *sw(a, b))

    def n12(e):
        return e.t('node1'), e.t('node2')

    def moved(e, D):
        """the couplings D (from node 1 or 2) are on their way"""
        o = e.old
        n1, n2 = n12(e)
        yield 'taken out', A(lambda a, b: edge(e, EM, a, b) == And(edge(o, EM, a, b), Not(D(a, b))), pats=lambda a, b: [edge(e, EM, a, b)])
        yield 'not changed', A(lambda a, b: val(e, EM, a, b) == val(o, EM, a, b), pats=lambda a, b: [val(e, EM, a, b)])
        sw12 = lambda a: If(a == n1, n2, If(a == n2, n1, a))
        yield 'kept', A(lambda a, b: edge(e, T, a, b) == And(Or(a == n1, a == n2), D(sw12(a), b)), pats=lambda a, b: [edge(e, T, a, b)])
        yield 'kept as it was', A(lambda a, b: Implies(edge(e, T, a, b), val(e, T, a, b) == val(o, EM, sw12(a), b)), pats=lambda a, b: [val(e, T, a, b)])

    def links(e, D1, D2):
        o = e.old
        n1, n2 = n12(e)

        def m(k, x):
            a = If(D1(k), Or(And(o.mem(Q, k, x), x != n1), x == n2), o.mem(Q, k, x))
            return If(D2(k), Or(x == n1, And(a, Or(x != n2, o.mem(S, n1, k)))), a)
        yield 'links', A(lambda k, x: Implies(e.has(Q, k), e.mem(Q, k, x) == m(k, x)), pats=lambda k, x: [e.mem(Q, k, x)])

    no = lambda k: z3.BoolVal(False)

    def border(e):
        yield 'sets are not shared', e.owned(X)
        yield 'sets exist', e.allocated(X)
        yield 'the border stays', A(lambda k, x: And(e.has(X, k), e.mem(X, k, x)) == And(e.old.has(X, k), e.old.mem(X, k, x)), pats=lambda k, x: [e.mem(X, k, x)])

    def d(e, i, k):
        o = e.old
        n1, n2 = n12(e)
        return [o.mem(S, n1, k), And(o.has(X, n1), o.mem(X, n1, k)), o.mem(S, n2, k), And(o.has(X, n2), o.mem(X, n2, k))][i]

    def loop(i):
        def inv(e):
            n1, n2 = n12(e)

            def got(j, k):
                return e.done[k] if j == i else d(e, j, k) if j < i else z3.BoolVal(False)
            yield from moved(e, lambda a, b: Or(And(a == n1, Or(got(0, b), got(1, b))), And(a == n2, Or(got(2, b), got(3, b)))))
            yield from links(e, lambda k: got(0, k), lambda k: got(2, k))
            yield from border(e)
        return inv

    def req(e):
        yield from shape(e)
        n1, n2 = n12(e)
        yield 'two nodes', And(n1 != n2, node(e, n1), node(e, n2))

    def ens(e):
        yield from shape(e)
        yield from same_nodes(e, e.old)
        n1, n2 = n12(e)
        s = lambda a: If(a == n1, n2, If(a == n2, n1, a))
        o = e.old
        yield 'couplings of the two nodes are swapped', A(lambda a, b: edge(e, EM, a, b) == edge(o, EM, s(a), b), pats=lambda a, b: [edge(e, EM, a, b)])
        yield 'with their values', A(lambda a, b: Implies(edge(e, EM, a, b), val(e, EM, a, b) == val(o, EM, s(a), b)), pats=lambda a, b: [val(e, EM, a, b)])
    return [Contract(name, getattr(M, name), dict(SRABE=GRAPH, node1='K', node2='K', node_costs_invalid_in_queue='set', SRABE_SYM='none'),
                     req, ens, loops=[loop(i) for i in range(4)], modifies=N + ['node_costs_invalid_in_queue'])]


ABSSQ = z3.Function('abssq', R, R)
PHASE = z3.Function('edge_phase', R, R)
NONE = z3.K(K, z3.BoolVal(False))


def householder(M, name, S, Q, X, END, sw, nchecks):
    """the reflection 1 - 2 u u^+ of the nodes in u: u_vec (nodes_from and node_into), applied to what
    leaves them (S the sets of ends, Q their counterparts, X the sets at the border; sw orders a coupling)"""
    T = 'edge_map_2'
    edge = lambda e, a, b: e.edge(EM, *sw(a, b))
    val = lambda e, a, b: e.val(EM, *sw(a, b))
    # sums over the nodes of a set (each node once, in any order)
    NORM = z3.Function('norm_of', SETS, R)                      # of |coupling into node_into|^2
    G = z3.Function('u_dot_column', NUMS, K, SETS, R)           # of conj(u_k) * coupling(k, f)
    H = z3.Function('border_gain', NUMS, K, K, SETS, R)         # of -2 u_t conj(u_k) * coupling(k, s)
    ANY = z3.Function('any_at_border', K, SETS, B)              # some node of the set has a coupling to s

    def m0(o, d, k, x):
        return And(o.has(d, k), o.mem(d, k, x))

    def e0(o, a, b):
        return If(edge(o, a, b), val(o, a, b), 0)

    def term(o, V, t, k, s):
        return -2 * MUL(CONJ(V[k]), MUL(V[t], val(o, k, s)))

    def sums(o, into):
        """what the sums are: nothing for no node, and one more term for one more node"""
        V, f, s, t, D, k = [fresh(n, x) for n, x in (('V', NUMS), ('f', K), ('s', K), ('t', K), ('D', SETS), ('k', K))]
        D1 = z3.Store(D, k, True)
        FA = lambda vs, body, pat: z3.ForAll(vs, body, patterns=[pat])
        yield 'the norm of nothing', NORM(NONE) == 0
        yield 'the norm', FA([D, k], Implies(Not(D[k]), NORM(D1) == NORM(D) + ABSSQ(val(o, k, into))), NORM(D1))
        yield 'no node no product', FA([V, f], G(V, f, NONE) == 0, G(V, f, NONE))
        yield 'product', FA([V, f, D, k], Implies(Not(D[k]), G(V, f, D1) == G(V, f, D) + If(m0(o, Q, f, k), MUL(CONJ(V[k]), val(o, k, f)), 0)), G(V, f, D1))
        yield 'no node no gain', FA([V, t, s], H(V, t, s, NONE) == 0, H(V, t, s, NONE))
        yield 'gain', FA([V, t, s, D, k], Implies(Not(D[k]), H(V, t, s, D1) == H(V, t, s, D) + If(m0(o, X, k, s), term(o, V, t, k, s), 0)), H(V, t, s, D1))
        yield 'no node no coupling', FA([s], Not(ANY(s, NONE)), ANY(s, NONE))
        yield 'some coupling', FA([s, D, k], ANY(s, D1) == Or(ANY(s, D), m0(o, X, k, s)), ANY(s, D1))
        yield 'products with nothing', A(lambda x: MUL(x, 0) == 0, sorts=[R], pats=lambda x: [MUL(x, 0)])

    def U(e):
        return e._d('u_vec')['dom']

    def V(e):
        return e._d('u_vec')['val']

    def into(e):
        return e.t('node_into')

    def uset(e):
        yield 'u: the nodes', A(lambda k: U(e)[k] == Or(e.old.inset('nodes_from', k), k == into(e)), pats=lambda k: [U(e)[k]])

    # collecting u
    def l1(e):
        o = e.old
        yield 'u: so far', A(lambda k: U(e)[k] == e.done[k], pats=lambda k: [U(e)[k]])
        yield 'u: the couplings', A(lambda k: Implies(U(e)[k], V(e)[k] == val(o, k, into(e))), pats=lambda k: [V(e)[k]])
        yield 'norm', e.n('norm_sq') == NORM(e.done)

    def l2(e):
        yield 'u: the same nodes', A(lambda k: U(e)[k] == U(e.pre)[k], pats=lambda k: [U(e)[k]])
        yield 'u: normalised so far', A(lambda k: Implies(U(e)[k], V(e)[k] == If(e.done[k], MUL(V(e.pre)[k], INV(e.n('norm'))), V(e.pre)[k])), pats=lambda k: [V(e)[k]])

    # u^+ times the columns
    def columns(e, D, last=None):
        d = e._d('fnode_edges')
        g = lambda f: G(V(e), f, U(e))
        yield 'columns that change', A(lambda f: d['dom'][f] == And(D[f], g(f) != 0), pats=lambda f: [d['dom'][f]])
        yield 'by how much', A(lambda f: Implies(d['dom'][f], d['val'][f] == g(f)), pats=lambda f: [d['val'][f]])

    def l3(e):
        yield from columns(e, e.done)

    def l4(e):
        yield 'product so far', e.n('gen_edge') == G(V(e), e.t('fnode'), e.done)

    # changing them
    def changed(e, D):
        o = e.old
        d = e._d('fnode_edges')
        yield 'couplings', A(lambda a, b: edge(e, a, b) == Or(edge(o, a, b), D(a, b)), pats=lambda a, b: [edge(e, a, b)])
        yield 'values', A(lambda a, b: val(e, a, b) == If(D(a, b), e0(o, a, b) - 2 * MUL(V(e)[a], d['val'][b]), val(o, a, b)), pats=lambda a, b: [val(e, a, b)])
        yield 'links', A(lambda k, x: Implies(e.has(S, k), e.mem(S, k, x) == Or(o.mem(S, k, x), D(k, x))), pats=lambda k, x: [e.mem(S, k, x)])
        yield 'links back', A(lambda k, x: Implies(e.has(Q, k), e.mem(Q, k, x) == Or(o.mem(Q, k, x), D(x, k))), pats=lambda k, x: [e.mem(Q, k, x)])

    def l5(e):
        yield from changed(e, lambda a, b: And(U(e)[a], e.done[b]))

    def l6(e):
        f, Tn = e.t('fnode'), e.encl[0]
        yield from changed(e, lambda a, b: Or(And(U(e)[a], Tn[b]), And(b == f, e.done[a])))

    # the zeros
    def l7(e):
        o = e.pre
        i = into(e)
        D = lambda a, b: And(e.done[a], b == i)
        yield 'couplings', A(lambda a, b: edge(e, a, b) == And(edge(o, a, b), Not(D(a, b))), pats=lambda a, b: [edge(e, a, b)])
        yield 'values', A(lambda a, b: val(e, a, b) == val(o, a, b), pats=lambda a, b: [val(e, a, b)])
        yield 'links', A(lambda k, x: Implies(e.has(S, k), e.mem(S, k, x) == And(o.mem(S, k, x), Not(D(k, x)))), pats=lambda k, x: [e.mem(S, k, x)])
        yield 'links back', A(lambda k, x: Implies(e.has(Q, k), e.mem(Q, k, x) == And(o.mem(Q, k, x), Not(D(x, k)))), pats=lambda k, x: [e.mem(Q, k, x)])

    # the border
    def border(e, o):
        yield 'sets are not shared', e.owned(X)
        yield 'sets exist', e.allocated(X)
        yield 'the border stays', A(lambda k, x: m0(e, X, k, x) == m0(o, X, k, x), pats=lambda k, x: [e.mem(X, k, x)])
        yield 'the border stays', A(lambda k, x: m0(e, X, k, x) == m0(o, X, k, x), pats=lambda k, x: [o.mem(X, k, x)])

    def gains(e, there, amount):
        yield from border(e, e.old)
        yield 'gains', A(lambda s, t: e.edge(T, s, t) == And(U(e)[t], there(s, t)), pats=lambda s, t: [e.edge(T, s, t)])
        yield 'at the border', A(lambda s, t: Implies(e.edge(T, s, t), END(s)), pats=lambda s, t: [e.edge(T, s, t)])
        yield 'gain', A(lambda s, t: Implies(e.edge(T, s, t), e.val(T, s, t) == amount(s, t)), pats=lambda s, t: [e.val(T, s, t)])

    def l8(e):
        yield from gains(e, lambda s, t: ANY(s, e.done), lambda s, t: H(V(e), t, s, e.done))
        yield 'nothing gained without couplings', A(lambda s, t: Implies(Not(ANY(s, e.done)), H(V(e), t, s, e.done) == 0), pats=lambda s, t: [H(V(e), t, s, e.done)])

    def l9(e):
        o, T8, k = e.old, e.encl[0], e.t('k')
        yield from gains(e, lambda s, t: Or(ANY(s, T8), e.done[s]), lambda s, t: H(V(e), t, s, T8) + If(e.done[s], term(o, V(e), t, k, s), 0))

    def l10(e):
        o, T8, T9, k = e.old, e.encl[0], e.encl[1], e.t('k')
        n = e.t('snode' if S == SEQ else 'rnode')
        D = lambda s, t: Or(T9[s], And(s == n, e.done[t]))
        yield 'the coupling', e.n('edge_beta' if S == SEQ else 'edge_alpha') == val(o, k, n)
        yield 'the gain', e.n('gain') == -2 * MUL(CONJ(V(e)[k]), val(o, k, n))
        yield from gains(e, lambda s, t: Or(ANY(s, T8), D(s, t)), lambda s, t: H(V(e), t, s, T8) + If(D(s, t), term(o, V(e), t, k, s), 0))

    def l11(e):
        o = e.pre
        D = lambda a, b: e.done_pair(b, a)
        yield 'sets are not shared', e.owned(X)
        yield 'sets exist', e.allocated(X)
        yield 'couplings', A(lambda a, b: edge(e, a, b) == Or(edge(o, a, b), D(a, b)), pats=lambda a, b: [edge(e, a, b)])
        yield 'values', A(lambda a, b: val(e, a, b) == If(D(a, b), If(edge(o, a, b), val(o, a, b), 0) + e.val(T, b, a), val(o, a, b)), pats=lambda a, b: [val(e, a, b)])
        yield 'border', A(lambda k, x: m0(e, X, k, x) == Or(m0(o, X, k, x), D(k, x)), pats=lambda k, x: [e.mem(X, k, x)])
        yield 'border', A(lambda k, x: m0(e, X, k, x) == Or(m0(o, X, k, x), D(k, x)), pats=lambda k, x: [o.mem(X, k, x)])

    def same(e):
        return ()

    def req(e):
        yield list(ring())[0]
        yield from shape(e)
        i = into(e)
        yield from sums(e, i)
        yield 'it is a node', node(e, i)
        yield 'its own coupling is there', edge(e, i, i)
        yield 'what goes leads to it', A(lambda k: Implies(e.inset('nodes_from', k), And(node(e, k), edge(e, k, i), k != i)), pats=lambda k: [e.inset('nodes_from', k)])

    def ens(e):
        o, i = e.old, into(e)
        F = lambda k: o.inset('nodes_from', k)
        FS = o.arr('nodes_from')
        d = val(o, i, i)
        n2 = NORM(FS)
        um = d + prod(SQRT(n2 + ABSSQ(d)), PHASE(d))
        inv = recip(SQRT(n2 + ABSSQ(um)))
        ui = prod(um, inv)
        yield from uset(e)
        yield 'u: node_into', V(e)[i] == ui
        yield 'u: the others', A(lambda k: Implies(F(k), V(e)[k] == MUL(val(o, k, i), inv)), pats=lambda k: [V(e)[k]])
        yield from shape(e)
        yield from same_nodes(e, o)
        yield 'other rows stay', A(lambda a, b: Implies(Not(U(e)[a]), And(edge(e, a, b) == edge(o, a, b), Implies(edge(o, a, b), val(e, a, b) == val(o, a, b)))), pats=lambda a, b: [edge(e, a, b)])
        yield 'zeros', A(lambda a: Implies(F(a), Not(edge(e, a, i))), pats=lambda a: [edge(e, a, i)])
        yield 'diagonal', And(edge(e, i, i), val(e, i, i) == d - prod(2, ui, prod(CONJ(ui), d) + prod(n2, inv)))
        new = lambda a, b: If(edge(e, a, b), val(e, a, b), 0)
        yield 'each column less 2 u (u^+ column)', A(lambda a, b: Implies(And(U(e)[a], node(o, b), b != i), new(a, b) == e0(o, a, b) - 2 * MUL(V(e)[a], G(V(e), b, U(e)))), pats=lambda a, b: [edge(e, a, b)])
        yield 'and what passes the border', A(lambda a, s: Implies(And(U(e)[a], Not(node(o, s))), And(edge(e, a, s) == Or(edge(o, a, s), ANY(s, U(e))), Implies(edge(e, a, s), val(e, a, s) == e0(o, a, s) + If(ANY(s, U(e)), H(V(e), a, s, U(e)), 0)))), pats=lambda a, s: [edge(e, a, s)])
    ps = dict(SRABE=GRAPH, node_into='K', nodes_from='set', node_costs_invalid_in_queue='set')
    if name.find('ROW') >= 0:
        ps['SRABE_SYM'] = 'none'
    env = dict(__functions__=dict(abssq=ABSSQ, edge_phase=PHASE), __locals__=dict(norm_sq='num', gen_edge='num'), __name_stores__=True)
    return [Contract(name, getattr(M, name), ps, req, ens, loops=[l1, l2, l3, l4, l5, l6, l7, l8, l9, l10, l11] + [same] * nchecks, modifies=N, env=env)]


def phases(M):
    """what the reflection assumes of |.|^2 and of the phase (as in lemmas/Elimination.lean)"""
    def field(e):
        a = e.n('edge' if 'edge' in e._st.locals else 'arr')
        FA = lambda n, f, pat: A(f, sorts=[R] * n, pats=pat)
        b, i = ABS(a), INV(ABS(a))
        # the laws of a field, for the terms at hand
        yield 'products commute', FA(2, lambda x, y: MUL(x, y) == MUL(y, x), lambda x, y: [MUL(x, y)])
        yield 'one', FA(1, lambda x: MUL(x, 1) == x, lambda x: [MUL(x, 1)])
        yield 'zero', FA(1, lambda x: MUL(x, 0) == 0, lambda x: [MUL(x, 0)])
        yield 'reciprocals', And(INV(z3.RealVal(1)) == 1, Implies(b != 0, MUL(b, i) == 1))
        yield 'products associate', And(MUL(MUL(a, i), b) == MUL(a, MUL(i, b)), MUL(MUL(a, i), MUL(CONJ(a), i)) == MUL(MUL(a, CONJ(a)), MUL(i, i)),
                                        MUL(MUL(b, b), MUL(i, i)) == MUL(MUL(b, i), MUL(b, i)))
        yield 'conjugates', And(CONJ(MUL(a, i)) == MUL(CONJ(a), CONJ(i)), CONJ(MUL(i, a)) == MUL(CONJ(a), CONJ(i)), CONJ(i) == INV(CONJ(b)), CONJ(z3.RealVal(1)) == 1)
        yield 'absolute value', And(MUL(a, CONJ(a)) == MUL(ABS(a), ABS(a)), CONJ(ABS(a)) == ABS(a), (ABS(a) == 0) == (a == 0))

    def phase(e):
        a, p = e.n('edge'), e.n('result')
        yield 'a phase', MUL(p, ABS(a)) == a
        yield 'of norm one', MUL(p, CONJ(p)) == 1

    def square(e):
        a = e.n('arr')
        yield 'real and imaginary part squared', e.n('result') == MUL(RE(a), RE(a)) + MUL(IM(a), IM(a))
    return [Contract('edge_phase', M.edge_phase, dict(edge='num'), field, phase), Contract('abssq', M.abssq, dict(arr='num'), None, square)]


def contracts(M, D=None):
    return ((drivers(D) if D is not None else []) + phases(M) + reduceLU(M) + check_graph_at_node(M) + pivot(M, 'pivotCOL_OP', SEQ, REQ, BETA, lambda a, b: (a, b))
            + pivot(M, 'pivotROW_OP', REQ, SEQ, ALPHA, lambda a, b: (b, a))
            + householder(M, 'householderREFL_ROW_OP', SEQ, REQ, BETA, OUT, lambda a, b: (a, b), 0)
            + householder(M, 'householderREFL_COL_OP', REQ, SEQ, ALPHA, IN, lambda a, b: (b, a), 2))


def drivers(D):
    """mgraph_simplify_trivial: every node it eliminates may be eliminated, and it does nothing else"""
    def inv(e):
        yield from shape(e)
        yield 'the queue holds nodes', A(lambda k: Implies(e.inset('pqueue', k), e.has(SEQ, k)), pats=lambda k: [e.inset('pqueue', k)])
        yield 'no new nodes', A(lambda k: Implies(e.has(SEQ, k), e.old.has(SEQ, k)), pats=lambda k: [e.has(SEQ, k)])
        yield 'the readouts are kept', answer(e) == answer(e.old)

    def push(e):
        yield 'those pushed', A(lambda k: e.inset('pqueue', k) == e.done[k], pats=lambda k: [e.inset('pqueue', k)])

    def same(e):
        return ()

    def req(e):
        yield from ring()
        yield 'only zero has no size', A(lambda x: (ABSSQ(x) == 0) == (x == 0), sorts=[R], pats=lambda x: [ABSSQ(x)])
        yield from shape(e)

    def ens(e):
        yield from shape(e)
        yield 'no new nodes', A(lambda k: Implies(e.has(SEQ, k), e.old.has(SEQ, k)), pats=lambda k: [e.has(SEQ, k)])
        yield 'the readouts are kept', answer(e) == answer(e.old)
    env = dict(__functions__=dict(abssq=ABSSQ), __locals__=dict(badness='any'), __queues__=('HeapPriorityQueue',), __heuristics__=True)
    def square(e):
        a = e.n('arr')
        yield 'real and imaginary part squared', e.n('result') == MUL(RE(a), RE(a)) + MUL(IM(a), IM(a))
    return [Contract('abssq (of the order)', D.abssq, dict(arr='num'), None, square),
            Contract('mgraph_simplify_trivial', D.mgraph_simplify_trivial, dict(SRABE=GRAPH), req, ens, loops=[push, inv, same, same], modifies=N, env=env)]
