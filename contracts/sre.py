"""Contracts on the matrices kept as graphs: phasor/matrix/SRE_matrix_algorithms.py."""
import z3
from vc.wp import Contract, A, Ex, And, Or, Not, Implies, If, K, R, SETS, B, MUL, CONJ, prod

SRE = ('tuple', ['dict:set', 'dict:set', 'dict:num'])


def nm(base):
    return [base + '[%d]' % i for i in range(3)]


def wf(e, base):
    """each link known at both ends and with its value; sets not shared"""
    s, r, m = nm(base)
    yield 'rows do not share sets', e.owned(s)
    yield 'columns do not share sets', e.owned(r)
    yield 'links of rows', A(lambda a, b: Implies(And(e.has(s, a), e.mem(s, a, b)), And(e.has(r, b), e.mem(r, b, a), e.edge(m, a, b))), pats=lambda a, b: [e.mem(s, a, b)])
    yield 'links of columns', A(lambda a, b: Implies(And(e.has(r, b), e.mem(r, b, a)), And(e.has(s, a), e.mem(s, a, b), e.edge(m, a, b))), pats=lambda a, b: [e.mem(r, b, a)])


def tight(e, base):
    s, r, m = nm(base)
    yield 'no value without a link', A(lambda a, b: Implies(e.edge(m, a, b), And(e.has(s, a), e.mem(s, a, b))), pats=lambda a, b: [e.edge(m, a, b)])


def comm():
    return A(lambda x, y: MUL(x, y) == MUL(y, x), sorts=[R, R], pats=lambda x, y: [MUL(x, y)])


def mult(M):
    SUM = z3.Function('partial_sum', K, K, SETS, R)
    ANY = z3.Function('some_term', K, K, SETS, B)

    def there(o, a, m, c):
        return And(o.has('sre1[1]', m), o.mem('sre1[1]', m, a), o.has('sre2[0]', m), o.mem('sre2[0]', m, c))

    def term(o, a, m, c):
        return MUL(o.val('sre2[2]', m, c), o.val('sre1[2]', a, m))

    def req(e):
        yield from wf(e, 'sre1')
        yield from wf(e, 'sre2')
        yield 'products commute', comm()
        # the sum over a finite set of middle nodes, by recursion
        none = z3.K(K, z3.BoolVal(False))
        yield 'sum over nothing', A(lambda a, c: And(SUM(a, c, none) == 0, Not(ANY(a, c, none))), pats=lambda a, c: [SUM(a, c, none), ANY(a, c, none)])
        S, m = z3.Const('S', SETS), z3.Const('m', K)
        for F, f in ((SUM, lambda a, c, S, m: SUM(a, c, S) + If(there(e, a, m, c), term(e, a, m, c), 0)),
                     (ANY, lambda a, c, S, m: Or(ANY(a, c, S), there(e, a, m, c)))):
            a, c = z3.Const('a', K), z3.Const('c', K)
            S2 = z3.Store(S, m, z3.BoolVal(True))
            yield 'sum with one more', z3.ForAll([a, c, S, m], Implies(Not(S[m]), F(a, c, S2) == f(a, c, S, m)), patterns=[F(a, c, S2)])

    def shape(e):
        """the links of the result are where its values are"""
        for d in ('seq', 'req'):
            yield 'sets of %s' % d, And(e.owned(d), e.allocated(d))
        yield 'rows', A(lambda a, c: And(e.has('seq', a), e.mem('seq', a, c)) == e.edge('edge_map', a, c), pats=lambda a, c: [e.edge('edge_map', a, c)])
        yield 'rows', A(lambda a, c: And(e.has('seq', a), e.mem('seq', a, c)) == e.edge('edge_map', a, c), pats=lambda a, c: [e.mem('seq', a, c)])
        yield 'columns', A(lambda a, c: And(e.has('req', c), e.mem('req', c, a)) == e.edge('edge_map', a, c), pats=lambda a, c: [e.edge('edge_map', a, c)])
        yield 'columns', A(lambda a, c: And(e.has('req', c), e.mem('req', c, a)) == e.edge('edge_map', a, c), pats=lambda a, c: [e.mem('req', c, a)])

    def upto(e, D, extra=None):
        o = e.old
        x = extra or (lambda a, c: (z3.BoolVal(False), z3.RealVal(0)))
        yield 'where values are', A(lambda a, c: e.edge('edge_map', a, c) == Or(ANY(a, c, D), x(a, c)[0]), pats=lambda a, c: [e.edge('edge_map', a, c)])
        yield 'values', A(lambda a, c: Implies(e.edge('edge_map', a, c), e.val('edge_map', a, c) == SUM(a, c, D) + If(x(a, c)[0], x(a, c)[1], 0)), pats=lambda a, c: [e.val('edge_map', a, c)])
        yield 'no terms no sum', A(lambda a, c: Implies(Not(ANY(a, c, D)), SUM(a, c, D) == 0), pats=lambda a, c: [SUM(a, c, D)])

    def loop1(e):
        yield from shape(e)
        yield from upto(e, e.done)

    def loop2(e):
        m = e.t('k_mid')
        D = e.encl[0]
        yield from shape(e)
        yield from upto(e, D, lambda a, c: (And(e.done[a], there(e.old, a, m, c)), term(e.old, a, m, c)))

    def loop3(e):
        m, f = e.t('k_mid'), e.t('k_from')
        D, F, T = e.encl[0], e.encl[1], e.done
        yield from shape(e)
        yield 'the row is there', e.has('seq', f)
        yield from upto(e, D, lambda a, c: (And(Or(F[a], And(a == f, T[c])), there(e.old, a, m, c)), term(e.old, a, m, c)))

    def ens(e):
        o = e.old
        s, r, v = nm('result')
        D = o._d('sre2[0]')['dom']
        yield from wf(e, 'result')
        yield from tight(e, 'result')
        yield 'where the product has values', A(lambda a, c: e.edge(v, a, c) == ANY(a, c, D), pats=lambda a, c: [e.edge(v, a, c)])
        yield 'the product is the sum over all that lies between', A(lambda a, c: Implies(e.edge(v, a, c), e.val(v, a, c) == SUM(a, c, D)), pats=lambda a, c: [e.val(v, a, c)])
        yield 'elsewhere the sum is zero', A(lambda a, c: Implies(Not(e.edge(v, a, c)), SUM(a, c, D) == 0), pats=lambda a, c: [e.edge(v, a, c)])
    return [Contract('matrix_mult_sre', M.matrix_mult_sre, dict(sre1=SRE, sre2=SRE), req, ens, loops=[loop1, loop2, loop3])]


def check(M):
    def req(e):
        yield from wf(e, 'sre')
    same = lambda e: [('nothing to keep', z3.BoolVal(True))]
    s, r, m = nm('sre')

    def ens(e):
        yield from (x for x in wf(e, 'sre') if x[0].startswith('links'))

    def l1(e):
        yield 'so far', A(lambda b, a: Implies(And(e.done[b], e.mem('req', b, a)), And(e.has('seq', a), e.mem('seq', a, b))), pats=lambda b, a: [e.mem('req', b, a)])

    def l2(e):
        n = e.t('node')
        yield 'so far', A(lambda a: Implies(e.done[a], And(e.has('seq', a), e.mem('seq', a, n))), pats=lambda a: [e.done[a]])

    def l3(e):
        yield 'so far', A(lambda a, b: Implies(And(e.done[a], e.mem('seq', a, b)), And(e.has('req', b), e.mem('req', b, a), e.edge('edge_map', a, b))), pats=lambda a, b: [e.mem('seq', a, b)])

    def l4(e):
        n = e.t('node')
        yield 'so far', A(lambda b: Implies(e.done[b], And(e.has('req', b), e.mem('req', b, n), e.edge('edge_map', n, b))), pats=lambda b: [e.done[b]])
    return [Contract('check_sre is silent on matrices', M.check_sre, dict(sre=SRE), req, None, loops=[same] * 4),
            Contract('check_sre returns only for matrices', M.check_sre, dict(sre=SRE), None, ens, loops=[l1, l2, l3, l4], may_fail=True)]


def copies(M):
    s, r, m = nm('sre')
    s2, r2, m2 = nm('result')

    def filled(e, d, src, done):
        yield 'sets', And(e.owned(d), e.allocated(d))
        yield 'entries', A(lambda k: e.has(d, k) == done[k], pats=lambda k: [e.has(d, k)])
        yield 'elements', A(lambda k, x: Implies(done[k], e.mem(d, k, x) == e.old.mem(src, k, x)), pats=lambda k, x: [e.mem(d, k, x)])

    def fill(d, src):
        return lambda e: filled(e, d, src, e.done)

    def original(e):
        for x, y in ((s, s2), (s, r2), (r, s2), (r, r2), (m, m2), (s2, r2)):
            yield 'nothing in common', e.apart(x, y)
        for d in (s, r):
            yield 'the original is not touched', A(lambda k: And(e.has(d, k) == e.old.has(d, k), Implies(e.has(d, k), e.set(d, k) == e.old.set(d, k))), pats=lambda k: [e.has(d, k)])
        yield 'the original is not touched', A(lambda a, b: And(e.edge(m, a, b) == e.old.edge(m, a, b), e.val(m, a, b) == e.old.val(m, a, b)), pats=lambda a, b: [e.edge(m, a, b)])

    def ens_copy(e):
        for d, src in ((s2, s), (r2, r)):
            yield from filled(e, d, src, e.old._d(src)['dom'])
        yield 'values', A(lambda a, b: And(e.edge(m2, a, b) == e.old.edge(m, a, b), Implies(e.edge(m2, a, b), e.val(m2, a, b) == e.old.val(m, a, b))), pats=lambda a, b: [e.edge(m2, a, b)])
        yield from original(e)

    def vals(e):
        yield 'transposed and conjugated', A(lambda a, b: And(e.edge('edge_mape_2', b, a) == e.done_pair(a, b), Implies(e.done_pair(a, b), e.val('edge_mape_2', b, a) == CONJ(e.old.val(m, a, b)))),
                                             pats=lambda a, b: [e.edge('edge_mape_2', b, a)])

    def ens_adj(e):
        for d, src in ((s2, r), (r2, s)):
            yield from filled(e, d, src, e.old._d(src)['dom'])
        yield 'transposed and conjugated', A(lambda a, b: And(e.edge(m2, b, a) == e.old.edge(m, a, b), Implies(e.edge(m2, b, a), e.val(m2, b, a) == CONJ(e.old.val(m, a, b)))), pats=lambda a, b: [e.edge(m2, b, a)])
        yield from original(e)
    req = lambda e: wf(e, 'sre')
    return [Contract('copy_sre', M.copy_sre, dict(sre=SRE), req, ens_copy, loops=[fill('seq', s), fill('req', r)]),
            Contract('adjoint_sre', M.adjoint_sre, dict(sre=SRE), req, ens_adj, loops=[vals, fill('seq2', r), fill('req2', s)])]


def contracts(M):
    return check(M) + mult(M) + copies(M)
