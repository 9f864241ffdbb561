"""Contracts on phasor/matrix/matrix_generic.py: graphs of any size."""
from vc.wp import Contract, A, Ex, And, Or, Not, Implies, K, R, SETS, B, fresh
import z3


def dom_eq(e):
    return A(lambda k: e.has('seq', k) == e.has('req', k), pats=lambda k: [e.has('seq', k), e.has('req', k)])


def balanced(e, s='seq', r='req'):
    """every link is known at both of its ends, and both ends are nodes"""
    return And(
        A(lambda a, b: Implies(And(e.has(s, a), e.mem(s, a, b)), And(e.has(r, b), e.mem(r, b, a))), pats=lambda a, b: [e.mem(s, a, b)]),
        A(lambda a, b: Implies(And(e.has(r, b), e.mem(r, b, a)), And(e.has(s, a), e.mem(s, a, b))), pats=lambda a, b: [e.mem(r, b, a)]))


def linked(e, s='seq'):
    """every link has a coupling"""
    if e.isnone('edge_map'):
        return z3.BoolVal(True)
    return A(lambda a, b: Implies(And(e.has(s, a), e.mem(s, a, b)), e.edge('edge_map', a, b)), pats=lambda a, b: [e.mem(s, a, b)])


def wellformed(e):
    yield 'no two nodes share their set of successors', e.owned('seq')
    yield 'no two nodes share their set of predecessors', e.owned('req')
    yield 'sets exist', And(e.allocated('seq'), e.allocated('req'))
    yield 'the same nodes on both sides', dom_eq(e)
    yield 'links are known at both ends', balanced(e)


def same_edges(e, o):
    if e.isnone('edge_map'):
        return z3.BoolVal(True)
    return A(lambda a, b: And(e.edge('edge_map', a, b) == o.edge('edge_map', a, b), e.val('edge_map', a, b) == o.val('edge_map', a, b)),
             pats=lambda a, b: [e.edge('edge_map', a, b)])


def same_vals(e, o):
    if e.isnone('edge_map'):
        return z3.BoolVal(True)
    return A(lambda a, b: e.val('edge_map', a, b) == o.val('edge_map', a, b), pats=lambda a, b: [e.val('edge_map', a, b)])


def same_dom(e, o, d):
    return A(lambda k: And(e.has(d, k) == o.has(d, k), e.ref(d, k) == o.ref(d, k)), pats=lambda k: [e.has(d, k)])


# ---------------------------------------------------------------------------
def edgedelwarn(M):
    def req(e):
        if not e.isnone('edge_map'):
            yield 'the coupling is there (no warning)', e.edge('edge_map', e.t('nfrom'), e.t('nto'))

    def ens(e):
        if not e.isnone('edge_map'):
            f, t = e.t('nfrom'), e.t('nto')
            yield 'only this coupling goes', A(lambda a, b: e.edge('edge_map', a, b) == And(e.old.edge('edge_map', a, b), Not(And(a == f, b == t))), pats=lambda a, b: [e.edge('edge_map', a, b)])
            yield 'the others keep their values', same_vals(e, e.old)
    return [Contract('edgedelwarn', M.edgedelwarn, dict(edge_map='dict:num', nfrom='K', nto='K'), req, ens, modifies=['edge_map']),
            Contract('edgedelwarn (no couplings kept)', M.edgedelwarn, dict(edge_map='none', nfrom='K', nto='K'), req, ens)]


def purge_subgraph(M):
    def req(e):
        yield from wellformed(e)
        yield 'every link has a coupling', linked(e)
        yield 'only nodes are removed', A(lambda k: Implies(e.inset('purge_set', k), e.has('seq', k)))

    def kept(e, o, D, P):
        """links at what is left after the nodes of D are gone (P is to go in all)"""
        for d in ('seq', 'req'):
            yield 'nodes of ' + d, A(lambda k: e.has(d, k) == And(o.has(d, k), Not(D[k])), pats=lambda k: [e.has(d, k)])
            yield 'set objects of ' + d, A(lambda k: e.ref(d, k) == o.ref(d, k), pats=lambda k: [e.ref(d, k)])
            yield 'links of ' + d, A(lambda k, x: Implies(e.has(d, k), e.mem(d, k, x) == And(o.mem(d, k, x), Not(And(D[x], Not(P[k]))))), pats=lambda k, x: [e.mem(d, k, x)])
        if not e.isnone('edge_map'):
            yield 'couplings', A(lambda a, b: e.edge('edge_map', a, b) == And(o.edge('edge_map', a, b), Not(And(D[a], o.mem('seq', a, b)))), pats=lambda a, b: [e.edge('edge_map', a, b)])
            yield 'values', same_vals(e, o)

    def loop1(e):
        yield from kept(e, e.old, e.done, e.arr('purge_set'))

    def loop2(e):
        n, P = e.t('node'), e.arr('purge_set')
        yield 'links of req', A(lambda k, x: Implies(e.has('req', k), e.mem('req', k, x) == And(e.pre.mem('req', k, x), Not(And(x == n, e.done[k], Not(P[k]))))),
                                pats=lambda k, x: [e.mem('req', k, x)])
        if not e.isnone('edge_map'):
            yield 'couplings', A(lambda a, b: e.edge('edge_map', a, b) == And(e.pre.edge('edge_map', a, b), Not(And(a == n, e.done[b]))), pats=lambda a, b: [e.edge('edge_map', a, b)])
            yield 'values', same_vals(e, e.pre)

    def loop3(e):
        n, P = e.t('node'), e.arr('purge_set')
        yield 'links of seq', A(lambda k, x: Implies(e.has('seq', k), e.mem('seq', k, x) == And(e.pre.mem('seq', k, x), Not(And(x == n, e.done[k], Not(P[k]))))),
                                pats=lambda k, x: [e.mem('seq', k, x)])

    def ens(e):
        P, o = e.arr('purge_set'), e.old
        for d in ('seq', 'req'):
            yield 'the nodes left (%s)' % d, A(lambda k: e.has(d, k) == And(o.has(d, k), Not(P[k])), pats=lambda k: [e.has(d, k)])
            yield 'the links left (%s)' % d, A(lambda k, x: Implies(e.has(d, k), e.mem(d, k, x) == And(o.mem(d, k, x), Not(P[x]))), pats=lambda k, x: [e.mem(d, k, x)])
            yield 'set objects of ' + d, A(lambda k: e.ref(d, k) == o.ref(d, k), pats=lambda k: [e.ref(d, k)])
        if not e.isnone('edge_map'):
            yield 'the couplings left', A(lambda a, b: e.edge('edge_map', a, b) == And(o.edge('edge_map', a, b), Not(And(P[a], o.mem('seq', a, b)))), pats=lambda a, b: [e.edge('edge_map', a, b)])
            yield 'the couplings keep their values', same_vals(e, o)
        yield from (('still: ' + n, f) for n, f in wellformed(e))
        yield 'still: every link has a coupling', linked(e)
    out = []
    for em, nm in (('dict:num', ''), ('none', ' (no couplings kept)')):
        out.append(Contract('purge_subgraph_inplace' + nm, M.purge_subgraph_inplace, dict(seq='dict:set', req='dict:set', edge_map=em, purge_set='set'),
                            req, ens, loops=[loop1, loop2, loop3], modifies=['seq', 'req'] + ([] if em == 'none' else ['edge_map'])))
    return out


# ---------------------------------------------------------------------------
ANY = z3.Const('any_closed_set', SETS)


def subset(a, b):
    return A(lambda k: Implies(a[k], b[k]), pats=lambda k: [a[k]])


def closed(S, e, emap):
    """with a node all the nodes its links lead to"""
    return A(lambda a, b: Implies(And(S[a], e.has(emap, a), e.mem(emap, a, b)), S[b]), pats=lambda a, b: [z3.MultiPattern(S[a], e.mem(emap, a, b))])


def restricted(e, o, start, emap, seq='seq', req='req'):
    """what is left: the nodes reached from start along emap, with all links between them"""
    kept = e._d(seq)['dom']
    yield 'the start is left', subset(start, kept)
    yield 'nothing new', A(lambda k: Implies(e.has(seq, k), o.has(seq, k)), pats=lambda k: [e.has(seq, k)])
    yield 'what is reached is left', closed(kept, o, emap)
    yield 'no more than in any closed set with the start in it', Implies(And(subset(start, ANY), closed(ANY, o, emap)), subset(kept, ANY))
    for d in (seq, req):
        yield 'the links left are those between nodes left (%s)' % d, A(lambda k, x: Implies(e.has(d, k), e.mem(d, k, x) == And(o.mem(d, k, x), kept[x])), pats=lambda k, x: [e.mem(d, k, x)])
    if not e.isnone('edge_map'):
        yield 'couplings out of removed nodes go, no others', A(lambda a, b: e.edge('edge_map', a, b) == And(o.edge('edge_map', a, b), Not(And(o.has(seq, a), o.mem(seq, a, b), Not(kept[a])))), pats=lambda a, b: [e.edge('edge_map', a, b)])
        yield 'the couplings keep their values', same_vals(e, o)
    yield from (('still: ' + n, f) for n, f in wellformed(e))
    yield 'still: every link has a coupling', linked(e)


def color_purge(M):
    out = []
    for emap in ('seq', 'req'):
        for em in ('dict:num', 'none'):
            def req(e):
                yield from wellformed(e)
                yield 'every link has a coupling', linked(e)
                yield 'it starts at nodes', A(lambda k: Implies(e.inset('start_set', k), e.has('seq', k)), pats=lambda k: [e.inset('start_set', k)])

            def loop1(e):
                yield 'pending', A(lambda k: e.inset('active_set_pending', k) == e.done[k], pats=lambda k: [e.inset('active_set_pending', k)])

            def loop2(e, emap=emap):
                a, p = e.arr('active_set'), e.arr('active_set_pending')
                yield 'the start is found', A(lambda k: Implies(e.inset('start_set', k), Or(a[k], p[k])), pats=lambda k: [e.inset('start_set', k)])
                yield 'only nodes are found', A(lambda k: Implies(Or(a[k], p[k]), e.has('seq', k)), pats=lambda k: [a[k]]) if 0 else And(A(lambda k: Implies(a[k], e.has('seq', k)), pats=lambda k: [a[k]]), A(lambda k: Implies(p[k], e.has('seq', k)), pats=lambda k: [p[k]]))
                yield 'active and pending are apart', A(lambda k: Not(And(a[k], p[k])), pats=lambda k: [z3.MultiPattern(a[k], p[k])])
                yield 'what active nodes lead to is found', A(lambda k, x: Implies(And(a[k], e.mem(emap, k, x)), Or(a[x], p[x])), pats=lambda k, x: [z3.MultiPattern(a[k], e.mem(emap, k, x))])
                yield 'no more than in any closed set', Implies(And(subset(e.arr('start_set'), ANY), closed(ANY, e.old, emap)), And(subset(a, ANY), subset(p, ANY)))

            def loop3(e):
                p, a = e.arr('active_set_pending'), e.arr('active_set')
                yield 'pending', A(lambda k: p[k] == Or(e.pre.inset('active_set_pending', k), And(e.done[k], Not(a[k]))), pats=lambda k: [p[k]])

            def variant(top, bot):
                n = bot.t('node')
                yield 'active grows', And(subset(top.arr('active_set'), bot.arr('active_set')), bot.inset('active_set', n), Not(top.inset('active_set', n)))

            def ens(e, emap=emap):
                yield from restricted(e, e.old, e.arr('start_set'), emap)
            out.append(Contract('color_purge_inplace along %s%s' % (emap, '' if em != 'none' else ' (no couplings kept)'), M.color_purge_inplace,
                                dict(start_set='set', seq='dict:set', req='dict:set', emap=('alias', emap), edge_map=em), req, ens,
                                loops=[loop1, loop2, loop3], modifies=['seq', 'req'] + ([] if em == 'none' else ['edge_map']), variants={1: variant}))
    return out


def purges(M):
    out = []
    for fn, emap, ends, check, other in ((M.purge_reqless_inplace, 'seq', 'seq_beta', 'req', 'req_alpha'),
                                         (M.purge_seqless_inplace, 'req', 'req_alpha', 'seq', 'seq_beta')):
        for full in (True, False):
            def start(e, full=full, other=other):
                return e._d(other)['dom'] if full else e.arr('except_set')

            def req(e, start=start):
                yield from wellformed(e)
                yield 'every link has a coupling', linked(e)
                s = start(e)
                yield 'it starts at nodes', A(lambda k: Implies(s[k], e.has('seq', k)), pats=lambda k: [s[k]])

            def lives(e, k, check=check):
                return And(e.has(check, k), Ex(lambda x: e.mem(check, k, x)))

            def loop1(e, ends=ends, lives=lives):
                yield 'nodes to remove', A(lambda k: e.inset('rmnodes', k) == And(e.done[k], Not(lives(e, k))), pats=lambda k: [e.inset('rmnodes', k)])

            def loop2(e, ends=ends):
                yield 'removed', A(lambda k: e.has(ends, k) == And(e.old.has(ends, k), Not(e.done[k])), pats=lambda k: [e.has(ends, k)])
                yield 'the others are the same', A(lambda k: e.ref(ends, k) == e.old.ref(ends, k), pats=lambda k: [e.ref(ends, k)])

            def ens(e, emap=emap, start=start, full=full, ends=ends, lives=lives):
                yield from restricted(e, e.old, start(e.old), emap)
                if full:
                    yield 'ends at nodes that nothing connects to go', A(lambda k: e.has(ends, k) == And(e.old.has(ends, k), lives(e, k)), pats=lambda k: [e.has(ends, k)])
                    yield 'the ends left are the same', A(lambda k: And(e.ref(ends, k) == e.old.ref(ends, k), e.set(ends, k) == e.old.set(ends, k)), pats=lambda k: [e.ref(ends, k)])
            ps = dict(seq='dict:set', req='dict:set')
            if full:
                ps.update(except_set='none', req_alpha='dict:set', seq_beta='dict:set', edge_map='dict:num')
            else:
                ps.update(except_set='set', req_alpha='none', seq_beta='none', edge_map='none')
            out.append(Contract('%s%s' % (fn.__name__, ' with ends' if full else ' from a set'), fn, ps, req, ens, loops=[loop1, loop2],
                                modifies=['seq', 'req'] + ([ends, 'edge_map'] if full else [])))
    return out


def pre_purge(M):
    def req(e):
        yield 'no two nodes share their set of successors', e.owned('seq')
        yield 'no two nodes share their set of predecessors', e.owned('req')

    def outer(d, flip):
        def loop(e):
            o = e.pre
            ed = (lambda k, x: e.edge('edge_map', x, k)) if flip else (lambda k, x: e.edge('edge_map', k, x))
            yield 'links', A(lambda k, x: Implies(e.has(d, k), e.mem(d, k, x) == And(o.mem(d, k, x), Or(Not(e.done[k]), ed(k, x)))), pats=lambda k, x: [e.mem(d, k, x)])
        return loop

    def inner(d, node, flip):
        def loop(e):
            o, n = e.pre, e.t(node)
            ed = (lambda k, x: e.edge('edge_map', x, k)) if flip else (lambda k, x: e.edge('edge_map', k, x))
            yield 'links', A(lambda k, x: Implies(e.has(d, k), e.mem(d, k, x) == And(o.mem(d, k, x), Not(And(k == n, e.done[x], Not(ed(k, x)))))), pats=lambda k, x: [e.mem(d, k, x)])
        return loop

    def ens(e):
        o = e.old
        for d in ('seq', 'req'):
            yield 'the same nodes', same_dom(e, o, d)
        yield 'links without coupling go (seq)', A(lambda k, x: Implies(e.has('seq', k), e.mem('seq', k, x) == And(o.mem('seq', k, x), e.edge('edge_map', k, x))), pats=lambda k, x: [e.mem('seq', k, x)])
        yield 'links without coupling go (req)', A(lambda k, x: Implies(e.has('req', k), e.mem('req', k, x) == And(o.mem('req', k, x), e.edge('edge_map', x, k))), pats=lambda k, x: [e.mem('req', k, x)])
        yield 'couplings are not touched', same_edges(e, o)
    return [Contract('pre_purge_inplace', M.pre_purge_inplace, dict(seq='dict:set', req='dict:set', edge_map='dict:num'), req, ens,
                     loops=[outer('seq', False), inner('seq', 'inode', False), outer('req', True), inner('req', 'snode', True)], modifies=['seq', 'req'])]


def balance(M):
    def req(e):
        yield 'links are known at both ends', balanced(e)
        yield 'every link has a coupling', linked(e)
    true = lambda e: [('nothing to keep', z3.BoolVal(True))]

    def unchanged(e):
        yield 'nothing is changed', same_edges(e, e.old)

    def l1(e):
        yield 'so far', A(lambda a, b: Implies(And(e.done[a], e.mem('seq', a, b)), And(e.has('req', b), e.mem('req', b, a))), pats=lambda a, b: [e.mem('seq', a, b)])

    def l2(e):
        n = e.t('node')
        yield 'so far', A(lambda b: Implies(e.done[b], And(e.has('req', b), e.mem('req', b, n))), pats=lambda b: [e.done[b]])

    def l3(e):
        yield 'so far', A(lambda b, a: Implies(And(e.done[b], e.mem('req', b, a)), And(e.has('seq', a), e.mem('seq', a, b))), pats=lambda b, a: [e.mem('req', b, a)])

    def l4(e):
        n = e.t('node')
        yield 'so far', A(lambda a: Implies(e.done[a], And(e.has('seq', a), e.mem('seq', a, n))), pats=lambda a: [e.done[a]])

    def ens(e):
        yield 'links are known at both ends', balanced(e)
    out = []
    for em in ('dict:num', 'none'):
        ps = dict(seq='dict:set', req='dict:set', edge_map=em)
        nm = '' if em != 'none' else ' (no couplings)'
        mod = [] if em == 'none' else ['edge_map']
        out.append(Contract('check_seq_req_balance is silent on balanced graphs' + nm, M.check_seq_req_balance, ps, req, unchanged, loops=[unchanged] * 4, modifies=mod))
        out.append(Contract('check_seq_req_balance returns only for balanced graphs' + nm, M.check_seq_req_balance, ps, None, ens, loops=[l1, l2, l3, l4], may_fail=True))
    return out


def contracts(M):
    return edgedelwarn(M) + purge_subgraph(M) + color_purge(M) + purges(M) + pre_purge(M) + balance(M)
