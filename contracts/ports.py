"""Contracts on the spreading of frequency keys over ports: phasor/system/ports_algorithm.py.

port_cplgs[p] holds the keys at a port every element that runs has been told of; keys that arrive wait in
port_cplgs_update[element, p], one set for each element that watches the port (its owner, and virtual owners),
or in port_cplgs_updateX[p] for the one that runs (what it is told must not change meanwhile).  A key is *known* at a port when it is
in any of the sets of its owner."""
import z3
from vc.wp import Contract, A, And, Or, Not, Implies, If, K, B, SETS, P, VC

C, U, X, W, CUR = ['self.' + n for n in ('port_cplgs', 'port_cplgs_update', 'port_cplgs_updateX', 'owners_update', '_current_element')]
OWN, VIRT, BOND = ['self.system.' + n for n in ('port_owners', 'port_owners_virtual', 'bond_pairs')]
BACK = 'self.bond_pairsR'
OP, OPV = 'self.system.owners_ports', 'self.system.owners_ports_virtual'
ANY = z3.Const('any_closed_set_of_ports', SETS)
TAKES = z3.Function('has_system_setup_ports', K, B)
STARTS = z3.Function('has_system_setup_ports_initial', K, B)
ISKEY = z3.Function('is_DictKey', K, B)


def system(current):
    sy = ('obj', dict(port_owners='kdict:K', port_owners_virtual='ddict:set', elements='set', bond_pairs='ddict:set', owners_ports='dict:set', owners_ports_virtual='dict:set'), 'System')
    return ('obj', dict(port_cplgs='dict:set', port_cplgs_update='pdict:set', port_cplgs_updateX='dict:set', owners_update='set',
                        bond_pairsR='ddict:set', _current_element=current, system=sy), 'PortUpdatesAlgorithm')


def owner(e, p):
    return e.val(OWN, p)


def watches(e, v, p):
    return And(e.has(VIRT, p), e.mem(VIRT, p, v))


def known(e, p, k):
    return Or(e.mem(C, p, k), e.mem(U, P.pair(owner(e, p), p), k), e.mem(X, p, k))


def current(e):
    if e.isnone(CUR):
        return VC().const_key(None)
    return e.t(CUR)


def tables(e):
    """the sets of ports and the elements that watch them"""
    yield 'ports have owners and sets', A(lambda p: And(e.has(C, p) == e.has(OWN, p), Implies(e.has(C, p), And(e.has(X, p), e.has(U, P.pair(owner(e, p), p))))), pats=lambda p: [e.has(C, p), e.has(OWN, p)])
    yield 'those who watch have sets', A(lambda v, p: Implies(watches(e, v, p), e.has(U, P.pair(v, p))), pats=lambda v, p: [e.mem(VIRT, p, v)])
    yield 'and nobody else', A(lambda v, p: Implies(e.has(U, P.pair(v, p)), Or(And(e.has(OWN, p), v == owner(e, p)), watches(e, v, p))), pats=lambda v, p: [e.has(U, P.pair(v, p))])
    yield 'an owner is no virtual owner', A(lambda p: Not(watches(e, owner(e, p), p)), pats=lambda p: [owner(e, p)])
    for d in (C, U, X, VIRT):
        yield 'sets are not shared', e.owned(d)
        yield 'sets exist', e.allocated(d)
    yield 'sets are not shared between the two', e.owned2(U, X)
    yield 'who has ports has a set for the others', A(lambda p: Implies(e.has(OWN, p), e.has(OPV, owner(e, p))), pats=lambda p: [owner(e, p)])
    yield 'who has ports has a set for the others', A(lambda v, p: Implies(watches(e, v, p), e.has(OPV, v)), pats=lambda v, p: [e.mem(VIRT, p, v)])
    none = VC().const_key(None)
    yield 'nobody is no owner', A(lambda p: And(owner(e, p) != none, Not(watches(e, none, p))), pats=lambda p: [owner(e, p)])
    yield 'nobody has no sets', A(lambda p: Not(e.has(U, P.pair(none, p))), pats=lambda p: [e.has(U, P.pair(none, p))])


def scheduled(e):
    """whoever has keys waiting (and takes part) will run"""
    c = current(e)
    yield 'who is scheduled has ports', A(lambda v: Implies(e.inset(W, v), e.has(OPV, v)), pats=lambda v: [e.inset(W, v)])
    yield 'owners with keys waiting are scheduled', A(lambda p, k: Implies(And(e.has(C, p), e.mem(U, P.pair(owner(e, p), p), k)), Or(e.inset(W, owner(e, p)), owner(e, p) == c)), pats=lambda p, k: [e.mem(U, P.pair(owner(e, p), p), k)])
    yield 'keys that came for the one that runs', A(lambda p, k: Implies(And(e.has(C, p), e.mem(X, p, k)), And(
        Or(owner(e, p) == c, And(watches(e, c, p), Or(e.mem(C, p, k), e.mem(U, P.pair(owner(e, p), p), k)))), e.inset(W, c))), pats=lambda p, k: [e.mem(X, p, k)])
    yield 'who watches with keys waiting is scheduled', A(lambda v, p, k: Implies(And(e.has(C, p), watches(e, v, p), e.mem(U, P.pair(v, p), k)), And(known(e, p, k), Or(e.inset(W, v), v == c))), pats=lambda v, p, k: [z3.MultiPattern(e.mem(VIRT, p, v), e.mem(U, P.pair(v, p), k))])


def told(e, o, p, k):
    """a key that is new at a port waits for all that watch it"""
    return Implies(And(known(e, p, k), Not(known(o, p, k))),
                   And(If(owner(e, p) == current(e), e.mem(X, p, k), e.mem(U, P.pair(owner(e, p), p), k)), e.inset(W, owner(e, p))))


def told_v(e, o, v, p, k):
    return Implies(And(known(e, p, k), Not(known(o, p, k)), watches(e, v, p)), And(If(v == current(e), e.mem(X, p, k), e.mem(U, P.pair(v, p), k)), e.inset(W, v)))


def same_watch(e, o):
    yield 'who watches is as before', A(lambda v, p: watches(e, v, p) == watches(o, v, p), pats=lambda v, p: [e.mem(VIRT, p, v)])
    yield 'who watches is as before', A(lambda v, p: watches(e, v, p) == watches(o, v, p), pats=lambda v, p: [o.mem(VIRT, p, v)])
    yield 'sets are not shared', e.owned(VIRT)
    yield 'sets exist', e.allocated(VIRT)


def frame(e, o):
    yield from same_watch(e, o)
    yield 'what all were told stays', A(lambda p, k: Implies(e.has(C, p), e.mem(C, p, k) == o.mem(C, p, k)), pats=lambda p, k: [e.mem(C, p, k)])
    yield 'keys that wait go on waiting', A(lambda v, p, k: Implies(And(o.has(U, P.pair(v, p)), o.mem(U, P.pair(v, p), k)), e.mem(U, P.pair(v, p), k)), pats=lambda v, p, k: [e.mem(U, P.pair(v, p), k)])
    yield 'keys that wait go on waiting', A(lambda p, k: Implies(And(o.has(X, p), o.mem(X, p, k)), e.mem(X, p, k)), pats=lambda p, k: [e.mem(X, p, k)])
    yield 'what all were told does not wait again', A(lambda v, p, k: Implies(And(e.has(C, p), o.mem(C, p, k), o.has(U, P.pair(v, p))), e.mem(U, P.pair(v, p), k) == o.mem(U, P.pair(v, p), k)), pats=lambda v, p, k: [e.mem(U, P.pair(v, p), k)])
    yield 'what all were told does not wait again', A(lambda p, k: Implies(And(e.has(C, p), o.mem(C, p, k)), e.mem(X, p, k) == o.mem(X, p, k)), pats=lambda p, k: [e.mem(X, p, k)])
    c = current(e)
    yield 'what the running element has been told does not change', A(lambda p, k: Implies(o.has(U, P.pair(c, p)), e.mem(U, P.pair(c, p), k) == o.mem(U, P.pair(c, p), k)), pats=lambda p, k: [e.mem(U, P.pair(c, p), k)])
    yield 'who was scheduled is', A(lambda v: Implies(o.inset(W, v), e.inset(W, v)), pats=lambda v: [e.inset(W, v)])


def same_tables(e, o):
    for d in (C, U, X):
        srt = [P] if d == U else [K]
        yield 'the same sets', A(lambda q: And(e.has(d, q) == o.has(d, q), e.ref(d, q) == o.ref(d, q)), sorts=srt, pats=lambda q: [e.has(d, q), e.ref(d, q)])


def news(e, o, which):
    yield 'what was known is', A(lambda p, k: Implies(And(e.has(C, p), known(o, p, k)), known(e, p, k)), pats=lambda p, k: [e.mem(C, p, k)])
    yield 'new is nothing but the key', A(lambda p, k: Implies(And(e.has(C, p), known(e, p, k)), Or(known(o, p, k), which(p, k))), pats=lambda p, k: [e.mem(C, p, k), e.mem(U, P.pair(owner(e, p), p), k), e.mem(X, p, k)])
    yield 'owners are told', A(lambda p, k: Implies(e.has(C, p), told(e, o, p, k)), pats=lambda p, k: [e.mem(C, p, k)])
    yield 'all who watch are told', A(lambda v, p, k: Implies(e.has(C, p), told_v(e, o, v, p, k)), pats=lambda v, p, k: [z3.MultiPattern(e.mem(C, p, k), e.mem(VIRT, p, v))])


def needed(M):
    cls = M.PortUpdatesAlgorithm
    env = {'__classes__': {'PortUpdatesAlgorithm': cls}, '__identity__': True}
    out = []
    for cur, nm in (('none', ' (at the start)'), ('K', ' (while an element runs)')):
        def req(e):
            yield from tables(e)
            yield from scheduled(e)

        def ens(e):
            o, p, k = e.old, e.t('pto'), e.t('kto')
            yield from frame(e, o)
            yield from news(e, o, lambda q, j: And(q == p, j == k))
            yield 'the port knows the key', Implies(e.has(C, p), known(e, p, k))
            yield from scheduled(e)
            yield from same_tables(e, o)

        def loop(e):
            """every virtual owner"""
            o, p, k, c = e.pre, e.t('pto'), e.t('kto'), current(e)
            yield 'told', A(lambda v, q, j: Implies(o.has(U, P.pair(v, q)), e.mem(U, P.pair(v, q), j) == Or(o.mem(U, P.pair(v, q), j), And(e.done[v], q == p, j == k, v != c))), pats=lambda v, q, j: [e.mem(U, P.pair(v, q), j)])
            yield 'what the one that runs is told next', A(lambda q, j: Implies(o.has(X, q), e.mem(X, q, j) == Or(o.mem(X, q, j), And(e.done[c], q == p, j == k))), pats=lambda q, j: [e.mem(X, q, j)])
            yield 'scheduled', A(lambda v: e.inset(W, v) == Or(o.inset(W, v), e.done[v]), pats=lambda v: [e.inset(W, v)])
        out.append(Contract('_coherent_sources_needed' + nm, cls._coherent_sources_needed, dict(self=system(cur), pto='K', kto='K'), req, ens, loops=[loop],
                            regions=[(U, X)], env=env, modifies=[U, X, W, VIRT]))
    return out


def link(e, a, b):
    return Or(And(e.has(BOND, a), e.mem(BOND, a, b)), And(e.has(BACK, a), e.mem(BACK, a, b)))


def closed(e, S, T=None):
    """with a port all the ports bonded to it, in either direction"""
    for d in (BOND, BACK):
        yield A(lambda a, b: Implies(And(S[a], e.has(d, a), e.mem(d, a, b)), S[b] if T is None else Or(S[b], T[b])), pats=lambda a, b: [z3.MultiPattern(S[a], e.mem(d, a, b))])


def spread(M):
    cls = M.PortUpdatesAlgorithm
    import phasor.base
    env = {'__classes__': {'PortUpdatesAlgorithm': cls}, '__identity__': True, '__kinds__': {phasor.base.DictKey: ISKEY}}
    out = []
    for cur, nm in (('none', ' (at the start)'), ('K', ' (while an element runs)')):
        def req(e):
            yield from tables(e)
            yield from scheduled(e)
            yield 'it is a key', ISKEY(e.t('kto'))

        def within(e):
            return And(ANY[e.t('pto')], *closed(e, ANY))

        def state(e):
            o, k = e.old, e.t('kto')
            yield from frame(e, o)
            yield from news(e, o, lambda q, j: And(j == k, Implies(within(o), ANY[q])))
            yield from scheduled(e)
            yield from same_tables(e, o)

        def found(e, D):
            yield 'every port found knows the key', A(lambda q: Implies(And(D[q], e.has(C, q)), known(e, q, e.t('kto'))), pats=lambda q: [D[q]])

        def loop(e):
            T, D, p = e.arr('to_extend'), e.arr('already_extended'), e.t('pto')
            yield from state(e)
            yield 'the first port is found', Or(T[p], D[p])
            for f in closed(e, D, T):
                yield 'the ports bonded to those found are found', f
            yield from found(e, D)
            yield 'no more than in any closed set', Implies(within(e.old), A(lambda q: Implies(Or(T[q], D[q]), ANY[q])))

        def ens(e):
            yield from state(e)
            D = e.arr('already_extended')
            yield 'the first port is found', D[e.t('pto')]
            for f in closed(e, D):
                yield 'the ports bonded to those found are found', f
            yield from found(e, D)

        def variant(top, bot):
            n = bot.t('pto_next')
            d, t = bot.arr('already_extended'), top.arr('already_extended')
            yield 'found grows or the rest shrinks', And(A(lambda q: Implies(t[q], d[q])), d[n])
        out.append(Contract('coherent_sources_needed' + nm, cls.coherent_sources_needed, dict(self=system(cur), pto='K', kto='K'), req, ens, loops=[loop],
                            regions=[(U, X)], env=env, modifies=[U, X, W, VIRT], variants={0: variant}, used=False))
    return out


def owners_tables(e, at='self.system.'):
    """the ports of each element, and those it watches"""
    own, virt, op, opv = (at + n[len('self.system.'):] for n in (OWN, VIRT, OP, OPV))
    w = lambda v, p: And(e.has(virt, p), e.mem(virt, p, v))
    yield 'the ports of each element', A(lambda v, p: And(e.has(op, v), e.mem(op, v, p)) == And(e.has(own, p), e.val(own, p) == v), pats=lambda v, p: [e.mem(op, v, p)])
    yield 'the ports of each element', A(lambda p: Implies(e.has(own, p), And(e.has(op, e.val(own, p)), e.mem(op, e.val(own, p), p))), pats=lambda p: [e.val(own, p)])
    yield 'the ports each watches', A(lambda v, p: And(e.has(opv, v), e.mem(opv, v, p)) == w(v, p), pats=lambda v, p: [e.mem(opv, v, p)])
    yield 'the ports each watches', A(lambda v, p: Implies(w(v, p), And(e.has(opv, v), e.mem(opv, v, p), e.has(own, p))), pats=lambda v, p: [e.mem(virt, p, v)])
    yield 'who has ports has a set for the others', A(lambda p: Implies(e.has(own, p), e.has(opv, e.val(own, p))), pats=lambda p: [e.val(own, p)])


def resolve(M):
    cls = M.PortUpdatesAlgorithm
    env = {'__classes__': {'PortUpdatesAlgorithm': cls}, '__identity__': True}

    def el(e):
        return e.old.t(CUR)

    def mine(e, p):
        return And(e.has(OP, el(e)), e.mem(OP, el(e), p))

    def watched(e, p):
        return e.mem(OPV, el(e), p)

    def req(e):
        yield from tables(e)
        yield from scheduled(e)
        yield from owners_tables(e)
        c = e.t(CUR)
        yield 'the element has ports', e.has(OPV, c)

    def upto(e, D):
        """the ports D have been done"""
        o, c = e.old, el(e)
        u = lambda p: P.pair(c, p)
        yield 'told', A(lambda p, k: Implies(e.has(C, p), e.mem(C, p, k) == Or(o.mem(C, p, k), And(D(p), o.mem(U, u(p), k)))), pats=lambda p, k: [e.mem(C, p, k)])
        for n, cond in (('the others have still to be told', lambda v, p: v != c),
                        ('still to tell', lambda v, p: And(v == c, Not(D(p)))),
                        ('what came meanwhile is still to tell', lambda v, p: And(v == c, D(p)))):
            yield n, A(lambda v, p, k: Implies(And(e.has(U, P.pair(v, p)), cond(v, p)), e.mem(U, P.pair(v, p), k) == (o.mem(X, p, k) if n.startswith('what') else o.mem(U, P.pair(v, p), k))), pats=lambda v, p, k: [e.mem(U, P.pair(v, p), k)])
        yield 'nothing came meanwhile', A(lambda p, k: Implies(e.has(X, p), e.mem(X, p, k) == And(o.mem(X, p, k), Not(D(p)))), pats=lambda p, k: [e.mem(X, p, k)])

    def sets(e):
        for d in (C, U, X):
            yield 'sets are not shared', e.owned(d)
            yield 'sets exist', e.allocated(d)
        yield 'sets are not shared between the two', e.owned2(U, X)
        for d in (C, U, X):
            srt = [P] if d == U else [K]
            yield 'sets for the same', A(lambda q: e.has(d, q) == e.old.has(d, q), sorts=srt, pats=lambda q: [e.has(d, q)])

    def l1(e):
        yield from sets(e)
        yield from upto(e, lambda p: e.done[p])

    def l2(e):
        yield from sets(e)
        yield from upto(e, lambda p: Or(mine(e, p), e.done[p]))

    def ens(e):
        o, c = e.old, el(e)
        yield from sets(e)
        yield from upto(e, lambda p: Or(mine(e, p), watched(e, p)))
        yield 'no element runs', z3.BoolVal(e.isnone(CUR))
        yield 'known is what was known', A(lambda p, k: Implies(e.has(C, p), known(e, p, k) == known(o, p, k)))
        yield 'what was told stays so, and what is told now was waiting', A(lambda p, k: Implies(And(e.has(C, p), e.mem(C, p, k)), known(o, p, k)))
        yield from (('scheduled: ' + n, f) for n, f in scheduled(e))
    return [Contract('resolve_port_updates', cls.resolve_port_updates, dict(self=system('K')), req, ens, loops=[l1, l2], regions=[(U, X)], env=env,
                     modifies=[C, U, X], fields={CUR: 'none'})]


SYSTEM = system('none')[1]['system']


def start(M):
    cls = M.PortUpdatesAlgorithm
    env = {'__classes__': {'PortUpdatesAlgorithm': cls}, '__identity__': True}

    def given(e):
        none = VC().const_key(None)
        for n, f in owners_tables(e, 'system.'):
            yield n, f
        yield 'sets are not shared', e.owned('system.port_owners_virtual')
        yield 'sets exist', e.allocated('system.port_owners_virtual')
        own, virt = (n[len('self.'):] for n in (OWN, VIRT))
        w = lambda v, p: And(e.has(virt, p), e.mem(virt, p, v))
        yield 'an owner is no virtual owner', A(lambda p: And(e.val(own, p) != none, Not(w(none, p)), Not(w(e.val(own, p), p))), pats=lambda p: [e.val(own, p)])

    def empty(e, *ds):
        for d in ds:
            srt = [P, K] if d == U else [K, K]
            yield 'no key yet', A(lambda q, k: Not(And(e.has(d, q), e.mem(d, q, k))), sorts=srt, pats=lambda q, k: [e.mem(d, q, k)])

    def own(e, *ds):
        for d in ds:
            yield 'sets are not shared', e.owned(d)
            yield 'sets exist', e.allocated(d)

    def back(e, f):
        yield from own(e, BACK)
        yield 'bonds from their other side', A(lambda a, b: And(e.has(BACK, b), e.mem(BACK, b, a)) == f(a, b), pats=lambda a, b: [e.mem(BACK, b, a)])
        yield 'bonds from their other side', A(lambda a, b: Implies(f(a, b), And(e.has(BACK, b), e.mem(BACK, b, a))), pats=lambda a, b: [e.mem(BOND, a, b)])

    bond = lambda e: lambda a, b: And(e.has(BOND, a), e.mem(BOND, a, b))

    def l0(e):
        yield from back(e, lambda a, b: And(e.done[a], e.mem(BOND, a, b)))

    def l1(e):
        k, T = e.t('k'), e.encl[0]
        yield from back(e, lambda a, b: Or(And(T[a], e.mem(BOND, a, b)), And(a == k, e.done[b])))

    def l2(e):
        yield from own(e, C, U, X)
        yield 'sets are not shared between the two', e.owned2(U, X)
        yield from empty(e, C, U, X)
        for d in (C, X):
            yield 'ports so far', A(lambda p: e.has(d, p) == e.done[p], pats=lambda p: [e.has(d, p)])
        yield 'owners so far', A(lambda v, p: e.has(U, P.pair(v, p)) == And(e.done[p], v == owner(e, p)), pats=lambda v, p: [e.has(U, P.pair(v, p))])

    def more(e, f):
        yield from own(e, U)
        yield 'sets are not shared between the two', e.owned2(U, X)
        yield from empty(e, U)
        yield 'who watches so far', A(lambda v, p: e.has(U, P.pair(v, p)) == Or(And(e.has(OWN, p), v == owner(e, p)), f(v, p)), pats=lambda v, p: [e.has(U, P.pair(v, p))])

    def l3(e):
        yield from more(e, lambda v, p: And(e.done[p], watches(e, v, p)))

    def l4(e):
        p0, T = e.t('port'), e.encl[0]
        yield from more(e, lambda v, p: Or(And(T[p], watches(e, v, p)), And(p == p0, e.done[v])))

    def ready(e):
        yield from tables(e)
        yield from empty(e, C, U, X)
        yield from back(e, bond(e))
        yield 'nobody runs', z3.BoolVal(e.isnone(CUR))
        yield from scheduled(e)
    def element(kind, cur):
        """assumed of elements: they change the tables by asking for keys alone (coherent_sources_needed keeps this)"""
        def fn(element, pa):
            pass

        def req(e):
            for n, f in list(tables(e)) + list(scheduled(e)):
                yield n, f
            if cur == 'K':
                yield 'it is the one that runs', And(TAKES(e.t('element')), e.t('element') == e.t('pa._current_element'))
        return Contract('an element (%s)' % kind, fn, dict(element='K', pa=system(cur)), at('pa', req), at('pa', asked), trusted=True, modifies=['pa.' + n[5:] for n in (U, X, W, VIRT)])

    def asked(e):
        o = e.old
        yield from frame(e, o)
        yield 'what was known is', A(lambda p, k: Implies(And(e.has(C, p), known(o, p, k)), known(e, p, k)), pats=lambda p, k: [e.mem(C, p, k)])
        yield 'what was known is', A(lambda p, k: Implies(And(e.has(C, p), known(o, p, k)), known(e, p, k)), pats=lambda p, k: [e.mem(U, P.pair(owner(e, p), p), k)])
        yield from scheduled(e)
        yield from same_tables(e, o)

    def at(name, spec):
        return lambda e: spec(e.renamed('self', name))

    def some(e):
        yield from tables(e)
        yield from scheduled(e)
        yield from owners_tables(e)
        yield 'what was known is', A(lambda p, k: Implies(And(e.has(C, p), known(e.old, p, k)), known(e, p, k)), pats=lambda p, k: [e.mem(C, p, k)])

    def lp0(e):
        yield from some(e)

    def lp1(e):
        yield from some(e)

    def settled(e):
        yield from tables(e)
        yield 'what was known is', A(lambda p, k: Implies(And(e.has(C, p), known(e.old, p, k)), known(e, p, k)), pats=lambda p, k: [e.mem(C, p, k)])
        yield 'nobody has to run', A(lambda v: Not(e.inset(W, v)))
        yield 'every key known at a port has been taken up by its owner', A(lambda p, k: Implies(And(e.has(C, p), known(e, p, k)), e.mem(C, p, k)))
        yield 'nothing waits for those who watch', A(lambda v, p, k: Implies(And(e.has(C, p), watches(e, v, p)), Not(e.mem(U, P.pair(v, p), k))))

    def ready2(e):
        yield from ready(e)
        yield from owners_tables(e)
    env2 = dict(env, __maybe__={'system_setup_ports': TAKES, 'system_setup_ports_initial': STARTS},
                __external__={'system_setup_ports': [element('while it runs', 'K')], 'system_setup_ports_initial': [element('at the start', 'none')]})
    return [Contract('_setup_port_needs', cls._setup_port_needs, dict(self=system('none')), ready2, settled, loops=[lp0, lp1], regions=[(U, X)], env=env2,
                     modifies=[C, U, X, W, VIRT], fields={CUR: 'none'}),
            Contract('PortUpdatesAlgorithm.__init__', cls.__init__, dict(self=('obj', {}, 'PortUpdatesAlgorithm'), system=SYSTEM), given, None,
                     loops=[l0, l1, l2, l3, l4], env=env, used=False)]


def included():
    """who owns and who watches a port: the tables system.py keeps (lists are taken as the sets of their members: no port is entered twice)"""
    from phasor.system import system as Y
    cls = Y.BGSystem
    sy = ('obj', dict(SYSTEM[1]), 'BGSystem')
    env = {'__classes__': {'BGSystem': cls}, '__identity__': True}
    own, virt, op, opv = ['self.' + n[len('self.system.'):] for n in (OWN, VIRT, OP, OPV)]
    w = lambda e, v, p: And(e.has(virt, p), e.mem(virt, p, v))

    def inv(e):
        yield from owners_tables(e, 'self.')
        for d in (virt, op, opv):
            yield 'sets are not shared', e.owned(d)
            yield 'sets exist', e.allocated(d)
        none = VC().const_key(None)
        yield 'an owner is no virtual owner', A(lambda p: Implies(e.has(own, p), And(e.val(own, p) != none, Not(w(e, none, p)), Not(w(e, e.val(own, p), p)))), pats=lambda p: [e.val(own, p)])

    def r1(e):
        yield from inv(e)
        yield 'a port is added once', Not(e.has(own, e.t('pkey')))
        yield 'to an element', e.t('owner') != VC().const_key(None)

    def e1(e):
        yield from inv(e)
        p0 = e.t('pkey')
        yield 'that port is owned now', And(e.has(own, p0), e.val(own, p0) == e.t('owner'))
        yield 'the others as before', A(lambda p: Implies(p != p0, And(e.has(own, p) == e.old.has(own, p), e.val(own, p) == e.old.val(own, p))))
        yield 'who watches is as before', A(lambda v, p: w(e, v, p) == w(e.old, v, p))

    def r2(e):
        yield from inv(e)
        p, v = e.t('port'), e.t('element')
        yield 'of a port of another element', And(e.has(own, p), e.val(own, p) != v, v != VC().const_key(None))
        yield 'which it does not watch yet', Not(w(e, v, p))

    def e2(e):
        yield from inv(e)
        p0, v0 = e.t('port'), e.t('element')
        yield 'it watches the port now, and all else is as before', A(lambda v, p: w(e, v, p) == Or(w(e.old, v, p), And(v == v0, p == p0)))
        yield 'owners are as before', A(lambda p: And(e.has(own, p) == e.old.has(own, p), e.val(own, p) == e.old.val(own, p)))
    return [Contract('port_add', cls.port_add, dict(self=sy, owner='K', pkey='K'), r1, e1, env=env, modifies=[own, op, opv], used=False),
            Contract('own_port_virtual', cls.own_port_virtual, dict(self=sy, element='K', port='K'), r2, e2, env=env, modifies=[virt, opv], used=False)]


RULE2, RULE1 = z3.Function('second_passes', K, K, B), z3.Function('first_passes', K, K, B)


def pairs(M):
    """symmetric_update: all pairs of keys at two ports of which one is new, whatever is asked for while they are taken"""
    cls = M.PortUpdatesAlgorithm

    def rely(self):
        pass

    def meanwhile(e):
        """whoever takes the pairs asks for keys (needed(): what is told does not change for the element that runs)"""
        o, c = e.old, e.t(CUR)
        yield 'what all were told stays', A(lambda p, k: Implies(e.has(C, p), e.mem(C, p, k) == o.mem(C, p, k)), pats=lambda p, k: [e.mem(C, p, k)])
        yield 'what the running element has been told does not change', A(lambda p, k: Implies(o.has(U, P.pair(c, p)), e.mem(U, P.pair(c, p), k) == o.mem(U, P.pair(c, p), k)), pats=lambda p, k: [e.mem(U, P.pair(c, p), k)])
        yield from same_tables(e, o)
    out = []
    rely_c = Contract('asking for keys', rely, dict(self=system('K')), None, meanwhile, modifies=[U, X, W], trusted=True)
    env = {'__classes__': {'PortUpdatesAlgorithm': cls}, '__identity__': True, '__not__': (list,), '__meanwhile__': [rely_c]}
    for nm, f2, f1 in (('', 'none', 'none'), (', with a rule for the second', ('filter', RULE2), 'none'), (', with rules for both', ('filter', RULE2), ('filter', RULE1)), (', with a rule for the first', 'none', ('filter', RULE1))):
        def ok2(a, b, f2=f2):
            return z3.BoolVal(True) if f2 == 'none' else RULE2(a, b)

        def ok1(a, b, f1=f1):
            return z3.BoolVal(True) if f1 == 'none' else RULE1(b, a)

        def req(e):
            c = e.t(CUR)
            for p in ('pfrom1', 'pfrom2'):
                yield 'it watches both ports', And(e.has(C, e.t(p)), e.has(U, P.pair(c, e.t(p))))
            for d in (C, U, X):
                yield 'sets are not shared', e.owned(d)
                yield 'sets exist', e.allocated(d)

        def new(e, p, k):
            return e.old.mem(U, P.pair(e.old.t(CUR), e.old.t(p)), k)

        def told(e, p, k):
            return e.old.mem(C, e.old.t(p), k)

        def first(e, a, b, ok2=ok2):
            return And(new(e, 'pfrom1', a), Or(new(e, 'pfrom2', b), told(e, 'pfrom2', b)), ok2(a, b))

        def second(e, a, b, ok1=ok1):
            return And(e.old.t('pfrom1') != e.old.t('pfrom2'), told(e, 'pfrom1', a), new(e, 'pfrom2', b), ok1(a, b))

        def state(e, f):
            yield from meanwhile(e)
            yield 'the pairs', A(lambda a, b: e.edge('yielded', a, b) == f(a, b), pats=lambda a, b: [e.edge('yielded', a, b)])

        def outer1(e, first=first, state=state):
            yield from state(e, lambda a, b: And(e.done[a], first(e, a, b)))

        def inner1(e, first=first, state=state):
            T, k = e.encl[0], e.t('kfrom1')
            yield from state(e, lambda a, b: Or(And(T[a], first(e, a, b)), And(a == k, e.done[b])))

        def outer2(e, first=first, second=second, state=state):
            yield from state(e, lambda a, b: Or(first(e, a, b), And(e.done[b], second(e, a, b))))

        def inner2(e, first=first, second=second, state=state):
            T, k = e.encl[0], e.t('kfrom2')
            yield from state(e, lambda a, b: Or(first(e, a, b), And(T[b], second(e, a, b)), And(b == k, e.done[a])))

        def ens(e, first=first, second=second):
            yield 'exactly the pairs of which one is new', A(lambda a, b: e.edge('yielded', a, b) == Or(first(e, a, b), second(e, a, b)))
        # loops over lists of ports are not part of it
        out.append(Contract('symmetric_update' + nm, cls.symmetric_update, dict(self=system('K'), pfrom1='K', pfrom2='K', subset_second=f2, subset_first=f1), req, ens,
                            loops=[None, None, outer1, inner1, outer1, inner1, None, None, outer2, inner2, outer2, inner2], regions=[(U, X)], env=env, modifies=[U, X, W], used=False))

    def none(e):
        yield 'no port, no pairs', A(lambda a, b: Not(e.edge('yielded', a, b)))
    for a, b in (('none', 'K'), ('K', 'none')):
        out.append(Contract('symmetric_update of no port', cls.symmetric_update, dict(self=system('K'), pfrom1=a, pfrom2=b), None, none, env=env, used=False))
    return out


def contracts(M):
    return included() + start(M) + needed(M) + spread(M) + resolve(M) + pairs(M)
