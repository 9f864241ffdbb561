"""Contracts on dictionary keys and frequency keys: phasor/base/dictionary_keys.py.

A dictionary key is a partial map, a frequency key a map from frequencies to integers
other than zero; every operation is described at every entry, and leaves its operands."""
import z3
import declarative
from vc.wp import Contract, A, And, Or, Not, Implies, If, K, I, R, SETS, VC, NV, prod

D = ('obj', {'_dict': 'kdict:K'}, 'DictKey')
F = ('obj', {'F_dict': 'kdict:int'}, 'FrequencyKey')


def dictkeys(M):
    cls = M.DictKey
    env = {'__classes__': {'DictKey': cls}}
    noarg = VC().const_key(declarative.NOARG)

    def values(e, d):
        yield 'values are given', A(lambda k: e.val(d, k) != noarg, pats=lambda k: [e.val(d, k)])

    def kept(e, *ds):
        for d in ds:
            yield 'operands stay', A(lambda k: And(e.has(d, k) == e.old.has(d, k), e.val(d, k) == e.old.val(d, k)))

    def is_map(e, d, has, val):
        yield 'its keys', A(lambda k: e.has(d, k) == has(k), pats=lambda k: [e.has(d, k)])
        yield 'its values', A(lambda k: Implies(e.has(d, k), e.val(d, k) == val(k)), pats=lambda k: [e.val(d, k)])

    s, o, r = 'self._dict', 'other._dict', 'result._dict'
    out = []

    def add(label, params, ens, req=None, loops=(), may_fail=False):
        name = label.split(' ')[0]
        out.append(Contract('DictKey.' + label, getattr(cls, name), params, req, ens, loops=loops, env=env, used=False, may_fail=may_fail))

    def same(e, k, a=s, b=o):
        return And(e.has(a, k), e.val(a, k) == e.val(b, k))

    def within(e):
        return A(lambda k: Implies(e.has(o, k), same(e, k)))
    SO = dict(self=D, other=D)
    # a new key holds what it is given
    add('__init__ (of keywords)', dict(self=('obj', {}, 'DictKey'), kwargs='kdict:K'), lambda e: is_map(e, s, lambda k: e.old.has('kwargs', k), lambda k: e.old.val('kwargs', k)))
    add('__iter__', dict(self=D), lambda e: [('its keys', A(lambda k: e.inset('result', k) == e.has(s, k)))])
    add('__getitem__', dict(self=D, key='K'), lambda e: [('its value', e.t('result') == e.val(s, e.t('key')))], lambda e: [('it is there', e.has(s, e.t('key')))])
    add('kv_contains', dict(self=D, k='K', v='K'),
        lambda e: [('whether', e.t('result') == And(e.has(s, e.t('k')), e.val(s, e.t('k')) == e.t('v')))],
        lambda e: list(values(e, s)) + [('a value', e.t('v') != noarg)])
    add('__eq__', SO, lambda e: [('equal maps', e.t('result') == A(lambda k: And(e.has(s, k) == e.has(o, k), Implies(e.has(s, k), e.val(s, k) == e.val(o, k)))))] + list(kept(e, s, o)))
    add('__or__', SO, lambda e: list(is_map(e, r, lambda k: Or(e.has(s, k), e.has(o, k)), lambda k: If(e.has(o, k), e.val(o, k), e.val(s, k)))) + list(kept(e, s, o)))

    def l_and(e):
        yield from is_map(e, 'newdict', lambda k: And(e.done[k], e.has(s, k), e.has(o, k), e.val(s, k) == e.val(o, k)), lambda k: e.val(s, k))
    add('__and__', SO, lambda e: list(is_map(e, r, lambda k: And(e.has(s, k), e.has(o, k), e.val(s, k) == e.val(o, k)), lambda k: e.val(s, k))) + list(kept(e, s, o)),
        lambda e: list(values(e, s)) + list(values(e, o)), [l_and])
    inside = lambda e: [('so far', A(lambda k: Implies(e.done[k], And(e.has(o, k), same(e, k))), pats=lambda k: [e.done[k]]))]
    add('contains', SO, lambda e: [('all of it', e.t('result') == within(e))] + list(kept(e, s, o)),
        lambda e: list(values(e, s)) + list(values(e, o)), [inside])
    add('subkey_has', SO, lambda e: [('all of it', e.t('result') == within(e))] + list(kept(e, s, o)), None, [inside])

    def less(e):
        yield from is_map(e, 'cp', lambda k: And(e.has(s, k), Not(e.done[k])), lambda k: e.val(s, k))

    def without(e, gone):
        yield from is_map(e, r, lambda k: And(e.has(s, k), Not(gone(k))), lambda k: e.val(s, k))
        yield from kept(e, s)
    keys = lambda e: (lambda k: e.inset('keys', k))
    add('without_keys', dict(self=D, keys='set'), lambda e: without(e, keys(e)),
        lambda e: [('they are there', A(lambda k: Implies(e.inset('keys', k), e.has(s, k)), pats=lambda k: [e.inset('keys', k)]))], [less])
    add('purge_keys', dict(self=D, keys='set'), lambda e: without(e, keys(e)), None, [less])
    add('__sub__', SO, lambda e: list(without(e, lambda k: e.has(o, k))) + list(kept(e, o)), lambda e: [('it is contained', within(e))], [less])

    # of anything else they are refused
    add('__sub__ (of any)', SO, lambda e: list(without(e, lambda k: e.has(o, k))) + [('only what is contained', within(e))], None,
        [lambda e: list(less(e)) + list(inside(e))], may_fail=True)
    add('without_keys (any)', dict(self=D, keys='set'), lambda e: list(without(e, keys(e))) + [('only what is there', A(lambda k: Implies(e.inset('keys', k), e.has(s, k))))],
        None, [lambda e: list(less(e)) + [('so far', A(lambda k: Implies(e.done[k], e.has(s, k)), pats=lambda k: [e.done[k]]))]], may_fail=True)

    def rep(e, d, has, val):
        yield from is_map(e, 'cp', lambda k: Or(has(k), e.done[k]), lambda k: If(e.done[k], e.val(d, k), val(k)))
    k0 = 'key_dict'
    one = lambda e: rep(e, k0, lambda k: e.has(s, k), lambda k: e.val(s, k))
    has1, val1 = (lambda e: lambda k: Or(e.has(s, k), e.old.has(k0, k))), (lambda e: lambda k: If(e.old.has(k0, k), e.old.val(k0, k), e.val(s, k)))
    add('replace_keys', dict(self=D, key_dict='kdict:K'), lambda e: list(is_map(e, r, has1(e), val1(e))) + list(kept(e, s)), None, [one, None, None])
    m = 'more_key_dicts[0]'
    two = lambda e: rep(e, m, has1(e), val1(e))
    add('replace_keys (by two)', dict(self=D, key_dict='kdict:K', more_key_dicts=('tuple', ['kdict:K'])),
        lambda e: list(is_map(e, r, lambda k: Or(has1(e)(k), e.has(m, k)), lambda k: If(e.has(m, k), e.val(m, k), val1(e)(k)))) + list(kept(e, s)),
        None, [one, None, two])
    add('copy_update', dict(self=D, kwargs='kdict:K'), lambda e: list(is_map(e, r, lambda k: Or(e.has(s, k), e.has('kwargs', k)), lambda k: If(e.has('kwargs', k), e.val('kwargs', k), e.val(s, k)))) + list(kept(e, s)))
    for q in ('__copy__', '__deepcopy__'):
        add(q, dict(self=D, **({'memo': 'any'} if 'deep' in q else {})), lambda e: [('the same', e.apart('self', 'self') if False else z3.BoolVal(e.result is e.v('self')))])
    return out


def freqkeys(M):
    cls = M.FrequencyKey
    env = {'__classes__': {'FrequencyKey': cls}}
    s, o, r = 'self.F_dict', 'other.F_dict', 'result.F_dict'
    out = []

    def n(e, d, k):
        """the multiple of a frequency"""
        return If(e.has(d, k), e.val(d, k), 0)

    def nz(e, d):
        yield 'no multiple is zero', A(lambda k: Implies(e.has(d, k), e.val(d, k) != 0), pats=lambda k: [e.has(d, k)])

    def add(name, params, ens, loops=(), objs=(s, o)):
        objs = [d for d in objs if d.split('.')[0] in params and d.split('.')[0] != 'x']

        def req(e):
            for d in objs:
                yield from nz(e, d)

        def full(e):
            yield from ens(e)
            for d in objs:
                yield 'operands stay', A(lambda k: And(e.has(d, k) == e.old.has(d, k), e.val(d, k) == e.old.val(d, k)))
        out.append(Contract('FrequencyKey.' + name, getattr(cls, name), params, req, full, loops=loops, env=env, used=False))

    def res(e, f, d=r):
        yield from nz(e, d)
        yield 'every multiple', A(lambda k: n(e, d, k) == f(k))
    SO = dict(self=F, other=F)
    add('__init__', dict(self=('obj', {}, 'FrequencyKey'), F_dict='kdict:int'), lambda e: res(e, lambda k: n(e.old, 'F_dict', k), s), objs=())
    add('__eq__', SO, lambda e: [('equal combinations', e.t('result') == A(lambda k: n(e, s, k) == n(e, o, k)))])
    add('DC_is', dict(self=F), lambda e: [('no frequency', e.t('result') == A(lambda k: n(e, s, k) == 0))])

    def upto(sign):
        def inv(e):
            yield 'so far', A(lambda k: n(e, 'F_dict', k) == n(e, s, k) + If(e.done[k], sign * n(e, o, k), 0), pats=lambda k: [e.has('F_dict', k), e.val('F_dict', k)])
        return inv
    add('__add__', SO, lambda e: res(e, lambda k: n(e, s, k) + n(e, o, k)), [upto(1)])
    add('__sub__', SO, lambda e: res(e, lambda k: n(e, s, k) - n(e, o, k)), [upto(-1)])

    def times(f):
        def inv(e):
            yield 'so far', A(lambda k: And(e.has('F_dict', k) == e.done[k], Implies(e.done[k], e.val('F_dict', k) == f(e, e.val(s, k)))), pats=lambda k: [e.has('F_dict', k), e.val('F_dict', k)])
        return inv
    add('__rmul__', dict(self=F, other='int'), lambda e: res(e, lambda k: e.t('other') * n(e, s, k)), [times(lambda e, x: e.t('other') * x)], objs=(s,))
    # the frequency: the sum over a finite set, by recursion
    HZ, SUM = z3.Function('hertz', K, R), z3.Function('sum_over', SETS, R)
    S, m = z3.Const('S', SETS), z3.Const('m', K)

    def sums(e):
        yield from nz(e, s)
        yield 'sum over nothing', SUM(z3.K(K, z3.BoolVal(False))) == 0
        S2 = z3.Store(S, m, z3.BoolVal(True))
        yield 'sum with one more', z3.ForAll([S, m], Implies(Not(S[m]), SUM(S2) == SUM(S) + prod(HZ(m), z3.ToReal(e.val(s, m)))), patterns=[SUM(S2)])
    out.append(Contract('FrequencyKey.frequency', cls.frequency, dict(self=F), sums,
                        lambda e: [('the sum of its multiples', e.n('result') == SUM(e._d(s)['dom']))],
                        loops=[lambda e: [('so far', e.n('F_sum') == SUM(e.done))]],
                        env=dict(env, __locals__={'F_sum': 'num'}, __attrs__={'F_Hz.val': lambda k: NV(HZ(k))}), used=False))
    add('__neg__', dict(self=F), lambda e: res(e, lambda k: -n(e, s, k)), [times(lambda e, x: -x)])
    return out


def contracts(M):
    return dictkeys(M) + freqkeys(M)
