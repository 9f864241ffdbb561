"""P08: frequency keys add as integer combinations, dictionary keys combine as partial maps."""
import itertools
import numpy as np
from vc.harness import Suite, Skip
from vc import phys, unbounded

S = Suite('P08')
phys.install()


class F(object):
    """a named frequency as the keys use it"""

    def __init__(self, name, hz=None):
        self.name = name
        self.F_Hz = type('V', (), {'val': hz})()

    def __lt__(self, other):
        return self.name < other.name

    def __repr__(self):
        return self.name


NAMES = ['A', 'B', 'C']


def freqs(c):
    return [F(n, c.real('f' + n)) for n in NAMES]


def fkey(c, Fs, name):
    """any key over the frequencies: each absent, or with any multiple"""
    from phasor.base.dictionary_keys import FrequencyKey
    d = {}
    for f in Fs[:2]:
        if c.choice('%s has %s' % (name, f.name), [1, 0]):
            d[f] = c.real('n_%s%s' % (name, f.name), special=(0, 1, -1, 2))
    return FrequencyKey(dict(d)), d


def same(c, label, got, want):
    """got denotes the combination want: every stored multiple non-zero"""
    for f in sorted(set(got.F_dict) | set(want)):
        c.eq(label, got.F_dict.get(f, 0), want.get(f, 0))
    for f, n in got.F_dict.items():
        c.true('%s: no zero entries' % label, bool(n != 0))


@S.case('sums, differences, negation and multiples', arr=False, samples=200)
def _(c):
    Fs = freqs(c)
    a, ad = fkey(c, Fs, 'a')
    b, bd = fkey(c, Fs, 'b')
    m = c.choice('m', [0, 1, -1, 2, -3])
    fs = set(ad) | set(bd)
    op = c.choice('op', ['+', '-', 'neg', 'mul'])
    if op == '+':
        same(c, 'a + b', a + b, {f: ad.get(f, 0) + bd.get(f, 0) for f in fs})
    elif op == '-':
        same(c, 'a - b', a - b, {f: ad.get(f, 0) - bd.get(f, 0) for f in fs})
    elif op == 'neg':
        same(c, '-a', -a, {f: 0 - n for f, n in ad.items()})
    else:
        same(c, 'm a', m * a, {f: m * n for f, n in ad.items()})
    for k, d in ((a, ad), (b, bd)):
        same(c, 'operands unchanged', k, d)


@S.case('frequencies scanned along different axes', sym=False, arr=False, bounded=True, samples=40)
def _(c):
    from phasor.base.dictionary_keys import FrequencyKey
    SH = [(), (3,), (2, 1), (4, 1, 1)]
    Fs = [F(n, np.array([c.real('f%s%d' % (n, i)) for i in range(int(np.prod(c.choice('shape' + n, SH))))]).reshape(c.choice('shape' + n, SH))[()])
          for n in NAMES]
    a = {f: c.choice('n' + f.name, [1, -1, 2, -3]) for f in Fs if c.choice('has ' + f.name, [1, 1, 0])}
    before = {f: np.copy(f.F_Hz.val) for f in Fs}
    c.eq('frequency', FrequencyKey(dict(a)).frequency(), sum([n * f.F_Hz.val for f, n in a.items()], 0.))
    for f in Fs:
        c.eq('the frequencies are unchanged', f.F_Hz.val, before[f])


@S.case('frequency of a key is the sum of its multiples', arr=False, samples=60)
def _(c):
    Fs = freqs(c)
    a, ad = fkey(c, Fs, 'a')
    b, bd = fkey(c, Fs, 'b')
    w = lambda d: sum([n * f.F_Hz.val for f, n in d.items()], 0)
    c.eq('frequency', a.frequency(), w(ad))
    c.eq('additive', (a + b).frequency(), w(ad) + w(bd))
    c.eq('difference', (a - b).frequency(), w(ad) - w(bd))
    c.eq('odd', (-a).frequency(), 0 - w(ad))
    c.true('DC', a.DC_is() == all(bool(n == 0) for n in ad.values()))


@S.case('equality is equality of the combinations', arr=False, samples=300)
def _(c):
    Fs = freqs(c)
    a, ad = fkey(c, Fs, 'a')
    b, bd = fkey(c, Fs, 'b')
    eq = all(bool(ad.get(f, 0) == bd.get(f, 0)) for f in set(ad) | set(bd))
    c.true('a == b', bool(a == b) == eq)
    c.true('not equal to others', not (a == 0) and not (a == None))
    if not c.sym:
        if eq:
            c.true('equal keys hash equally', hash(a) == hash(b) and len({a, b}) == 1)
        c.true('zero', (a - a) == type(a)({}) and hash(a - a) == hash(type(a)({})))
        same(c, 'a - b + b', a - b + b, ad)
        for f, n in ad.items():
            if n:
                c.true('lookup', a[f] == n)


@S.case('all pairs of small combinations, also as dictionary and set entries', sym=False, arr=False, bounded=True)
def _(c):
    from phasor.base.dictionary_keys import FrequencyKey, DictKey
    A, B = F('A', 1.), F('B', 2.)
    R = range(-4, 5)
    ks = [((i, j), FrequencyKey({A: i, B: j})) for i in R for j in R]
    bad = [(x, y) for x, a in ks for y, b in ks if (a == b) != (x == y) or (DictKey(f=a) == DictKey(f=b)) != (x == y)]
    c.true('equal exactly when the multiples are', not bad)
    c.true('distinct in sets', len({a for x, a in ks}) == len(ks) and len({DictKey(f=a) for x, a in ks}) == len(ks))


@S.case('keys made of keys that were hashed before', sym=False, arr=False, bounded=True, samples=400)
def _(c):
    from phasor.base.dictionary_keys import FrequencyKey, DictKey
    rng = np.random.RandomState(c.choice('seed', range(100000)))
    Fs = [F(n, 1.) for n in NAMES]
    ks = [({f: int(rng.randint(-2, 3)) for f in Fs[:rng.randint(4)]}) for _ in range(3)]
    ks = [(FrequencyKey(dict(d)), d) for d in ks]
    for _ in range(6):
        a, ad = ks[rng.randint(len(ks))]
        b, bd = ks[rng.randint(len(ks))]
        use = rng.randint(4)
        for k in (a, b)[:rng.randint(3)]:
            if use == 0:
                hash(k)
            elif use == 1:
                {k: 1}[k], repr(k)
            elif use == 2:
                hash(DictKey(f=k))
            else:
                k == a, k.DC_is()
        g = lambda x, f: x.get(f, 0)
        fs = set(ad) | set(bd)
        m = int(rng.randint(-2, 3))
        ks.append([lambda: (a + b, {f: g(ad, f) + g(bd, f) for f in fs}), lambda: (a - b, {f: g(ad, f) - g(bd, f) for f in fs}),
                   lambda: (-a, {f: -n for f, n in ad.items()}), lambda: (m * a, {f: m * n for f, n in ad.items()})][rng.randint(4)]())
    for k, d in ks:
        fresh = FrequencyKey(dict(d))
        c.true('equal to a fresh key', k == fresh and fresh == k)
        c.true('hash of a fresh key', hash(k) == hash(fresh) and {fresh: 1}.get(k) == 1 and {DictKey(f=k): 1}.get(DictKey(f=fresh)) == 1)
        c.true('text of a fresh key', repr(k) == repr(fresh))


# ---------------------------------------------------------------------------
def dkey(c, name):
    from phasor.base.dictionary_keys import DictKey
    d = {}
    for k in 'xyz':
        v = c.choice('%s.%s' % (name, k), [None, 1, 2])
        if v is not None:
            d[k] = v
    how = c.choice('made', [0, 1]) if len(d) else 0
    return (DictKey(dict(d)) if how == 0 else DictKey(**d)), d


@S.case('dictionary keys are immutable partial maps', sym=False, arr=False, bounded=True, samples=900)
def _(c):
    from phasor.base.dictionary_keys import DictKey
    a, ad = dkey(c, 'a')
    b, bd = dkey(c, 'b')
    c.true('reads', {k: a[k] for k in a} == ad and len(a) == len(ad) and all((k in a) == (k in ad) for k in 'xyz'))
    c.true('get', all(a.get(k, 'no') == ad.get(k, 'no') for k in 'xyz'))
    c.true('items', dict(a.items()) == ad and dict(a.iteritems()) == ad)
    c.true('equality', (a == b) == (ad == bd))
    if ad == bd:
        c.true('hash', hash(a) == hash(b))
    j = a | b
    c.true('a | b: b wins', dict(j.items()) == dict(ad, **bd))
    c.true('a & b: the common part', dict((a & b).items()) == {k: v for k, v in ad.items() if bd.get(k) == v})
    sub = all(ad.get(k) == v for k, v in bd.items())
    c.true('contains', a.contains(b) == sub and a.subkey_has(b) == sub)
    if sub:
        c.true('a - b: the rest', dict((a - b).items()) == {k: v for k, v in ad.items() if k not in bd})
    else:
        try:
            a - b
            c.true('a - b only of a part', False)
        except (AssertionError, KeyError):
            pass
    for k in 'xyz':
        for v in (1, 2):
            c.true('kv_contains', a.kv_contains(k, v) == (ad.get(k) == v))
    ks = c.choice('ks', [('x',), ('x', 'z'), (), ('q', 'y')])
    c.true('purge_keys', dict(a.purge_keys(*ks).items()) == {k: v for k, v in ad.items() if k not in ks})
    if all(k in ad for k in ks):
        c.true('without_keys', dict(a.without_keys(*ks).items()) == {k: v for k, v in ad.items() if k not in ks})
    else:
        try:
            a.without_keys(*ks)
            c.true('without_keys needs the keys', False)
        except KeyError:
            pass
    c.true('replace_keys', dict(a.replace_keys(b).items()) == dict(ad, **bd))
    c.true('replace_keys, later ones win', dict(a.replace_keys(b, {'x': 9}).items()) == dict(dict(ad, **bd), x=9))
    c.true('copy_update', dict(a.copy_update(x=5).items()) == dict(ad, x=5))
    c.true('operands unchanged', dict(a.items()) == ad and dict(b.items()) == bd)
    c.true('a key of a map', {a: 1}.get(DictKey(dict(ad))) == 1)
    import copy
    c.true('copies are equal', copy.copy(a) == a and copy.deepcopy(a) == a and hash(copy.deepcopy(a)) == hash(a))
    for q in (j, a & b, a.purge_keys('x'), a.replace_keys(b)):
        c.true('hash of results', hash(q) == hash(DictKey(dict(q.items()))) and q == DictKey(dict(q.items())))


@S.case('keys with frequencies inside', sym=False, arr=False, bounded=True, samples=300)
def _(c):
    from phasor.base.dictionary_keys import DictKey, FrequencyKey
    A, B = F('A'), F('B')
    v = [-1, 0, 1, 2]
    n = [c.choice('n%d' % k, v) for k in range(4)]
    mk = lambda p, q: DictKey({'F': FrequencyKey({f: m for f, m in ((A, p), (B, q))})})
    k1, k2 = mk(n[0], n[1]), mk(n[2], n[3])
    s = DictKey({'F': k1['F'] + k2['F']})
    w = mk(n[0] + n[2], n[1] + n[3])
    c.true('sum is the key of the sum', s == w and hash(s) == hash(w) and {s: 1}.get(w) == 1)
    c.true('distinct sums are distinct keys', (k1 == k2) == (n[:2] == n[2:]))
    back = DictKey({'F': s['F'] - k2['F']})
    c.true('returns', back == k1 and hash(back) == hash(k1))


def proofs():
    """contracts/keys.py: every operation at every entry, over keys of any size"""
    from phasor.base import dictionary_keys as M
    from contracts import keys as G
    return G.contracts(M)


unbounded.add(S, proofs)
