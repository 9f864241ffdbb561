"""P04: keyed sparse matrices and vectors follow matrix algebra."""
import itertools
import random
import numpy as np
from vc.harness import Suite
from vc import phys, graphs, unbounded
from vc.graphs import maps

S = Suite('P04')
phys.install()


def sre(em, plain):
    seq, req = maps(em)
    if plain:
        seq, req = dict(seq), dict(req)
    return seq, req, dict(em)


def sub(c, name, A, B, n=None, real=False):
    """a keyed matrix of any sparsity"""
    m = {}
    for a in A:
        for b in B:
            if c.choice('%s%s%s' % (name, a, b), [1, 0]):
                m[a, b] = (c.real if real else c.cplx)('%s%s%s' % (name, a, b))
    return m


def consistent(c, s, em):
    seq, req, e = s
    c.true('edges are the adjacency', {(a, b) for a in seq for b in seq[a]} == set(e))
    c.true('backward adjacency mirrors forward', {(a, b) for b in req for a in req[b]} == set(e))


@S.case('matrix_mult_sre is the matrix product', arr=True, samples=80)
def _(c):
    from phasor.matrix import SRE_matrix_algorithms as R
    A, B, C = ['a0', 'a1'], ['m0', 'm1'], ['c0', 'c1']
    if c.sym:
        # one row times one column, and one column times one row, decide every entry
        if c.choice('orient', [0, 1]):
            A = A[:1]
        else:
            C = C[:1]
    m1, m2 = sub(c, 'p', A, B), sub(c, 'q', B, C)
    r = R.matrix_mult_sre(sre(m1, c.choice('plain', [0, 1])), sre(m2, 0))
    consistent(c, r, r[2])
    for a in A:
        for d in C:
            w = 0
            for b in B:
                w = w + m1.get((a, b), 0) * m2.get((b, d), 0)
            c.eq('sum over the shared keys', r[2].get((a, d), 0), w)
    c.true('no other entries', all(a in A and d in C for a, d in r[2]))


@S.case('products compose (three factors, over the same keys)', arr=False, samples=60)
def _(c):
    from phasor.matrix import SRE_matrix_algorithms as R
    A = ['x', 'y']
    full = [(a, b) for a in A for b in A]
    ms = []
    for k in range(3):
        hole = c.choice('hole%d' % k, [None] + full)
        ms.append({e: c.real('v%d%s%s' % ((k,) + e)) for e in full if e != hole and not (hole == ('x', 'x') and e == ('y', 'x'))})
    r = R.matrix_mult_sre(R.matrix_mult_sre(sre(ms[0], 1), sre(ms[1], 1)), sre(ms[2], 1))
    for a in A:
        for d in A:
            w = 0
            for p in A:
                for q in A:
                    w = w + ms[0].get((a, p), 0) * ms[1].get((p, q), 0) * ms[2].get((q, d), 0)
            c.eq('product of three', r[2].get((a, d), 0), w)


@S.case('adjoint_sre is the conjugate transpose', arr=True)
def _(c):
    from phasor.matrix import SRE_matrix_algorithms as R
    m = sub(c, 'p', ['a', 'b'], ['b', 'd'])
    s = sre(m, c.choice('plain', [0, 1]))
    r = R.adjoint_sre(s)
    consistent(c, r, r[2])
    c.true('transposed keys', set(r[2]) == {(b, a) for a, b in m})
    for (a, b), v in m.items():
        c.eq('conjugated', r[2].get((b, a), 0), v.conjugate() if hasattr(v, 'conjugate') else np.conj(v))
        c.eq('original kept', s[2][a, b], v)
    q = R.copy_sre(s)
    for k in q[0]:
        q[0][k].clear()
    q[2].clear()
    c.true('copy is independent', set(s[2]) == set(m) and {(a, b) for a in s[0] for b in s[0][a]} == set(m))


@S.case('edge_matrix_to_unitary_sre: orthonormal columns', sym=False, arr=False, bounded=True, samples=100)
def _(c):
    unitary(c, 2 if c.sym else c.choice('n', [2, 3, 4]))


def unitary(c, n):
    from phasor.matrix import SRE_matrix_algorithms as R
    F, T = ['f%d' % k for k in range(n)], ['t%d' % k for k in range(n)]
    m = {}
    for f in F:
        for t in T:
            if f[1] == t[1] or c.choice('e%s%s' % (f, t), [1, 0]):
                m[f, t] = c.real('v%s%s' % (f, t)) if c.sym else c.cplx('v%s%s' % (f, t))
    if 1:
        M = np.array([[complex(m.get((f, t), 0)) for f in F] for t in T])
        if np.linalg.cond(M) > 1e3:
            from vc.harness import Skip
            raise Skip()
    r = R.edge_matrix_to_unitary_sre(dict(m))
    c.true('found', r is not None)
    e = r[2]
    cj = lambda x: x.conjugate() if hasattr(x, 'conjugate') else np.conj(x)
    for f in F:
        for g in F:
            w = 0
            for t in T:
                w = w + cj(e.get((f, t), 0)) * e.get((g, t), 0)
            c.eq('orthonormal', w, 1 if f == g else 0, scale=None if c.sym else 100)
    # each column is in the span of the first ones: the rest of the new basis does not see it
    for i, f in enumerate(F):
        for g in F[i + 1:]:
            w = 0
            for t in T:
                w = w + cj(e.get((g, t), 0)) * m.get((f, t), 0)
            c.eq('same span', w, 0, scale=None if c.sym else 100)


@S.case('the unitary is inverted by its adjoint', sym=False, arr=False, bounded=True, samples=60)
def _(c):
    from phasor.matrix import SRE_matrix_algorithms as R
    from vc.harness import Skip
    n = c.choice('n', [1, 2, 3, 5])
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    M = (rng.randn(n, n) + 1j * rng.randn(n, n)) * (rng.rand(n, n) < .6)
    if n == 0 or np.linalg.matrix_rank(M) < n or np.linalg.cond(M) > 1e4:
        raise Skip()
    # each column in units of its own, which its normalization does not see
    un = [10.**c.choice('unit%d' % i, [0, -8, 6, -4, -11]) for i in range(n)]
    m = {('f%d' % i, 't%d' % j): M[i, j] * un[i] for i in range(n) for j in range(n) if M[i, j] != 0}
    u = R.edge_matrix_to_unitary_sre(m)
    one = R.matrix_mult_sre(u, R.adjoint_sre(u))
    for i in range(n):
        for j in range(n):
            c.eq('U U+ = 1', one[2].get(('f%d' % i, 'f%d' % j), 0), 1 if i == j else 0, scale=1e4)
    # and it spans what the columns span, one after the other
    for i in range(n):
        for j in range(i + 1, n):
            c.eq('same span', sum(np.conj(u[2].get(('f%d' % j, 't%d' % k), 0)) * M[i, k] for k in range(n)), 0, scale=1e6)


# ---------------------------------------------------------------------------
@S.case('key spaces number their keys', sym=False, bounded=True, arr=False, samples=80)
def _(c):
    from phasor.math.key_matrix import KVSpace
    rng = __import__('random').Random(c.choice('seed', range(30000)))
    tup = rng.random() < .5
    keys = rng.sample([('k', i) if tup else 'k%d' % i for i in range(12)], rng.randrange(0, 8))
    s = KVSpace(name='s', keys=keys[:2], dtype=np.complex128)
    s.keys_add(*keys[2:])
    c.true('length', len(s) == len(keys))
    t = s.copy()
    t.keys_add('other')
    c.true('copies are independent', 'other' not in s and 'other' in t)
    c.true('a bijection', sorted(s.key_map(k) for k in keys) == list(range(len(keys))))
    c.true('inverse of each other', all(s.idx_map(s.key_map(k)) == k for k in keys))
    c.true('all keys', sorted(s.idx_map_full()) == sorted(keys))
    c.true('frozen on use', s.frozen_is())
    for k in keys:
        s.keys_add(k)
        c.true('contains', k in s)
    try:
        s.keys_add('new')
        c.true('frozen spaces refuse new keys', False)
    except RuntimeError:
        pass
    c.true('iterates its keys', set(s.keys_iter()) == set(keys))
    i = s.inverse()
    c.true('dual space', i.inverse() is s and s.inverse() is i and i.contravariant != s.contravariant and len(i) == len(s))


def spaces(c):
    from phasor.math.key_matrix import KVSpace
    n, m = c.choice('nf', [1, 2, 3]), c.choice('nt', [1, 2])
    return KVSpace('f', ['f%d' % k for k in range(n)], dtype=object if c.sym else np.complex128), \
        KVSpace('t', ['t%d' % k for k in range(m)], dtype=object if c.sym else np.complex128)


@S.case('KeyMatrix: sum, difference, array layout and back', arr=True, samples=60)
def _(c):
    from phasor.math.key_matrix import KeyMatrix
    F, T = spaces(c)
    a, b = KeyMatrix(F, T), KeyMatrix(F, T)
    va, vb = sub(c, 'a', sorted(F._key_set), sorted(T._key_set)), {}
    pat = c.choice('b', ['same', 'all', 'diag', 'none'])
    for f in sorted(F._key_set):
        for t in sorted(T._key_set):
            if pat == 'all' or (pat == 'same' and (f, t) in va) or (pat == 'diag' and f[1] == t[1]):
                vb[f, t] = c.cplx('b' + f + t)
    for k, v in va.items():
        a[k] = v
    b.fill_from_pair_map(vb)
    s, d = a + b, a - b
    arr = a.array
    shape = np.asarray(arr).shape
    c.true('rows are the to keys, columns the from keys', shape[-2:] == (len(T), len(F)))
    dup = a.array
    for f in sorted(F._key_set):
        for t in sorted(T._key_set):
            c.eq('sum', s.get(f, t, 0), va.get((f, t), 0) + vb.get((f, t), 0))
            c.eq('difference', d.get(f, t, 0), va.get((f, t), 0) - vb.get((f, t), 0))
            c.eq('operands unchanged', a.get(f, t, 0), va.get((f, t), 0))
            x = arr[..., T.key_map(t), F.key_map(f)]
            c.eq('entry of the array', x.item() if c.sym else x, va.get((f, t), 0))
    c.true('iteration', {(f, t) for f, t, v in a} == set(va))
    if not c.sym:
        back = a.backmap_array(arr)
        for f in F.keys_iter():
            for t in T.keys_iter():
                c.eq('array and back', back.get(f, t, 0), va.get((f, t), 0))
    # a changed entry changes the array
    k = ('f0', 't0')
    a[k] = 7
    y = a.array[..., T.key_map('t0'), F.key_map('f0')]
    c.eq('array follows assignment', np.asarray(y).flatten()[0] if not c.sym else y.item(), 7)


@S.case('KeyVector: sums, array and back', arr=True, samples=60)
def _(c):
    from phasor.math.key_matrix import KeyVector
    F, T = spaces(c)
    v = KeyVector(F)
    ref = {}
    for f in sorted(F._key_set):
        if c.choice('h' + f, [1, 0]):
            ref[f] = c.cplx('v' + f)
            v[f] = ref[f]
    for k in range(2):
        f = c.choice('add%d' % k, sorted(F._key_set))
        w = c.cplx('w%d' % k)
        v.add_by(f, w)
        ref[f] = ref[f] + w if f in ref else w
    arr = v.array
    for f in sorted(F._key_set):
        c.eq('entries', v.get(f, 0), ref.get(f, 0))
        x = arr[..., F.key_map(f)]
        c.eq('array', x.item() if c.sym else x, ref.get(f, 0))
    if not c.sym:
        b = v.backmap_vector(arr)
        for f in F.keys_iter():
            c.eq('array and back', b.get(f, 0), ref.get(f, 0))
    c.true('keys', set(v.keys()) == set(ref) and len(v) == len(ref))


@S.case('arrays follow every history of changes', arr=True, samples=80, limit=(60, 200))
def _(c):
    from phasor.math.key_matrix import KeyMatrix, KeyVector, KVSpace
    dt = object if c.sym else np.complex128
    F, T = KVSpace('f', ['f0', 'f1'], dtype=dt), KVSpace('t', ['t0', 't1'], dtype=dt)
    m, v = KeyMatrix(F, T), KeyVector(F)
    ref, vref = {}, {}
    item = lambda x: x.item() if c.sym else x

    def check(n):
        A, B = m.array, v.array
        for f in ('f0', 'f1'):
            c.eq('%d: vector array' % n, item(B[..., F.key_map(f)]), vref.get(f, 0))
            for t in ('t0', 't1'):
                c.eq('%d: matrix array' % n, item(A[..., T.key_map(t), F.key_map(f)]), ref.get((f, t), 0))
        c.true('%d: length' % n, len(m) == len(ref) and len(v) == len(vref) and set(m.keys()) == set(ref))
    k0 = ('f0', 't0')
    m[k0] = ref[k0] = c.cplx('m0')
    v['f0'] = vref['f0'] = c.cplx('v0')
    check(0)
    for n in range(1, 3 if c.sym else 5):
        op = c.choice('op%d' % n, ['set', 'multiply_by', 'del', 'set_nullable', 'pairs', 'nested'])
        k = ('f0', c.choice('t%d' % n, ['t0', 't1']))
        x, y = c.cplx('x%d' % n), c.cplx('y%d' % n)
        if op == 'set':
            m[k] = ref[k] = x
            v[k[0]] = vref[k[0]] = y
        elif op == 'multiply_by':
            m.multiply_by(k[0], k[1], x)
            ref[k] = ref[k] * x if k in ref else x
            v.add_by(k[0], y)
            vref[k[0]] = vref[k[0]] + y if k[0] in vref else y
        elif op == 'del':
            if k in ref:
                del m[k], ref[k]
            if k[0] in vref:
                del v[k[0]], vref[k[0]]
        elif op == 'set_nullable':
            c.true('known keys are set', m.set_nullable(k[1], k[0], x) is True)
            c.true('unknown keys are refused', m.set_nullable('zz', k[0], x) is False)
            ref[k] = x
        elif op == 'pairs':
            m.fill_from_pair_map({k: x, ('f1', 't1'): y})
            ref[k], ref['f1', 't1'] = x, y
        else:
            m.fill_from_nested_map({'f0': {k[1]: x}, 'f1': {'t0': y}})
            ref[k], ref['f1', 't0'] = x, y
        check(n)


@S.case('identity matrix', sym=False, arr=False, bounded=True)
def _(c):
    from phasor.math.key_matrix import KVSpace, key_matrix_eye
    n = c.choice('n', [1, 2, 5])
    s = KVSpace('f', ['f%d' % k for k in range(n)], frozen=True)
    e = key_matrix_eye(s)
    c.true('identity', np.array_equal(e.array, np.eye(n)))


@S.case('larger products and adjoints, against numpy', sym=False, arr=False, bounded=True, samples=300)
def _(c):
    from phasor.matrix import SRE_matrix_algorithms as R
    r = random.Random(int(c.real('seed', lo=0, hi=1e9)))
    n = [r.randint(1, 7) for _ in range(3)]
    p = r.choice([.15, .4, .8])
    K = [['%s%d' % (x, i) for i in range(k)] for x, k in zip('abc', n)]
    v = lambda: complex(r.gauss(0, 1), r.gauss(0, 1)) if r.random() < .8 else 0.
    m1 = {(a, b): v() for a in K[0] for b in K[1] if r.random() < p}
    m2 = {(a, b): v() for a in K[1] for b in K[2] if r.random() < p}
    s1, s2 = sre(m1, r.random() < .5), sre(m2, r.random() < .5)
    o = R.matrix_mult_sre(s1, s2)
    consistent(c, o, o[2])
    arr = lambda m, A, B: np.array([[m.get((a, b), 0) for b in B] for a in A])
    c.true('the product', np.allclose(arr(o[2], K[0], K[2]), arr(m1, K[0], K[1]) @ arr(m2, K[1], K[2])))
    c.true('entries where terms are', set(o[2]) == {(a, d) for a, b in m1 for e, d in m2 if b == e})
    c.true('the factors stay', s1[2] == m1 and s2[2] == m2)
    h = R.adjoint_sre(s1)
    consistent(c, h, h[2])
    c.true('the adjoint', h[2] == {(b, a): x.conjugate() for (a, b), x in m1.items()})
    k = R.copy_sre(s1)
    consistent(c, k, k[2])
    c.true('the copy', k[2] == m1 and k[2] is not s1[2])


def proofs():
    """contracts/sre.py: sums over all shared keys, adjoint, copy, over every sparsity"""
    from phasor.matrix import SRE_matrix_algorithms as M
    from contracts import sre as G
    return G.contracts(M)


unbounded.add(S, proofs)
