"""contract of scipy.sparse csc_matrix/spsolve on exact scalars: A x = b"""
import numpy as np
from .sym import SV
from . import paths


class Csc(object):
    ndim = 2

    def __init__(self, arg, shape, dtype=None):
        data, (row, col) = arg
        self.shape = shape
        self.m = {}
        for v, i, j in zip(data, row, col):
            assert 0 <= i < shape[0] and 0 <= j < shape[1]
            if isinstance(v, np.ndarray):
                v = v.item()
            self.m[i, j] = self.m.get((i, j), 0) + v        # duplicates are summed


class Solution(object):
    def __init__(self, cols):
        self.indptr, self.indices, self.data = [0], [], []
        for col in cols:
            for i, v in enumerate(col):
                if not (isinstance(v, int) and v == 0):
                    self.indices.append(i)
                    self.data.append(v)
            self.indptr.append(len(self.data))


def det(M):
    n = len(M)
    if n == 0:
        return SV.lift(1)
    t = SV.lift(0)
    for j in range(n):
        if SV.lift(M[0][j]).is_zero():
            continue
        d = det([r[:j] + r[j + 1:] for r in M[1:]])
        t = t + (M[0][j] * d if j % 2 == 0 else -(M[0][j] * d))
    return t


def spsolve(A, b):
    n = A.shape[0]
    M = [[SV.lift(A.m.get((i, j), 0)) for j in range(n)] for i in range(n)]
    D = det(M)
    paths.note_division(D)
    Di = D.inv()
    cols = []
    for k in range(b.shape[1]):
        rhs = [SV.lift(b.m.get((i, k), 0)) for i in range(n)]
        x = []
        for j in range(n):
            x.append(det([M[i][:j] + [rhs[i]] + M[i][j + 1:] for i in range(n)]) * Di)
        cols.append(x)
    if b.shape[1] == 1:
        r = np.empty(n, dtype=object)
        for i, v in enumerate(cols[0]):
            r[i] = v
        return r
    return Solution(cols)


class contract(object):
    """the module of /repo runs against the contract while inside"""

    def __init__(self, module):
        self.mod = module

    def __enter__(self):
        m = self.mod
        self.saved = m.scisparse, m.scisparselin, m.np

        class sp(object):
            csc_matrix = Csc

        class lin(object):
            pass
        lin.spsolve = staticmethod(spsolve)

        class Np(object):
            def __getattr__(s, k):
                return getattr(self.saved[2], k)

            def common_type(s, *a):
                return self.saved[2].dtype(object)
        m.scisparse, m.scisparselin, m.np = sp, lin, Np()

    def __exit__(self, *a):
        self.mod.scisparse, self.mod.scisparselin, self.mod.np = self.saved
