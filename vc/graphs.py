"""keyed linear systems over small graphs: generation, reference solution, invariants"""
import collections
import contextlib
import io
import random


def node(i):
    from phasor.base import DictKey
    return (DictKey(p='n%d' % i), DictKey(k=0))


def maps(edges):
    seq = collections.defaultdict(set)
    req = collections.defaultdict(set)
    for a, b in edges:
        seq[a].add(b)
        req[b].add(a)
    return seq, req


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


class Problem(object):
    """x = M x + s (scattering) or M x = s, over concrete numbers"""

    def __init__(self, seed, scattering=None, zeros=True, nmax=9, order=None):
        r = self.rng = random.Random(seed)
        n = r.choice([k for k in (1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 12) if k <= nmax])
        self.arr = r.choice([0, 0, 3])
        self.nodes = [node(i) for i in range(n)]
        self.e = {}
        dens = r.choice([.15, .3, .5, .9])
        style = r.random()
        perm = list(range(n))
        r.shuffle(perm)
        for i, a in enumerate(self.nodes):
            for j, b in enumerate(self.nodes):
                if r.random() < dens or (style < .2 and perm[i] == j):
                    self.e[a, b] = self.value(zeros and style < .6)
        self.sc = (r.random() < .7) if scattering is None else scattering
        self.neg = r.random() < .3
        self.outs = [x for x in self.nodes if r.random() < .6]
        self.ins = [x for x in self.nodes if r.random() < .5]
        self.imap = {x: self.value(False) for x in self.nodes if r.random() < .5}
        if r.random() < .2:
            self.imap = None
        self.pin, self.pout = r.random() < .7, r.random() < .7
        self.t = {x: 1. for x in self.nodes}

    def units(self, decades):
        """each node in a unit of its own"""
        self.t = {x: 10. ** self.rng.uniform(-decades, decades) for x in self.nodes}

    def value(self, zeros):
        import numpy as np
        r = self.rng

        def v():
            if zeros and r.random() < .5:
                return r.choice([1, -1, .5, 1j, 0., -1j, .5])
            return complex(r.gauss(0, 1), r.gauss(0, 1))
        if self.arr and r.random() < .6:
            return np.array([v() for _ in range(self.arr)])
        return v()

    def reference(self):
        """inverse matrix [k, to, from], None if (nearly) singular"""
        import numpy as np
        n = len(self.nodes)
        M = np.zeros((max(self.arr, 1), n, n), complex)
        idx = {x: i for i, x in enumerate(self.nodes)}
        for (a, b), v in self.e.items():
            M[:, idx[b], idx[a]] = v
        if self.sc:
            M = np.eye(n) - M
        if np.max(np.linalg.cond(M)) > 1e5:
            return None
        W = np.linalg.inv(M)
        return -W if self.neg else W

    def solve(self, f, **kw):
        seq, req = maps(self.e)
        t = self.t
        args = dict(seq=seq, req=req, edge_map={(a, b): v * (t[b] / t[a]) for (a, b), v in self.e.items()}, outputs_set=set(self.outs), inputs_set=set(self.ins),
                    inputs_map=None if self.imap is None else {x: v * t[x] for x, v in self.imap.items()}, purge_in=self.pin, purge_out=self.pout,
                    scattering=self.sc, negative=self.neg)
        args.update(kw)
        with quiet():
            return f(**args)

    def check(self, c, b, W):
        import numpy as np
        idx = {x: i for i, x in enumerate(self.nodes)}
        S = float(np.max(abs(W)))
        for o in self.outs:
            for i in self.ins:
                c.eq('drive to readout', b.edge_map.get((i, o), 0) * (self.t[i] / self.t[o]) + np.zeros(max(self.arr, 1)), W[:, idx[o], idx[i]], scale=100 * S)
            if self.imap is not None:
                want = 0
                sc = 0
                for i, v in self.imap.items():
                    want = want + W[:, idx[o], idx[i]] * v
                    sc = sc + S * np.max(abs(np.asarray(v)))
                c.eq('sourced solution', (b.outputs_map or {}).get(o, 0) / self.t[o] + np.zeros(max(self.arr, 1)), want + np.zeros(max(self.arr, 1)), scale=100 * sc)
        for (i, o) in b.edge_map:
            c.true('only requested couplings', i in self.ins and o in self.outs)
        for i in b.seq:
            for o in b.seq[i]:
                if (i, o) in b.edge_map:
                    c.true('req mirrors seq', i in b.req[o])
        for o in (b.outputs_map or {}):
            c.true('only requested readouts', o in self.outs)


# -- symbolic graphs --------------------------------------------------------
class SGraph(object):
    """SRABE state with independent symbolic values on the edges of a shape"""

    def __init__(self, c, n, edges, alpha, beta, direct, real=False):
        self.c = c
        self.N = [node(i) for i in range(n)]
        val = c.real if real else c.cplx
        self.e = {}
        for i, j in sorted(edges):
            self.e[self.N[i], self.N[j]] = val('m%d%d' % (i, j))
        self.A = [('INPUT', 'a%d' % k) for k in range(1 + max([k for k, _ in alpha] + [k for k, _ in direct] + [-1]))]
        self.B = [('OUTPUT', 'b%d' % k) for k in range(1 + max([k for _, k in beta] + [k for _, k in direct] + [-1]))]
        for k, j in sorted(alpha):
            self.e[self.A[k], self.N[j]] = val('al%d%d' % (k, j))
        for i, k in sorted(beta):
            self.e[self.N[i], self.B[k]] = val('be%d%d' % (i, k))
        for k, l in sorted(direct):
            self.e[self.A[k], self.B[l]] = val('d%d%d' % (k, l))

    def state(self):
        D = collections.defaultdict
        seq, req, ra, sb = D(set), D(set), D(set), D(set)
        for n in self.N:
            seq[n], req[n]
        for (a, b) in self.e:
            inp, out = a in self.A, b in self.B
            if inp:
                ra[b].add(a)
            if out:
                sb[a].add(b)
            if not inp and not out:
                seq[a].add(b)
                req[b].add(a)
        return seq, req, ra, sb, dict(self.e)


def well_formed(c, st, A, B):
    """the five maps describe one graph"""
    seq, req, ra, sb, em = st
    for n in seq:
        for m in seq[n]:
            c.true('edge of seq is in req', n in req.get(m, ()))
            c.true('edge of seq has a value', (n, m) in em)
    for n in req:
        for m in req[n]:
            c.true('edge of req is in seq', n in seq.get(m, ()))
    for n in ra:
        for m in ra[n]:
            c.true('alpha edge has a value', (m, n) in em)
    for n in sb:
        for m in sb[n]:
            c.true('beta edge has a value', (n, m) in em)
    for (a, b) in em:
        if a in A and b in B:
            ok = b in sb.get(a, ())
        elif a in A:
            ok = a in ra.get(b, ())
        elif b in B:
            ok = b in sb.get(a, ())
        else:
            ok = b in seq.get(a, ())
        c.true('value has its edge', ok)
