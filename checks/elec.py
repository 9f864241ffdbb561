"""port variables of electrical elements: V = a + b, I (into the element) = (a - b)/Z0"""
import numpy as np
from vc.phys import Sys, record, ckey   # noqa


def freqs(c, s):
    """a key of arbitrary harmonic content, its frequency, and other keys around"""
    f1, f2 = c.pos('f1'), c.real('f2')
    F1, F2 = s.freq('F1', f1), s.freq('F2', f2)
    n1 = c.choice('n1', [1, 0, -1, 2])
    n2 = c.choice('n2', [0, 1, -2])
    d = {}
    if n1:
        d[F1] = n1
    if n2:
        d[F2] = n2
    return ckey(d), n1 * f1 + n2 * f2, [ckey({F1: 1}), ckey({F2: 1}), ckey({F1: 3})]


def drive(c, el, ports, key, others, sig_in=(), sig_out=(), Z0=None):
    """drive every port with an arbitrary wave and every signal input with an
    arbitrary signal: port voltages, port currents, incident waves, signal in,
    signal out, all at key"""
    keys = {key} | set(others)
    r = record(el, keys)
    M = r.matrix()
    for (pkf, pkt), v in M.items():
        if pkf[1] != pkt[1]:
            c.eq('no conversion between frequencies', v, 0)
    if Z0 is None:
        Z0 = el.Ze_termination
    a = [c.cplx('a%d' % i) for i in range(len(ports))]
    x = [c.cplx('x%d' % i) for i in range(len(sig_in))]
    ins = [(p.i, v) for p, v in zip(ports, a)] + [(p, v) for p, v in zip(sig_in, x)]

    def out(pk):
        b = 0
        for p, v in ins:
            b = b + M.get(((p, key), (pk, key)), 0) * v
        return b
    V, I = [], []
    for j, q in enumerate(ports):
        b = out(q.o)
        V.append(a[j] + b)
        I.append((a[j] - b) / Z0)
    y = [out(p) for p in sig_out]
    sc = None if c.sym else 1e3 * (1 + sum(abs(v) for v in a + x))
    return V, I, a, x, y, sc, r


def w(c, f):
    return 2 * np.pi * f
