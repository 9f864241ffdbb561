"""A custom element of the real system: in-ports, out-ports and any declared
couplings, sources, products and frequency conversions between them.

Every out-port b is bonded to the in-port b, so the declared system is
    x[b, k] = sum_a M[a, b] x[a, k] + s[b, k]   (+ products)
over the values x at the out-ports.
"""
from .phys import Sys, ckey, install

_cls = {}


def classes():
    install()
    if _cls:
        return _cls['Net']
    from phasor.base import CouplerBase, SystemElementBase
    from phasor.signals import ports

    class Net(CouplerBase, SystemElementBase):
        def __init__(self, n, keys, edges=(), sources=(), triplets=(), medges=(), msources=(), injections=(),
                     drives=(), reads=(), **kw):
            super().__init__(**kw)
            self.n_ = n
            self.keys_ = keys            # the frequencies of the problem
            self.edges_ = edges          # (a, ka, b, kb, value)
            self.sources_ = sources      # (b, kb, value)
            self.triplets_ = triplets    # (a1, k1, a2, k2, b, kb, value)
            self.medges_ = medges        # (a, ka, b, kb, value, [(c, kc)...])
            self.msources_ = msources    # (b, kb, value, [(c, kc)...])
            self.injections_ = injections    # functions of (net) -> injection
            self.drives_ = drives        # (b, kb)
            self.reads_ = reads
            for k in range(n):
                self.insert(ports.SignalInPort(), 'pI%d' % k)
                self.insert(ports.SignalOutPort(), 'pO%d' % k)

        def I(self, k):
            return getattr(self, 'pI%d' % k).i

        def O(self, k):
            return getattr(self, 'pO%d' % k).o

        def system_setup_ports_initial(self, pa):
            for b in range(self.n_):
                for k in self.keys_:
                    pa.coherent_sources_needed(self.O(b), k)
                    pa.coherent_sources_needed(self.I(b), k)
            for b, k in self.drives_:
                pa.drive_port_needed(self.O(b), k, ['drv'])
            for b, k in self.reads_:
                pa.readout_port_needed(self.O(b), k, ['read'])

        def system_setup_ports(self, pa):
            pass

        def system_setup_coupling(self, m):
            for a, ka, b, kb, v in self.edges_:
                m.port_coupling_insert(self.I(a), ka, self.O(b), kb, v)
            for b, k, v in self.sources_:
                m.coherent_sources_insert(self.O(b), k, v)
            for a1, k1, a2, k2, b, k, v in self.triplets_:
                m.nonlinear_triplet_insert((self.I(a1), k1), (self.I(a2), k2), (self.O(b), k), v)
            for a, ka, b, kb, v, vp in self.medges_:
                m.port_coupling_insert(self.I(a), ka, self.O(b), kb, v, *[(self.I(p), k) for p, k in vp])
            for b, k, v, vp in self.msources_:
                m.coherent_sources_insert(self.O(b), k, v, *[(self.I(p), kp) for p, kp in vp])
            for f in self.injections_:
                m.injection_insert(f(self))

    _cls['Net'] = Net
    return Net


class Problem(object):
    def __init__(self, c, n, build, bonds=None, **kw):
        """build(problem) -> keywords of Net, once the system (and its frequencies) exists"""
        Net = classes()
        self.c = c
        self.s = Sys(c, **kw)
        self.k0 = self.s.kDC()
        self.kp, self.km = self.s.kAC(1), self.s.kAC(-1)
        self.n = n
        self.net = self.s.add('net', Net(n, **build(self)))
        for o, i in ([(k, k) for k in range(n)] if bonds is None else bonds):
            self.s.sys.bond(getattr(self.net, 'pO%d' % o), getattr(self.net, 'pI%d' % i))

    @property
    def solver(self):
        return self.s.sys.solution

    def x(self, b, k, readout='read', N=None):
        sol = self.solver.driven_solution_get(readout_set=readout, N=N).solution
        v = sol.get((self.net.O(b), k), 0)
        return v.item() if getattr(v, 'shape', None) == () else v

    def G(self, a, ka, b, kb, N=-1):
        cb = self.solver.coupling_solution_get('drv', 'read', N=N)
        v = cb.coupling_matrix_inv.get(((self.net.O(a), ka), (self.net.O(b), kb)), 0)
        return v.item() if getattr(v, 'shape', None) == () else v

    def pk(self, kind, b, k):
        return (getattr(self.net, kind)(b), k)
