"""The keys an element asks for, against the couplings it makes (used by P07).

The couplings of every element of a system are recorded with every key known at every port.  They say which keys can arise from which:
forwards (a wave at this key leaves at that key) and backwards (to find this wave, that one is needed).  Then single keys are asked for
in fresh copies of the system, which must come out closed under the couplings: a key missing there is a coupling that is left out."""
import itertools
import warnings
from vc import phys
from vc.opt import OSys, okey
from vc.phys import Recorder, ckey


def optical_ports(sysm):
    out = set()
    for el in list(sysm.elements):
        if getattr(el, 'typename', None) == 'optical' and hasattr(el, 'bond_key'):
            out.add(el.i)
            out.add(el.o)
    return out


class Fake(object):
    sym = False

    def pos(self, *a, **k):
        return 1.


def asker():
    from phasor.base import SystemElementBase

    class Ask(SystemElementBase):
        wants = ()

        def system_setup_ports_initial(self, pa):
            for port, key in self.wants:
                pa.coherent_sources_needed(port, key)
    return Ask


def make(build):
    s = OSys(Fake(), wavelen=1., F_AC=.1)
    s.freq('F1', 1., order=1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        build(s)
        s.ask = s.add('zz_ask', asker()())
        s.sys._setup_sequence()
    # what is put at open ports must not carry keys around the element
    for el in s.sys.elements:
        if mute(el):
            object.__setattr__(el, 'system_setup_ports', lambda pa: None)
    return s


def mute(el):
    return el.name_child == 'terminator' and hasattr(el.parent, 'bond_key')


def run(s, wants):
    """the keys known at every port once these are asked for"""
    from phasor.system.ports_algorithm import PortUpdatesAlgorithm
    s.ask.wants = sorted(wants, key=repr)
    pa = PortUpdatesAlgorithm(system=s.sys)
    return {(p, k) for p in s.sys.port_owners for k in pa.port_set_get(p)}


def universe(s):
    F1, FA = s.sys.F1, s.sys.F_AC
    cl = []
    for n, m in itertools.product((-1, 0, 1), (-1, 0, 1)):
        cl.append({f: k for f, k in ((F1, n), (FA, m)) if k})
    C = {ckey(d) for d in cl}
    O = {okey(s.Fo, p, q, d, n) for d in cl for p in 'SP' for q in 'LR' for n in (1, 2)}
    return C, O


def couplings(s, U, only=None):
    """linear: [(pk, pk)], products: [(set of pk, pk)]"""
    C, O = U
    op = optical_ports(s.sys)
    from phasor.base.ports import PostBondKey
    bare = lambda pk: (pk[0].purge_keys(PostBondKey), pk[1])
    lin, prod = set(), set()
    # only the elements' own declarations: not what is bound
    sets = {p: {k for k in (O if p in op else C) if only is None or only(p, k)} for p in s.sys.port_owners}
    for el in sorted(s.sys.elements, key=lambda e: e.name_system):
        f = getattr(el, 'system_setup_coupling', None)
        if f is None or mute(el):
            continue
        r = Recorder(sets, default=C, system=s.sys)
        f(r)
        for (a, b), v in r.matrix().items():
            if v != 0:
                lin.add((bare(a), bare(b)))
        for pf, kf, pt, kt, v, vp in r.edges:
            if vp and v != 0:
                prod.add((frozenset(map(bare, [(pf, kf)] + list(vp))), bare((pt, kt))))
        for a, b, pk, v in r.triplets:
            if v != 0:
                prod.add((frozenset([bare(a), bare(b)]), bare(pk)))
        for inj in r.injections:
            for (a, b) in inj.edges_pkpk_dict:
                nz = inj.edges_NZ_pkset_dict[a, b]
                if nz:
                    prod.add((frozenset(map(bare, [a] + list(nz))), bare(b)))
    return lin, prod


def emitted(s, K):
    """what the elements put out by themselves, given what is known"""
    C, O = universe(s)
    sets = {p: set() for p in s.sys.port_owners}
    for p, k in K:
        sets[p].add(k)
    out = set()
    for el in sorted(s.sys.elements, key=lambda e: e.name_system):
        f = getattr(el, 'system_setup_coupling', None)
        if f is None or mute(el):
            continue
        r = Recorder(sets, default=C, system=s.sys)
        f(r)
        out |= {(pt, kt) for pt, kt, v, vp in r.sources if not vp and v != 0}
    return out


def missing(s, K, lin, prod):
    """what is implied by the known keys and not known"""
    out = []
    nb = neighbours(s)
    for p, k in K:
        for q in nb.get(p, ()):
            if (q, k) not in K:
                out.append(('bond', (p, k), (q, k)))
    for a, b in lin:
        if a in K and b not in K:
            out.append(('forward', a, b))
        if b in K and a not in K:
            out.append(('backward', b, a))
    for A, b in prod:
        if b not in K and all(x in K for x in A):
            out.append(('product', tuple(A), b))
    return out


def neighbours(s):
    from phasor.base.ports import PostBondKey
    nb = {}
    for p, qs in s.sys.bond_pairs.items():
        for q in qs:
            a, b = p.purge_keys(PostBondKey), q.purge_keys(PostBondKey)
            nb.setdefault(a, set()).add(b)
            nb.setdefault(b, set()).add(a)
    return nb


def family(k):
    """a key with the ones every readout asks for together with it"""
    from phasor.base.ports import ClassicalFreqKey
    from phasor.optics import ports as op
    out = {k, k.replace_keys({ClassicalFreqKey: -k[ClassicalFreqKey]})}
    if op.QuantumKey in k._dict:
        out = {n.without_keys(op.QuantumKey) | q for n in out for q in (op.RAISE, op.LOWER)}
    return out
