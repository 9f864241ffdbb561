"""P07: every frequency that can arise at a port is resolved there, and no others."""
import itertools
import numpy as np
from vc.harness import Suite, Skip
from vc import phys, net, unbounded
from vc.phys import Sys, ckey
from checks import closure as closure_of

S = Suite('P07')
phys.install()
_cls = {}


def Conv():
    """an element with conversion rules; records what it was told"""
    if _cls:
        return _cls['C']
    from phasor.base import CouplerBase, SystemElementBase
    from phasor.signals import ports

    class Conv(CouplerBase, SystemElementBase):
        def __init__(self, nin, nout, rules=(), products=(), needs=(), reads=(), drives=(), virtual=(), **kw):
            super().__init__(**kw)
            self.rules_, self.products_, self.needs_, self.reads_, self.drives_ = rules, products, needs, reads, drives
            self.virtual_ = virtual      # functions of () -> port key, owned by another element
            self.nin, self.nout = nin, nout
            self.seen_v = {}
            for k in range(nin):
                self.insert(ports.SignalInPort(), 'pI%d' % k)
            for k in range(nout):
                self.insert(ports.SignalOutPort(), 'pO%d' % k)
            for f in virtual:
                self.system.own_port_virtual(self, f())

        def I(self, k):
            return getattr(self, 'pI%d' % k).i

        def O(self, k):
            return getattr(self, 'pO%d' % k).o

        def system_setup_ports_initial(self, pa):
            for io, k, key in self.needs_:
                pa.coherent_sources_needed(getattr(self, io)(k), key)
            for k, key, sets in self.reads_:
                pa.readout_port_needed(self.O(k), key, sets)
            for k, key, sets in self.drives_:
                pa.drive_port_needed(self.O(k), key, sets)

        def system_setup_ports(self, pa):
            for a, b, d in self.rules_:
                for k in pa.port_update_get(self.I(a)):
                    kn = shift(k, d)
                    if not self.system.reject_classical_frequency_order(fk(kn)):
                        pa.port_coupling_needed(self.O(b), kn)
                for k in pa.port_update_get(self.O(b)):
                    kn = shift(k, -d)
                    if not self.system.reject_classical_frequency_order(fk(kn)):
                        pa.port_coupling_needed(self.I(a), kn)
            for a1, a2, b in self.products_:
                for k1, k2 in pa.symmetric_update(self.I(a1), self.I(a2)):
                    kn = shift(k1, fk(k2))
                    if not self.system.reject_classical_frequency_order(fk(kn)):
                        pa.port_coupling_needed(self.O(b), kn)
            for f in self.virtual_:
                for k in pa.port_update_get(f()):
                    self.seen_v.setdefault(f(), set()).add(k)

    _cls['C'] = Conv
    return Conv


def fk(key):
    from phasor.base.ports import ClassicalFreqKey
    return key[ClassicalFreqKey]


def shift(key, d):
    from phasor.base.ports import ClassicalFreqKey, DictKey
    return DictKey({ClassicalFreqKey: key[ClassicalFreqKey] + d})


def closure(els, bonds, start, limits):
    """the least fixed point, computed independently: F as tuples over named frequencies"""
    K = {p: set() for e in els for p in e['ports']}
    nb = {p: set() for p in K}
    for a, b in bonds:
        nb[a].add(b)
        nb[b].add(a)
    for p, k in start:
        K[p].add(k)
    ok = lambda k: all(abs(n) <= l for n, l in zip(k, limits))
    change = True
    while change:
        change = False

        def add(p, k):
            if k not in K[p]:
                K[p].add(k)
                return True
            return False
        for p in K:
            for q in nb[p]:
                for k in list(K[p]):
                    change |= add(q, k)
        for e in els:
            for a, b, d in e['rules']:
                pa, pb = (e['id'], 'I', a), (e['id'], 'O', b)
                for k in list(K[pa]):
                    n = tuple(x + y for x, y in zip(k, d))
                    if ok(n):
                        change |= add(pb, n)
                for k in list(K[pb]):
                    n = tuple(x - y for x, y in zip(k, d))
                    if ok(n):
                        change |= add(pa, n)
            for a1, a2, b in e['products']:
                for k1 in list(K[e['id'], 'I', a1]):
                    for k2 in list(K[e['id'], 'I', a2]):
                        n = tuple(x + y for x, y in zip(k1, k2))
                        if ok(n):
                            change |= add((e['id'], 'O', b), n)
    return K


def run(c, els, bonds, start, orders, virtual=()):
    from phasor.base.ports import FrequencyKey, ClassicalFreqKey, DictKey
    s = Sys(c, F_AC=1.)
    F = [s.freq('F%d' % j, 10. ** j, order=o) for j, o in enumerate(orders)]

    def key(t):
        return ckey({f: n for f, n in zip(F, t) if n})
    limits = [2 if o is None else o for o in orders]
    C = Conv()
    objs = {}
    for e in els:
        st = [(p, k) for p, k in start if p[0] == e['id']]
        need = [(p[1], p[2], key(k)) for j, (p, k) in enumerate(st) if j % 3 == 0]
        reads = [(p[2], key(k), ['r1', 'r%d' % j]) for j, (p, k) in enumerate(st) if j % 3 == 1 and p[1] == 'O']
        drives = [(p[2], key(k), ['d1']) for j, (p, k) in enumerate(st) if j % 3 == 2 and p[1] == 'O']
        need += [(p[1], p[2], key(k)) for j, (p, k) in enumerate(st) if j % 3 and p[1] == 'I']
        objs[e['id']] = s.add('el%s' % e['id'], C(
            e['nin'], e['nout'], rules=[(a, b, FrequencyKey({f: n for f, n in zip(F, d) if n})) for a, b, d in e['rules']],
            products=e['products'], needs=need, reads=reads, drives=drives,
            virtual=[(lambda q=q: getattr(objs[q[0]], q[1])(q[2])) for w, q in virtual if w == e['id']]))
    for (ei, _io, a), (ej, _jo, b) in bonds:
        s.sys.bond(getattr(objs[ei], 'pO%d' % a), getattr(objs[ej], 'pI%d' % b))
    s.sys._setup_sequence()
    pa = s.sys.port_algo
    K = closure(els, bonds, start, limits)
    for (eid, io, k), want in K.items():
        port = getattr(objs[eid], io)(k)
        got = pa.port_set_get(port)
        w = {key(t) for t in want}
        c.true('every frequency that arises is resolved', w <= set(got))
        c.true('no frequency that cannot arise', set(got) <= w)
    # sets asked for by readouts and drives
    for e in els:
        st = [(p, k) for p, k in start if p[0] == e['id']]
        for j, (p, k) in enumerate(st):
            pk = getattr(objs[p[0]], p[1])(p[2]), key(k)
            if j % 3 == 1 and p[1] == 'O':
                c.true('readout registered', pk in pa.readout_pk_sets['r1'] and pk in pa.readout_pk_sets['r%d' % j])
            if j % 3 == 2 and p[1] == 'O':
                c.true('drive registered', pk in pa.drive_pk_sets['d1'])
    for w, q in virtual:
        port = getattr(objs[q[0]], q[1])(q[2])
        c.true('an element that watches a port is told every frequency there',
               objs[w].seen_v.get(port, set()) == {key(t) for t in K[q]})
    return s, objs, K


def el(id, nin, nout, rules=(), products=()):
    return dict(id=id, nin=nin, nout=nout, rules=list(rules), products=list(products),
                ports=[(id, 'I', k) for k in range(nin)] + [(id, 'O', k) for k in range(nout)])


def o(e, k=0):
    return (e, 'O', k)


def i(e, k=0):
    return (e, 'I', k)


@S.case('chains of conversions, every order of limits', sym=False, arr=False, bounded=True, samples=150)
def _(c):
    d = c.choice('shift', [(1, 0), (1, 1), (-1, 2), (0, 0), (2, -1)])
    d2 = c.choice('shift2', [(1, 0), (0, -1), (-1, -1)])
    orders = c.choice('orders', [(None, None), (1, 2), (3, None), (0, 1), (5, 1)])
    els = [el('a', 1, 1, [(0, 0, d)]), el('b', 1, 1, [(0, 0, d2)]), el('z', 1, 1)]
    bonds = c.choice('bonds', [[(o('a'), i('b'))], [(o('a'), i('b')), (o('b'), i('a'))],
                               [(o('a'), i('b')), (o('a'), i('z')), (o('z'), i('b'))],
                               [(o('a'), i('a')), (o('b'), i('b'))]])
    start = c.choice('start', [[(i('a'), (0, 0))], [(o('b'), (1, 0))], [(i('b'), (0, 1)), (o('a'), (0, -1))],
                               [(o('z'), (0, 0)), (o('a'), (1, 1)), (o('b'), (-1, 0))], []])
    run(c, els, bonds, start, orders)


@S.case('products see every pair of frequencies, whenever they arrive', sym=False, arr=False, bounded=True, samples=150)
def _(c):
    same = c.choice('same', [0, 1])
    orders = c.choice('orders', [(2, 2), (1, 3), (4, 1)])
    els = [el('m', 2, 1, products=[(0, 0, 0) if same else (0, 1, 0)]), el('a', 1, 1, [(0, 0, (1, 0))]), el('b', 1, 2, [(0, 0, (0, 1)), (0, 1, (0, 0))])]
    bonds = c.choice('bonds', [[(o('a'), i('m', 0)), (o('b'), i('m', 1))],
                               [(o('m'), i('m', 0))],
                               [(o('m'), i('a')), (o('a'), i('m', 0)), (o('b', 1), i('m', 1))],
                               [(o('m'), i('b')), (o('b', 0), i('m', 0)), (o('b', 1), i('m', 1))]])
    start = c.choice('start', [[(i('m', 0), (1, 0)), (i('m', 1), (0, 1))], [(i('m', 0), (0, 0)), (i('a'), (0, 0)), (i('b'), (0, 0))],
                               [(i('m', 1), (1, -1)), (i('m', 0), (-1, 0)), (i('b'), (1, 0))]])
    run(c, els, bonds, start, orders)


@S.case('elements that watch ports of others', sym=False, arr=False, bounded=True, samples=60)
def _(c):
    els = [el('a', 1, 1, [(0, 0, (1, 0))]), el('b', 1, 1, [(0, 0, (0, 1))]), el('w', 1, 1)]
    bonds = [(o('a'), i('b'))] + c.choice('more', [[], [(o('b'), i('a'))]])
    start = c.choice('start', [[(i('a'), (0, 0))], [(o('b'), (1, 0)), (i('b'), (0, 0))]])
    run(c, els, bonds, start, c.choice('orders', [(2, 2), (1, 0)]), virtual=[('w', c.choice('port', [o('a'), i('b'), o('b'), i('a')]))])


@S.case('random networks of conversions', sym=False, arr=False, bounded=True, samples=80)
def _(c):
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    n = rng.randint(1, 5)
    sh = lambda: tuple(int(v) for v in rng.randint(-1, 2, 2))
    els = []
    for e in range(n):
        ni, no = rng.randint(1, 3), rng.randint(1, 3)
        els.append(el('e%d' % e, ni, no, [(rng.randint(ni), rng.randint(no), sh()) for _ in range(rng.randint(0, 3))],
                      [(rng.randint(ni), rng.randint(ni), rng.randint(no)) for _ in range(rng.randint(0, 2))]))
    O = [p for e in els for p in e['ports'] if p[1] == 'O']
    I = [p for e in els for p in e['ports'] if p[1] == 'I']
    bonds = []
    for _ in range(rng.randint(0, 2 * n + 1)):
        b = O[rng.randint(len(O))], I[rng.randint(len(I))]
        if b not in bonds:
            bonds.append(b)
    P = O + I
    start = [(P[rng.randint(len(P))], sh()) for _ in range(rng.randint(1, 4))]
    lim = [int(v) for v in rng.randint(1, 4, 2)]
    # the products of one port with itself see each unordered pair; sums do not care
    run(c, els, bonds, start, lim)


@S.case('the pairs of a two-input update', sym=False, arr=False, bounded=True, samples=200)
def _(c):
    """contract of symmetric_update: old x old pairs are not repeated, every pair with a new member is given"""
    from phasor.system.ports_algorithm import PortUpdatesAlgorithm
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    pa = PortUpdatesAlgorithm.__new__(PortUpdatesAlgorithm)
    pa._current_element = 'E'
    univ = list(range(6))
    pick = lambda: set(int(x) for x in rng.permutation(6)[:rng.randint(0, 4)])
    Pold = {p: pick() for p in 'ab'}
    U = {p: pick() - Pold[p] for p in 'ab'}
    pa.port_cplgs = {p: set(v) for p, v in Pold.items()}
    pa.port_cplgs_update = {('E', p): set(v) for p, v in U.items()}
    b = c.choice('second', ['b', 'a'])
    rule = {(x, y): bool(rng.randint(2)) for x in univ for y in univ}
    filt = c.choice('filter', ['none', 'second', 'both'])
    kw = {}
    if filt != 'none':
        kw['subset_second'] = lambda pool: (lambda k1: [k2 for k2 in pool if rule[k1, k2]])
    if filt == 'both' and b != 'a':
        kw['subset_first'] = lambda pool: (lambda k2: [k1 for k1 in pool if rule[k1, k2]])
    got = list(pa.symmetric_update('a', b, **kw))
    ok = lambda k1, k2: filt == 'none' or rule[k1, k2]
    ok2 = lambda k1, k2: filt != 'both' or rule[k1, k2]
    want = {(k1, k2) for k1 in U['a'] for k2 in U[b] | Pold[b] if ok(k1, k2)}
    if b != 'a':
        want |= {(k1, k2) for k1 in Pold['a'] for k2 in U['b'] if ok2(k1, k2)}
    c.true('pairs', set(got) == want)
    c.true('each once', len(got) == len(set(got)))
    c.true('no port, no pairs', list(pa.symmetric_update(None, 'a')) == [] and list(pa.symmetric_update('a', None)) == [])


@S.case('frequency of a key: sum of multiples')
def _(c):
    from phasor.base.ports import ClassicalFreqKey, DictKey, FrequencyKey
    s = Sys(c, F_AC=c.real('fac'))
    f1, f2 = c.real('f1'), c.real('f2')
    F1, F2 = s.freq('F1', f1), s.freq('F2', f2)
    n1, n2, n3 = c.choice('n1', [-2, -1, 0, 1, 3]), c.choice('n2', [-1, 0, 2]), c.choice('n3', [0, 1, -1])
    k = ckey({F: n for F, n in [(F1, n1), (F2, n2), (s.sys.F_AC, n3)] if n})
    want = n1 * f1 + n2 * f2 + n3 * s.sys.F_AC.F_Hz.val
    c.eq('classical frequency', s.sys.classical_frequency_extract(k), want)
    c.eq('frequency of the key', k[ClassicalFreqKey].frequency(), want)
    # optical: wavenumber and classical part
    from phasor.optics import OpticalFreqKey
    lam = c.pos('lam')
    from phasor.optics import OpticalFrequency
    s.sys.own.L1 = OpticalFrequency(wavelen_m=lam, name='L1')
    L1 = s.sys.L1
    m = c.choice('m', [1, 2])
    ko = k | DictKey({OpticalFreqKey: FrequencyKey({L1: m})})
    iw, fr = s.sys.optical_frequency_extract(ko)
    c.eq('wavenumber', iw * lam, m)
    c.eq('offset', fr, want)


@S.case('orders: keys are kept exactly up to the order of each frequency', sym=False, arr=False, bounded=True, samples=200)
def _(c):
    from phasor.base.ports import FrequencyKey
    s = Sys(c, F_AC=1.)
    o1, o2 = c.choice('o1', [None, 0, 1, 2, 4]), c.choice('o2', [None, 1, 3])
    F1, F2 = s.freq('F1', 2., order=o1), s.freq('F2', 3., order=o2)
    n1, n2 = c.choice('n1', list(range(-5, 6))), c.choice('n2', list(range(-4, 5)))
    fkey = FrequencyKey({F: n for F, n in [(F1, n1), (F2, n2)] if n})
    l1, l2 = 2 if o1 is None else o1, 2 if o2 is None else o2
    c.true('classical', bool(s.sys.reject_classical_frequency_order(fkey)) == (abs(n1) > l1 or abs(n2) > l2))
    op = s.sys.reject_optical_frequency_order(fkey)
    want = not fkey.F_dict or any(n > l or n < 1 for n, l in [(n1, l1), (n2, l2)] if n)
    c.true('optical', bool(op) == want)


# -- the elements of the library: DESIGN: what they ask for covers what they couple
def library():
    from phasor import electronics as e, mechanical as m, signals as sg, optics as o, transducers, readouts, base
    from phasor.optics.selectors import GenericSelector
    from phasor.mechanical import xyz, string
    L = {}

    def one(name, f, only=None):
        L[name] = (lambda s: s.add('x', f(s))), only

    def on(name, a, b):
        def build(s):
            r = s.add('x', a())
            s.add('y', b(r))
        L[name] = build, None
    R, T = (lambda: e.SeriesResistor(resistance_Ohms=2.)), (lambda: e.TerminatorResistor(resistance_Ohms=2.))
    D, Y = (lambda: m.SeriesDamper(resistance_Ns_m=2.)), (lambda: m.TerminatorDamper(resistance_Ns_m=2.))
    for n in 'Cable CurrentSource OpAmp VAmp TerminatorMatched TerminatorOpen TerminatorShorted VoltageSource VoltageSourceBalanced CurrentSourceBalanced'.split():
        one('electronics.' + n, lambda s, n=n: getattr(e, n)())
    for n in 'Cable DisplacementSource DisplacementSourceBalanced ForceSource ForceSourceBalanced MechanicalPortDriven TerminatorOpen TerminatorShorted'.split():
        one('mechanical.' + n, lambda s, n=n: getattr(m, n)())
    for n in 'Gain Integrator Mixer Modulator Harmonic2Generator MeanSquareMixer SignalNode'.split():
        one('signals.' + n, lambda s, n=n: getattr(sg, n)())
    for k, n in enumerate(['SeriesCapacitor', 'TerminatorCapacitor', 'SeriesInductor', 'TerminatorInductor', 'SeriesResistor', 'TerminatorResistor']):
        one('electronics.' + n, lambda s, n=n, k=k: getattr(e, n)(**{['capacitance_Farads', 'inductance_Henries', 'resistance_Ohms'][k // 2]: 2.}))
    for n, kw in [('Mass', dict(mass_kg=2.)), ('SeriesMass', dict(mass_kg=2.)), ('SeriesSpring', dict(elasticity_N_m=2.)), ('TerminatorSpring', dict(elasticity_N_m=2.)),
                  ('SeriesDamper', dict(resistance_Ns_m=2.)), ('TerminatorDamper', dict(resistance_Ns_m=2.)), ('XYZMass', dict(mass_kg=2.)),
                  ('ZConverter', dict(mobility_Ns_m=2.)), ('String', dict(tension_N=2., mass_density_kg_m=3., length_m=2.)), ('XYZMoment', dict(moment_kgmsq=2.)),
                  ('XYZTerminatorSpring', dict(elasticity_N_m=2.)), ('XYZTerminatorDamper', dict(resistance_Ns_m=2.)), ('XYZTerminatorOpen', {}), ('XYZTerminatorShorted', {})]:
        one('mechanical.' + n, lambda s, n=n, kw=kw: getattr(m, n)(**kw))
    one('mechanical.XYZMomentDriver', lambda s: xyz.XYZMomentDriver(displacementXYZ=(.1, .2, .3)))
    one('mechanical.Moment1D', lambda s: xyz.Moment1D(displacement=.3))
    for md, nm in ((e, 'electronics'), (m, 'mechanical')):
        one(nm + '.Connection', lambda s, md=md: md.Connection(N_ports=3))
    for n in ('ImperfectOpAmp', 'ImperfectInAmp'):
        one('electronics.' + n, lambda s, n=n: getattr(e, n)(gain_by_freq=lambda F: 3.))
    one('electronics.Transformer', lambda s: e.Transformer(L1_inductance_Henries=2., L2_inductance_Henries=3., transformer_k_by_freq=lambda F: .5))
    one('transducers.PZTMountedGrounded', lambda s: transducers.PZTMountedGrounded(capacitance_F=1., k_N_m=2., d_eff_m_V=3.))
    one('signals.SRationalFilter', lambda s: sg.SRationalFilter(poles_r=(-1.,), gain=2.))
    one('signals.TransferFunctionSISO', lambda s: sg.TransferFunctionSISO(filter_func=lambda F: 2. + 1j * F))
    one('signals.TransferFunctionSISOMechSingleResonance', lambda s: sg.TransferFunctionSISOMechSingleResonance(mass_kg=1., center_Hz=2., q_factor=3.))
    one('signals.TFACArray', lambda s: sg.TFACArray(gain_array=2.))
    one('signals.TransferFunctionMIMO', lambda s: sg.TransferFunctionMIMO(port_pair_xfers={('a', 'b'): lambda F: 2., ('a', 'c'): lambda F: 3., ('d', 'c'): lambda F: 3.}))
    one('signals.DistributionAmplifier', lambda s: sg.DistributionAmplifier(port_gains=dict(a=2., b=3.)))
    one('signals.SummingAmplifier', lambda s: sg.SummingAmplifier(port_gains=dict(a=2., b=3.)))
    one('signals.MatrixAmplifier', lambda s: sg.MatrixAmplifier(port_pair_gains={('a', 'b'): 2., ('a', 'c'): 3., ('d', 'c'): 1.}))
    one('signals.SignalGenerator', lambda s: sg.SignalGenerator(F=s.sys.F1, amplitude=2.))
    one('signals.SignalGenerator with harmonics', lambda s: sg.SignalGenerator(F=s.sys.F_AC, amplitude=2., harmonic_gains={2: 3.}))
    on('electronics.VoltageReadout', R, lambda r: e.VoltageReadout(terminal=r.pe_A))
    on('electronics.VoltageReadout between two', R, lambda r: e.VoltageReadout(terminal=r.pe_A, terminal_N=r.pe_B))
    on('electronics.CurrentReadout', R, lambda r: e.CurrentReadout(terminal=r.pe_A, direction='in'))
    on('mechanical.DisplacementReadout', D, lambda r: m.DisplacementReadout(terminal=r.pm_A))
    on('mechanical.DisplacementReadout between two', D, lambda r: m.DisplacementReadout(terminal=r.pm_A, terminal_N=r.pm_B))
    on('mechanical.ForceReadout', D, lambda r: m.ForceReadout(terminal=r.pm_A, direction='in'))

    def apart(name, a, b):
        def build(s):
            b(s, s.add('x', a()), s.add('z', a()))
        L[name + ' at two elements that do not touch'] = build, None
    apart('electronics.VoltageReadout', T, lambda s, x, z: s.add('y', e.VoltageReadout(terminal=x.pe_A, terminal_N=z.pe_A)))
    apart('mechanical.DisplacementReadout', Y, lambda s, x, z: s.add('y', m.DisplacementReadout(terminal=x.pm_A, terminal_N=z.pm_A)))
    apart('electronics.VoltageFluctuation', T, lambda s, x, z: s.add('y', e.VoltageFluctuation(port=x.pe_A, Vsq_Hz_by_freq=lambda F: 2., sided='one-sided')))
    apart('electronics.CurrentFluctuation', T, lambda s, x, z: s.add('y', e.CurrentFluctuation(portA=x.pe_A.o, portB=z.pe_A.o, Isq_Hz_by_freq=lambda F: 2., sided='one-sided')))
    apart('mechanical.DisplacementFluctuation', Y, lambda s, x, z: s.add('y', m.DisplacementFluctuation(port=x.pm_A, dsq_Hz_by_freq=lambda F: 2., sided='one-sided')))
    apart('mechanical.ForceFluctuation', Y, lambda s, x, z: s.add('y', m.ForceFluctuation(portA=x.pm_A, portB=z.pm_A, Fsq_Hz_by_freq=lambda F: 2., sided='one-sided')))

    def three(s):
        for n, el_ in (('x', R()), ('y', e.VoltageSource()), ('z', T()), ('w', T())):
            s.add(n, el_)
        s.sys.bond(s.sys.x.pe_A, s.sys.y.pe_A)
        s.sys.bond(s.sys.x.pe_B, s.sys.z.pe_A)
        s.sys.bond(s.sys.x.pe_B, s.sys.w.pe_A)
    L['three bonded resistors and a source'] = three, None

    def nodes(s):
        class Box(base.SystemElementBase):
            def __build__(self):
                super().__build__()
                self.own.g, self.own.h, self.own.n = sg.Gain(gain=2.), sg.Gain(gain=3.), sg.SignalNode()
                self.system.bond(self.g.ps_Out, self.n)
                self.system.bond(self.n, self.h.ps_In)
        s.add('x', Box())
    L['a signal node between two gains in a box'] = nodes, None

    def pol(p, k):
        # each polarization has its own port of a selector
        from vc.opt import pname, kname
        n, q = pname(p), kname(k).split(',')
        return not ('Bk_' in n and ('S⥳' in n and 'P' in q or 'P⥳' in n and 'S' in q))

    def har(p, k):
        from vc.opt import pname, kname
        n, q = pname(p), kname(k).split(',')[0]
        return not ('Bk_' in n and '⥳' in n and 'Bk_%s' % q[0] not in n)
    for q in ('VoltageSource V_DC', 'CurrentSource I_DC', 'VoltageSourceBalanced V_DC', 'CurrentSourceBalanced I_DC'):
        one('electronics.%s set' % q, lambda s, q=q: getattr(e, q.split()[0])(**{q.split()[1]: 2.}))
    for q in ('DisplacementSource d_DC', 'ForceSource F_DC', 'DisplacementSourceBalanced d_DC', 'ForceSourceBalanced F_DC'):
        one('mechanical.%s set' % q, lambda s, q=q: getattr(m, q.split()[0])(**{q.split()[1]: 2.}))
    one('mechanical.MechanicalPortDriven set', lambda s: m.MechanicalPortDriven(F_DC=2.))
    one('optics.Mirror', lambda s: o.Mirror(T_hr=.4))
    one('optics.Mirror at an angle', lambda s: o.Mirror(T_hr=.4, AOI_deg=45, L_hr=.1))
    one('optics.Mirror nearly without transmission', lambda s: o.Mirror(T_hr=1e-14))
    one('optics.Mirror nearly without loss', lambda s: o.Mirror(T_hr=.4, L_hr=1e-14))
    one('optics.Space', lambda s: o.Space(L_m=.3))
    for n in 'PD MagicPD AM PM AMPM HalfWavePlate QuarterWavePlate UnmountedHalfWavePlate VacuumTerminator'.split():
        one('optics.' + n, lambda s, n=n: getattr(o, n)())
    one('optics.Laser', lambda s: o.Laser(F=s.Fo, power_W=2.))
    one('optics.FaradayRotator', lambda s: o.FaradayRotator(rotate_deg=20.))
    one('optics.PolarizationRotator', lambda s: o.PolarizationRotator(rotate_deg=20.))
    one('optics.WavePlate', lambda s: o.WavePlate(cplgS=1j, cplgP=2))
    one('optics.OpticalCirculator', lambda s: o.OpticalCirculator(N_ports=3))
    one('optics.PolarizingSelector', lambda s: o.PolarizingSelector(), pol)
    one('optics.PolSelector', lambda s: __import__('phasor.optics.selectors', fromlist=['x']).PolSelector(), pol)
    one('optics.PolarizingMirror', lambda s: o.PolarizingMirror(mirror_S=o.Mirror(T_hr=.2), mirror_P=o.Mirror(T_hr=.5)), pol)
    one('optics selectors by wavelength', lambda s: GenericSelector(select_map={str(j): o.ports.DictKey({o.ports.OpticalFreqKey: o.ports.FrequencyKey({s.Fo: j})}) for j in (1, 2)}), har)
    return L


def elements(name, build, only):
    @S.case('what an element couples it asks for: %s' % name, sym=False, arr=False, bounded=True, samples=1)
    def _(c):
        rng = np.random.RandomState(c.choice('seed', range(30000)))
        s = closure_of.make(build)
        U = closure_of.universe(s)
        lin, prod = closure_of.couplings(s, U, only)
        op = closure_of.optical_ports(s.sys)
        asks = [[]]
        asks += [[(p, x) for x in closure_of.family(k)] for p in s.sys.port_owners for k in U[1 if p in op else 0] if only is None or only(p, k)]
        many = [sorted(A, key=repr) for A, b in prod]
        few = lambda L, n: [L[j] for j in sorted(rng.permutation(len(L))[:n])]
        two = few(many, 60)
        asks = [[]] + few(sorted(asks, key=repr), 200) + two + [[(p, x) for p, k in A for x in closure_of.family(k)] for A in few(many, 60)]
        for w in asks:
            K = closure_of.run(s, w)
            c.true('what is asked for is known', set(w) <= K)
            if w is asks[0] or w is asks[-1]:
                c.true('what is emitted is known', closure_of.emitted(s, K) <= K)
            for how, a, b in closure_of.missing(s, K, lin, prod):
                c.true('%s: what is coupled is known' % how, False)
                break


def proofs():
    """contracts/ports.py: the tables of keys over networks of any size; at the end nothing known still waits to be taken up"""
    from phasor.system import ports_algorithm as M
    from contracts import ports as G
    return G.contracts(M)


unbounded.add(S, proofs)
for _n, (_b, _o) in library().items():
    elements(_n, _b, _o)
