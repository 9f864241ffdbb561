"""Running the real element and system code under a contract.

scatter()   calls an element's own coupling hooks against a recorder that
            implements the element-facing API of the matrix builder, and returns
            the linear map it declares.
solver      in symbolic mode the linear solver is replaced by its *contract*
            (P01): the exact solution of x = s + M x.  A caller is checked
            against the callee's contract; P01..P03 check the callee.
"""
from collections import defaultdict

import sys
import numpy as np

from . import sym, paths
from .sym import SV, Unsupported

_installed = False


def install():
    """symbolic-mode stubs (all of them listed in the evidence as trusted)"""
    global _installed
    if _installed:
        return
    _installed = True
    _isfinite = np.isfinite

    def isfinite(x, *a, **k):
        if isinstance(x, SV):
            return True
        if isinstance(x, list):
            x = np.asarray(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.ones(x.shape, dtype=bool) if x.shape else True
        return _isfinite(x, *a, **k)
    np.isfinite = isfinite
    _real, _imag = np.real, np.imag

    def part(name, whole):
        # numpy takes the parts of an object array to be itself and zero
        def f(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                if x.shape == ():
                    return getattr(x.item(), name)
                y = np.empty(x.shape, dtype=object)
                for k in np.ndindex(*x.shape):
                    y[k] = getattr(x[k], name)
                return y
            return whole(x)
        return f
    np.real, np.imag = part('real', _real), part('imag', _imag)
    _broadcast = np.broadcast_arrays

    def broadcast_arrays(*a, **k):
        # arrays of no dimension holding symbols would nest in np.array
        if any(isinstance(x, SV) for x in a) and all(np.shape(x) == () for x in a):
            return list(a)
        return _broadcast(*a, **k)
    np.broadcast_arrays = broadcast_arrays
    _inv = np.linalg.inv

    def inv(a):
        if isinstance(a, np.ndarray) and a.dtype == object and a.shape == (2, 2):
            d = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
            y = np.empty((2, 2), dtype=object)
            y[0, 0], y[0, 1], y[1, 0], y[1, 1] = a[1, 1] / d, -a[0, 1] / d, -a[1, 0] / d, a[0, 0] / d
            return y.view(type(a))
        return _inv(a)
    np.linalg.inv = inv
    getattr(np.linalg.matrix_power, '__wrapped__', np.linalg.matrix_power).__globals__['inv'] = inv
    np.asfarray = getattr(np, 'asfarray', None)
    from phasor.math import dispatched as dmath
    _cst = dmath.check_symbolic_type

    def check_symbolic_type(arg):
        if isinstance(arg, SV) or (isinstance(arg, np.ndarray) and arg.dtype == object):
            return False
        return _cst(arg)
    dmath.check_symbolic_type = check_symbolic_type
    from . import svmath
    dmath.module_by_type[SV] = [svmath]
    from phasor.matrix import solvers_registry
    from declarative import Bunch
    orig = dict(solvers_registry.solvers_all)

    def contract_solver():
        real_solver = orig['loop_LUQ']()

        def inverse_solve_inplace(**kw):
            if paths.CTX is None:
                return real_solver.inverse_solve_inplace(**kw)
            return exact_solve(**kw)
        return Bunch(inverse_solve_inplace=inverse_solve_inplace, symbolics_supported=True, symbolics_inline=False)
    solvers_registry.solvers_all['loop_LUQ'] = contract_solver
    from phasor.system import solver_algorithm as sa
    _delta = sa.SystemSolver.delta_v_compute

    def delta_v_compute(self, prev, cur):
        if paths.CTX is None:
            return _delta(self, prev, cur)
        # convergence: the iterate has not changed (exact equality of the values)
        seen = set()
        for k, v in cur.items():
            seen.add(k)
            d = SV.lift(_item(v)) - SV.lift(_item(prev.get(k, 0)))
            if not d.is_zero():
                return 1., (k, 0)
        for k, v in prev.items():
            if k not in seen and not SV.lift(_item(v)).is_zero():
                return 1., (k, 0)
        return 0, None
    sa.SystemSolver.delta_v_compute = delta_v_compute


def _item(v):
    if isinstance(v, np.ndarray) and v.shape == ():
        return v.item()
    return v


def exact_solve(seq, req, edge_map, outputs_set, inputs_set=frozenset(), inputs_map=None, negative=False,
                scattering=False, purge_in=True, purge_out=True, **kw):
    """contract of inverse_solve_inplace, on exact scalars"""
    from declarative import Bunch
    assert scattering and not negative
    fwd = defaultdict(dict)     # fwd[a][b]: edge a->b
    rev = defaultdict(dict)
    for (a, b), v in edge_map.items():
        if b in seq.get(a, ()):
            fwd[a][b] = SV.lift(_item(v))
            rev[b][a] = fwd[a][b]
    drives = {}
    if inputs_map is not None:
        drives['*'] = {k: SV.lift(_item(v)) for k, v in inputs_map.items()}
    for i in inputs_set:
        drives[('in', i)] = {i: SV.lift(1)}
    # only nodes reachable from a drive and reaching an output matter
    fr = _closure({n for d in drives.values() for n in d}, fwd)
    bk = _closure(set(outputs_set), rev)
    live = fr & bk
    # unknowns eliminated one by one (cheapest first)
    A = {b: {a: v for a, v in rev[b].items() if a in live} for b in live}     # x_b = sum A[b][a] x_a + src
    src = {b: {} for b in live}
    for d, vec in drives.items():
        for n, v in vec.items():
            if n in live:
                src[n][d] = v
    users = defaultdict(set)
    for b, row in A.items():
        for a in row:
            users[a].add(b)
    keep = set(o for o in outputs_set if o in live)
    pend = set(live)
    order = []

    def eliminate(n):
        row = A[n]
        s = row.pop(n, None)
        if s is not None:
            users[n].discard(n)
            g = SV.lift(1) - s
            if g.is_zero() or paths.simplify(g).is_zero():
                raise Unsupported('exactly singular loop')
            paths.note_division(g)
            gi = g.inv()
            for k in row:
                row[k] = row[k] * gi
            for k in src[n]:
                src[n][k] = src[n][k] * gi
        for b in list(users[n]):
            c = A[b].pop(n)
            for k, v in row.items():
                o = A[b].get(k)
                w = c * v if o is None else o + c * v
                A[b][k] = w
                users[k].add(b)
            for k, v in src[n].items():
                o = src[b].get(k)
                src[b][k] = c * v if o is None else o + c * v
        users[n] = set()

    # forward elimination, then back substitution through recorded rows
    done = []
    while pend:
        n = min(pend, key=lambda n: (len(A[n]) * len(users[n]), (SV.lift(1) - A[n].get(n, SV({}))).is_zero(),
                                     repr(n)))
        if (SV.lift(1) - A[n].get(n, SV({}))).is_zero():
            alt = [m for m in pend if not (SV.lift(1) - A[m].get(m, SV({}))).is_zero()]
            if not alt:
                raise Unsupported('singular system')
            n = min(alt, key=lambda n: (len(A[n]) * len(users[n]), repr(n)))
        pend.discard(n)
        # rows already eliminated keep their own right hand side; substitute only into pending ones
        us = users[n]
        users[n] = {b for b in us if b in pend or b == n}
        eliminate(n)
        done.append(n)
    val = {}
    for n in reversed(done):
        acc = dict(src[n])
        for a, c in A[n].items():
            for k, v in val[a].items():
                acc[k] = acc[k] + c * v if k in acc else c * v
        val[n] = acc
    outm = None
    if inputs_map is not None:
        outm = {o: val[o]['*'] for o in outputs_set if o in val and '*' in val[o]}
    em = {}
    useq, ureq = defaultdict(set), defaultdict(set)
    for o in outputs_set:
        if o in val:
            for i in inputs_set:
                v = val[o].get(('in', i))
                if v is not None:
                    em[i, o] = v
                    useq[i].add(o)
                    ureq[o].add(i)
    return Bunch(outputs_map=outm, edge_map=em, seq=useq, req=ureq)


def _closure(start, nxt):
    seen = set()
    todo = list(start)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo.extend(nxt.get(n, ()))
    return seen


# ---------------------------------------------------------------------------
class Recorder(object):
    """implements the element-facing API of MatrixBuildAlgorithm"""

    def __init__(self, portsets, default=None, system=None):
        self.portsets = portsets
        self.default = default
        self.system = system
        self.edges = []        # (pfrom, kfrom, pto, kto, val, vpairs)
        self.sources = []
        self.triplets = []
        self.noises = []
        self.injections = []
        self.field_space = None

    def port_set_get(self, port):
        from phasor.base.ports import PostBondKey
        p = port.purge_keys(PostBondKey)
        s = self.portsets.get(p)
        if s is None:
            s = self.default
        return set(s) if s is not None else set()

    def port_coupling_insert(self, pfrom, kfrom, pto, kto, cplg, *vpairs):
        self.edges.append((pfrom, kfrom, pto, kto, cplg, vpairs))

    def coherent_sources_insert(self, pto, kto, val, *vpairs):
        self.sources.append((pto, kto, val, vpairs))

    def nonlinear_triplet_insert(self, pkfrom1, pkfrom2, pkto, cplg):
        self.triplets.append((pkfrom1, pkfrom2, pkto, cplg))

    def noise_pair_insert(self, p1, k1, p2, k2, obj):
        self.noises.append((p1, k1, p2, k2, obj))

    def injection_insert(self, inj):
        self.injections.append(inj)

    # -- the linear map
    def matrix(self):
        M = {}
        for pf, kf, pt, kt, v, vp in self.edges:
            if vp:
                continue
            k = (pf, kf), (pt, kt)
            M[k] = M[k] + v if k in M else v
        for inj in self.injections:
            for (pkf, pkt), func in inj.edges_pkpk_dict.items():
                if not inj.edges_NZ_pkset_dict[pkf, pkt]:
                    v = func({}, None)
                    M[pkf, pkt] = M[pkf, pkt] + v if (pkf, pkt) in M else v
        return M

    def sourcevec(self):
        s = {}
        for pt, kt, v, vp in self.sources:
            if vp:
                continue
            s[pt, kt] = s[pt, kt] + v if (pt, kt) in s else v
        return s


def ckey(F_dict=None, **kw):
    """classical frequency key"""
    from phasor.base.ports import DictKey, FrequencyKey, ClassicalFreqKey
    d = {ClassicalFreqKey: FrequencyKey(dict(F_dict or {}))}
    d.update(kw)
    return DictKey(d)


class Sys(object):
    """a real BGSystem plus named symbolic/numeric frequencies"""

    def __init__(self, c, **kw):
        install()
        from phasor.system import BGSystem
        from phasor.base import Frequency
        self.c = c
        self.F = {}
        if 'F_AC' not in kw:
            kw['F_AC'] = c.pos('f_AC')
        if getattr(c, 'sym', False):
            kw.setdefault('exact_order', None)
            if kw['exact_order'] is None:
                kw.pop('exact_order')
        self.sys = BGSystem(**kw)

    def freq(self, name, val, order=None, **kw):
        from phasor.base import Frequency
        f = Frequency(F_Hz=val, name=name, order=order, **kw)
        setattr(self.sys.own, name, f)
        return getattr(self.sys, name)

    def add(self, name, obj):
        setattr(self.sys.own, name, obj)
        return getattr(self.sys, name)

    def kAC(self, n=1):
        return ckey({self.sys.F_AC: n})

    def kDC(self):
        return ckey()


def record(el, keys, portsets=None, hooks=('system_setup_coupling',), system=None):
    r = Recorder(portsets or {}, default=keys, system=system or el.system)
    for h in hooks:
        f = getattr(el, h, None)
        if f is not None:
            f(r)
    return r


def smatrix(el, ports, key, keyto=None, extra_in=(), keys=None):
    """S[i][j]: wave into ports[i] (at key) -> wave out of ports[j]"""
    keyto = key if keyto is None else keyto
    r = record(el, keys or {key})
    M = r.matrix()
    S = []
    for a in list(ports) + list(extra_in):
        row = []
        for b in ports:
            row.append(M.get(((a.i, key), (b.o, keyto)), 0))
        S.append(row)
    return S, r
