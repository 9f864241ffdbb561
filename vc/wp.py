"""Unbounded proofs over the graph and key functions of /repo.

A verification condition generator for the part of Python these functions use:
sets, dictionaries of sets, dictionaries of values, loops over them.  The text
verified is the text that runs: every function is parsed from its source in
/repo on every run, statement by statement, and nothing is dropped.  What can not
be followed makes the function *not proved* (its bounded stand-in remains);
it never makes an alarm.

How it works.  A function is executed symbolically from an arbitrary state that
satisfies its precondition.  Branches fork.  A loop is cut at its invariant:
the invariant must hold on entry; everything the loop can write is forgotten,
the invariant assumed for an arbitrary set `done` of finished iterations, one
iteration run on an arbitrary remaining element (so every order of iteration is
covered), and the invariant proved again; after the loop it holds with `done` the
whole collection.  A call to a function with a contract proves its precondition,
forgets what it may modify and assumes its postcondition.  Every lookup,
removal, deletion and assertion is an obligation (no KeyError can arise), and so is
that no collection changes while it is iterated over.

Model.  Keys are elements of an uninterpreted sort (objects with consistent
== and hash).  A set held in a dictionary is a heap object with an identity: it may be
aliased by locals and moved between entries; each dictionary (or group of
dictionaries) owns a region of set objects of its own (precondition of every
contract: two entries never share a set).  Values of couplings are elements of a commutative ring: a
real variable with + and -, and an uninterpreted product that is only assumed to
be associative and commutative (by normal form).  Obligations are
discharged by z3, whose answer must be unsat.
"""
import ast
import inspect
import textwrap
import time

from .paths import z3mod

z3 = z3mod()
K = z3.DeclareSort('K')
_P = z3.Datatype('P')
_P.declare('pair', ('fst', K), ('snd', K))
P = _P.create()
B, R, I = z3.BoolSort(), z3.RealSort(), z3.IntSort()
SETS = z3.ArraySort(K, B)
MUL = z3.Function('mul', R, R, R)
INV = z3.Function('inv', R, R)
CONJ = z3.Function('conj', R, R)
ABS = z3.Function('absval', R, R)
SQRT = z3.Function('sqrt', R, R)
RE, IM = z3.Function('real', R, R), z3.Function('imag', R, R)
NUMS = z3.ArraySort(K, R)

YIELD = 'yielded'
_n = [0]


def fresh(name, sort):
    _n[0] += 1
    return z3.Const('%s!%d' % (name, _n[0]), sort)


class Untyped(Exception):
    pass


class CantFollow(Exception):
    """the source uses something outside the fragment: not proved, no alarm"""


# --- values ----------------------------------------------------------------
class Val(object):
    pass


def _mk(name, *fields):
    def __init__(self, *a):
        for f, x in zip(fields, a):
            setattr(self, f, x)
    return type(name, (Val,), dict(__init__=__init__, fields=fields))


KV = _mk('KV', 't')            # a key
NV = _mk('NV', 't')            # a number (ring element)
IV = _mk('IV', 't')            # an integer
BV = _mk('BV', 't')            # a truth value
TupV = _mk('TupV', 'items')
NoneV = _mk('NoneV')
ConstV = _mk('ConstV', 'v')    # python constants (strings, numbers)
OptV = _mk('OptV', 'present', 'val')       # val, or None
SetC = _mk('SetC', 'cid')      # a set known statically
SetR = _mk('SetR', 'region', 'ref')        # a set on the heap
DictC = _mk('DictC', 'cid')
Snap = _mk('Snap', 'arr', 'sort', 'elem')  # the elements of a collection at one time
FreshSet = _mk('FreshSet', 'arr')
FreshDict = _mk('FreshDict', 'default')
ObjV = _mk('ObjV', 'name', 'oid')          # object with fields oid.f in the state
FuncV = _mk('FuncV', 'func')
ModV = _mk('ModV', 'mod')
View = _mk('View', 'd', 'which')           # d.items() / keys() / values()
Bound = _mk('Bound', 'obj', 'attr')
PyClass = _mk('PyClass', 'cls')
FilterV = _mk('FilterV', 'rule')           # a function of a pool, that gives a function of a key: those of the pool the rule lets pass
FilterOf = _mk('FilterOf', 'rule', 'pool')
AnyV = _mk('AnyV')             # a number that is not followed: nothing is known of it
PureDef = _mk('PureDef')       # a function within the function, that only reads: its value is not followed
QueueC = type('QueueC', (SetC,), {})       # a priority queue of (cost, key): its keys, each in it once


def prod(*ts):
    """products in normal form: flattened, constants in front, factors sorted"""
    c, fs = 1, []
    sums = []

    def go(t):
        nonlocal c
        if z3.is_rational_value(t):
            c = c * t.as_fraction()
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            for a in t.children():
                go(a)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            c = -c
            go(t.children()[0])
        elif z3.is_app(t) and t.decl() == MUL:
            for a in t.children():
                go(a)
        elif z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            sums.append(t)
        else:
            fs.append(t)
    for t in ts:
        go(t if not isinstance(t, (int, float)) else z3.RealVal(t))
    if sums:                                    # distribute over the first sum
        s, rest = sums[0], sums[1:] + fs
        ch = s.children()
        if s.decl().kind() == z3.Z3_OP_SUB:
            ch = [ch[0]] + [-x for x in ch[1:]]
        return z3.Sum([prod(z3.RealVal(c), x, *rest) for x in ch])
    if not fs:
        return z3.RealVal(c)
    fs.sort(key=lambda t: t.sexpr())
    r = fs[-1]
    for f in reversed(fs[:-1]):
        r = MUL(f, r)
    return r if c == 1 else z3.RealVal(c) * r


def recip(t):
    if z3.is_rational_value(t):
        return z3.RealVal(1 / t.as_fraction())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return -recip(t.children()[0])
    return INV(t)


# --- state -----------------------------------------------------------------
class St(object):
    def __init__(self):
        self.locals, self.cells, self.heap, self.path = {}, {}, {}, []
        self.nxt = fresh('nxt', I)
        self.fields = {}

    def clone(self):
        s = St.__new__(St)
        s.locals, s.cells, s.heap, s.path, s.nxt = dict(self.locals), dict(self.cells), dict(self.heap), list(self.path), self.nxt
        s.fields = dict(self.fields)
        return s


class Contract(object):
    """params: name -> type: 'K' | 'num' | 'int' | 'none' | 'set' | 'dict:set' | 'dict:num' (keys are pairs)
    | 'kdict:num' (keys are single) | 'kdict:K' | ('alias', other) | ('const', value) | ('tuple', [names]) |
    ('obj', {field: type}); regions: params whose sets share a region"""

    def __init__(self, label, func, params, requires=None, ensures=None, loops=(), modifies=(), result=None, regions=(), env=None,
                 raises=(), hints=None, inline=(), variants=None, may_fail=False, used=True, trusted=False, fields=None, lemma=None):
        self.label, self.func, self.params = label, func, params
        self.requires, self.ensures, self.loops, self.modifies = requires, ensures, list(loops), list(modifies)
        self.result, self.regions, self.env = result, regions, env or {}
        self.raises, self.hints = raises, hints or {}
        self.variants = variants or {}
        self.fields = fields or {}  # the fields it rebinds: name -> type (only 'none')
        self.inline = inline
        self.lemma = lemma          # what follows from what it ensures, shown elsewhere: callers know it too
        self.trusted = trusted      # not proved: what callers must provide before a call that is not followed
        self.used = used            # callers go by it (otherwise by the body)
        self.may_fail = may_fail    # it may raise; what it ensures holds when it returns


def region_of(c, name):
    for g in c.regions:
        if name in g:
            return '+'.join(g)
    return name


class E(object):
    """what a specification can say about a state"""

    def __init__(self, vc, st, old=None, pre=None, done=None, whole=None, x=None, result=None):
        self._vc, self._st, self.old, self.pre = vc, st, old, pre
        self.done, self.whole, self.x, self.result = done, whole, x, result
        self.encl = list(vc.loopstack)      # what the loops around have done

    def renamed(self, a, b):
        """what was said of a, of b"""
        e = E(self._vc, self._st, self.old.renamed(a, b) if self.old else None, self.pre, self.done, self.whole, self.x, self.result)
        e.names = dict(getattr(self, 'names', {}), **{a: b})
        return e

    def v(self, name):
        if isinstance(name, Val):
            return name
        name = getattr(self, 'names', {}).get(name, name)
        if name == 'result':
            return self.result
        if '.' in name:
            o, f = name.rsplit('.', 1)
            o = self.v(o)
            if not isinstance(o, ObjV) or (o.oid, f) not in self._st.fields:
                raise CantFollow('no field ' + name)
            return self._st.fields[o.oid, f]
        if '[' in name:
            n, i = name[:-1].split('[')
            t = self.v(n)
            if not isinstance(t, TupV):
                raise CantFollow('not a tuple: ' + n)
            return t.items[int(i)]
        if name not in self._st.locals:
            raise CantFollow('the invariant speaks of %r, which is not there any more' % name)
        return self._st.locals[name]

    def t(self, name):
        return self.v(name).t

    def n(self, name):
        """a number"""
        return self._vc.num(self.v(name))

    def isnone(self, name):
        return isinstance(self.v(name), NoneV)

    def _d(self, name):
        d = self.v(name)
        if not isinstance(d, DictC):
            raise CantFollow('%s is not a dictionary' % name)
        return self._vc.cell(self._st, d.cid)

    def has(self, name, k):
        return self._vc.dom(self._st, self.v(name), k)

    def arr(self, name):
        """the elements of a set, as an array"""
        return self._vc.setarr(self._st, self.v(name))

    def inset(self, name, x):
        return z3.Select(self.arr(name), x)

    def ref(self, name, k):
        return z3.Select(self._d(name)['val'], k)

    def set(self, name, k):
        d = self.v(name)
        return z3.Select(self._st.heap[self._vc.ctype[d.cid][3]], self.ref(name, k))

    def mem(self, name, k, x):
        return z3.Select(self.set(name, k), x)

    def edge(self, name, a, b):
        return self._vc.dom(self._st, self.v(name), P.pair(a, b))

    def val(self, name, a, b=None):
        k = a if b is None else P.pair(a, b)
        return z3.Select(self._d(name)['val'], k)

    def apart(self, a, b):
        """two different objects"""
        return z3.BoolVal(self.v(a).cid != self.v(b).cid)

    def done_pair(self, a, b):
        return self.done[P.pair(a, b)]

    def owned(self, name):
        """two entries never share a set object"""
        d = self._d(name)
        a, b = [fresh(x, d['dom'].sort().domain()) for x in 'ab']
        return z3.ForAll([a, b], z3.Implies(z3.And(d['dom'][a], d['dom'][b], d['val'][a] == d['val'][b]), a == b),
                         patterns=[z3.MultiPattern(d['val'][a], d['val'][b])])

    def owned2(self, n1, n2):
        d, e = self._d(n1), self._d(n2)
        a, b = fresh('a', d['dom'].sort().domain()), fresh('b', e['dom'].sort().domain())
        return z3.ForAll([a, b], z3.Implies(z3.And(d['dom'][a], e['dom'][b]), d['val'][a] != e['val'][b]),
                         patterns=[z3.MultiPattern(d['val'][a], e['val'][b])])

    def allocated(self, name):
        d = self._d(name)
        a = fresh('a', d['dom'].sort().domain())
        return z3.ForAll([a], z3.Implies(d['dom'][a], d['val'][a] < self._st.nxt), patterns=[d['val'][a]])


def A(f, sorts=None, pats=None):
    """for all"""
    n = f.__code__.co_argcount
    vs = [fresh(f.__code__.co_varnames[i], (sorts or [K] * n)[i]) for i in range(n)]
    body = f(*vs)
    if pats is not None:
        ps = pats(*vs)
        return z3.ForAll(vs, body, patterns=ps)
    return z3.ForAll(vs, body)


def Ex(f):
    n = f.__code__.co_argcount
    vs = [fresh('e', K) for i in range(n)]
    return z3.Exists(vs, f(*vs))


And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


# --- the generator ---------------------------------------------------------
class VC(object):
    def __init__(self, contracts=()):
        self.contracts = {}
        for c in contracts:
            if not c.may_fail and c.used:
                self.contracts.setdefault(c.func, []).append(c)
        self.obls = []          # (name, assumptions, goal)
        self.probes = []        # (place, assumptions): must not be contradictory
        self.quiet = 0
        self.ctype = {}         # cid -> ['set'] | ['dict', keysort, valtype, region]
        self._cid = 0
        self.written = None
        self.tries = []
        self.depth = 0
        self.loopstack = []
        self.default = set()    # cids of defaultdict(set)

    # -- cells
    def newcid(self):
        self._cid += 1
        return self._cid

    def zsort(self, vt):
        return {'set': I, 'num': R, 'K': K, 'int': I, 'bool': B}[vt]

    def cell(self, st, cid):
        c = st.cells.get(cid)
        if c is None:
            ty = self.ctype.get(cid)
            if ty is None:
                raise CantFollow('type of a dictionary unknown')
            c = dict(dom=z3.K(ty[1], z3.BoolVal(False)), val=fresh('v', z3.ArraySort(ty[1], self.zsort(ty[2]))))
            st.cells[cid] = c
            if ty[2] == 'set' and ty[3] not in st.heap:
                st.heap[ty[3]] = fresh('H', z3.ArraySort(I, SETS))
        return c

    def havoc_cell(self, st, cid):
        ty = self.ctype.get(cid)
        if ty is None:
            return
        if ty[0] == 'set':
            st.cells[cid] = dict(s=fresh('s', SETS))
        else:
            st.cells[cid] = dict(dom=fresh('dom', z3.ArraySort(ty[1], B)), val=fresh('val', z3.ArraySort(ty[1], self.zsort(ty[2]))))
            if ty[2] == 'set' and ty[3] not in st.heap:
                st.heap[ty[3]] = fresh('H', z3.ArraySort(I, SETS))

    def w(self, *what):
        if self.written is not None:
            self.written.add(what)

    def setcell(self, st, cid, **kw):
        c = dict(st.cells.get(cid) or {})
        c.update(kw)
        st.cells[cid] = c
        self.w('cell', cid)

    def settle(self, cid, ksort, vt):
        """the first use of a new dictionary tells what it holds"""
        if cid not in self.ctype:
            self.ctype[cid] = ['dict', ksort, vt, 'r%d' % cid if vt == 'set' else None]

    # -- obligations
    def oblige(self, st, name, goal, node=None):
        if z3.is_true(goal):
            goal = z3.BoolVal(True)
        if not self.quiet:
            where = ' (line %d)' % (self.line0 + node.lineno - 1) if node is not None and hasattr(node, 'lineno') else ''
            self.obls.append((self.prefix + name + where, list(st.path), goal))

    def probe(self, st, name):
        if not self.quiet and not self.depth:
            self.probes.append((self.prefix + name, list(st.path)))

    def need(self, st, name, cond, node):
        """cond or an exception: inside try it forks, outside it is an obligation"""
        if self.tries and (self.tries[-1][0] == 'KeyError' or name == 'attribute'):
            s2 = st.clone()
            s2.path.append(z3.Not(cond))
            self.tries[-1].append(s2)
        elif self.depth == 0 and self.contract.may_fail:
            pass
        else:
            self.oblige(st, name, cond, node)
        st.path.append(cond)

    # -- set access
    def setarr(self, st, v):
        if isinstance(v, SetC):
            return st.cells[v.cid]['s']
        if isinstance(v, SetR):
            return z3.Select(st.heap[v.region], v.ref)
        if isinstance(v, FreshSet):
            return v.arr
        if isinstance(v, Snap) and v.sort == K:
            return v.arr
        if isinstance(v, DictC):
            ty = self.ctype.get(v.cid)
            if ty is None:
                return z3.K(K, z3.BoolVal(False))
            if ty[1] == K:
                return self.cell(st, v.cid)['dom']
        if isinstance(v, View) and v.which == 'keys':
            return self.setarr(st, v.d)
        if isinstance(v, TupV) and not v.items:
            return z3.K(K, z3.BoolVal(False))
        if isinstance(v, OptV) and isinstance(v.val, (SetC, SetR)):
            return z3.If(v.present, self.setarr(st, v.val), z3.K(K, z3.BoolVal(False)))
        if isinstance(v, ConstV) and v.v in ((), frozenset()):
            return z3.K(K, z3.BoolVal(False))
        raise CantFollow('not a set: %s' % type(v).__name__)

    def setput(self, st, v, arr):
        if isinstance(v, SetC):
            self.setcell(st, v.cid, s=arr)
        elif isinstance(v, SetR):
            st.heap[v.region] = z3.Store(st.heap[v.region], v.ref, arr)
            self.w('heap', v.region)
        else:
            raise CantFollow('not a set object: %s' % type(v).__name__)

    def dom(self, st, d, k):
        if isinstance(d, DictC):
            if d.cid not in self.ctype:
                return z3.BoolVal(False)
            return z3.Select(self.cell(st, d.cid)['dom'], k)
        raise CantFollow('not a dictionary')

    def key(self, v):
        if isinstance(v, KV):
            return v.t
        if isinstance(v, TupV) and len(v.items) == 2:
            return P.pair(*[self.key(x) for x in v.items])
        if isinstance(v, ConstV):
            return self.const_key(v.v)
        if isinstance(v, NoneV):
            return self.const_key(None)
        raise CantFollow('not a key: %s' % type(v).__name__)

    _ck = {}

    def const_key(self, c):
        if c not in self._ck:
            self._ck[c] = z3.Const('const_%r' % (c,), K)
        return self._ck[c]

    def load(self, st, ty, t):
        if ty[2] == 'set':
            return SetR(ty[3], t)
        return {'num': NV, 'K': KV, 'int': IV, 'bool': BV}[ty[2]](t)

    def getitem(self, st, d, kv, node, strict=True):
        if isinstance(d, TupV):
            if isinstance(kv, ConstV) and isinstance(kv.v, int):
                return d.items[kv.v]
            raise CantFollow('tuple index')
        if not isinstance(d, DictC):
            raise CantFollow('subscript of %s' % type(d).__name__)
        k = self.key(kv)
        if d.cid in self.default:
            self.setdefault(st, d, k, FreshSet(z3.K(K, z3.BoolVal(False))))
        ty = self.ctype.get(d.cid)
        if ty is None:
            if self.quiet:
                raise Untyped()
            # nothing was ever put into it
            self.need(st, 'no KeyError', z3.BoolVal(False), node)
            raise CantFollow('type of a dictionary unknown')
        c = self.cell(st, d.cid)
        if strict:
            self.need(st, 'no KeyError', z3.Select(c['dom'], k), node)
        return self.load(st, ty, z3.Select(c['val'], k))

    def vtype(self, v):
        if isinstance(v, (SetC, SetR, FreshSet)):
            return 'set'
        if isinstance(v, NV) or isinstance(v, ConstV) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            return 'num'
        if isinstance(v, IV):
            return 'int'
        if isinstance(v, KV):
            return 'K'
        if isinstance(v, BV) or isinstance(v, ConstV) and isinstance(v.v, bool):
            return 'bool'
        raise CantFollow('value kept in a dictionary: %s' % type(v).__name__)

    def store_term(self, st, ty, v):
        """the term stored for a value; sets get or keep their identity"""
        if ty[2] == 'set':
            if isinstance(v, SetR):
                if v.region != ty[3]:
                    raise CantFollow('a set moved between dictionaries')
                return v.ref
            if isinstance(v, FreshSet):
                r = self.alloc(st, ty[3], v.arr)
                return r
            if isinstance(v, SetC):
                r = self.alloc(st, ty[3], st.cells[v.cid]['s'])
                for n, x in list(st.locals.items()):
                    if isinstance(x, SetC) and x.cid == v.cid:
                        st.locals[n] = SetR(ty[3], r)
                        self.w('local', n)
                return r
            raise CantFollow('not a set stored')
        if ty[2] == 'num':
            return self.num(v)
        if ty[2] == 'int':
            return self.integer(v)
        if ty[2] == 'K':
            return self.key(v)
        if ty[2] == 'bool':
            return self.truth(st, v)
        raise CantFollow('store')

    def alloc(self, st, region, arr):
        r = st.nxt
        st.nxt = st.nxt + 1
        if region not in st.heap:
            st.heap[region] = fresh('H', z3.ArraySort(I, SETS))
        st.heap[region] = z3.Store(st.heap[region], r, arr)
        self.w('heap', region)
        self.w('nxt')
        return r

    def setitem(self, st, d, kv, v):
        if not isinstance(d, DictC):
            raise CantFollow('store into %s' % type(d).__name__)
        k = self.key(kv)
        self.settle(d.cid, k.sort(), self.vtype(v))
        ty = self.ctype[d.cid]
        c = self.cell(st, d.cid)
        t = self.store_term(st, ty, v)
        c = self.cell(st, d.cid)
        if z3.is_app(t) and t.num_args() and not z3.is_bool(t):         # so that patterns have no conditionals
            n = fresh('put', t.sort())
            st.path.append(n == t)
            t = n
        val = z3.Store(c['val'], k, t)
        if self.contract.env.get('__name_stores__') and ty[1] == K:
            n = fresh('val', val.sort())
            st.path.append(n == val)
            val = n
        self.setcell(st, d.cid, dom=z3.Store(c['dom'], k, z3.BoolVal(True)), val=val)

    def setdefault(self, st, d, k, v):
        self.settle(d.cid, k.sort(), self.vtype(v))
        ty = self.ctype[d.cid]
        c = self.cell(st, d.cid)
        there = z3.Select(c['dom'], k)
        if isinstance(v, FreshSet):
            r = self.alloc(st, ty[3], v.arr)
            t = z3.If(there, z3.Select(c['val'], k), r)
        else:
            t = z3.If(there, z3.Select(c['val'], k), self.store_term(st, ty, v))
        # name the value, so that patterns can see it
        n = fresh('sd', t.sort())
        st.path.append(n == t)
        self.setcell(st, d.cid, dom=z3.Store(c['dom'], k, z3.BoolVal(True)), val=z3.Store(c['val'], k, n))
        return self.load(st, ty, n)

    def delitem(self, st, d, kv, node):
        k = self.key(kv)
        if not isinstance(d, DictC) or d.cid not in self.ctype:
            raise CantFollow('del')
        c = self.cell(st, d.cid)
        self.need(st, 'no KeyError', z3.Select(c['dom'], k), node)
        self.setcell(st, d.cid, dom=z3.Store(c['dom'], k, z3.BoolVal(False)))

    # -- conversions
    def num(self, v):
        if isinstance(v, NV):
            return v.t
        if isinstance(v, IV):
            return z3.ToReal(v.t)
        if isinstance(v, ConstV) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            return z3.RealVal(v.v)
        if isinstance(v, BV):
            return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
        raise CantFollow('not a number: %s' % type(v).__name__)

    def integer(self, v):
        if isinstance(v, IV):
            return v.t
        if isinstance(v, ConstV) and isinstance(v.v, int):
            return z3.IntVal(v.v)
        raise CantFollow('not an integer')

    def unopt(self, st, v, node):
        if isinstance(v, OptV):
            self.need(st, 'no use of None', v.present, node)
            return v.val
        if isinstance(v, NoneV):
            self.need(st, 'no use of None', z3.BoolVal(False), node)
            raise CantFollow('use of None')
        return v

    def truth(self, st, v):
        if isinstance(v, BV):
            return v.t
        if isinstance(v, NoneV):
            return z3.BoolVal(False)
        if isinstance(v, ConstV):
            return z3.BoolVal(bool(v.v))
        if isinstance(v, TupV):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, OptV):
            return z3.And(v.present, self.truth(st, v.val))
        if isinstance(v, IV):
            return v.t != 0
        if isinstance(v, NV):
            return v.t != 0
        if isinstance(v, (ObjV, FuncV, ModV, FilterV)):
            return z3.BoolVal(True)
        if isinstance(v, AnyV):
            return fresh('any', B)
        if isinstance(v, DictC):
            if v.cid not in self.ctype:
                return z3.BoolVal(False)
            k = fresh('k', self.ctype[v.cid][1])
            return z3.Exists([k], z3.Select(self.cell(st, v.cid)['dom'], k))
        if isinstance(v, KV):
            raise CantFollow('truth of a key')
        k = fresh('k', K)
        return z3.Exists([k], z3.Select(self.setarr(st, v), k))

    # -- expressions
    def ev(self, st, e):
        f = getattr(self, 'ev_' + type(e).__name__, None)
        if f is None:
            raise CantFollow('expression %s (line %d)' % (type(e).__name__, self.line0 + e.lineno - 1))
        return f(st, e)

    def ev_Constant(self, st, e):
        if e.value is None:
            return NoneV()
        if isinstance(e.value, bool):
            return BV(z3.BoolVal(e.value))
        return ConstV(e.value)

    def ev_Name(self, st, e):
        if e.id in st.locals:
            return st.locals[e.id]
        return self.glob(e.id)

    def glob(self, name):
        g = self.globals
        import builtins
        if name in g:
            v = g[name]
        elif hasattr(builtins, name):
            v = getattr(builtins, name)
        else:
            raise CantFollow('name %s' % name)
        return self.lift(v)

    def lift(self, v):
        if v is None:
            return NoneV()
        if isinstance(v, type):
            return PyClass(v)
        if callable(v):
            return FuncV(v)
        if inspect.ismodule(v):
            return ModV(v)
        return ConstV(v)

    def ev_Tuple(self, st, e):
        return TupV([self.ev(st, x) for x in e.elts])

    def ev_List(self, st, e):
        if e.elts:
            return TupV([self.ev(st, x) for x in e.elts])
        return FreshSet(z3.K(K, z3.BoolVal(False)))

    def ev_Dict(self, st, e):
        if e.keys:
            raise CantFollow('dictionary display')
        return FreshDict(False)

    def ev_Set(self, st, e):
        a = z3.K(K, z3.BoolVal(False))
        for x in e.elts:
            a = z3.Store(a, self.key(self.ev(st, x)), z3.BoolVal(True))
        return FreshSet(a)

    def comp(self, st, e, elts):
        """what a comprehension runs over: (array, sort, x, condition, values for an arbitrary x)"""
        if len(e.generators) != 1 or e.generators[0].is_async:
            raise CantFollow('comprehension over several')
        g = e.generators[0]
        it = self.iteration(st, self.ev(st, g.iter), e)
        if it is None:
            raise CantFollow('comprehension over a fixed number')
        arr, sort, elem, _ = it
        x = fresh('x', sort)
        s = st.clone()
        s.path.append(arr[x])
        n = len(s.path)
        save, self.written = self.written, set()
        try:
            self.assign(s, g.target, elem(s, x))
            cond = []
            for c in g.ifs:
                t = self.truth(s, self.ev(s, c))
                cond.append(t)
                s.path.append(t)
            vals = [self.ev(s, y) for y in elts]
            wrote = {y for y in self.written if y[0] != 'local'}
        finally:
            self.written = save
        if wrote or len(s.path) != n + len(cond):
            raise CantFollow('comprehension that does more than look')
        return arr, sort, x, z3.And(arr[x], *cond), vals

    def compdict(self, st, e, k, v):
        arr, sort, x, cond, (kv, val) = self.comp(st, e, [k, v])
        if not self.key(kv).eq(x):
            raise CantFollow('comprehension with other keys')
        vt = self.vtype(val)
        if vt == 'set':
            raise CantFollow('comprehension of sets')
        cid = self.newcid()
        self.ctype[cid] = ['dict', sort, vt, None]
        ty = self.ctype[cid]
        t = self.store_term(st, ty, val)
        dom, vals = fresh('dom', z3.ArraySort(sort, B)), fresh('val', z3.ArraySort(sort, self.zsort(vt)))
        body = z3.And(dom[x] == cond, z3.Implies(dom[x], vals[x] == t))
        for p in (dom[x], vals[x], arr[x]):
            if not z3.is_const_array(arr):
                st.path.append(z3.ForAll([x], body, patterns=[p]))
        st.cells[cid] = dict(dom=dom, val=vals)
        self.w('cell', cid)
        return DictC(cid)

    def compset(self, st, e, elt):
        arr, sort, x, cond, (v,) = self.comp(st, e, [elt])
        t = self.key(v)
        if t.sort() != K:
            raise CantFollow('set of pairs')
        n, k = fresh('s', SETS), fresh('k', K)
        if sort == K and t.eq(x):
            st.path.append(z3.ForAll([x], n[x] == cond, patterns=[n[x]]))
            st.path.append(z3.ForAll([x], n[x] == cond, patterns=[arr[x]]))
        else:
            st.path.append(z3.ForAll([k], z3.Implies(n[k], z3.Exists([x], z3.And(cond, t == k))), patterns=[n[k]]))
            st.path.append(z3.ForAll([x], z3.Implies(cond, n[t]), patterns=[arr[x]]))
        return FreshSet(n)

    def ev_DictComp(self, st, e):
        return self.compdict(st, e, e.key, e.value)

    def ev_SetComp(self, st, e):
        return self.compset(st, e, e.elt)

    def ev_Attribute(self, st, e):
        o = self.ev(st, e.value)
        return self.attr(st, o, e.attr)

    def attr(self, st, o, name):
        if isinstance(o, ModV):
            return self.lift(getattr(o.mod, name))
        if isinstance(o, NV) and name in ('real', 'imag'):
            return NV({'real': RE, 'imag': IM}[name](o.t))
        if isinstance(o, ObjV):
            if (o.oid, name) in st.fields:
                return st.fields[o.oid, name]
            if name == '__class__':
                return Bound(o, '__class__')
            return Bound(o, name)
        path, b = name, o
        while isinstance(b, Bound):
            path, b = b.attr + '.' + path, b.obj
        f = self.contract.env.get('__attrs__', {}).get(path)
        if f is not None and isinstance(b, KV):
            return f(b.t)
        f = self.contract.env.get('__maybe__', {}).get(path)
        if f is not None and isinstance(b, KV):
            if not self.tries or self.tries[-1][0] != 'AttributeError':
                raise CantFollow('an attribute that may not be there')
            self.need(st, 'attribute', f(b.t), None)
        return Bound(o, name)

    def ev_Subscript(self, st, e):
        d = self.ev(st, e.value)
        k = self.ev(st, e.slice)
        return self.getitem(st, self.unopt(st, d, e), k, e)

    def ev_IfExp(self, st, e):
        c = self.truth(st, self.ev(st, e.test))
        s1, s2 = st.clone(), st.clone()
        raise CantFollow('conditional expression')

    def ev_UnaryOp(self, st, e):
        v = self.ev(st, e.operand)
        if isinstance(e.op, ast.Not):
            return BV(z3.Not(self.truth(st, v)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, IV):
                return IV(-v.t)
            if isinstance(v, ConstV):
                return ConstV(-v.v)
            return NV(prod(z3.RealVal(-1), self.num(self.unopt(st, v, e))))
        raise CantFollow('operator')

    def ev_BoolOp(self, st, e):
        # short circuit: later operands are evaluated under the earlier ones
        out = []
        n0 = len(st.path)
        guards = []
        for x in e.values:
            t = self.truth(st, self.ev(st, x))
            out.append(t)
            g = t if isinstance(e.op, ast.And) else z3.Not(t)
            if z3.is_false(g):
                break
            guards.append(g)
            st.path.append(g)
        # facts learned under the guards hold only under them
        new = st.path[n0:]
        del st.path[n0:]
        k = 0
        pref = []
        for f in new:
            if k < len(guards) and f is guards[k]:
                pref.append(f)
                k += 1
            else:
                st.path.append(z3.Implies(z3.And(*pref), f) if pref else f)
        return BV(z3.And(*out) if isinstance(e.op, ast.And) else z3.Or(*out))

    def ev_BinOp(self, st, e):
        a, b = self.ev(st, e.left), self.ev(st, e.right)
        return self.binop(st, type(e.op).__name__, a, b, e)

    def isset(self, v):
        return isinstance(v, (SetC, SetR, FreshSet)) or isinstance(v, Snap) or isinstance(v, View) and v.which == 'keys'

    def setop(self, st, op, a, b):
        x, y = self.setarr(st, a), self.setarr(st, b)
        if z3.is_app_of(y, z3.Z3_OP_ITE):
            y2 = fresh('s', SETS)
            st.path.append(y2 == y)
            y = y2
        n = fresh('s', SETS)
        k = fresh('k', K)
        f = {'Sub': lambda p, q: z3.And(p, z3.Not(q)), 'BitOr': z3.Or, 'BitAnd': z3.And, 'BitXor': lambda p, q: p != q}[op]
        st.path.append(z3.ForAll([k], n[k] == f(x[k], y[k]), patterns=[n[k]]))
        # membership in the operands also determines membership in the result
        for z in (x, y):
            if not z3.is_const_array(z) and not z3.is_store(z):
                st.path.append(z3.ForAll([k], n[k] == f(x[k], y[k]), patterns=[z[k]]))
        return FreshSet(n)

    def binop(self, st, op, a, b, node):
        a, b = self.unopt(st, a, node), self.unopt(st, b, node)
        if isinstance(a, AnyV) or isinstance(b, AnyV):
            return AnyV()
        if self.isset(a) and self.isset(b) and op in ('Sub', 'BitOr', 'BitAnd', 'BitXor'):
            return self.setop(st, op, a, b)
        if isinstance(a, TupV) and isinstance(b, TupV) and op == 'Add':
            return TupV(a.items + b.items)
        ai = isinstance(a, IV) or isinstance(a, ConstV) and isinstance(a.v, int)
        bi = isinstance(b, IV) or isinstance(b, ConstV) and isinstance(b.v, int)
        if ai and bi and (isinstance(a, IV) or isinstance(b, IV)) and op in ('Add', 'Sub', 'Mult'):
            x, y = self.integer(a), self.integer(b)
            return IV({'Add': x + y, 'Sub': x - y, 'Mult': x * y}[op])
        if isinstance(a, ConstV) and isinstance(b, ConstV):
            raise CantFollow('constant arithmetic')
        x, y = self.num(a), self.num(b)
        if op == 'Pow' and isinstance(b, ConstV) and b.v == .5:
            return NV(SQRT(x))
        if op == 'Pow' and isinstance(b, ConstV) and b.v == 2:
            return NV(prod(x, x))
        if op == 'Add':
            return NV(x + y)
        if op == 'Sub':
            return NV(x - y)
        if op == 'Mult':
            return NV(prod(x, y))
        if op == 'Div':
            return NV(prod(x, recip(y)))
        raise CantFollow('operator %s' % op)

    def ev_Compare(self, st, e):
        l = self.ev(st, e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(st, r)
            out.append(self.compare(st, type(op).__name__, l, r))
            l = r
        return BV(z3.And(*out) if len(out) > 1 else out[0])

    def compare(self, st, op, l, r):
        if op in ('Is', 'IsNot'):
            if isinstance(r, NoneV):
                t = z3.BoolVal(True) if isinstance(l, NoneV) else z3.Not(l.present) if isinstance(l, OptV) else z3.BoolVal(False)
            elif isinstance(l, ConstV) and isinstance(r, ConstV) and (type(l.v) is bool or not isinstance(l.v, (int, float, str))):
                t = z3.BoolVal(l.v is r.v)
            elif isinstance(l, OptV) and isinstance(r, ConstV) and isinstance(getattr(l, 'dflt', None), ConstV) and l.dflt.v is r.v:
                t = z3.Not(l.present)
            elif isinstance(l, NoneV):
                t = z3.BoolVal(False)
            elif isinstance(l, KV) and isinstance(r, KV):
                if not self.contract.env.get('__identity__'):
                    raise CantFollow('identity of keys')
                t = l.t == r.t          # things that only equal themselves
            else:
                raise CantFollow('is')
            return z3.Not(t) if op == 'IsNot' else t
        if op in ('In', 'NotIn'):
            t = self.contains(st, l, r)
            return z3.Not(t) if op == 'NotIn' else t
        if op in ('Eq', 'NotEq'):
            t = self.equal(st, l, r)
            return z3.Not(t) if op == 'NotEq' else t
        if isinstance(l, AnyV) or isinstance(r, AnyV):
            return fresh('any', B)
        if isinstance(l, (IV, NV)) or isinstance(r, (IV, NV)):
            if isinstance(l, IV) or isinstance(r, IV):
                x, y = self.integer(l), self.integer(r)
                return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        raise CantFollow('comparison %s' % op)

    def equal(self, st, l, r):
        if isinstance(l, AnyV) or isinstance(r, AnyV):
            return fresh('any', B)
        if isinstance(l, NoneV) or isinstance(r, NoneV):
            return z3.BoolVal(isinstance(l, NoneV) and isinstance(r, NoneV))
        if isinstance(l, IV) or isinstance(r, IV):
            return self.integer(l) == self.integer(r)
        if isinstance(l, NV) or isinstance(r, NV):
            return self.num(l) == self.num(r)
        if isinstance(l, KV) or isinstance(r, KV):
            return self.key(l) == self.key(r)
        if isinstance(l, TupV) and isinstance(r, TupV):
            if len(l.items) != len(r.items):
                return z3.BoolVal(False)
            return z3.And(*[self.equal(st, a, b) for a, b in zip(l.items, r.items)])
        if isinstance(l, BV) and isinstance(r, BV):
            return l.t == r.t
        if isinstance(l, DictC) and isinstance(r, DictC):
            a, b = self.cell(st, l.cid), self.cell(st, r.cid)
            ty = self.ctype[l.cid]
            if ty[2] == 'set':
                raise CantFollow('equality of dictionaries of sets')
            k = fresh('k', ty[1])
            return z3.ForAll([k], z3.And(a['dom'][k] == b['dom'][k], z3.Implies(a['dom'][k], a['val'][k] == b['val'][k])))
        if isinstance(l, OptV) and isinstance(r, (KV, NV, IV, ConstV)):
            return z3.And(l.present, self.equal(st, l.val, r))
        if isinstance(r, OptV) and isinstance(l, (KV, NV, IV, ConstV)):
            return self.equal(st, r, l)
        raise CantFollow('equality of %s and %s' % (type(l).__name__, type(r).__name__))

    def contains(self, st, x, c):
        if isinstance(c, DictC):
            if c.cid not in self.ctype:
                return z3.BoolVal(False)
            return self.dom(st, c, self.key(x))
        if isinstance(c, View) and c.which == 'keys':
            return self.contains(st, x, c.d)
        if isinstance(c, TupV):
            return z3.Or(*[self.equal(st, x, y) for y in c.items]) if c.items else z3.BoolVal(False)
        if isinstance(c, Snap):
            return z3.Select(c.arr, self.key(x))
        return z3.Select(self.setarr(st, c), self.key(x))

    # -- calls
    def ev_Call(self, st, e):
        if isinstance(e.func, ast.Attribute):
            o = self.ev(st, e.func.value)
            name = e.func.attr
            if isinstance(o, ModV):
                f = self.lift(getattr(o.mod, name))
                return self.call(st, f, e)
            return self.method(st, o, name, e)
        f = self.ev(st, e.func)
        return self.call(st, f, e)

    def args(self, st, e):
        a = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                raise CantFollow('*args')
            a.append(self.ev(st, x))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw['**'] = self.ev(st, k.value)
            else:
                kw[k.arg] = self.ev(st, k.value)
        return a, kw

    def snapshot(self, st, v):
        if isinstance(v, Snap):
            return v
        if isinstance(v, OptV):
            return Snap(self.setarr(st, v), K, lambda s, x: KV(x))
        if isinstance(v, View) or isinstance(v, DictC):
            d = v.d if isinstance(v, View) else v
            which = v.which if isinstance(v, View) else 'keys'
            if d.cid not in self.ctype:
                return Snap(z3.K(K, z3.BoolVal(False)), K, None)
            ty = self.ctype[d.cid]
            c = self.cell(st, d.cid)
            val = c['val']
            kv = (lambda x: KV(x)) if ty[1] == K else (lambda x: TupV([KV(P.fst(x)), KV(P.snd(x))]))
            if which == 'keys':
                return Snap(c['dom'], ty[1], lambda s, x: kv(x))
            if which == 'items':
                return Snap(c['dom'], ty[1], lambda s, x: TupV([kv(x), self.load(s, ty, z3.Select(val, x))]))
            return Snap(c['dom'], ty[1], lambda s, x: self.load(s, ty, z3.Select(val, x)))
        return Snap(self.setarr(st, v), K, lambda s, x: KV(x))

    def call(self, st, f, e):
        if isinstance(f, PyClass) and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and not e.keywords:
            g = e.args[0]
            if f.cls is dict and isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2:
                return self.compdict(st, g, *g.elt.elts)
            if f.cls in (set, frozenset):
                return self.compset(st, g, g.elt)
            raise CantFollow('comprehension')
        if isinstance(f, FuncV) and f.func in (any, all) and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            g = e.args[0]
            arr, sort, x, cond, (v,) = self.comp(st, g, [g.elt])
            t = self.truth(st, v)
            return BV(z3.Exists([x], z3.And(cond, t)) if f.func is any else z3.ForAll([x], z3.Implies(cond, t)))
        if isinstance(f, PyClass):
            a, kw = self.args(st, e)
            from collections import defaultdict
            if f.cls is set or f.cls is frozenset:
                if not a:
                    return FreshSet(z3.K(K, z3.BoolVal(False)))
                if isinstance(a[0], TupV):
                    r = z3.K(K, z3.BoolVal(False))
                    for x in a[0].items:
                        r = z3.Store(r, self.key(x), z3.BoolVal(True))
                    return FreshSet(r)
                s = self.snapshot(st, a[0])
                if s.sort != K:
                    raise CantFollow('set of pairs')
                return FreshSet(s.arr)
            if f.cls in (list, tuple):
                if not a:
                    return FreshSet(z3.K(K, z3.BoolVal(False)))
                if isinstance(a[0], TupV):
                    return a[0]
                return self.snapshot(st, a[0])
            if f.cls is dict:
                if not a and not kw:
                    return FreshDict(False)
                if len(a) == 1 and not kw:
                    d = a[0]
                    if isinstance(d, Snap) and getattr(d, 'asdict', None):
                        return d.asdict
                    if isinstance(d, DictC):
                        return self.copydict(st, d)
                raise CantFollow('dict()')
            if f.cls is defaultdict:
                if len(a) == 1 and isinstance(a[0], PyClass) and a[0].cls is set:
                    return FreshDict(True)
                raise CantFollow('defaultdict')
            if f.cls is str:
                raise CantFollow('str()')
            if f.cls.__name__ in self.contract.env.get('__queues__', ()) and not a and not kw:
                cid = self.newcid()
                self.ctype[cid] = ['set']
                st.cells[cid] = dict(s=z3.K(K, z3.BoolVal(False)))
                self.w('cell', cid)
                return QueueC(cid)
            return self.construct(st, f.cls, a, kw, e)
        if isinstance(f, PureDef):
            self.args(st, e)
            return AnyV()
        if isinstance(f, Bound):
            if f.attr == '__class__':
                a, kw = self.args(st, e)
                return self.construct(st, f.obj, a, kw, e)
            return self.method(st, f.obj, f.attr, e)
        if isinstance(f, (FilterV, FilterOf)):
            a, kw = self.args(st, e)
            if len(a) != 1 or kw:
                raise CantFollow('call of a filter')
            if isinstance(f, FilterV):
                return FilterOf(f.rule, self.place(st, a[0]))
            n, x, k = fresh('pass', SETS), fresh('x', K), self.key(a[0])
            pool = self.setarr(st, f.pool)
            st.path.append(z3.ForAll([x], n[x] == z3.And(pool[x], f.rule(k, x)), patterns=[n[x]]))
            st.path.append(z3.ForAll([x], n[x] == z3.And(pool[x], f.rule(k, x)), patterns=[pool[x]]))
            return Snap(n, K, lambda s, y: KV(y))
        if not isinstance(f, FuncV):
            raise CantFollow('call of %s' % type(f).__name__)
        import warnings
        if f.func in (warnings.warn, print):
            if f.func is warnings.warn and not self.contract.may_fail:
                self.oblige(st, 'no warning', z3.BoolVal(False), e)
            return NoneV()
        uf = self.contract.env.get('__functions__', {}).get(getattr(f.func, '__name__', None))
        if uf is not None and self.globals.get(f.func.__name__) is f.func:
            return NV(uf(self.num(self.unopt(st, self.ev(st, e.args[0]), e))))
        if getattr(f.func, '__name__', None) == 'any' and getattr(f.func, '__module__', '') == 'numpy':
            v = self.ev(st, e.args[0])      # couplings are one element of a ring: all of an array, or not
            if not isinstance(v, BV):
                raise CantFollow('np.any')
            return v
        if self.contract.env.get('__heuristics__') and (f.func is max or getattr(f.func, '__name__', None) in ('max', 'amax') and getattr(f.func, '__module__', '') == 'numpy'):
            self.args(st, e)
            return AnyV()
        if f.func is sorted:
            return self.snapshot(st, self.ev(st, e.args[0]))
        if f.func is repr:
            return ConstV('repr')
        if f.func is abs:
            return NV(ABS(self.num(self.ev(st, e.args[0]))))
        if f.func is len:
            # some number: only whether it is zero is known
            v = self.ev(st, e.args[0])
            n = fresh('len', I)
            st.path.append(n >= 0)
            if not isinstance(v, ObjV):
                st.path.append((n == 0) == z3.Not(self.truth(st, v)))
            return IV(n)
        if f.func is iter:
            v = self.ev(st, e.args[0])
            return View(v, 'keys') if isinstance(v, DictC) else self.snapshot(st, v)
        if f.func is isinstance:
            v = self.ev(st, e.args[0])
            c = self.ev(st, e.args[1])
            return self.isinstance_(st, v, c)
        return self.call_function(st, f.func, e)

    def isinstance_(self, st, v, c):
        if isinstance(v, ObjV) and isinstance(c, Bound) and c.attr == '__class__' and isinstance(c.obj, ObjV) and c.obj.name == v.name:
            return BV(z3.BoolVal(True))
        if isinstance(v, KV) and isinstance(c, PyClass) and c.cls in self.contract.env.get('__kinds__', {}):
            return BV(self.contract.env['__kinds__'][c.cls](v.t))
        if isinstance(v, KV) and isinstance(c, PyClass) and c.cls in self.contract.env.get('__not__', ()):
            return BV(z3.BoolVal(False))
        raise CantFollow('isinstance')

    def construct(self, st, cls, a, kw, e):
        if isinstance(cls, ObjV):
            cls = self.classes.get(cls.name)
        names = [n for n, c in self.classes.items() if c is cls]
        if not names or '__new__' in vars(cls):
            raise CantFollow('construction of %s' % getattr(cls, '__name__', cls))
        o = ObjV(names[0], 'new %d' % self.newcid())
        self.apply(st, cls.__init__, [o] + a, kw, e)
        return o

    def copydict(self, st, d):
        if d.cid not in self.ctype:
            return FreshDict(False)
        ty = self.ctype[d.cid]
        if ty[2] == 'set':
            raise CantFollow('copy of a dictionary of sets')
        cid = self.newcid()
        self.ctype[cid] = list(ty)
        c = self.cell(st, d.cid)
        st.cells[cid] = dict(c)
        self.w('cell', cid)
        return DictC(cid)

    def call_function(self, st, func, e, extra=()):
        a, kw = self.args(st, e)
        return self.apply(st, func, list(extra) + a, kw, e)

    def bind(self, st, func, a, kw):
        kw = dict(kw)
        star = kw.pop('**', None)
        if isinstance(star, DictC) and star.cid in self.ctype:
            star = self.copydict(st, star)      # a new dictionary is made of them
        if isinstance(star, FreshDict) or isinstance(star, DictC) and star.cid not in self.ctype:
            star = None
        if star is not None and (kw or not any(p.kind == p.VAR_KEYWORD for p in inspect.signature(func).parameters.values())):
            raise CantFollow('**kwargs')
        sig = inspect.signature(func)
        try:
            ba = sig.bind(*a, **kw)
        except TypeError as x:
            raise CantFollow('call: %s' % x)
        out = {}
        for n, p in sig.parameters.items():
            if n in ba.arguments:
                v = ba.arguments[n]
                if p.kind == p.VAR_KEYWORD:
                    out[n] = FreshDict(False)
                elif p.kind == p.VAR_POSITIONAL:
                    out[n] = TupV(list(v))
                else:
                    out[n] = v
            elif p.kind == p.VAR_KEYWORD:
                out[n] = star if star is not None else FreshDict(False)
            elif p.kind == p.VAR_POSITIONAL:
                out[n] = TupV([])
            elif p.default is p.empty:
                raise CantFollow('call: %s' % n)
            else:
                out[n] = self.lift(p.default)
        return out

    def matches(self, st, ty, v, locs):
        if isinstance(ty, tuple) and ty[0] == 'alias':
            o = locs.get(ty[1])
            return isinstance(v, DictC) and isinstance(o, DictC) and v.cid == o.cid
        if isinstance(ty, tuple) and ty[0] == 'tuple':
            return isinstance(v, TupV) and len(v.items) == len(ty[1]) and all(self.matches(st, t, x, locs) for t, x in zip(ty[1].values() if isinstance(ty[1], dict) else ty[1], v.items))
        if isinstance(ty, tuple) and ty[0] == 'obj':
            return isinstance(v, ObjV) and all((v.oid, f) in st.fields and self.matches(st, t, st.fields[v.oid, f], locs) for f, t in ty[1].items())
        if ty == 'any':
            return True
        if ty == 'none':
            return isinstance(v, NoneV)
        if ty == 'K':
            return isinstance(v, KV)
        if ty == 'num':
            return isinstance(v, NV)
        if ty == 'int':
            return isinstance(v, IV)
        if ty == 'set':
            return isinstance(v, (SetC, SetR))
        if isinstance(v, DictC) and isinstance(ty, str) and 'dict:' in ty:
            k, vt = ty.split('dict:')
            if (k == 'd') != (v.cid in self.default):
                return False
            k = '' if k == 'd' else k
            want = (K if k == 'k' or vt == 'set' and k == '' else P, vt)
            c = self.ctype.get(v.cid)
            return c is not None and (c[1], c[2]) == want
        return False

    def apply(self, st, func, a, kw, node):
        locs = self.bind(st, func, a, kw)
        for c in self.contracts.get(func, ()):
            if all(self.matches(st, ty, locs[n], locs) for n, ty in c.params.items() if n in locs):
                return self.apply_contract(st, c, locs, node)
        if self.contracts.get(func):
            raise CantFollow('no case of the contract of %s fits the call' % func.__name__)
        if getattr(func, '__module__', '').startswith('phasor.') and self.depth < 4:
            return self.inline(st, func, locs, node)
        raise CantFollow('call of %s' % getattr(func, '__name__', func))

    def apply_contract(self, st, c, locs, node):
        # fresh containers get an identity
        for n, v in list(locs.items()):
            if isinstance(v, (FreshSet, FreshDict)):
                locs[n] = self.place(st, v)
        cst = st.clone()
        cst.locals = dict(locs)
        pre = E(self, cst)
        if c.requires:
            for nm, f in c.requires(pre):
                self.oblige(st, 'precondition of %s: %s' % (c.label, nm), f, node)
                st.path.append(f)
        old = st.clone()
        old.locals = dict(locs)
        for m in c.modifies:
            v = pre.v(m)
            if isinstance(v, DictC):
                self.havoc_cell(st, v.cid)
                self.w('cell', v.cid)
                ty = self.ctype.get(v.cid)
                if ty and ty[2] == 'set':
                    st.heap[ty[3]] = fresh('H', z3.ArraySort(I, SETS))
                    self.w('heap', ty[3])
                    n = fresh('nxt', I)
                    st.path.append(n >= st.nxt)
                    st.nxt = n
                    self.w('nxt')
            elif isinstance(v, SetC):
                self.havoc_cell(st, v.cid)
                self.w('cell', v.cid)
            elif isinstance(v, SetR):
                self.setput(st, v, fresh('s', SETS))
            elif isinstance(v, NoneV):
                pass
            else:
                raise CantFollow('modifies %s' % m)
        for m, ty in c.fields.items():
            n, f = m.rsplit('.', 1)
            o = pre.v(n)
            if ty != 'none':
                raise CantFollow('field of type %s' % ty)
            st.fields[o.oid, f] = NoneV()
            self.w('field', o.oid, f)
        res = NoneV()
        if c.result is not None:
            res = c.result(self, st, locs)
        new = st.clone()
        new.locals = dict(locs)
        if c.ensures:
            for nm, f in c.ensures(E(self, new, old=E(self, old), result=res)):
                st.path.append(f)
        if c.lemma:
            for nm, f in c.lemma(E(self, new, old=E(self, old), result=res)):
                st.path.append(f)
        return res

    def place(self, st, v):
        if isinstance(v, FreshSet):
            cid = self.newcid()
            self.ctype[cid] = ['set']
            st.cells[cid] = dict(s=v.arr)
            self.w('cell', cid)
            return SetC(cid)
        if isinstance(v, FreshDict):
            cid = self.newcid()
            if v.default:
                self.default.add(cid)
            return DictC(cid)
        return v

    def inline(self, st, func, locs, node):
        """a helper without a contract of its own: its body, here"""
        save = (self.globals, self.line0, self.loopno, self.loopspec, self.prefix, st.locals, self.contract)
        tree, g, line0 = source(func)
        for n, v in list(locs.items()):
            locs[n] = self.place(st, v)
        self.globals, self.line0 = g, line0
        self.loopno, self.loopspec = number_loops(tree), []
        self.depth += 1
        try:
            s = st.clone()
            s.locals = locs
            outs = self.block(s, tree.body)
        finally:
            self.globals, self.line0, self.loopno, self.loopspec, self.prefix, _, self.contract = save
            self.depth -= 1
        outs = [(x, o) for x, o in outs if o != 'dead']
        if len(outs) != 1:
            raise CantFollow('helper %s with several ways out' % func.__name__)
        x, o = outs[0]
        if isinstance(o, tuple) and o[0] == 'raise':
            raise CantFollow('helper raises')
        st.cells, st.heap, st.nxt, st.path, st.fields = x.cells, x.heap, x.nxt, x.path, x.fields
        st.locals = save[5]
        return o[1] if isinstance(o, tuple) and o[0] == 'return' else NoneV()

    def method(self, st, o, name, e):
        if isinstance(o, ObjV):
            return self.obj_method(st, o, name, e)
        if isinstance(o, OptV) or isinstance(o, NoneV):
            o = self.unopt(st, o, e)
        if isinstance(o, KV):
            for c in self.contract.env.get('__external__', {}).get(name, ()):
                a, kw = self.args(st, e)
                locs = self.bind(st, c.func, [o] + a, kw)
                if all(self.matches(st, ty, locs[n], locs) for n, ty in c.params.items()):
                    self.apply_contract(st, c, locs, e)
                    return NoneV()
        a, kw = self.args(st, e)
        if isinstance(o, NV) and name in ('conjugate', 'conj') and not a:
            return NV(CONJ(o.t))
        if isinstance(o, FreshDict):
            raise CantFollow('method of a new dictionary')
        if isinstance(o, DictC):
            if name in ('keys', 'items', 'values') and not a:
                return View(o, name)
            if name == 'get':
                k = self.key(a[0])
                if o.cid not in self.ctype:
                    return a[1] if len(a) > 1 else NoneV()
                ty = self.ctype[o.cid]
                c = self.cell(st, o.cid)
                there = z3.Select(c['dom'], k)
                val = self.load(st, ty, z3.Select(c['val'], k))
                dflt = a[1] if len(a) > 1 else NoneV()
                return self.choose_default(st, there, val, dflt)
            if name == 'setdefault':
                return self.setdefault(st, o, self.key(a[0]), a[1])
            if name == 'pop':
                k = self.key(a[0])
                if o.cid not in self.ctype:
                    raise CantFollow('pop')
                ty = self.ctype[o.cid]
                c = self.cell(st, o.cid)
                there = z3.Select(c['dom'], k)
                val = self.load(st, ty, z3.Select(c['val'], k))
                if len(a) == 1:
                    self.need(st, 'no KeyError', there, e)
                    r = val
                else:
                    r = self.choose_default(st, there, val, a[1])
                self.setcell(st, o.cid, dom=z3.Store(c['dom'], k, z3.BoolVal(False)))
                return r
            if name == 'update' and not a and list(kw) == ['**']:
                return self.dict_update(st, o, kw['**'])
            if name == 'update' and len(a) == 1 and not kw:
                return self.dict_update(st, o, a[0])
            if name == 'copy' and not a:
                return self.copydict(st, o)
            raise CantFollow('dictionary method %s' % name)
        if isinstance(o, QueueC):
            s = self.setarr(st, o)
            if name == 'push' and len(a) == 1 and isinstance(a[0], TupV) and len(a[0].items) == 2:
                k = self.key(a[0].items[1])
                self.oblige(st, 'nothing twice in the queue', z3.Not(z3.Select(s, k)), e)
                self.setput(st, o, z3.Store(s, k, z3.BoolVal(True)))
                return NoneV()
            if name == 'pop' and not a:
                k, j = fresh('popped', K), fresh('k', K)
                self.need(st, 'pop from an empty queue', z3.Exists([j], z3.Select(s, j)), e)
                st.path.append(z3.Select(s, k))
                self.setput(st, o, z3.Store(s, k, z3.BoolVal(False)))
                return TupV([AnyV(), KV(k)])
            raise CantFollow('queue method %s' % name)
        if isinstance(o, (SetC, SetR, FreshSet)):
            if isinstance(o, FreshSet) and name in ('add', 'remove', 'discard', 'update', 'pop', 'append'):
                raise CantFollow('change of an unnamed set')
            s = self.setarr(st, o)
            if name == 'append':
                # lists that are used as collections of distinct things
                self.oblige(st, 'nothing twice in a list', z3.Not(z3.Select(s, self.key(a[0]))), e)
            if name in ('add', 'append'):
                self.setput(st, o, z3.Store(s, self.key(a[0]), z3.BoolVal(True)))
                return NoneV()
            if name == 'remove':
                k = self.key(a[0])
                self.need(st, 'no KeyError', z3.Select(s, k), e)
                self.setput(st, o, z3.Store(s, k, z3.BoolVal(False)))
                return NoneV()
            if name == 'discard':
                self.setput(st, o, z3.Store(s, self.key(a[0]), z3.BoolVal(False)))
                return NoneV()
            if name == 'pop' and not a:
                k = fresh('popped', K)
                j = fresh('k', K)
                self.need(st, 'pop from an empty set', z3.Exists([j], z3.Select(s, j)), e)
                st.path.append(z3.Select(s, k))
                self.setput(st, o, z3.Store(s, k, z3.BoolVal(False)))
                return KV(k)
            if name in ('update', 'union', 'difference', 'intersection', 'difference_update', 'intersection_update'):
                op = {'update': 'BitOr', 'union': 'BitOr', 'diff': 'Sub', 'inte': 'BitAnd'}[name if name in ('update', 'union') else name[:4]]
                b = a[0]
                if isinstance(b, TupV):
                    arr = s
                    for x in b.items:
                        arr = z3.Store(arr, self.key(x), z3.BoolVal(True))
                    r = FreshSet(arr)
                else:
                    r = self.setop(st, op, o, self.snapshot(st, b))
                if name.endswith('update'):
                    self.setput(st, o, r.arr)
                    return NoneV()
                return r
            if name == 'keys' and not a:        # of a dictionary known by its keys
                return Snap(s, K, lambda s, x: KV(x))
            if name == 'clear':
                self.setput(st, o, z3.K(K, z3.BoolVal(False)))
                return NoneV()
            if name == 'copy':
                return FreshSet(s)
            if name in ('issubset', 'issuperset', 'isdisjoint'):
                b = self.setarr(st, self.snapshot(st, a[0]))
                k = fresh('k', K)
                f = {'issubset': lambda: z3.Implies(s[k], b[k]), 'issuperset': lambda: z3.Implies(b[k], s[k]), 'isdisjoint': lambda: z3.Not(z3.And(s[k], b[k]))}[name]()
                return BV(z3.ForAll([k], f))
            raise CantFollow('set method %s' % name)
        if isinstance(o, NV) and name in ('conjugate', 'conj'):
            return NV(CONJ(o.t))
        raise CantFollow('method %s of %s' % (name, type(o).__name__))

    def choose_default(self, st, there, val, dflt):
        if isinstance(dflt, NoneV):
            return OptV(there, val)
        if isinstance(val, NV):
            return NV(z3.If(there, val.t, self.num(dflt)))
        if isinstance(val, IV):
            return IV(z3.If(there, val.t, self.integer(dflt)))
        if isinstance(val, SetR):
            # an empty default that is not kept anywhere: reads as no elements
            if isinstance(dflt, TupV) and not dflt.items or isinstance(dflt, FreshSet) and z3.is_const_array(dflt.arr) or isinstance(dflt, ConstV):
                o = OptV(there, val)
                o.dflt = dflt
                return o
        if isinstance(val, KV) and isinstance(dflt, (ConstV, KV)):
            return KV(z3.If(there, val.t, self.key(dflt)))
        if isinstance(val, KV) and isinstance(dflt, PyClass):
            return KV(z3.If(there, val.t, self.const_key(dflt.cls)))
        raise CantFollow('default value')

    def dict_update(self, st, d, o):
        if isinstance(o, FreshDict):
            return NoneV()
        if not isinstance(o, DictC):
            raise CantFollow('update')
        if o.cid not in self.ctype:
            return NoneV()
        t2 = self.ctype[o.cid]
        if t2[2] == 'set':
            raise CantFollow('update of a dictionary of sets')
        self.settle(d.cid, t2[1], t2[2])
        if self.ctype[d.cid][1:3] != t2[1:3]:
            raise CantFollow('update of another kind')
        a, b = self.cell(st, d.cid), self.cell(st, o.cid)
        dom, val = fresh('dom', a['dom'].sort()), fresh('val', a['val'].sort())
        k = fresh('k', t2[1])
        body = z3.And(dom[k] == z3.Or(a['dom'][k], b['dom'][k]), val[k] == z3.If(b['dom'][k], b['val'][k], a['val'][k]))
        st.path.append(z3.ForAll([k], body, patterns=[dom[k]]))
        st.path.append(z3.ForAll([k], body, patterns=[val[k]]))
        self.setcell(st, d.cid, dom=dom, val=val)
        return NoneV()

    def obj_method(self, st, o, name, e):
        cls = self.classes.get(o.name) if hasattr(self, 'classes') else None
        if name == '__class__':
            a, kw = self.args(st, e)
            return self.construct(st, o, a, kw, e)
        if cls is not None and hasattr(cls, name):
            from collections import abc
            f = getattr(cls, name)
            if name in ('items', 'keys', 'values') and f is getattr(abc.Mapping, name):
                # the views of the standard library go by __iter__ and __getitem__
                v = self.apply(st, cls.__iter__, [o], {}, e)
                if not isinstance(v, View) or v.which != 'keys':
                    raise CantFollow('iteration over an object')
                return View(v.d, name)
            return self.call_function(st, f, e, extra=[o])
        raise CantFollow('method %s of an object' % name)

    # -- statements
    def block(self, st, stmts):
        states = [(st, 'next')]
        for s in stmts:
            out = []
            for x, o in states:
                if o != 'next':
                    out.append((x, o))
                else:
                    out.extend(self.stmt(x, s))
            states = out
            if len(states) > 64:
                raise CantFollow('too many paths')
        return states

    def stmt(self, st, s):
        f = getattr(self, 'st_' + type(s).__name__, None)
        if f is None:
            raise CantFollow('statement %s (line %d)' % (type(s).__name__, self.line0 + s.lineno - 1))
        try:
            return f(st, s)
        except Untyped:
            self.untyped += 1
            return []

    def st_Pass(self, st, s):
        return [(st, 'next')]

    def st_Continue(self, st, s):
        return [(st, 'continue')]

    def st_FunctionDef(self, st, s):
        """a function within, that only computes: stores to names of its own, calls what computes"""
        if not self.contract.env.get('__heuristics__') or s.decorator_list or s.args.defaults or s.args.kwonlyargs:
            raise CantFollow('function in a function')
        for x in ast.walk(s):
            if isinstance(x, (ast.Delete, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Lambda, ast.NamedExpr, ast.Raise, ast.While, ast.With, ast.Import, ast.ImportFrom, ast.ClassDef, ast.Assert)) \
                    or isinstance(x, ast.FunctionDef) and x is not s:
                raise CantFollow('function in a function: %s' % type(x).__name__)
            if isinstance(x, (ast.Subscript, ast.Attribute)) and not isinstance(x.ctx, ast.Load):
                raise CantFollow('function in a function: stores')
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('isinstance', 'len', 'abs', 'max', 'min', 'abssq', 'enorm')
                                                or isinstance(x.func, ast.Attribute) and x.func.attr in ('asanyarray', 'asarray', 'flatten', 'max', 'get')):
                raise CantFollow('function in a function: calls %s' % ast.unparse(x.func))
        st.locals[s.name] = PureDef()
        self.w('local', s.name)
        return [(st, 'next')]

    def st_Break(self, st, s):
        return [(st, 'break')]

    def st_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return [(st, 'next')]
        if isinstance(s.value, ast.Yield):
            return self.yields(st, s.value)
        self.ev(st, s.value)
        return [(st, 'next')]

    def yields(self, st, e):
        """what is yielded is entered in a table; then whoever takes it does what it is allowed to"""
        if self.depth or e.value is None or YIELD not in st.locals:
            raise CantFollow('yield')
        v = self.ev(st, e.value)
        if not isinstance(v, TupV) or len(v.items) != 2:
            raise CantFollow('yield of something else than a pair')
        self.setitem(st, st.locals[YIELD], v, BV(z3.BoolVal(True)))
        for c in self.contract.env.get('__meanwhile__', ()):
            self.apply_contract(st, c, {n: st.locals[n] for n in c.params}, e)
        return [(st, 'next')]

    def st_Return(self, st, s):
        v = self.ev(st, s.value) if s.value is not None else NoneV()
        return [(st, ('return', v))]

    def st_Assert(self, st, s):
        t = self.truth(st, self.ev(st, s.test))
        if not (self.depth == 0 and self.contract.may_fail):
            self.oblige(st, 'assertion', t, s)
        st.path.append(t)
        return [(st, 'next')]

    def st_Raise(self, st, s):
        return [(st, ('raise', ast.unparse(s.exc) if s.exc else '', s))]

    def st_Import(self, st, s):
        raise CantFollow('import')

    def assign(self, st, tgt, v):
        if isinstance(tgt, ast.Name):
            v = self.place(st, v)
            st.locals[tgt.id] = v
            self.w('local', tgt.id)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            if isinstance(v, AnyV):
                v = TupV([AnyV() for x in tgt.elts])
            if not isinstance(v, TupV) or len(v.items) != len(tgt.elts):
                raise CantFollow('unpacking')
            for t, x in zip(tgt.elts, v.items):
                self.assign(st, t, x)
        elif isinstance(tgt, ast.Subscript):
            d = self.ev(st, tgt.value)
            k = self.ev(st, tgt.slice)
            self.setitem(st, self.unopt(st, d, tgt), k, v)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(st, tgt.value)
            if not isinstance(o, ObjV):
                raise CantFollow('attribute of %s' % type(o).__name__)
            st.fields[o.oid, tgt.attr] = self.place(st, v)
            self.w('field', o.oid, tgt.attr)
        else:
            raise CantFollow('assignment')

    def st_Assign(self, st, s):
        v = self.ev(st, s.value)
        if len(s.targets) > 1:
            v = self.place(st, v)
        for t in s.targets:
            self.assign(st, t, v)
        return [(st, 'next')]

    def st_AugAssign(self, st, s):
        if isinstance(s.target, ast.Name):
            a = self.ev_Name(st, s.target)
            b = self.ev(st, s.value)
            op = type(s.op).__name__
            if isinstance(a, (SetC, SetR)) and op in ('BitOr', 'Sub', 'BitAnd', 'BitXor'):
                r = self.setop(st, op, a, self.snapshot(st, b))
                self.setput(st, a, r.arr)
                return [(st, 'next')]
            if isinstance(a, ConstV) and isinstance(b, ConstV):
                # counters: their value is not followed
                st.locals[s.target.id] = IV(fresh('n', I))
                self.w('local', s.target.id)
                return [(st, 'next')]
            self.assign(st, s.target, self.binop(st, op, a, b, s))
            return [(st, 'next')]
        if isinstance(s.target, ast.Subscript):
            d = self.ev(st, s.target.value)
            k = self.ev(st, s.target.slice)
            a = self.getitem(st, d, k, s)
            b = self.ev(st, s.value)
            op = type(s.op).__name__
            if isinstance(a, SetR):
                r = self.setop(st, op, a, self.snapshot(st, b))
                self.setput(st, a, r.arr)
                return [(st, 'next')]
            self.setitem(st, d, k, self.binop(st, op, a, b, s))
            return [(st, 'next')]
        raise CantFollow('augmented assignment')

    def st_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(st, self.unopt(st, self.ev(st, t.value), t), self.ev(st, t.slice), s)
            elif isinstance(t, ast.Name):
                st.locals.pop(t.id, None)
            else:
                raise CantFollow('del')
        return [(st, 'next')]

    def st_If(self, st, s):
        t = z3.simplify(self.truth(st, self.ev(st, s.test)))
        if z3.is_true(t):
            return self.block(st, s.body)
        if z3.is_false(t):
            return self.block(st, s.orelse)
        a, b = st, st.clone()
        a.path.append(t)
        b.path.append(z3.Not(t))
        return self.block(a, s.body) + self.block(b, s.orelse)

    def st_Try(self, st, s):
        if s.finalbody or len(s.handlers) != 1:
            raise CantFollow('try')
        h = s.handlers[0]
        if not (isinstance(h.type, ast.Name) and h.type.id in ('KeyError', 'AttributeError')) or h.name:
            raise CantFollow('except %s' % (ast.unparse(h.type) if h.type else ''))
        self.tries.append([h.type.id])
        try:
            outs = self.block(st, s.body)
        finally:
            raised = self.tries.pop()[1:]
        res = []
        for x, o in outs:
            res.extend(self.block(x, s.orelse) if o == 'next' else [(x, o)])
        for x in raised:
            res.extend(self.block(x, h.body))
        return res

    # -- loops
    def iteration(self, st, v, node):
        """array of elements, sort, element value, and what must not change meanwhile"""
        v0 = v
        if isinstance(v, (Snap, FreshSet)):
            s = self.snapshot(st, v)
            return s.arr, s.sort, s.elem, None
        if isinstance(v, TupV):
            return None
        if isinstance(v, OptV):
            arr = self.setarr(st, v)
            inner = v.val
            return arr, K, (lambda s, x: KV(x)), lambda s: z3.Implies(v.present, self.same(self.setarr(s, inner), arr))
        if isinstance(v, (SetC, SetR)):
            arr = self.setarr(st, v)
            return arr, K, (lambda s, x: KV(x)), lambda s: self.same(self.setarr(s, v0), arr)
        if isinstance(v, DictC):
            v = View(v, 'keys')
        if isinstance(v, View):
            if v.d.cid not in self.ctype:
                return z3.K(K, z3.BoolVal(False)), K, (lambda s, x: KV(x)), None
            ty = self.ctype[v.d.cid]
            dom = self.cell(st, v.d.cid)['dom']
            kv = (lambda x: KV(x)) if ty[1] == K else (lambda x: TupV([KV(P.fst(x)), KV(P.snd(x))]))
            ld = lambda s, x: self.load(s, ty, z3.Select(self.cell(s, v.d.cid)['val'], x))
            elem = {'keys': lambda s, x: kv(x), 'values': ld, 'items': lambda s, x: TupV([kv(x), ld(s, x)])}[v.which]
            return dom, ty[1], elem, lambda s: self.same(self.cell(s, v.d.cid)['dom'], dom)
        raise CantFollow('loop over %s' % type(v).__name__)

    def same(self, a, b):
        if a is b or a.eq(b):
            return z3.BoolVal(True)
        k = fresh('k', a.sort().domain())
        return z3.ForAll([k], a[k] == b[k])

    def spec(self, s):
        i = self.loopno.get(id(s))
        if i is None or i >= len(self.loopspec) or self.loopspec[i] is None:
            raise CantFollow('loop at line %d has no invariant' % (self.line0 + s.lineno - 1))
        return i, (lambda e: []) if self.quiet else self.loopspec[i]

    def discover(self, st, run):
        save, self.written = self.written, set()
        self.quiet += 1
        raised = [len(t) for t in self.tries]
        try:
            # types of new dictionaries may only settle in the course of it
            for _ in range(6):
                n = len(self.ctype)
                self.untyped = 0
                run(st.clone())
                if len(self.ctype) == n and not self.untyped:
                    break
            w = self.written
        finally:
            self.quiet -= 1
            self.written = save
            for t, n in zip(self.tries, raised):
                del t[n:]
        if save is not None:
            save |= w
        return w

    def havoc(self, st, w):
        for x in sorted(w, key=str):
            if x[0] == 'cell':
                if x[1] in st.cells or x[1] in self.known_cids(st):
                    self.havoc_cell(st, x[1])
            elif x[0] == 'heap':
                if x[1] in st.heap or True:
                    st.heap[x[1]] = fresh('H', z3.ArraySort(I, SETS))
            elif x[0] == 'nxt':
                n = fresh('nxt', I)
                st.path.append(n >= st.nxt)
                st.nxt = n
            elif x[0] == 'local':
                v = st.locals.get(x[1])
                if v is None:
                    continue
                if isinstance(v, (KV, NV, IV, BV)):
                    st.locals[x[1]] = type(v)(fresh(x[1], v.t.sort()))
                elif self.contract.env.get('__locals__', {}).get(x[1]) == 'any':
                    st.locals[x[1]] = AnyV()
                elif isinstance(v, ConstV) and self.contract.env.get('__locals__', {}).get(x[1]) == 'num':
                    st.locals[x[1]] = NV(fresh(x[1], R))
                elif isinstance(v, ConstV) and type(v.v) is int:
                    st.locals[x[1]] = IV(fresh(x[1], I))
                else:
                    st.locals[x[1]] = Gone(x[1])
            elif x[0] == 'field':
                v = st.fields.get((x[1], x[2]))
                if isinstance(v, KV):
                    st.fields[x[1], x[2]] = KV(fresh(x[2], K))
                elif v is not None and not isinstance(v, NoneV):
                    raise CantFollow('a loop rebinds a field')

    def samekinds(self, a, b, w):
        """a field that a loop rebinds holds the same kind of thing after every iteration"""
        for x in w:
            if x[0] == 'field' and (x[1], x[2]) in a.fields and type(a.fields[x[1], x[2]]) is not type(b.fields[x[1], x[2]]):
                raise CantFollow('a loop rebinds a field')

    def known_cids(self, st):
        out = set()
        def go(v):
            if isinstance(v, (SetC, DictC)):
                out.add(v.cid)
            elif isinstance(v, TupV):
                for x in v.items:
                    go(x)
        for v in list(st.locals.values()) + list(st.fields.values()):
            go(v)
        return out

    def st_For(self, st, s):
        if s.orelse:
            raise CantFollow('for/else')
        itv = self.ev(st, s.iter)
        if isinstance(itv, TupV):                       # a fixed number of elements: unrolled
            states = [(st, 'next')]
            done = []
            for x in itv.items:
                nxt = []
                for y, o in states:
                    self.assign(y, s.target, x)
                    for z, o2 in self.block(y, s.body):
                        if o2 in ('next', 'continue'):
                            nxt.append((z, 'next'))
                        elif o2 == 'break':
                            done.append((z, 'next'))
                        else:
                            done.append((z, o2))
                states = nxt
            return states + done
        if isinstance(itv, NoneV):
            raise CantFollow('loop over None')
        arr, sort, elem, live = self.iteration(st, itv, s)
        i, spec = self.spec(s)
        name = 'loop %d' % (i + 1)
        entry = st.clone()

        def view(x, done, cur=None):
            return E(self, x, old=self.oldE, pre=E(self, entry, old=self.oldE), done=done, whole=arr, x=cur)

        def run(x, key=None):
            key = fresh('x', sort) if key is None else key
            self.assign(x, s.target, elem(x, key))
            return self.block(x, s.body)
        w = self.discover(st, run)
        empty = z3.K(sort, z3.BoolVal(False))
        for nm, f in spec(view(st, empty)):
            self.oblige(st, '%s, on entry: %s' % (name, nm), f, s)
        # one arbitrary iteration
        b = st.clone()
        self.havoc(b, w)
        done, x = fresh('done', z3.ArraySort(sort, B)), fresh('x', sort)
        k = fresh('k', sort)
        b.path.append(z3.ForAll([k], z3.Implies(done[k], arr[k]), patterns=[done[k]]))
        for nm, f in spec(view(b, done, x)):
            b.path.append(f)
        b.path += [arr[x], z3.Not(done[x])]
        self.probe(b, '%s is entered' % name)
        after = []
        self.loopstack.append(done)
        outs = run(b, x)
        self.loopstack.pop()
        for y, o in outs:
            if o in ('next', 'continue'):
                self.samekinds(st, y, w)
                if live is not None:
                    self.oblige(y, '%s: not changed while iterated over' % name, live(y), s)
                d2 = z3.Store(done, x, z3.BoolVal(True))
                for nm, f in spec(view(y, d2, x)):
                    self.oblige(y, '%s, kept: %s' % (name, nm), f, s)
            elif o == 'break':
                after.append((y, 'next'))
            else:
                after.append((y, o))
        # and after it
        a = st.clone()
        self.havoc(a, w)
        for nm, f in spec(view(a, arr)):
            a.path.append(f)
        return [(a, 'next')] + after

    def st_While(self, st, s):
        if s.orelse:
            raise CantFollow('while/else')
        i, spec = self.spec(s)
        name = 'loop %d' % (i + 1)
        entry = st.clone()

        def view(x):
            return E(self, x, old=self.oldE, pre=E(self, entry, old=self.oldE))

        def run(x):
            t = self.truth(x, self.ev(x, s.test))
            x.path.append(t)
            return self.block(x, s.body)
        w = self.discover(st, run)
        for nm, f in spec(view(st)):
            self.oblige(st, '%s, on entry: %s' % (name, nm), f, s)
        b = st.clone()
        self.havoc(b, w)
        for nm, f in spec(view(b)):
            b.path.append(f)
        top = b.clone()
        self.probe(b, '%s is entered' % name)
        after = []
        self.loopstack.append(None)
        outs = run(b)
        self.loopstack.pop()
        for y, o in outs:
            if o in ('next', 'continue'):
                self.samekinds(st, y, w)
                for nm, f in spec(view(y)):
                    self.oblige(y, '%s, kept: %s' % (name, nm), f, s)
                var = self.contract.variants.get(i)
                if var is not None:
                    for nm, f in var(view(top), view(y)):
                        self.oblige(y, '%s, comes to an end: %s' % (name, nm), f, s)
            elif o == 'break':
                after.append((y, 'next'))
            else:
                after.append((y, o))
        a = st.clone()
        self.havoc(a, w)
        for nm, f in spec(view(a)):
            a.path.append(f)
        a.path.append(z3.Not(self.truth(a, self.ev(a, s.test))))
        return [(a, 'next')] + after

    # -- one function
    def param(self, st, c, name, ty, locs):
        if isinstance(ty, tuple) and ty[0] == 'alias':
            return locs[ty[1]]
        if isinstance(ty, tuple) and ty[0] == 'const':
            return self.lift(ty[1])
        if isinstance(ty, tuple) and ty[0] == 'tuple':
            return TupV([self.param(st, c, '%s[%d]' % (name, i), t, locs) for i, t in enumerate(ty[1])])
        if isinstance(ty, tuple) and ty[0] == 'obj':
            oid = name
            for f, t in ty[1].items():
                st.fields[oid, f] = self.param(st, c, name + '.' + f, t, locs)
            return ObjV(ty[2] if len(ty) > 2 else name, oid)
        if isinstance(ty, tuple) and ty[0] == 'filter':
            return FilterV(ty[1])
        if ty == 'none':
            return NoneV()
        if ty == 'any' or ty == 'K':
            return KV(fresh(name, K))
        if ty == 'num':
            return NV(fresh(name, R))
        if ty == 'int':
            return IV(fresh(name, I))
        if ty == 'kwargs':
            return FreshDict(False)
        if ty == 'set':
            cid = self.newcid()
            self.ctype[cid] = ['set']
            self.havoc_cell(st, cid)
            return SetC(cid)
        if ty == 'args0':
            return TupV([])
        k, vt = ty.split('dict:')
        cid = self.newcid()
        if k == 'd':
            self.default.add(cid)
            k = ''
        ks = K if k == 'k' or vt == 'set' and k == '' else P
        self.ctype[cid] = ['dict', ks, vt, region_of(c, name) if vt == 'set' else None]
        self.havoc_cell(st, cid)
        return DictC(cid)

    def frame(self, c, entry, there, heaps):
        """nothing is written but what the contract names: its callers take the rest to be as it was"""
        if not c.used or c.may_fail:
            return
        may, e = set(), E(self, entry)
        for m in c.modifies:
            v = e.v(m)
            if isinstance(v, (DictC, SetC)):
                may.add(('cell', v.cid))
                ty = self.ctype.get(v.cid)
                if ty and len(ty) > 3 and ty[3]:
                    may.add(('heap', ty[3]))
            elif isinstance(v, SetR):
                may.add(('heap', v.region))
        for m in c.fields:
            n, f = m.rsplit('.', 1)
            may.add(('field', e.v(n).oid, f))
        for x in self.written - may:
            if x[0] == 'cell' and x[1] in there or x[0] == 'heap' and x[1] in heaps or x[0] == 'field' and (x[1], x[2]) in entry.fields:
                raise CantFollow('writes more than it says: %s' % (x,))

    def verify(self, c):
        tree, g, line0 = source(c.func)
        self.globals, self.line0 = dict(g), line0
        self.globals.update(c.env)
        self.loopno, self.loopspec = number_loops(tree), c.loops
        self.prefix = c.label + ': '
        self.contract = c
        st = St()
        names = [x.arg for x in tree.args.posonlyargs + tree.args.args + tree.args.kwonlyargs]
        if tree.args.kwarg:
            names.append(tree.args.kwarg.arg)
        if tree.args.vararg:
            names.append(tree.args.vararg.arg)
        locs = {}
        for n in names:
            if n in c.params:
                continue
            if tree.args.kwarg and n == tree.args.kwarg.arg:
                locs[n] = self.place(st, FreshDict(False))
            elif tree.args.vararg and n == tree.args.vararg.arg:
                locs[n] = TupV([])
            else:
                d = inspect.signature(c.func).parameters[n].default
                if d is inspect.Parameter.empty:
                    raise CantFollow('parameter %s is not in the contract' % n)
                locs[n] = self.lift(d)
        for n, ty in c.params.items():
            if n not in names:
                raise CantFollow('no parameter %s any more' % n)
            locs[n] = self.param(st, c, n, ty, locs)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(tree)):
            if c.used:
                raise CantFollow('a generator')
            cid = self.newcid()
            self.ctype[cid] = ['dict', P, 'bool', None]
            st.cells[cid] = dict(dom=z3.K(P, z3.BoolVal(False)), val=fresh('val', z3.ArraySort(P, B)))
            locs[YIELD] = DictC(cid)
        st.locals = locs
        entry = st.clone()
        self.oldE = E(self, entry)
        self.written = set()
        there, heaps = set(self.ctype), set(st.heap)
        if c.requires:
            for nm, f in c.requires(E(self, st, old=self.oldE)):
                st.path.append(f)
        npre = len(st.path)
        self.pre_path = list(st.path)
        self.ends = []
        outs = self.block(st, tree.body)
        self.frame(c, entry, there, heaps)
        for x, o in outs:
            if isinstance(o, tuple) and o[0] == 'raise':
                if c.may_fail or any(r in o[1] for r in c.raises):
                    continue
                self.oblige(x, 'no exception', z3.BoolVal(False), o[2])
                continue
            self.ends.append(list(x.path))
            res = o[1] if isinstance(o, tuple) else NoneV()
            res = self.place(x, res) if isinstance(res, (FreshSet, FreshDict)) else res
            if c.ensures:
                x2 = x
                for nm, f in c.ensures(E(self, x2, old=self.oldE, result=res)):
                    self.oblige(x2, 'postcondition: %s' % nm, f)


class Gone(Val):
    def __init__(self, name):
        self.name = name

    @property
    def t(self):
        raise CantFollow('local %s of a loop used after it' % self.name)


def source(func):
    f = inspect.unwrap(func)
    f = getattr(f, '__func__', f)
    lines, line0 = inspect.getsourcelines(f)
    tree = ast.parse(textwrap.dedent(''.join(lines))).body[0]
    return tree, f.__globals__, line0


def number_loops(tree):
    out = {}
    n = [0]

    def go(x):
        for ch in ast.iter_child_nodes(x):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                continue
            if isinstance(ch, (ast.For, ast.While)):
                out[id(ch)] = n[0]
                n[0] += 1
            go(ch)
    go(tree)
    number_loops.keep = getattr(number_loops, 'keep', []) + [tree]
    return out


def symbols(t, memo={}):
    k = t.get_id()
    if k not in memo:
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo += x.children()
        memo[k] = (t, out)          # (keeps the term alive: ids are not used again)
    return memo[k][1]


def related(assumptions, goal, rounds):
    """the assumptions that speak of what the goal speaks of"""
    common = {MUL.name()}
    have = symbols(goal) - common
    for _ in range(rounds):
        out = [a for a in assumptions if symbols(a) & have or not symbols(a) - common]
        have = set().union(have, *[symbols(a) for a in out]) - common
    return out


def discharge(assumptions, goal, ms):
    if ms >= 1000:
        for rounds in (1, 2):       # with fewer assumptions, the search may end sooner
            rel = related(assumptions, goal, rounds)
            if len(rel) < len(assumptions):
                s = z3.Solver()
                s.set('timeout', 1000)
                s.set('smt.mbqi', False)
                s.set('smt.auto_config', False)
                s.add(*rel)
                s.add(z3.Not(goal))
                if s.check() == z3.unsat:
                    return 'unsat', None
        if z3.is_quantifier(goal) and goal.is_forall() and goal.num_vars() <= 2:
            n = goal.num_vars()
            sorts = [goal.var_sort(i) for i in range(n)]
            cs = [fresh('sk', x) for x in sorts]
            body = z3.substitute_vars(goal.body(), *reversed(cs))
            more = []
            for a in assumptions:
                if z3.is_quantifier(a) and a.is_forall() and a.num_vars() == n:
                    for o in ([cs] if n == 1 else [cs, cs[::-1]]):
                        if [a.var_sort(i) for i in range(n)] == [x.sort() for x in o]:
                            more.append(z3.substitute_vars(a.body(), *reversed(o)))
            for mbqi in (False, True):
                s = z3.Solver()
                s.set('timeout', 1000)
                s.set('smt.mbqi', mbqi)
                s.set('smt.auto_config', False)
                s.add(*assumptions)
                s.add(*more)
                s.add(z3.Not(body))
                if s.check() == z3.unsat:
                    return 'unsat', None
    for mbqi, seed in ((False, 0), (False, 11), (False, 29), (True, 0)):
        if seed and ms < 1000:
            continue
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('smt.mbqi', mbqi)
        s.set('smt.random_seed', seed)
        s.set('smt.auto_config', False)
        for a in assumptions:
            s.add(a)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            try:
                return 'sat', str(s.model())[:1500]
            except Exception:
                return 'sat', None
    return 'unknown', None


def prove(contracts, which=None, ms=10000, log=None, jobs=4, limit=300):
    """verify every contract, each in a process of its own; -> list of dict(function, obligations, discharged, failed, why, seconds)"""
    import json
    import os
    import select
    import signal
    import sys
    todo = [(i, c) for i, c in enumerate(contracts) if (which is None or which in c.label) and not c.trusted]
    out = {}
    run = {}
    again = {}
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or run:
        while todo and len(run) < jobs:
            i, c = todo.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    r = prove_one(contracts, c, ms, log)
                    with os.fdopen(wr, 'w') as f:
                        json.dump(r, f)
                    if log:
                        sys.stdout.flush()
                finally:
                    os._exit(0)
            os.close(wr)
            run[rd] = [i, c, pid, b'', time.time()]
        ready = select.select(list(run), [], [], 1.)[0]
        for fd in list(run):
            i, c, pid, buf, t0 = run[fd]
            end = False
            if fd in ready:
                b = os.read(fd, 1 << 16)
                run[fd][3] += b
                end = not b
            late = not end and time.time() - t0 > limit
            if late:
                os.kill(pid, signal.SIGKILL)
            if end or late:
                os.close(fd)
                os.waitpid(pid, 0)
                try:
                    out[i] = json.loads(run[fd][3].decode())
                except ValueError:
                    if not late and again.setdefault(i, 0) < 2:      # the solver went down, not the proof
                        again[i] += 1
                        todo.append((i, c))
                        del run[fd]
                        continue
                    out[i] = dict(function=c.label, obligations=0, discharged=0, failed=[], why='out of time' if late else 'the prover crashed', seconds=time.time() - t0)
                del run[fd]
    return [out[i] for i in sorted(out)]


def prove_one(contracts, c, ms, log=None):
    t0 = time.time()
    vc = VC(contracts)
    vc.classes = {}
    for cc in contracts:
        vc.classes.update(cc.env.get('__classes__', {}))
    r = dict(function=c.label, obligations=0, discharged=0, failed=[], why=None)
    try:
        vc.verify(c)
    except CantFollow as x:
        r['why'] = 'not in the fragment: %s' % x
    except (z3.Z3Exception, KeyError, AttributeError, TypeError, ValueError, OSError, SyntaxError, IndexError) as x:
        r['why'] = 'not followed: %s %s' % (type(x).__name__, x)
        if log:
            import traceback
            traceback.print_exc()
    r['obligations'] = len(vc.obls)
    if r['why'] is None:
        # the precondition must be satisfiable, or everything holds
        s = z3.Solver()
        s.set('timeout', ms)
        for a in vc.pre_path:
            s.add(a)
        if s.check() == z3.unsat:
            r['why'] = 'the precondition is contradictory'
        places = {}
        for name, path in vc.probes:
            places.setdefault(name, []).append(path)
        for name, ps in places.items():
            if all(discharge(path, z3.BoolVal(False), 500)[0] == 'unsat' for path in ps):
                r['why'] = 'vacuous: %s from no state' % name
        if all(discharge(path, z3.BoolVal(False), 500)[0] == 'unsat' for path in vc.ends):
            r['why'] = 'vacuous: it never ends'
    for name, ass, goal in vc.obls:
        if r['why']:
            break
        t1 = time.time()
        a, model = discharge(ass, goal, ms)
        if log:
            log('%-9s %5.2fs %s' % (a, time.time() - t1, name))
        if a == 'unsat':
            r['discharged'] += 1
        else:
            r['failed'].append(dict(obligation=name, answer=a, model=model))
    r['seconds'] = time.time() - t0
    return r
