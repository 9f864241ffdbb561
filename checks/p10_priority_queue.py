"""P10: priority queues return their items in order under every history."""
import numpy as np
from vc.harness import Suite, Skip
from vc import phys
from vc.sym import Unsupported

S = Suite('P10')
phys.install()
EMPTY = object()


def kinds():
    from phasor.utilities import priority_queue as P
    from phasor.utilities.priority_queue import heap_priority_queue as H
    return [H.HeapPriorityQueue, H.HeapPriorityQueueThreadsafe]


class Model(object):
    """the specification: a bag whose smallest member is known"""

    def __init__(self, items):
        self.b = []
        for x in items:
            self.add(x)

    def add(self, x):
        k = 0
        while k < len(self.b) and self.b[k] <= x:
            k += 1
        self.b.insert(k, x)

    def take(self):
        return self.b.pop(0)


def empty(f, Empty):
    try:
        f()
    except Empty:
        return True
    except Exception:
        return False
    return False


def history(c, cls, items, ops, new):
    from phasor.utilities.priority_queue import Empty
    q = cls(items)
    m = Model(items)

    def state():
        c.true('emptiness', bool(q.is_empty()) == (not m.b))
        if hasattr(q, '__len__'):
            c.true('length', len(q) == len(m.b))
            c.true('truth', bool(q) == bool(m.b))
        if m.b:
            c.eq('peek is the smallest', q.peek(), m.b[0])
        else:
            c.true('peek of an empty queue', empty(q.peek, Empty))
    state()
    for op in ops:
        if op == 'push':
            x = new()
            q.push(x)
            m.add(x)
        elif op == 'pop':
            if m.b:
                c.eq('pop is the smallest', q.pop(), m.take())
            else:
                c.true('pop of an empty queue', empty(q.pop, Empty))
        elif op == 'replace':
            x = new()
            if m.b:
                c.eq('replace returns the smallest', q.replace(x), m.take())
                m.add(x)
            else:
                try:
                    q.replace(x)
                    c.true('replace in an empty queue', False)
                except IndexError:
                    pass
        else:
            x = new()
            m.add(x)
            c.eq('pushpop returns the smallest', q.pushpop(x), m.take())
        state()
    while m.b:
        c.eq('drains in order', q.pop(), m.take())
    c.true('drained', bool(q.is_empty()) and empty(q.pop, Empty))


OPS = ['push', 'pop', 'replace', 'pushpop']


@S.case('histories', arr=False, samples=400)
def _(c):
    cls = c.choice('queue', kinds())
    n = c.choice('initial', [0, 1, 2, 3])
    k = c.choice('operations', [0, 1, 2]) if n < 3 else c.choice('operation', [0, 1])
    ops = [c.choice('op%d' % j, OPS) for j in range(k)]
    cnt = [0]

    def new():
        cnt[0] += 1
        return c.real('y%d' % cnt[0], special=(0, 1))
    history(c, cls, [c.real('x%d' % j, special=(0, 1)) for j in range(n)], ops, new)


@S.case('longer histories', sym=False, arr=False, bounded=True, samples=300)
def _(c):
    rng = np.random.RandomState(c.choice('seed', range(30000)))
    hi = rng.choice([3, 1000])
    n = rng.randint(0, 30)
    ops = [OPS[k] for k in rng.choice(4, rng.randint(0, 60), p=[[.4, .2, .2, .2], [.1, .5, .2, .2]][rng.randint(2)])]
    history(c, kinds()[rng.randint(2)], [int(v) for v in rng.randint(0, hi, n)], ops, lambda: int(rng.randint(0, hi)))


# DESIGN: P10 unbounded: each method is executed on a queue holding an arbitrary bag in heap order (nothing is known of it but its
# DESIGN: smallest member and whether it has none, one or more members), against the contracts of heapq (vc: assumed, Python library);
# DESIGN: each is proved to keep the heap order, to change the bag as specified, to return the smallest and, in the thread safe queue, to
# DESIGN: touch the bag only while the lock is held, in one critical section.  Every history follows by induction.

class Bag(object):
    """an arbitrary list; if `heap`, its first element is the smallest"""

    def __init__(self, c, size, heap, tag=''):
        self.c, self.heap = c, heap
        self.size = size                        # '0', '1', 'more'
        self.k = 0
        self.tag = tag
        self.added, self.taken = [], []
        self.guard = lambda: None
        self.low = self.fresh() if size != '0' else None

    def fresh(self):
        self.k += 1
        return self.c.real('m%s%d' % (self.tag, self.k), special=(0, 1))

    def smaller(self, a, b):
        return a if a <= b else b

    def least(self):
        self.guard()
        if self.size == '0':
            raise IndexError('index out of range')
        if not self.heap:
            raise Unsupported('first of a list not known to be in heap order')
        return self.low

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported('an element inside the heap')
        return self.least()

    def __bool__(self):
        return self.size != '0'

    def add(self, x):
        self.guard()
        self.need()
        self.added.append(x)
        self.low = x if self.size == '0' else self.smaller(self.low, x)
        self.size = 'more' if self.size != '0' else '1'

    def take(self):
        r = self.least()
        self.taken.append(r)
        if self.size == '1':
            self.size, self.low = '0', None
        else:
            # two members or more: what is left is not empty
            self.size = self.c.choice('left%s%d' % (self.tag, self.k), ['1', 'more'])
            self.low = self.fresh()
            self.c.assume('>=', self.low - r)
        return r

    def need(self):
        if not self.heap:
            raise Unsupported('heapq is given a list not known to be in heap order')


class HeapqContract(object):
    @staticmethod
    def ours(h):
        if not isinstance(h, Bag):
            raise Unsupported('heapq of something else')
        return h

    def heapify(self, h):
        h = self.ours(h)
        h.guard()
        h.heap = True

    def heappush(self, h, x):
        self.ours(h).add(x)

    def heappop(self, h):
        return self.ours(h).take()

    def heapreplace(self, h, x):
        r = self.ours(h).take()
        h.add(x)
        return r

    def heappushpop(self, h, x):
        h = self.ours(h)
        h.guard()
        h.need()
        if h.size == '0':
            return x
        m = h.low
        if x <= m:
            return x
        h.take()
        h.add(x)
        return m


class CountedLock(object):
    def __init__(self, lk):
        self.lk, self.sections = lk, 0

    def __enter__(self):
        self.lk.__enter__()
        self.sections += 1
        return True

    def __exit__(self, *a):
        return self.lk.__exit__(*a)

    def acquire(self, *a, **k):
        r = self.lk.acquire(*a, **k)
        self.sections += bool(r)
        return r

    def release(self):
        return self.lk.release()

    def locked(self):
        return self.lk.locked()


def bag_same(c, label, left, right):
    """two bags given by what was added to and taken from the same one"""
    n = len(left)
    c.true(label + ': number', n == len(right))
    if n == len(right):
        c.eq(label + ': sum', sum(left), sum(right))
        if n == 2:
            c.eq(label + ': product', left[0] * left[1], right[0] * right[1])
        elif n > 2:
            raise Unsupported('larger change')


def method(c, cls, op):
    from phasor.utilities.priority_queue import heap_priority_queue as H
    import heapq
    from phasor.utilities.priority_queue import Empty
    size = c.choice('members', ['0', '1', 'more'])
    x = c.real('x', special=(0, 1))
    if c.sym:
        import builtins
        held = [None]
        old = H.heapq
        H.heapq = HeapqContract()
        H.list = lambda it=(): it if isinstance(it, Bag) else builtins.list(it)
        H.len = lambda h: dict(zip(('0', '1', 'more'), (0, 1, 2)))[h.size] if isinstance(h, Bag) else builtins.len(h)
        try:
            b = Bag(c, size, heap=False)
            q = cls(b)
            if getattr(q, 'heap', None) is not b:
                raise Unsupported('another representation')
            c.true('made in heap order', b.heap)
            lk = [k for k, v in q.__dict__.items() if hasattr(v, 'acquire')]
            if cls is kinds()[1]:
                if len(lk) != 1 or not hasattr(getattr(q, lk[0]), 'locked'):
                    raise Unsupported('another way of locking')
                L = CountedLock(getattr(q, lk[0]))
                setattr(q, lk[0], L)
                bad = []

                def guard():
                    if not L.locked():
                        bad.append(1)
                b.guard = guard
            low = b.low
            try:
                r = getattr(q, op)(*([x] if op in ('push', 'replace', 'pushpop') else []))
            except Empty:
                r = 'Empty'
            except IndexError:
                r = 'IndexError'
            same = q.heap is b
            if not same:
                raise Unsupported('another list')
            if cls is kinds()[1]:
                if bad or (L.sections != 1 and op != 'is_empty'):
                    raise Unsupported('touched outside the lock')
            heap, add, take, empty_now = b.heap, b.added, b.taken, b.size == '0'
        finally:
            H.heapq = old
            del H.list, H.len
    else:
        n = {'0': 0, '1': 1, 'more': 2 + int(abs(x) * 7) % 5}[size]
        low = c.real('m1', special=(0, 1)) if n else None
        items = [low + abs(x) * ((3 * j) % 5) for j in range(n)][::-1]
        q = cls(items)
        c.true('made in heap order', all(q.heap[j] <= q.heap[k] for j in range(n) for k in (2 * j + 1, 2 * j + 2) if k < n))
        try:
            r = getattr(q, op)(*([x] if op in ('push', 'replace', 'pushpop') else []))
        except Empty:
            r = 'Empty'
        except IndexError:
            r = 'IndexError'
        n = len(q.heap)
        heap = all(q.heap[j] <= q.heap[k] for j in range(n) for k in (2 * j + 1, 2 * j + 2) if k < n)
        add, take = list(q.heap), list(items)
        for v in items:
            if v in add:
                add.remove(v)
                take.remove(v)
        empty_now = not q.heap
    c.true('kept in heap order', heap)
    want_add, want_take = [], []
    if op == 'push':
        want_add = [x]
    elif op == 'pop' and size != '0':
        want_take = [low]
    elif op == 'replace' and size != '0':
        want_add, want_take = [x], [low]
    elif op == 'pushpop':
        want_add, want_take = [x], [x if size == '0' or x <= low else low]
    c.true('the sizes agree', len(add) - len(take) == len(want_add) - len(want_take))
    cancel = lambda A, B: (A + B)
    L1, R1 = cancel(add, want_take), cancel(want_add, take)
    if len(L1) == len(R1):
        bag_same(c, 'the bag', L1, R1)
    if op in ('peek', 'pop') and size == '0':
        c.true('empty', isinstance(r, str) and r == 'Empty')
    elif op == 'replace' and size == '0':
        c.true('empty', isinstance(r, str) and r == 'IndexError')
    elif op in ('peek', 'pop', 'replace'):
        c.true('gives an item', not isinstance(r, str))
        if not isinstance(r, str):
            c.eq('the smallest', r, low)
    elif op == 'pushpop':
        c.eq('the smallest of all', r, want_take[0])
    elif op == 'is_empty':
        c.true('emptiness', bool(r) == (size == '0') and empty_now == (size == '0'))
    elif op == '__bool__':
        c.true('truth', bool(r) == (size != '0'))
    elif op == '__len__':
        c.true('length', (r == 0) == (size == '0') and (r == 1) == (size == '1'))


for _k, _name in enumerate(['HeapPriorityQueue', 'HeapPriorityQueueThreadsafe']):
    for _op in ['peek', 'pop', 'push', 'replace', 'pushpop', 'is_empty'] + ['__bool__', '__len__'][:2 - 2 * _k]:
        def _mk(_k=_k, _op=_op):
            return lambda c: method(c, kinds()[_k], _op)
        S.case('any contents: %s.%s' % (_name, _op), arr=False, samples=30)(_mk())


@S.case('the iterable is not modified', arr=False)
def _(c):
    cls = c.choice('queue', kinds())
    xs = [c.real('x%d' % j) for j in range(3)]
    ys = list(xs)
    q = cls(ys)
    q.pop()
    c.true('kept', len(ys) == 3)
    for a, b in zip(xs, ys):
        c.eq('kept in place', a, b)
    c.true('any iterable', not cls(iter(xs)).is_empty())


@S.case('concurrent use of the thread safe queue', sym=False, arr=False, bounded=True, samples=6)
def _(c):
    import threading
    import sys as _sys
    cls = kinds()[1]
    seed = c.choice('seed', range(1000))
    old = _sys.getswitchinterval()
    _sys.setswitchinterval(1e-6)
    from phasor.utilities.priority_queue import Empty

    class It(object):
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            return self.v < o.v
    try:
        q = cls([It(v) for v in range(50)])
        got = [[] for _ in range(4)]
        err = []

        def work(k):
            rng = np.random.RandomState(seed * 7 + k)
            try:
                for j in range(150):
                    o = rng.randint(3)
                    v = It(1000 + 1000 * k + j)
                    if o == 0:
                        q.push(v)
                    elif o == 1:
                        try:
                            got[k].append(q.pop().v)
                        except Empty:
                            pass
                        q.push(v)
                    else:
                        got[k].append(q.pushpop(v).v)
                    if o != 0:
                        pass
            except Exception as e:     # noqa
                err.append(e)
        th = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        [t.start() for t in th]
        [t.join() for t in th]
    finally:
        _sys.setswitchinterval(old)
    c.true('no failure in any thread: %r' % err[:1], not err)
    rest = []
    while not q.is_empty():
        rest.append(q.pop().v)
    c.true('drains in order', rest == sorted(rest))
    allv = sorted(rest + [v for g in got for v in g])
    c.true('nothing lost or duplicated', allv == sorted(list(range(50)) + [1000 + 1000 * k + j for k in range(4) for j in range(150)]))


# every schedule of two operations in two threads with one switch: the second operation is let in at a point of the first
# (before each of its lines, and at each comparison of items), and runs until it ends or has to wait

class SwitchLock(object):
    """a lock that tells when a thread has to wait for it"""

    def __init__(self, make, wake):
        self.lk = make()
        self.wake = wake

    def acquire(self, *a, **k):
        if a or k:
            return self.lk.acquire(*a, **k)
        if not self.lk.acquire(False):
            self.wake.set()
            self.lk.acquire()
        return True

    def release(self):
        self.lk.release()

    def locked(self):
        return self.lk.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def switched(cls, items, A, B, k):
    """(what A gave, what B gave, what is left), None when A has fewer than k points"""
    import threading
    import sys as _sys
    from phasor.utilities.priority_queue import Empty
    wake = threading.Event()
    st = dict(n=-1, on=False, thr=None, res=None)

    class It(object):
        def __init__(self, v):
            self.v = v

        def __lt__(self, o):
            point()
            return self.v < o.v

        def __gt__(self, o):
            return o < self

        def __le__(self, o):
            return not o < self

        def __ge__(self, o):
            return not self < o

    def do(q, op):
        try:
            r = getattr(q, op[0])(*[It(v) for v in op[1:]])
        except Empty:
            return 'Empty'
        except Exception as e:
            return type(e).__name__
        return r.v if isinstance(r, It) else r

    def second():
        st['res'] = do(q, B)
        wake.set()

    def point():
        if not st['on'] or threading.current_thread() is not me:
            return
        st['n'] += 1
        if st['n'] == k:
            st['thr'] = threading.Thread(target=second)
            st['thr'].start()
            wake.wait(.05)

    def trace(frame, event, arg):
        if not frame.f_code.co_filename.endswith('heap_priority_queue.py'):
            return None
        if event == 'line':
            point()
        return trace
    me = threading.current_thread()
    mk = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = (lambda: SwitchLock(mk[0], wake)), (lambda: SwitchLock(mk[1], wake))
    try:
        q = cls([It(v) for v in items])
    finally:
        threading.Lock, threading.RLock = mk
    st['on'] = k is not None
    old = _sys.gettrace()
    _sys.settrace(trace)
    try:
        ra = do(q, A)
    finally:
        _sys.settrace(old)
    st['on'] = False
    if k is None:
        rb = do(q, B)
    elif st['thr'] is None:
        return None
    else:
        st['thr'].join(20.)
        rb = st['res'] if not st['thr'].is_alive() else 'no end'
    rest = []
    while not q.is_empty():
        rest.append(q.pop().v)
    return ra, rb, rest


@S.case('an operation of another thread at any point of an operation', sym=False, arr=False, bounded=True, samples=1)
def _(c):
    cls = kinds()[1]

    def ops(v):
        return [('pop',), ('peek',), ('is_empty',), ('push', v), ('replace', v), ('pushpop', v)]
    for items in [(), (5,), (5, 6), (5, 6, 7), (5, 8, 6, 9)]:
        for va, vb in [(1, 2), (2, 1), (1, 15), (15, 1), (15, 16)]:
            for A in ops(va):
                for B in ops(vb):
                    if len(A) == 1 and va != 1 or len(B) == 1 and vb not in (1, 2):
                        continue
                    ab = switched(cls, items, A, B, None)
                    rb, ra, rest = switched(cls, items, B, A, None)
                    want = (ab, (ra, rb, rest))
                    for k in range(200):
                        got = switched(cls, items, A, B, k)
                        if got is None:
                            break
                        if got not in want:
                            c.true('%r of a thread entered at point %d by %r of another, on %r: %r, in order one of %r' % (A, k, B, items, got, want), False)
    c.true('all schedules gave what one after the other gives', True)
