"""Assumed contracts of the locking primitives (ghost state: what the current thread holds) and a pairwise race check.

A held right is (lock, mode, count): 'm' a mutex, 's' n permits of a counting semaphore, 'R'/'W' a read-write lock.  Two accesses
exclude each other when some lock makes their rights incompatible: the same mutex, semaphore permits that together exceed the
semaphore's capacity, or a write-held read-write lock."""
import re, z3
from rope import *
from sym import *

def key(p):
    if isinstance(p, PInt): p = p.p
    return (p.obj, p.off)
def held(st): return st.ghost.get('held', ())
def acquire(eng, st, k, mode, n=1):
    h = dict((x[0], x) for x in held(st))
    if not isint(n): raise Unsupported('symbolic permit count')
    n = sgn(n, 32) if n > 0x7fffffff else n
    old = h.get(k)
    cap = st.ghost.get('caps', {}).get(k)
    if mode == 's':
        have = old[2] if old else 0
        eng.oblige(st, cap is None or have + n <= cap, 'acquire-can-succeed', 'own permits never block the own request', assume=False)
        if n == 0: return
    elif old: eng.oblige(st, False, 'acquire-can-succeed', 'lock is not already held by this thread', assume=False)
    for o in h.values(): eng.lock_order.add((o[0], k))
    h[k] = (k, mode, (old[2] if old and mode == 's' else 0) + n)
    st.ghost['held'] = tuple(h.values())
def release(eng, st, k, n=1):
    h = dict((x[0], x) for x in held(st)); old = h.get(k)
    if not isint(n): raise Unsupported('symbolic permit count')
    n = sgn(n, 32) if n > 0x7fffffff else n
    if n == 0: return
    if not old or old[2] < n:
        eng.oblige(st, False, 'releases-only-what-it-holds', '%s: %s' % (k[0], n), assume=False); h.pop(k, None)
    elif old[2] == n: h.pop(k)
    else: h[k] = (k, old[1], old[2] - n)
    st.ghost['held'] = tuple(h.values())

def exclude(a, b, caps):
    ka = {x[0]: x for x in a}
    for k, m, n in b:
        x = ka.get(k)
        if not x: continue
        if m == 'm': return True
        if m == 's' and k in caps and n + x[2] > caps[k]: return True
        if 'W' in (m, x[1]): return True
    return False

def install_locks(eng):
    model = eng.model; eng.lock_order = set()
    @model(r'^__cxa_guard_acquire$')
    def _(eng, st, a, c): return 1
    @model(r'^__cxa_guard_release$')
    def _(eng, st, a, c): st.wcells(a[0].obj)[0] = (1, 1); return None
    @model(r'^__cxa_guard_abort$')
    def _(eng, st, a, c): return None
    @model(r'^QSemaphore::QSemaphore\(int\)$')
    def _(eng, st, a, c):
        if not isint(a[1]): raise Unsupported('semaphore capacity')
        d = dict(st.ghost.get('caps', {})); d[key(a[0])] = a[1]; st.ghost['caps'] = d
    @model(r'^(QSemaphore|QMutex|QBasicMutex|QReadWriteLock|QRecursiveMutex)::~')
    def _(eng, st, a, c): return None
    @model(r'^(QMutex|QRecursiveMutex|QReadWriteLock)::\1\((.*)\)$')
    def _(eng, st, a, c): return None
    @model(r'^std::mutex::mutex\(\)$|^std::__mutex_base::__mutex_base\(\)$')
    def _(eng, st, a, c): return None
    @model(r'^QSemaphore::acquire\(int\)$')
    def _(eng, st, a, c): acquire(eng, st, key(a[0]), 's', a[1])
    @model(r'^QSemaphore::release\(int\)$')
    def _(eng, st, a, c): release(eng, st, key(a[0]), a[1])
    @model(r'^QSemaphore::tryAcquire\(int(, int)?\)$')
    def _(eng, st, a, c):
        s2 = st.fork(); acquire(eng, st, key(a[0]), 's', a[1]); return [(st, ('ret', True)), (s2, ('ret', False))]
    @model(r'^(QMutex|QBasicMutex|QRecursiveMutex)::lock\(\)$|^std::mutex::lock\(\)$')
    def _(eng, st, a, c): acquire(eng, st, key(a[0]), 'm')
    @model(r'^(QMutex|QBasicMutex|QRecursiveMutex)::unlock\(\)$|^std::mutex::unlock\(\)$')
    def _(eng, st, a, c): release(eng, st, key(a[0]))
    @model(r'^QReadWriteLock::lockFor(Read|Write)\(\)$')
    def _(eng, st, a, c): acquire(eng, st, key(a[0]), c.m.group(1)[0])
    @model(r'^QReadWriteLock::unlock\(\)$')
    def _(eng, st, a, c): release(eng, st, key(a[0]))
    # scoped holders: cell = (lock pointer, held?)
    class Hold:
        def __init__(s, k, on, mode): s.k = k; s.on = on; s.mode = mode
    def hold(eng, st, p):
        v = eng.get_abs(st, p, None, 'locker')
        if not isinstance(v, Hold): raise Unsupported('locker %r' % (v,))
        return v
    @model(r'^Q(Mutex|Read|Write)Locker::Q\1Locker\(')
    def _(eng, st, a, c):
        m = {'Mutex': 'm', 'Read': 'R', 'Write': 'W'}[c.m.group(1)]; k = key(a[1])
        if k[0] is None: eng.store(st, a[0], 8, Hold(None, False, m)); return
        acquire(eng, st, k, m); eng.store(st, a[0], 8, Hold(k, True, m))
    @model(r'^Q(Mutex|Read|Write)Locker::(unlock\(\)|~)')
    def _(eng, st, a, c):
        h = hold(eng, st, a[0])
        if h.on: release(eng, st, h.k)
        eng.store(st, a[0], 8, Hold(h.k, False, h.mode))
    @model(r'^Q(Mutex|Read|Write)Locker::relock\(\)')
    def _(eng, st, a, c):
        h = hold(eng, st, a[0])
        if h.k is not None and not h.on: acquire(eng, st, h.k, h.mode)
        eng.store(st, a[0], 8, Hold(h.k, True, h.mode))
    @model(r'^std::(lock_guard|unique_lock|scoped_lock)<(.*)>::(lock_guard|unique_lock|scoped_lock)\((?!std::(lock_guard|unique_lock|scoped_lock))')
    def _(eng, st, a, c): acquire(eng, st, key(a[1]), 'm'); eng.store(st, a[0], 8, Hold(key(a[1]), True, 'm'))
    @model(r'^std::(lock_guard|unique_lock|scoped_lock)<(.*)>::(unlock\(\)|~)')
    def _(eng, st, a, c):
        h = hold(eng, st, a[0])
        if h.on: release(eng, st, h.k)
        eng.store(st, a[0], 8, Hold(h.k, False, 'm'))
    # QSemaphoreReleaser(sem, n): gives n permits back when destroyed, unless cancelled
    class Rel:
        def __init__(s, k, n): s.k = k; s.n = n
    @model(r'^QSemaphoreReleaser::QSemaphoreReleaser\(QSemaphore(&|\*), int\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, Rel(key(a[1]), a[2]))
    @model(r'^QSemaphoreReleaser::QSemaphoreReleaser\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, Rel(None, 0))
    @model(r'^QSemaphoreReleaser::~')
    def _(eng, st, a, c):
        v = eng.get_abs(st, a[0], None, 'releaser')
        if v.k is not None: release(eng, st, v.k, v.n)
    @model(r'^QSemaphoreReleaser::cancel\(\)$')
    def _(eng, st, a, c):
        v = eng.get_abs(st, a[0], None, 'releaser'); eng.store(st, a[0], 8, Rel(None, 0))
        return Ptr(v.k[0], v.k[1]) if v.k else NULL
