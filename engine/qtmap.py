"""Assumed contracts of QMap and QSharedPointer (value level)."""
import re, z3
from rope import *
from sym import *
import sym as S, qtmodels as Q

class SP:
    """shared pointer: null is False, True or a condition"""
    __slots__ = ('p', 'null')
    def __init__(s, p, null=False): s.p = p; s.null = null
    def __repr__(s): return 'SP(%r,%s)' % (s.p, s.null)
class QM:
    """map value: n symbolic entries (key(eng,st,i), val(eng,st,i)) overlaid by puts (key, value or slot pointer)"""
    __slots__ = ('name', 'n', 'key', 'val', 'puts', 'it', 'lookup')
    def __init__(s, name=None, n=0, key=None, val=None, puts=(), lookup=None): s.name = name; s.n = n; s.key = key; s.val = val; s.puts = puts; s.it = None; s.lookup = lookup     # lookup(eng, st, key) -> (present condition, value)
    def freeze(s, eng, st): return freeze(eng, st, s)
    def __repr__(s): return 'QM(%s,%s,%r)' % (s.name, s.n, s.puts)
class Slot:
    __slots__ = ('p', 'tn')
    def __init__(s, p, tn): s.p = p; s.tn = tn
Q.ZERO['QMap'] = lambda eng, st, tn: QM()
Q.ZERO['QSharedPointer'] = lambda eng, st, tn: SP(NULL, True)

def freeze(eng, st, m):
    """resolve slots handed out by operator[] to the values they hold"""
    if not any(isinstance(v, Slot) for k, v in m.puts): return m
    r = QM(m.name, m.n, m.key, m.val, tuple((k, Q.read_val(eng, st, v.p, v.tn) if isinstance(v, Slot) else v) for k, v in m.puts)); return r

def install_map(eng):
    model = eng.model
    MP = r'^QMap<(?P<kv>.+)>::'
    def kv(c):
        d = c.dem; i = d.index('QMap<') + 5; n = 1; j = i
        while n:
            n += (d[j] == '<') - (d[j] == '>'); j += 1
        return Q.split_targs(d[i:j-1])
    def G(eng, st, p):
        v = eng.get_abs(st, p, None, 'QMap')
        if not isinstance(v, QM): raise Unsupported('QMap %r' % (v,))
        return v
    eng.QMAP = lambda st, p: freeze(eng, st, G(eng, st, p))
    @model(MP + r'QMap\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, QM())
    @model(MP + r'QMap\(QMap<.*(const&|&&)\)$')
    def _(eng, st, a, c):
        eng.store(st, a[0], 8, freeze(eng, st, G(eng, st, a[1])))
        if c.dem.endswith('&&)'): eng.store(st, a[1], 8, QM())
    @model(MP + r'operator=\(QMap<.*(const&|&&)\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 8, freeze(eng, st, G(eng, st, a[1]))); return a[0]
    @model(MP + r'~QMap\(\)$')
    def _(eng, st, a, c): return None
    def itobj(m):
        if m.puts: raise Unsupported('iteration over a modified map')
        if m.it is None: m.it = Obj('qmapit', None, 'umapit', m)
        return m.it
    @model(MP + r'(constBegin|cbegin|begin|constEnd|cend|end)\(\)( const)?$')
    def _(eng, st, a, c):
        m = G(eng, st, a[0]); return Ptr(itobj(m), 0 if 'egin' in c.m.group(2) else (m.n*8 if isint(m.n) else simp(m.n*8)))
    @model(MP + r'(isEmpty|empty|size|count)\(\) const$')
    def _(eng, st, a, c):
        m = G(eng, st, a[0])
        if m.puts: raise Unsupported('size of a modified map')
        if 'mpty' in c.m.group(2): return eqv(m.n, 0)
        return m.n & 0xffffffff if isint(m.n) else simp(z3.Extract(31, 0, m.n))
    @model(MP + r'operator\[\]\(.* const&\)$')
    def _(eng, st, a, c):
        m = freeze(eng, st, G(eng, st, a[0])); kt, vt = kv(c); k = Q.read_val(eng, st, a[1], kt)
        o = eng.alloc(st, 'mapslot', Q.cpp_size(vt)); Q.write_val(eng, st, Ptr(o, 0), vt, Q.zero_val(eng, st, vt))      # previous value: replaced below
        eng.store(st, Ptr(o, 0), Q.cpp_size(vt), Q.zero_val(eng, st, vt))
        eng.store(st, a[0], 8, QM(m.name, m.n, m.key, m.val, m.puts + ((k, Slot(Ptr(o, 0), vt)),))); return Ptr(o, 0)
    @model(MP + r'insert\(.* const&, .* const&\)$')
    def _(eng, st, a, c):
        m = freeze(eng, st, G(eng, st, a[0])); kt, vt = kv(c); k = Q.read_val(eng, st, a[1], kt); v = Q.read_val(eng, st, a[2], vt)
        eng.store(st, a[0], 8, QM(m.name, m.n, m.key, m.val, m.puts + ((k, v),))); return Ptr(Obj('qmapit', None, 'mapnode', (k, v)), 0)
    def find(eng, st, m, k):
        """-> [(state, found, value)]"""
        if m.puts or not m.lookup:
            if isint(m.n) and m.n == 0 and not m.puts: return [(st, False, None)]
            raise Unsupported('lookup in %r' % (m,))
        has, v = m.lookup(eng, st, k); s2 = st.fork(); r = []
        if eng.feasible(st, zb(has)): st.assume(zb(has)); r.append((st, True, v))
        if eng.feasible(s2, z3.Not(zb(has))): s2.assume(z3.Not(zb(has))); r.append((s2, False, None))
        return r
    @model(MP + r'(constFind|find)\(.* const&\)( const)?$')
    def _(eng, st, a, c):
        m = G(eng, st, a[0]); kt, vt = kv(c); k = Q.read_val(eng, st, a[1], kt)
        return [(s, ('ret', Ptr(Obj('qmapnode', None, 'mapnode', (k, v)), 0) if f else Ptr(itobj(m), m.n*8 if isint(m.n) else simp(m.n*8)))) for s, f, v in find(eng, st, m, k)]
    @model(MP + r'contains\(.* const&\) const$')
    def _(eng, st, a, c):
        m = G(eng, st, a[0]); kt, vt = kv(c); return [(s, ('ret', f)) for s, f, v in find(eng, st, m, Q.read_val(eng, st, a[1], kt))]
    @model(MP + r'(value\(.* const&(, .* const&)?\)|operator\[\]\(.* const&\)) const$')
    def _(eng, st, a, c):
        sret = c.ins.ty == ('void',); r = []
        if not sret: raise Unsupported('map lookup by value')
        m = G(eng, st, a[1]); kt, vt = kv(c)
        for s, f, v in find(eng, st, m, Q.read_val(eng, st, a[2], kt)):
            Q.write_val(eng, s, a[0], vt, v if f else Q.read_val(eng, s, a[3], vt) if len(a) > 3 else Q.zero_val(eng, s, vt)); r.append((s, ('ret', None)))
        return r
    IT = MP + r'(const_iterator|iterator)::'
    def it(eng, st, p):
        v = p if isinstance(p, Ptr) and p.obj is not None and p.obj.kind in ('umapit', 'mapnode') else eng.load(st, p, 8, ('ptr',))
        v = v.p if isinstance(v, PInt) else v
        if v.obj is None or v.obj.kind not in ('umapit', 'mapnode'): raise Unsupported('map iterator %r' % (v,))
        return v
    def idx(eng, st, v):
        i = v.off >> 3 if isint(v.off) else simp(z3.LShR(v.off, 3))
        eng.oblige(st, simpb(z3.ULT(B64(i), B64(v.obj.info.n))), 'iterator-dereferenceable'); return i
    @model(IT + r'(const_iterator|iterator)\(')
    def _(eng, st, a, c): eng.store(st, a[0], 8, it(eng, st, a[1]))
    @model(IT + r'(key|value|operator\*|operator->)\(\) const$')
    def _(eng, st, a, c):
        v = it(eng, st, a[0]); kt, vt = kv(c)
        if v.obj.kind == 'mapnode': return Q.val_obj(eng, st, kt if c.m.group(3) == 'key' else vt, v.obj.info[0 if c.m.group(3) == 'key' else 1])
        i = idx(eng, st, v)
        if c.m.group(3) == 'key': return Q.val_obj(eng, st, kt, v.obj.info.key(eng, st, i))
        return Q.val_obj(eng, st, vt, v.obj.info.val(eng, st, i))
    @model(IT + r'operator(\+\+|--)\((int)?\)$')
    def _(eng, st, a, c):
        v = it(eng, st, a[0])
        if v.obj.kind == 'mapnode': raise Unsupported('++ on a looked-up iterator')
        d = 8 if c.m.group(3) == '++' else (1 << 64) - 8
        if d == 8: idx(eng, st, v)
        eng.store(st, a[0], 8, Ptr(v.obj, simp(add64(v.off, d))))
        return v if c.m.group(4) else a[0]
    @model(IT + r'operator(==|!=)\(QMap<.*iterator const&\) const$')
    def _(eng, st, a, c):
        e = eng.icmp(st, 'eq', ('ptr',), it(eng, st, a[0]), it(eng, st, a[1])); return bnot(e) if c.m.group(3) == '!=' else e
    # ---------------------------------------------------------------- QSharedPointer
    SPR = r'^QSharedPointer<(.+)>::'
    def P(eng, st, p):
        v = eng.get_abs(st, p, None, 'QSharedPointer')
        if isinstance(v, SP): return v
        raise Unsupported('QSharedPointer %r' % (v,))
    @model(SPR + r'QSharedPointer\(\)$|' + SPR + r'QSharedPointer\(decltype\(nullptr\)\)$|' + SPR + r'QSharedPointer\(std::nullptr_t\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 16, SP(NULL, True))
    @model(SPR + r'QSharedPointer(<.*>)?\([^()]*\*(, .*)?\)$')
    def _(eng, st, a, c):
        p = a[1].p if isinstance(a[1], PInt) else a[1]
        eng.store(st, a[0], 16, SP(p, nullness(eng, st, p)))
    def nullness(eng, st, p):
        if not isinstance(p, Ptr): raise Unsupported('pointer %r' % (p,))
        if p.obj is None: return True
        i = p.obj.info
        if isinstance(i, dict) and 'isnull' in i: return i['isnull']
        return False
    eng.nullness = nullness
    @model(SPR + r'QSharedPointer(<.*>)?\(QSharedPointer<.*(const&|&&)\)$')
    def _(eng, st, a, c):
        eng.store(st, a[0], 16, P(eng, st, a[1]))
        if c.dem.endswith('&&)'): eng.store(st, a[1], 16, SP(NULL, True))
    @model(SPR + r'operator=(<.*>)?\(QSharedPointer<.*(const&|&&)\)$')
    def _(eng, st, a, c):
        eng.store(st, a[0], 16, P(eng, st, a[1]))
        return a[0]
    @model(SPR + r'(reset|clear)\(\)$')
    def _(eng, st, a, c): eng.store(st, a[0], 16, SP(NULL, True))
    @model(SPR + r'~QSharedPointer\(\)$')
    def _(eng, st, a, c): return None
    @model(SPR + r'(isNull\(\) const|operator!\(\) const)$')
    def _(eng, st, a, c): return P(eng, st, a[0]).null
    @model(SPR + r'operator bool\(\) const$')
    def _(eng, st, a, c): return bnot(P(eng, st, a[0]).null)
    @model(SPR + r'(data|get|operator->)\(\) const$')
    def _(eng, st, a, c): return P(eng, st, a[0]).p
    @model(SPR + r'operator .*QSharedPointer.*\(\) const$')      # safe bool conversion (pointer to member): null iff the pointer is
    def _(eng, st, a, c): raise Unsupported('safe-bool conversion')
    @model(SPR + r'operator\*\(\) const$')
    def _(eng, st, a, c):
        v = P(eng, st, a[0]); eng.oblige(st, bnot(v.null), 'null-deref', 'shared pointer dereferenced'); return v.p
    def ident(eng, p):
        p = p.p if isinstance(p, PInt) else p
        return B64(p.obj.info['tag']) if isinstance(p, Ptr) and p.obj is not None and isinstance(p.obj.info, dict) and 'tag' in p.obj.info else None
    @model(r'^bool operator(==|!=)<.+>\(QSharedPointer<.+> const&, (QSharedPointer<.+> const&|decltype\(nullptr\)|std::nullptr_t)\)$')
    def _(eng, st, a, c):
        x = P(eng, st, a[0])
        if not c.m.group(2).startswith('QShared'): e = x.null
        else:
            y = P(eng, st, a[1]); ix, iy = ident(eng, x.p), ident(eng, y.p)
            if ix is not None and iy is not None: same = ix == iy
            else: same = x.p.obj is not None and y.p.obj is not None and x.p.obj is y.p.obj
            nx, ny = x.null, y.null
            e = simpb(z3.Or(z3.And(zb(nx), zb(ny)), z3.And(z3.Not(zb(nx)), z3.Not(zb(ny)), zb(same))))
        return bnot(e) if c.m.group(1) == '!=' else e
