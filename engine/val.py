"""Qt containers, strings and sub-messages as opaque contents: assumed value semantics of Qt, proved contracts of P17 and P18."""
import re, z3
from rope import *
from sym import *
import qtmodels as Q
from net import un
I64 = z3.BitVecSort(64)
DEEP = z3.Function('content_of_messages', I64, I64)          # what repeatedValueCompare compares
class OV:
    """opaque content of a container or string; 0 is the empty one"""
    __slots__ = ('w',)
    def __init__(s, w): s.w = w
    def __repr__(s): return 'OV(%s)' % (s.w,)
class MV(OV):
    """opaque content of a message object; 0 is the default message"""
    __slots__ = ()
class LP:
    """lazy message pointer: the object it holds, or nothing"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
    def __repr__(s): return 'LP(%s)' % (s.p,)
ZERO = z3.BitVecVal(0, 64)
def ov(eng, st, p, k=OV): return eng.get_abs(st, un(p), k, 'content').w
def install_val(eng, leaf=('vg::Leaf',)):
    model = eng.model; A = eng.assumptions.add; base = len(eng.models)
    CL = r'^(?:QList<.*>|QVector<.*>|QMap<.*>|QHash<.*>|QStringList|QString|QByteArray)::'
    def setov(eng, st, p, w, k=OV): eng.put_abs(st, un(p), k(w), 8)
    def special(rx, K, what):
        """value semantics of a class: construction, copy, move, assignment, comparison"""
        name = rx.rsplit('::', 1)[0]
        def note(): A(what)
        @model(rx + r'(\w+)\((QObject\*)?\)$')
        def _(eng, st, a, c):
            m = c.m.group(1)
            if m in ('QList', 'QVector', 'QMap', 'QHash', 'QStringList', 'QString', 'QByteArray') or K is MV: note(); setov(eng, st, a[0], ZERO, K); return
            if m in ('clear',): setov(eng, st, a[0], ZERO, K); return
            raise Unsupported(c.dem)
        @model(rx + r'(\w+)\(([^()]*?)( const&|&&)\)$')
        def _(eng, st, a, c):
            m = c.m.group(1); note()
            if m not in ('QList', 'QVector', 'QMap', 'QHash', 'QStringList', 'QString', 'QByteArray', 'swap') and K is not MV: raise Unsupported(c.dem)
            if c.m.group(2).split('<')[0] not in c.dem.split('::' + m + '(')[0] and not (c.m.group(2).startswith('QList<QString>') and 'QStringList' in c.dem): raise Unsupported(c.dem)
            w = ov(eng, st, a[1], K)
            if c.m.group(3) == '&&': setov(eng, st, a[1], ZERO, K)
            setov(eng, st, a[0], w, K); return None
        @model(rx + r'operator ?=\(([^()]*?)( const&|&&)\)$')
        def _(eng, st, a, c):
            note(); w = ov(eng, st, a[1], K)
            if c.m.group(2) == '&&' and not (un(a[0]).obj is un(a[1]).obj and Q.teq(un(a[0]).off, un(a[1]).off)): setov(eng, st, a[1], ZERO, K)
            setov(eng, st, a[0], w, K); return a[0]
        @model(rx + r'~\w+\(\)$')
        def _(eng, st, a, c): return None
        @model(rx + r'swap\(([^()]*?)&\)$')
        def _(eng, st, a, c): x, y = ov(eng, st, a[0], K), ov(eng, st, a[1], K); setov(eng, st, a[0], y, K); setov(eng, st, a[1], x, K)
        @model(rx + r'operator ?(==|!=)\(([^()]*?) const&\) const$')
        def _(eng, st, a, c): note(); r = simpb(ov(eng, st, a[0], K) == ov(eng, st, a[1], K)); return r if c.m.group(1) == '==' else bnot(r)
        @model(rx + r'(isEmpty|empty)\(\) const$')
        def _(eng, st, a, c):
            if K is MV: raise Unsupported(c.dem)
            return simpb(ov(eng, st, a[0], K) == 0)
    special(CL, OV, 'QString, QByteArray, QList and QMap are values: copies and moves carry the content, == compares it (Qt)')
    @model(r'^operator ?(==|!=)\((QString|QByteArray) const&, (QString|QByteArray) const&\)$')
    def _(eng, st, a, c): r = simpb(ov(eng, st, a[0]) == ov(eng, st, a[1])); return r if c.m.group(1) == '==' else bnot(r)
    @model(r'^bool QtProtobuf::repeatedValueCompare<.*QSharedPointer<')
    def _(eng, st, a, c): A('repeatedValueCompare compares by content (its contract, proved by P17)'); return simpb(DEEP(ov(eng, st, a[0])) == DEEP(ov(eng, st, a[1])))
    for l in leaf:
        special('^' + l + '::', MV, 'the sub-message class is a value (the same contract, proved here for every field kind)')
        P = r'^QProtobufLazyMessagePointer<%s>::' % l
        def lp(eng, st, p): return eng.get_abs(st, un(p), LP, 'lazy pointer')
        def put(eng, st, p, x): A('QProtobufLazyMessagePointer behaves like a value created on first access (its contract, proved by P18)'); eng.put_abs(st, un(p), LP(x), 8)
        def deref(eng, st, p):
            x = lp(eng, st, p)
            if x.p is None: o = eng.alloc(st, 'leaf', None, 'heap'); q = Ptr(o, 0); setov(eng, st, q, ZERO, MV); put(eng, st, p, q); return q
            return x.p
        def word(eng, st, p): x = lp(eng, st, p); return ZERO if x.p is None else ov(eng, st, x.p, MV)
        @model(P + r'(QProtobufLazyMessagePointer|reset)\(%s\*\)( const)?$' % l)
        def _(eng, st, a, c): put(eng, st, a[0], un(a[1]) if un(a[1]).obj is not None else None)
        @model(P + r'(QProtobufLazyMessagePointer|operator ?=)\(QProtobufLazyMessagePointer<%s>&&\)$' % l)
        def _(eng, st, a, c):
            if un(a[0]).obj is un(a[1]).obj and Q.teq(un(a[0]).off, un(a[1]).off): return a[0]
            x = lp(eng, st, a[1]); put(eng, st, a[1], None); put(eng, st, a[0], x.p); return a[0]
        @model(P + r'~QProtobufLazyMessagePointer\(\)$')
        def _(eng, st, a, c): return None
        @model(P + r'(operator ?\*|operator ?->|get)\(\) const$')
        def _(eng, st, a, c): return deref(eng, st, a[0])
        @model(P + r'operator bool\(\) const$')
        def _(eng, st, a, c): return lp(eng, st, a[0]).p is not None
        @model(P + r'operator ?(==|!=)\(')
        def _(eng, st, a, c): r = simpb(word(eng, st, a[0]) == word(eng, st, a[1])); return r if c.m.group(1) == '==' else bnot(r)
    @model(r'^QObject::~?QObject\(')
    def _(eng, st, a, c): return None
    @model(r'^vg::\w+::(\w+)Changed\(\)$')
    def _(eng, st, a, c): st.ev('changed', un(a[0]), c.m.group(1))
    eng.models[:] = eng.models[base:] + eng.models[:base]
