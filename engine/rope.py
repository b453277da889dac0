"""Byte strings of symbolic length: ropes of pieces, and the varint spec functions."""
import z3

B64 = lambda x: z3.BitVecVal(x, 64) if isinstance(x, int) else x
B8 = lambda x: z3.BitVecVal(x, 8) if isinstance(x, int) else x

def isint(x): return isinstance(x, int) and not isinstance(x, bool)

def add64(a, b):
    if isint(a) and isint(b): return (a + b) & (2**64-1)
    if isint(a) and a == 0: return b
    if isint(b) and b == 0: return a
    return z3.simplify(B64(a) + B64(b))

def sub64(a, b):
    if isint(a) and isint(b): return (a - b) & (2**64-1)
    if isint(b) and b == 0: return a
    return z3.simplify(B64(a) - B64(b))

def simp(x):
    if isinstance(x, (int, bool)): return x
    x = z3.simplify(x)
    if z3.is_bv_value(x): return x.as_long()
    return x

# ------------------------------------------------------------------ varint spec
def vi_len(x):
    """minimal varint length of a 64-bit value"""
    if isint(x): return max(1, (x.bit_length() + 6)//7)
    r = z3.BitVecVal(10, 64)
    for k in range(9, 0, -1):
        r = z3.If(z3.ULT(x, z3.BitVecVal(1 << (7*k), 64)), z3.BitVecVal(k, 64), r)
    return r

def vi_byte(x, k):
    """k-th byte (k python int) of the minimal varint of x"""
    x = B64(x)
    rest = z3.LShR(x, 7*k) if k else x
    low = z3.Extract(6, 0, rest)
    more = z3.LShR(x, 7*(k+1)) != 0 if k < 9 else z3.BoolVal(False)
    return z3.Concat(z3.If(more, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), low)

ArrS = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))

# decoding spec: number of bytes of the varint at p (0 = no terminator within ten bytes), and its value
def vd_len(get):
    r = z3.BitVecVal(0, 64)
    for k in range(9, -1, -1):
        r = z3.If(z3.Extract(7, 7, get(k)) == 0, z3.BitVecVal(k+1, 64), r)
    return r

def vd_val(get):
    """64-bit value (mod 2^64) of the varint whose first bytes are get(0..9)"""
    # sum over k < len of low7(byte k) << 7k
    acc = z3.BitVecVal(0, 64); act = z3.BoolVal(True)
    for k in range(10):
        b = get(k)
        low = z3.ZeroExt(57, z3.Extract(6, 0, b))
        acc = acc + z3.If(act, low << (7*k), z3.BitVecVal(0, 64))
        act = z3.And(act, z3.Extract(7, 7, b) == 1)
    # the tenth byte's continuation contributes nothing (handled: acc for k=10 is 0)
    return acc

VLEN = z3.Function('VLEN', ArrS, z3.BitVecSort(64), z3.BitVecSort(64))
VVAL = z3.Function('VVAL', ArrS, z3.BitVecSort(64), z3.BitVecSort(64))

def vdef(arr, p):
    """definitional axioms for VLEN/VVAL at (arr,p)"""
    p = B64(p)
    get = lambda k: z3.Select(arr, p + k)
    return [VLEN(arr, p) == vd_len(get), VVAL(arr, p) == vd_val(get)]

def collect_defs(exprs, extra=()):
    """find VLEN/VVAL applications in exprs -> definitional axioms (one round per nesting)"""
    seen = set(); defs = []; done = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(e): continue
        if z3.is_app(e):
            d = e.decl()
            nm = d.name()
            if nm in ('VLEN', 'VVAL') and e.num_args() == 2:
                key = (e.arg(0).get_id(), e.arg(1).get_id())
                if key not in done:
                    done.add(key)
                    ds = vdef(e.arg(0), e.arg(1))
                    defs += ds; stack += ds
            for f in extra:
                ds = f(e)
                if ds:
                    key = ('x', i)
                    if key not in done:
                        done.add(key); defs += ds; stack += ds
            stack += e.children()
    return defs

# ------------------------------------------------------------------ pieces
class Lit:
    __slots__ = ('bs',)
    def __init__(s, bs): s.bs = list(bs)
    def len(s): return len(s.bs)
    def at(s, k):
        if isint(k): return s.bs[k]
        r = B8(s.bs[-1]) if s.bs else z3.BitVecVal(0, 8)
        for i in range(len(s.bs)-2, -1, -1):
            r = z3.If(k == i, B8(s.bs[i]), r)
        return r
    def __repr__(s): return 'Lit%r' % (s.bs,)

class Sl:
    """arr[off .. off+n)"""
    __slots__ = ('arr', 'off', 'n')
    def __init__(s, arr, off, n): s.arr = arr; s.off = off; s.n = n
    def len(s): return s.n
    def at(s, k): return z3.Select(s.arr, B64(add64(s.off, k)))
    def __repr__(s): return 'Sl(%s,%s,%s)' % (s.arr, s.off, s.n)

class Vi:
    """minimal varint of a 64-bit term"""
    __slots__ = ('x', '_l')
    def __init__(s, x): s.x = simp(x); s._l = None
    def len(s):
        if s._l is None: s._l = vi_len(s.x)
        return s._l
    def at(s, k):
        if isint(k): return simp(vi_byte(s.x, k)) if k < 10 else 0
        r = vi_byte(s.x, 9)
        for i in range(8, -1, -1):
            r = z3.If(k == i, vi_byte(s.x, i), r)
        return r
    def __repr__(s): return 'Vi(%s)' % (s.x,)

class Rope:
    __slots__ = ('ps', '_len')
    def __init__(s, ps=()):
        out = []
        for p in ps:
            if isinstance(p, Rope):
                qs = p.ps
            else: qs = [p]
            for q in qs:
                n = q.len()
                if isint(n) and n == 0: continue
                if isinstance(q, Vi) and isint(q.x):
                    x = q.x; bs = []
                    while True:
                        b = x & 0x7f; x >>= 7
                        bs.append(b | (0x80 if x else 0))
                        if not x: break
                    q = Lit(bs)
                if isinstance(q, Lit) and out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].bs + q.bs)
                else: out.append(q)
        s.ps = out; s._len = None
    def len(s):
        if s._len is None:
            t = 0
            for p in s.ps: t = add64(t, p.len())
            s._len = t
        return s._len
    def __add__(s, o):
        if s.ps and o.ps and isinstance(s.ps[-1], Sl) and isinstance(o.ps[0], Sl):
            a, b = s.ps[-1], o.ps[0]
            if a.arr.eq(b.arr):                      # adjacent slices of one array
                e = simp(add64(a.off, a.n))
                if (isint(e) and isint(b.off) and e == b.off) or (not isint(e) and not isint(b.off) and e.eq(simp(b.off))): return Rope(list(s.ps[:-1]) + [Sl(a.arr, a.off, simp(add64(a.n, b.n)))] + list(o.ps[1:]))
        return Rope(s.ps + o.ps)
    def at(s, k):
        """byte at index k (int or BV64); 0 beyond the end (the terminating NUL)"""
        if isint(k):
            off = 0
            ok = True
            for p in s.ps:
                n = p.len()
                if not isint(n):
                    if isinstance(p, Vi) and k == off: return p.at(0)
                    ok = False; break
                if k < off + n: return p.at(k - off)
                off += n
            if ok: return 0
        k = B64(k)
        # build nested ite from the end
        offs = []; o = 0
        for p in s.ps:
            offs.append(o); o = add64(o, p.len())
        r = z3.BitVecVal(0, 8)
        for p, st in reversed(list(zip(s.ps, offs))):
            end = add64(st, p.len())
            r = z3.If(z3.ULT(k, B64(end)), B8(p.at(sub64(k, st) if not isint(st) or st else k)), r)
        return r
    def __repr__(s): return 'Rope%r' % (s.ps,)

def lit(b): return Rope([Lit(list(b))])

class Sub:
    """rope[off .. off+n) (lazy)"""
    __slots__ = ('r', 'off', 'n')
    def __init__(s, r, off, n): s.r = r; s.off = off; s.n = n
    def len(s): return s.n
    def at(s, k): return s.r.at(add64(s.off, k))
    def __repr__(s): return 'Sub(%r,%s,%s)' % (s.r, s.off, s.n)

def sub_rope(r, off, n):
    """rope r[off..off+n); caller guarantees off+n <= len"""
    off = simp(off); n = simp(n)
    if isint(n) and n == 0: return Rope()
    if isint(off) and off == 0:
        l = simp(r.len())
        if (isint(l) and isint(n) and l == n) or (not isint(l) and not isint(n) and l.eq(n)): return r
    # drop whole leading pieces when offsets line up syntactically
    ps = list(r.ps); o = off
    while ps:
        l = simp(ps[0].len())
        if isint(o) and o == 0: break
        if isint(o) and isint(l):
            if l <= o:
                o -= l; ps.pop(0); continue
            if isinstance(ps[0], Lit):
                ps[0] = Lit(ps[0].bs[o:]); o = 0; continue
            if isinstance(ps[0], Sl):
                ps[0] = Sl(ps[0].arr, add64(ps[0].off, o), sub64(l, o)); o = 0
            break
        if not isint(o) and not isint(l) and o.eq(l):
            o = 0; ps.pop(0); continue
        if len(ps) == 1 and isinstance(ps[0], Sl):
            return Rope([Sl(ps[0].arr, simp(add64(ps[0].off, o)), n)])
        break
    rr = Rope(ps)
    if isint(o) and o == 0:
        l = simp(rr.len())
        if (isint(l) and isint(n) and l == n) or (not isint(l) and not isint(n) and l.eq(n)): return rr
        # leading pieces covering exactly n
        acc = 0
        for i, p in enumerate(rr.ps):
            acc = simp(add64(acc, p.len()))
            if (isint(acc) and isint(n) and acc == n) or (not isint(acc) and not isint(n) and acc.eq(n)):
                return Rope(rr.ps[:i+1])
            if isint(acc) and isint(n) and acc > n:
                last = rr.ps[i]; keep = last.len() - (acc - n)
                if isinstance(last, Lit): return Rope(rr.ps[:i] + [Lit(last.bs[:keep])])
                if isinstance(last, Sl): return Rope(rr.ps[:i] + [Sl(last.arr, last.off, keep)])
                break
            if not isint(acc): 
                if len(rr.ps) == 1 and isinstance(p, Sl): return Rope([Sl(p.arr, p.off, n)])
    if len(ps) == 1 and isinstance(ps[0], Sl):
        return Rope([Sl(ps[0].arr, add64(ps[0].off, o), n)])
    return Rope([Sub(rr, o, n)])
