"""Symbolic executor / verification-condition generator over clang -O0 LLVM IR.

Function by function: callees that carry a contract are replaced by their contract, Qt/std/gRPC library
functions by assumed models (recorded as trusted), other functions of the repository are executed.
Every obligation is discharged by z3 (optionally cross-checked by cvc5).
"""
import re, time, itertools, os
import z3
from rope import *
import ir as IR

class Unsupported(Exception): pass
class Budget(Exception): pass
class LoopNeedsCut(Unsupported):
    def __init__(s, fn, blk, msg): Unsupported.__init__(s, msg); s.fn = fn; s.blk = blk

_ids = itertools.count(1)
def fresh_name(p): return '%s!%d' % (p, next(_ids))
def fbv(p, w): return z3.BitVec(fresh_name(p), w)
def fbool(p): return z3.Bool(fresh_name(p))
def farr(p): return z3.Array(fresh_name(p), z3.BitVecSort(64), z3.BitVecSort(8))

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'info')
    def __init__(s, name, size=None, kind='heap', info=None):
        s.id = next(_ids); s.name = name; s.size = size; s.kind = kind; s.info = info
    def __repr__(s): return '<%s:%s#%d>' % (s.kind, s.name, s.id)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj = obj; s.off = off
    def __repr__(s): return 'Ptr(%r,%s)' % (s.obj, s.off)
NULL = Ptr(None, 0)

class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
    def __repr__(s): return 'PInt(%r)' % s.p

class Term:
    """opaque abstract value: operator applied to python/z3/Term/rope arguments; compared structurally"""
    __slots__ = ('op', 'args')
    def __init__(s, op, *args): s.op = op; s.args = args
    def __repr__(s): return '%s(%s)' % (s.op, ', '.join(map(repr, s.args)))

class BA:
    """QByteArray value: handle to a buffer object (implicitly shared)"""
    __slots__ = ('buf', 'null')
    def __init__(s, buf, null=False): s.buf = buf; s.null = null
    def __repr__(s): return 'BA(%r)' % (s.buf,)

class Exc:
    __slots__ = ('ty', 'obj', 'info')
    def __init__(s, ty, obj=None, info=None): s.ty = ty; s.obj = obj; s.info = info
    def __repr__(s): return 'Exc(%s)' % s.ty

class State:
    __slots__ = ('mem', 'owned', 'pc', 'trace', 'ghost', 'dead', 'caught')
    def __init__(s):
        s.mem = {}; s.owned = set(); s.pc = []; s.trace = (); s.ghost = {}; s.dead = frozenset(); s.caught = ()
    def fork(s):
        t = State.__new__(State)
        t.mem = dict(s.mem); t.owned = set(); s.owned = set()
        t.pc = list(s.pc); t.trace = s.trace; t.ghost = dict(s.ghost); t.dead = s.dead; t.caught = s.caught
        return t
    def cells(s, o):
        return s.mem.setdefault(o, {}) if o not in s.mem else s.mem[o]
    def wcells(s, o):
        c = s.mem.get(o)
        if c is None:
            c = {}; s.mem[o] = c; s.owned.add(o)
        elif o not in s.owned:
            c = dict(c); s.mem[o] = c; s.owned.add(o)
        return c
    def assume(s, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        s.pc.append(c)
    def ev(s, *e):
        s.trace = s.trace + (e,)

def M(w): return (1 << w) - 1
def bv(x, w):
    if isinstance(x, bool): x = int(x)
    return z3.BitVecVal(x, w) if isinstance(x, int) else x
def tobool(x):
    if isinstance(x, (bool,)): return x
    if isinstance(x, int): return x != 0
    if z3.is_bool(x): return x
    return x != 0
def bnot(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def band(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def bor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def implies(a, b): return bor(bnot(a), b)
def sgn(x, w): return x - (1 << w) if x >> (w-1) else x
def eqv(a, b, w=64):
    if isint(a) and isint(b): return a == b
    return simpb(bv(a, w) == bv(b, w))
def simpb(b):
    if isinstance(b, bool): return b
    b = z3.simplify(b)
    if z3.is_true(b): return True
    if z3.is_false(b): return False
    return b

EXC_PARENTS = {
 '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
 '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
 '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
 '_ZTISt13runtime_error': ['_ZTISt9exception'],
 '_ZTISt17bad_function_call': ['_ZTISt9exception'],
 '_ZTISt11logic_error': ['_ZTISt9exception'],
}

class Obl:
    __slots__ = ('name', 'status', 'info', 'time', 'model', 'where')
    def __init__(s, name, status, info=None, t=0, model=None, where=None):
        s.name = name; s.status = status; s.info = info; s.time = t; s.model = model; s.where = where

class Engine:
    def __init__(self, mods, repo='/repo', timeout_ms=20000):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.repo = repo
        self.timeout = timeout_ms
        self.models = []          # (regex, fn)
        self._mcache = {}
        self.contracts = {}       # mangled -> contract.apply(eng, st, args, ctx)
        self.contract_rx = []     # (regex on demangled, apply)
        self._ccache = {}
        self.root = None
        self.obls = []
        self.trusted = set()      # names of models used
        self.used_contracts = set()
        self.executed = set()     # functions whose body was executed
        self.solver_time = 0.0; self.queries = 0
        self.max_unroll = 80
        self.depth_limit = 60
        self.path_limit = 6000
        self.paths = 0
        self.gobjs = {}
        self.fnobjs = {}
        self.loop_handler = None
        self.check_ub = True
        self.inputs = {}
        self.defs_extra = []
        self.deadline = None
        self.cvc5 = False
        self.cur_where = None
        self.memo_prove = {}
        self.havoc_hook = None
        self.on_access = None     # (state, object, offset, 'r'|'w') observer of every memory access
        self.stats = {}
        self.posts = 0; self.assumptions = set(); self.notes = []; self.taints = {}
    # ------------------------------------------------------------ solver
    def _solver(self):
        s = z3.SolverFor('QF_AUFBV')
        s.set('timeout', self.timeout)
        return s
    def check(self, st, *conds, defs=False):
        cs = []
        for c in conds:
            if isinstance(c, bool):
                if not c: return 'unsat', None
            else: cs.append(c)
        if self.deadline and time.time() > self.deadline: raise Budget('time budget')
        t = time.time()
        s = z3.Solver(); s.set('timeout', self.timeout)
        fs = list(st.pc) + cs
        if defs: fs = fs + collect_defs([f for f in fs if not isinstance(f, bool)], self.defs_extra)
        s.add(*fs)
        r = s.check()
        self.solver_time += time.time() - t; self.queries += 1
        if r == z3.sat: return 'sat', s.model()
        if r == z3.unsat: return 'unsat', None
        return 'unknown', None
    def feasible(self, st, c):
        """may over-approximate (unknown counts as feasible)"""
        if isinstance(c, bool):
            return c
        r, _ = self.check(st, c)
        return r != 'unsat'
    def prove(self, st, c):
        """-> ('proved'|'failed'|'unknown', model)"""
        c = simpb(c)
        if c is True: return 'proved', None
        neg = True if c is False else z3.Not(c)
        r, m = self.check(st, neg)
        if r == 'unsat': return 'proved', None
        r2, m2 = self.check(st, neg, defs=True)
        if r2 == 'unsat': return 'proved', None
        if r2 == 'sat': return 'failed', m2
        return 'unknown', None
    def oblige(self, st, c, name, info=None, assume=True):
        t = time.time()
        r, m = self.prove(st, c)
        o = Obl(name, r, info, time.time() - t, None, self.cur_where)
        if r == 'failed':
            o.model = self.eval_inputs(m)
            if st.ghost.get('taint'):
                o.status = r = 'unknown'; o.info = '%s (imprecise model on this path: %s)' % (o.info, st.ghost['taint'])
        self.obls.append(o)
        if assume and r != 'proved': st.assume(simpb(c))
        return r == 'proved'
    def taint(self, st, why): st.ghost['taint'] = st.ghost.get('taint', ()) + (why,)
    def fail(self, st, name, info=None):
        """path must be infeasible"""
        return self.oblige(st, False, name, info)
    def eval_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = self.ev_model(m, v)
            except Exception as e:
                out[k] = 'error: %r' % (e,)
        return out
    def ev_model(self, m, v):
        if callable(v): return v(m, self)
        if isinstance(v, (int, bool, str)) or v is None: return v
        if isinstance(v, (list, tuple)): return [self.ev_model(m, x) for x in v]
        if isinstance(v, Rope): return self.ev_rope(m, v)
        x = m.eval(v, model_completion=True)
        if z3.is_bv_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
        return str(x)
    def ev_rope(self, m, r, limit=4096):
        n = r.len(); n = n if isint(n) else m.eval(B64(n), model_completion=True).as_long()
        out = []
        for k in range(min(n, limit)):
            b = r.at(k)
            out.append(b if isint(b) else m.eval(B8(b), model_completion=True).as_long())
        return {'len': n, 'hex': bytes(out).hex()}
    # ------------------------------------------------------------ lookup
    def find_fn(self, name):
        for m in self.mods:
            if name in m.fns: return m.fns[name]
            if name in m.aliases and m.aliases[name] in m.fns: return m.fns[m.aliases[name]]
        return None
    def by_dem(self, rx):
        r = re.compile(rx); out = []
        seen = set()
        for m in self.mods:
            for d, ns in m.bydem.items():
                if r.search(d):
                    for n in ns:
                        if n not in seen:
                            seen.add(n); out.append(m.fns[n])
        return out
    def dem(self, name):
        for m in self.mods:
            if name in m._dem: return m._dem[name]
        return self.mods[0].dem(name)
    def model(self, rx):
        def d(f):
            self.models.append((re.compile(rx), f)); return f
        return d
    def find_model(self, name):
        if name in self._mcache: return self._mcache[name]
        d = self.dem(name); r = None
        for rx, f in self.models:
            m = rx.match(d)
            if m: r = (f, m); break
        self._mcache[name] = r
        return r
    def find_contract(self, name):
        if name in self._ccache: return self._ccache[name]
        r = self.contracts.get(name)
        if r is None and self.contract_rx:
            d = self.dem(name)
            for rx, f in self.contract_rx:
                if rx.search(d): r = f; break
        self._ccache[name] = r
        return r
    # ------------------------------------------------------------ objects
    def fnptr(self, name):
        o = self.fnobjs.get(name)
        if o is None:
            o = Obj(name, 1, 'fn', name); self.fnobjs[name] = o
        return Ptr(o, 0)
    def alloc(self, st, name, size, kind='heap', info=None):
        o = Obj(name, size, kind, info); st.mem[o] = {}; st.owned.add(o); return o
    def new_buf(self, st, rope, name='buf'):
        o = Obj(name, None, 'buf'); st.mem[o] = {'rope': rope}; st.owned.add(o); return o
    def global_ptr(self, st, mod, name):
        if self.find_fn(name) is not None or name in mod.declares or any(name in m.declares for m in self.mods):
            return self.fnptr(name)
        o = self.gobjs.get(name)
        if o is None:
            g = None
            for m in self.mods:
                if name in m.globs:
                    g = m.glob(name); gm = m
                    if g and g[1] is not None: break
            sz = None
            if g:
                try: sz = gm.size(g[0])
                except KeyError: sz = None
            o = Obj(name, sz, 'glob', (gm, g) if g else None)
            self.gobjs[name] = o
        if o not in st.mem:
            st.mem[o] = {}; st.owned.add(o)
            if o.info:
                gm, g = o.info
                if g[1] is not None:
                    self.init_const(st, gm, o, 0, g[0], g[1])
        return Ptr(o, 0)
    def init_const(self, st, mod, o, off, ty, v):
        t = mod.resolve(ty)
        if v[0] == 'zero':
            self.zero(st, o, off, mod.size(ty)); return
        if v[0] == 'bytes':
            c = st.wcells(o)
            for i, b in enumerate(v[1]): c[off+i] = (1, b)
            return
        if v[0] == 'agg':
            if t[0] == 'struct':
                offs, _ = mod.layout(t)
                for fo, (ft, fv) in zip(offs, v[1]): self.init_const(st, mod, o, off+fo, ft, fv)
            else:
                es = mod.size(t[2])
                for i, (ft, fv) in enumerate(v[1]): self.init_const(st, mod, o, off+i*es, ft, fv)
            return
        if v[0] == 'undef': return
        if t[0] in ('struct', 'array'): return
        self.store(st, Ptr(o, off), mod.size(ty), self.val(st, None, mod, ty, v), init=True)
    def zero(self, st, o, off, n):
        c = st.wcells(o)
        for i in range(n):
            if off+i in c: del c[off+i]
        c.setdefault('zero', ())
        c['zero'] = c['zero'] + ((off, off+n),)
    # ------------------------------------------------------------ memory
    def conc(self, st, off):
        """concrete python int for an offset, if it is forced"""
        off = simp(off)
        if isint(off): return off
        r, m = self.check(st)
        if r == 'sat':
            v = m.eval(off, model_completion=True).as_long()
            if self.prove(st, off == v)[0] == 'proved': return v
        return None
    def deref_check(self, st, p, what):
        if isinstance(p, PInt): p = p.p
        if not isinstance(p, Ptr):
            raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.obj is None:
            self.fail(st, 'null-deref', what)
            raise PathEnd()
        if p.obj in st.dead:
            self.fail(st, 'use-after-lifetime', '%s %r' % (what, p.obj))
            raise PathEnd()
        if self.on_access is not None: self.on_access(st, p.obj, p.off, 'w' if what in ('store', 'destroy') else 'r')
        return p
    def buf_load(self, st, p, n):
        rope = st.mem[p.obj]['rope']
        off = simp(p.off)
        ln = rope.len()
        # the NUL terminator of QByteArray storage is readable
        if isint(off) and isint(ln): ok = off + n <= ln + 1
        else: ok = z3.And(z3.ULE(B64(off), B64(ln) + 1), z3.ULE(B64(off) + n, B64(ln) + 1))
        self.oblige(st, ok, 'read-in-bounds', 'read of %d byte(s) inside the buffer' % n)
        bs = [rope.at(add64(off, i)) for i in range(n)]
        return self.cat_bytes(bs)
    def cat_bytes(self, bs):
        if all(isint(b) for b in bs): return int.from_bytes(bytes(bs), 'little')
        if len(bs) == 1: return simp(bs[0])
        return simp(z3.Concat(*[B8(b) for b in reversed(bs)]))
    def split_bytes(self, v, n):
        if isint(v): return [(v >> (8*i)) & 255 for i in range(n)]
        return [simp(z3.Extract(8*i+7, 8*i, v)) for i in range(n)]
    def buf_store(self, st, p, n, v):
        if not (isint(v) or z3.is_bv(v)):
            raise Unsupported('store of %r into byte buffer' % (v,))
        c = st.wcells(p.obj); rope = c['rope']; off = simp(p.off); ln = simp(rope.len())
        if isint(off) and isint(ln): ok = off + n <= ln
        else: ok = z3.And(z3.ULE(B64(off), B64(ln)), z3.ULE(B64(off) + n, B64(ln)))
        self.oblige(st, ok, 'write-in-bounds', 'write of %d byte(s) inside the buffer' % n)
        bs = self.split_bytes(v, n)
        # literal fast path
        if isint(off):
            o = 0
            for i, q in enumerate(rope.ps):
                l = simp(q.len())
                if isinstance(q, Lit) and off >= o and off + n <= o + l:
                    nb = list(q.bs); nb[off-o:off-o+n] = bs
                    c['rope'] = Rope(rope.ps[:i] + [Lit(nb)] + rope.ps[i+1:]); return
                if not isint(l): break
                o += l
        # last byte(s) of a rope ending with a literal: offset == len - k
        if rope.ps and isinstance(rope.ps[-1], Lit):
            d = simp(sub64(ln, off))
            q = rope.ps[-1]
            if isint(d) and n <= d <= len(q.bs):
                nb = list(q.bs); s = len(nb) - d; nb[s:s+n] = bs
                c['rope'] = Rope(rope.ps[:-1] + [Lit(nb)]); return
        # general: materialise as an array with stores (defined by a fresh array equal to the rope)
        if len(rope.ps) == 1 and isinstance(rope.ps[0], Sl):
            q = rope.ps[0]; a = q.arr
            for i, b in enumerate(bs): a = z3.Store(a, B64(add64(q.off, add64(off, i))), B8(b))
            c['rope'] = Rope([Sl(a, q.off, q.n)]); return
        c['rope'] = Rope([Patch(rope, off, bs)])
    def load(self, st, p, n, want=None):
        p = self.deref_check(st, p, 'load')
        o = p.obj
        if o.kind == 'buf': return self.buf_load(st, p, n)
        if o.kind == 'fn': raise Unsupported('load from function')
        if o.kind == 'elems': return self.elem_load(st, p, n)
        if o.kind == 'vec' and getattr(o.info, 'read', None): return o.info.read(self, st, p.off, n)
        off = p.off
        if not isint(off):
            c = self.conc(st, off)
            if c is None: return self.sym_load(st, p, n)
            off = c
        if o.size is not None and isint(o.size) and off + n > o.size:
            self.fail(st, 'read-in-bounds', 'object %s size %s offset %d' % (o.name, o.size, off)); raise PathEnd()
        cells = st.mem.get(o)
        if cells is None: cells = {}; st.mem[o] = cells
        x = cells.get(off)
        if x is not None and x[0] == n: return x[1]
        if x is not None and x[0] > n and (isint(x[1]) or z3.is_bv(x[1])):
            return self.cat_bytes(self.split_bytes(x[1], x[0])[:n])
        # assemble bytes
        bs = []
        for i in range(n):
            b = self.byte_at(st, o, off+i)
            if b is None: bs = None; break
            bs.append(b)
        if bs is not None: return self.cat_bytes(bs)
        if x is None and all((off+i) not in cells for i in range(n)) and not self.covering(cells, off, n):
            # uninitialised (or lazily initialised input) memory
            if o.kind == 'lazy': return self.lazy_load(st, o, off, n, want)
            v = Ptr(Obj('undef', None, 'undef'), 0) if want == ('ptr',) else fbv('undef_' + o.name, 8*n)
            st.wcells(o)[off] = (n, v)
            return v
        raise Unsupported('load %d bytes at %r+%d: cells %r' % (n, o, off, {k: v for k, v in cells.items() if k != 'zero'}))
    def lazy_load(self, st, o, off, n, want):
        if o.info: 
            v = o.info(self, st, o, off, n, want)
        else: v = fbv(o.name, 8*n)
        st.wcells(o)[off] = (n, v)
        return v
    def sym_load(self, st, p, n):
        """symbolic offset into a constant table"""
        raise Unsupported('symbolic offset load from %r' % p)
    def elem_load(self, st, p, n): raise Unsupported('elems load')
    def covering(self, cells, off, n):
        for k, v in cells.items():
            if isint(k) and isinstance(v, tuple) and k < off + n and k + v[0] > off: return True
        return False
    def byte_at(self, st, o, off):
        cells = st.mem.get(o, {})
        for k in range(off, off-17, -1):
            x = cells.get(k)
            if x is not None:
                if k + x[0] > off and (isint(x[1]) or z3.is_bv(x[1])):
                    return self.split_bytes(x[1], x[0])[off-k]
                if k + x[0] > off: return None
        for a, b in cells.get('zero', ()):
            if a <= off < b: return 0
        return None
    def store(self, st, p, n, v, init=False):
        p = self.deref_check(st, p, 'store')
        o = p.obj
        if o.kind == 'buf': return self.buf_store(st, p, n, v)
        off = p.off
        if not isint(off):
            c = self.conc(st, off)
            if c is None: raise Unsupported('symbolic offset store to %r' % p)
            off = c
        if o.kind == 'elems': raise Unsupported('store to list element')
        if o.kind in ('fn',): raise Unsupported('store to function')
        if o.kind == 'glob' and not init and o.info and o.info[1] and o.info[1][2]:
            self.fail(st, 'write-to-constant', o.name)
        if o.size is not None and isint(o.size) and off + n > o.size:
            self.fail(st, 'write-in-bounds', 'object %s size %s offset %d' % (o.name, o.size, off)); raise PathEnd()
        cells = st.wcells(o)
        # split overlapping
        for k in [k for k, x in cells.items() if isint(k) and isinstance(x, tuple) and k < off+n and k + x[0] > off]:
            sz, val = cells[k]
            if k >= off and k + sz <= off + n:
                del cells[k]; continue
            if not (isint(val) or z3.is_bv(val)):
                raise Unsupported('partial overwrite of %r in %r' % (val, o))
            bs = self.split_bytes(val, sz); del cells[k]
            for i, b in enumerate(bs):
                if not (off <= k+i < off+n): cells[k+i] = (1, b)
        cells[off] = (n, v)
    def get_abs(self, st, p, cls=None, what=''):
        """abstract value stored at p (any size)"""
        p = self.deref_check(st, p, what or 'access')
        off = p.off if isint(p.off) else self.conc(st, p.off)
        if off is None: raise Unsupported('symbolic offset of abstract object')
        cells = st.mem.get(p.obj, {})
        x = cells.get(off)
        if x is None and p.obj.kind == 'lazy' and p.obj.info:
            v = p.obj.info(self, st, p.obj, off, 0, cls)
            x = (8, v); st.wcells(p.obj)[off] = x
        if x is None or (cls is not None and not isinstance(x[1], cls)):
            raise Unsupported('%s: no %s at %r (%r)' % (what, cls, p, x))
        return x[1]
    def put_abs(self, st, p, v, size=8):
        self.store(st, p, size, v)
    def destroy(self, st, p, size=8):
        p = self.deref_check(st, p, 'destroy')
        off = p.off if isint(p.off) else self.conc(st, p.off)
        c = st.wcells(p.obj)
        for k in list(c):
            if isint(k) and off <= k < off + size: del c[k]
    def memcpy(self, st, d, s, n):
        n = simp(n)
        if not isint(n):
            c = self.conc(st, n)
            if c is None: return self.memcpy_sym(st, d, s, n)
            n = c
        if n == 0: return
        s = self.deref_check(st, s, 'memcpy'); d = self.deref_check(st, d, 'memcpy')
        if s.obj.kind == 'buf' or d.obj.kind == 'buf':
            if n <= 64:
                v = self.load(st, s, n)
                self.store(st, d, n, v); return
            return self.memcpy_sym(st, d, s, n)
        if s.obj.kind == 'vec' and getattr(s.obj.info, 'read', None):
            for k in range(0, n, 8): m = min(8, n - k); self.store(st, Ptr(d.obj, simp(add64(d.off, k))), m, self.load(st, Ptr(s.obj, simp(add64(s.off, k))), m))
            return
        so = self.conc(st, s.off); do = self.conc(st, d.off)
        if so is None or do is None: raise Unsupported('memcpy symbolic')
        cells = dict(st.mem.get(s.obj, {}))
        todo = [(k, x) for k, x in cells.items() if isint(k) and so <= k < so+n]
        if cells.get('zero') and not (d.obj.kind == 'glob' and d.obj.info and d.obj.info[1] and d.obj.info[1][2]):
            dc = st.wcells(d.obj)
            for k in [k for k, x in dc.items() if isint(k) and isinstance(x, tuple) and do <= k and k + x[0] <= do + n]: del dc[k]
        for k, x in todo:
            if k + x[0] > so + n:
                if isint(x[1]) or z3.is_bv(x[1]):
                    todo2 = self.split_bytes(x[1], x[0])
                    for i, b in enumerate(todo2):
                        if k+i < so+n: self.store(st, Ptr(d.obj, do + k+i - so), 1, b)
                    continue
                raise Unsupported('memcpy cuts abstract cell')
            self.store(st, Ptr(d.obj, do + k - so), x[0], x[1])
        for a, b in cells.get('zero', ()):
            a2 = max(a, so); b2 = min(b, so+n)
            for off in range(a2, b2):
                if not any(k <= off < k + x[0] for k, x in todo):
                    self.store(st, Ptr(d.obj, do + off - so), 1, 0)
    def memcpy_sym(self, st, d, s, n):
        raise Unsupported('memcpy of symbolic size')
    # ------------------------------------------------------------ operands
    def val(self, st, regs, mod, ty, v):
        k = v[0]
        if k == 'r': return regs[v[1]]
        if k == 'c':
            if ty == ('i', 1): return bool(v[1])
            return v[1] & M(ty[1])
        if k == 'fc':
            if ty == ('float',):
                import struct
                d = struct.unpack('<d', struct.pack('<Q', v[1]))[0]
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return v[1]
        if k == 'null': return NULL
        if k == 'g': return self.global_ptr(st, mod, v[1])
        if k == 'undef':
            t = mod.resolve(ty)
            if t[0] == 'i': return fbv('undef', t[1]) if t[1] > 1 else fbool('undef')
            if t[0] == 'ptr': return Ptr(Obj('undef', None, 'undef'), 0)
            if t[0] == 'struct': return [self.val(st, regs, mod, f, v) for f in t[1]]
            if t[0] in ('float', 'double'): return fbv('undef', 32 if t[0] == 'float' else 64)
            if t[0] == 'array': return [self.val(st, regs, mod, t[2], v) for _ in range(t[1])]
            raise Unsupported('undef %r' % (ty,))
        if k == 'zero':
            t = mod.resolve(ty)
            if t[0] == 'i': return 0 if t[1] > 1 else False
            if t[0] == 'ptr': return NULL
            if t[0] == 'struct': return [self.val(st, regs, mod, f, v) for f in t[1]]
            if t[0] in ('float', 'double'): return 0
            if t[0] == 'array': return [self.val(st, regs, mod, t[2], v) for _ in range(t[1])]
            raise Unsupported('zero %r' % (ty,))
        if k == 'agg':
            return [self.val(st, regs, mod, t, x) for t, x in v[1]]
        if k == 'gep':
            return self.gep(st, mod, v[1], [(t, self.val(st, regs, mod, t, x)) for t, x in v[2]])
        if k == 'cast':
            _, op, t, x, t2 = v
            return self.cast(st, op, mod, t, self.val(st, regs, mod, t, x), t2)
        if k == 'cbin':
            return self.binop(st, v[1], v[2], self.val(st, regs, mod, v[2], v[3]), self.val(st, regs, mod, v[2], v[4]), {})
        if k == 'cicmp':
            return self.icmp(st, v[1], v[2], self.val(st, regs, mod, v[2], v[3]), self.val(st, regs, mod, v[2], v[4]))
        raise Unsupported('operand %r' % (v,))
    def gep(self, st, mod, ety, args):
        base = args[0][1]
        if isinstance(base, PInt): base = base.p
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.off
        def s64(t, x):
            w = t[1]
            if isint(x): return sgn(x, w)
            return x if w == 64 else z3.SignExt(64-w, x)
        def addm(off, idx, sc):
            if isint(idx):
                d = (idx*sc) & M(64)
                return add64(off, d)
            return simp(B64(off) + idx*sc)
        t0, i0 = args[1]
        off = addm(off, s64(t0, i0), mod.size(ety))
        t = ety
        for tt, ix in args[2:]:
            t = mod.resolve(t)
            if t[0] == 'struct':
                offs, _ = mod.layout(t)
                off = add64(off, offs[ix]); t = t[1][ix]
            elif t[0] == 'array':
                off = addm(off, s64(tt, ix), mod.size(t[2])); t = t[2]
            else: raise Unsupported('gep into %r' % (t,))
        if isint(off) and off == base.off: return Ptr(base.obj, off) if base.obj is not None else Ptr(None, off)
        return Ptr(base.obj, simp(off))
    def cast(self, st, op, mod, t, x, t2):
        if op in ('bitcast', 'addrspacecast'):
            return x
        if op == 'ptrtoint':
            if isinstance(x, Ptr) and x.obj is None: return x.off
            return PInt(x)
        if op == 'inttoptr':
            if isinstance(x, PInt): return x.p
            if isint(x) and x == 0: return NULL
            return Ptr(None, x)
        if isinstance(x, PInt):
            if op in ('zext', 'sext', 'trunc') : raise Unsupported('int cast of pointer')
        w1 = t[1] if t[0] == 'i' else None; w2 = t2[1] if t2[0] == 'i' else None
        if op == 'trunc':
            if w2 == 1:
                return bool(x & 1) if isint(x) else simpb(z3.Extract(0, 0, x) == 1)
            return x & M(w2) if isint(x) else simp(z3.Extract(w2-1, 0, x))
        if op == 'zext':
            if w1 == 1:
                if isinstance(x, bool): return int(x)
                return z3.If(x, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            return x if isint(x) else self.extend(st, x, w1, w2, False)
        if op == 'sext':
            if w1 == 1:
                if isinstance(x, bool): return M(w2) if x else 0
                return z3.If(x, z3.BitVecVal(M(w2), w2), z3.BitVecVal(0, w2))
            return sgn(x, w1) & M(w2) if isint(x) else self.extend(st, x, w1, w2, True)
        # floating point (bit patterns)
        FS = {'float': z3.Float32(), 'double': z3.Float64()}
        rne = z3.RNE(); rtz = z3.RTZ()
        def fp(bits, ty): return z3.fpBVToFP(bv(bits, 32 if ty == 'float' else 64), FS[ty])
        if op in ('fptrunc', 'fpext'):
            return self.fpbits(st, z3.fpFPToFP(rne, fp(x, t[0]), FS[t2[0]]), t2[0])
        if op == 'sitofp':
            if w1 == 1: raise Unsupported('sitofp i1')
            return self.fpbits(st, z3.fpSignedToFP(rne, bv(x, w1), FS[t2[0]]), t2[0])
        if op == 'uitofp':
            if w1 == 1: x = z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if not isinstance(x, bool) else int(x); w1 = 8
            return self.fpbits(st, z3.fpUnsignedToFP(rne, bv(x, w1), FS[t2[0]]), t2[0])
        if op == 'fptosi': return simp(z3.fpToSBV(rtz, fp(x, t[0]), z3.BitVecSort(w2)))
        if op == 'fptoui': return simp(z3.fpToUBV(rtz, fp(x, t[0]), z3.BitVecSort(w2)))
        raise Unsupported('cast ' + op)
    def fpbits(self, st, e, ty):
        w = 32 if ty == 'float' else 64
        e = z3.simplify(e)
        if z3.is_fp_value(e):
            b = z3.simplify(z3.fpToIEEEBV(e))
            if z3.is_bv_value(b): return b.as_long()
        b = fbv('fp', w)
        st.assume(z3.fpBVToFP(b, z3.Float32() if ty == 'float' else z3.Float64()) == e)
        return b
    def binop(self, st, op, ty, a, b, fl):
        if ty[0] in ('float', 'double'):
            FS = z3.Float32() if ty[0] == 'float' else z3.Float64(); w = 32 if ty[0] == 'float' else 64
            fa = z3.fpBVToFP(bv(a, w), FS); fb = z3.fpBVToFP(bv(b, w), FS); rne = z3.RNE()
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rne, fa, fb)
            return self.fpbits(st, r, ty[0])
        w = ty[1]
        if w == 1:
            if op == 'xor':
                if b is True: return bnot(a)
                return simpb(z3.Xor(zb(a), zb(b)))
            if op == 'and': return simpb(band(a, b))
            if op == 'or': return simpb(bor(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj is b.p.obj:
                return simp(sub64(a.p.off, b.p.off))
            if op == 'and' and isint(b) and b in (1, 7): return 0
            if op == 'add' and isinstance(a, PInt): return PInt(Ptr(a.p.obj, add64(a.p.off, b)))
            raise Unsupported('pointer arithmetic %s %r %r' % (op, a, b))
        A, B = bv(a, w), bv(b, w)
        conc = isint(a) and isint(b)
        if self.check_ub and 'nsw' in fl and op in ('add', 'sub', 'mul') and self.in_repo:
            if conc:
                r = {'add': sgn(a, w)+sgn(b, w), 'sub': sgn(a, w)-sgn(b, w), 'mul': sgn(a, w)*sgn(b, w)}[op]
                if not (-(1 << (w-1)) <= r < (1 << (w-1))): self.fail(st, 'no-signed-overflow', op)
            else:
                if op == 'add': c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                else: c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                self.oblige(st, c, 'no-signed-overflow', op)
        if op in ('shl', 'lshr', 'ashr') and self.check_ub and self.in_repo:
            if isint(b):
                if b >= w: self.fail(st, 'shift-in-range', '%s by %d of i%d' % (op, b, w))
            else: self.oblige(st, z3.ULT(B, w), 'shift-in-range', op)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if isint(b):
                if b == 0: self.fail(st, 'no-division-by-zero')
            else: self.oblige(st, B != 0, 'no-division-by-zero')
        if conc:
            if op == 'add': return (a + b) & M(w)
            if op == 'sub': return (a - b) & M(w)
            if op == 'mul': return (a * b) & M(w)
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M(w) if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w-1)) & M(w)
            if op == 'udiv' and b: return a // b
            if op == 'urem' and b: return a % b
        r = {'add': lambda: A+B, 'sub': lambda: A-B, 'mul': lambda: A*B, 'and': lambda: A & B, 'or': lambda: A | B,
             'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
             'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return simp(r)
    def icmp(self, st, pred, ty, a, b):
        if ty == ('ptr',) or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if isint(a): a = Ptr(None, a)
            if isint(b): b = Ptr(None, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj:
                    if pred == 'eq': return eqv(a.off, b.off)
                    if pred == 'ne': return bnot(eqv(a.off, b.off))
                    x, y = a.off, b.off
                    if isint(x) and isint(y):
                        return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}[pred]
                    X, Y = B64(x), B64(y)
                    return simpb({'ult': lambda: z3.ULT(X, Y), 'ule': lambda: z3.ULE(X, Y), 'ugt': lambda: z3.UGT(X, Y), 'uge': lambda: z3.UGE(X, Y)}[pred]())
                if pred == 'eq': return self.ptr_eq(st, a, b)
                if pred == 'ne': return bnot(self.ptr_eq(st, a, b))
            raise Unsupported('pointer comparison %s %r %r' % (pred, a, b))
        w = ty[1]
        if w == 1:
            if pred == 'eq': return simpb(zb(a) == zb(b))
            if pred == 'ne': return simpb(zb(a) != zb(b))
            raise Unsupported('icmp i1')
        if isint(a) and isint(b):
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return simpb(r)
    def ptr_eq(self, st, a, b):
        """different objects: distinct, unless one is a maybe-null/aliasing symbolic object"""
        for x, y in ((a, b), (b, a)):
            if x.obj is not None and x.obj.kind == 'undef': return fbool('undefptr')
            if x.obj is not None and x.obj.info and isinstance(x.obj.info, dict) and 'isnull' in x.obj.info and y.obj is None:
                return x.obj.info['isnull']
        f = getattr(self, 'ptr_eq_hook', None)
        if f:
            r = f(st, a, b)
            if r is not None: return r
        return False
    # ------------------------------------------------------------ execution
    in_repo = True
    def is_repo(self, fn):
        return fn.file.startswith(self.repo + '/')
    def call(self, st, mod, name, args, ins=None, depth=0, ctx=None):
        """-> list of (state, ('ret', v) | ('exc', Exc))"""
        if name.startswith('llvm.'): return self.intrinsic(st, mod, name, args, ins)
        c = self.find_contract(name)
        if c is not None and not (self.root == name):
            self.used_contracts.add(self.dem(name))
            return self.norm(st, c(self, st, args, CallCtx(self, mod, name, ins, depth)))
        mdl = self.find_model(name)
        if mdl is not None:
            self.trusted.add(self.dem(name))
            r = mdl[0](self, st, args, CallCtx(self, mod, name, ins, depth, mdl[1]))
            return self.norm(st, r)
        fn = self.find_fn(name)
        if fn is None:
            raise Unsupported('external function without model: ' + self.dem(name))
        return self.run(st, fn, args, depth)
    def norm(self, st, r):
        if isinstance(r, list): return r
        if isinstance(r, Exc): return [(st, ('exc', r))]
        return [(st, ('ret', r))]
    def call_ptr(self, st, mod, p, args, ins=None, depth=0):
        if isinstance(p, PInt): p = p.p
        if not isinstance(p, Ptr): raise Unsupported('indirect call through %r' % (p,))
        if p.obj is None:
            self.fail(st, 'call-through-null'); return []
        if p.obj.kind == 'fn':
            return self.call(st, mod, p.obj.name, args, ins, depth)
        if p.obj.kind == 'absfn':     # abstract function: info(eng, st, args, ctx)
            return self.norm(st, p.obj.info(self, st, args, CallCtx(self, mod, p.obj.name, ins, depth)))
        raise Unsupported('indirect call through %r' % (p,))
    def run(self, st, fn, args, depth=0):
        if depth > self.depth_limit: raise Unsupported('call depth')
        fn.parse()
        mod = fn.mod
        if self.is_repo(fn): self.executed.add(fn.dem)
        regs = {}
        for (t, n, a), v in zip(fn.params, args): regs[n] = v
        frame = []
        results = []
        loops = fn.loops()
        # worklist entries: (state, regs, block, prev, idx, visits, allocas)
        work = [(st, regs, fn.entry, None, 0, {}, [])]
        while work:
            st, regs, blk, prev, idx, visits, allocs = work.pop()
            try:
                self.step_path(fn, mod, st, regs, blk, prev, idx, visits, allocs, work, results, depth, loops)
            except PathEnd:
                continue
        # end lifetimes
        out = []
        for s, o, al in results:
            if al: s.dead = s.dead | frozenset(al)
            for a in al: s.mem.pop(a, None)
            out.append((s, o))
        return out
    def step_path(self, fn, mod, st, regs, blk, prev, idx, visits, allocs, work, results, depth, loops):
        repo = self.is_repo(fn)
        while True:
            if idx == 0 and visits and '_act' in visits:
                # leaving a loop that is being cut: forget its marks / report the exit
                for hb in visits['_act']:
                    if blk not in loops[hb]:
                        ex = visits.get(('exit', hb))
                        if ex is not None:
                            ex.append((st, regs, blk, prev, allocs)); return
                        visits = dict(visits); visits['_act'] = tuple(x for x in visits['_act'] if x != hb); visits.pop(('stop', hb), None)
            if idx == 0 and blk in loops:
                if visits.get(('first', blk)):
                    visits = dict(visits); del visits[('first', blk)]
                else:
                    be = visits.get(('stop', blk))
                    if be is not None:
                        be.append((st, regs, prev, allocs)); return
                    if self.loop_handler is not None:
                        r = self.loop_handler(self, fn, blk, st, regs, prev, visits, allocs, depth, loops)
                        if r is not None:
                            results.extend(r); return
                    visits = dict(visits); visits[blk] = visits.get(blk, 0) + 1
                    if visits[blk] > self.max_unroll:
                        raise LoopNeedsCut(fn.name, blk, 'loop %s in %s not exhausted after %d iterations' % (blk, fn.dem, self.max_unroll))
            ins_list = fn.blocks[blk]
            if idx == 0:
                # phis in parallel
                ph = [i for i in ins_list if i.op == 'phi']
                if ph:
                    vals = []
                    for i in ph:
                        for v, b in i.a:
                            if b == prev: vals.append(self.val(st, regs, mod, i.ty, v)); break
                        else: raise Unsupported('phi')
                    regs = dict(regs)
                    for i, v in zip(ph, vals): regs[i.dst] = v
                    idx = len(ph)
            jumped = False
            while idx < len(ins_list):
                i = ins_list[idx]; op = i.op
                self.in_repo = repo
                if repo: self.cur_where = '%s:%d' % (os.path.relpath(fn.file, self.repo), mod.line(i.dbg))
                if op == 'alloca':
                    n = 1
                    if i.a[0]:
                        n = self.val(st, regs, mod, i.a[0][0], i.a[0][1])
                        if not isint(n): raise Unsupported('dynamic alloca')
                    o = self.alloc(st, i.dst, mod.size(i.ty)*n, 'stack')
                    allocs = allocs + [o]
                    regs[i.dst] = Ptr(o, 0)
                elif op == 'load':
                    p = self.val(st, regs, mod, ('ptr',), i.a[0])
                    regs[i.dst] = self.load_ty(st, mod, p, i.ty)
                elif op == 'store':
                    v = self.val(st, regs, mod, i.ty, i.a[0]); p = self.val(st, regs, mod, ('ptr',), i.a[1])
                    self.store_ty(st, mod, p, i.ty, v)
                elif op == 'getelementptr':
                    regs[i.dst] = self.gep(st, mod, i.ty, [(t, self.val(st, regs, mod, t, x)) for t, x in i.a])
                elif op in IR.BIN:
                    regs[i.dst] = self.binop(st, op, i.ty, self.val(st, regs, mod, i.ty, i.a[0]), self.val(st, regs, mod, i.ty, i.a[1]), i.a[2])
                elif op in IR.CAST:
                    regs[i.dst] = self.cast(st, op, mod, i.a[0], self.val(st, regs, mod, i.a[0], i.a[1]), i.ty)
                elif op == 'icmp':
                    regs[i.dst] = self.icmp(st, i.a[0], i.ty, self.val(st, regs, mod, i.ty, i.a[1]), self.val(st, regs, mod, i.ty, i.a[2]))
                elif op == 'fcmp':
                    regs[i.dst] = self.fcmp(st, i.a[0], i.ty, self.val(st, regs, mod, i.ty, i.a[1]), self.val(st, regs, mod, i.ty, i.a[2]))
                elif op == 'fneg':
                    x = self.val(st, regs, mod, i.ty, i.a[0]); w = 32 if i.ty[0] == 'float' else 64
                    regs[i.dst] = (x ^ (1 << (w-1))) if isint(x) else x ^ (1 << (w-1))
                elif op == 'select':
                    c = self.val(st, regs, mod, ('i', 1), i.a[0]); x = self.val(st, regs, mod, i.ty, i.a[1]); y = self.val(st, regs, mod, i.ty, i.a[2])
                    if isinstance(c, bool): regs[i.dst] = x if c else y
                    elif i.ty[0] == 'i':
                        if i.ty[1] == 1: regs[i.dst] = simpb(z3.If(c, zb(x), zb(y)))
                        else: regs[i.dst] = simp(z3.If(c, bv(x, i.ty[1]), bv(y, i.ty[1])))
                    else:
                        s2 = st.fork(); r2 = dict(regs)
                        s2.assume(z3.Not(c)); r2[i.dst] = y
                        if self.feasible(s2, True) and self.check(s2)[0] != 'unsat':
                            work.append((s2, r2, blk, prev, idx+1, visits, allocs))
                        st.assume(c); regs[i.dst] = x
                        if self.check(st)[0] == 'unsat': return
                elif op == 'extractvalue':
                    v = self.val(st, regs, mod, i.ty, i.a[0])
                    for k in i.a[1]: v = v[k]
                    regs[i.dst] = v
                elif op == 'insertvalue':
                    v = self.val(st, regs, mod, i.ty, i.a[0]); e = self.val(st, regs, mod, i.a[1], i.a[2])
                    if len(i.a[3]) != 1: raise Unsupported('insertvalue depth')
                    v = list(v); v[i.a[3][0]] = e; regs[i.dst] = v
                elif op == 'freeze':
                    regs[i.dst] = self.val(st, regs, mod, i.ty, i.a[0])
                elif op in ('call', 'invoke'):
                    outs = self.do_call(fn, mod, st, regs, i, depth)
                    if op == 'invoke': ok, uw = i.a[3], i.a[4]
                    if len(outs) == 0: return
                    conts = []
                    for s2, o in outs:
                        r2 = regs if len(outs) == 1 else dict(regs)
                        if o[0] == 'ret':
                            if i.dst is not None: r2[i.dst] = o[1]
                            conts.append((s2, r2, None))
                        else: conts.append((s2, r2, o[1]))
                    if len(conts) > 1:
                        self.paths += len(conts) - 1
                        if self.paths > self.path_limit: raise Budget('path limit')
                    rest = []
                    for s2, r2, e in conts:
                        if e is None:
                            if op == 'invoke': rest.append((s2, r2, ok, blk, 0, visits, allocs))
                            else: rest.append((s2, r2, blk, prev, idx+1, visits, allocs))
                        else:
                            if op == 'invoke':
                                r = self.unwind(fn, mod, s2, r2, uw, e)
                                if r is None: results.append((s2, ('exc', e), allocs))
                                else:
                                    for s3, r3 in r: rest.append((s3, r3, uw, blk, 0, visits, allocs))
                            else: results.append((s2, ('exc', e), allocs))
                    if not rest: return
                    for x in rest[1:]: work.append(x)
                    st, regs, blk, prev, idx, visits, allocs = rest[0]
                    if op == 'invoke':
                        jumped = True; break
                    continue
                elif op == 'landingpad':
                    regs[i.dst] = regs['__lpad']
                elif op == 'resume':
                    v = self.val(st, regs, mod, i.ty, i.a[0])
                    e = v[0].obj.info if isinstance(v[0], Ptr) and v[0].obj is not None else None
                    results.append((st, ('exc', e if isinstance(e, Exc) else Exc('?')), allocs)); return
                elif op == 'unreachable':
                    if self.check(st)[0] != 'unsat': self.fail(st, 'unreachable-reached', fn.dem)
                    return
                elif op == 'ret':
                    v = None if i.a[0] is None else self.val(st, regs, mod, i.ty, i.a[0])
                    results.append((st, ('ret', v), allocs)); return
                elif op == 'br':
                    if len(i.a) == 1:
                        prev, blk, idx = blk, i.a[0], 0; jumped = True; break
                    c = self.val(st, regs, mod, ('i', 1), i.a[0])
                    c = simpb(c)
                    if isinstance(c, bool):
                        prev, blk, idx = blk, (i.a[1] if c else i.a[2]), 0; jumped = True; break
                    t = self.feasible(st, c); f = self.feasible(st, z3.Not(c))
                    if not t and not f: return
                    if t and f:
                        self.paths += 1
                        if self.paths > self.path_limit: raise Budget('path limit')
                        s2 = st.fork(); s2.assume(z3.Not(c))
                        work.append((s2, dict(regs), i.a[2], blk, 0, visits, allocs))
                        st.assume(c); prev, blk, idx = blk, i.a[1], 0
                    elif t: st.assume(c); prev, blk, idx = blk, i.a[1], 0
                    else: st.assume(z3.Not(c)); prev, blk, idx = blk, i.a[2], 0
                    jumped = True; break
                elif op == 'switch':
                    v = self.val(st, regs, mod, i.ty, i.a[0]); w = i.ty[1]
                    if isint(v):
                        d = i.a[1]
                        for c, b in i.a[2]:
                            if c & M(w) == v: d = b; break
                        prev, blk, idx = blk, d, 0; jumped = True; break
                    alts = []; none = []
                    for c, b in i.a[2]:
                        alts.append((v == (c & M(w)), b)); none.append(v != (c & M(w)))
                    alts.append((z3.And(*none) if none else True, i.a[1]))
                    alts = [(c, b) for c, b in alts if self.feasible(st, c)]
                    if not alts: return
                    for c, b in alts[1:]:
                        s2 = st.fork(); s2.assume(c); work.append((s2, dict(regs), b, blk, 0, visits, allocs))
                    st.assume(alts[0][0]); prev, blk, idx = blk, alts[0][1], 0; jumped = True; break
                else:
                    raise Unsupported('instruction ' + i.text[:80])
                idx += 1
            if not jumped: raise Unsupported('fell off block %s' % blk)
    def lift(self, x):
        """64-bit term whose low 32 bits are x"""
        k = x.decl().kind()
        if k == z3.Z3_OP_EXTRACT and x.params() == [31, 0] and x.arg(0).size() == 64: return x.arg(0)
        if z3.is_bv_value(x): return z3.BitVecVal(sgn(x.as_long(), 32), 64)
        if k == z3.Z3_OP_BADD: 
            r = self.lift(x.arg(0))
            for i in range(1, x.num_args()): r = r + self.lift(x.arg(i))
            return r
        if k == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == M(32): return -self.lift(x.arg(1))
        return z3.ZeroExt(32, x)
    def extend(self, st, x, w1, w2, signed):
        plain = z3.SignExt(w2-w1, x) if signed else z3.ZeroExt(w2-w1, x)
        if w1 != 32 or w2 != 64: return plain
        if x.decl().kind() not in (z3.Z3_OP_EXTRACT, z3.Z3_OP_BADD, z3.Z3_OP_BMUL): return plain
        if x.decl().kind() == z3.Z3_OP_EXTRACT and (x.params() != [31, 0] or x.arg(0).size() != 64): return plain
        l = z3.simplify(self.lift(x)); c = z3.ULT(l, z3.BitVecVal(1 << (31 if signed else 32), 64))
        if self.check(st, z3.Not(c))[0] == 'unsat': return l
        return plain
    def fcmp(self, st, pred, ty, a, b):
        w = 32 if ty[0] == 'float' else 64; FS = z3.Float32() if w == 32 else z3.Float64()
        fa = z3.fpBVToFP(bv(a, w), FS); fb = z3.fpBVToFP(bv(b, w), FS)
        uno = z3.Or(z3.fpIsNaN(fa), z3.fpIsNaN(fb))
        base = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pred == 'uno': return simpb(uno)
        if pred == 'ord': return simpb(z3.Not(uno))
        r = base[pred[1:]](fa, fb)
        if pred[0] == 'o': return simpb(z3.And(z3.Not(uno), r))
        return simpb(z3.Or(uno, r))
    def unwind(self, fn, mod, st, regs, uw, e):
        lp = next(i for i in fn.blocks[uw] if i.op != 'phi')
        cleanup, clauses = lp.a
        eo = self.alloc(st, 'exc', None, 'exc', e)
        if e.obj is not None: eo = e.obj; eo.info = e if eo.info is None else eo.info
        regs = dict(regs)
        # list of possible types for symbolic exceptions
        types = e.ty if isinstance(e.ty, (list, tuple)) else [e.ty]
        outs = []
        for ty in types:
            sel = None
            for c in clauses:
                if c[0] == 'null': sel = 1; break
                if c[0] == 'g' and (c[1] == ty or c[1] in EXC_PARENTS.get(ty, [])):
                    sel = self.typeid(c[1]); break
            if sel is None:
                if not cleanup:
                    if len(types) == 1: return None
                    raise Unsupported('exception set without cleanup')
                sel = 0
            if len(types) > 1:
                s2 = st.fork(); x = Exc(ty, None, e.info); o2 = self.alloc(s2, 'exc', None, 'exc', x)
                r2 = dict(regs); r2['__lpad'] = [Ptr(o2, 0), sel]; outs.append((s2, r2))
            else:
                regs['__lpad'] = [Ptr(eo, 0), sel]; outs.append((st, regs))
        return outs
    _tids = {}
    def typeid(self, n):
        return self._tids.setdefault(n, len(self._tids) + 10)
    def load_ty(self, st, mod, p, ty):
        t = mod.resolve(ty)
        if t[0] == 'i':
            n = (t[1]+7)//8
            v = self.load(st, p, n, t)
            if t[1] == 1: return tobool(v) if not z3.is_bv(v) else simpb(z3.Extract(0, 0, v) == 1)
            if isinstance(v, Ptr): return PInt(v)
            if isinstance(v, (int, PInt)) or z3.is_bv(v):
                if t[1] % 8: raise Unsupported('odd width')
                return v
            raise Unsupported('int load of abstract value %r' % (v,))
        if t[0] == 'ptr':
            v = self.load(st, p, 8, t)
            if isinstance(v, PInt): return v.p
            if isint(v): return NULL if v == 0 else Ptr(None, v)
            if isinstance(v, Ptr): return v
            if z3.is_bv(v):
                c = self.conc(st, v)
                if c is not None: return NULL if c == 0 else Ptr(None, c)
                return Ptr(Obj('undef', None, 'undef'), 0)
            raise Unsupported('pointer load of abstract value %r at %r' % (v, p))
        if t[0] == 'float': return self.load(st, p, 4, t)
        if t[0] == 'double': return self.load(st, p, 8, t)
        if t[0] == 'struct':
            offs, _ = mod.layout(t)
            return [self.load_ty(st, mod, Ptr(p.obj, add64(p.off, o)), f) for o, f in zip(offs, t[1])]
        if t[0] in ('array', 'vec'):
            es = mod.size(t[2])
            return [self.load_ty(st, mod, Ptr(p.obj, add64(p.off, k*es)), t[2]) for k in range(t[1])]
        raise Unsupported('load %r' % (t,))
    def store_ty(self, st, mod, p, ty, v):
        t = mod.resolve(ty)
        if t[0] == 'struct':
            offs, _ = mod.layout(t)
            for o, f, x in zip(offs, t[1], v): self.store_ty(st, mod, Ptr(p.obj, add64(p.off, o)), f, x)
            return
        if t[0] in ('array', 'vec'):
            es = mod.size(t[2])
            for k, x in enumerate(v): self.store_ty(st, mod, Ptr(p.obj, add64(p.off, k*es)), t[2], x)
            return
        if t == ('i', 1): v = int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        self.store(st, p, mod.size(t), v)
    def do_call(self, fn, mod, st, regs, i, depth):
        callee, args = i.a[0], i.a[1]
        avs = [None if t == ('metadata',) else self.val(st, regs, mod, t, v) for t, v, a in args]
        # byval arguments: copy
        for k, (t, v, a) in enumerate(args):
            if 'byval' in a:
                sz = mod.size(a['byval'])
                o = self.alloc(st, 'byval', sz, 'stack')
                self.memcpy(st, Ptr(o, 0), avs[k], sz); avs[k] = Ptr(o, 0)
        w = self.cur_where
        try:
            if callee[0] == 'g':
                return self.call(st, mod, callee[1], avs, i, depth+1)
            p = self.val(st, regs, mod, ('ptr',), callee)
            return self.call_ptr(st, mod, p, avs, i, depth+1)
        finally:
            self.in_repo = self.is_repo(fn); self.cur_where = w
    def intrinsic(self, st, mod, name, args, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, args[0], args[1], args[2]); return [(st, ('ret', None))]
        if name.startswith('llvm.memset'):
            n = args[2]; n = n if isint(n) else self.conc(st, n)
            if n is None: raise Unsupported('memset')
            p = args[0]
            if args[1] == 0 and p.obj.kind != 'buf':
                off = self.conc(st, p.off); 
                self.destroy(st, Ptr(p.obj, off), n)
                self.zero(st, p.obj, off, n)
            else:
                for k in range(n): self.store(st, Ptr(p.obj, add64(p.off, k)), 1, args[1])
            return [(st, ('ret', None))]
        if name.startswith('llvm.eh.typeid.for'):
            p = args[0]
            return [(st, ('ret', self.typeid(p.obj.name)))]
        if name.startswith(('llvm.dbg', 'llvm.experimental.noalias', 'llvm.lifetime', 'llvm.assume', 'llvm.donothing', 'llvm.stack')):
            return [(st, ('ret', NULL if 'save' in name else None))]
        if name.startswith('llvm.bswap'):
            w = int(name.rsplit('i', 1)[1]); x = args[0]
            if isint(x): return [(st, ('ret', int.from_bytes(x.to_bytes(w//8, 'little'), 'big')))]
            return [(st, ('ret', simp(z3.Concat(*[z3.Extract(8*k+7, 8*k, x) for k in range(w//8)]))))]
        if name.startswith('llvm.trap'):
            self.fail(st, 'trap'); return []
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            w = int(name.rsplit('i', 1)[1]); a, b = bv(args[0], w), bv(args[1], w)
            c = {'umin': z3.ULT(a, b), 'umax': z3.UGT(a, b), 'smin': a < b, 'smax': a > b}[name[5:9]]
            return [(st, ('ret', simp(z3.If(c, a, b))))]
        raise Unsupported('intrinsic ' + name)

class PathEnd(Exception): pass

class Patch:
    """rope with bytes replaced at off"""
    __slots__ = ('r', 'off', 'bs')
    def __init__(s, r, off, bs): s.r = r; s.off = off; s.bs = bs
    def len(s): return s.r.len()
    def at(s, k):
        x = s.r.at(k)
        for i, b in enumerate(s.bs):
            x = z3.If(B64(k) == B64(add64(s.off, i)), B8(b), B8(x))
        return x

class CallCtx:
    __slots__ = ('eng', 'mod', 'name', 'ins', 'depth', 'm')
    def __init__(s, eng, mod, name, ins, depth, m=None):
        s.eng = eng; s.mod = mod; s.name = name; s.ins = ins; s.depth = depth; s.m = m
    @property
    def dem(s): return s.eng.dem(s.name)
