"""Loop cutting: data-length loops are verified by an inductive invariant over the cells the loop modifies.

At the loop header the modified cells are havocked to their value at an arbitrary iteration i:
 list iterators = entry + 8*i, buffer pointers = arbitrary position q, integers affine in i or in q (weakened to arbitrary when not
 inductive), byte arrays = entry ++ Pre(i), lists = entry ++ Seg(i), the event trace = entry ++ Ev(i).
One arbitrary iteration is executed; the spec's step law says what Pre/Seg/Ev gain in it (obligations), the exits continue with i.
"""
import time, z3
from rope import *
from sym import *
import sym as S, qtmodels as Q
from qtmodels import Lst, SymSeg, Var, Str

class Pre:
    """abstract prefix produced by i iterations of a loop"""
    __slots__ = ('name', 'i', 'n', 'arr')
    def __init__(s, name, i, n, arr): s.name = name; s.i = i; s.n = n; s.arr = arr
    def len(s): return s.n
    def at(s, k): return z3.Select(s.arr, B64(k))
    def same(s, o): return isinstance(o, Pre) and s.name == o.name and Q.teq(s.i, o.i)
    def __repr__(s): return 'Pre(%s,%s)' % (s.name, s.i)

def val_same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isint(a): return a == b
    if isinstance(a, bool): return a == b
    if isinstance(a, Ptr): return a.obj is b.obj and Q.teq(a.off, b.off)
    if isinstance(a, PInt): return val_same(a.p, b.p)
    if isinstance(a, BA): return a.buf is b.buf
    if z3.is_expr(a): return a.eq(b)
    if isinstance(a, Lst): return len(a.segs) == len(b.segs) and all(x is y for x, y in zip(a.segs, b.segs))
    if isinstance(a, Var): return a.tn == b.tn and val_same(a.val, b.val)
    if isinstance(a, Str): return Q.same_rope(a.rope, b.rope)
    return False

class CutSpec:
    """step laws; override what the loop may legitimately modify"""
    name = 'loop'; idx = False           # idx: the loop may also be an index loop (second attempt, see vrun._run_goal)
    maxlen = (1 << 31) - 1
    def wants(self, eng, fn, blk, kinds): return 'lst' in kinds or 'umapit' in kinds or 'vec' in kinds
    def ba_step(self, ctx, cell): raise Unsupported('loop builds a byte array')
    def lst_step(self, ctx, cell): raise Unsupported('loop builds a list')
    def ev_step(self, ctx, evs): 
        if evs: raise Unsupported('loop has effects')
    def var_value(self, ctx, cell, old): raise Unsupported('loop modifies %r' % (old,))
    def var_step(self, ctx, cell, old, new): raise Unsupported('loop modifies %r' % (old,))
    def assume(self, ctx): pass            # invariant, assumed at an arbitrary iteration
    def invariant(self, ctx, entry=False): return []   # [(name, cond)] checked at entry (ctx.i = 0) and at the back edge
    def on_exc(self, ctx, st, exc): pass
    def elem(self, ctx): return None
    # optional ghost position: ghost(ctx) at an arbitrary iteration, ghost_next(ctx) after one more, ghost0 at entry
    def ghost(self, ctx): ctx.g = None
    def ghost_next(self, ctx): return None
    ghost0 = None
    def int_cands(self, ctx, w, v0): return []       # [(name, value)] further candidates for integer cells
    def ba_value(self, ctx, cell, r0): return None   # rope of a byte array at an arbitrary iteration, when it is not entry ++ appended
    def ba_check(self, ctx, cell, got): pass
    def fold(self, ctx, t): pass

class Ctx: pass
def stride(p): return p.obj.info.stride if p.obj.kind == 'vec' else 8

class LoopCut:
    def __init__(self, specs, force=()):
        self.specs = specs; self.force = set(force); self.n = 0; self.nest = 0; self.unk = set()
    def __call__(self, eng, fn, blk, st, regs, prev, visits, allocs, depth, loops):
        forced = (fn.name, blk) in self.force
        obls, posts, ub = eng.obls, eng.posts, eng.check_ub
        cells = self.probe(eng, fn, blk, st, regs, prev, visits, allocs, depth, loops)
        kinds = set()
        for (o, k), v in cells.items():
            kinds.add(self.kind(v))
        for sp in self.specs:
            idx = sp.idx and 'int' in kinds and not self.nest
            if idx and not eng.idx_seen and not eng.idx_loops: eng.idx_seen = True; eng.deadline = min(eng.deadline, time.time() + 90)
            if forced or sp.wants(eng, fn, blk, kinds) or (idx and eng.idx_loops):
                return self.cut(eng, fn, blk, st, regs, prev, visits, allocs, depth, loops, sp, cells)
        return None
    def kind(self, v):
        if isinstance(v, PInt): v = v.p
        if isinstance(v, Ptr): return v.obj.kind if v.obj is not None else 'null'
        if isinstance(v, BA): return 'ba'
        if isinstance(v, Lst): return 'list'
        if isinstance(v, Var): return 'var'
        if isinstance(v, Str): return 'str'
        if isint(v) or z3.is_bv(v): return 'int'
        return type(v).__name__
    def body(self, eng, fn, blk, st, regs, prev, visits, allocs, depth, loops, want_exit):
        """run one iteration -> (back-edge states, exits or full results)"""
        back, exits, results = [], [], []
        v = dict(visits); v[('first', blk)] = True; v[('stop', blk)] = back; v['_act'] = tuple(x for x in v.get('_act', ()) if x != blk) + (blk,)
        if want_exit: v[('exit', blk)] = exits
        else: v.pop(('exit', blk), None)
        work = [(st, dict(regs), blk, prev, 0, v, allocs)]
        self.nest += 1
        try:
            while work:
                s, r, b, p, i, vv, al = work.pop()
                try: eng.step_path(fn, fn.mod, s, r, b, p, i, vv, al, work, results, depth, loops)
                except S.PathEnd: continue
        finally: self.nest -= 1
        return back, exits, results
    def diff(self, s0, s1):
        """cells of objects alive in s0 that differ in s1: (obj, key) -> old value"""
        out = {}
        for o, c0 in s0.mem.items():
            c1 = s1.mem.get(o)
            if c1 is None or c1 is c0: continue
            for k in set(c0) | set(c1):
                if k == 'zero' or k == 'shared': continue
                a, b = c0.get(k), c1.get(k)
                if k == 'rope':
                    if not Q.same_rope(a, b): out[(o, k)] = a
                    continue
                if a is None: continue          # created inside the loop: scratch
                if b is None:
                    out[(o, k)] = a[1]; continue
                if a[0] == b[0] and val_same(a[1], b[1]): continue
                out[(o, k)] = a[1]
        return out
    def probe(self, eng, fn, blk, st, regs, prev, visits, allocs, depth, loops):
        obls, posts, paths, nf = eng.obls, eng.posts, eng.paths, list(eng.notes)
        eng.obls = []; eng.probing = getattr(eng, 'probing', 0) + 1
        cells = {}
        try:
            cur = st
            for rnd in range(3):
                s = cur.fork()
                back, ex, rs = self.body(eng, fn, blk, s, regs, prev, visits, allocs, depth, loops, True)
                new = {}
                for b in back: new.update(self.diff(cur, b[0]))
                grew = False
                for k, v in new.items():
                    if k not in cells: cells[k] = v if rnd == 0 else self.orig(st, k); grew = True
                if not grew or not back: break
                # second round from a weakened state: everything found so far arbitrary
                cur = st.fork()
                i = fbv('pi', 64); cur.assume(z3.ULT(i, 1 << 31))
                try: self.havoc(eng, cur, st, cells, i, None, probe=True)
                except Unsupported: break
        finally:
            eng.obls, eng.posts, eng.paths = obls, posts, paths; eng.probing -= 1
        return cells
    def orig(self, st, key):
        c = st.mem[key[0]].get(key[1])
        return c if key[1] == 'rope' else c[1]
    def havoc(self, eng, cur, st, cells, i, spec, probe=False, ctx=None, weak=()):
        self.n += 1
        tag = '%s.%d' % (getattr(spec, 'name', 'p'), self.n)
        q = {}
        for (o, k), v in sorted(cells.items(), key=lambda x: (x[0][0].id, str(x[0][1]))):
            pv = v.p if isinstance(v, PInt) else v
            kd = self.kind(v)
            if kd in ('lst', 'umapit', 'vec'):
                cur.wcells(o)[k] = (8, Ptr(pv.obj, simp(B64(pv.off) + stride(pv)*i)))
                if ctx is not None: ctx.iters.append((o, k, pv))
            elif kd == 'buf':
                if pv.obj not in q:
                    qq = fbv('q', 64); n = st.mem[pv.obj]['rope'].len()
                    cur.assume(z3.ULE(qq, B64(n))); q[pv.obj] = (qq, pv.off)
                qq, p0 = q[pv.obj]
                cur.wcells(o)[k] = (8, Ptr(pv.obj, simp(qq + B64(sub64(pv.off, p0)))))
            elif kd == 'ba':
                if probe: nv = eng.new_buf(cur, Rope([Sl(farr('pre'), 0, self.small(cur))]), 'ba')
                elif spec.ba_value(ctx, (o, k), st.mem[v.buf]['rope']) is not None:
                    nv = eng.new_buf(cur, spec.ba_value(ctx, (o, k), st.mem[v.buf]['rope']), 'ba'); ctx.custom.add((o, k))
                else:
                    r0 = st.mem[v.buf]['rope']; n = fbv('prelen', 64); cur.assume(z3.ULE(n, spec.maxlen)); cur.assume(z3.Implies(i == 0, n == 0))
                    cur.assume(z3.ULE(B64(r0.len()) + n, spec.maxlen))
                    pre = Pre(tag, i, n, farr('pre'))
                    nv = eng.new_buf(cur, r0 + Rope([pre]), 'ba'); ctx.bas[(o, k)] = (r0, pre)
                cur.wcells(o)[k] = (8, BA(nv))
            elif kd == 'list':
                n = fbv('segn', 64); cur.assume(z3.ULT(n, 1 << 31)) 
                seg = SymSeg((tag, i), n if probe else i, lambda d: fbv('el', 64))
                cur.wcells(o)[k] = (8, v.concat(Lst((seg,), v.tn)))
                if not probe: ctx.lists[(o, k)] = (v, seg)
            elif kd == 'int':
                w = st.mem[o][k][0] * 8
                cur.wcells(o)[k] = (w//8, fbv('h', w))
                if ctx is not None: ctx.ints.append((o, k, w, v))
            elif kd == 'var' and probe:
                cur.wcells(o)[k] = (16, v)
            elif kd in ('var', 'str', 'UMap') and not probe:
                cur.wcells(o)[k] = (st.mem[o][k][0], spec.var_value(ctx, (o, k), v))
                ctx.vars[(o, k)] = (v, cur.mem[o][k][1])
            elif k == 'rope':
                raise Unsupported('loop writes into a shared byte buffer')
            elif kd in ('heap', 'stack', 'glob', 'undef', 'null', 'node', 'lazy', 'umapend'):
                if probe: continue
                cur.wcells(o)[k] = (8, spec.var_value(ctx, (o, k), v)); ctx.vars[(o, k)] = (v, cur.mem[o][k][1])
            else:
                if probe: continue
                cur.wcells(o)[k] = (st.mem[o][k][0], spec.var_value(ctx, (o, k), v)); ctx.vars[(o, k)] = (v, cur.mem[o][k][1])
        if ctx is not None: ctx.q = q
        return q
    def small(self, st):
        n = fbv('n', 64); st.assume(z3.ULT(n, 1 << 30)); return n
    def cut(self, eng, fn, blk, st, regs, prev, visits, allocs, depth, loops, spec, cells):
        ints_weak = set()
        for attempt in range(8):
            snap = (len(eng.obls), eng.posts, eng.paths)
            bad = self.try_cut(eng, fn, blk, st.fork(), regs, prev, visits, allocs, depth, loops, spec, cells, ints_weak)
            if isinstance(bad, list): return bad
            del eng.obls[snap[0]:]; eng.posts = snap[1]
            kind, payload = bad
            if kind == 'weaken': ints_weak |= payload
            elif kind == 'cells': cells = dict(cells); cells.update(payload)
        raise Unsupported('loop invariant inference did not converge')
    def try_cut(self, eng, fn, blk, st, regs, prev, visits, allocs, depth, loops, spec, cells, weak):
        ctx = Ctx(); ctx.eng = eng; ctx.iters = []; ctx.bas = {}; ctx.lists = {}; ctx.ints = []; ctx.vars = {}; ctx.entry = st; ctx.fn = fn; ctx.custom = set()
        i = fbv('i', 64); ctx.i = i
        cur = st.fork(); ctx.st = cur
        cur.assume(z3.ULT(i, 1 << 31))
        trace0 = cur.trace
        spec.ghost(ctx); q = self.havoc(eng, cur, st, cells, i, spec, ctx=ctx)
        for o, k, p in ctx.iters:
            n = p.obj.info.n if p.obj.kind in ('umapit', 'vec') else p.obj.info.len()
            cur.assume(z3.ULE(B64(p.off) + stride(p)*i, stride(p)*B64(n)))
        cur.trace = trace0 + ((('loop', spec.name, i),))
        # integer candidates
        cand = {}
        for o, k, w, v0 in ctx.ints:
            if (o, k) in weak: continue
            v = cur.mem[o][k][1]; cs = []
            i_w = z3.Extract(w-1, 0, i) if w < 64 else i
            for (qq, p0) in q.values():
                dq = qq - B64(p0); dqw = z3.Extract(w-1, 0, dq) if w < 64 else dq
                cs += [('-q', bv(v0, w) - dqw), ('+q', bv(v0, w) + dqw)]
            cs += [('+i', bv(v0, w) + i_w), ('-i', bv(v0, w) - i_w)]
            cs += spec.int_cands(ctx, w, v0)
            cand[(o, k)] = (v, cs)
        # choose the candidate that one probe iteration supports
        if cand:
            sel = self.select(eng, fn, blk, st, regs, prev, visits, allocs, depth, loops, cand, q, i, cells, ctx, spec)
            for key, c in sel.items():
                v, cs = cand[key]
                if c is None: continue
                o, k = key
                cur.wcells(o)[k] = (cur.mem[o][k][0], simp(cs[c][1]))
            ctx.sel = {key: cand[key][1][c][0] for key, c in sel.items() if c is not None}
        else: ctx.sel = {}
        if any(key in self.unk and key not in ctx.sel for key in [(o, k) for o, k, w, v0 in ctx.ints]): eng.taint(cur, 'loop integer not characterised within the solver limit')
        spec.assume(ctx)
        for nm, c in spec.invariant(ctx): cur.assume(c)
        # established on entry
        ectx = Ctx(); ectx.__dict__.update(ctx.__dict__); ectx.st = st; ectx.i = z3.BitVecVal(0, 64); ectx.q = {b: (B64(p0), p0) for b, (qq, p0) in q.items()}
        if ctx.g is not None: ectx.g = spec.ghost0
        for key, nm in ctx.sel.items():        # candidates that do not hold by construction on entry
            if not isinstance(nm, tuple): continue
            w = st.mem[key[0]][key[1]][0]*8; want = dict(spec.int_cands(ectx, w, cells[key]))[nm]
            pr = eng.prove(st, bv(st.mem[key[0]][key[1]][1], w) == want)[0]
            if pr == 'unknown': self.unk.add(key)
            if pr != 'proved': return ('weaken', {key})
        import ser
        for key in ctx.custom: eng.oblige(st, ser.rope_must_eq(eng, st, st.mem[cells[key].buf]['rope'], spec.ba_value(ectx, key, None)), 'loop-invariant-established', 'byte array')
        for nm, c in spec.invariant(ectx, entry=True): eng.oblige(st, c, 'loop-invariant-established', nm)
        if eng.check(cur)[0] == 'unsat': raise Unsupported('loop invariant unsatisfiable')
        head = cur.fork()
        back, exits, results = self.body(eng, fn, blk, cur, regs, prev, visits, allocs, depth, loops, True)
        # any further modified cell?
        more = {}
        for s, r, p, al in back:
            for key, v in self.diff(head, s).items():
                if key not in cells: more[key] = self.orig(st, key)
        if more: return ('cells', more)
        weaken = set()
        for s, r, p, al in back:
            eng.posts += 1
            weaken |= self.edge(eng, ctx, spec, cells, s, q, i, st, head)
        if weaken: return ('weaken', weaken)
        # continue behind the loop; an exit from inside the body that completed iteration i leaves with i+1
        for s, r, b, p, al in exits:
            if self.diff(head, s) or len(s.trace) != len(head.trace): s = self.fold(eng, ctx, spec, cells, s, q, i, st, head, trace0)
            work = [(s, dict(r), b, p, 0, dict(visits), al)]
            while work:
                s, r, b, p, ix, vv, al = work.pop()
                try: eng.step_path(fn, fn.mod, s, r, b, p, ix, vv, al, work, results, depth, loops)
                except S.PathEnd: continue
        eng.loops_cut = getattr(eng, 'loops_cut', 0) + 1
        return results
    def edge(self, eng, ctx, spec, cells, s, q, i, st, head):
        """obligations of one completed iteration -> integer cells whose candidate is not inductive"""
        weaken = set()
        c2 = Ctx(); c2.__dict__.update(ctx.__dict__); c2.st = s; c2.i = simp(i + 1); c2.i0 = i; c2.head = head; c2.g0 = ctx.g
        if ctx.g is not None: c2.g = simp(spec.ghost_next(ctx))
        nq = {}
        for (o, k), v in cells.items():
            kd = self.kind(v); x = s.mem[o].get(k)
            pv = v.p if isinstance(v, PInt) else v
            if x is None: raise Unsupported('loop destroys a live cell')
            if kd == 'buf':
                y = x[1].p if isinstance(x[1], PInt) else x[1]
                if not isinstance(y, Ptr) or y.obj is not pv.obj: raise Unsupported('buffer pointer leaves its buffer')
                d = simp(B64(y.off) - B64(sub64(pv.off, q[pv.obj][1])))
                if pv.obj in nq: eng.oblige(s, B64(nq[pv.obj]) == B64(d), 'loop-invariant-preserved', 'buffer pointers move together')
                nq[pv.obj] = d
        c2.q = {b: (B64(nq.get(b, q[b][0])), q[b][1]) for b in q}; c2.qh = q
        for b in q: eng.oblige(s, z3.ULE(c2.q[b][0], B64(st.mem[b]['rope'].len())), 'loop-invariant-preserved', 'position inside the buffer')
        for (o, k), v in cells.items():
            kd = self.kind(v); x = s.mem[o][k][1]
            pv = v.p if isinstance(v, PInt) else v
            if kd in ('lst', 'umapit', 'vec'):
                y = x.p if isinstance(x, PInt) else x
                if not isinstance(y, Ptr) or y.obj is not pv.obj: raise Unsupported('list iterator leaves its list')
                eng.oblige(s, B64(y.off) == B64(pv.off) + stride(pv)*(i+1), 'loop-invariant-preserved', 'list iterator advances by one')
            elif kd == 'int':
                key = (o, k)
                if key in ctx.sel:
                    w = s.mem[o][k][0]*8; v0 = v; nm = ctx.sel[key]
                    if isinstance(nm, tuple): want = dict(spec.int_cands(c2, w, v0))[nm]
                    elif nm[1] == 'i': d = simp(i + 1)
                    else: (qq, p0) = list(c2.q.values())[0]; d = qq - B64(p0)
                    if not isinstance(nm, tuple):
                        dw = z3.Extract(w-1, 0, d) if w < 64 else d
                        want = bv(v0, w) - dw if nm[0] == '-' else bv(v0, w) + dw
                    if not (isint(x) or z3.is_bv(x)): weaken.add(key)
                    else:
                        pr = eng.prove(s, bv(x, w) == want)[0]
                        if pr == 'unknown': self.unk.add(key)
                        if pr != 'proved': weaken.add(key)
            elif kd == 'ba' and (o, k) in ctx.custom:
                import ser
                eng.oblige(s, ser.rope_must_eq(eng, s, s.mem[x.buf]['rope'], spec.ba_value(c2, (o, k), None)), 'loop-step', '%s: byte array after one iteration' % spec.name, assume=False)
            elif kd == 'ba':
                r0, pre = ctx.bas[(o, k)]
                got = s.mem[x.buf]['rope']; want = r0 + Rope([pre]) + spec.ba_step(c2, (o, k))
                import ser
                eng.oblige(s, ser.rope_must_eq(eng, s, got, want), 'loop-step', '%s: bytes appended by one iteration' % spec.name, assume=False)
            elif kd == 'list':
                l0, seg = ctx.lists[(o, k)]
                if not isinstance(x, Lst): raise Unsupported('list replaced')
                base = l0.concat(Lst((seg,), l0.tn)).segs
                if len(x.segs) < len(base) or any(a is not b for a, b in zip(x.segs[:len(base)], base)):
                    eng.oblige(s, False, 'loop-step', '%s: list prefix kept' % spec.name)
                    continue
                tail = [e for g in x.segs[len(base):] for e in (g if isinstance(g, tuple) else (g,))]
                spec.lst_step(c2, (o, k), tail)
            elif (o, k) in ctx.vars: spec.var_step(c2, (o, k), ctx.vars[(o, k)][1], x)
        spec.ev_step(c2, s.trace[len(head.trace):])
        for nm, c in spec.invariant(c2): eng.oblige(s, c, 'loop-invariant-preserved', nm)
        return weaken
    def fold(self, eng, ctx, spec, cells, s, q, i, st, head, trace0):
        """the state after iteration i+1, when the path to this exit is provably a completed iteration; else s"""
        t = s.fork(); obls, posts = eng.obls, eng.posts; eng.obls = []; eng.probing = getattr(eng, 'probing', 0) + 1
        try:
            weak = self.edge(eng, ctx, spec, cells, t, q, i, st, head); ok = all(o.status == 'proved' for o in eng.obls)
        except (Unsupported, S.PathEnd, KeyError): ok = False
        finally: eng.obls, eng.posts = obls, posts; eng.probing -= 1
        if not ok: return s
        i1 = simp(i + 1)
        for (o, k), v in cells.items():
            if (o, k) in ctx.bas:
                r0, pre = ctx.bas[(o, k)]; g = t.mem[t.mem[o][k][1].buf]['rope']; n = simp(B64(g.len()) - B64(r0.len()))
                t.wcells(o)[k] = (8, BA(eng.new_buf(t, r0 + Rope([Pre(pre.name, i1, n, farr('pre'))]), 'ba')))
            elif (o, k) in ctx.lists:
                l0, seg = ctx.lists[(o, k)]; t.wcells(o)[k] = (8, l0.concat(Lst((SymSeg((seg.name[0], i1), i1, seg.f if hasattr(seg, 'f') else (lambda d: fbv('el', 64))),), l0.tn)))
        t.trace = trace0 + (('loop', spec.name, i1),); spec.fold(ctx, t)
        return t
    def select(self, eng, fn, blk, st, regs, prev, visits, allocs, depth, loops, cand, q, i, cells, ctx=None, spec=None):
        """pick, for every integer cell, the first candidate consistent with one iteration from the entry state"""
        obls, posts, paths = eng.obls, eng.posts, eng.paths; eng.obls = []; eng.probing = getattr(eng, 'probing', 0) + 1
        sel = {k: None for k in cand}
        try:
            back, ex, rs = self.body(eng, fn, blk, st.fork(), regs, prev, visits, allocs, depth, loops, True)
            if not back: return sel
            for key, (v, cs) in cand.items():
                o, k = key; w = st.mem[o][k][0]*8
                for ci, (nm, e) in enumerate(cs):
                    good = True
                    for s, r, p, al in back:
                        x = s.mem[o].get(k)
                        if x is None or not (isint(x[1]) or z3.is_bv(x[1])): good = False; break
                        sub = [(i, z3.BitVecVal(1, 64))]
                        if spec is not None and ctx.g is not None:
                            g1 = z3.substitute(spec.ghost_next(ctx), (ctx.g, spec.ghost0)); sub.append((ctx.g, g1))
                        for b, (qq, p0) in q.items():
                            nq = None
                            for (o2, k2), v2 in cells.items():
                                pv = v2.p if isinstance(v2, PInt) else v2
                                if isinstance(pv, Ptr) and pv.obj is b:
                                    y = s.mem[o2][k2][1]; y = y.p if isinstance(y, PInt) else y
                                    nq = simp(B64(y.off) - B64(sub64(pv.off, p0))); break
                            sub.append((qq, B64(nq)))
                        pr = eng.prove(s, bv(x[1], w) == z3.substitute(e, *sub))[0]
                        if pr == 'unknown': self.unk.add(key)
                        if pr != 'proved': good = False; break
                    if good: sel[key] = ci; break
        finally: eng.obls, eng.posts, eng.paths = obls, posts, paths; eng.probing -= 1
        return sel

def with_cuts(eng, specs, f, tries=4):
    """run f(); loops that unrolling does not exhaust are retried as cut loops"""
    force = set()
    for t in range(tries):
        eng.loop_handler = LoopCut(specs, force)
        snap = len(eng.obls), eng.posts
        try: return f()
        except LoopNeedsCut as e:
            if (e.fn, e.blk) in force: raise Unsupported(str(e))
            force.add((e.fn, e.blk)); del eng.obls[snap[0]:]; eng.posts = snap[1]
        finally: eng.loop_handler = None
    raise Unsupported('too many loops to cut')
