"""Replay harness for the serializer properties: drives native/nat_ser.cpp (built from /repo with ASan and UBSan) and judges
the answers with an independent protobuf wire-format oracle.  Bounded; never counted as proof."""
import json, subprocess, os, struct, select, time, random
import build

INT = {'int32': 32, 'int64': 64, 'uint32': 32, 'uint64': 64, 'sint32': 32, 'sint64': 64, 'bool': 1, 'enum': 32}
FIX = {'fixed32': ('<I', 4), 'sfixed32': ('<i', 4), 'float': ('<I', 4), 'fixed64': ('<Q', 8), 'sfixed64': ('<q', 8), 'double': ('<Q', 8)}
SIGNED = ('int32', 'int64', 'sint32', 'sint64', 'sfixed32', 'sfixed64', 'enum')
NUMS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'fixed32', 'sfixed32', 'float', 'fixed64', 'sfixed64', 'double']
LNUM = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'sfixed32', 'float', 'fixed64', 'sfixed64', 'double']
SCHEMA = {'Leaf': {1: 'sint64', 2: 'bytes'}, 'Sub': {1: 'int32', 2: 'string', 3: ('msg', 'Leaf'), 4: ('list', 'int32'), 5: ('lmsg', 'Leaf')},
          'Num': {1: 'int32', 100: 'string', 3000: 'sint64', 20000: 'fixed32', 536870911: 'uint64', 15: 'bool', 16: 'bytes', 2047: 'double'}}
A = {}
for i, t in enumerate(NUMS): A[i+1] = t
A[14] = 'string'; A[15] = 'bytes'
for i, t in enumerate(LNUM): A[16+i] = ('list', t)
A[28] = ('list', 'string'); A[29] = ('list', 'bytes'); A[30] = 'enum'; A[31] = ('list', 'enum'); A[32] = ('msg', 'Sub'); A[33] = ('lmsg', 'Sub')
for i, (k, v) in enumerate([('int32', 'string'), ('string', ('msg', 'Sub')), ('sint32', 'sint64'), ('string', 'bytes'), ('uint64', 'double'), ('int64', 'uint32'), ('fixed32', 'bool'),
                            ('bool', 'int32'), ('int32', 'enum'), ('sfixed64', 'sfixed32'), ('uint32', 'float'), ('fixed64', 'fixed64')]): A[34+i] = ('map', k, v)
A[536870911] = 'int32'
SCHEMA['All'] = A
FIELD = {t: n for n, t in A.items() if not isinstance(t, tuple) and n < 100}
LFIELD = {t[1]: n for n, t in A.items() if isinstance(t, tuple) and t[0] == 'list'}

# ------------------------------------------------------------------ oracle
def varint(n):
    out = b''
    while True:
        b = n & 0x7f; n >>= 7
        out += bytes([b | (0x80 if n else 0)])
        if not n: return out
def tag(num, wt): return varint(num << 3 | wt)
def word(t, s):
    v = int(s); w = INT[t]
    if t == 'bool': return 1 if v else 0
    if t == 'enum': return v & (2**64-1)
    if t.startswith('sint'): return ((v << 1) ^ (v >> (w-1))) & (2**w-1)
    return v & (2**w-1)
def wt(t):
    if isinstance(t, tuple): return 2
    return 0 if t in INT else 5 if t in FIX and FIX[t][1] == 4 else 1 if t in FIX else 2
def payload(t, v):
    if isinstance(t, tuple): b = encode(t[1], v); return varint(len(b)) + b
    if t in INT: return varint(word(t, v))
    if t in FIX: return struct.pack(FIX[t][0], int(v))
    b = bytes.fromhex(v or ''); return varint(len(b)) + b
def field(num, t, v):
    """exact bytes of one field"""
    if isinstance(t, tuple):
        k = t[0]
        if k == 'msg': return tag(num, 2) + payload(t, v)
        if k == 'lmsg': return b''.join(tag(num, 2) + payload(('msg', t[1]), x) for x in v if x is not None)
        if k == 'list':
            if not v: return b''
            if t[1] in ('string', 'bytes'): return b''.join(tag(num, 2) + payload(t[1], x or '') for x in v)
            b = b''.join(payload(t[1], x) for x in v); return tag(num, 2) + varint(len(b)) + b
        if k == 'map':
            out = b''
            for kk, vv in sortmap(t, v):
                if vv is None: continue
                e = field(1, t[1], kk) + field(2, t[2], vv); out += tag(num, 2) + varint(len(e)) + e
            return out
    if v is None: return b''
    if t in INT and word(t, v) == 0: return b''
    return tag(num, wt(t)) + payload(t, v)
def sortmap(t, v):
    if t[1] in ('string', 'bytes'): return sorted(v, key=lambda p: bytes.fromhex(p[0]).decode('utf-8', 'replace').encode('utf-16-be'))
    return sorted(v, key=lambda p: int(p[0]))
def default(t):
    if isinstance(t, tuple): return defaults(t[1]) if t[0] == 'msg' else []
    return '' if t in ('string', 'bytes') else '0'
def defaults(cls): return {str(n): default(t) for n, t in SCHEMA[cls].items()}
def ser_default(t):
    """value a fresh message serializes"""
    if isinstance(t, tuple): return {} if t[0] == 'msg' else []
    return None if t in ('string', 'bytes') else '0'
def encode(cls, vals, order=None):
    out = b''
    for n, t in sorted(SCHEMA[cls].items()):
        v = vals[str(n)] if str(n) in vals else ser_default(t)
        if v == '' : v = None      # the generated setter of a fresh message keeps the null string: null == ""
        out += field(n, t, v)
    return out
class Bad(Exception): pass
def rdv(b, p):
    v = 0; k = 0
    while True:
        if p >= len(b) or k >= 70: raise Bad()
        v |= (b[p] & 0x7f) << k; k += 7; p += 1
        if not b[p-1] & 0x80: return v & (2**64-1), p
def records(b):
    p = 0; out = []
    while p < len(b):
        s = p; h, p = rdv(b, p); h &= 2**32-1; n, w = h >> 3, h & 7
        if n == 0: raise Bad()
        if w == 0: q = p; _, p = rdv(b, p)
        elif w == 1: q = p; p += 8
        elif w == 5: q = p; p += 4
        elif w == 2: l, q = rdv(b, p); l &= 2**32-1; p = q + l
        else: raise Bad()
        if p > len(b): raise Bad()
        out.append((n, w, b[q:p], b[s:p]))
    return out
def normal(cls, b):
    """canonical multiset of records, nested messages normalised"""
    out = []
    for n, w, pl, raw in records(b):
        t = SCHEMA.get(cls, {}).get(n)
        if isinstance(t, tuple) and t[0] in ('msg', 'lmsg'): out.append((n, w, normal(t[1], pl)))
        elif isinstance(t, tuple) and t[0] == 'map':
            out.append((n, w, tuple((m, x, normal(t[2][1], y) if m == 2 and isinstance(t[2], tuple) else y.hex()) for m, x, y, _ in records(pl))))
        else: out.append((n, w, pl.hex()))
    # order between different fields is unspecified, order within one field is not
    byn = {}
    for r in out: byn.setdefault(r[0], []).append(r)
    return tuple((n, tuple(rs)) for n, rs in sorted(byn.items()))
def signed(v, w): v &= 2**w-1; return v - 2**w if v >> (w-1) else v
def dec_num(t, v):
    w = INT[t]
    if t == 'bool': return '1' if v & (2**32-1) else '0'
    if t == 'enum': return str(signed(v, 32))
    v &= 2**w-1
    if t.startswith('sint'): return str((v >> 1) ^ -(v & 1))
    return str(signed(v, w) if t in SIGNED else v)
def dec_scalar(t, w, pl):
    if isinstance(t, tuple): return decode(t[1], pl)
    if t in INT: return dec_num(t, rdv(pl, 0)[0])
    if t in FIX: return str(struct.unpack(FIX[t][0], pl)[0])
    if t == 'string': return pl.decode('utf-8', 'replace').encode().hex()
    return pl.hex()
def decode(cls, b, merge_packed=False):
    v = defaults(cls)
    for n, w, pl, raw in records(b):
        t = SCHEMA[cls].get(n); k = str(n)
        if t is None: continue
        if isinstance(t, tuple) and t[0] == 'list':
            if t[1] in ('string', 'bytes'): v[k] = v[k] + [dec_scalar(t[1], w, pl)]
            else:
                out = []; p = 0
                while p < len(pl):
                    if t[1] in INT: x, p = rdv(pl, p); out.append(dec_num(t[1], x))
                    else:
                        m = FIX[t[1]][1]
                        if p + m > len(pl): raise Bad()
                        out.append(dec_scalar(t[1], 0, pl[p:p+m])); p += m
                v[k] = v[k] + out if t[1] == 'enum' else out
        elif isinstance(t, tuple) and t[0] == 'lmsg': v[k] = v[k] + [decode(t[1], pl)]
        elif isinstance(t, tuple) and t[0] == 'map':
            kk, vv = default(t[1]), (None if isinstance(t[2], tuple) else default(t[2]))
            for m, x, y, _ in records(pl):
                if m == 1: kk = dec_scalar(t[1], x, y)
                elif m == 2: vv = dec_scalar(t[2], x, y)
            v[k] = [e for e in v[k] if e[0] != kk] + [[kk, vv]]
        else: v[k] = dec_scalar(t, w, pl)
    return v
def canon(cls, v):
    out = {}
    for n, t in SCHEMA[cls].items():
        x = v.get(str(n), default(t))
        if isinstance(t, tuple) and t[0] == 'msg': x = canon(t[1], x)
        elif isinstance(t, tuple) and t[0] == 'lmsg': x = [canon(t[1], y) if y is not None else None for y in x]
        elif isinstance(t, tuple) and t[0] == 'map': x = [[k, canon(t[2][1], y) if isinstance(t[2], tuple) and y is not None else y] for k, y in sortmap(t, x)]
        elif isinstance(t, tuple) and t[0] == 'list': x = ['' if y is None else y for y in x]
        elif x is None: x = ''
        out[str(n)] = x
    return out

# ------------------------------------------------------------------ harness process
LIBSRC = ['src/protobuf/%s.cpp' % x for x in ('qprotobufserializer', 'qabstractprotobufserializer', 'qprotobufmetaproperty', 'qprotobufmetaobject', 'qtprotobuf', 'qtprotobuflogging')]
class Harness:
    def __init__(self, exe, env=None): self.exe = exe; self.p = None; self.env = env; self.n = 0
    def start(self):
        self.err = open(self.exe + '.err', 'w+')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', QT_QPA_PLATFORM='offscreen')
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, errors='replace', env=env, bufsize=1)
    def ask(self, cmd, timeout=60):
        if self.p is None: self.start()
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(cmd) + '\n'); self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            line = self.p.stdout.readline() if r else None
        except (BrokenPipeError, OSError): line = ''
        if not line:
            hung = line is None
            self.p.kill(); self.p.wait(); self.p = None
            self.err.seek(0); e = self.err.read()
            key = [l for l in e.splitlines() if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l]
            return {'crash': 'no answer within %d s' % timeout if hung else ' | '.join(key[:3]) or 'process ended: ' + e[-300:]}
        return json.loads(line)
    def close(self):
        if self.p: self.p.stdin.close(); self.p.wait(10); self.p = None
def build_ser(run):
    if getattr(run, '_ser', None): return run._ser
    d = build.scratch(); V = build.VERIF + '/native'
    build.moc(V + '/gen/vmsg.qpb.h', d + '/moc_vmsg.cpp', ['-I' + V + '/inc'])
    exe = build.native([V + '/nat_ser.cpp', V + '/gen/vmsg.qpb.cpp', d + '/moc_vmsg.cpp'] + LIBSRC, d + '/nat_ser', ['-I' + V + '/inc', '-I' + V + '/gen', '-DQT_BUILD_PROTOBUF_LIB'], libs=('Qt5Core', 'Qt5Qml'))
    run._ser = Harness(exe)
    run.native_info.append('native/nat_ser.cpp over /repo/src/protobuf with ASan+UBSan, oracle native/sernat.py')
    return run._ser

# ------------------------------------------------------------------ values
def bound(t):
    if t == 'bool': return ['0', '1']
    if t == 'enum': return ['0', '1', '2147483647', '-1', '-2147483648', '2', '-2']
    if t in FIX:
        w = 8*FIX[t][1]; vs = [0, 1, 0x7f, 0x80, 0xff, 0x100, 2**(w-1)-1, 2**(w-1), 2**w-1, 0x0102030405060708 % 2**w, 0x7fc00001 if w == 32 else 0x7ff8000000000001, 0x80000001]
        if t in ('float', 'double'): vs.remove(2**(w-1))   # -0.0 == 0.0: the generated setter of a fresh message keeps +0.0
        return [str(signed(v, w) if t in SIGNED else v) for v in vs]
    w = INT[t]; vs = set()
    for k in range(0, w+1):
        for d in (-1, 0, 1):
            for s in (1, -1):
                v = s*(2**k) + d
                if t in SIGNED and -2**(w-1) <= v < 2**(w-1): vs.add(v)
                if t not in SIGNED and 0 <= v < 2**w: vs.add(v)
    return [str(v) for v in sorted(vs)]
STR = ['', '61', '00', '6100', 'c3a9', 'e282ac', 'f09f9880', '7f', '80', 'ff', '22', '5c', '0a', 'efbfbd', 'efbbbf61']
def rstr(rng, t, big=False):
    r = rng.random()
    if r < .4:
        s = rng.choice(STR)
        if t == 'string': s = bytes.fromhex(s).decode('utf-8', 'ignore').encode().hex()
        if s == 'efbbbf61' and t == 'string': s = '61'
        return s
    n = rng.choice([1, 2, 5, 16, 126, 127, 128, 129, 300] + ([16383, 16384, 70000] if big else []))
    if t == 'bytes': return bytes(rng.randrange(256) for _ in range(n)).hex()
    return ''.join(rng.choice('abcé€😀 "\\') for _ in range(max(1, n//2))).encode().hex()
def rval(rng, t, depth=0):
    if isinstance(t, tuple):
        if t[0] == 'msg': return rmsg(rng, t[1], depth+1)
        if t[0] == 'lmsg': return [rmsg(rng, t[1], depth+1) for _ in range(rng.choice([0, 1, 2, 3]))]
        if t[0] == 'list': return [None if t[1] in ('string', 'bytes') and rng.random() < .1 else rval(rng, t[1]) for _ in range(rng.choice([0, 1, 2, 3, 7, 130]))]
        if t[0] == 'map':
            m = {}
            for _ in range(rng.choice([0, 1, 2, 4])): m[rval(rng, t[1])] = rval(rng, t[2], depth+1)
            return [[k, v] for k, v in m.items()]
    if t in ('string', 'bytes'): return rstr(rng, t)
    if rng.random() < .6: return rng.choice(bound(t))
    if t in FIX: w = 8*FIX[t][1]
    elif t == 'bool': return rng.choice(['0', '1'])
    elif t == 'enum': return rng.choice(bound(t))
    else: w = INT[t]
    v = rng.getrandbits(rng.randrange(1, w+1))
    return str(signed(v, w) if t in SIGNED else v)
def rmsg(rng, cls, depth=0, p=None):
    S = SCHEMA[cls]; p = p if p is not None else (.15 if cls == 'All' else .6)
    return {str(n): rval(rng, t, depth) for n, t in S.items() if rng.random() < p}

# ------------------------------------------------------------------ cases: (command, judge) ; judge returns None or what is wrong
def crash(r): return r.get('crash')
def c_ser(cls, v, exact=None):
    want = exact if exact is not None else encode(cls, v)
    def j(r):
        if crash(r): return r['crash']
        got = bytes.fromhex(r.get('out', ''))
        if exact is not None and len(SCHEMA[cls]) == 1: return None if got == want else 'got %s want %s' % (got.hex(), want.hex())
        try: ok = normal(cls, got) == normal(cls, want)
        except Bad: ok = False
        return None if ok else 'got %s want %s (up to field order)' % (got.hex(), want.hex())
    return {'op': 'ser', 'cls': cls, 'v': v}, j
def c_field_in(cls, v, num):
    """the records of field num inside the serialized message are exactly the expected bytes"""
    t = SCHEMA[cls][num]; want = field(num, t, v[str(num)])
    def j(r):
        if crash(r): return r['crash']
        try: got = b''.join(x[3] for x in records(bytes.fromhex(r['out'])) if x[0] == num)
        except Bad: return 'unparsable output %s' % r['out']
        return None if got == want else 'field %d: got %s want %s' % (num, got.hex(), want.hex())
    return {'op': 'ser', 'cls': cls, 'v': v}, j
def c_dec(cls, b, prev=None, want=None):
    try: w = canon(cls, want if want is not None else decode(cls, b))
    except Bad: w = None
    def j(r):
        if crash(r): return r['crash']
        if w is None: return None if 'exc' in r else 'no exception for %s' % b.hex()
        if 'exc' in r: return 'exception %s on valid input %s' % (r['exc'], b.hex())
        got = canon(cls, r['v'])
        if got != w: return 'decoded %s' % {k: (got[k], w[k]) for k in w if got[k] != w[k]}
    return {'op': 'deser', 'cls': cls, 'in': b.hex(), 'v': prev or {}}, j
def c_rt(cls, v):
    w = canon(cls, v)
    def j(r):
        if crash(r): return r['crash']
        if 'exc' in r: return 'exception'
        got = canon(cls, r['v'])
        if got != w: return 'round trip %s' % {k: (got[k], w[k]) for k in w if got[k] != w[k]}
    return {'op': 'rt', 'cls': cls, 'v': v}, j
def run_cases(run, cases, what):
    h = build_ser(run); bad = 0
    for cmd, judge in cases:
        r = h.ask(cmd); run.native_runs += 1
        e = judge(r)
        if e:
            bad += 1
            run.native_fail.append(dict(case=what, command=cmd if len(json.dumps(cmd)) < 4000 else str(cmd)[:4000], answer=str(r)[:1500], wrong=str(e)[:1500]))
            if bad >= 10: break
    h.close()

# ------------------------------------------------------------------ case sets per property
def no_crash(r): return crash(r)
SENT = tag(536870911, 0) + varint(77)
def with_sentinel(cls, b): return b + (tag(536870911, 0) + varint(77))
def pads(n, maxlen=10):
    """valid non-minimal varints of n"""
    m = varint(n); out = [m]
    for L in range(len(m)+1, maxlen+1): out.append(m[:-1] + bytes([m[-1] | 0x80]) + b'\x80'*(L-len(m)-1) + b'\x00')
    return out
def cases(pid, rng, scale=1):
    cs = []
    Ts = NUMS
    if pid == 'P01':
        for t in Ts:
            n = FIELD[t]
            for v in bound(t) + [rval(rng, t) for _ in range(20*scale)]: cs.append(c_field_in('All', {str(n): v}, n))
        for n, t in SCHEMA['Num'].items():
            if t in INT or t in FIX:
                for v in bound(t)[:40]: cs.append(c_field_in('Num', {str(n): v}, n))
    elif pid == 'P02':
        for t in Ts:
            n = FIELD[t]
            for v in bound(t) + [rval(rng, t) for _ in range(10*scale)]:
                if t in FIX: encs = [payload(t, v)]
                else:
                    w = word(t, v); encs = pads(w)
                    if t in ('int32', 'enum', 'int64') and int(v) < 0: encs.append(varint(int(v) & (2**64-1)))
                    if INT[t] == 32: encs += [varint(w | (rng.getrandbits(32) << 32))]
                for e in encs: cs.append(c_dec('All', with_sentinel('All', tag(n, wt(t)) + e)))
                cs.append(c_rt('All', {str(n): v}))
    elif pid == 'P03':
        for i in range(30*scale):
            cls = rng.choice(['All', 'Num', 'Sub'])
            v = rmsg(rng, cls, p=.12 if cls == 'All' else .7); b = encode(cls, v); cuts = set([0])
            for _, _, _, raw in records(b): cuts.add(max(cuts) + len(raw))
            ks = range(len(b)) if len(b) < 80 else sorted(rng.sample(range(len(b)), 80))
            for k in ks:
                if k in cuts: continue
                cs.append(({'op': 'deser', 'cls': cls, 'in': b[:k].hex(), 'nodump': True}, lambda r, k=k: crash(r) or (None if 'exc' in r else 'truncated message accepted (cut at %d)' % k)))
            for _ in range(20):
                m = bytearray(b)
                for _ in range(rng.choice([1, 1, 2, 5])):
                    if m: m[rng.randrange(len(m))] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
                cs.append(({'op': 'deser', 'cls': cls, 'in': bytes(m).hex(), 'nodump': True}, no_crash))
        for L in (1, 2, 5, 2**7, 2**14, 2**31-1, 2**31, 2**31+1, 2**31+5, 2**32-1, 2**32-2, 2**32-6, 2**32-20, 2**32, 2**63, 2**64-1, 2**64-5):
            for n in list(range(14, 46)) + [1000]:
                for tail in (b'', b'a', b'abcd'):
                    l32 = L & (2**32-1)
                    if l32 <= len(tail): j = no_crash
                    elif n in A: j = lambda r, L=L, n=n: crash(r) or (None if 'exc' in r else 'field %d with length %d accepted' % (n, L))
                    else: j = lambda r, L=L: crash(r) or (None if 'exc' in r else 'unknown field with length %d accepted' % L)
                    if n == 30: continue
                    cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, 2) + varint(L) + tail).hex(), 'nodump': True}, j))
        for t in Ts:
            n = FIELD[t]; k = 4 if wt(t) == 5 else 8
            if t in FIX:
                for m in range(k): cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, wt(t)) + b'\xff'*m).hex(), 'nodump': True}, lambda r, n=n: crash(r) or (None if 'exc' in r else 'short field %d accepted' % n)))
            else:
                for m in list(range(1, 16)) + [64]:
                    cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, 0) + b'\xff'*m).hex(), 'nodump': True}, lambda r, n=n: crash(r) or (None if 'exc' in r else 'unterminated varint accepted')))
                    if m > 10: cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, 0) + b'\xff'*m + b'\x01').hex(), 'nodump': True}, lambda r, n=n: crash(r) or (None if 'exc' in r else 'over-long varint accepted')))
        # unknown fields and map entries that do not fit
        for inner in (b'\x0d\x01', b'\x09\x01\x02', b'\x0a\x05a', b'\x08\xff', b'\x08', b'\x12\x7f', b'\x1d\x01', b'\x19\x01', b'\x1a\x09a', b'\x18\xff'):
            for n in range(34, 46):
                cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, 2) + varint(len(inner)) + inner).hex(), 'nodump': True}, no_crash))
        for _ in range(400*scale):
            m = bytes(rng.choice([8, 0x0a, 0x12, 0x1a, 0x80, 0xff, 0, 1, 2, rng.randrange(256)]) for _ in range(rng.randrange(1, 24)))
            cs.append(({'op': 'deser', 'cls': rng.choice(['All', 'Num', 'Sub']), 'in': m.hex(), 'nodump': True}, no_crash))
        cs += iter_cases(rng, 60*scale)
    elif pid == 'P04':
        for n, t in SCHEMA['Num'].items():
            v = {'int32': '5', 'string': '61', 'sint64': '-3', 'fixed32': '9', 'uint64': '300', 'bool': '1', 'bytes': '00ff', 'double': '1'}[t]
            cs.append(c_field_in('Num', {str(n): v}, n)); cs.append(c_dec('Num', field(n, t, v)))
            for h in pads(n << 3 | wt(t), 10): cs.append(c_dec('Num', h + payload(t, v) + field(1, 'int32', '7')))
        for n in range(1, 46): 
            t = A[n]; v = rval(rng, t); cs.append(c_ser('All', {str(n): v}) if isinstance(t, tuple) and t[0] in ('msg', 'lmsg', 'map') else c_field_in('All', {str(n): v if v != '' else '61'}, n))
        exc = lambda r: crash(r) or (None if 'exc' in r else 'invalid header accepted')
        for n in [1, 2, 15, 16, 99, 100, 2047, 2048, 536870911]:
            for w in (3, 4, 6, 7):
                for cls in ('Num', 'All'): cs.append(({'op': 'deser', 'cls': cls, 'in': (tag(n, w) + b'\x00'*8).hex(), 'nodump': True}, exc))
        for w in range(8): cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(0, w) + b'\x00'*8).hex(), 'nodump': True}, exc))
    elif pid == 'P05':
        for _ in range(150*scale):
            cls = rng.choice(['All', 'Num', 'Sub']); v = rmsg(rng, cls, p=.15 if cls == 'All' else .7)
            recs = [r[3] for r in records(encode(cls, v))]; out = b''
            for r in recs + [b'']:
                for _ in range(rng.choice([0, 1, 2])): out += unknown(rng, cls)
                out += r
            cs.append(c_dec(cls, out))
        for n in (1000, 5000, 1 << 20):
            for w, pl in [(0, x) for v in (0, 1, 127, 128, 2**31, 2**32, 2**63, 2**64-1) for x in pads(v)] + [(5, b'\xff'*4), (1, b'\x80'*8), (5, b'\0'*4), (1, b'\0'*8)] + [(2, varint(k) + b'\x81'*k) for k in (0, 1, 2, 127, 128, 129, 300, 16384)]:
                cs.append(c_dec('All', tag(n, w) + pl + SENT))
                if w == 2: cs.append(c_dec('All', tag(n, w) + pads(len(pl) - len(varint(rdv(pl, 0)[0])))[-1] + pl[len(varint(rdv(pl, 0)[0])):] + SENT))
            for w in (3, 4, 6, 7): cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, w) + b'\x01'*4).hex(), 'nodump': True}, lambda r: crash(r) or (None if 'exc' in r else 'unskippable field accepted')))
            for pl, w in ((b'\x01'*3, 5), (b'\x01'*7, 1), (b'\x05ab', 2), (b'\x80\x80', 0), (b'', 0), (b'', 5), (b'', 1), (b'', 2)):
                cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, w) + pl).hex(), 'nodump': True}, lambda r: crash(r) or (None if 'exc' in r else 'unknown field that does not fit accepted')))
    elif pid == 'P06':
        for n in (0, 1, 2, 126, 127, 128, 129, 255, 256, 1000, 16383, 16384, 16385, 70000) + ((2097151, 2097152) if scale > 1 else ()):
            for c in ('61', '00'):
                cs.append(c_field_in('All', {'15': c*n} if n else {'15': None}, 15)); cs.append(c_rt('All', {'15': c*n}))
                cs.append(c_field_in('All', {'14': c*n} if n else {'14': None}, 14)); cs.append(c_rt('All', {'14': c*n}))
                cs.append(c_dec('All', tag(14, 2) + varint(n) + bytes.fromhex(c*n) + SENT)); cs.append(c_dec('All', tag(15, 2) + pads(n)[-1] + bytes.fromhex(c*n) + SENT))
        for _ in range(60*scale):
            v = {'14': rstr(rng, 'string', True), '15': rstr(rng, 'bytes', True), '32': rmsg(rng, 'Sub')}
            cs.append(c_ser('All', v)); cs.append(c_rt('All', v)); cs.append(c_dec('All', with_sentinel('All', encode('All', v))))
    elif pid == 'P07':
        for t in LNUM:
            n = LFIELD[t]
            for l in [[], ['0'], ['1'], ['0', '0'], ['0', '1', '0'], bound(t), ['0']*200, bound(t)[::-1]*2] + [[rval(rng, t) for _ in range(rng.randrange(1, 40))] for _ in range(10*scale)]:
                cs.append(c_field_in('All', {str(n): l}, n)); cs.append(c_rt('All', {str(n): l})); cs.append(c_dec('All', field(n, ('list', t), l) + SENT))
                if t in INT:
                    b = b''.join(rng.choice(pads(word(t, x))) for x in l); cs.append(c_dec('All', tag(n, 2) + varint(len(b)) + b + SENT))
        for t, l in (('uint32', ['1']*257 + ['300']*260), ('sint32', [str(x - 40000) for x in range(70000)]), ('fixed32', [str(x) for x in range(66000)]), ('double', ['4000000000000000']*1025)):
            if t in LFIELD and t != 'double': n = LFIELD[t]; cs.append(c_rt('All', {str(n): l})); cs.append(c_field_in('All', {str(n): l}, n)); cs.append(c_dec('All', field(n, ('list', t), l) + SENT))
    elif pid == 'P08':
        for n in (28, 29):
            for l in (['61']*300, ['%04x' % (0x4141 + x % 20) for x in range(1100)]): cs.append(c_rt('All', {str(n): l})); cs.append(c_field_in('All', {str(n): l}, n))
        for t, n in (('string', 28), ('bytes', 29)):
            for l in [[], [None], [None, '61'], ['', None], ['61', None, '62'], [''], ['', ''], ['61', '', '62'], ['61']*150, ['', '61'], ['61', ''], ['00', '6100', '0061']] + [[rstr(rng, t) for _ in range(rng.randrange(1, 8))] for _ in range(30*scale)]:
                cs.append(c_field_in('All', {str(n): l}, n)); cs.append(c_rt('All', {str(n): l})); cs.append(c_dec('All', b''.join(tag(n, 2) + payload(t, x or '') + (SENT if rng.random() < .3 else b'') for x in l)))
    elif pid == 'P09':
        for n in list(range(1, 30)):
            t = A[n]
            for _ in range(6*scale):
                v = rval(rng, t)
                if v == '': v = '61'
                cs.append(c_field_in('All', {str(n): v}, n)); cs.append(c_rt('All', {str(n): v}))
    elif pid == 'P10':
        for _ in range(150*scale):
            cls = rng.choice(['All', 'All', 'Num', 'Sub']); v = rmsg(rng, cls, p=rng.choice([.05, .2, .5, 1])); cs.append(c_ser(cls, v))
    elif pid == 'P11':
        for _ in range(200*scale):
            cls = rng.choice(['All', 'All', 'Num', 'Sub']); recs = []
            for _ in range(rng.choice([1, 1, 2])): recs += [r[3] for r in records(encode(cls, rmsg(rng, cls, p=.15 if cls == 'All' else .6)))]
            if rng.random() < .7: rng.shuffle(recs)
            recs = [x for r in recs for x in ([unknown(rng, cls)] if rng.random() < .15 else []) + [r]]
            cs.append(c_dec(cls, b''.join(recs)))
            if rng.random() < .3: cs.append(c_dec(cls, b''.join(recs) + rng.choice([b'\x00', b'\x0b', b'\x0c', b'\x07', b'\x06\x01', b'\x04'])))
    elif pid == 'P12':
        for n in range(34, 46):
            t = A[n]; km = t[1]
            for _ in range(12*scale):
                v = rval(rng, t); cs.append(c_field_in('All', {str(n): v}, n) if not isinstance(t[2], tuple) else c_ser('All', {str(n): v})); cs.append(c_rt('All', {str(n): v}))
                b = b''
                for _ in range(rng.randrange(1, 5)):
                    parts = []
                    if rng.random() < .8: parts.append(tag(1, wt(t[1])) + payload(t[1], rval(rng, t[1])))
                    if rng.random() < .8 or isinstance(t[2], tuple): parts.append(tag(2, wt(t[2])) + payload(t[2], rval(rng, t[2])))
                    if rng.random() < .3: parts.append(unknown(rng, None, 3))
                    if rng.random() < .5: rng.shuffle(parts)
                    e = b''.join(parts); b += tag(n, 2) + varint(len(e)) + e
                    if rng.random() < .2: b += SENT
                cs.append(c_dec('All', b))
            for bad in (b'\x0b\x01', b'\x00\x01', b'\x07', b'\x04'): cs.append(({'op': 'deser', 'cls': 'All', 'in': (tag(n, 2) + varint(len(bad)) + bad).hex(), 'nodump': True}, lambda r: crash(r) or (None if 'exc' in r else 'invalid entry header accepted')))
        for n, t in ((n, A[n]) for n in range(34, 46)):
            if isinstance(t[2], tuple) or t[1] not in ('int32', 'sint32', 'fixed32', 'string'): continue
            v = [['%02x%02x' % (97 + k % 25, 97 + k // 25) if t[1] == 'string' else str(k), rval(rng, t[2])] for k in range(300)]; cs.append(c_rt('All', {str(n): v})); cs.append(c_dec('All', field(n, t, v) + SENT))
    elif pid == 'P13':
        for k in (17, 129, 257, 300, 1030): v = {'33': [rmsg(rng, 'Sub', p=.2) for _ in range(k)]}; cs.append(c_rt('All', v)); cs.append(c_ser('All', v)); cs.append(c_dec('All', encode('All', v) + SENT))
        for _ in range(100*scale):
            v = {'32': rmsg(rng, 'Sub'), '33': [None if rng.random() < .15 else rmsg(rng, 'Sub') for _ in range(rng.choice([0, 1, 2, 5]))]}
            cs.append(c_ser('All', v))
            w = dict(v, **{'33': [x for x in v['33'] if x is not None]}); cs.append(c_rt('All', w)); cs.append(c_dec('All', encode('All', w) + SENT + b''.join(tag(33, 2) + payload(('msg', 'Sub'), rmsg(rng, 'Sub')) for _ in range(2))))
            cs.append(c_dec('All', tag(32, 2) + payload(('msg', 'Sub'), rmsg(rng, 'Sub')) + tag(32, 2) + payload(('msg', 'Sub'), rmsg(rng, 'Sub')) + SENT))
    elif pid == 'P14':
        for v in bound('enum'):
            cs.append(c_field_in('All', {'30': v}, 30)); cs.append(c_rt('All', {'30': v}))
            for e in pads(int(v) & (2**64-1)): cs.append(c_dec('All', tag(30, 0) + e + SENT))
        for l in [[], ['0'], ['0', '0'], bound('enum'), bound('enum')*30] + [[rng.choice(bound('enum')) for _ in range(rng.randrange(1, 30))] for _ in range(20*scale)]:
            cs.append(c_field_in('All', {'31': l}, 31)); cs.append(c_rt('All', {'31': l})); cs.append(c_dec('All', field(31, ('list', 'enum'), l) + SENT + field(31, ('list', 'enum'), l[:3])))
        for k in (257, 1025, 66000): l = [str((x * 7919) % 100003 - 50000) for x in range(k)]; cs.append(c_rt('All', {'31': l})); cs.append(c_dec('All', field(31, ('list', 'enum'), l) + SENT + field(31, ('list', 'enum'), l[:300])))
    elif pid == 'P15':
        for _ in range(120*scale):
            cls = rng.choice(['All', 'All', 'Num', 'Sub']); prev = rmsg(rng, cls, p=.5); b = encode(cls, rmsg(rng, cls, p=.15)); recs = records(b)
            if rng.random() < .5: k = rng.randrange(len(recs) + 1) if recs else 0; recs = recs[:k]; b = b''.join(r[3] for r in recs)
            cs.append(c_dec(cls, b, prev=prev))
            want = canon(cls, decode(cls, b)); bad = b + rng.choice([b'\x00', b'\x0b\x01', b'\x07', b'\x04\x01', b'\xfe\xff'])
            def j(r, want=want):
                if crash(r): return r['crash']
                if 'exc' not in r: return 'no exception'
                got = canon(cls_of[id(want)], r['v'])
                if got != want: return 'content after failed decoding: %s' % {k: (got[k], want[k]) for k in want if got[k] != want[k]}
            cls_of[id(want)] = cls; keep.append(want)
            cs.append(({'op': 'deser', 'cls': cls, 'in': bad.hex(), 'v': prev}, j))
    elif pid == 'P16':
        cs.append(({'op': 'reg', 'n': 300*scale}, lambda r: crash(r) or ('wrong handler returned' if r.get('bad') else None)))
    elif pid == 'P17':
        for _ in range(200*scale):
            a = rl(rng); b = [dict(x) if x is not None else None for x in a] if rng.random() < .5 else rl(rng)
            if rng.random() < .3 and b: b[rng.randrange(len(b))] = None if rng.random() < .5 else rmsg(rng, 'Leaf')
            if rng.random() < .2: b = b + [rmsg(rng, 'Leaf')]
            e = eqlist(a, b)
            cs.append(({'op': 'eq', 'cls': 'Sub', 'a': {'5': a}, 'b': {'5': b}}, lambda r, e=e: crash(r) or (None if r.get('eq') == e and r.get('ne') == (not e) else 'eq=%s expected %s' % (r.get('eq'), e))))
            ka = [[k, x] for k, x in zip(['61', '62', '63', '64', '65'], [{'5': a}] + [None if rng.random() < .3 else rmsg(rng, 'Sub') for _ in range(rng.randrange(3))])]
            kb = [list(x) for x in ka]
            if rng.random() < .6: kb[-1] = rng.choice([[kb[-1][0], None], ['6a', kb[-1][1]], [kb[-1][0], rmsg(rng, 'Sub')]])
            if rng.random() < .2: kb.pop()
            da, db = dict((k, v) for k, v in ka), dict((k, v) for k, v in kb)
            e2 = set(da) == set(db) and all(eqopt('Sub', da[k], db[k]) for k in da)
            cs.append(({'op': 'eq', 'cls': 'All', 'a': {'35': ka}, 'b': {'35': kb}}, lambda r, e=e2: crash(r) or (None if r.get('eq') == e and r.get('ne') == (not e) else 'eq=%s expected %s' % (r.get('eq'), e))))
    return cs
cls_of = {}; keep = []
def eqopt(cls, a, b):
    if a is None or b is None: return a is None and b is None
    ca, cb = canon(cls, a), canon(cls, b)
    for n, t in SCHEMA[cls].items():
        x, y = a.get(str(n)), b.get(str(n))
        if isinstance(t, tuple) and t[0] == 'lmsg':
            if not eqlist(x or [], y or [], t[1]): return False
        elif ca[str(n)] != cb[str(n)]: return False
    return True
def eqlist(a, b, cls='Leaf'): return len(a) == len(b) and all(eqopt(cls, x, y) for x, y in zip(a, b))
def rl(rng): return [None if rng.random() < .2 else rmsg(rng, 'Leaf') for _ in range(rng.choice([0, 1, 2, 3, 6]))]
def unknown(rng, cls, lo=1000):
    n = rng.choice([lo, lo + 1, lo + 5, 2500, 100000, 536870910]); w = rng.choice([0, 1, 2, 5])
    pl = {0: lambda: rng.choice(pads(rng.getrandbits(rng.randrange(1, 65)))), 1: lambda: rng.getrandbits(64).to_bytes(8, 'little'), 5: lambda: rng.getrandbits(32).to_bytes(4, 'little'),
          2: lambda: (lambda k: varint(k) + bytes(rng.randrange(256) for _ in range(k)))(rng.choice([0, 1, 3, 127, 128, 200]))}[w]()
    return tag(n, w) + pl
def iter_cases(rng, n):
    cs = []
    for _ in range(n):
        L = rng.choice([0, 1, 2, 5, 20]); data = bytes(rng.randrange(256) for _ in range(L)); ops = []; pos = 0; other = 0; exp = []
        for _ in range(rng.randrange(1, 14)):
            k = rng.choice(['adv', 'adv', 'back', 'inc', 'dec', 'get', 'copy', 'swap', 'cmp', 'size', 'plus'])
            a = rng.choice([0, 1, 2, 3, L, L+1, L-pos, L-pos+1, -1, -5, 2**31-1, -2**31, pos, pos+1])
            a = max(-2**31, min(2**31-1, a))
            if k == 'get' and pos >= L: continue
            ops.append([k, a]); e = {}
            if k == 'adv':
                if a < 0 or a > L - pos: e = {'exc': 1}
                else: pos += a
            elif k == 'back':
                if a < 0 or a > pos: e = {'exc': 1}
                else: pos -= a
            elif k == 'inc':
                if pos >= L: e = {'exc': 1}
                else: pos += 1
            elif k == 'dec':
                if pos <= 0: e = {'exc': 1}
                else: pos -= 1
            elif k == 'plus':
                if a < 0 or a > L - pos: e = {'exc': 1}
                else: e = {'p': pos + a}
            elif k == 'get': e = {'b': data[pos]}
            elif k == 'copy': other = pos
            elif k == 'swap': pos, other = other, pos
            elif k == 'cmp': e = {'eq': pos == other, 'ne': pos != other}
            if 'exc' not in e: e['pos'] = pos
            exp.append((k, e))
            if 'exc' in e: break        # an iterator that has reported the end is not used further
        def j(r, exp=exp, L=L):
            if crash(r): return r['crash']
            for i, ((k, e), g) in enumerate(zip(exp, r['tr'])):
                if ('exc' in e) != ('exc' in g): return 'step %d (%s): %s' % (i, k, 'no exception' if 'exc' in e else 'exception')
                for x in ('pos', 'p', 'b', 'eq', 'ne'):
                    if x in e and g.get(x) != e[x]: return 'step %d (%s): %s = %s, expected %s' % (i, k, x, g.get(x), e[x])
        cs.append(({'op': 'it', 'in': data.hex(), 'ops': ops}, j))
    return cs
def replay_cases(run):
    """inputs of the verifier's counterexamples"""
    cs = []
    for r in run.results:
        if r['status'] != 'refuted': continue
        for f in r['failed']:
            m = f.get('model') or {}
            t = m.get('type')
            if t in FIELD and isinstance(m.get('value'), int):
                w = 8*FIX[t][1] if t in FIX else INT[t]; v = m['value'] & (2**max(w, 8)-1)
                v = str(signed(v, w) if t in SIGNED else v); cs += [c_field_in('All', {str(FIELD[t]): v}, FIELD[t]), c_rt('All', {str(FIELD[t]): v})]
            b = m.get('input')
            if isinstance(b, dict) and b.get('len', 1 << 40) < 4000:
                data = bytes.fromhex(b['hex']); p = m.get('pos', 0)
                num = FIELD.get(t) or (LFIELD.get(t[:-4]) if isinstance(t, str) and t.endswith('List') else None)
                for cls in ('All', 'Num'): cs.append(({'op': 'deser', 'cls': cls, 'in': data[p:].hex(), 'nodump': True}, no_crash))
                try:
                    _, q = rdv(data, p)
                    if num: 
                        raw = tag(num, wt(A[num])) + data[q:]; cs.append(c_dec('All', raw))
                except Bad: pass
    return cs
def native(run):
    rng = random.Random(run.seed * 1000 + int(run.pid[1:]))
    rc = replay_cases(run)
    if rc: run_cases(run, rc, 'replay of a counterexample')
    run_cases(run, cases(run.pid, rng, 1 if run.tier == 'quick' else 12), 'bounded check')
