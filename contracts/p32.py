"""Headers, credentials and SSL configuration of every request, and how a channel is created."""
from h2 import *
import h2
def native(run): grpcnat.http2(run)
class CredCut(net.HeaderCut):
    """iteration i adds exactly the header credKey(i): credText(i)"""
    def __init__(s): s.toks = set()
    def ev_step(self, ctx, evs):
        eng = ctx.eng; s = ctx.st
        if any(e[0] != 'header' for e in evs): raise Unsupported('effect in the credential loop')
        hs = [e for e in evs if e[2] == 'setRawHeader']; dom(s, ctx.i0, CKL, CVL); self.toks |= {e[1] for e in evs}
        eng.oblige(s, len(hs) == 1 and len(evs) == 1, 'one-header-per-credential', '%d headers' % len(hs), assume=False)
        if len(hs) != 1: return
        eng.oblige(s, rope_must_eq(eng, s, hs[0][3], keyrope(ctx.i0)), 'header-has-the-name-of-the-credential', assume=False)
        eng.oblige(s, rope_must_eq(eng, s, hs[0][4], textrope(ctx.i0)), 'header-has-the-text-of-the-credential', assume=False)
def lit(r):
    if not isinstance(r, Rope): return None
    n = r.len()
    if not isint(n) or any(not isint(r.at(i)) for i in range(n)): raise Unsupported('header text')
    return bytes(r.at(i) for i in range(n))
def const(eng, st, f): st, v = run1(eng, st, cfn(eng, f), []); return v
def carried(eng, s, cut, ct, attr):
    eng.posts += 1; ps = [e for e in s.trace if e[0] == 'post']; eng.oblige(s, len(ps) == 1, 'one-request', assume=False)
    if len(ps) != 1: return
    k = ps[0][4]; at = s.trace.index(ps[0]); pre = s.trace[:at]; hs = [e for e in pre if e[0] == 'header' and e[1] == k]; raw = {}; known = {}; attrs = {}; ssl = None
    for e in hs:
        if e[2] == 'setRawHeader': raw[lit(e[3]).lower()] = lit(e[4])
        elif e[2] == 'setSslConfiguration': ssl = e[4]
        else:
            if not isint(e[3]): raise Unsupported('header number')
            (known if e[2] == 'setHeader' else attrs)[e[3]] = e[4]
    v = known.get(ct); c = lit(v.val.rope) if v is not None and isinstance(v.val, Str) else raw.get(b'content-type')
    eng.oblige(s, c == b'application/grpc', 'content-type-is-grpc', repr(c), assume=False); eng.oblige(s, raw.get(b'te') == b'trailers', 'te-trailers', assume=False)
    v = attrs.get(attr); eng.oblige(s, v is not None and v.tn == 'bool' and isint(v.val) and v.val == 1, 'http2-without-upgrade', assume=False)
    eng.oblige(s, isinstance(ssl, Term) and ssl.op == 'ssl', 'ssl-configuration-of-the-channel', assume=False)
    eng.oblige(s, any(e[0] == 'creds' for e in pre), 'credentials-asked-for-this-request', assume=False)
    lo = [e for e in pre if e[0] == 'loop' and e[1] == 'credentials']
    eng.oblige(s, len(lo) == 1, 'every-credential-visited', '%d loops' % len(lo), assume=False)
    if len(lo) == 1: eng.oblige(s, eqv(lo[0][2], eng.credmap.n, 64), 'every-credential-visited', assume=False)
    eng.oblige(s, cut.toks <= {k}, 'headers-of-the-posted-request', assume=False)
def prep(eng):
    st, h = start(eng); st, p = run1(eng, st, cfn(eng, 'v_ssl'), [h.priv]); eng.put_abs(st, p, Term('ssl'), 8); st.trace = ()
    return st, h, const(eng, st, 'v_contenttype'), const(eng, st, 'v_http2attr')
def go(eng, st, f, args, ct, at):
    cut = CredCut()
    for s, o in list(with_cuts(eng, [cut], lambda: eng.run(st.fork(), cfn(eng, f), list(args)))):
        if o[0] != 'ret': eng.fail(s, 'no-exception', '%s %s' % (f, o[1])); continue
        carried(eng, s, cut, ct, at)
def g_sync_hdr(eng):
    st, h, ct, at = prep(eng); r = Ptr(eng.alloc(st, 'status', 8), 0); ret = Ptr(eng.alloc(st, 'ret', 8), 0); Q.put_ba(eng, st, ret, Rope()); go(eng, st, 'v_sync', [r, h.chan, h.m, h.s, h.arg, ret], ct, at)
def g_async_hdr(eng): st, h, ct, at = prep(eng); st = mkasync(eng, st, h); go(eng, st, 'v_async', [h.chan, h.m, h.s, h.arg, h.rep], ct, at)
def g_stream_hdr(eng): st, h, ct, at = prep(eng); st = mkstream(eng, st, h); go(eng, st, 'v_stream', [h.chan, h.stream, h.s, h.client], ct, at)
# ---------------------------------------------------------------- creation of a channel
SCH = z3.Array('scheme', BVS(64), BVS(8)); SCHL = z3.BitVec('scheme_len', 64); HAS = z3.Bool('has_ssl_configuration')
HTTPS = z3.And(SCHL == 5, *[z3.Select(SCH, i) == b for i, b in enumerate(b'https')])
def install_ctor(eng):
    model = eng.model; base = len(eng.models); A = eng.assumptions.add
    @model(r'^QUrl::scheme\(\) const$')
    def _(eng, st, a, c):
        u = eng.get_abs(st, a[1], Term, 'url'); eng.put_abs(st, a[0], Str(u.args[2] if len(u.args) > 2 else Rope([Sl(SCH, 0, SCHL)])), 8)
    @model(r'^QUrl::setScheme\(QString const&\)$')
    def _(eng, st, a, c): u = eng.get_abs(st, a[0], Term, 'url'); eng.put_abs(st, a[0], Term('url', u.args[0], u.args[1], eng.get_abs(st, a[1], Str, 'scheme').rope), 8)
    @model(r'^QUrl::~QUrl\(\)$|^QNetworkAccessManager::~?QNetworkAccessManager\(|^QObject::~?QObject\(|^QtProtobuf::QAbstractGrpcChannel::~?QAbstractGrpcChannel\(')
    def _(eng, st, a, c): return None
    @model(r'^QString::operator(==|!=)\((char const\*|QLatin1String)\) const$|^operator(==|!=)\(QString const&, (char const\*|QString const&|QLatin1String)\)$')
    def _(eng, st, a, c):
        """the text of a URL's scheme against a literal or another text"""
        x = eng.get_abs(st, a[0], Str, 'string').rope; t = c.m.group(2) or c.m.group(4)
        if t == 'QString const&': y = eng.get_abs(st, a[1], Str, 'string').rope
        elif t == 'char const*': y = Rope([Lit(list(Q.cstr(eng, st, a[1])))])
        else: raise Unsupported('comparison with ' + t)
        if not isint(y.len()): x, y = y, x
        if not isint(y.len()): raise Unsupported('comparison of two unknown texts')
        e = simpb(z3.And(eqv(B64(x.len()), y.len(), 64), *[zb(eqv(x.at(z3.BitVecVal(i, 64)), y.at(i), 8)) for i in range(y.len())])); return bnot(e) if (c.m.group(1) or c.m.group(3)) == '!=' else e
    @model(r'^strlen$')
    def _(eng, st, a, c): return len(Q.cstr(eng, st, a[0]))
    H = r'^QHash<QLatin1String, QVariant>::'
    def key(eng, st, p):
        p = un(p); n = eng.load(st, p, 4); t = un(eng.load(st, Ptr(p.obj, add64(p.off, 8)), 8, ('ptr',)))
        if not isint(n): raise Unsupported('credential name')
        if bytes(eng.load(st, Ptr(t.obj, add64(t.off, i)), 1) for i in range(n)) != b'sslConfig': raise Unsupported('credential name')
    @model(H + r'contains\(QLatin1String const&\) const$')
    def _(eng, st, a, c): key(eng, st, a[1]); A('channel credentials answer the same while the channel is created'); return HAS
    @model(H + r'value\(QLatin1String const&\) const$')
    def _(eng, st, a, c): key(eng, st, a[2]); eng.setv(st, a[0], Var('sslorcfg', None))
    @model(r'^QSslConfiguration (QVariant::value<QSslConfiguration>\(\) const|qvariant_cast<QSslConfiguration>\(QVariant const&\))$')
    def _(eng, st, a, c): 
        v = eng.V(st, a[1])
        if v.tn != 'sslorcfg': raise Unsupported('ssl configuration of a variant')
        eng.put_abs(st, a[0], Term('sslcred'), 8)
    @model(r'^QVariant::isValid\(\) const$')
    def _(eng, st, a, c):
        if eng.V(st, a[0]).tn != 'sslorcfg': raise Unsupported('variant')
        return HAS
    eng.models[:] = eng.models[base:] + eng.models[:base]
def g_ctor(eng):
    def more(st):
        m = Ptr(eng.alloc(st, 'm', 8), 0); i = net.slot_of(eng, st, 'v_ccreds', [m])
        def f(eng, st, a, c): eng.put_abs(st, a[0], Term('channel credentials'))
        def gone(eng, st, a, c): st.ev('credentials-destroyed')
        return {0: gone, 1: gone, i: f}          # a virtual destructor takes the first two slots
    eng.more_creds = more; st, h = start(eng); install_ctor(eng); eng.inputs['scheme'] = Rope([Sl(SCH, 0, SCHL)]); eng.inputs['has_ssl_configuration'] = HAS
    st.assume(z3.ULT(SCHL, 64)); u = Ptr(eng.alloc(st, 'url', 8), 0); eng.put_abs(st, u, Term('url', h.url, Rope()), 8); kp = Ptr(eng.alloc(st, 'credptr', 8), 0); st, _ = run1(eng, st, cfn(eng, 'v_setcred'), [kp, h.cred])
    ch = Ptr(eng.alloc(st, 'newchannel', 256), 0)
    for s, o in eng.run(st, cfn(eng, 'v_open'), [ch, u, kp]):
        eng.posts += 1; bad = z3.And(HTTPS, z3.Not(HAS))
        if o[0] != 'ret': eng.oblige(s, bad, 'rejected-only-without-ssl-configuration', str(o[1])[:60], assume=False); continue
        eng.oblige(s, z3.Not(bad), 'https-without-ssl-configuration-rejected', assume=False); s.assume(z3.Not(bad))
        s, pp = run1(eng, s, cfn(eng, 'v_priv'), [ch]); s, sp = run1(eng, s, cfn(eng, 'v_ssl'), [pp]); s, up = run1(eng, s, cfn(eng, 'v_url'), [pp]); s, cp = run1(eng, s, cfn(eng, 'v_getcred'), [pp])
        ssl = repr(eng.get_abs(s, sp, Term, 'ssl')); s2 = s.fork(); s2.assume(HTTPS)
        if eng.check(s2)[0] != 'unsat': eng.oblige(s2, ssl == repr(Term('sslcred')), 'https-uses-the-ssl-configuration', ssl, assume=False)
        uv = eng.get_abs(s, up, Term, 'url'); sch = uv.args[2] if len(uv.args) > 2 else Rope([Sl(SCH, 0, SCHL)]); s3 = s.fork(); s3.assume(SCHL == 0)
        if eng.check(s3)[0] != 'unsat': eng.oblige(s3, rope_must_eq(eng, s3, sch, Rope([Lit(list(b'http'))])), 'no-scheme-is-http', assume=False)
        s4 = s.fork(); s4.assume(SCHL != 0)
        if eng.check(s4)[0] != 'unsat': eng.oblige(s4, rope_must_eq(eng, s4, sch, Rope([Sl(SCH, 0, SCHL)])), 'scheme-kept', assume=False)
        eng.oblige(s, un(cp).obj is h.cred.obj and not events(s, 'credentials-destroyed'), 'channel-owns-the-credentials', assume=False)
def verify(run):
    run.load(VN); run.prove([Goal('headers of a synchronous call', g_sync_hdr), Goal('headers of an asynchronous call', g_async_hdr), Goal('headers of a stream', g_stream_hdr), Goal('creation of a channel', g_ctor)])
