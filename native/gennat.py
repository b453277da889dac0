"""Random message descriptions -> the real generator -> moc -> compiled and inspected (bounded companion of P27)."""
import os, random, build, gentool, sernat, natprog
SC = dict(double='double', float='float', int32='QtProtobuf::int32', int64='QtProtobuf::int64', uint32='QtProtobuf::uint32', uint64='QtProtobuf::uint64', sint32='QtProtobuf::sint32', sint64='QtProtobuf::sint64',
          fixed32='QtProtobuf::fixed32', fixed64='QtProtobuf::fixed64', sfixed32='QtProtobuf::sfixed32', sfixed64='QtProtobuf::sfixed64', bool='bool', string='QString', bytes='QByteArray')
SCL = {k: v + 'List' if v[0] == 'Q' else 'QtProtobuf::' + (k.capitalize() if k in ('float', 'double') else k) + 'List' for k, v in SC.items()}
WT = {k: 0 for k in SC}; WT.update(double=1, fixed64=1, sfixed64=1, float=5, fixed32=5, sfixed32=5, string=2, bytes=2)
KEYS = [k for k in SC if k not in ('double', 'float', 'bytes', 'bool')]
WORDS = 'alpha beta gamma delta rho sigma tau phi chi kappa omega zeta eta theta iota lambda2 mu nu xi pi one two three red green blue sun moon star rain snow cloud'.split()
def camel(n):
    p = n.split('_'); r = p[0] + ''.join(x[:1].upper() + x[1:] for x in p[1:]); r = r[:1].lower() + r[1:]
    return r + '_proto' if r in ('id', 'property', 'import') else r
def cap(s): return s[:1].upper() + s[1:]
def value(rnd, k, which):
    if k == 'bool': return 'true'
    if k in ('double', 'float'): return '%d.5' % (which + 1)
    if k == 'string': return 'QString("s%d")' % which
    if k == 'bytes': return 'QByteArray("b%d")' % which
    return '%s(%d)' % (SC[k], rnd.choice([1, 5, 77, 1000, 2147483647]) + (0 if which else -0))
class Msg: pass
def schema(rnd, nmsg, pkg, wide=False):
    """-> (proto text, [Msg]); messages refer only to earlier ones"""
    out = ['syntax = "proto3";', 'package %s;' % pkg, '', 'enum Colour { NONE_COLOUR = 0; RED_COLOUR = 3; FAR_COLOUR = 70000; }', '']; msgs = []; kinds = []
    for k in SC: kinds += [('s', k)] + [('r', k)] * (k != 'bool')
    pool = []
    for i in range(nmsg):
        m = Msg(); m.name = 'Msg%d' % i if i % 3 else 'mixed_%dName' % i; m.cname = cap(m.name); m.q = '%s::%s' % (pkg, m.cname); m.fields = []
        nf = rnd.choice([0, 1, 2, 3, 5, 8, 12, 16]) if i > 1 else 14; big = wide and i == nmsg - 1; nf = 140 if big else nf; names = set(); nums = set(); body = []
        plain = m.name == m.cname; local = plain and rnd.random() < .35; nested = plain and rnd.random() < .25 and nf > 0
        while len(nums) < nf:
            n = rnd.choice([rnd.randint(1, 20), rnd.randint(1, 300), rnd.randint(1, 18000), 536870911 - rnd.randint(0, 3)])
            if not 19000 <= n <= 19999: nums.add(n)
        nums = list(nums); rnd.shuffle(nums); withmap = plain
        for n in nums:
            while 1:
                f = '_'.join(rnd.choice(WORDS) for _ in range(rnd.randint(1, 3)))
                if rnd.random() < .08: f = rnd.choice(['id', 'property', 'import', 'Upper', 'UPPER_case', 'trailing9'])
                c = camel(f)
                if c.lower() not in names: break
            names.add(c.lower())
            if not pool: pool = kinds * 1; rnd.shuffle(pool)
            r = rnd.random()
            if r < .55 or big: t, k = pool.pop()
            elif r < .65: t, k = ('e' if rnd.random() < .6 else 're'), ('local' if local and rnd.random() < .7 else rnd.choice(['global'] + [x for x in msgs if x.local][-1:]))
            elif r < .75 and msgs: t, k = 'm', rnd.choice(msgs)
            elif r < .83 and msgs: t, k = 'rm', rnd.choice(msgs)
            elif r < .87 and nested: t, k = rnd.choice(['m', 'rm']), 'nested'
            elif withmap and r < .97: t, k = 'map', (rnd.choice(KEYS), rnd.choice(list(SC) + (msgs[-1:] if msgs else [])))
            else: t, k = rnd.choice(kinds)
            m.fields.append((n, f, c, t, k))
            if t in ('s', 'r'): ty = k
            elif t in ('e', 're'): ty = 'Mood' if k == 'local' else 'Colour' if k == 'global' else k.name + '.Mood'
            elif t in ('m', 'rm'): ty = 'Inner' if k == 'nested' else k.name
            else: ty = 'map<%s, %s>' % (k[0], k[1] if isinstance(k[1], str) else k[1].name)
            body.append('    %s%s %s = %d;' % ('repeated ' if t[0] == 'r' else '', ty, f, n))
        m.local = local; m.nested = any(x[4] == 'nested' for x in m.fields)
        out.append('message %s {' % m.name)
        if local: out.append('    enum Mood { MOOD_CALM = 0; MOOD_FINE = 2; MOOD_GOOD = 300; }')
        if m.nested: out.append('    message Inner { sint64 deep = 9; string text = 4; }')
        if rnd.random() < .4:
            j = [i for i, x in enumerate(m.fields) if x[3] in ('s', 'e', 'm')]
            if j:       # a run of singular fields inside a oneof
                a = b = rnd.choice(j)
                while b + 1 in j: b += 1
                body.insert(b + 1, '    }'); body.insert(a, '    oneof choice_of {')
        out += body + ['}', '']; msgs.append(m)
    return '\n'.join(out), msgs
def ctype(m, t, k, pkg):
    if t == 's': return SC[k]
    if t == 'r': return SCL[k]
    if t in ('e', 're'):
        e = '%s::Mood' % m.q if k == 'local' else '%s::ColourGadget::Colour' % pkg if k == 'global' else '%s::Mood' % k.q
        return e if t == 'e' else 'QList<%s>' % e
    q = None
    if t in ('m', 'rm'): q = '%s::%s_QtProtobufNested::Inner' % (pkg, m.cname) if k == 'nested' else k.q
    if t == 'm': return q + '*'
    if t == 'rm': return 'QList<QSharedPointer<%s>>' % q
    v = k[1]; return 'QMap<%s, %s>' % (SC[k[0]], SC[v] if isinstance(v, str) else 'QSharedPointer<%s>' % v.q)
def checker(rnd, msgs, pkg, qml):
    o = ['#include "p.qpb.h"', '#include "vgencheck.h"', 'using namespace QtProtobuf;', 'int main() { qRegisterProtobufTypes();']
    for m in msgs:
        o.append('{ C<%s> c("%s", %d);' % (m.q, m.name, len(m.fields)))
        for n, f, c, t, k in m.fields:
            ty = ctype(m, t, k, pkg); o.append('  { using T = %s; c.field<T>(%d, "%s", "%s", %d);' % (ty, n, f, c, int(qml)))
            fine = None; eo = m if k == 'local' else k
            if t == 's': fine, w = [value(rnd, k, 1), value(rnd, k, 2)], WT[k]
            elif t == 'r': fine, w = ['T{%s, %s}' % (value(rnd, k, 1), value(rnd, k, 2)), 'T{%s}' % value(rnd, k, 2)], 2
            elif t == 'e': fine, w = (['%s::MOOD_GOOD' % eo.q, '%s::MOOD_FINE' % eo.q] if k != 'global' else ['%s::ColourGadget::FAR_COLOUR' % pkg, '%s::ColourGadget::RED_COLOUR' % pkg]), 0
            elif t == 're': fine, w = (['T{%s::MOOD_GOOD}' % eo.q, 'T{%s::MOOD_FINE}' % eo.q] if k != 'global' else ['T{%s::ColourGadget::FAR_COLOUR}' % pkg, 'T{%s::ColourGadget::RED_COLOUR}' % pkg]), 2
            elif t == 'map' and isinstance(k[1], str): fine, w = ['T{{%s, %s}}' % (value(rnd, k[0], 1), value(rnd, k[1], j)) for j in (1, 2)], 2
            if fine:
                o.append('    { %s m; T a = %s, b = %s; m.set%s(a); c.value(m, %d, a); c.same(T(static_cast<const %s&>(m).%s()), a, %d); m.set%s(b); c.value(m, %d, b); c.write(m, %d, a); c.same(T(static_cast<const %s&>(m).%s()), a, %d); c.wire(m, %d, %d); }' % (
                    m.q, fine[0], fine[1], cap(c), n, m.q, c, n, cap(c), n, n, m.q, c, n, n, w))
            o.append('  }')
        o.append('}')
    o.append('return done(); }'); return '\n'.join(o)
def flags(d): return ['-I' + build.VERIF + '/native/inc', '-I' + build.VERIF + '/native/gen', '-I' + d, '-I' + build.VERIF + '/native', '-DQT_BUILD_PROTOBUF_LIB']
def lib(d):
    """the library objects, built once"""
    import concurrent.futures as cf
    def one(s):
        o = os.path.join(d, os.path.basename(s) + '.o'); p = s if s.startswith('/') else os.path.join(build.REPO, s)
        r = build.sh(['clang++'] + build.COMMON + flags(d) + ['-O0', '-w', '-fno-access-control', '-c', p, '-o', o])
        if r.returncode: raise build.BuildError('%s: %s' % (s, r.stderr[-2000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(one, sernat.LIBSRC))
def one(run, seed, nmsg, qml, objs, extra=''):
    rnd = random.Random(seed); d = os.path.join(build.scratch(), 'gen%d' % seed); os.makedirs(d, exist_ok=True); pkg = rnd.choice(['vpkg', 'outerpkg.innerpkg']); cp = pkg.replace('.', '::')
    text, msgs = schema(rnd, nmsg, pkg, seed % 4 == 3)
    for m in msgs: m.q = '%s::%s' % (cp, m.cname)
    open(d + '/p.proto', 'w').write(text); rc, err = gentool.generate(['p.proto'], d, d, 'SINGLE' + (':QML' if qml else '') + extra)
    info = dict(program='gennat', seed=seed, options='SINGLE' + (':QML' if qml else '') + extra, schema=text)
    if rc: run.native_fail.append(dict(info, problem='the generator failed', stderr=err[-1500:])); return
    open(d + '/check.cpp', 'w').write(checker(rnd, msgs, cp, qml))
    r = build.sh(['/usr/lib/qt5/bin/moc'] + [f for f in build.COMMON if f.startswith(('-D', '-I'))] + ['-I' + build.QT, '-I' + build.QT + '/QtCore', d + '/p.qpb.h', '-o', d + '/moc_p.cpp'])
    if r.returncode: run.native_fail.append(dict(info, problem='moc rejects the generated class', stderr=r.stderr[-1500:])); return
    import concurrent.futures as cf
    def comp(s):
        return build.sh(['clang++'] + build.COMMON + flags(d) + ['-O0', '-w', '-fno-access-control', '-c', d + '/' + s, '-o', d + '/' + s + '.o'])
    with cf.ThreadPoolExecutor(3) as ex: rs = list(ex.map(comp, ['p.qpb.cpp', 'moc_p.cpp', 'check.cpp']))
    for s, r in zip(('generated source', 'moc output', 'checker'), rs):
        if r.returncode: run.native_fail.append(dict(info, problem='the %s does not compile' % s, stderr=r.stderr[:1500])); return
    exe = d + '/check'; r = build.sh(['clang++', d + '/p.qpb.cpp.o', d + '/moc_p.cpp.o', d + '/check.cpp.o'] + objs + ['-o', exe, '-lQt5Core', '-lQt5Qml', '-lpthread'])
    if r.returncode: run.native_fail.append(dict(info, problem='link', stderr=r.stderr[-1500:])); return
    r = build.sh([exe], timeout=120, env=dict(os.environ, QT_LOGGING_RULES='*=false'))
    ls = r.stdout.splitlines()
    if r.returncode or not ls or not ls[-1].startswith('OK'): run.native_fail.append(dict(info, problem='a generated class is wrong', exit=r.returncode, output='\n'.join(ls[:12])[:1500], stderr=r.stderr[:500])); return
    run.native_runs += int(ls[-1].split()[1])
def native(run):
    d = os.path.join(build.scratch(), 'genlib'); os.makedirs(d, exist_ok=True); gentool.generator(); objs = lib(d); import concurrent.futures as cf, time
    n, k = (4, 10) if run.tier == 'quick' else (24, 40)
    jobs = [(run.seed * 1000 + j, k, j % 2 == 0, objs, ':FIELDENUM' if j % 4 == 1 else '') for j in range(n)]
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(lambda j: one(run, *j), jobs))
    run.native_info.append('gennat: %d random schemas of %d messages, generated, compiled, and every property compared with its field' % (n, k))
