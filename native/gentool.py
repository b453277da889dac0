"""Build the code generator of /repo (as it is now) and run it through protoc."""
import os, re, subprocess, build
import concurrent.futures as cf
def sources():
    t = open(os.path.join(build.REPO, 'src/generator/CMakeLists.txt')).read()
    t = t[t.index('SOURCES'):t.index('LIBRARIES')]
    return ['src/generator/' + s for s in re.findall(r'\S+\.cpp', t)]
_gen = None
def generator(flags=()):
    global _gen
    if _gen: return _gen
    d = os.path.join(build.scratch(), 'gen'); os.makedirs(d, exist_ok=True); objs = []; ps = []
    def one(s):
        o = os.path.join(d, os.path.basename(s) + '.o')
        r = build.sh(['clang++', '-std=gnu++17', '-O0', '-w', '-I%s/src/generator' % build.REPO] + build.GEN + list(flags) + ['-c', os.path.join(build.REPO, s), '-o', o])
        if r.returncode: raise build.BuildError('generator %s: %s' % (s, r.stderr[-2000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, sources()))
    exe = os.path.join(d, 'qtprotobufgen'); r = build.sh(['clang++'] + list(flags) + objs + ['-o', exe, '-lprotoc', '-lprotobuf', '-lpthread'])
    if r.returncode: raise build.BuildError('generator link: ' + r.stderr[-2000:])
    _gen = exe; return exe
def generate(protos, out, inc, options='SINGLE'):
    os.makedirs(out, exist_ok=True)
    r = build.sh(['protoc', '--plugin=protoc-gen-qtprotobufgen=' + generator(), '--qtprotobufgen_out=' + out, '-I' + inc] + list(protos), env=dict(os.environ, QT_PROTOBUF_OPTIONS=options), timeout=120)
    return r.returncode, r.stderr
