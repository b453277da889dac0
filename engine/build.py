"""Compile the current /repo sources to LLVM IR (for the verifier) and to native harnesses (for replay)."""
import os, subprocess, hashlib, tempfile, time
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QT = '/usr/include/x86_64-linux-gnu/qt5'
COMMON = ['-DQT_CORE_LIB', '-DQT_NETWORK_LIB', '-DQT_QML_LIB', '-DQT_PROTOBUF_PLUGIN_PATH="x"', '-DQT_PROTOBUF_VERSION_MAJOR=0',
          '-DQT_PROTOBUF_VERSION_MINOR=6', '-DQT_NO_DEBUG_OUTPUT', '-DQT_NO_WARNING_OUTPUT', '-DQT_NO_INFO_OUTPUT',
          '-I%s/src/protobuf' % REPO, '-I%s/src/grpc' % REPO, '-I%s/src/protobuf/quick' % REPO, '-I%s/src/grpc/quick' % REPO]
for d in ('', '/QtCore', '/QtQml', '/QtNetwork', '/QtGui'): COMMON += ['-isystem', QT + d]
COMMON += ['-isystem', '/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++', '-fPIC', '-std=gnu++14']
PB = ['-DQT_BUILD_PROTOBUF_LIB']
GRPC = ['-DQT_BUILD_GRPC_LIB', '-DQT_PROTOBUF_NATIVE_GRPC_CHANNEL']
GEN = ['-include', '/opt/vp/support/protobuf_string.h']

class BuildError(Exception): pass
_tmp = None
def scratch():
    global _tmp
    if _tmp is None:
        base = os.environ.get('VERIF_SCRATCH') or tempfile.mkdtemp(prefix='verif-')
        os.makedirs(base, exist_ok=True)
        _tmp = base
    return _tmp
def cleanup():
    global _tmp
    if _tmp and not os.environ.get('VERIF_KEEP'):
        import shutil; shutil.rmtree(_tmp, ignore_errors=True)
    _tmp = None

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)

IRFLAGS = ['-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fclang-abi-compat=17', '-fno-discard-value-names',
           '-gline-tables-only', '-w']
def ir(src, out=None, flags=()):
    """compile src (path relative to /repo or absolute) to IR text -> path"""
    path = src if src.startswith('/') else os.path.join(REPO, src)
    out = out or os.path.join(scratch(), os.path.basename(src).replace('.cpp', '') + '.ll')
    r = sh(['clang++'] + list(flags) + COMMON + IRFLAGS + [path, '-o', out])
    if r.returncode: raise BuildError('clang++ %s: %s' % (src, r.stderr[-3000:]))
    return out

def moc(hdr, out, flags=()):
    r = sh(['/usr/lib/qt5/bin/moc'] + [f for f in COMMON if f.startswith(('-D', '-I'))] + ['-I' + QT, '-I' + QT + '/QtCore'] + list(flags) + [hdr, '-o', out])
    if r.returncode: raise BuildError('moc %s: %s' % (hdr, r.stderr[-2000:]))
    return out

def native(srcs, out, flags=(), libs=('Qt5Core',), san=True, cxx='clang++', opt='-O1'):
    """compile and link; objects compiled in parallel"""
    f = COMMON + list(flags) + [opt, '-g1', '-w', '-fno-access-control']
    if san: f += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function,alignment,shift-base', '-fno-omit-frame-pointer']
    ps = []; objs = []
    for i, s in enumerate(srcs):
        path = s if s.startswith('/') else os.path.join(REPO, s)
        o = '%s.%d.o' % (out, i); objs.append(o)
        ps.append((s, subprocess.Popen([cxx] + f + ['-c', path, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')))
    err = ''
    for s, p in ps:
        _, e = p.communicate()
        if p.returncode: err += '%s: %s\n' % (s, e[-2000:])
    if err: raise BuildError(err)
    r = sh([cxx] + f + objs + ['-o', out] + ['-l' + l for l in libs] + ['-lpthread'])
    if r.returncode: raise BuildError('link: ' + r.stderr[-3000:])
    return out
