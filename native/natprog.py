"""Self-checking harness programs: exit 0 and a last line 'OK n', or a FAIL line / sanitizer report."""
import os, build
def run_prog(run, name, srcs, flags=(), libs=('Qt5Core',), args=(), env=None, timeout=300, san=True, what='', wrap=()):
    exe = build.native(srcs, os.path.join(build.scratch(), name), flags=list(flags), libs=libs, san=san)
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0', QT_LOGGING_RULES='*=false', **(env or {}))
    try: r = build.sh(list(wrap) + [exe] + [str(x) for x in args], timeout=timeout, env=e)
    except build.subprocess.TimeoutExpired as x:
        run.native_fail.append(dict(program=name, args=list(map(str, args)), problem='did not finish in %ds' % timeout, output=str(x.stdout or '')[-1500:])); return False
    lines = [l for l in r.stdout.splitlines() if l.strip()]
    run.native_runs += int(lines[-1].split()[1]) if lines and lines[-1].startswith('OK ') else max(0, len(lines))
    run.native_info.append('%s %s: %s' % (name, ' '.join(map(str, args)), what))
    if r.returncode != 0 or not lines or not lines[-1].startswith('OK'):
        run.native_fail.append(dict(program=name, args=list(map(str, args)), exit=r.returncode, output='\n'.join(lines[-6:])[-1500:], stderr=r.stderr[:1500])); return False
    return True
