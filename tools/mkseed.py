#!/usr/bin/env python3
"""mkseed.py SPEC.py ... : build seeded/<id>/ from edit specs (id, prop, needs, breaks, edits[(file, old, new)], cmds[json]) using the current /repo HEAD for patch.diff;
expected.txt is the answer of the unchanged tree."""
import sys, os, json, shutil, subprocess, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(specs, only=None):
    for s in specs:
        if only and s['id'] not in only: continue
        w = tempfile.mkdtemp(prefix='mkseed-'); r = w + '/r'
        subprocess.check_call('mkdir %s; git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q . && git add -A . && git -c user.email=a@b -c user.name=x commit -qm b' % (r, r, r), shell=True)
        for f, old, new in s['edits']:
            t = open(r + '/' + f).read()
            assert t.count(old) == 1, (s['id'], f, old, t.count(old))
            open(r + '/' + f, 'w').write(t.replace(old, new))
        diff = subprocess.check_output('cd %s && git diff' % r, shell=True).decode()
        subprocess.check_call('cd %s && git checkout -q .' % r, shell=True)
        d = V + '/seeded/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if 'cmds' in s:
            shutil.copy(V + '/tools/seedkit/demo_ser.sh', d + '/demo.sh'); shutil.copy(V + '/native/nat_ser.cpp', d)
            shutil.copytree(V + '/native/gen', d + '/gen'); shutil.copytree(V + '/native/inc', d + '/inc')
            open(d + '/cmd.txt', 'w').write('\n'.join(json.dumps(c) for c in s['cmds']) + '\n')
            h = s.get('_h') or os.environ.get('SER_HARNESS', '/tmp/w/gen/t')
            o = subprocess.run([h], stdin=open(d + '/cmd.txt'), stdout=open(d + '/expected.txt', 'w'))
            assert o.returncode == 0
        else:
            for n, t in s['files'].items(): open(d + '/' + n, 'w').write(t)
        os.chmod(d + '/demo.sh', 0o755)
        for tree, want in ((r, 0), (r, 1)):
            if want: subprocess.check_call('cd %s && git apply %s/patch.diff' % (r, d), shell=True)
            if s.get('nodemo'): continue
            p = subprocess.run(['bash', d + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(s['id'], 'patched' if want else 'clean', p.returncode, p.stdout.decode()[-600:] if (p.returncode != 0) != bool(want) or want else '')
        shutil.rmtree(w)
if __name__ == '__main__':
    main(runpy.run_path(sys.argv[1])['SPECS'], set(sys.argv[2:]))
