#!/usr/bin/env python3
"""seed.py FILE.py... : plant bugs. Each spec file calls seed(...). Confirms a bug in /repo (build, stable tests, demo) and stores it in
/verif/seeded/<id>/ when it is realistic (compiles, passes the tests, the demonstration tells it apart). seed.py --confirm ID... re-confirms."""
import sys, os, json, subprocess, tempfile, shutil
R = '/repo'; S = '/verif/seeded'
BASE = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    for k in ('stable', 'passed', 'pass', 'tests'):
        if isinstance(BASE, dict) and k in BASE: return set(BASE[k])
    return set(BASE)
def sh(c, t=600): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
def demo(d):
    p = sh('cd %s && timeout 300 bash %s/demo.sh' % (R, d)); return p.returncode, (p.stdout + p.stderr)[-600:]
def passed():
    sh('rm -f /tmp/seed-out.json; bash /opt/vp/test.sh /tmp/seed-out.json')
    try: o = json.load(open('/tmp/seed-out.json'))
    except Exception as e: return None
    return o
def failing(o):
    st = stable()
    ok = set(o.get('passed', o.get('pass', [])))
    return sorted(st - ok)
def confirm(i, d):
    assert sh('git -C %s status --porcelain' % R).stdout.strip() == '', 'repo dirty'
    p = sh('git -C %s apply %s/patch.diff' % (R, d))
    if p.returncode: print(i, 'patch does not apply', p.stderr); return False
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(i, 'BUILD FAILS', (b.stdout + b.stderr)[-800:]); return False
        o = passed()
        if o is None: print(i, 'no test result'); return False
        f = failing(o)
        if f: print(i, 'TESTS FAIL', f[:5]); return False
        rc, out = demo(d)
        if rc == 0: print(i, 'demo passes with the bug'); return False
        msg = out
    finally:
        sh('git -C %s checkout -- .' % R); sh('bash /opt/vp/build.sh')
    rc, out = demo(d)
    if rc: print(i, 'demo fails on the unchanged tree:', out); return False
    print(i, 'OK  demo says:', msg.strip().split('\n')[-1][:150]); return True
def seed(id, prop, edits, needs, breaks, demo_js, ext='js'):
    if os.path.exists(os.path.join(S, id)): print(id, 'exists'); return
    d = tempfile.mkdtemp(prefix='seed.')
    try:
        a = os.path.join(d, 'w'); os.makedirs(a); diff = ''
        for f, old, new in edits:
            src = open(os.path.join(R, f)).read()
            q = os.path.join(a, f)
            if os.path.exists(q): src = open(q).read()
            assert src.count(old) == 1, (id, f, src.count(old))
            os.makedirs(os.path.dirname(q), exist_ok=True); open(q, 'w').write(src.replace(old, new))
        for f in sorted({e[0] for e in edits}):
            p = sh('diff -u --label a/%s --label b/%s %s %s' % (f, f, os.path.join(R, f), os.path.join(a, f)))
            diff += p.stdout
        o = os.path.join(d, 'o'); os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo after a build\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.%s"\n' % ext)
        open(o + '/demo.' + ext, 'w').write(demo_js.strip() + '\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
        if confirm(id, o): shutil.copytree(o, os.path.join(S, id))
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    if sys.argv[1] == '--confirm':
        for i in sys.argv[2:] or sorted(os.listdir(S)): confirm(i, os.path.join(S, i))
    else:
        for f in sys.argv[1:]: exec(compile(open(f).read(), f, 'exec'))
