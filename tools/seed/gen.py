#!/usr/bin/env python3
"""Writes /verif/seeded from bugs.py: applies each change to a scratch copy of
/repo, confirms that it builds, passes the stable tests and that its
demonstration tells the two trees apart, and only then keeps it.
usage: gen.py [id-substring...]"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
out = os.path.join(os.path.dirname(os.path.dirname(here)), 'seeded')
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable(cwd):
    """Names of the stable tests that do not pass."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh('go test -count=1 -json ./...', cwd)
    passed = set()
    for line in r.stdout.splitlines():
        try: e = json.loads(line)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'):
            passed.add((e['Package'], e['Test']))
    fails = sh('go test -count=1 -json ./...', cwd).stdout
    return [l for l in fails.splitlines() if '"Action":"fail"' in l and '"Test"' in l]

def original_lines(path):
    b = sh(['git', 'blame', '-s', path], '/repo').stdout.splitlines()
    return {i + 1 for i, l in enumerate(b) if l.startswith('^')}

def main():
    want = sys.argv[1:]
    work = tempfile.mkdtemp(prefix='seed.')
    repo = os.path.join(work, 'repo')
    sh(['git', 'clone', '-q', '/repo', repo], '/')
    # The demonstrations run in the scratch copy like in /repo.
    for bug in BUGS:
        id = bug['id']
        if want and not any(w in id for w in want): continue
        sh('git checkout -q -- . && git clean -fdq', repo)
        bad = None
        for path, old, new in bug['edits']:
            p = os.path.join(repo, path)
            s = open(p).read()
            nth = 0
            if isinstance(old, tuple): old, nth = old
            parts = s.split(old)
            if len(parts) < 2 + nth or (nth == 0 and len(parts) != 2 and not isinstance(bug.get('multi'), bool)):
                bad = '%d occurrences in %s of %r' % (len(parts) - 1, path, old)
                break
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, 'w').write(s)
        if bad: print(id, 'EDIT', bad); continue
        diff = sh('git diff', repo).stdout
        # every removed line should be an original one
        for f in re.findall(r'^\+\+\+ b/(.*)$', diff, re.M):
            orig = original_lines(f)
            d0 = sh(['git', 'diff', '-U0', '--', f], repo).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d0, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for l in range(a, a + n):
                    if l not in orig: print(id, 'NOTE: line', f, l, 'is not original')
                if n == 0: print(id, 'note: pure insertion at', f, a)
        r = sh('go build ./... && go vet ./ecmascript/... && GOOS=js GOARCH=wasm go build -o /dev/null ./web/parser', repo)
        if r.returncode: print(id, 'BUILD', r.stdout[-500:]); continue
        fails = stable(repo)
        if fails: print(id, 'TESTS FAIL', len(fails), fails[0][:200]); continue
        d = tempfile.mkdtemp(prefix='d.', dir=work)
        if 'probes' in bug:
            shutil.copy(os.path.join(here, 'probe.go'), d)
            shutil.copy(os.path.join(here, 'demo.sh'), d)
            probes = [dict(mode=m, source=s) for m, s in bug['probes']]
            json.dump(probes, open(os.path.join(d, 'in.json'), 'w'))
            exp = subprocess.run(['go', 'run', os.path.join(d, 'probe.go'), '-print', os.path.join(d, 'in.json')], cwd='/repo', env=env, stdout=subprocess.PIPE, text=True)
            os.remove(os.path.join(d, 'in.json'))
            open(os.path.join(d, 'probes.json'), 'w').write(exp.stdout)
        else:
            for f in os.listdir(os.path.join(here, bug['demo'])):
                shutil.copy(os.path.join(here, bug['demo'], f), d)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r1 = sh(['bash', os.path.join(d, 'demo.sh')], repo, timeout=280)
        sh('git checkout -q -- .', repo)
        r0 = sh(['bash', os.path.join(d, 'demo.sh')], repo, timeout=280)
        if r0.returncode != 0 or r1.returncode == 0 or r1.returncode == 2 and 'main' in r1.stdout and 'probes' in bug and 'panic' not in r1.stdout:
            print(id, 'DEMO', r0.returncode, r1.returncode, r0.stdout[-300:], r1.stdout[-300:]); continue
        dst = os.path.join(out, id)
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        print(id, 'kept')
        if os.environ.get('SHOW'): print(open(os.path.join(dst,'probes.json')).read()[:1500] if 'probes' in bug else '', r1.stdout[-800:])
    shutil.rmtree(work)
main()
