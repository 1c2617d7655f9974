#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from specs.py in a scratch copy of /repo and confirms each one.
usage: gen.py [ID...]"""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from specs import S
W = '/tmp/seedrepo'
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin', GOTOOLCHAIN='local',
           GOPROXY='off', GOFLAGS='-mod=mod -modfile=/tmp/seedm.mod')
shutil.copy(W + '/protocol/go.mod', '/tmp/seedm.mod'); shutil.copy(W + '/protocol/go.sum', '/tmp/seedm.sum')
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
for id, s in S.items():
    if sys.argv[1:] and id not in sys.argv[1:]: continue
    d = f'/verif/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    run(['git', 'checkout', '-q', '--', '.'], W)
    bad = None
    for f, old, new in s['edits']:
        t = open(f'{W}/{f}').read()
        if t.count(old) != 1:
            bad = f'edit of {f}: {t.count(old)} matches for {old[:80]!r}'; break
        open(f'{W}/{f}', 'w').write(t.replace(old, new))
    if bad:
        print(id, bad); shutil.rmtree(d); continue
    p = run(['git', 'diff'], W).stdout
    open(d + '/patch.diff', 'w').write(p)
    body = s['demo']
    imps = ['"testing"'] + list(s['imports'])
    for name, path in [('bytes', 'bytes'), ('context', 'context'), ('errors', 'errors')] + [
        (x, 'github.com/RTann/libsignal-go/protocol/' + x) for x in ('address', 'curve', 'distribution', 'identity', 'message', 'prekey', 'session')]:
        if name + '.' in body: imps.append(f'"{path}"')
    open(d + '/demo_test.go', 'w').write('package zzdemo\n\nimport (\n' + ''.join(f'\t{i}\n' for i in sorted(set(imps))) + ')\n\nfunc TestDemo(t *testing.T) {' + body.rstrip() + '\n}\n')
    run(['gofmt', '-w', d + '/demo_test.go'], '/')
    shutil.copy(here + '/prelude_test.go', d); shutil.copy(here + '/demo.sh', d)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    msgs = []
    b = run(['go', 'build', './...'], W + '/protocol')
    if b.returncode: msgs.append('BUILD ' + b.stdout[-300:])
    else:
        b = run(['go', 'test', '-vet=off', '-count=1', './...'], W + '/protocol')
        if b.returncode: msgs.append('TESTS ' + ' '.join(l for l in b.stdout.splitlines() if '--- FAIL' in l)[:300])
        b = run(['bash', d + '/demo.sh'], W)
        if b.returncode == 0: msgs.append('DEMO PASSES WITH PATCH')
        elif 'build failed' in b.stdout or 'setup failed' in b.stdout: msgs.append('DEMO ' + b.stdout[-500:])
        why = [l.strip() for l in b.stdout.splitlines() if '_test.go' in l or 'panic' in l][:1]
    run(['git', 'checkout', '-q', '--', '.'], W)
    b = run(['bash', d + '/demo.sh'], W)
    if b.returncode: msgs.append('DEMO FAILS WITHOUT ' + b.stdout[-400:])
    print(id, 'OK' if not msgs else msgs, why if not msgs else '', flush=True)
    if msgs: shutil.rmtree(d)
shutil.rmtree(W)
