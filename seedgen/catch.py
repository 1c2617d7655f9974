#!/usr/bin/env python3
"""Runs the check of each planted bug's property against it, in scratch copies of /verif and /repo.
usage: catch.py [-t TIER] [-p PROP] [ID...]   (-p: run another property's check; PATCH files may be given instead of IDs,
then every property's check is run and has to stay quiet)"""
import json, os, shutil, subprocess, sys, time, tempfile
a = sys.argv[1:]; tier = 'quick'; prop_ = None
while a[:1] in (['-t'], ['-p']):
    if a[0] == '-t': tier = a[1]
    else: prop_ = a[1]
    a = a[2:]
W = tempfile.mkdtemp(prefix='catch.', dir='/tmp')
subprocess.check_call(['cp', '-a', '/repo', W + '/repo'])
subprocess.check_call(['git', '-C', W + '/repo', 'checkout', '-q', '--', '.'])
shutil.copytree('/verif', W + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
m = W + '/verif/harness/go.mod'
s = open(m).read(); open(m, 'w').write(s.replace('/repo/protocol', W + '/repo/protocol'))
for f in os.listdir(W + '/verif/engine'):
    if f.endswith('.go'):
        p = W + '/verif/engine/' + f; s = open(p).read()
        if '"/repo' in s: open(p, 'w').write(s.replace('"/repo', '"' + W + '/repo'))
patches = [x for x in a if '/' in x]
jobs = []
if patches:
    props = [prop_] if prop_ else [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    jobs = [(x, x, p) for x in patches for p in props]
else:
    for id in sorted(os.listdir('/verif/seeded')):
        if a and id not in a: continue
        d = '/verif/seeded/' + id
        jobs.append((id, d + '/patch.diff', prop_ or json.load(open(d + '/meta.json'))['property']))
try:
    for id, patch, prop in jobs:
        subprocess.check_call(['git', '-C', W + '/repo', 'apply', os.path.abspath(patch)])
        t = time.time()
        try:
            r = subprocess.run(['timeout', '900', W + '/verif/check.sh', prop, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        finally:
            subprocess.check_call(['git', '-C', W + '/repo', 'checkout', '-q', '--', '.'])
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
        if patches:
            print('%-40s %s %s rc=%d %4ds %s' % (os.path.basename(id), prop, 'quiet' if r.returncode == 0 and not v else 'NOISE', r.returncode, time.time() - t, (v or [r.stdout[-200:] if r.returncode else ''])[0][:200]), flush=True)
            try: c = json.load(open(W + '/verif/evidence/' + prop + '.json'))['coverage']
            except Exception as e: print('    no evidence', e); continue
            note = {k: c[k] for k in ('unsupported_paths', 'limit_paths', 'unconfirmed_counterexamples', 'solver_errors', 'witness_mismatches') if c.get(k)}
            open_ = [h['name'] for h in c['harnesses'] if not h['complete']]
            if note or open_: print('    ' + str(note)[:700] + ' incomplete: ' + ' '.join(open_), flush=True)
        else:
            print('%-40s %s rc=%d %4ds %s' % (id, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, time.time() - t, (v or [''])[0][:160]), flush=True)
finally:
    shutil.rmtree(W)
