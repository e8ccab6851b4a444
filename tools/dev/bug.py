"""bug.py SPEC.py [ID...]: make seeded bugs from a spec and try them.

SPEC.py defines BUGS = {id: dict(prop, file, edits=[(old, new)...], needs, breaks, demo)}."""
import json, os, subprocess, sys, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:] or list(spec['BUGS'])
PY = '/opt/venv/bin/python'
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell', QT_QPA_PLATFORM='offscreen')
for id in want:
    b = spec['BUGS'][id]
    W = f'/tmp/bugw/{id}'
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs('/tmp/bugw', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    files = b['file'] if isinstance(b['file'], dict) else {b['file']: b['edits']}
    for f, edits in files.items():
        p = os.path.join(W, f)
        s = open(p).read()
        for old, new in edits:
            assert s.count(old) == 1, (id, s.count(old), old)
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    base = subprocess.run(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=W, capture_output=True, text=True).stdout.strip()
    for f in files:
        orig = subprocess.run(['git', 'show', f'{base}:{f}'], cwd=W, capture_output=True, text=True).stdout.splitlines()
        gone = [l[1:] for l in subprocess.run(['git', 'diff', '-U0', f], cwd=W, capture_output=True, text=True).stdout.splitlines()
                if l[:1] == '-' and l[:3] != '---']
        new = [l for l in gone if l.strip() and l not in orig]
        if new: print('  NOT ORIGINAL', id, new)
    D = f'/verif/seeded/{id}'
    os.makedirs(D, exist_ok=True)
    open(f'{D}/patch.diff', 'w').write(diff)
    open(f'{D}/demo.py', 'w').write(b['demo'].lstrip())
    open(f'{D}/demo.sh', 'w').write('#!/bin/sh\n# run with cwd /repo: fails if the property is broken\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH="$PWD" '
        'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']),
              open(f'{D}/meta.json', 'w'), indent=1)
    r0 = subprocess.run(['sh', f'{D}/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True)
    r1 = subprocess.run(['sh', f'{D}/demo.sh'], cwd=W, env=env, capture_output=True, text=True)
    t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist',
                        '--timeout=300', '--basetemp=/tmp/bugw/t_' + id], cwd=W, env=env,
                       capture_output=True, text=True)
    c = subprocess.run([PY, '/verif/check.py', b['prop'], '--tier', 'quick'], cwd='/verif',
                       env=dict(env, SYMX_REPO=W), capture_output=True, text=True)
    viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')][:1]
    print(id, 'demo', r0.returncode, r1.returncode, 'tests', t.stdout.strip().splitlines()[-1][:60],
          'check', c.returncode, viol, flush=True)
    if r0.returncode: print(r0.stderr[-600:], r0.stdout[-300:])
    if r1.returncode and 'AssertionError' not in r1.stderr: print('   demo:', r1.stderr[-300:])
    if 'failed' in t.stdout: print('\n'.join(l for l in t.stdout.splitlines() if l.startswith('FAILED'))[:600])
    shutil.rmtree(W); shutil.rmtree('/tmp/bugw/t_' + id, ignore_errors=True)
