"""caught.py [ID...]: run the quick check of each planted bug's property on a patched copy of /repo
and rewrite the table of DESIGN.md (between the SEEDED markers)."""
import json, os, re, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
C = f'{V}/tools/dev/caught.json'
known = json.load(open(C)) if os.path.exists(C) else {}
ids = sorted(os.path.basename(d) for d in glob.glob(f'{V}/seeded/*') if os.path.isdir(d))
todo = [i for i in (sys.argv[1:] or ids) if i in ids and (sys.argv[1:] or i not in known)]
for i in todo:
    W = f'/tmp/caught_{i}'
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    try:
        subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=W, check=True)
        prop = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        r = subprocess.run(['/opt/venv/bin/python', f'{V}/check.py', prop, '--tier', 'quick'], cwd=V,
                           env=dict(os.environ, SYMX_REPO=W), capture_output=True, text=True)
        names = sorted(set(re.findall(rf'replay/{prop}-(\w+?)-\d+\.json', r.stdout)))
        known[i] = dict(exit=r.returncode, by=names)
        print(i, r.returncode, names, flush=True)
    finally:
        shutil.rmtree(W)
    json.dump(known, open(C, 'w'), indent=1, sort_keys=True)
rows = ['| id | breaks | needs | caught by |', '|---|---|---|---|']
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    k = known.get(i)
    by = '?' if k is None else ', '.join(k['by']) if k['exit'] == 1 else 'missed'
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {by} |")
p = f'{V}/DESIGN.md'
s = open(p).read()
s = re.sub(r'@@SEEDED@@|<!-- SEEDED -->.*<!-- /SEEDED -->', lambda _: '<!-- SEEDED -->\n' + '\n'.join(rows)
           + '\n<!-- /SEEDED -->', s, flags=re.S)
open(p, 'w').write(s)
