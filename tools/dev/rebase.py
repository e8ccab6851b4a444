"""rebase.py: rewrite the patches of seeded/ which no longer apply to /repo's HEAD (context changed)."""
import glob, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for d in sorted(glob.glob(f'{V}/seeded/*/')):
    p = d + 'patch.diff'
    if subprocess.run(['git', '-C', '/repo', 'apply', '--check', p], capture_output=True).returncode == 0:
        continue
    W = '/tmp/rebase_w'
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    r = subprocess.run(['patch', '-p1', '--fuzz=3', '--no-backup-if-mismatch', '-i', p], cwd=W, capture_output=True, text=True)
    print(d, r.returncode, r.stdout[-200:])
    if r.returncode == 0:
        open(p, 'w').write(subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout)
    shutil.rmtree(W)
