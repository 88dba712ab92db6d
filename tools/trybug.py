"""trybug.py PATCH|revert:COMMIT CHECK...: run checks against a changed copy of /repo."""
import os, sys, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
what, props = sys.argv[1], sys.argv[2:]
d = tempfile.mkdtemp(prefix='trybug_')
try:
    w = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'update-index', '-q', '--refresh'])
    if what.startswith('revert:'):
        diff = subprocess.check_output(['git', '-C', w, 'show', what[7:]])
        r = subprocess.run(['git', '-C', w, 'apply', '-R', '-3', '-'], input=diff, capture_output=True)
    else:
        r = subprocess.run(['git', '-C', w, 'apply', os.path.abspath(what)], capture_output=True)
    if r.returncode:
        print('DOES NOT APPLY', r.stderr.decode()[-500:])
        sys.exit(3)
    v = os.path.join(d, 'verif')
    subprocess.run(['cp', '-a', V, v], check=True)
    for p in props:
        r = subprocess.run([sys.executable, 'check.py', p], cwd=v, env=dict(os.environ, DURUS_REPO=w),
                           capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print(what, p, 'rc=%d' % r.returncode, '|', ' / '.join(l.strip() for l in lines if not l.startswith('VIOL'))[:int(os.environ.get('TB','300'))])
        if r.returncode not in (0, 1):
            print(r.stderr[-1500:])
finally:
    shutil.rmtree(d, True)
