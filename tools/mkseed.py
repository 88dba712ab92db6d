"""mkseed.py DEF.py...: make and confirm planted bugs.

A definition file sets ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)...]
and DEMO (python text run in a scratch directory).  The patch is made in a
scratch copy of /repo; the existing tests and the demonstration are run there
(in a private mount, process and network namespace that shows the copy as
/repo).  Only a confirmed bug is written to seeded/."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = os.path.join(V, 'tools', 'ns.sh')
SH = '''#!/bin/bash
# exit 0: the code behaves as it should; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cp "$here/demo.py" "$work/demo.py" || exit 1
cd "$work" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" timeout 200 /opt/venv/bin/python "$work/demo.py"
'''


def run(copy, *cmd, **kw):
    return subprocess.run(['bash', NS, copy] + list(cmd), capture_output=True, text=True, **kw)


def one(path):
    d = {}
    exec(open(path).read(), d)
    t = tempfile.mkdtemp(prefix='mkseed_', dir='/tmp')
    try:
        copy = os.path.join(t, 'repo')
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        s = os.path.join(t, 'seed')
        os.makedirs(s)
        open(os.path.join(s, 'demo.sh'), 'w').write(SH)
        open(os.path.join(s, 'demo.py'), 'w').write(d['DEMO'])
        os.chmod(os.path.join(s, 'demo.sh'), 0o755)
        demo = lambda: run(copy, 'bash', '/mnt/demo.sh') if 0 else subprocess.run(
            ['bash', os.path.join(s, 'demo.sh')], cwd=copy, capture_output=True, text=True)
        r = demo()
        if r.returncode:
            return d['ID'], 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
        for f, old, new in d['EDITS']:
            p = os.path.join(copy, f)
            text = open(p).read()
            if text.count(old) != 1:
                return d['ID'], 'edit of %s matches %d times' % (f, text.count(old))
            open(p, 'w').write(text.replace(old, new))
        patch = subprocess.check_output(['git', '-C', copy, 'diff'], text=True)
        # changed lines must not be ones a fix commit added
        for f in set(e[0] for e in d['EDITS']):
            old = [l for l in patch.splitlines() if l.startswith('-') and not l.startswith('---')]
            base = subprocess.check_output(['git', '-C', '/repo', 'show', '77accc5:' + f], text=True).splitlines()
        bases = '\n'.join(subprocess.check_output(['git', '-C', '/repo', 'show', '77accc5:' + f], text=True)
                          for f in set(e[0] for e in d['EDITS'])).splitlines()
        notorig = [l for l in old if l[1:] not in bases]
        r = run(copy, 'bash', '/opt/vp/build.sh')
        if r.returncode:
            return d['ID'], 'does not build: ' + (r.stdout + r.stderr)[-800:]
        r = run(copy, 'bash', '-c', 'bash /opt/vp/test.sh /tmp/o.json >/tmp/o.txt 2>&1; cat /tmp/o.json')
        res = json.loads(r.stdout)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        lost = sorted(set(stable) - set(res['passed']))
        if lost:
            return d['ID'], 'breaks tests: %s' % lost[:4]
        r = demo()
        if r.returncode == 0:
            return d['ID'], 'demo passes with the patch'
        out = os.path.join(V, 'seeded', d['ID'])
        shutil.rmtree(out, True)
        os.makedirs(out)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(s, f), out)
        open(os.path.join(out, 'patch.diff'), 'w').write(patch)
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return d['ID'], 'kept; demo: %s%s' % ((r.stdout + r.stderr).strip().splitlines()[-1:],
                                              ' LINES NOT ORIGINAL %s' % notorig if notorig else '')
    finally:
        shutil.rmtree(t, True)


with ThreadPoolExecutor(max_workers=6) as ex:
    for name, what in ex.map(one, sys.argv[1:]):
        print(name, ':', what, flush=True)
