"""Engine D: crash points and damaged files (specs/DurusLog*.tla, drivers/cr.py)."""
import json, os, random, subprocess
from vlib.common import *

BASE = dict(kind=['fs', 'fs2'], inc=[1, 1, 2, 5], objects=[1, 3, 5], steps=14, epochs=[1, 1, 2, 3], images=40)
PROFILES = {
    'commits': dict(BASE, kind=['fs', 'fs', 'fs2', 'fs2', 'sqlite'], ops=dict(ST=10, NEW=1, PF=0.4, RD=0.3)),
    'packs': dict(BASE, kind=['fs', 'fs', 'fs2', 'fs2', 'sqlite'], steps=24, images=60,
                  ops=dict(ST=5, PB=3, PS=14, PF=0.5, RD=0.3)),
    'cuts': dict(BASE, epochs=1, images=6, cuts=120, ops=dict(ST=10, PF=0.5, PB=0.5, PS=3, RD=0.3)),
    'readers': dict(BASE, epochs=1, images=20, cuts=0, ops=dict(ST=6, RD=8, PB=1, PS=5)),
}
_shim = None


def shim():
    global _shim
    if _shim is None:
        out = os.path.join(scratch(), 'shim.so')
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', out,
                            os.path.join(VERIF, 'drivers', 'shim.c'), '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise Machinery('shim.c does not build: ' + r.stderr[-1000:])
        _shim = out
    return _shim


def run_jobs(specs):
    so = shim()
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'crspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'crout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('cr', [sp, out], timeout=800, env=dict(LD_PRELOAD=so, VT_SHIM=so))
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_cr(check, kind, traces):
    bad, stats = judge('DurusLogTrace', traces)
    check.traces(kind, traces, stats)
    crashes = check.detail.setdefault('crash_images', 0)
    check.detail['crash_images'] = crashes + sum(e['op'] == 'CR' for t in traces for e in t['ev'])
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s %s' % (clause, pos, json.dumps(t['meta'])[:500], t['ev'][pos - 1]))
        check.violation('cr: %s [%s]' % (clause, t['meta']['profile']['kind']),
                        dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 15) // 16
    judge_cr(check, 'cr.' + name, run_jobs(
        [dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per) for i in range(16)]))


CFG = '''SPECIFICATION %s
CONSTANTS
  MaxCommits = %d
  Recs = 2
  MaxCrashes = 2
  MaxPacks = 2
'''
DECISIONS = ('SyncBeforeAck', 'SyncBeforeSwap', 'BadPlaceholder', 'CheckLast', 'LinkFirst', 'KeepExtra')


def decisions(without=None):
    return ''.join('  %s = %s\n' % (d, 'FALSE' if d == without else 'TRUE') for d in DECISIONS)


def models(check):
    tail = 'INVARIANTS Durable OnDisk\nPROPERTIES AppendOnly\nCHECK_DEADLOCK FALSE\n'
    check.model('DurusLog', model_check('DurusLog', CFG % ('Spec', pick(3, 5)) + decisions() + tail))
    if pick(0, 1):
        for d in DECISIONS:
            r = tlc('DurusLog', CFG % ('Spec', 3) + decisions(d) + tail)
            if 'is violated' not in r['out']:
                raise Machinery('DurusLog does not need %s' % d)
            check.detail.setdefault('designs_refuted', []).append('without ' + d)


def generated_traces(check, n):
    """behaviours of DurusLog as histories of the real storages"""
    build()
    cfg = CFG % ('GSpec', 6) + decisions() + '  GenLen = %d\nCHECK_DEADLOCK FALSE\n'
    scripts = simulate('DurusLogGen', cfg % 14, n, 60, SEED)[0]
    specs = []
    for i in range(15):
        specs.append(dict(profile=dict(kind=['fs', 'fs2', 'sqlite'][i % 3], inc=1, objects=[1, 3], images=60),
                          seed='%s/gen' % SEED, scripts=scripts[i::15]))
    judge_cr(check, 'cr.generated', run_jobs(specs))
