"""Engine E: several processes, one path (specs/DurusLock*.tla, drivers/lk.py)."""
import json, os
from vlib.common import *
from vlib import crengine

BASE = dict(kind=['fs', 'fs2'], procs=[2, 2, 3], switch=[0.3, 0.6, 0.9], kill=[0, 0, 0.02], noise=[0, 0.2, 0.8],
            steps=60)
PROFILES = {
    'locks': dict(BASE, weights=[3, 2, 6, 3, 4, 1]),
    'packs': dict(BASE, weights=[1, 5, 12, 1, 5, 1]),
    'large': dict(BASE, hard=[30000, 70000, 140000], objects=[3, 3, 50], weights=[5, 2, 4, 4, 4, 1]),
    'readers': dict(BASE, weights=[4, 2, 4, 1, 2, 6]),
}


def run_jobs(specs):
    so = crengine.shim()
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'lkspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'lkout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('lk', [sp, out], timeout=800, env=dict(VT_SHIM=so))
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_lk(check, kind, traces):
    bad, stats = judge('DurusLockTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s %s' % (clause, pos, json.dumps(t['meta'])[:500], t['ev'][pos - 1]))
        check.violation('lk: %s [%s]' % (clause, t['meta']['profile']['kind']),
                        dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 15) // 16
    judge_lk(check, 'lk.' + name, run_jobs(
        [dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per) for i in range(16)]))


CFG = '''SPECIFICATION %s
CONSTANTS
  Procs = {%s}
  MaxFiles = %d
  MaxCommits = %d
  MaxKills = %d
'''
DECISIONS = ('KeepLock', 'Verify', 'Create')


def decisions(without=None):
    return ''.join('  %s = %s\n' % (d, 'FALSE' if d == without else 'TRUE') for d in DECISIONS)


def models(check):
    tail = 'INVARIANTS OneWriter Current Visible Free\nCHECK_DEADLOCK FALSE\n'
    check.model('DurusLock', model_check('DurusLock', CFG % ('Spec', '1, 2, 3', pick(3, 4), pick(2, 4), 1)
                                         + decisions() + tail))
    if pick(0, 1):
        for d in DECISIONS:
            r = tlc('DurusLock', CFG % ('Spec', '1, 2', 3, 3, 0) + decisions(d) + tail)
            if 'is violated' not in r['out']:
                raise Machinery('DurusLock does not need %s' % d)
            check.detail.setdefault('designs_refuted', []).append('without ' + d)


def generated_traces(check, n):
    """behaviours of DurusLock as schedules of real processes"""
    build()
    specs = []
    for k, (procs, length) in enumerate((('1, 2', 30), ('1, 2, 3', 40))):
        cfg = CFG % ('GSpec', procs, 5, 8, k) + decisions() + '  GenLen = %d\nCHECK_DEADLOCK FALSE\n' % length
        scripts = simulate('DurusLockGen', cfg, n, length + 3, SEED)[0]
        for i in range(8):
            specs.append(dict(profile=dict(kind=['fs', 'fs2'][i % 2]), seed='%s/gen' % SEED, scripts=scripts[i::8]))
    judge_lk(check, 'lk.generated', run_jobs(specs))
