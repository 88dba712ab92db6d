"""Engine C: the storage server and its protocol (specs/DurusServer*.tla, drivers/sv.py)."""
import json, os
from vlib.common import *

CONST = 'CONSTANT Clients <- TClients\n'
KINDS = ['fs', 'fs2', 'sqlite']
BASE = dict(kind=KINDS, net=['unix', 'unix', 'tcp', 'abstract'], chop=[0, 1], objects=[3, 5], steps=40,
            rawp=[0.5, 1])
PROFILES = {
    'faults': dict(BASE, ops=dict(SY=4, AL=4, LD=6, BL=1, CM=6, BC=8, BR=5, J=4, X=1, P=0.3, PS=2)),
    'packs': dict(BASE, gcbytes=[0, 1, 300, 1500, 6000, 10**7], sizes=[0, 10, 100, 700],
                  ops=dict(SY=3, AL=3, LD=5, BL=1, CM=12, J=2, X=1, P=1, PS=5, BC=0.4)),
    'net': dict(BASE, chop=1, sizes=[0, 1, 20, 300, 5000, 70000], batch=300, steps=30,
                ops=dict(SY=4, AL=4, LD=6, BL=5, CM=8, J=2, X=1, P=0.2, PS=1)),
    'big': dict(BASE, chop=[0, 1], sizes=[0, 100, 1100000, 2500000], batch=6, steps=14, objects=3,
                ops=dict(SY=2, AL=1, LD=4, BL=2, CM=5, J=1, P=0.2, PS=1)),
    'stall': dict(BASE, stall=1, steps=16, chop=0, ops=dict(SY=3, AL=1, LD=2, CM=4, ST=4, J=3)),
}


def run_jobs(specs):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'svspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'svout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('sv', [sp, out])
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_sv(check, kind, traces):
    bad, stats = judge('DurusServerTrace', traces, CONST)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s' % (clause, pos, json.dumps(t['meta'])[:500]))
        check.violation('sv: %s [%s]' % (clause, t['meta']['profile']['kind']),
                        dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def models(check):
    text = open(os.path.join(VERIF, 'specs', 'DurusServerMC.cfg')).read()
    if THOROUGH:
        text = text.replace('MaxCommits = 2', 'MaxCommits = 3')
    check.model('DurusServerMC', model_check('DurusServerMC', text))


def random_traces(check, name, n):
    build()
    per = (n + 15) // 16
    judge_sv(check, 'sv.' + name, run_jobs(
        [dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per) for i in range(16)]))


def cuts(check):
    build()
    prof = dict(PROFILES['faults'], chop=0, objects=3, rawp=1)
    judge_sv(check, 'sv.cuts', run_jobs(
        [dict(profile=dict(prof, kind=k, net=net), cuts=i)
         for i, (k, net) in enumerate([('fs', 'unix'), ('fs2', 'tcp'), ('sqlite', 'unix'), ('fs', 'tcp')])]))
