"""Engine I: Shelf (specs/DurusShelf*.tla, drivers/sh.py)."""
import json, os, random
from vlib.common import *

PROFILES = {
    'mixed': dict(kind='mixed', steps=25),
    'edge': dict(kind='edge', steps=14),
    'large': dict(kind='large', steps=8),
}
MODEL = 'CONSTANTS\n  Names = {%s}\n  Values = {%s}\n  MaxLog = %d\n  MaxGiven = %d\n  LookInLog = %s\n'
CHECK = 'SPECIFICATION Spec\nINVARIANTS Agree NoWaste\nPROPERTY Fresh\nCHECK_DEADLOCK FALSE\n'


def models(check):
    for size in [('0,1,2', '1', 1, 4), ('0,1', '1,2', 2, 3)] + pick([], [('0,1,2,3', '1', 2, 5), ('0,1,2', '1,2', 2, 4)]):
        check.model('DurusShelf %s/%s/%d/%d' % size, model_check('DurusShelf', CHECK + MODEL % (size + ('TRUE',))))
    r = tlc('DurusShelf', CHECK + MODEL % ('0,1', '1', 1, 3, 'FALSE'))
    if 'is violated' not in r['out']:
        raise Machinery('DurusShelf holds without LookInLog')
    check.model('DurusShelf without LookInLog (refuted)', r)


def run_jobs(specs):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'shspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'shout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('sh', [sp, out], timeout=800)
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_sh(check, kind, traces):
    bad, stats = judge('DurusShelfTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s' % (clause, pos, t['meta']))
        check.violation('sh: ' + clause, dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 7) // 8
    judge_sh(check, 'sh.' + name, run_jobs([dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per)
                                            for i in range(8)]))


def generated_traces(check, n):
    build()
    rnd = random.Random('sh/%s' % SEED)
    scripts = []
    for size in ('0,1,2', '1', 1, 5), ('0,1', '1', 2, 3):
        r = tlc('DurusShelfGen', 'SPECIFICATION GSpec\nINVARIANT Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n' +
                MODEL % (size + ('TRUE',)), workers=1)
        got = parse_gen(r['out'])
        if not got:
            raise Machinery('DurusShelfGen: ' + r['out'][-2000:])
        check.detail.setdefault('generated', {})[str(size)] = len(got)
        scripts += rnd.sample(got, min(n // 2, len(got)))
    judge_sh(check, 'sh.generated', run_jobs([dict(profile=dict(kind='gen'), seed='%s/g%d' % (SEED, i), scripts=scripts[i::8])
                                              for i in range(8)]))
