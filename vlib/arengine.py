"""Engine J: arrays (specs/DurusArrays*.tla, drivers/ar.py)."""
import json, os, random
from vlib.common import *

KINDS = ['bytes', 'bits', 'words', 'ints', 'set', 'byte']
PROFILES = {
    'small': dict(kinds=KINDS, large=0, steps=40),
    'large': dict(kinds=['bytes', 'bytes', 'bytes', 'bits', 'words', 'ints', 'set'], large=1, steps=8),
}


def run_jobs(specs):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'arspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'arout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('ar', [sp, out], timeout=800)
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_ar(check, kind, traces):
    bad, stats = judge('DurusArraysTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s' % (clause, pos, t['meta']))
        check.violation('ar: ' + clause, dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 7) // 8
    judge_ar(check, 'ar.' + name, run_jobs([dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per)
                                            for i in range(8)]))


def generated_traces(check, maxlen, depth, n):
    """the model is checked, and every operation on every small array is replayed"""
    build()
    rnd = random.Random('ar/%s' % SEED)
    r = tlc('DurusArraysGen', 'CONSTANTS\n  MaxLen = %d\n  Depth = %d\nSPECIFICATION GSpec\nINVARIANTS Total NoBlank Emit\nVIEW View\n'
            'CHECK_DEADLOCK FALSE\n' % (maxlen, depth), workers=1)
    if 'No error has been found' not in r['out']:
        raise Machinery('DurusArraysGen: ' + r['out'][-3000:])
    check.model('DurusArraysGen %d/%d' % (maxlen, depth), r)
    got = parse_gen(r['out'])
    check.detail.setdefault('generated', {})['%d/%d' % (maxlen, depth)] = len(got)
    scripts = rnd.sample(got, min(n, len(got)))
    judge_ar(check, 'ar.generated', run_jobs([dict(seed='%s/g%d' % (SEED, i), scripts=scripts[i::8]) for i in range(8)]))
