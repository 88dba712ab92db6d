"""Engine K: server addresses (specs/DurusAddr*.tla, drivers/ad.py)."""
import json, os, random
from vlib.common import *

GEN = ('SPECIFICATION GSpec\nCONSTANTS\n  Addrs = {1, 2}\n  Servers = {1, 2, 3}\n  KindOf <- GKind\n  Len0 = %d\n'
       'INVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
MC = ('SPECIFICATION GSpec\nCONSTANTS\n  Addrs = {1, 2}\n  Servers = {1, 2, 3}\n  KindOf <- GKind\n  Len0 = %d\n'
      'INVARIANTS OnePlace OnlyUnixLeftovers\nPROPERTY NothingTaken\nCHECK_DEADLOCK FALSE\n')


def models(check):
    check.model('DurusAddr', model_check('DurusAddrGen', MC % pick(4, 5)))


def run_jobs(specs):
    def job(item):
        i, (spec, pure) = item
        sp = os.path.join(scratch(), 'adspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'adout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('ad', [sp, out], pure=pure, timeout=800)
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_ad(check, kind, traces):
    bad, stats = judge('DurusAddrTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s' % (clause, pos, t['meta']))
        check.violation('ad: ' + clause, dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, n, inherit=0):
    build()
    per = (n + 7) // 8
    judge_ad(check, 'ad.inherit' if inherit else 'ad.random',
             run_jobs([(dict(seed='%s/%d' % (SEED, inherit), first=i * per, n=per, inherit=inherit), i % 4 == 3) for i in range(8)]))


def generated_traces(check, length, n):
    build()
    r = tlc('DurusAddrGen', GEN % length, workers=1)
    got = parse_gen(r['out'])
    if not got:
        raise Machinery('DurusAddrGen: ' + r['out'][-2000:])
    check.detail['generated'] = len(got)
    got.sort(key=str)
    got = random.Random('ad/%s' % SEED).sample(got, min(n, len(got)))
    judge_ad(check, 'ad.generated', run_jobs([(dict(kinds=['unix', 'tcp'], seed='%s/g%d' % (SEED, i), scripts=got[i::8]), 0)
                                              for i in range(8)]))
