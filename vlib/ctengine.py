"""Engine G: persistent containers (specs/DurusCont*.tla, drivers/ct.py)."""
import json, os, random
from vlib.common import *

_all = {}

def generated(check, maxlen, bound):
    """contents and operations, from the specification"""
    if (maxlen, bound) not in _all:
        r = tlc('DurusContGen', 'SPECIFICATION GSpec\nCONSTANTS\n  MaxLen = %d\n  Bound = %d\n'
                'INVARIANTS Total Laws Emit\nCHECK_DEADLOCK FALSE\n' % (maxlen, bound), workers=1)
        if r['rc'] or 'No error has been found' not in r['out']:
            raise Machinery('DurusContGen: ' + r['out'][-3000:])
        check.model('DurusContGen MaxLen=%d' % maxlen, r)
        ops, contents = {}, {}
        for g in parse_gen(r['out']):
            if g[0] == 'ops':
                ops[g[1]] = sorted(g[2], key=lambda x: json.dumps(x, sort_keys=True))
            else:
                contents.setdefault(g[1], []).append(g[2])
        _all[maxlen, bound] = ops, contents
    return _all[maxlen, bound]


def run_jobs(specs):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'ctspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'ctout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('ct', [sp, out], pure=spec.get('pure', 0), timeout=800)
        res = read_ndjson(out)
        os.unlink(out)
        os.unlink(sp)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_ct(check, kind, traces):
    bad, stats = judge('DurusContTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s %s' % (clause, pos, t['meta'], t['ev'][pos - 1]))
        start = max([0] + [j for j in range(pos) if t['ev'][j]['op'] == 'INIT'])
        check.violation('ct: ' + clause, dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][start:pos]))


def exhaustive_traces(check, n):
    """n operations on contents drawn from all small contents and all operations"""
    build()
    ops, contents = generated(check, 3, 4)
    rnd = random.Random('ct/%s' % SEED)
    jobs = []
    for kind in sorted(ops):
        groups = {}
        for e in ops[kind]:
            groups.setdefault((e['op'], e['how'], e['f']), []).append(e)
        pairs = {}
        for key in sorted(groups):
            cases = [(ci, e) for ci in range(len(contents[kind])) for e in groups[key]]
            share = max(8, n // (3 * len(groups)))
            for ci, e in rnd.sample(cases, min(share, len(cases))):
                pairs.setdefault(ci, []).append(e)
        for ci in sorted(pairs):
            es = pairs[ci]
            for part in range(0, len(es), 60):
                jobs.append((kind, [[contents[kind][ci], es[part:part + 60]]]))
    rnd.shuffle(jobs)
    judge_ct(check, 'ct.exhaustive', run_jobs(
        [dict(jobs=jobs[i::16], seed='%s/x%d' % (SEED, i), pure=i % 3 == 2) for i in range(16)]))


def random_traces(check, n, steps=40):
    build()
    ops, contents = generated(check, 3, 4)
    per = (n + 17) // 18
    judge_ct(check, 'ct.random', run_jobs(
        [dict(kind=kind, ops=ops[kind], seed='%s/r' % SEED, first=i * per, n=per, steps=steps, pure=i % 3 == 2)
         for kind in sorted(ops) for i in range(6)]))
