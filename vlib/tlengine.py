"""Engine K: tools (specs/DurusTools*.tla, drivers/tl.py)."""
import json, os, random
from vlib.common import *

PROFILES = {
    'tools': dict(kinds=['fs', 'fs', 'fs2', 'sqlite', 'net', 'mem'], steps=8,
                  ops=dict(copy=3, renum=4, pack=3, use=3, rename=3, detect=3, degree=3, look=2)),
    'long': dict(kinds=['fs', 'fs2', 'sqlite'], steps=8, long=0.4, n=[3, 6, 12],
                 ops=dict(copy=2, renum=3, pack=2, use=2, rename=6, degree=2, look=6)),
    'wide': dict(kinds=['fs', 'fs2', 'sqlite', 'net'], steps=5, n=[110, 210, 330],
                 ops=dict(copy=3, renum=3, pack=3, use=3, rename=2, degree=2, look=4)),
    'look': dict(kinds=['fs', 'fs2', 'sqlite', 'net', 'mem'], steps=24, ops=dict(look=12, use=1, pack=0.5)),
    'look_wide': dict(kinds=['fs', 'fs2', 'sqlite', 'net', 'mem'], steps=16, n=[110, 210, 330], long=0.02,
                      ops=dict(look=12, use=1, pack=0.5)),
    'processes': dict(kinds=['fs', 'fs', 'fs2', 'sqlite'], steps=4, ops=dict(client=3, serve=2, conv=4, pack=1)),
}
CFG = 'SPECIFICATION %s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Ids = {%s}\n  Classes = {%s}\n' \
      '  MarkRoot = %s\n  TouchAll = %s\n  NextAfterMax = %s\n  Jobs = {%s}\n'
GOOD = 'RenumberOk RenameOk CopyOk LookOk'
ALLJOBS = '"renumber", "rename", "copy"'


def models(check):
    for ids, classes in [('0, 1, 3', '"A"'), ('0, 1', '"A", "B"')] + pick([], [('0, 1, 3', '"A", "B"')]):
        check.model('DurusTools %s / %s' % (ids, classes),
                    model_check('DurusTools', CFG % ('Spec', GOOD, ids, classes, 'TRUE', 'TRUE', 'TRUE', ALLJOBS)))
    for ids, a, b, c, inv in (('0, 1', 'FALSE', 'TRUE', 'TRUE', 'RenumberOk'), ('0, 1', 'TRUE', 'FALSE', 'TRUE', 'RenameOk'),
                              ('0, 3', 'TRUE', 'TRUE', 'FALSE', 'CopyOk')):
        r = tlc('DurusTools', CFG % ('Spec', GOOD, ids, '"A", "B"', a, b, c, ALLJOBS))
        if 'Invariant %s is violated' % inv not in r['out']:
            raise Machinery('a weakened DurusTools was not refuted: ' + inv)
        check.model('DurusTools weakened (refuted by %s)' % inv, r)


def run_jobs(specs):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'tlspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'tlout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('tl', [sp, out], timeout=800)
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_tl(check, kind, traces):
    bad, stats = judge('DurusToolsTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s' % (clause, pos, t['meta']))
        check.violation('tl: ' + clause, dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 7) // 8
    judge_tl(check, 'tl.' + name, run_jobs([dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per)
                                            for i in range(8)]))


def generated_traces(check, n, name):
    """every small database, and tools on it"""
    build()
    rnd = random.Random('tl/%s' % SEED)
    got = []
    for ids, classes in (('0, 1, 3', '"A"'), ('0, 1', '"A", "B"')) + pick((), (('0, 1, 3', '"A", "B"'),)):
        r = tlc('DurusToolsGen', CFG % ('GSpec', 'Emit', ids, classes, 'TRUE', 'TRUE', 'TRUE', '"copy"'), workers=1)
        new = parse_gen(r['out'])
        if not new:
            raise Machinery('DurusToolsGen: ' + r['out'][-2000:])
        got += new
    check.detail.setdefault('generated', {})[name] = len(got)
    def rows(g):
        q = g['rows']
        return q if isinstance(q, list) else [q[k] for k in sorted(q, key=int)]
    scripts = [rows(g) for g in rnd.sample(got, min(n, len(got)))]
    judge_tl(check, 'tl.generated.' + name, run_jobs([dict(profile=dict(PROFILES[name], steps=4), seed='%s/g%d' % (SEED, i),
                                                           scripts=scripts[i::8]) for i in range(8)]))
