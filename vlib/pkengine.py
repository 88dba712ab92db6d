"""Engine B: packs of a single storage (specs/DurusPack*.tla, drivers/pk.py)."""
import json, os, random
from vlib.common import *

BASE = dict(kind=['fs', 'fs2', 'sqlite'], inc=[1, 1, 2, 5], objects=[3, 5, 8], steps=50)
PROFILES = {
    'pack': dict(BASE, ops=dict(ST=10, LD=2, NEW=1, PB=4, P2=0.5, PS=14, PF=0.5, SY=1, RO=0.5, GR=0.7, SF=0.4)),
    'busy': dict(BASE, inc=1, objects=[5, 8, 12], ops=dict(ST=8, PB=4, PS=20, PF=0.2, SY=0.5, NEW=0.5, SF=0.3)),
    'plain': dict(BASE, steps=40, ops=dict(ST=10, LD=3, NEW=3, SY=1, RO=2, GR=2, SF=1, PB=0.5, PF=3)),
    'sparse': dict(BASE, kind=['fs', 'fs2', 'fs2', 'sqlite'], steps=50, ops=dict(ST=10, NEW=8, PB=1, PF=4, RO=2, SY=1, LD=1, SF=0.4)),
    'large': dict(BASE, inc=[1, 20, 20, 100, 100], objects=[70, 130], steps=20, ops=dict(ST=3, SM=5, PB=4, PS=7, PF=1, RO=1, GR=0.5, LD=2, NEW=1, SY=0.5)),
    'graphs': dict(BASE, objects=[1, 2, 5, 9, 14], ops=dict(ST=6, GR=8, PB=0.5, PF=2, RO=0.4)),
}
PACK_CFG = '''SPECIFICATION Spec
CONSTANTS
  Alg = "%s"
  MaxOid = %d
  MaxCommits = %d
  Weak = "%s"
INVARIANTS GarbageGone Reports NoDangling
PROPERTIES KeepsReachable
CHECK_DEADLOCK FALSE
'''
GEN_CFG = '''SPECIFICATION GSpec
CONSTANTS
  Alg = "%s"
  MaxOid = %d
  MaxCommits = %d
  Weak = "%s"
  GenLen = %d
CHECK_DEADLOCK FALSE
'''
ALG = dict(fs='shelf', fs2='copy', sqlite='mark')


def models(check, kinds=('fs', 'fs2', 'sqlite')):
    for k in kinds:
        r = model_check('DurusPack', PACK_CFG % (ALG[k], 2, pick(2, 3), ''))
        check.model('DurusPack/' + ALG[k], r)


def run_jobs(specs):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'pkspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'pkout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('pk', [sp, out])
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_pk(check, kind, traces):
    bad, stats = judge('DurusPackTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s' % (clause, pos, json.dumps(t['meta'])[:500]))
        check.violation('pk: %s [%s]' % (clause, t['meta']['profile']['kind']),
                        dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 15) // 16
    judge_pk(check, 'pk.' + name, run_jobs(
        [dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per) for i in range(16)]))


def generated_traces(check, n, kinds=('fs', 'fs2', 'sqlite')):
    """behaviours of each algorithm's model, run on the storage that uses it"""
    build()
    def gen(item):
        k, (maxoid, commits, length) = item
        s, r = simulate('DurusPackGen', GEN_CFG % (ALG[k], maxoid, commits, '', length), n, length + 3, SEED)
        return k, s
    specs = []
    for k, s in parallel([(lambda it=it: gen(it)) for it in
                          [(k, dims) for k in kinds for dims in ((2, 2, 12), (3, 3, 16))]]):
        for j in range(3):
            specs.append(dict(profile=dict(kind=k, inc=1), scripts=s[j::3]))
    judge_pk(check, 'pk.generated', run_jobs(specs))


def critical_traces(check, n, kinds=('fs', 'fs2', 'sqlite')):
    """behaviours in which a weakened algorithm loses something: one for each way to lose it, run on
    the storage that uses the algorithm (n for each)"""
    build()
    rnd = random.Random('pk/%s' % SEED)
    def gen(item):
        k, weak = item
        r = tlc('DurusPackGen', GEN_CFG % (ALG[k], 2, 2, weak, 20) + 'INVARIANT EmitLost\nVIEW View\n', workers=1)
        s = parse_gen(r['out'])
        if not s:
            raise Machinery('DurusPackGen: no way to lose something with ' + weak + r['out'][-1000:])
        check.model('DurusPack/%s weakened: %s (refuted)' % (ALG[k], weak), r)
        return k, s
    specs = []
    for k, s in parallel([(lambda it=it: gen(it)) for it in
                          [(k, w) for k in kinds for w in pick(['seen', 'refs'], ['none', 'seen', 'fresh', 'refs'])]]):
        s = sorted(s, key=str)
        s = rnd.sample(s, min(n, len(s)))
        for j in range(3):
            specs.append(dict(profile=dict(kind=k, inc=1, shift=1), scripts=s[j::3]))
    judge_pk(check, 'pk.critical', run_jobs(specs))
