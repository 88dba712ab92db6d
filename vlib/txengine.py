"""Engine A: transactions (specs/DurusTx*.tla, drivers/tx.py)."""
import json, os, random
from vlib.common import *

CONST = 'CONSTANT Clients <- TClients\n'

BASE = dict(kind=['fs', 'fs2', 'sqlite'], clients=[2, 3], objects=[2, 3, 5], cache=[1, 2, 5, 1000],
            pool=[1, 3, 32], steps=60, inject=0.2, reopen_end=0.2)
OPS = dict(R=10, W=8, link=3, N=1, NL=3, NW=1, RN=1, C=8, A=2, RI=1, drop=2, ID=1,
           P=0.3, PS=2, KD=0.3, J=0.5, X=0.1, RO=0.1, CNT=0.1, bad=0.2, KN=0.5, shr=1)


def profile(ops=None, only=None, **kw):
    o = dict(OPS) if only is None else dict(only)
    o.update(ops or {})
    p = dict(BASE, ops=o)
    p.update(kw)
    return p

CORE = dict(R=10, W=8, C=8, A=2, RI=2, drop=2, ID=0.5, shr=1.5)

PROFILES = {
    # name: (profile, pure Python classes as well)
    'mixed': profile(),
    'own': profile(server=0, clients=1, ops=dict(RI=0, P=1, RO=0.5, CNT=0.5, X=0)),
    'reads': profile(only=dict(CORE, R=14, RI=4, GET=1, KN=1, link=1, drop=4), inject=0.4,
                     cache=[1, 2, 1000], objects=[2, 3, 4]),
    'conflict': profile(only=dict(CORE, W=10, C=10, RI=3), inject=0.4, cache=[1, 1, 2, 1000], objects=[2, 3, 5], clients=[2, 3, 4]),
    'fresh': profile(only=dict(CORE, A=6, C=10, drop=4, J=1, X=0.5, NL=2), inject=0.3),
    'abort': profile(only=dict(CORE, A=8, NL=4, NW=2, link=4, bad=1, RN=2), inject=0.3, fail=0.1),
    'disjoint': profile(only=dict(CORE, R=6, W=6, C=10, drop=3), objects=[6, 8], cache=[1, 1000]),
    'failures': profile(only=dict(CORE, bad=4, NL=6, N=2, NW=2, C=14, W=6, A=2, P=0.3, PS=2, RO=0.3),
                        fail=0.3),
    'failures_own': profile(only=dict(R=5, W=6, bad=4, NL=6, N=2, NW=2, C=14, A=2, P=0.5, RO=0.4),
                            fail=0.3, server=0, clients=1),
    'graph': profile(only=dict(R=6, W=3, link=8, N=5, NL=8, NW=5, RN=2, C=10, A=1, drop=2, KD=0.5,
                               RO=0.2, bad=0.5), steps=80, fat=[0, 0, 9000, 30000]),
    'oids': profile(only=dict(R=4, W=2, N=3, NL=14, C=10, A=2, P=1.5, PS=4, RO=0.5, J=1, X=0.4,
                              bad=1, link=4, drop=2), pool=[1, 2, 3], inject=0.2, fail=0.1, steps=100,
                    clients=[2, 3], ps=[1, 3, 10, 1000, 1000], kind=['fs', 'fs', 'fs2', 'sqlite']),
    'reuse': profile(only=dict(R=10, W=1, NL=5, link=8, C=12, A=6, P=4, PS=6, J=0.5, bad=0.3, GET=0.5, CNT=0.5, KD=3),
                     pool=[1, 1, 2], steps=120, objects=[2, 4, 6], keep=[0.3, 0.8], clients=[2, 2, 3], ps=[100, 1000, 1000], kind=['fs']),
    'cache': profile(only=dict(R=14, W=6, C=6, A=3, drop=8, ID=3, CNT=0.6, GET=1, link=2, NL=1, size=1,
                               KN=1, shr=3), cache=[1, 2, 3], objects=[4, 6], keep=[0.1, 0.7, 1.0]),
    'computed': profile(only=dict(CG=14, W=6, C=8, A=3, R=4, drop=3, RI=1), ca=1, objects=[2, 3],
                        cache=[1, 2, 1000], inject=0.3),
    'pack': profile(only=dict(R=6, W=5, link=7, N=1, NL=4, C=10, A=2, P=3, PS=8, RO=0.5, drop=2, RI=0.5,
                              bad=0.7),
                    fail=0.1, steps=90, objects=[3, 5], cache=[1, 2, 1000], inject=0.1),
    'pack_own': profile(only=dict(R=6, W=5, link=7, NL=4, C=10, A=2, P=3, RO=0.5, drop=2, bad=0.7), server=0,
                        clients=1, fail=0.1, steps=70),
    'reopen': profile(only=dict(R=5, W=6, link=3, NL=3, C=8, A=1, RO=2, P=0.7, PS=2, bad=0.5), fail=0.1),
    'crawl': profile(only=dict(R=4, W=6, C=8, A=4, KN=16, KD=3, drop=3, link=3, NL=2, P=0.3, PS=1),
                     objects=[4, 6], cache=[1, 2, 1000], inject=0.2, steps=70),
    'big': profile(only=dict(BW=8, BR=6, BN=1.5, C=12, A=5, KD=4, P=0.7, PS=3, drop=0.5, R=3, W=2, link=2, CNT=0.2, shr=0.3, RO=0.2),
                   objects=[270, 400], cache=[50, 1000, 1000], pool=[32], keep=[1.0, 1.0, 0.5], steps=30,
                   ps=[1, 5, 60, 1000], clients=[2], inject=0.1, fail=0.05),
    'leave': profile(only=dict(R=6, W=7, NL=3, C=9, A=2, X=2, J=4, drop=2), clients=[3, 4]),
}


def run_jobs(spec_list):
    """spec_list: [(spec, pure)]; returns the traces"""
    def job(item):
        i, (spec, pure) = item
        sp = os.path.join(scratch(), 'txspec%d_%d.json' % (id(spec_list), i))
        out = os.path.join(scratch(), 'txout%d_%d.ndjson' % (id(spec_list), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('tx', [sp, out], pure=pure)
        res = read_ndjson(out)
        for t in res:
            t['meta']['pure'] = pure
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(spec_list)]), [])


def judge_tx(check, kind, traces):
    bad, stats = judge('DurusTxTrace', traces, CONST)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s\n%s' % (clause, pos, json.dumps(t['meta'])[:500],
                                                  json.dumps(t['ev'][max(0, pos - 6):pos])))
        prof = t['meta'].get('profile', {})
        check.violation('tx: %s [%s%s%s]' % (clause, prof.get('kind'),
                                             ' own' if not prof.get('server', 1) else '',
                                             ' pure' if t['meta'].get('pure') else ''),
                        dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    prof = PROFILES[name]
    per = (n + 15) // 16
    specs = []
    for i in range(16):
        specs.append((dict(profile=prof, seed='%s/%s' % (SEED, name), first=i * per, n=per), i % 2 == 1))
    judge_tx(check, 'tx.' + name, run_jobs(specs))


GEN_CFG = '''SPECIFICATION GSpec
CONSTANTS
  Clients = {1, 2}
  MaxCommits = %d
  MaxOid = %d
  MaxStamp = %d
  WithNew = %s
  WithPack = %s
  GenLen = %d
  GenMode = "%s"
CHECK_DEADLOCK FALSE
'''


def generated_traces(check, n_short=4, sample=None, n_random=300, kinds=('fs', 'fs2', 'sqlite')):
    """behaviours of the model: every short one, and random long ones"""
    build()
    prof = dict(kind=list(kinds), clients=2, cache=[1, 1000], pool=[1, 32], keep=[0.3, 1.0])
    r = tlc('DurusTxGen', GEN_CFG % (6, 1, 30, 'FALSE', 'FALSE', n_short, 'all') + 'VIEW OpsOnly\n')
    short = parse_gen(r['out'])
    if not short:
        raise Machinery('DurusTxGen generated nothing: ' + r['out'][-2000:])
    check.model('DurusTxGen (all behaviours of length %d)' % n_short, r)
    short.sort(key=str)
    if sample is not None and len(short) > sample:
        short = random.Random(SEED).sample(short, sample)
    long, r2 = simulate('DurusTxGen', GEN_CFG % (6, 2, 30, 'TRUE', 'TRUE', 16, 'random'),
                        n_random, 20, SEED)
    scripts = short + long
    rnd = random.Random(SEED)
    rnd.shuffle(scripts)
    k = 16
    specs = [(dict(profile=prof, scripts=scripts[i::k]), i % 2 == 1) for i in range(k)]
    traces = run_jobs(specs)
    judge_tx(check, 'tx.generated', traces)


def models(check, which=(1, 2)):
    for w in which:
        cfg = {1: 'DurusTxMC', 2: 'DurusTxMC2', 3: 'DurusTxMC3'}[w] + '.cfg'
        text = open(os.path.join(VERIF, 'specs', cfg)).read()
        if THOROUGH:
            text = text.replace('MaxStamp = 5', 'MaxStamp = 6').replace('MaxStamp = 4', 'MaxStamp = 5')
        check.model('DurusTxMC/' + cfg, model_check('DurusTxMC', text))
