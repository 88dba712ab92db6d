"""Engine F: BTrees (specs/DurusBTree*.tla, drivers/bt.py)."""
import json, os, random
from vlib.common import *

OPS = dict(SET=16, DEL=14, GET=1, GETD=1, IN=1, LEN=1, MIN=1, MAX=1, ITER=1, REV=1, FROM=1.5, BFROM=1.5, RANGE=4,
           SETDEF=1, POP=2, POPITEM=1, CLEAR=0.1, UPDATE=1, DEGREE=0.1, NOTE=0.5, BURST=1.5, COMMIT=3, ABORT=1,
           RELOAD=1, SHRINK=1, OLD=0.05)
BASE = dict(degree=[2, 2, 2, 4], keys=['int', 'int', 'str', 'float', 'tuple', 'bytes'], space=[8, 20, 60],
            cache=[1000, 1000, 3], steps=60, ops=OPS)
PROFILES = {
    'small': BASE,
    'tall': dict(BASE, degree=2, space=[30, 60, 120], steps=50, ops=dict(OPS, BURST=6)),
    'wide': dict(BASE, degree=[4, 8, 16, 16], space=[100, 200], steps=40, ops=dict(OPS, BURST=6)),
    'olds': dict(BASE, ops=dict(OPS, OLD=2, CLEAR=0.5, DEGREE=0.5)),
    'ranges': dict(BASE, ops=dict(SET=10, DEL=6, FROM=6, BFROM=6, RANGE=20, ITER=2, REV=2, MIN=1, MAX=1, BURST=2)),
    'saved': dict(BASE, space=[20, 60], ops=dict(SET=10, DEL=14, COMMIT=12, ABORT=5, RELOAD=5, SHRINK=4, BURST=2,
                                                 POP=2, POPITEM=1, UPDATE=1, CLEAR=0.3, DEGREE=0.3, NOTE=1, SETDEF=2)),
}


def models(check):
    cfg = 'SPECIFICATION Spec\nCONSTANTS\n  T = %d\n  Keys = %d\nINVARIANTS Contents Balanced\nCHECK_DEADLOCK FALSE\n'
    for t, keys in pick([(2, 10), (3, 12)], [(2, 12), (3, 14), (4, 15)]):
        check.model('DurusBTree T=%d Keys=%d' % (t, keys), model_check('DurusBTree', cfg % (t, keys)))


def run_jobs(specs, pure=False):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'btspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'btout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('bt', [sp, out], pure=spec.get('pure', 0), timeout=800)
        res = read_ndjson(out)
        os.unlink(out)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_bt(check, kind, traces):
    bad, stats = judge('DurusBTreeTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s %s' % (clause, pos, json.dumps(t['meta'])[:500], t['ev'][pos - 1]))
        check.violation('bt: %s [degree %d]' % (clause, t['meta']['profile']['degree']),
                        dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 15) // 16
    judge_bt(check, 'bt.' + name, run_jobs(
        [dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i * per, n=per, pure=i % 4 == 3)
         for i in range(16)]))


def generated_traces(check, t, keys, n=None):
    """every operation on every tree that can be reached with these keys (or on n of the trees)"""
    build()
    cfg = 'SPECIFICATION GSpec\nCONSTANTS\n  T = %d\n  Keys = %d\nINVARIANT Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n'
    r = tlc('DurusBTreeGen', cfg % (t, keys), workers=1)
    scripts = parse_gen(r['out'])
    if not scripts:
        raise Machinery('no tree was generated: ' + r['out'][-2000:])
    check.detail.setdefault('trees', {})['T=%d Keys=%d' % (t, keys)] = len(scripts)
    if n and n < len(scripts):
        scripts = random.Random(SEED).sample(scripts, n)
    judge_bt(check, 'bt.generated', run_jobs(
        [dict(profile=dict(degree=t), seed=SEED, scripts=scripts[i::16], top=keys, pure=i % 4 == 3)
         for i in range(16)]))
