"""Engine H: the life of persistent objects (specs/DurusLife*.tla, drivers/lf.py)."""
import json, os, random
from vlib.common import *

KLASSES = ['Dict', 'Object', 'Slots', 'Both', 'Child', 'Open', 'One', 'Private', '_Hidden', 'Deep', 'Deepest', 'Tall', 'Answers', 'AnswersSlots']
OPS = dict(NEW=3, GET=8, HAS=2, CALL=1, KLASS=1, STATE=2, COPY=1, SET=10, LINK=6, DEL=4, NOTE=1, SAFE=3, OTHER=3, COMMIT=7,
           COMMITERR=2, ABORT=4, SHRINK=4)
PROFILES = {
    'mixed': dict(klass=KLASSES, cache=[1, 2, 1000], steps=50, ops=OPS),
    'names': dict(klass=['Dict', 'Object'], cache=[1, 1000], steps=50,
                  ops=dict(OPS, GET=16, HAS=6, SET=12, DEL=10, COMMIT=10, ABORT=8, SHRINK=8, OTHER=1, COPY=0.3, COMMITERR=0.5)),
}
MODEL = '''CONSTANTS
  Objs = {%s}
  Attrs = {%s}
  Values = {%s}
  MarkBack = %s
  Loads = %s
'''
CHECK = 'SPECIFICATION Spec\nINVARIANTS Ghosts Current Changed Exists\nPROPERTIES Kept Stores Whole\nCHECK_DEADLOCK FALSE\n'
SIZES = [('1,2', '1', '1,2'), ('1', '1,2', '1,2')]


def models(check):
    for size in SIZES + pick([], [('1,2', '1,2', '1,2')]):
        check.model('DurusLife %s/%s/%s' % size, model_check('DurusLife', CHECK + MODEL % (size + ('TRUE', 'TRUE'))))
    for decision, what in (('FALSE', 'TRUE'), 'MarkBack'), (('TRUE', 'FALSE'), 'Loads'):
        r = tlc('DurusLife', CHECK + MODEL % (SIZES[1] + decision))
        if 'is violated' not in r['out']:
            raise Machinery('DurusLife holds without ' + what)
        check.model('DurusLife without %s (refuted)' % what, r)


def run_jobs(specs):
    def job(item):
        i, spec = item
        sp = os.path.join(scratch(), 'lfspec%d_%d.json' % (id(specs), i))
        out = os.path.join(scratch(), 'lfout%d_%d.ndjson' % (id(specs), i))
        with open(sp, 'w') as f:
            json.dump(spec, f)
        run_driver('lf', [sp, out], pure=spec.get('pure', 0), timeout=800)
        res = read_ndjson(out)
        os.unlink(out)
        for t in res:
            t['meta']['pure'] = spec.get('pure', 0)
        return res
    return sum(parallel([(lambda it=it: job(it)) for it in enumerate(specs)]), [])


def judge_lf(check, kind, traces):
    bad, stats = judge('DurusLifeTrace', traces)
    check.traces(kind, traces, stats)
    for i, pos, clause in bad:
        t = traces[i]
        if clause.startswith('driver: '):
            raise Machinery('%s at %d: %s %s' % (clause, pos, t['meta'], t['ev'][pos - 1]))
        check.violation('lf: %s [%s, %s]' % (clause, t['meta']['profile']['klass'], 'Python' if t['meta']['pure'] else 'C'),
                        dict(meta=t['meta'], position=pos, clause=clause, ev=t['ev'][:pos]))


def random_traces(check, name, n):
    build()
    per = (n + 15) // 16
    judge_lf(check, 'lf.' + name, run_jobs(
        [dict(profile=PROFILES[name], seed='%s/%s' % (SEED, name), first=i // 2 * per, n=per, pure=i % 2) for i in range(16)]))


def generated_traces(check, n):
    """paths to all states of the design and every action from there (n of them), with both implementations"""
    build()
    rnd = random.Random('lf/%s' % SEED)
    scripts = []
    for size in SIZES:
        r = tlc('DurusLifeGen', 'SPECIFICATION GSpec\nINVARIANT Emit\nVIEW View\nCHECK_DEADLOCK FALSE\n' +
                MODEL % (size + ('TRUE', 'TRUE')), workers=1)
        got = parse_gen(r['out'])
        if not got:
            raise Machinery('DurusLifeGen: ' + r['out'][-2000:])
        check.detail.setdefault('generated', {})['/'.join(size)] = len(got)
        scripts += rnd.sample(got, min(n // 2, len(got)))
    prof = dict(klass=KLASSES, cache=[1, 1000], ops=OPS)
    judge_lf(check, 'lf.generated', run_jobs(
        [dict(profile=prof, seed='%s/g%d' % (SEED, i // 2), scripts=scripts[i // 2::8], pure=i % 2) for i in range(16)]))
