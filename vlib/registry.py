"""What the check of each property consists of."""
from vlib.common import *
from vlib import txengine as tx
from vlib import pkengine as pk
from vlib import svengine as sv
from vlib import crengine as cr
from vlib import lkengine as lk
from vlib import btengine as bt
from vlib import ctengine as ct
from vlib import lfengine as lf
from vlib import shengine as sh
from vlib import arengine as ar
from vlib import tlengine as tl
from vlib import adengine as ad


def n(quick, thorough=None):
    return pick(quick, thorough or quick * 12)


def tx_check(*names, **kw):
    def run(check):
        tx.models(check, kw.get('models', (1,)))
        if kw.get('gen', 1):
            tx.generated_traces(check, n_short=pick(4, 5), sample=pick(kw.get('short', 1200), 30000),
                                n_random=n(150))
        for name in names:
            tx.random_traces(check, name, n(kw.get('num', 400)))
        if kw.get('big'):
            tx.random_traces(check, 'big', n(kw['big']))
    return run


def pk_check(*names, **kw):
    def run(check):
        if kw.get('models', 1):
            pk.models(check)
        if kw.get('gen', 1):
            pk.generated_traces(check, n(150))
        if kw.get('critical'):
            pk.critical_traces(check, n(kw['critical']))
        for name in names:
            pk.random_traces(check, name, n(kw.get('num', 400)))
        for name in kw.get('tx', ()):
            tx.random_traces(check, name, n(kw.get('txnum', 300)))
        if kw.get('large'):
            pk.random_traces(check, 'large', n(kw['large']))
        if kw.get('big'):
            tx.random_traces(check, 'big', n(kw['big']))
    return run


def sv_check(*names, **kw):
    def run(check):
        sv.models(check)
        if kw.get('cuts'):
            sv.cuts(check)
        for name, num in names:
            sv.random_traces(check, name, n(num))
        for name, num in kw.get('tx', ()):
            tx.random_traces(check, name, n(num))
    return run


def cr_check(*names, **kw):
    def run(check):
        cr.models(check)
        if kw.get('gen'):
            cr.generated_traces(check, n(kw['gen']))
        for name, num in names:
            cr.random_traces(check, name, n(num))
    return run


def c18(check):
    lk.models(check)
    lk.generated_traces(check, n(200))
    for name in ('locks', 'packs', 'readers'):
        lk.random_traces(check, name, n(480))
    lk.random_traces(check, 'large', n(160))
    cr.random_traces(check, 'readers', n(64))


def bt_check(*names, **kw):
    def run(check):
        bt.models(check)
        bt.generated_traces(check, 2, pick(kw['keys'], kw['keys'] + 1))
        bt.generated_traces(check, 4, 10, pick(300, None))
        if THOROUGH:
            bt.generated_traces(check, 4, 12)
            bt.generated_traces(check, 8, 17, 5000)
        for name, num in names:
            bt.random_traces(check, name, n(num))
    return run


def c21(check):
    ct.exhaustive_traces(check, pick(15000, 300000))
    ct.random_traces(check, n(360))


def c22(check):
    lf.models(check)
    lf.generated_traces(check, n(4000))
    lf.random_traces(check, 'mixed', n(1600))
    lf.random_traces(check, 'names', n(1200))


def c26(check):
    sh.models(check)
    sh.generated_traces(check, n(1600))
    sh.random_traces(check, 'mixed', n(400))
    sh.random_traces(check, 'edge', n(400))
    sh.random_traces(check, 'large', n(80))


def c27(check):
    ar.generated_traces(check, 2, 2, pick(20000, 100000))
    if THOROUGH:
        ar.generated_traces(check, 3, 2, 300000)
    ar.random_traces(check, 'small', n(1600))
    ar.random_traces(check, 'large', n(160))


def c25(check):
    pk_check('graphs', models=0, gen=0, tx=('crawl',), txnum=600)(check)
    tl.generated_traces(check, n(400), 'look')
    tl.random_traces(check, 'look', n(480))
    tl.random_traces(check, 'look_wide', n(32))


def c28(check):
    tl.models(check)
    tl.generated_traces(check, n(800), 'tools')
    tl.random_traces(check, 'tools', n(800))
    tl.random_traces(check, 'long', n(160))
    tl.random_traces(check, 'wide', n(48))
    tl.random_traces(check, 'processes', n(80))


def c29(check):
    ad.models(check)
    ad.generated_traces(check, pick(4, 5), n(400))
    ad.random_traces(check, n(400))
    ad.random_traces(check, n(48), 1)


PROPS = {
    'C01': tx_check('reads', 'mixed', big=48),
    'C02': tx_check('conflict', 'mixed', big=48),
    'C03': tx_check('fresh', 'leave', big=48),
    'C04': tx_check('abort', 'mixed'),
    'C05': tx_check('disjoint', 'conflict'),
    'C06': tx_check('failures', 'failures_own', gen=0),
    'C07': tx_check('graph', 'own', models=(2,), big=48),
    'C08': tx_check('oids', 'reuse', 'mixed', models=(2,), big=48),
    'C09': tx_check('cache', 'own', big=48),
    'C10': tx_check('computed', gen=0, num=800),
    'C11': pk_check('pack', 'busy', critical=200, large=64, tx=('pack', 'pack_own'), big=48),
    'C12': pk_check('pack', 'busy', critical=100, large=64, tx=('pack', 'pack_own'), big=48),
    'C13': sv_check(('packs', 320), tx=(('pack', 200),)),
    'C23': sv_check(('faults', 400), ('stall', 16), cuts=1),
    'C24': sv_check(('net', 240), ('big', 48), ('faults', 60), tx=(('mixed', 150), ('own', 100), ('big', 64))),
    'C14': pk_check('plain', 'sparse', models=0, large=64, tx=('reopen', 'own'), big=32),
    'C15': cr_check(('commits', 480), gen=90),
    'C16': cr_check(('packs', 480), gen=90),
    'C17': cr_check(('cuts', 240), ('readers', 320)),
    'C18': c18,
    'C19': bt_check(('small', 240), ('tall', 40), ('wide', 60), ('olds', 120), ('ranges', 240), keys=7),
    'C20': bt_check(('saved', 240), ('tall', 80), ('wide', 80), ('olds', 160), keys=8),
    'C21': c21,
    'C22': c22,
    'C26': c26,
    'C27': c27,
    'C25': c25,
    'C28': c28,
    'C29': c29,
}


def run(prop, check):
    PROPS[prop](check)


TECHNIQUE = 'TLA+ specification model-checked with TLC; traces of the real code judged by it'
TECH = {}
NOTES = {}
_TX = ('DurusTx is checked exhaustively for small constants; behaviours generated from it and '
       'random ones are run on the real connections, server and storages, and every recorded '
       'event is judged by DurusTxTrace. Bounded by the sampled behaviours.')
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10'):
    NOTES[_p] = _TX
_PK = ('DurusPack (the three packing algorithms with commits between their steps) is checked '
       'exhaustively for 3 objects; its behaviours and random ones are run on the real storages and '
       'every event is judged by DurusPackTrace and DurusTxTrace. Bounded by the sampled behaviours.')
for _p in ('C11', 'C12', 'C14'):
    NOTES[_p] = _PK
_SV = ('DurusServer is checked exhaustively for two clients and three oids; raw protocol clients and '
       'ClientStorages, cut off at every byte of every request and otherwise at random, act on the real '
       'server, and every event is judged by DurusServerTrace. Bounded by the sampled behaviours.')
for _p in ('C13', 'C23', 'C24'):
    NOTES[_p] = _SV
NOTES['C25'] = ('DurusTools defines what each inspection tool must give for a database; TLC checks that these definitions agree and '
                'emits every small database. The tools run on these and on random graphs with garbage, pending changes and all '
                'storages, judged by DurusToolsTrace; traversals between commits and packs are judged by DurusPackTrace and '
                'DurusTxTrace. Bounded by sizes and samples.')
NOTES['C28'] = ('DurusTools specifies renumbering, renaming and copying; TLC checks them on every small database and refutes three '
                'weakened versions. The real tools, the command line programs included, run on every small database and on random '
                'graphs (cycles, garbage, nested values, all storages); DurusToolsTrace compares the graphs. Bounded by sizes and samples.')
_CR = ('DurusLog (the file as cells, what the disk may hold at a crash, recovery) is checked exhaustively for '
       'two packs, two crashes and a few commits; every file operation of the real storages is recorded and the '
       'files that a crash at sampled operations leaves (torn, without unsynced writes, with older names) are '
       'opened, used and packed with the real code; DurusLogTrace judges the states found. Bounded by the '
       'sampled histories and images; the model of the disk is described in DESIGN.md.')
NOTES['C18'] = ('DurusLock (one action per system call) is checked exhaustively for three processes; its behaviours '
                'and random schedules, with kill -9 at any system call, are run with real processes that wait before '
                'each operation on a file; DurusLockTrace judges who may open and what is seen. POSIX only; bounded '
                'by the sampled schedules.')
for _p in ('C15', 'C16', 'C17'):
    NOTES[_p] = _CR
for _p in ('C19', 'C20'):
    NOTES[_p] = ('DurusBTree (insertion and deletion as in Cormen et al.) is checked exhaustively for small degrees and '
                 'key ranges; every operation is run on the real tree from every tree it can reach, and random '
                 'operations on trees of all degrees; DurusBTreeTrace judges results, the shape and counts of every '
                 'node, and the tree another connection finds. Bounded by the sizes and samples.')
NOTES['C21'] = ('DurusCont describes every operation of lists, dicts and sets (slices, errors, failing iterables included); TLC '
                'checks that it is total and well-formed and emits all small contents and all operations, which run on the '
                'real containers (both base classes), as do random sequences with commits, aborts and evictions; '
                'DurusContTrace judges results, contents, and whether changes and accesses are noted. Bounded by sizes and samples.')
NOTES['C22'] = ('DurusLife specifies the statuses of the objects of one connection with failing loads and commits, commits of others '
                'and evictions; TLC checks that statuses, memory and database agree, that no change is lost, and that it refutes '
                'two weakened designs. All its transitions and random sequences with unusual attribute names run on twelve classes '
                'with the C and the Python base classes; DurusLifeTrace judges statuses, results, loads, changes, accesses and '
                'what another connection finds. Bounded by sizes and samples.')
NOTES['C26'] = ('DurusShelf specifies the offset map with its linked holes, the transaction log and next_name(); TLC checks that lookup '
                'agrees with the mapping, that names are fresh and none is passed over, and refutes a design that ignores the log. Its '
                'behaviours and random ones (offsets at the limits of their width, large names, failing stores, reopening) run on real '
                'files; DurusShelfTrace judges every way to look at the shelf. Bounded by sizes and samples.')
NOTES['C27'] = ('DurusArrays describes every operation of the arrays; TLC checks on all small arrays that it is total, that what is put '
                'in is found and nothing else changes, and that no number up to the maximum is taken for a blank. All these operations '
                'and random ones run on memory and real files with neighbouring bytes; DurusArraysTrace judges results, contents and '
                'neighbours. Bounded by sizes and samples.')
NOTES['C29'] = ('DurusAddr specifies what is at each address and who may take it; TLC checks that nothing is ever taken away. Its '
                'behaviours and random ones (files put in the way, killed servers, umasks, owners, failing starts, inherited sockets) '
                'run with real servers and clients; DurusAddrTrace judges after every event what is at every address and who answers. '
                'POSIX only; bounded by the samples.')
