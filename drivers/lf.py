"""The life of persistent objects of one connection, for DurusLifeTrace.tla."""
from rt import *
from durus.storage import MemoryStorage
from durus.persistent import _getattribute, PersistentBase
import copy

NN = -99
STATUS = {-1: 'ghost', 0: 'saved', 1: 'unsaved'}


class Broken(IOError):
    pass


class Feed(MemoryStorage):
    """somebody else's commits are heard of as with a ClientStorage"""
    def __init__(self):
        MemoryStorage.__init__(self)
        self.inv, self.loads, self.fail, self.fail_at, self.heard = [], [], 0, 0, False

    def load(self, oid):
        self.loads.append(oid)
        if self.fail:
            raise Broken
        if oid in self.inv:
            raise ReadConflictError([oid])
        return MemoryStorage.load(self, oid)

    def sync(self):
        r, self.inv = self.inv, []
        return r

    def begin(self):
        self.stored = 0
        MemoryStorage.begin(self)

    def store(self, oid, record):
        self.stored += 1
        if self.fail_at == self.stored:
            raise Broken
        MemoryStorage.store(self, oid, record)

    def end(self, handle_invalidations=None):
        if self.fail_at < 0:
            raise Broken
        self.heard = True
        if self.inv:
            handle_invalidations(self.sync())
        if self.fail_at:
            raise Broken        # it was to fail at a later record
        MemoryStorage.end(self, handle_invalidations)


class Twin(MemoryStorage):
    def __init__(self, records):
        MemoryStorage.__init__(self)
        self.records = records


class Base(object):
    __slots__ = []
    klass_attribute = 77
    def method(self):
        return 55


class Dict(Persistent, Base):
    pass

class Object(PersistentObject, Base):
    """__dict__, saved by PersistentObject"""

class Slots(PersistentObject, Base):
    __slots__ = ['x', '_y', 'p_z']

class Both(PersistentObject, Base):
    __slots__ = ['x', '_y', '__dict__']

class Parent(PersistentObject, Base):
    __slots__ = ['x']

class Child(Parent):
    __slots__ = ['_y', 'x2']

class Open(Parent):
    """inherits slots, has a __dict__"""

class One(PersistentObject, Base):
    __slots__ = 'value'

class Private(PersistentObject, Base):
    __slots__ = ['__x', '__y_', 'z']

class _Hidden(Private):
    __slots__ = ['__w', '__x']

class Deep(Child):
    __slots__ = ('z3',)

class Empty(Deep):
    __slots__ = ()

class Deeper(Empty):
    __slots__ = ('z4',)

class Deepest(Deeper):
    """slots of six classes"""
    __slots__ = ['__z', 'z6']

class Tall(Deepest):
    """slots of six classes and a __dict__"""

class Answers(Persistent, Base):
    def __getattr__(self, name):
        if name[:2] == '__' or name[:3] == '_p_':
            raise AttributeError(name)
        return -3

class AnswersSlots(PersistentObject, Base):
    __slots__ = ['x', 'y', 'z']
    def __getattr__(self, name):
        if name[:2] == '__' or name[:3] == '_p_':
            raise AttributeError(name)
        return -3

CLASSES = dict((c.__name__, c) for c in (Dict, Object, Slots, Both, Child, Open, One, Private, _Hidden, Deep, Deepest, Tall, Answers, AnswersSlots))
for _c in list(CLASSES.values()) + [Parent]:
    _c.__module__ = 'lf'
sys.modules.setdefault('lf', sys.modules[__name__])
NAMES = {'Slots': ['x', '_y', 'p_z'], 'Both': ['x', '_y', 'other'], 'Child': ['x', '_y', 'x2'], 'Open': ['x', 'other', '_p'],
         'One': ['value'], 'Private': ['_Private__x', '_Private__y_', 'z'], '_Hidden': ['_Hidden__w', '_Private__x', '_Hidden__x'], 'Deep': ['x', '_y', 'z3'],
         'Deepest': ['x', '_Deepest__z', 'z3'], 'Tall': ['x', 'z6', 'other'],
         'AnswersSlots': ['x', 'y', 'z']}
POOL = ['a', '_a', '__a', '_p', '_px', 'p_', 'p', '_', '__', '___', '__x__', '__repr', '__repr__x', '__reprx__', '__clas', '__class', '__class__x',
        '__setstate', '__setstate__x', '__s', '__r', '__c', '_P_x', '_pp_', '\xe9', '\u20ac', '\U0001f600', '\udc80', 'x' * 300,
        'x y', '', '1', '_p\xe9', '__getstate', 'data', 'value', 'oid', 'p_status', '__p_x']


class W(object):
    def __init__(self, profile, rnd):
        self.rnd, self.p = rnd, profile
        self.ev = []
        self.klass = CLASSES[profile['klass']]
        name = profile['klass']
        if name in NAMES:
            self.names = NAMES[name]
        else:
            pool = POOL if name in ('Dict', 'Object') else ['a', '_a', 'p']
            self.names = rnd.sample(pool, 3)
        self.dflt = -3 if name.startswith('Answers') else NN
        self.small = int(profile['cache'] < 100)
        self.storage = Feed()
        self.conn = Connection(self.storage, cache_size=profile['cache'], root_class=Object)
        self.objs = [self.conn.get_root(), None, None, None, None]
        self.oids = {self.objs[0]._p_oid: 0}
        if rnd.random() < 0.5:
            self.conn = Connection(self.storage, cache_size=profile['cache'])
            self.objs[0] = self.conn.get_root()
        self.conn.abort()
        self.storage.loads = []

    def status(self, i):
        o = self.objs[i]
        if o is None:
            return 'none'
        st = STATUS.get(_getattribute(o, '_p_status'), '?')
        flags = (o._p_is_ghost(), o._p_is_saved(), o._p_is_unsaved())
        if flags != (st == 'ghost', st == 'saved', st == 'unsaved'):
            return 'confused'
        if o._p_oid is None:
            return 'new' if st == 'unsaved' and o._p_connection is None else 'half ' + st
        if o._p_connection is not self.conn:
            return 'foreign'
        self.oids[o._p_oid] = i
        return st

    def log(self, op, o=0, a=0, v=0, err=0, res='ok', out=(), **kw):
        st = [self.status(i) for i in range(5)]
        oids = self.oids
        loads = sorted(set(oids.get(x, -1) for x in self.storage.loads))
        self.storage.loads = []
        self.ev.append(dict(op=op, o=o, a=a, v=v, err=err, res=res, out=list(out), st=st, small=self.small, dflt=self.dflt if o else NN,
                            chg=sorted(oids.get(x, -1) for x in self.conn.changed), loads=loads,
                            acc=[i for i in range(5) if st[i] in ('ghost', 'saved', 'unsaved') and
                                 self.objs[i]._p_serial == self.conn.transaction_serial], **kw))

    def name(self, o, a):
        return 'o%d' % a if o == 0 else self.names[(a - 1) % len(self.names)]

    def index(self, o, name):
        if o == 0:
            return int(name[1:])
        return self.names.index(name) + 1 if name in self.names else -1

    def rows(self, o, state, same=False):
        r = []
        for name, x in state.items():
            if o == 0:
                r.append([self.index(o, name), 1 if not same or x is self.objs[self.index(o, name)] else -1])
            else:
                r.append([self.index(o, name), x])
        return sorted(r)

    def perform(self, op, o, a, v):
        obj, name = self.objs[o], self.name(o, a)
        if op == 'GET':
            x = getattr(obj, name)
            return [x if o else 1 if x is self.objs[a] else -1]
        elif op == 'HAS':
            return [int(hasattr(obj, name))]
        elif op == 'CALL':
            return [obj.method()]
        elif op == 'KLASS':
            return [obj.klass_attribute]
        elif op == 'STATE':
            if v == 0 and hasattr(self.klass, '__dict__') and self.p['klass'] in ('Dict', 'Object') or o == 0:
                return self.rows(o, dict(vars(obj)), True)
            return self.rows(o, obj.__getstate__(), True)
        elif op == 'COPY':
            self.objs[a] = copy.copy(obj)
        elif op in ('SET', 'LINK'):
            setattr(obj, name, self.objs[a] if op == 'LINK' else v)
        elif op == 'DEL':
            delattr(obj, name)
        elif op == 'NOTE':
            obj._p_note_change()
        elif op == 'SAFE':
            self.safe(obj, v)
        elif op == 'SHRINK':
            self.conn.shrink_cache()
        elif op == 'NEW':
            self.objs[o] = self.klass()
        elif op == 'COMMIT':
            self.conn.commit()
        elif op == 'COMMITERR':
            self.storage.fail_at = v if v != 3 else -1
            self.conn.commit()
        elif op == 'ABORT':
            self.conn.abort()
        else:
            raise Unknown(op)
        return []

    def safe(self, obj, v):
        """nothing of this loads anything"""
        ok = True
        if v % 5 == 0:
            ok = obj.__class__.__name__ in repr(obj)
        elif v % 5 == 1:
            ok = obj.__class__ is type(obj) and isinstance(obj, PersistentBase)
        elif v % 5 == 2:
            obj._p_format_oid(), obj._p_serial, obj._p_connection
            ok = getattr(obj, '_p_nothing', 5) == 5
        elif v % 5 == 3:
            ok = isinstance(obj, PersistentObject) and obj == obj and bool(obj) and hash(obj) == hash(obj)
        else:
            ok = callable(obj.__setstate__) and callable(obj.__repr__)
        if not ok:
            raise Wrong

    def do(self, op, o=0, a=0, v=0, err=0):
        res, out = 'ok', []
        if op == 'OTHER':
            c = Connection(Twin(self.storage.records))
            x = c.get(self.objs[o]._p_oid)
            setattr(x, self.name(o, a), v)
            c.commit()
            if self.objs[o]._p_oid not in self.storage.inv:
                self.storage.inv.append(self.objs[o]._p_oid)
            return self.log('OTHER', o, a, v)
        self.storage.fail, self.storage.heard = err, False
        try:
            out = self.perform(op, o, a, v)
        except Unknown:
            raise
        except (Broken, ReadConflictError, WriteConflictError, AttributeError) as e:
            res = e.__class__.__name__
        except Exception as e:
            res = outcome(e)
        self.storage.fail = self.storage.fail_at = 0
        kw = {}
        if op == 'COMMITERR':
            kw['heard'] = int(self.storage.heard)
        if op == 'COMMIT':
            kw['db'] = self.database()
        self.log(op, o, a, v, err, res, out, **kw)
        if op != 'SAFE':
            self.conflict = res in ('ReadConflictError', 'WriteConflictError')

    def database(self):
        for i in range(5):
            self.status(i)
        c = Connection(Twin(self.storage.records))
        rows = []
        for oid in sorted(self.storage.records):
            i = self.oids.get(oid, -1)
            x = c.get(oid)
            rows.append([i, self.rows(i, x.__getstate__()) if i >= 0 else [[-1, -1]]])
        return sorted(rows)

    conflict = False


class Unknown(Exception):
    pass

class Wrong(Exception):
    pass


def alive(w):
    return [i for i in range(5) if w.objs[i] is not None]

def stored(w):
    return [i for i in range(1, 5) if w.objs[i] is not None and w.objs[i]._p_oid in w.storage.records]


def random_step(w, ops):
    rnd = w.rnd
    if w.conflict:
        if rnd.random() < 0.2:
            return w.do('SAFE', rnd.choice(alive(w)), v=rnd.randrange(5)), None
        return w.do('ABORT')
    op = rnd.choices(sorted(ops), [ops[k] for k in sorted(ops)])[0]
    free = [i for i in range(1, 5) if w.objs[i] is None]
    objs = alive(w)
    o, a, v = rnd.choice(objs), rnd.randrange(1, 4), rnd.randrange(1, 10)
    n = len(w.names)
    if o:
        a = (a - 1) % n + 1
    err = int(rnd.random() < 0.06)
    if op == 'NEW':
        if free:
            w.do('NEW', free[0])
    elif op == 'COPY':
        if free and o:
            w.do('COPY', o, free[0], err=err)
    elif op == 'SET':
        if o:
            w.do('SET', o, a, v, err)
    elif op == 'LINK':
        if len(objs) > 1:
            w.do('LINK', 0, rnd.choice(objs[1:]), err=err)
    elif op in ('CALL', 'KLASS'):
        if o:
            w.do(op, o, err=err)
    elif op in ('SAFE',):
        w.do('SAFE', o, v=rnd.randrange(5), err=err)
    elif op == 'OTHER':
        if stored(w):
            w.do('OTHER', rnd.choice(stored(w)), (a - 1) % n + 1, v)
    elif op == 'COMMITERR':
        w.do('COMMITERR', v=rnd.randrange(1, 4))
    elif op in ('COMMIT', 'ABORT', 'SHRINK'):
        w.do(op)
    else:
        w.do(op, o, a, rnd.randrange(2) if op == 'STATE' else 0, err)


def finish(w):
    if w.conflict:
        w.do('ABORT')
    for i in alive(w):
        w.do('STATE', i)
        if w.conflict:
            w.do('ABORT')
    w.log('FINAL', db=w.database())


def traced(w, body):
    try:
        with Watchdog(60):
            body()
            finish(w)
    except Hang as e:
        w.ev.append(dict(op='HANG', what=str(e)))
    except Exception as e:
        w.log = lambda **k: w.ev.append(k)
        log_unexpected(w, e)


def run(profile, seed, index):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    for k in ('klass', 'cache'):
        if isinstance(prof[k], list):
            prof[k] = rnd.choice(prof[k])
    w = W(prof, rnd)
    def body():
        for i in range(prof['steps']):
            random_step(w, prof['ops'])
    traced(w, body)
    return dict(ev=w.ev, meta=dict(profile=dict(prof, ops=0), names=[x[:20].encode('unicode_escape').decode() for x in w.names], seed=seed, index=index))


def replay(profile, seed, index, script):
    rnd = random.Random('%s/%s' % (seed, index))
    prof = dict(profile)
    for k in ('klass', 'cache'):
        if isinstance(prof[k], list):
            prof[k] = rnd.choice(prof[k])
    w = W(prof, rnd)
    def body():
        for op, o, a, v in script:
            if w.conflict and op not in ('ABORT', 'SAFE'):
                w.do('ABORT')
            if op not in ('NEW',) and w.objs[o] is None:
                continue
            if o and op in ('GET', 'GETERR', 'SET', 'SETERR', 'DEL', 'OTHER'):
                a = (a - 1) % len(w.names) + 1
            if op == 'OTHER' and o not in stored(w):
                continue
            if op == 'LINK' and w.objs[a] is None:
                continue
            if op in ('GETERR', 'SETERR'):
                w.do(op[:-3], o, a, v, 1)
            elif op == 'EVICT':
                w.do('SHRINK')
            elif op == 'COMMITERR':
                w.do('COMMITERR', v=rnd.choice([1, 3]))
            elif op == 'COMMITLATE':
                w.do('COMMITERR', v=9)
            elif op == 'SAFE':
                w.do('SAFE', o, v=rnd.randrange(5))
            elif op == 'GET':
                w.do(rnd.choice(['GET', 'GET', 'HAS', 'STATE']), o, a)
            else:
                w.do(op, o, a, v)
        if not w.conflict:
            w.do('COMMIT')
    traced(w, body)
    return dict(ev=w.ev, meta=dict(profile=prof, names=[x[:20].encode('unicode_escape').decode() for x in w.names], seed=seed, index=index, script=script))


def main():
    spec = json.load(open(sys.argv[1]))
    if 'scripts' in spec:
        traces = [replay(spec['profile'], spec['seed'], i, s) for i, s in enumerate(spec['scripts'])]
    else:
        traces = [run(spec['profile'], spec['seed'], i) for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)


if __name__ == '__main__':
    main()
