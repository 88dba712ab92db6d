"""Containers: every operation on small PersistentLists, PersistentDicts and
PersistentSets, and random ones, recorded for DurusContTrace.tla."""
from rt import *
from durus.storage import MemoryStorage
from durus.btree import BTree
from durus.persistent import _getattribute
import operator

NN = -99
D = dict(op='', i=0, j=0, k=0, x=0, xs=[], ys=[], how='', f='')


class Boom(Exception):
    pass


class Wrong(Exception):
    """the result is not the right object"""


def right(x):
    if not x:
        raise Wrong


class Missing(PersistentDict):
    def __missing__(self, key):
        return -5


class L2(PersistentList):
    pass


class S2(PersistentSet):
    pass


class Mapping(object):
    """has keys() and items by key, but is no dict"""
    def __init__(self, rows):
        self.rows = rows
    def keys(self):
        return [k for k, v in self.rows]
    def __getitem__(self, key):
        return dict(self.rows)[key]


for _c in (Missing, L2, S2):
    _c.__module__ = 'ct'
sys.modules.setdefault('ct', sys.modules[__name__])
FIELD = {'list': 'data', 'dict': 'data', 'set': 's'}
BASE = {'list': PersistentList, 'dict': PersistentDict, 'set': PersistentSet}


def key(k):
    return 'k%d' % k

def unkey(k):
    return int(k[1:])

def nn(x):
    return None if x == NN else x

def failing(items):
    for x in items:
        yield x
    raise Boom


class W(object):
    def __init__(self, kind, rnd):
        self.kind, self.rnd = kind, rnd
        self.ev = []
        self.storage = MemoryStorage()
        self.conn = Connection(self.storage, cache_size=rnd.choice([1, 1000]))

    def log(self, **e):
        self.ev.append(dict(D, kind=self.kind, res=e.pop('res', 'ok'), out=e.pop('out', []), **e))

    # ------------------------------------------------------------ the object
    def raw(self, obj):
        return _getattribute(obj, FIELD[self.kind])

    def encode(self, x):
        if self.kind == 'dict':
            return [[unkey(k), v] for k, v in x.items()]
        return sorted(x) if self.kind == 'set' else list(x)

    def make(self, content, klass=None):
        klass = klass or BASE[self.kind]
        if self.kind == 'dict':
            return klass([(key(k), v) for k, v in content])
        return klass(content)

    def init(self, content, stored, missing=False):
        klass = BASE[self.kind]
        if missing:
            klass = Missing
        elif self.kind != 'dict' and self.rnd.random() < 0.2:
            klass = L2 if self.kind == 'list' else S2
        self.obj = self.make(content, klass)
        self.conn.abort()
        self.conn.get_root()['x'] = self.obj
        if stored:
            self.conn.commit()
        self.stored = stored
        how = self.rnd.randrange(3) if stored else 0
        if how == 1:
            self.reload()
        elif how == 2:
            self.conn.shrink_cache()
        self.log(op='INIT', now=content, stored=int(stored))

    def reload(self):
        self.conn = Connection(self.storage, cache_size=self.rnd.choice([1, 1000]))
        self.obj = self.conn.get_root()['x']

    def status(self, **e):
        return dict(e, st1=self.obj._p_status, chg=int(self.obj._p_oid in self.conn.changed),
                    acc=int(self.stored and self.obj._p_serial == self.conn.transaction_serial))

    def commit(self):
        res = 'ok'
        try:
            self.conn.commit()
        except Exception as e:
            res = outcome(e)
        self.stored = True
        s = self.status()
        other = Connection(self.storage).get_root()['x']
        self.log(op='COMMIT', res=res, other=self.encode(getattr(other, FIELD[self.kind])),
                 more=self.encode(getattr(self.obj, FIELD[self.kind])), **s)
        self.conn.abort()   # it was read

    def abort(self):
        self.conn.abort()
        s = self.status()
        self.log(op='ABORT', more=self.encode(getattr(self.obj, FIELD[self.kind])), **s)
        self.conn.abort()

    # ------------------------------------------------------------ operations
    def arg(self, e):
        """the other operand"""
        xs, how, kind = e['xs'], e['how'], self.kind
        if how == 'self':
            return self.obj
        if how == 'noniter':
            return 5
        if kind == 'dict':
            rows = [(key(k), v) for k, v in xs]
            return {'dict': dict, 'pdict': PersistentDict, 'pairs': list, 'gen': iter, 'kw': dict, 'keys': Mapping,
                    'genfail': failing, 'pairbad': lambda r: r + [('a', 'b', 'c')], 'two': dict, 'both': list,
                    'btree': lambda r: (lambda b: (b.update(r), b)[1])(BTree())}[how](rows)
        return {'list': list, 'plist': PersistentList, 'tuple': tuple, 'gen': iter, 'genfail': failing,
                'pset': PersistentSet, 'set': set, 'frozenset': frozenset}[how](xs)

    def perform(self, e):
        return getattr(self, 'op_' + self.kind)(e, e['op'], self.obj)

    def independent(self, result):
        """the result, which is then spoiled: it must not be part of the object"""
        out = self.encode(result)
        try:
            if self.kind == 'list':
                result.append(-77)
            elif self.kind == 'set':
                result.add(-77)
            else:
                result['k-77'] = 0
        except AttributeError:
            pass
        return out

    def op_list(self, e, op, o):
        i, j, k, x = e['i'], e['j'], e['k'], e['x']
        if op == 'NEW':
            self.obj = o.__class__(self.arg(e))
        elif op == 'APPEND':
            o.append(x)
        elif op == 'INSERT':
            o.insert(i, x)
        elif op == 'POP':
            return [o.pop() if i == NN else o.pop(i)]
        elif op == 'REMOVE':
            o.remove(x)
        elif op == 'GETI':
            return [o[i]]
        elif op == 'SETI':
            o[i] = x
        elif op == 'DELI':
            del o[i]
        elif op in ('GETS', 'DELS', 'SETS'):
            s = slice(nn(i), nn(j), nn(k))
            if op == 'GETS':
                return self.independent(o[s])
            elif op == 'DELS':
                del o[s]
            else:
                o[s] = self.arg(e)
        elif op == 'EXTEND':
            o.extend(self.arg(e))
        elif op == 'IADD':
            o += self.arg(e)
            right(o is self.obj)
        elif op == 'ADD':
            return self.independent(o + self.arg(e))
        elif op == 'RADD':
            return self.independent(o.__radd__(self.arg(e)) if e['how'] == 'plist' else self.arg(e) + o
                                    if e['how'] != 'gen' else o.__radd__(self.arg(e)))
        elif op == 'MUL':
            return self.independent(o * i)
        elif op == 'RMUL':
            return self.independent(i * o)
        elif op == 'IMUL':
            o *= i
            right(o is self.obj)
        elif op == 'INDEX':
            return [o.index(x) if (i, j) == (NN, NN) else o.index(x, 0 if i == NN else i) if j == NN
                    else o.index(x, 0 if i == NN else i, j)]
        elif op == 'COUNT':
            return [o.count(x)]
        elif op == 'IN':
            return [int(x in o)]
        elif op == 'LEN':
            return [len(o)]
        elif op == 'BOOL':
            return [int(bool(o))]
        elif op == 'ITER':
            return [x for x in o]
        elif op == 'REV':
            return list(reversed(o))
        elif op == 'REVERSE':
            o.reverse()
        elif op == 'SORT':
            o.sort(**{'plain': {}, 'back': dict(reverse=True), 'key': dict(key=lambda y: y % 3),
                      'keyback': dict(key=lambda y: y % 3, reverse=True)}[e['how']])
        elif op == 'SORTERR':
            n = [self.rnd.randrange(5)]
            class K(object):
                def __init__(self, y):
                    self.y = y
                def __lt__(self, other):
                    n[0] -= 1
                    if n[0] < 0:
                        raise Boom
                    return self.y < other.y
            def bad(y):
                return K(y)
            o.sort(key=bad)
            raise Boom
        elif op == 'CLEAR':
            o.clear()
        elif op == 'CMP':
            a = self.arg(e)
            return [int(f(o, a)) for f in (operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge)]
        else:
            raise Unknown(op)
        return []

    def op_dict(self, e, op, o):
        i, x = e['i'], key(e['x'])
        if op == 'NEW':
            self.obj = o.__class__(**self.arg(e)) if e['how'] == 'kw' else o.__class__(self.arg(e))
        elif op == 'FROMKEYS':
            return self.independent(o.fromkeys([key(y) for y in e['xs']], i))
        elif op == 'SETK':
            o[x] = i
        elif op == 'GETK':
            return [o[x]]
        elif op == 'GET':
            return [o.get(x, i)]
        elif op == 'DELK':
            del o[x]
        elif op == 'POPK':
            return [o.pop(x) if i == NN else o.pop(x, i)]
        elif op == 'POPITEM':
            k, v = o.popitem()
            return [[unkey(k), v]]
        elif op == 'SETDEF':
            return [o.setdefault(x, i)]
        elif op == 'UPDATE':
            a = self.arg(e)
            if e['how'] == 'kw':
                o.update(**a)
            elif e['how'] == 'two':
                o.update({}, a)
            elif e['how'] == 'both':
                o.update(a[:1], **dict(a[1:]))
            else:
                o.update(a)
        elif op == 'CLEAR':
            o.clear()
        elif op == 'COPY':
            c = o.copy()
            right(c.__class__ is o.__class__ and c is not o and c._p_oid is None and c._p_is_unsaved())
            return self.independent(c)
        elif op == 'IN':
            return [int(x in o)]
        elif op == 'HASKEY':
            return [int(o.has_key(x))]
        elif op == 'LEN':
            return [len(o)]
        elif op == 'BOOL':
            return [int(bool(o))]
        elif op == 'ITEMS':
            how = e['how']
            r = (list(o.items()) if how == 'items' else list(o.iteritems()) if how == 'iteritems'
                 else list(zip(o.iterkeys(), o.itervalues())) if how == 'zip'
                 else list(zip(o, o.values())) if how == 'iter' else [(y, o[y]) for y in o])
            return [[unkey(k), v] for k, v in r]
        elif op == 'KEYS':
            return [unkey(y) for y in (o.keys() if e['how'] == 'list' else o.iterkeys())]
        elif op == 'VALUES':
            return list(o.values() if e['how'] == 'list' else o.itervalues())
        elif op == 'CMP':
            a = self.arg(e)
            return [int(o == a), int(o != a)]
        elif op == 'UNHASH':
            f = e['f']
            if f == 'set':
                o[[]] = 1
            elif f == 'get':
                o[[]]
            elif f == 'in':
                [] in o
            elif f == 'del':
                del o[[]]
            elif f == 'pop':
                # the pop of an empty dict does not look at the key
                o.pop([]) if len(o) else {1: 1}.pop([])
            else:
                o.setdefault([], 1)
        else:
            raise Unknown(op)
        return []

    def op_set(self, e, op, o):
        x, f = e['x'], e['f']
        if op == 'NEW':
            self.obj = o.__class__(self.arg(e))
        elif op == 'ADD':
            o.add(x)
        elif op == 'DISCARD':
            o.discard(x)
        elif op == 'REMOVE':
            o.remove(x)
        elif op == 'POP':
            return [o.pop()]
        elif op == 'CLEAR':
            o.clear()
        elif op == 'COPY':
            return self.independent(o.copy())
        elif op == 'ITER':
            r = list(o)
            right(len(r) == len(set(r)))
            return sorted(r)
        elif op == 'IN':
            return [int(x in o)]
        elif op == 'LEN':
            return [len(o)]
        elif op == 'BOOL':
            return [int(bool(o))]
        elif op in ('OPER', 'ROPER'):
            g = {'and': operator.and_, 'or': operator.or_, 'sub': operator.sub, 'xor': operator.xor}[f]
            return self.independent(g(o, self.arg(e)) if op == 'OPER' else g(self.arg(e), o))
        elif op == 'IOPER':
            a = self.arg(e)
            g = {'and': operator.iand, 'or': operator.ior, 'sub': operator.isub, 'xor': operator.ixor}[f]
            r = g(o, a)
            right(r is o)
        elif op == 'METHOD':
            return self.independent({'and': o.intersection, 'or': o.union, 'sub': o.difference,
                                     'xor': o.symmetric_difference}[f](self.arg(e)))
        elif op == 'METHOD2':
            return self.independent({'and': o.intersection, 'or': o.union}[f](self.arg(e), e['ys']))
        elif op == 'UPDATE':
            {'and': o.intersection_update, 'or': o.update, 'sub': o.difference_update,
             'xor': o.symmetric_difference_update}[f](self.arg(e))
        elif op == 'UPDATE2':
            {'and': o.intersection_update, 'or': o.update}[f](self.arg(e), e['ys'])
        elif op == 'SUBSET':
            return [int(o.issubset(self.arg(e))), int(o.issuperset(self.arg(e))), int(o.isdisjoint(self.arg(e)))]
        elif op == 'CMP':
            a = self.arg(e)
            return [int(g(o, a)) for g in (operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge)]
        elif op == 'UNHASH':
            o.add([]) if f == 'add' else [] in o
        else:
            raise Unknown(op)
        return []

    def do(self, e):
        e = dict(D, **e)
        obj = self.obj
        st0 = obj._p_status
        res, out = 'ok', []
        try:
            out = self.perform(e)
        except Unknown:
            raise
        except Boom:
            res = 'Boom'
        except (KeyError, IndexError, ValueError, TypeError) as x:
            res = x.__class__.__name__
        except Exception as x:
            res = outcome(x)
        replaced = self.obj is not obj
        if replaced:
            # a new object takes the place of the old one
            self.conn.abort()
            self.conn.get_root()['x'] = self.obj
            self.stored = False
        s = self.status()
        e.pop('kind', None)
        now = self.encode(self.raw(self.obj)) if not self.obj._p_is_ghost() else self.encode(getattr(self.obj, FIELD[self.kind]))
        if replaced:
            s['st1'], s['chg'] = 1, 1
        self.log(res=res, out=out, st0=st0, now=now, **dict(e, **s))
        if replaced:
            self.conn.commit()
            self.stored = True
            self.log(op='INIT', now=now, stored=1)


class Unknown(Exception):
    pass


def run(kind, ops, seed, index, steps):
    """random operations on one object"""
    rnd = random.Random('%s/%s/%s' % (seed, index, kind))
    w = W(kind, rnd)
    missing = kind == 'dict' and rnd.random() < 0.3
    w.init([], rnd.random() < 0.8, missing)
    byop = {}
    for e in ops:
        byop.setdefault(e['op'], []).append(e)
    grow = {'list': ['APPEND', 'EXTEND', 'INSERT', 'IADD'], 'dict': ['SETK', 'UPDATE', 'SETDEF'], 'set': ['ADD', 'UPDATE']}[kind]
    try:
        with Watchdog(60):
            for n in range(steps):
                r = rnd.random()
                if r < 0.08:
                    w.commit()
                elif r < 0.13 and w.stored:
                    w.abort()
                elif r < 0.16 and w.stored and not w.conn.changed:
                    w.reload()
                elif r < 0.2 and w.stored:
                    w.conn.shrink_cache()
                else:
                    op = rnd.choice(grow if r < 0.4 else sorted(byop))
                    e = dict(rnd.choice(byop[op]))
                    if (e['how'] == 'missing') != missing and op == 'GETK':
                        e['how'] = 'missing' if missing else ''
                    if op not in ('POP', 'GETK', 'MUL', 'RMUL', 'IMUL', 'SETS', 'DELS', 'GETS', 'INDEX', 'DELI', 'SETI', 'GETI'):
                        e['x'] = rnd.randrange(1, 8)
                    if e['op'] == 'IMUL' and len(w.raw(w.obj) if not w.obj._p_is_ghost() else []) > 20:
                        e['i'] = 0
                    w.do(e)
            w.commit()
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    return dict(ev=w.ev, meta=dict(kind=kind, seed=seed, index=index))


def exhaustive(kind, jobs, seed, index):
    """jobs: [[content, [op..]]..]"""
    rnd = random.Random('%s/%s/%s' % (seed, index, kind))
    w = W(kind, rnd)
    try:
        with Watchdog(300):
            for content, ops in jobs:
                for e in ops:
                    w.init(content, rnd.random() < 0.85, e['how'] == 'missing')
                    w.do(e)
                    r = rnd.random()
                    if r < 0.3:
                        w.commit()
                    elif r < 0.5 and w.stored:
                        w.abort()
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    return dict(ev=w.ev, meta=dict(kind=kind, seed=seed, index=index, jobs=len(jobs)))


def main():
    spec = json.load(open(sys.argv[1]))
    if 'jobs' in spec:
        traces = [exhaustive(k, jobs, spec['seed'], i) for i, (k, jobs) in enumerate(spec['jobs'])]
    else:
        traces = [run(spec['kind'], spec['ops'], spec['seed'], i, spec['steps'])
                  for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)


if __name__ == '__main__':
    main()
