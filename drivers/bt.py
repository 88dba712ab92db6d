"""BTrees: random and generated operations on stored trees, recorded for DurusBTreeTrace.tla."""
from rt import *
from durus.storage import MemoryStorage
from durus.btree import BTree, BNode
import durus.btree

NODES = dict((c.minimum_degree, c) for c in [BNode] + BNode.__subclasses__())


def words(k):
    return 'k%05d' % (k + 1000)

KEYS = {'int': (lambda k: k, lambda x: x),
        'str': (words, lambda x: int(x[1:]) - 1000),
        'float': (lambda k: k / 4.0, lambda x: int(x * 4)),
        'tuple': (lambda k: (k // 3, words(k)), lambda x: int(x[1][1:]) - 1000),
        'bytes': (lambda k: words(k).encode(), lambda x: int(x[1:]) - 1000)}


class Store(MemoryStorage):
    """keeps records; the oldest connection is the only one"""
    def gen_oid_record(self, start_oid=None, batch_size=100):
        for o in sorted(self.records):
            yield o, self.records[o]


class B(object):
    def __init__(self, profile, rnd):
        self.p, self.rnd = profile, rnd
        self.key, self.unkey = KEYS[profile.get('keys', 'int')]
        self.ev = []
        self.v = 0
        self.storage = Store()
        self.conn = Connection(self.storage, cache_size=profile.get('cache', 1000))
        self.conn.get_root()['t'] = BTree(NODES[profile['degree']])
        self.conn.commit()
        self.t = self.conn.get_root()['t']
        self.old = 0

    def log(self, **e):
        e.setdefault('res', 'ok')
        e.setdefault('out', [])
        e.setdefault('tree', NOTREE)
        self.ev.append(e)

    def dump(self, t):
        def node(n):
            c = n._count
            return dict(k=[self.unkey(i[0]) for i in n.items], v=[i[1] for i in n.items],
                        n=[node(x) for x in n.nodes or []], c=c if isinstance(c, int) else -1, l=int(n.is_leaf()),
                        d=n.minimum_degree)
        return node(t.root)

    def pairs(self, items):
        return [[self.unkey(k), v] for k, v in items]

    def value(self):
        self.v += 1
        return self.v

    def do(self, op, k=0, k2=0, a=0, b=0, arg=None, tree=True):
        """one operation; a, b: options"""
        t, key = self.t, self.key
        res, out, v = 'ok', [], 0
        try:
            if op == 'SET':
                v = self.value()
                if a == 0:
                    t[key(k)] = v
                else:
                    t.add(key(k), v)
            elif op == 'DEL':
                del t[key(k)]
            elif op == 'GET':
                out = [t[key(k)]]
            elif op == 'GETD':
                out = [t.get(key(k), -7)]
            elif op == 'IN':
                out = [int(key(k) in t), int(t.has_key(key(k)))]
            elif op == 'LEN':
                out = [len(t), int(bool(t))]
            elif op == 'MIN':
                out = self.pairs([t.get_min_item()])
            elif op == 'MAX':
                out = self.pairs([t.get_max_item()])
            elif op == 'ITER':
                out = self.pairs([list(t.items()), list(t.iteritems()), list(zip(t.keys(), t.values())),
                                  list(zip(t.iterkeys(), t.itervalues())), [(x, t[x]) for x in t]][a])
            elif op == 'REV':
                out = self.pairs([list(t.items_backward()), [(x, t[x]) for x in reversed(t)]][a])
            elif op == 'FROM':
                out = self.pairs(t.items_from(key(k), closed=bool(a)))
            elif op == 'BFROM':
                out = self.pairs(t.items_backward_from(key(k), closed=bool(a)))
            elif op == 'RANGE':
                out = self.pairs(t.items_range(key(k), key(k2), closed_start=bool(a), closed_end=bool(b)))
            elif op == 'SETDEF':
                v = self.value()
                out = [t.setdefault(key(k), v)]
            elif op == 'POP':
                if a:
                    out = [t.pop(key(k), -7)]
                else:
                    out = [t.pop(key(k))]
            elif op == 'POPITEM':
                out = self.pairs([t.popitem()])
            elif op == 'CLEAR':
                t.clear()
            elif op == 'UPDATE':
                rows = [[x, self.value()] for x in arg]
                items = [(key(x), y) for x, y in rows]
                if a == 0:
                    t.update(items)
                elif a == 1:
                    t.update(dict(items))
                elif a == 2:
                    other = BTree(NODES[2])
                    other.update(items)
                    t.update(other)
                else:
                    t.update(PersistentDict(items))
            elif op == 'DEGREE':
                out = [int(bool(t.set_bnode_minimum_degree(k)))]
            elif op == 'NOTE':
                t.note_change_of_bnode_containing_key(key(k))
        except Exception as e:
            res = outcome(e)
            if res.startswith('EXC KeyError'):
                res = 'KeyError'
        e = dict(op=op, k=k, k2=k2, a=a, b=b, v=v, res=res, out=out)
        if op == 'UPDATE':
            e['rows'] = rows
        if tree:
            e['tree'] = self.dump(t)
        self.log(**e)

    def other(self):
        c = Connection(self.storage)
        return self.dump(c.get_root()['t'])

    def commit(self):
        self.conn.commit()
        self.log(op='COMMIT', tree=self.dump(self.t), other=self.other())

    def abort(self):
        self.conn.abort()
        self.log(op='ABORT', tree=self.dump(self.t))

    def reload(self):
        """everything is loaded again"""
        self.conn = Connection(self.storage, cache_size=self.p.get('cache', 1000))
        self.t = self.conn.get_root()['t']
        self.log(op='ABORT')

    def shrink(self):
        """nodes become ghosts"""
        gc.collect(0)
        self.conn.shrink_cache()

    def forget_counts(self):
        """as if the tree had been saved before nodes had a count"""
        self.commit()
        def strip(n):
            n.is_leaf()
            if '_count' in n.__dict__:
                del n._count
            for x in n.nodes or []:
                strip(x)
        strip(self.t.root)
        self.conn.commit()
        self.log(op='OLD', tree=self.dump(self.t), other=self.other())

    def random_op(self, space):
        rnd = self.rnd
        ops = self.p['ops']
        names = sorted(ops)
        op = rnd.choices(names, [ops[n] for n in names])[0]
        k, k2 = rnd.randrange(space), rnd.randrange(space)
        a, b = rnd.randrange(2), rnd.randrange(2)
        if op == 'COMMIT':
            self.commit()
        elif op == 'ABORT':
            self.abort()
        elif op == 'RELOAD':
            self.reload()
        elif op == 'SHRINK':
            self.shrink()
        elif op == 'OLD':
            self.forget_counts()
        elif op == 'BURST':
            # grow or shrink, in some order
            ks = [rnd.randrange(space) for i in range(rnd.choice([5, 20, space]))]
            o = rnd.randrange(3)
            if o:
                ks.sort(reverse=o == 2)
            kind = rnd.choice(['SET', 'DEL'])
            for k in ks:
                self.do(kind, k, tree=False)
            self.do('LEN')
        elif op == 'UPDATE':
            self.do(op, a=rnd.randrange(4), arg=[rnd.randrange(space) for i in range(rnd.choice([0, 1, 5]))])
        elif op == 'ITER':
            self.do(op, a=rnd.randrange(5), tree=False)
        elif op == 'DEGREE':
            self.do(op, rnd.choice([2, 3, 4, 8, 16]))
        else:
            self.do(op, k, k2, a, b, tree=op in CHANGES)

NOTREE = dict(k=[], v=[], n=[], c=-2, l=1, d=0)
CHANGES = ('SET', 'DEL', 'SETDEF', 'POP', 'POPITEM', 'CLEAR', 'UPDATE', 'DEGREE', 'NOTE')


def run(profile, seed, index):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    for key in ('degree', 'keys', 'space', 'cache'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    w = B(prof, rnd)
    try:
        with Watchdog(60):
            for i in range(prof['steps']):
                w.random_op(prof['space'])
            w.commit()
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    return dict(ev=w.ev, meta=dict(profile=prof, seed=seed, index=index))


def replay(profile, seed, index, script, top):
    """build the tree; then every operation from it, saved and read by another connection"""
    rnd = random.Random('%s/%s' % (seed, index))
    prof = dict(profile)
    w = B(prof, rnd)
    try:
        with Watchdog(60):
            for x in script:
                w.do('SET' if x > 0 else 'DEL', 2 * abs(x), tree=False)
            w.commit()
            records, base = dict(w.storage.records), len(w.ev)
            every = [(o, 2 * x) for o in ('SET', 'DEL') for x in range(1, top + 1)] + [('SET', 2 * rnd.randrange(top) + 1)]
            for i in range(4):
                a, b = rnd.randrange(2), rnd.randrange(2)
                w.do('RANGE', rnd.randrange(2 * top + 2), rnd.randrange(2 * top + 2), a, b, tree=False)
            w.do('FROM', rnd.randrange(2 * top + 2), a=rnd.randrange(2), tree=False)
            w.do('BFROM', rnd.randrange(2 * top + 2), a=rnd.randrange(2), tree=False)
            for op, k in every:
                w.storage.records = dict(records)
                w.conn = Connection(w.storage)
                w.t = w.conn.get_root()['t']
                w.log(op='AGAIN')
                w.do(op, k)
                if rnd.random() < 0.8:
                    w.commit()
                else:
                    w.abort()
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    return dict(ev=w.ev, meta=dict(profile=prof, seed=seed, index=index, script=script))


def main():
    spec = json.load(open(sys.argv[1]))
    if 'scripts' in spec:
        traces = [replay(spec['profile'], spec['seed'], i, s, spec['top']) for i, s in enumerate(spec['scripts'])]
    else:
        traces = [run(spec['profile'], spec['seed'], i) for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)


if __name__ == '__main__':
    main()
