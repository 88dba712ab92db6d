"""Shelf, for DurusShelfTrace.tla."""
from rt import *
from durus.shelf import Shelf
from durus.file import File

BIG = 1000000


class Boom(Exception):
    pass


class W(object):
    def __init__(self, profile, rnd, path):
        self.rnd, self.p, self.path = rnd, profile, path
        self.ev, self.vals, self.ids = [], {}, {}
        self.big, self.bigs = {}, []
        self.known, self.positions = set(), set()
        self.readonly = False

    # names are numbers, 8 bytes in the file; those beyond 10**6 have numbers of their own
    def nb(self, n):
        return i8(n if n < BIG else self.bigs[n - BIG])

    def nn(self, b):
        if not isinstance(b, bytes) or len(b) != 8:
            return -2
        x = u8(b)
        if x < BIG:
            return x
        if x not in self.big:
            self.big[x] = BIG + len(self.bigs)
            self.bigs.append(x)
        return self.big[x]

    def vb(self, v, length=None):
        if v not in self.vals:
            if length is None:
                length = self.rnd.choice([0, 1, 7, 8, 9, 30, 200]) if self.rnd.random() < 0.9 else self.rnd.randrange(3000, 70000)
            x = (b'%d:' % v) + bytes([self.rnd.randrange(256) for i in range(8)]) * (length // 8 + 1)
            x = x[:max(length, len(b'%d:' % v))] if v else b''
            self.vals[v] = x
            self.ids[x] = v
        return self.vals[v]

    def vn(self, b):
        return -1 if b is None else self.ids.get(b, -2)

    def view(self):
        sh, rnd = self.shelf, self.rnd
        busy = rnd.random() < 0.4
        items, names, index = [], [], []
        def disturb():
            if busy and self.known:
                n = rnd.choice(sorted(self.known))
                rnd.choice([sh.get_value, sh.get_position, sh.__contains__])(self.nb(n))
        for name, value in (sh.items() if rnd.random() < 0.5 else sh.iteritems()):
            items.append([self.nn(name), self.vn(value)])
            disturb()
        for name in sh:
            names.append(self.nn(name))
            disturb()
        for name, position in sh.iterindex():
            index.append([self.nn(name), position])
            disturb()
        self.positions.update(x[1] for x in index)
        size = sh.get_offset_map().get_array_size()
        ask = set(self.known) | set([0, 1, 2, max(size - 1, 0), size, size + 1]) | set(n for n, v in items if n >= 0)
        ask = sorted(ask)
        if len(ask) > 40:
            ask = rnd.sample(ask, 40)
        probe, at = [], []
        for n in ask:
            name = self.nb(n)
            p = sh.get_position(name)
            probe.append([n, int(name in sh), self.vn(sh.get_value(name)), -1 if p is None else p])
        for p in self.positions if len(self.positions) < 40 else rnd.sample(sorted(self.positions), 40):
            name, value = sh.get_item_at_position(p)
            at.append([p, self.nn(name), self.vn(value)])
        return dict(view=items, names=names, index=index, probe=probe, at=at)

    def log(self, op, res='ok', how='', items=(), out=()):
        self.known.update(n for n, v in items)
        e = dict(op=op, res=res, how=how, items=[list(x) for x in items], out=list(out))
        e.update(self.view())
        self.ev.append(e)

    def pairs(self, items):
        return [(self.nb(n), self.vb(v)) for n, v in items]

    def create(self, items):
        rnd = self.rnd
        how = rnd.choice(['path', 'file', 'steps', 'steps', 'gen'])
        if how == 'path':
            self.shelf = Shelf(self.path, items=self.pairs(items) if items or rnd.random() < 0.5 else None)
        elif how == 'file':
            self.shelf = Shelf(File(self.path), items=self.pairs(items))
        elif how == 'gen':
            self.shelf = Shelf(self.path, items=(x for x in self.pairs(items)) if items else None)
        else:
            f = File(self.path)
            for step in Shelf.generate_shelf(f, iter(self.pairs(items)) if items and rnd.random() < 0.5 else self.pairs(items)):
                pass
            self.shelf = Shelf(f)
        self.log('INIT', how=how, items=items)

    def store(self, items, how):
        def bad():
            k = self.rnd.randrange(len(items) + 1)
            for i, x in enumerate(self.pairs(items)):
                if i == k:
                    break
                yield x
            if how == 'boom':
                raise Boom
            elif how == 'name':
                yield self.rnd.choice([b'short', b'', b'much too long']), b'x'
            elif how == 'value':
                yield self.nb(1), None
            elif how == 'item':
                yield 5
        try:
            if how == 'ok':
                out = self.shelf.store(self.pairs(items) if self.rnd.random() < 0.5 else iter(self.pairs(items)))
                out = [[self.nn(n), -1 if o is None else o, p] for n, o, p in out]
                self.positions.update(x[2] for x in out)
            else:
                out = []
                self.shelf.store(bad())
            res = 'ok'
        except Exception as e:
            if how == 'ok':
                raise
            res = 'error'
        self.log('STORE', res, how, items, out)

    def next(self):
        n = self.nn(self.shelf.next_name())
        self.known.add(n)
        self.log('NEXT', out=[n])
        return n

    def reopen(self):
        self.shelf.close()
        how = self.rnd.choice(['rw', 'rw', 'ro', 'repair'])
        self.readonly = how == 'ro'
        self.shelf = Shelf(self.path, readonly=self.readonly, repair=how == 'repair')
        self.log('REOPEN', how=how)


def random_items(w, n, names):
    return [(x, w.rnd.randrange(0, 40)) for x in w.rnd.sample(names, min(n, len(names)))]


def run(profile, seed, index):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    w, d = setup(profile, rnd)
    def body():
        kind = profile['kind']
        top = rnd.choice([1, 4, 12, 40])
        if kind == 'edge':
            items = edge_items(w)
        elif kind == 'large':
            items = random_items(w, rnd.choice([1, 20]), list(range(rnd.choice([300, 3000]))))
        else:
            items = random_items(w, rnd.randrange(0, top + 1), list(range(top)))
        w.create(items)
        pool = sorted(set(range(top + 4)) | set(n for n, v in items))
        for i in range(5):
            x = rnd.choice([2 ** 63, 2 ** 64 - 1, 2 ** 32, BIG, 2 ** 40]) - rnd.randrange(0, 3)
            pool.append(w.nn(i8(min(x, 2 ** 64 - 1))))
        for i in range(profile['steps']):
            x = rnd.random()
            if w.readonly and x < 0.5 or x < 0.08:
                w.reopen()
            elif x < 0.45 and not w.readonly:
                w.store([(rnd.choice(pool), rnd.randrange(0, 40)) for j in range(rnd.choice([0, 1, 1, 2, 3, 6]))], 'ok')
            elif x < 0.55 and not w.readonly:
                w.store([(rnd.choice(pool), rnd.randrange(0, 40)) for j in range(rnd.randrange(0, 4))], rnd.choice(['boom', 'name', 'value', 'item']))
            else:
                n = w.next()
                if n >= 0 and rnd.random() < 0.5:
                    pool.append(n)
                    if not w.readonly and rnd.random() < 0.3:
                        w.store([(n, rnd.randrange(0, 40))], 'ok')
    return traced(w, d, body, dict(profile=profile, seed=seed, index=index))


def edge_items(w):
    """so that the entries of the offset map just fit, or just do not, in a number of bytes"""
    rnd = w.rnd
    limit = rnd.choice([256, 256, 65536])
    n = rnd.randrange(1, 5)
    top = rnd.randrange(n, n + 8)
    names = sorted(rnd.sample(range(top), n))
    want = limit - rnd.randrange(-4, 12) - top - 2    # position of the offset map
    rest = want - 16 - 16 * n
    if rest < 0:
        return [(x, 0) for x in names]
    lens = [rest // n] * n
    if n > 1 and rest > 100 and rnd.random() < 0.6:
        lens[-1] = rnd.randrange(3, 40)
    lens[0] += rest - sum(lens)
    for i, k in enumerate(lens):
        w.vb(i + 1, k)
    rnd.shuffle(names)
    return [(x, i + 1) for i, x in enumerate(names)]


def replay(profile, seed, index, script):
    rnd = random.Random('%s/%s' % (seed, index))
    w, d = setup(profile, rnd)
    def body():
        w.create([tuple(x) for x in script['first']])
        for op, b in script['path']:
            if w.readonly and op in ('STORE', 'FAIL'):
                w.reopen()
                while w.readonly:
                    w.reopen()
            if op == 'STORE':
                w.store([tuple(x) for x in b], 'ok')
            elif op == 'FAIL':
                w.store([tuple(x) for x in b], rnd.choice(['boom', 'name', 'value', 'item']))
            elif op == 'NEXT':
                w.next()
            else:
                w.reopen()
    return traced(w, d, body, dict(profile=profile, seed=seed, index=index, script=script))


def setup(profile, rnd):
    d = tempfile.mkdtemp(prefix='sh')
    return W(profile, rnd, os.path.join(d, 'shelf')), d


def traced(w, d, body, meta):
    try:
        with Watchdog(60):
            body()
    except Hang as e:
        w.ev.append(dict(op='HANG', what=str(e)))
    except Exception as e:
        w.log = lambda **k: w.ev.append(k)
        log_unexpected(w, e)
    try:
        w.shelf.close()
    except Exception:
        pass
    shutil.rmtree(d, True)
    return dict(ev=w.ev, meta=meta)


def main():
    spec = json.load(open(sys.argv[1]))
    if 'scripts' in spec:
        traces = [replay(spec['profile'], spec['seed'], i, s) for i, s in enumerate(spec['scripts'])]
    else:
        traces = [run(spec['profile'], spec['seed'], i) for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)


if __name__ == '__main__':
    main()
