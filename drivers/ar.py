"""The arrays of durus.utils, for DurusArraysTrace.tla."""
from rt import *
from durus.utils import Byte, ByteArray, BitArray, WordArray, IntArray, IntSet
from durus.file import File


def digits(n):
    return list(i8(n))


def number(d):
    return u8(bytes(d))


class W(object):
    def __init__(self, rnd, e, where=None):
        self.rnd, self.ev, self.kind = rnd, [], e['kind']
        self.pre = bytes(rnd.randrange(256) for i in range(rnd.choice([0, 0, 1, 8, 30])))
        self.post = None
        self.dir = None
        where = where or rnd.choice(['bytesio', 'bytesio', 'open', 'File', 'none'])
        if where == 'none':
            self.pre = b''
            self.f = None
        elif where == 'bytesio':
            self.f = io.BytesIO()
        else:
            self.dir = tempfile.mkdtemp(prefix='ar')
            self.f = open(os.path.join(self.dir, 'x'), 'w+b') if where == 'open' else File(os.path.join(self.dir, 'x'))
        if self.f is not None:
            self.f.write(self.pre)
        k = self.kind
        self.top = 0
        if k == 'bytes':
            self.a = ByteArray(e['i'], self.f) if rnd.random() < 0.5 else ByteArray(file=self.f)
            if len(self.a) < e['i']:
                self.a.set_size(e['i'])
        elif k == 'bits':
            self.a = BitArray(e['i'], self.f)
        elif k == 'words':
            self.a = WordArray(self.f, e['j'], e['i'])
        elif k == 'ints':
            m = number(e['v']) if e['v'] else None
            if self.f is not None and rnd.random() < 0.3:
                for step in IntArray.generate(self.f, e['i'], m):
                    pass
                self.a = IntArray(self.f)
            else:
                self.a = IntArray(self.f, e['i'], m)
        elif k == 'set':
            self.top = e['i']
            self.a = IntSet(e['i'], self.f)
        elif k == 'byte':
            self.a = Byte(e['i'] if rnd.random() < 0.5 else bytes([e['i']]))
        self.log(e, 'ok', [])

    def content(self):
        k, a = self.kind, self.a
        if k == 'bytes':
            return [a[i][0] for i in range(len(a))]
        if k == 'bits':
            return [a[i] for i in range(len(a))]
        if k == 'words':
            return [list(a[i]) for i in range(len(a))]
        if k == 'ints':
            return [digits(a[i]) for i in range(len(a))]
        if k == 'byte':
            return [a[i] for i in range(8)]
        return [n for n in range(self.top + 40) if n in a]

    def raw(self):
        if self.f is None or self.kind == 'byte':
            return None
        here = self.f.tell()
        self.f.seek(0)
        x = self.f.read()
        self.f.seek(here)
        return x

    def log(self, e, res, out):
        x = self.raw()
        around = x is None or x[:len(self.pre)] == self.pre and (self.post is None or x[-len(self.post):] == self.post and len(x) == self.length)
        self.ev.append(dict(e, kind=self.kind, res=res, out=out, now=self.content(), around=int(around)))

    def one(self, x):
        """what the array gives for a position, as a list"""
        return list(x) if self.kind in ('bytes', 'words') else digits(x) if self.kind == 'ints' else [x]

    def arg(self, v):
        if self.kind in ('bytes', 'words'):
            return bytes(v)
        if self.kind == 'ints':
            return number(v)
        return self.rnd.choice([0, False, None, '']) if v == [0] else self.rnd.choice([1, 1, True, 7, -1, 'x'])

    def iterate(self, busy):
        got, k = [], self.kind
        it = iter(self.a)
        for x in it:
            got += [self.one(x)] if k in ('words', 'ints') else self.one(x)
            n = 8 if k == 'byte' else len(self.a)
            if busy and n:
                self.a[self.rnd.randrange(n)]
        return got

    def perform(self, e):
        op, a, i = e['op'], self.a, e['i']
        if op == 'LEN':
            return [len(a)] if not hasattr(a, 'get_size') or self.rnd.random() < 0.5 else [a.get_size()]
        elif op == 'GET':
            return self.one(a[i])
        elif op == 'SET':
            a[i] = self.arg(e['v'])
        elif op in ('ITER', 'ITERX'):
            return self.iterate(op == 'ITERX')
        elif op == 'STR':
            return [int(x) for x in str(a)]
        elif op == 'CUT':
            return list(a[i:e['j']])
        elif op == 'PASTE':
            a[i:e['j']] = bytes(e['v'])
        elif op == 'SIZE':
            if e['v']:
                a.set_size(i, bytes(e['v']))
            else:
                a.set_size(i)
        elif op == 'WIDTH':
            return [a.get_bytes_per_word()]
        elif op == 'BLANK':
            return digits(a.get_blank_value())
        elif op == 'GETD':
            x = a.get(i, None)
            return [] if x is None else digits(x)
        elif op == 'ITEMS':
            return [[j, digits(x)] for j, x in (a.items() if self.rnd.random() < 0.5 else a.iteritems())]
        elif op == 'ADD':
            self.top = max(self.top, i)
            a.add(i)
        elif op == 'DISCARD':
            a.discard(i)
        elif op == 'IN':
            return [int(i in a)]
        elif op == 'INT':
            if int(a) != a.byte()[0] or chr(int(a)) != str(a):
                return [-1]
            return [int(a)]
        elif op == 'REOPEN':
            self.reopen()
        elif op == 'FENCE':
            if self.f is not None and self.post is None:
                self.post = bytes(self.rnd.randrange(256) for i in range(self.rnd.choice([1, 9, 40])))
                self.f.seek(0, 2)
                self.f.write(self.post)
                self.length = self.f.tell()
                self.reopen()
        else:
            raise Unknown(op)
        return []

    def reopen(self):
        f, k = self.f, self.kind
        if f is None or k == 'byte':
            return
        n = 0 if k == 'set' else len(self.a)
        if k == 'set':
            f.seek(0, 2)
            bits = 8 * (f.tell() - len(self.pre) - len(self.post or b''))
        if self.dir and self.rnd.random() < 0.7:
            f.flush()
            f.close()
            self.f = f = open(os.path.join(self.dir, 'x'), 'r+b') if not isinstance(f, File) else File(os.path.join(self.dir, 'x'))
        f.seek(len(self.pre))
        if k == 'bytes':
            self.a = ByteArray(n, f)
        elif k == 'bits':
            self.a = BitArray(n, f)
        elif k == 'words':
            self.a = WordArray(f)
        elif k == 'ints':
            self.a = IntArray(f)
        else:
            self.a = IntSet(bits, f)

    def do(self, op, i=0, j=0, v=()):
        e = dict(op=op, i=i, j=j, v=list(v))
        if self.post is not None and (op == 'SIZE' or op == 'ADD' and i > self.top):
            return      # cannot grow there
        out = []
        try:
            out, res = self.perform(e), 'ok'
        except (Unknown, Hang):
            raise
        except (IndexError, ValueError) as x:
            res = type(x).__name__
        except Exception as x:
            res = 'error' if op == 'SIZE' else outcome(x)
        self.log(e, res, out)

    def close(self):
        if self.dir:
            self.f.close()
            shutil.rmtree(self.dir, True)


class Unknown(Exception):
    pass


def random_value(w):
    rnd, k = w.rnd, w.kind
    if k == 'bytes':
        return [rnd.randrange(256)] if rnd.random() < 0.9 else [1] * rnd.choice([0, 2])
    if k in ('bits', 'byte'):
        return [rnd.randrange(2)]
    if k == 'words':
        n = w.a.get_bytes_per_word()
        return [rnd.randrange(256) for i in range(n if rnd.random() < 0.9 else n + rnd.choice([-1, 1]))]
    width = sum(1 for x in digits(w.a.get_blank_value()) if x)
    n = rnd.randrange(0, 9) if rnd.random() < 0.2 else rnd.randrange(0, width + 1)
    return digits(rnd.choice([rnd.randrange(256 ** n) if n else 0, max(256 ** n - rnd.randrange(1, 3), 0), 2 ** (8 * n - 1) if n else 1]))


def random_start(rnd, kind, large):
    n = rnd.choice([8196, 8195, 8195, 8197, 16393, 16391, 0]) if large and kind == 'bytes' else rnd.choice([300, 1000]) if large \
        else rnd.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 33])
    e = dict(op='INIT', kind=kind, i=n, j=0, v=[])
    if kind == 'words':
        e['j'] = rnd.choice([1, 2, 3, 8, 20])
    if kind == 'ints' and rnd.random() < 0.8:
        w = rnd.randrange(1, 9)
        e['v'] = digits(max(0, 256 ** w - rnd.randrange(1, 4) if w < 8 else 256 ** w - 2 - rnd.randrange(3)))
    if kind == 'byte':
        e['i'] = rnd.randrange(256)
    if kind == 'set':
        e['i'] = rnd.choice([0, 1, 2, 5, 8, 30, 1023])
    return e


def random_ops(w, steps, large):
    rnd, k = w.rnd, w.kind
    ops = ['GET', 'SET', 'SET', 'ITER', 'ITERX', 'REOPEN', 'LEN']
    ops += dict(bytes=['CUT', 'CUT', 'PASTE', 'PASTE', 'SIZE'], bits=['SIZE', 'STR'], words=['WIDTH'], ints=['GETD', 'ITEMS', 'BLANK'], byte=['INT'], set=[])[k]
    if k == 'byte':
        ops = ['GET', 'SET', 'ITER', 'INT']
    if k == 'set':
        ops = ['ADD', 'ADD', 'ADD', 'DISCARD', 'IN', 'IN', 'REOPEN']
    limit = 1000 if large else 60
    for s in range(steps):
        op = rnd.choice(ops) if rnd.random() < 0.97 else 'FENCE'
        n = 8 if k == 'byte' else 0 if k == 'set' else len(w.a)
        if large and op in ('ITERX', 'ITER', 'STR', 'ITEMS') and rnd.random() < 0.7:
            op = 'GET' if k != 'set' else 'IN'
        i = rnd.choice([rnd.randrange(-n - 2, n + 3), rnd.randrange(n) if n else 0, n - 1, n, 0, -1])
        if k == 'byte' and op == 'FENCE' or k == 'set' and op == 'FENCE':
            continue
        if op in ('ADD', 'DISCARD', 'IN'):
            i = rnd.choice([rnd.randrange(limit), rnd.randrange(10), w.top, w.top + 1, max(w.top - 1, 0)])
            if i > 3000:
                i = 7
            w.do(op, i)
        elif op in ('GET', 'GETD'):
            w.do(op, i)
        elif op == 'SET':
            w.do(op, i, v=random_value(w))
        elif op in ('CUT', 'PASTE'):
            j = rnd.choice([i + 1, i + 2, n, rnd.randrange(-1, n + 2), i + 8197 if large else i + 5])
            m = max(j - i, 0) if rnd.random() < 0.9 else max(j - i + rnd.choice([-1, 1]), 0)
            w.do(op, i, j, [rnd.randrange(256) for x in range(m)] if op == 'PASTE' else [])
        elif op == 'SIZE':
            g = rnd.choice([0, 1, 2, 7, 8, 9, 17] if not large else [1, 8195, 8196, 8197])
            if k == 'bytes' and rnd.random() < 0.1:
                g = -1
            if n + g >= 0 and n + g < 20000:
                w.do(op, n + g, v=[rnd.randrange(256)] if k == 'bytes' and rnd.random() < 0.3 else [])
        else:
            w.do(op)


def traced(e, rnd, body, meta):
    w = None
    ev = []
    try:
        with Watchdog(60):
            w = W(rnd, e)
            ev = w.ev
            body(w)
    except Hang as x:
        ev.append(dict(op='HANG', what=str(x)))
    except Exception as x:
        class L(object):
            def log(self, **k):
                ev.append(k)
        log_unexpected(L(), x)
    if w is not None:
        try:
            w.close()
        except Exception:
            pass
    return dict(ev=ev, meta=meta)


def run(profile, seed, index):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    kind = profile['kinds'][index % len(profile['kinds'])]
    e = random_start(rnd, kind, profile['large'])
    return traced(e, rnd, lambda w: random_ops(w, profile['steps'], profile['large']), dict(profile=profile, seed=seed, index=index))


def replay(seed, index, script):
    rnd = random.Random('%s/%s' % (seed, index))
    def body(w):
        for e in script[1:]:
            w.do(e['op'], e['i'], e['j'], e['v'])
    return traced(script[0], rnd, body, dict(seed=seed, index=index, script=script))


def main():
    spec = json.load(open(sys.argv[1]))
    if 'scripts' in spec:
        traces = [replay(spec['seed'], i, s) for i, s in enumerate(spec['scripts'])]
    else:
        traces = [run(spec['profile'], spec['seed'], i) for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)


if __name__ == '__main__':
    main()
