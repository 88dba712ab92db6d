"""Crash points: runs a storage while shim.c records every file operation,
reconstructs the files as a crash at any operation may leave them, recovers
them with the real code, and records traces for DurusLogTrace.tla."""
import ctypes
from pk import *

SHIM = ctypes.CDLL(os.environ['VT_SHIM'])
SHIM.vt_watch.argtypes = [ctypes.c_char_p, ctypes.c_int]
SHIM.vt_mark.argtypes = [ctypes.c_long]


# ------------------------------------------------------------------ file system
class Files(object):
    """the files of one directory; what is in memory and what is on disk"""
    def __init__(self):
        self.names = {}         # name -> id
        self.ids = {}           # inode -> id
        self.data = {}          # id -> bytearray
        self.versions = {}      # id -> contents since the last fsync, oldest first
        self.durable = {}       # id -> size at the last fsync
        self.oldnames = [{}]    # earlier names that may still be on disk
        self.n = 0

    def load(self, files):
        """files: name -> bytes, all on disk"""
        for name, content in sorted(files.items()):
            self.n += 1
            self.names[name] = self.n
            self.data[self.n] = bytearray(content)
            self.synced(self.n)
        self.oldnames = [dict(self.names)]

    def synced(self, i):
        self.versions[i] = [bytes(self.data[i])]
        self.durable[i] = len(self.data[i])

    def apply(self, op):
        kind = op[0]
        if kind == 'O':
            ino, created, name = op[1], op[3], op[4]
            if created or ino not in self.ids:
                if not created and name in self.names:
                    self.ids[ino] = self.names[name]
                    return
                self.n += 1
                self.ids[ino] = self.names[name] = self.n
                self.data[self.n] = bytearray()
                self.synced(self.n)
                self.oldnames.append(dict(self.names))
        elif kind == 'W':
            i = self.ids[op[1]]
            d = self.data[i]
            off, b = op[2], op[3]
            if len(d) < off:
                d.extend(bytes(off - len(d)))
            d[off:off + len(b)] = b
            self.versions[i].append(bytes(d))
        elif kind == 'T':
            i = self.ids[op[1]]
            d = self.data[i]
            if len(d) > op[2]:
                del d[op[2]:]
            else:
                d.extend(bytes(op[2] - len(d)))
            self.versions[i].append(bytes(d))
        elif kind == 'F':
            if op[1] in self.ids:
                self.synced(self.ids[op[1]])
                self.oldnames = [dict(self.names)]
        elif kind == 'R':
            if op[1] in self.names:
                self.names[op[2]] = self.names.pop(op[1])
                self.oldnames.append(dict(self.names))
        elif kind == 'L':
            self.names[op[2]] = self.names[op[1]]
            self.oldnames.append(dict(self.names))
        elif kind == 'U':
            self.names.pop(op[1], None)
            self.oldnames.append(dict(self.names))

    def process_image(self):
        return dict((n, bytes(self.data[i])) for n, i in self.names.items())

    def machine_image(self, rnd, meta):
        """what the disk may hold: names of some moment since the last fsync, and for
        each file a content since its last fsync, cut off at any later size"""
        names = rnd.choice(self.oldnames) if meta else self.names
        chosen = {}
        for i in sorted(set(names.values())):
            vs = self.versions[i]
            r = rnd.random()
            v = vs[-1] if r < 0.4 else vs[0] if r < 0.6 else rnd.choice(vs)
            lo = min(self.durable[i], len(v))
            if lo < len(v) and rnd.random() < 0.6:
                v = v[:rnd.choice([lo, lo + 1, len(v) - 1, rnd.randrange(lo, len(v)), rnd.randrange(lo, len(v))])]
            chosen[i] = v
        return dict((n, chosen[i]) for n, i in names.items())


def parse_log(path):
    ops = []
    with open(path, 'rb') as f:
        while True:
            line = f.readline()
            if not line:
                return ops
            p = line.decode().split()
            base = os.path.basename
            if p[0] == 'W':
                n = int(p[3])
                ops.append(('W', int(p[1]), int(p[2]), f.read(n)))
                f.readline()
            elif p[0] == 'O':
                ops.append(('O', int(p[1]), int(p[2]), int(p[3]), base(p[4])))
            elif p[0] == 'T':
                ops.append(('T', int(p[1]), int(p[2])))
            elif p[0] in 'RL':
                ops.append((p[0], base(p[1]), base(p[2])))
            elif p[0] == 'U':
                ops.append(('U', base(p[1])))
            else:
                ops.append((p[0], int(p[1])))


# ---------------------------------------------------------------------- recovery
def dump_of(s):
    rows = []
    for o, r in s.gen_oid_record():
        row = parse_record(bytes(r))
        if row[0] != u8(o):
            row[0] = -99
        rows.append(row)
    return sorted(rows)


def dump_or(s):
    try:
        return dump_of(s)
    except Exception as e:
        outcome(e)
        return [[-98, 0, []]]


def put_files(d, files):
    for name, content in files.items():
        with open(os.path.join(d, name), 'wb') as f:
            f.write(content)


def get_files(d):
    return dict((name, open(os.path.join(d, name), 'rb').read()) for name in os.listdir(d))


class Recovery(object):
    """opens what a crash left"""
    def __init__(self, kind, where, rnd):
        self.kind, self.rnd, self.where = kind, rnd, where
        self.cls = STORAGES[kind]
        self.version = 500000

    def attempt(self, d, **kw):
        """-> outcome, storage or None"""
        res, s = 'ok', None
        try:
            s = self.cls(os.path.join(d, 'db'), **kw)
        except Exception as e:
            res = outcome(e)
            self.failed = e     # the program may go on inside of its except block
        return res, s

    def open(self, d):
        """-> (outcome of the plain open, outcome with repair or 'no', storage)"""
        plain, s = self.attempt(d)
        if s is not None:
            return plain, 'no', s
        rep, s = self.attempt(d, repair=True)
        self.failed = None
        return plain, rep, s

    def event(self, files, what, deep):
        d = tempfile.mkdtemp(dir=self.where)
        e = dict(op='CR', what=what, open='', rep='no', db=[], ro='no', mod=0, dres='no', new=[], re=[], pres='no',
                 pk=[])
        try:
            put_files(d, files)
            if deep and self.kind != 'sqlite':
                # looking at it first must not change it
                e['ro'], s = self.attempt(d, readonly=True)
                if s is not None:
                    try:
                        e['rdb'] = dump_of(s)
                    finally:
                        s.close()
                e['mod'] = int(get_files(d) != files)
            e['open'], e['rep'], s = self.open(d)
            if s is None:
                return e
            try:
                e['db'] = dump_of(s)
                if deep:
                    e['dres'] = 'ok'
                    step = 'commit'
                    try:
                        o = u8(s.new_oid())
                        if o == 0:
                            o = u8(s.new_oid())     # nothing was committed yet
                        self.version += 1
                        known = self.rnd.choice(e['db'] or [[0, 0, [0]]])
                        e['new'] = [[known[0], self.version, sorted(set(known[2]) | {o})], [o, self.version, []]]
                        s.begin()
                        for r in e['new']:
                            s.store(i8(r[0]), make_record(*r))
                        s.end()
                        if deep > 1:
                            e['pres'] = 'ok'
                            s.pack()
                            e['pk'] = dump_of(s)
                        s.close()
                        s = None
                        gc.collect(0)
                        s = self.cls(os.path.join(d, 'db'))
                        e['re'] = dump_of(s)
                    except Exception as x:
                        e['dres'] = outcome(x)
            finally:
                if s is not None:
                    s.close()
        except Exception as x:
            e['open'] = e['rep'] = outcome(x)
        finally:
            shutil.rmtree(d, True)
        return e

    def cut(self, content, n):
        e = dict(op='CUT', at=n, open='', rep='no', db=[], rdb=[])
        d = tempfile.mkdtemp(dir=self.where)
        try:
            files = {'db': content[:n]}
            put_files(d, files)
            e['open'], s = self.attempt(d)
            if s is None:
                if get_files(d) != files:
                    put_files(d, files)
            else:
                e['db'] = dump_or(s)
                s.close()
            e['rep'], s = self.attempt(d, repair=True)
            self.failed = None
            if s is not None:
                e['rdb'] = dump_or(s)
                s.close()
        finally:
            shutil.rmtree(d, True)
        return e


# --------------------------------------------------------------------- the history
class C(W):
    """events carry marks; the log of file operations lies between them"""
    def __init__(self, profile, rnd, where):
        self.p, self.rnd = profile, rnd
        self.where = where
        self.dir = tempfile.mkdtemp(dir=where)
        self.logdir = tempfile.mkdtemp(dir=where)
        self.kind = profile['kind']
        self.cls = STORAGES[self.kind]
        self.inc = profile.get('inc', 1)
        self.out = []           # finished events
        self.recovery = Recovery(self.kind, where, rnd)
        self.v = 0
        self.epoch = 0
        self.packer = None
        self.s = None

    def log(self, **e):
        self.ev.append(e)
        SHIM.vt_mark(len(self.ev) - 1)

    def begin_epoch(self, files):
        self.epoch += 1
        self.start_files = files
        self.wd = os.path.join(self.dir, 'e%d' % self.epoch)
        os.mkdir(self.wd)
        put_files(self.wd, files)
        self.path = os.path.join(self.wd, 'db')
        self.ev = []
        self.logpath = os.path.join(self.logdir, 'log%d' % self.epoch)
        self.logfd = os.open(self.logpath, os.O_RDWR | os.O_CREAT)
        SHIM.vt_watch(self.wd.encode(), self.logfd)
        self.known, self.free, self.last = {}, [], []

    def end_epoch(self):
        SHIM.vt_watch(None, -1)
        os.close(self.logfd)
        if self.packer is not None:
            self.packer.close()
            self.packer = None
        if self.s is not None:
            self.s.close()
            self.s = None
        ops = parse_log(self.logpath)
        os.unlink(self.logpath)
        return ops

    def start(self):
        """open (and repair, if that is needed) what is there"""
        res, rep, s = self.recovery.open(self.wd)
        rows = dump_of(s) if s is not None else []
        self.log(op='OP', open=res, rep=rep, db=rows)
        if s is None:
            raise Hang('cannot go on')
        if hasattr(s, '_PACK_INCREMENT'):
            s._PACK_INCREMENT = self.inc
        self.s = s
        self.last = rows
        self.known = dict((r[0], set(r[2])) for r in rows)

    def store(self, changes):
        res, rows = 'ok', []
        for o, refs in changes:
            self.v += 1
            rows.append([o, self.v, sorted(refs)])
        self.log(op='CM', rows=rows)
        try:
            self.s.begin()
            for o, v, refs in rows:
                pad = self.rnd.choice([0, 0, 0, 10, 300, 5000]) if self.rnd.random() < 0.9 else 70000
                self.s.store(i8(o), make_record(o, v, refs, pad))
            self.s.end()
        except Exception as e:
            res = outcome(e)
        self.log(op='ACK', res=res, low=0, size=0, sync=1, end=0)
        self.last = self.rows()
        for o, v, refs in rows:
            self.known[o] = set(refs)
            if o in self.free:
                self.free.remove(o)

    def new(self):
        o = u8(self.s.new_oid())
        self.free.append(o)
        return o

    def start_pack(self):
        if self.packer is None:
            self.log(op='PB')
            self.packer = self.s.get_packer()

    def step(self, n=1):
        for i in range(n):
            if self.packer is None:
                return
            res, fin = 'ok', 0
            ino = os.stat(self.path).st_ino
            self.log(op='PS')
            try:
                next(self.packer)
            except StopIteration:
                fin = 1
                self.packer = None
            except Exception as e:
                res = outcome(e)
                self.packer = None
            rows = self.rows()
            if fin or res != 'ok' or rows != self.last or os.stat(self.path).st_ino != ino:
                self.log(op='PE', res=res, fin=fin, db=rows, end=0, sync=1)
                present = set(r[0] for r in rows)
                for o in list(self.known):
                    if o not in present:
                        del self.known[o]
            self.last = rows

    def readonly(self):
        """a reader while the writer has it open"""
        if self.kind == 'sqlite':
            return
        e = dict(op='RD', res='ok', db=[], mod=0, cres='no', pres='no', after=[])
        SHIM.vt_mark(-1)
        try:
            s = self.cls(self.path, readonly=True)
            e['db'] = dump_of(s)
            if self.rnd.random() < 0.7:
                try:
                    o = e['db'][0][0]
                    s.begin()
                    s.store(i8(o), make_record(o, 777777, []))
                    s.end()
                    e['cres'] = 'ok'
                except Exception as x:
                    e['cres'] = outcome(x)
            if self.rnd.random() < 0.7:
                try:
                    s.pack()
                    e['pres'] = 'ok'
                except Exception as x:
                    e['pres'] = outcome(x)
            e['after'] = self.rows()
            s.close()
        except Exception as x:
            e['res'] = outcome(x)
        gc.collect(0)
        self.log(**e)

    def random_op(self):
        rnd, ops = self.rnd, self.p['ops']
        names = sorted(ops)
        op = rnd.choices(names, [ops[n] for n in names])[0]
        if op == 'ST':
            self.random_commit()
        elif op == 'NEW':
            self.new()
        elif op == 'PB':
            self.start_pack()
        elif op == 'PS':
            self.step(rnd.choice([1, 1, 2, 5]))
        elif op == 'PF':
            if self.packer is None:
                self.start_pack()
            while self.packer is not None:
                self.step()
        elif op == 'RD':
            self.readonly()

    def finish(self, ops, images, cuts, crash):
        """merge the events with recoveries from crash images; if crash, stop at some
        operation and return the files that are left"""
        rnd = self.rnd
        fs = Files()
        fs.load(self.start_files)
        marks = [i for i, op in enumerate(ops) if op[0] == 'M']
        points = [i for i, op in enumerate(ops) if op[0] != 'M']
        stop = None
        if crash and points:
            stop = rnd.choice(points)
            points = [i for i in points if i <= stop]
        p = images / float(max(len(points), 1))
        cur = None              # what the operations belong to
        low = size = None
        sync = 1
        writes = 0
        for i, op in enumerate(ops):
            main = fs.names.get('db')
            if op[0] == 'M':
                if op[1] < 0:
                    writes = 0
                    continue
                e = self.ev[op[1]]
                if e['op'] in ('CM', 'PS'):
                    size = len(fs.data[main]) if main else 0
                    low = size
                elif e['op'] in ('ACK', 'PE'):
                    e['end'] = len(fs.data[main]) if main else 0
                    e['sync'] = int(main is None or len(fs.versions[main]) == 1)
                    if e['op'] == 'ACK':
                        e['low'], e['size'] = (low, size) if self.kind != 'sqlite' else (0, 0)
                elif e['op'] == 'RD':
                    e['mod'] = writes
                elif e['op'] == 'OP':
                    e['end'] = len(fs.data[main]) if main else 0
                writes = 0
                if e['op'] != 'PS':
                    self.out.append(e)
                continue
            if op[0] != 'O' or op[3]:
                writes += 1
            before = None
            if op[0] == 'W' and fs.ids.get(op[1]) == main:
                low = min(low or 0, op[2])
            elif op[0] == 'T' and fs.ids.get(op[1]) == main:
                low = min(low or 0, op[2])
            if i == stop or rnd.random() < p:
                if op[0] == 'W' and len(op[3]) > 1 and rnd.random() < 0.5:
                    # torn by the end of the process
                    n = rnd.choice([1, len(op[3]) - 1, rnd.randrange(1, len(op[3]))])
                    fs.apply(('W', op[1], op[2], op[3][:n]))
                    img, what = fs.process_image(), 'torn'
                    if rnd.random() < 0.3:
                        img, what = fs.machine_image(rnd, self.kind != 'sqlite'), 'machine'
                    before = (img, what)
            fs.apply(op)
            if i == stop or rnd.random() < p:
                if before is None:
                    if rnd.random() < 0.35:
                        before = fs.process_image(), 'process'
                    else:
                        before = fs.machine_image(rnd, self.kind != 'sqlite'), 'machine'
            if before is not None:
                img, what = before
                e = self.recovery.event(img, what, rnd.choice([0, 1, 1, 2]))
                self.out.append(e)
                if i == stop and 'ok' in (e['open'], e['rep']):
                    self.out.append(dict(op='CRASH', what=what))
                    return img
        if cuts and self.kind != 'sqlite':
            content = fs.process_image()['db']
            for n in sorted(rnd.sample(range(1, len(content)), min(cuts, len(content) - 1))):
                self.out.append(self.recovery.cut(content, n))
        return None

    def close(self):
        SHIM.vt_watch(None, -1)
        for x in (self.packer, self.s):
            try:
                x.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, True)
        shutil.rmtree(self.logdir, True)


def play(w, act, epochs, images, cuts):
    """act(epoch): the operations of one epoch"""
    files = {}
    for k in range(epochs):
        w.begin_epoch(files)
        died = None
        try:
            w.start()
            act(k)
        except (Hang, Exception) as e:
            died = e
        ops = w.end_epoch()
        if died is not None:
            w.out += w.ev
            w.ev = []
            raise died
        files = w.finish(ops, images, cuts if k == epochs - 1 else 0, k < epochs - 1)
        if k < epochs - 1 and files is None:
            break


def first_commit(w):
    if not w.known:
        n = w.p.get('objects', 3)
        rnd = w.rnd
        graph = dict((o, set(rnd.randrange(0, n) for i in range(rnd.choice([0, 1, 2]))) - {o}) for o in range(n))
        for o in range(1, n):
            if rnd.random() < 0.7:
                graph[(o - 1) // 2].add(o)
        setup(w, graph)


def run(profile, seed, index, where, script=None):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    for key in ('kind', 'inc', 'objects', 'epochs'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    w = C(prof, rnd, where)
    try:
        with Watchdog(100):
            if script is None:
                def act(k):
                    first_commit(w)
                    for i in range(rnd.randrange(prof.get('steps', 12) // 2, prof.get('steps', 12) + 1)):
                        w.random_op()
                play(w, act, prof.get('epochs', 1), prof.get('images', 30), prof.get('cuts', 0))
            else:
                parts = [[]]
                for op in script:
                    if op[0] == 'X':
                        parts.append([])
                    else:
                        parts[-1].append(op)
                def act(k):
                    first_commit(w)
                    for op in parts[k]:
                        if op[0] == 'C':
                            old = sorted(w.known)
                            ch = dict((rnd.choice(old), None) for i in range(op[1]))
                            w.store([(o, w.known[o]) for o in ch])
                        elif op[0] == 'PB':
                            w.start_pack()
                        elif op[0] == 'PS':
                            w.step()
                play(w, act, len(parts), prof.get('images', 30), prof.get('cuts', 0))
    except Hang as e:
        w.out.append(dict(op='HANG', what=str(e)))
    except Exception as e:
        w.ev = w.out
        w.log = lambda **e: w.out.append(e)
        log_unexpected(w, e)
    finally:
        w.close()
    return dict(ev=w.out, meta=dict(profile=prof, seed=seed, index=index, script=script))


def main():
    spec = json.load(open(sys.argv[1]))
    where = tempfile.mkdtemp()
    if 'scripts' in spec:
        traces = [run(spec['profile'], spec['seed'], i, where, s) for i, s in enumerate(spec['scripts'])]
    else:
        traces = [run(spec['profile'], spec['seed'], i, where) for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)
    shutil.rmtree(where, True)


if __name__ == '__main__':
    main()
