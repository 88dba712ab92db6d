"""Tools that copy, convert, rename, pack and inspect databases, for
DurusToolsTrace.tla."""
from rt import *
import contextlib, datetime, runpy, subprocess
import tlobj
from tlobj import *
import durus.__main__
from durus.__main__ import get_storage_class, get_storage
from durus.btree import BTree, BNode4, BNode8, BNode16
from durus.connection import touch_every_reference, gen_every_instance
from durus.storage import (MemoryStorage, gen_referring_oid_record, gen_oid_class, get_census,
                           get_reference_index)

WORDS = ['wordzero', 'wordone', 'wordtwo']
HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.dirname(os.path.dirname(os.path.abspath(durus.__main__.__file__)))


# ------------------------------------------------------------------ the records, independently
def canon(x, refs, memo, words):
    """text that stands for x; references are collected in their order"""
    t = type(x)
    if t is Ref:
        refs.append([x.oid, x.cls.__name__])
        words.add(x.cls.__name__)
        return '#'
    if isinstance(x, type):
        words.add(x.__name__)
        return 'class ' + x.__name__
    if t in (list, dict, set, TlPlain):
        if id(x) in memo:
            return '@%d' % memo[id(x)]
        memo[id(x)] = len(memo)
    rec = lambda y: canon(y, refs, memo, words)
    if t is tuple:
        return '(' + ','.join([rec(y) for y in x]) + ')'
    if t is list:
        return '[' + ','.join([rec(y) for y in x]) + ']'
    if t in (set, frozenset):
        return '{' + ','.join([rec(y) for y in sorted(x, key=lambda y: (type(y) is Ref, repr(y)))]) + '}'
    if t is dict:
        keys = sorted(x, key=lambda y: (type(y) is Ref, repr(y)))
        return '{' + ','.join([rec(k) + ':' + rec(x[k]) for k in keys]) + '}'
    if t is TlPlain:
        words.add('TlPlain')
        return 'plain(' + rec(x.x) + ',' + rec(x.y) + ')'
    if t is str:
        for w in WORDS:
            if w in x:
                words.add(w)
    return repr(x)


class W(object):
    def __init__(self, profile, rnd):
        self.p, self.rnd = profile, rnd
        self.dir = tempfile.mkdtemp(prefix='tl')
        self.ev, self.values, self.files = [], {}, 0
        self.kind = self.s = self.c = self.server = self.path = None
        self.rows_now = []
        self.marks = 0

    def log(self, **e):
        self.ev.append(e)

    # ---- looking
    def row(self, record):
        oid, klass, state, listed = decode(bytes(record))
        refs, words = [], {klass.__name__}
        text = canon(state, refs, {}, words)
        val = self.values.setdefault(text, len(self.values))
        if os.environ.get("TLDEBUG"): print(oid, val, text, file=sys.stderr)
        return [oid, klass.__name__, val, refs, listed, sorted(words)]

    def rows(self, s=None):
        res = []
        s = s or (self.real if self.kind == 'net' else self.s)
        for o, r in all_records(s):
            row = self.row(r)
            if row[0] != u8(o):
                raise AssertionError('oid')
            res.append(row)
        res.sort(key=lambda row: row[0])
        self.rows_now = res
        return res

    # ---- files
    def new_path(self, ext='db'):
        self.files += 1
        return os.path.join(self.dir, 'f%d.%s' % (self.files, ext))

    def open(self, connect=True, new=False):
        if self.kind == 'mem':
            if self.s is None:
                self.s = MemoryStorage()
                self.skip(self.s)
        else:
            storage = STORAGES['fs' if self.kind == 'net' else self.kind](self.path)
            if new:
                self.skip(storage)
            if self.kind == 'net':
                self.server = Server(Gated(storage), os.path.join(self.dir, 'sock'))
                self.real = storage
                storage = ClientStorage(address=self.server.path)
            self.s = storage
        self.c = Connection(self.s, root_class=TlAlpha if new and not self.root_is_dict else None) if connect else None

    def skip(self, s):
        """oids that are never used"""
        if not self.p.get('script') and self.rnd.random() < 0.3:
            Connection(s, root_class=TlAlpha if not self.root_is_dict else None)
            for i in range(self.rnd.choice([3, 250, 253, 300])):
                s.new_oid()

    def close(self):
        self.c = None
        if self.kind == 'mem':
            return
        if self.s is not None:
            self.s.close()
        if self.server is not None:
            self.server.stop()
            self.real.close()
            self.server = None
        self.s = None
        gc.collect()

    def new_conn(self):
        self.c = Connection(self.s)

    # ---- building
    def text(self):
        rnd = self.rnd
        r = rnd.random()
        if r < self.p.get('long', 0):
            n = rnd.choice([3000, 9000, 70000])
            return ''.join(rnd.choices('abcdefgh', k=n)) + rnd.choice(['', '', rnd.choice(WORDS)])
        r = rnd.random()
        if r < 0.15:
            return 'x' * rnd.randrange(0, 3) + rnd.choice(WORDS) + 'y' * rnd.randrange(0, 200)
        if r < 0.3:
            return '\xe9\u20ac' * rnd.randrange(1, 4)
        if r < 0.4:
            return ''.join(rnd.choice('abcdefgh') for i in range(rnd.choice([300, 3000])))
        return 't%d' % rnd.randrange(100)

    def value(self, objs, depth=0):
        rnd = self.rnd
        r = rnd.random()
        if r < 0.45 and objs:
            return rnd.choice(objs)
        if r < 0.6:
            return self.text()
        if depth < 2 and r < 0.8:
            n = rnd.choice([0, 1, 2, 3])
            k = rnd.randrange(5)
            if k == 0:
                return [self.value(objs, depth + 1) for i in range(n)]
            if k == 1:
                return tuple(self.value(objs, depth + 1) for i in range(n))
            if k == 2:
                return dict(('k%d' % i, self.value(objs, depth + 1)) for i in range(n))
            if k == 3:
                return set(rnd.sample(range(50), n))
            return TlPlain(self.value(objs, depth + 1), self.value(objs, depth + 1))
        return rnd.choice([None, True, -1, 0, 255, 65536, 2 ** 70, 1.5, b'\xff\x00', datetime.date(2020, 2, 3), datetime.date(1901, 2, 3), datetime.datetime(1902, 3, 4, 5, 6, 7, 8),
                           datetime.datetime(2021, 3, 4, 5, 6, 7), TlPlain])

    def make(self, kind):
        if kind == 'dict':
            return PersistentDict()
        if kind == 'list':
            return PersistentList()
        if kind == 'set':
            return PersistentSet()
        if kind == 'btree':
            return BTree(node_constructor=self.rnd.choice([BNode4, BNode8, BNode16]))
        if kind == 'ca':
            return ComputedAttribute()
        return dict(alpha=TlAlpha, beta=TlBeta, slots=TlSlots, own=TlOwn)[kind]()

    def fill(self, o, objs):
        rnd = self.rnd
        n = rnd.choice([0, 1, 2, 2, 3])
        if self.p.get('long'):
            n = 3
        t = type(o)
        val = lambda: self.value(objs)
        shared = [self.value(objs, 1)]
        if t in (TlAlpha, TlBeta):
            for i in range(n):
                setattr(o, 'abc'[i], val())
            if rnd.random() < 0.2:
                o.s1, o.s2 = shared, [shared, shared]
        elif t is TlSlots:
            for i in range(n):
                setattr(o, ['a', 'b', 'more'][i], val())
        elif t is TlOwn:
            for i in range(n):
                o.items.append(val())
            o._p_note_change()
        elif t is PersistentDict:
            for i in range(n):
                o[rnd.choice(['k1', 'k2', 3, ('a', 1)])] = val()
            if rnd.random() < 0.1 and hashable(objs) and not any(isinstance(k, PersistentObject) for k in o):
                o[rnd.choice(hashable(objs))] = 1
        elif t is PersistentList:
            for i in range(n):
                o.append(val())
            if rnd.random() < 0.1:
                o.append(o)
        elif t is PersistentSet:
            for i in range(n):
                o.add(rnd.randrange(20))
            if rnd.random() < 0.4 and hashable(objs) and not any(isinstance(k, PersistentObject) for k in o):
                o.add(rnd.choice(hashable(objs)))
        elif t is BTree:
            for i in range(rnd.choice([0, 3, 10, 30])):
                o[rnd.randrange(100)] = val()

    def link(self, o, name, x):
        """give o a reference to x"""
        t = type(o)
        if t in (TlAlpha, TlBeta, TlNova):
            setattr(o, name, x)
        elif t is TlSlots or t is TlNovaSlots:
            o.v = (getattr(o, 'v', None), x)
        elif t is TlOwn:
            o.items.append(x)
            o._p_note_change()
        elif t is PersistentDict:
            o[name] = x
        elif t is PersistentList:
            o.append(x)
        else:
            return False
        return True

    def unlink(self, o, name):
        if type(o) is PersistentDict:
            del o[name]
        else:
            delattr(o, name)

    def build_random(self):
        rnd = self.rnd
        root = self.c.get_root()
        n = rnd.choice(self.p.get('n', [1, 3, 6, 12, 25]))
        kinds = ['alpha', 'alpha', 'beta', 'slots', 'own', 'dict', 'list', 'set', 'btree', 'ca']
        if self.p.get('plainroot'):
            kinds = kinds[:3]
        objs = [self.make(rnd.choice(kinds)) for i in range(n)]
        for o in objs:
            self.fill(o, objs + ([root] if rnd.random() < 0.5 else []))
        if rnd.random() < 0.3:
            # small oids and some around 256
            self.link(root, 'first', objs[:rnd.randrange(1, n + 1)])
            self.c.commit()
            for i in range(250):
                (self.real if self.kind == 'net' else self.s).new_oid()
        for i, o in enumerate(objs):
            if rnd.random() < 0.5:
                self.link(root, 'o%d' % i, o)
        self.link(root, 'all', list(objs))
        self.c.commit()
        if rnd.random() < 0.3:
            self.link(root, 'me', root)
            self.c.commit()
        for i in range(rnd.randrange(0, 4)):
            o = rnd.choice(objs)
            self.fill(o, objs)
            self.c.commit()
        if rnd.random() < 0.7:
            self.unlink(root, 'all')        # leaves garbage
            self.c.commit()
        self.log(op='DB', res='ok', db=self.rows())

    def build_script(self, rows):
        rnd = self.rnd
        other = rnd.choice(['slots', 'beta', 'dict', 'alpha'])
        objs = [self.c.get_root()] + [self.make('alpha' if r[0] == 'A' else other) for r in rows[1:]]
        root = objs[0]
        place = dict(zip([0, 1, 3, 4, 6], objs))
        self.link(root, 'all', list(objs[1:]))
        self.c.commit()
        for o, r in zip(objs, rows):
            for j, ref in enumerate(r[1]):
                if type(o) is PersistentDict:
                    o['ab'[j]] = place[ref[0]]
                else:
                    setattr(o, 'ab'[j], place[ref[0]])
        self.c.commit()
        self.unlink(root, 'all')
        self.c.commit()
        self.log(op='DB', res='ok', db=self.rows())

    # ---- tools
    @contextlib.contextmanager
    def quiet(self, *argv):
        old, sys.argv = sys.argv, list(argv)
        out, err = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()
        try:
            yield
        finally:
            sys.argv, sys.stdout, sys.stderr = old, out, err
            gc.collect()

    def op_copy(self):
        rnd = self.rnd
        kind = rnd.choice(['fs2', 'sqlite'])
        path, reach, res, nxt = self.new_path(), int(rnd.random() < 0.5), 'ok', -1
        if self.kind in ('net', 'mem'):
            reach = 1
        try:
            target = STORAGES[kind](path)
            if kind == 'fs2' and rnd.random() < 0.3:
                c = Connection(target)          # it has something already
                c.get_root()['x'] = [PersistentDict() for i in range(rnd.choice([1, 40]))]
                c.commit()
            if reach:
                items = self.s.gen_oid_record(start_oid=i8(0))
            else:
                items = self.s.gen_oid_record()
            if rnd.random() < 0.4:
                items = list(items)
                rnd.shuffle(items)
                items = iter(items)
            target.create_from_records(items)
            if rnd.random() < 0.5:
                target.close()
                target = STORAGES[kind](path)
            rows = self.rows(target)
            nxt = u8(target.new_oid())
        except Exception as e:
            self.log(op='COPY', res=outcome(e))
            raise Hang('stop')
        self.log(op='COPY', res=res, reach=reach, next=nxt, db=rows)
        self.close()
        self.kind, self.s, self.path = kind, target, path
        if rnd.random() < 0.5:
            self.s.close()
            self.s = STORAGES[kind](path)
        self.new_conn()

    def reopened(self, op, res, path=None, kind=None, **kw):
        if res == 'ok':
            try:
                if path:
                    self.path, self.kind = path, kind
                self.open(False)
                kw['db'] = self.rows()
            except Exception as e:
                res = outcome(e)
        self.log(op=op, res=res, **kw)
        if res != 'ok':
            raise Hang('stop')
        self.new_conn()

    def op_renum(self):
        if self.kind != 'fs':
            return
        self.close()
        path, res = self.new_path(), 'ok'
        with self.quiet('db_renumber.py', self.path, path):
            try:
                runpy.run_path(os.path.join(LIB, 'bin', 'db_renumber.py'), run_name='__main__')
            except Exception as e:
                res = outcome(e)
        before = self.kind, self.path
        if self.rnd.random() < 0.3:            # the old file is as it was
            self.reopened('SAME', res, *before[::-1], what='renumbering')
            self.close()
        self.reopened('RENUM', res, path, 'fs')

    def op_pack(self):
        if self.kind in ('mem',):
            return
        how = self.rnd.randrange(3)
        res = 'ok'
        if self.kind == 'net' or how == 0:
            try:
                if self.rnd.random() < 0.5:
                    self.c.pack()
                else:
                    self.s.pack()
                if self.kind == 'net':
                    server, self.s = self.server, self.s
                    t0 = time.time()
                    while self.server.gated.finished < self.server.gated.started or self.server.gated.started == 0:
                        self.server.gated.give(5)
                        time.sleep(0.001)
                        if time.time() - t0 > 20:
                            raise Hang('the server does not pack')
                rows = self.rows()
            except Hang:
                raise
            except Exception as e:
                self.log(op='PACK', res=outcome(e))
                raise Hang('stop')
            self.log(op='PACK', res='ok', db=rows)
            return
        self.close()
        with self.quiet('durus', '-p', '--file', self.path):
            try:
                durus.__main__.main()
            except Exception as e:
                res = outcome(e)
        self.reopened('PACK', res)

    def op_use(self):
        rnd = self.rnd
        c = self.c
        objs = [o for o in c.get_crawler()]
        rnd.shuffle(objs)
        objs.append(c.get_root())
        self.marks += 1
        for o in objs:
            new = TlAlpha()
            new.v = self.text()
            if self.link(o, 'used%d' % self.marks, new):
                break
        res, rows = 'ok', []
        try:
            c.commit()
            rows = self.rows()
        except Exception as e:
            res = outcome(e)
        self.log(op='USE', res=res, o=u8(o._p_oid), new=u8(new._p_oid or i8(0)), db=rows)

    def op_abort(self):
        self.c.abort()
        self.log(op='SAME', res='ok', what='abort', db=self.rows())

    def op_rename(self):
        rnd = self.rnd
        if self.kind in ('net', 'mem'):
            return
        c = self.c
        c.abort()
        old, new = rnd.choice([('TlAlpha', 'TlNova'), ('TlSlots', 'TlNovaSlots')])
        if rnd.random() < 0.5:
            self.close()
            self.open(False)
        saved = getattr(tlobj, old)
        res = 'ok'
        try:
            setattr(tlobj, old, getattr(tlobj, new))
            self.new_conn()
            c = self.c
            for o in gen_every_instance(c, getattr(tlobj, old)):
                o._p_note_change()
            touch_every_reference(c, old)
            if rnd.random() < 0.3:
                c.shrink_cache()
            c.commit()
            # values that are the class itself are not followed
        except Exception as e:
            res = outcome(e)
        finally:
            setattr(tlobj, old, saved)
        rows = self.rows() if res == 'ok' else []
        self.log(op='RENAME', res=res, ren=[[old, new]], db=rows)
        self.new_conn()

    def op_detect(self):
        rnd = self.rnd
        what = rnd.randrange(4)
        path, want, kw = self.path, dict(fs='FileStorage', net='FileStorage', fs2='FileStorage2', sqlite='SqliteStorage',
                                         mem='FileStorage')[self.kind], {}
        if self.kind == 'mem' or what == 0:
            path, want = os.path.join(self.dir, 'nothing'), 'FileStorage'
        elif what == 1:
            path, want = os.path.join(self.dir, 'junk'), 'ValueError'
            with open(path, 'wb') as f:
                f.write(rnd.choice([b'junk', b'DFS1', b'SHELF', b'sqlite format 3', b'\0' * 40, b' SHELF-1', b'GIF89a' * 9]))
        try:
            out = get_storage_class(path).__name__
        except Exception as e:
            out = type(e).__name__
        self.log(op='DETECT', res='ok', want=want, out=out)
        if what == 3 and self.kind in STORAGES:
            self.close()
            res = 'ok'
            cls = STORAGES[self.kind]
            try:
                if rnd.random() < 0.5:
                    s = get_storage(self.path, **rnd.choice([{}, dict(repair=None, readonly=None)]))
                else:
                    s = get_storage(self.path, storage_class=cls.__module__ + '.' + cls.__name__)
                if type(s) is not cls:
                    res = 'another class'
                self.s = s
                rows = self.rows()
                s.close()
            except Exception as e:
                res = outcome(e)
            self.log(op='SAME', res=res, what='get_storage', db=rows if res == 'ok' else [])
            self.open()

    def op_degree(self):
        """another degree for the nodes of a tree: the same items"""
        rnd = self.rnd
        trees = [o for o in self.c.get_crawler() if isinstance(o, BTree)]
        if not trees or self.kind in ('net', 'mem'):
            return
        t = rnd.choice(trees)
        look = lambda tree: [[k, u8(v._p_oid) if isinstance(v, PersistentObject) else -1 - self.values.setdefault(
            'x' + canon(v, [], {}, set()) if not has_object(v) else 'y', len(self.values))] for k, v in tree.items()]
        oid, degree = t._p_oid, rnd.choice([2, 4, 8, 16, 32, 64, 3])
        before = look(t)
        old = t.root.minimum_degree
        from durus.btree import BNode
        can = degree != old and any(c.minimum_degree == degree for c in BNode.__subclasses__())
        res = 'ok'
        try:
            changed = t.set_bnode_minimum_degree(degree)
            ways = [look(t)]
            if rnd.random() < 0.7:
                self.c.commit()
                if rnd.random() < 0.5:
                    self.new_conn()
                else:
                    self.close()
                    self.open()
                t2 = self.c.get(oid)
                want_degree = degree if can else old
            else:
                self.c.abort()
                t2 = t
                want_degree = old
            ways.append(look(t2))
            nodes = set(n.minimum_degree for n in self.c.get_crawler(oid) if isinstance(n, BNode) and n in tree_nodes(t2))
        except Exception as e:
            self.log(op='TEXT', res=outcome(e), what='degree', want='', out='')
            raise Hang('stop')
        self.log(op='TEXT', res='ok', what='items after another degree', want=json.dumps(before),
                 out=json.dumps(next((w for w in ways if w != before), before)))
        self.log(op='TEXT', res='ok', what='changing the degree', want=str([bool(can), [want_degree]]),
                 out=str([bool(changed), sorted(nodes)]))
        # the old nodes are garbage now, and there are new ones
        self.log(op='DB', res='ok', db=self.rows())

    # ---- processes
    def spawn(self, args, text=''):
        env = dict(os.environ, HOME=self.dir)
        r = subprocess.run([sys.executable] + args, input=text, capture_output=True, text=True, timeout=50, env=env,
                           cwd=self.dir)
        return r

    def op_client(self):
        """durus -c on the file, with commands on its input or in a startup file"""
        if self.kind in ('net', 'mem'):
            return
        self.close()
        self.marks += 1
        root = 'root[%r]' if self.root_is_dict else 'setattr(root, %r, None); root.__dict__[%r]'
        name = 'cli%d' % self.marks
        code = 'from tlobj import TlAlpha; n = TlAlpha(); ' + (
            'root[%r] = n' % name if self.root_is_dict else 'root.%s = n' % name) + '; connection.commit()'
        show = '; print("NEW", str_to_int8(n._p_oid))'
        args = ['-m', 'durus', '-c', '--file', self.path]
        startup = self.rnd.random() < 0.4
        if startup:
            f = os.path.join(self.dir, "it's a start.py")
            with open(f, 'w') as fp:
                fp.write('\n'.join((code + show).split('; ')) + '\n')
            r = self.spawn(args + ['--startup', f], 'pass\n')
        else:
            r = self.spawn(args, code + show + '\n')
        res, new = 'ok', 0
        if r.returncode:
            res = 'exit %s' % r.returncode
        elif 'NEW ' not in r.stdout:
            res = 'the commands did not run'
        else:
            new = int(r.stdout.split('NEW ')[1].split()[0])
        self.reopened('USE', res, o=0, new=new)

    def op_serve(self):
        """durus -s on the file, a client, durus -s --stop"""
        if self.kind in ('net', 'mem'):
            return
        self.close()
        self.marks += 1
        sock = os.path.join(self.dir, 's')
        proc = subprocess.Popen([sys.executable, '-m', 'durus', '-s', '--file', self.path, '--address', sock,
                                 '--logfile', os.path.join(self.dir, 'log')] +
                                self.rnd.choice([[], ['--logginglevel', '1']]), cwd=self.dir,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res, new = 'ok', 0
        try:
            from durus.storage_server import wait_for_server
            wait_for_server(address=sock, sleeptime=0.05, maxtries=200)
            s = ClientStorage(address=sock)
            c = Connection(s)
            n = TlAlpha()
            self.link(c.get_root(), 'srv%d' % self.marks, n)
            c.commit()
            new = u8(n._p_oid)
            if self.rnd.random() < 0.5:
                s.close()
                s = None
            r = self.spawn(['-m', 'durus', '-s', '--stop', '--address', sock])
            if r.returncode:
                res = 'stop: exit %s' % r.returncode
            try:
                code = proc.wait(10)
            except subprocess.TimeoutExpired:
                res = 'the server did not stop'
            else:
                if code:
                    res = 'server: exit %s' % code
        except SystemExit:
            res = 'no server'
        except Exception as e:
            res = outcome(e)
        finally:
            proc.kill()
            proc.wait()
        self.reopened('USE', res, o=0, new=new)

    def op_conv(self):
        """the records as Python 2 would have written them, converted"""
        if self.kind != 'fs':
            return
        items = [(o, bytes(r)) for o, r in self.s.gen_oid_record()]
        self.close()
        old, path, res = self.new_path(), self.new_path(), 'ok'
        s = FileStorage(old)
        while True:
            o = s.new_oid()
            if o >= max(i[0] for i in items):
                break
        s.begin()
        for o, r in items:
            s.store(o, python2(r))
        s.end()
        s.close()
        r = self.spawn([os.path.join(LIB, 'bin', 'db_to_py3k.py'), old, path])
        if r.returncode:
            res = 'exit %s: %s' % (r.returncode, ''.join(ch for ch in r.stderr[-80:] if ch.isalnum() or ch == ' '))
            if os.environ.get('TLDEBUG'):
                sys.stderr.write(r.stderr)
        self.reopened('CONV', res, path, 'fs')

    # ---- inspection
    def universe(self):
        return 'reach' if self.kind in ('net', 'mem') else 'all'

    def op_look(self):
        rnd, s, c, u = self.rnd, self.s, self.c, self.universe()
        oids = [row[0] for row in self.rows_now]
        kind = rnd.choice(['ALL', 'CENSUS', 'CLASSES', 'REFER', 'INDEX', 'INST', 'TOUCH', 'CRAWL', 'FROM', 'BULK', 'NOTE',
                           'INST', 'TOUCH', 'CLASSES', 'CRAWL'])
        if u == 'reach':
            reach = set(u8(o) for o, r in (self.real if self.kind == 'net' else s).gen_oid_record(start_oid=i8(0)))
            oids = sorted(reach)
        e = dict(op=kind, res='ok', u=u)
        try:
            if kind == 'ALL':
                e['out'] = [u8(o) for o, r in s.gen_oid_record()]
            elif kind == 'CENSUS':
                e['out'] = [[k.decode(), v] for k, v in get_census(s).items()]
            elif kind == 'CLASSES':
                names = rnd.sample(['TlAlpha', 'TlBeta', 'TlSlots', 'PersistentDict', 'PersistentList', 'BTree', 'Nothing', 'TlAlphaTlBeta', 'Dict'],
                                   rnd.choice([0, 1, 2]))
                e['names'] = names
                e['out'] = [[u8(o), k.decode()] for o, k in gen_oid_class(s, *[n.encode() for n in names])]
            elif kind == 'REFER':
                e['o'] = rnd.choice(oids)
                e['out'] = []
                for o, r in gen_referring_oid_record(s, i8(e['o'])):
                    e['out'].append(u8(o) if bytes(s.load(o)) == bytes(r) else -5)
            elif kind == 'INDEX':
                e['out'] = [[u8(k), [u8(x) for x in v]] for k, v in get_reference_index(s).items()]
            elif kind == 'INST':
                classes = rnd.sample([TlAlpha, TlBeta, TlSlots, PersistentDict, PersistentObject, TlNova, BTree], rnd.choice([1, 1, 2]))
                known = dict((k.__name__, k) for k in [TlAlpha, TlBeta, TlSlots, TlOwn, TlNova, TlNovaSlots, PersistentDict,
                             PersistentList, PersistentSet, BTree, ComputedAttribute] + BTREE_NODES)
                e['match'] = sorted(n for n, k in known.items() if issubclass(k, tuple(classes)))
                got = list(gen_every_instance(c, *classes))
                e['out'] = [u8(o._p_oid) for o in got]
                e['same'] = int(all(c.get(o._p_oid) is o and isinstance(o, tuple(classes)) for o in got))
            elif kind == 'TOUCH':
                words = rnd.sample(['TlAlpha', 'TlBeta', 'TlSlots', 'TlPlain', 'PersistentList', 'Nothing'] + WORDS, rnd.choice([0, 1, 1, 2]))
                e['words'] = words
                touch_every_reference(c, *words)
                e['out'] = [u8(o) for o in c.changed]
                if any(not o._p_is_unsaved() for o in c.changed.values()):
                    e['res'] = 'an object in changed is not unsaved'
            elif kind == 'CRAWL':
                e['o'] = rnd.choice(oids)
                got, same = [], 1
                for o in c.get_crawler(i8(e['o']), batch_size=rnd.choice([1, 2, 100])):
                    got.append(u8(o._p_oid))
                    if c.get(o._p_oid) is not o:
                        same = 0
                e['out'], e['same'] = got, same
            elif kind == 'FROM':
                e['o'] = rnd.choice(oids)
                e['out'] = []
                for o, r in s.gen_oid_record(start_oid=i8(e['o']), batch_size=rnd.choice([1, 3, 100])):
                    e['out'].append(u8(o) if bytes(s.load(o)) == bytes(r) else -5)
            elif kind == 'BULK':
                e['oids'] = [rnd.choice(oids) for i in range(rnd.choice([0, 1, 3, 30]))]
                e['out'] = []
                for r in s.bulk_load([i8(o) for o in e['oids']]):
                    o = u8(r[:8])
                    e['out'].append(o if bytes(s.load(i8(o))) == bytes(r) else -5)
            elif kind == 'NOTE':
                e['o'] = rnd.choice(oids)
                c.get(i8(e['o']))._p_note_change()
        except Exception as x:
            e['res'] = outcome(x)
        self.log(**e)


def all_records(s):
    if not isinstance(s, MemoryStorage):
        return s.gen_oid_record()
    res = []
    for i in range(5000):
        try:
            res.append((i8(i), s.load(i8(i))))
        except KeyError:
            pass
    return res


def hashable(objs):
    return [o for o in objs if type(o).__hash__ is not None]


def has_object(v):
    if isinstance(v, PersistentObject):
        return True
    if isinstance(v, (list, tuple, set)):
        return any(has_object(x) for x in v)
    if isinstance(v, dict):
        return any(has_object(x) for x in v.values())
    return isinstance(v, TlPlain)


def tree_nodes(t):
    res = set()
    todo = [t.root]
    while todo:
        n = todo.pop()
        res.add(n)
        todo.extend(n.nodes or [])
    return res


from durus import btree as _bt
BTREE_NODES = [getattr(_bt, k) for k in dir(_bt) if k.startswith('BNode')]


class Py2(pickle._Pickler):
    """writes strings as Python 2 does"""
    dispatch = dict(pickle._Pickler.dispatch)
    def putb(self, b, obj):
        if len(b) < 256:
            self.write(b'U' + bytes([len(b)]) + b)
        else:
            self.write(b'T' + struct.pack('<i', len(b)) + b)
        self.memoize(obj)
    def save_str(self, obj):
        try:
            b = obj.encode('ascii')
        except UnicodeEncodeError:
            return pickle._Pickler.save_str(self, obj)
        self.putb(b, obj)
    def save_bytes(self, obj):
        self.putb(obj, obj)
    dispatch[str] = save_str
    dispatch[bytes] = save_bytes
    def persistent_id(self, o):
        if isinstance(o, Ref):
            return (i8(o.oid), o.cls)


def python2(record):
    oid, klass, state, refs = decode(record)
    f = io.BytesIO()
    p = Py2(f, 2)
    p.dump(klass)
    n = f.tell()
    p.dump(state)
    data = f.getvalue()
    data = data[:n] + zlib.compress(data[n:])
    return i8(oid) + struct.pack('>L', len(data)) + data + b''.join(i8(r) for r in refs)


def run(profile, seed, index, script=None):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    prof['root'] = rnd.choice(['D', 'D', 'P'])
    w = W(prof, rnd)
    w.root_is_dict = prof['root'] != 'P'
    try:
        with Watchdog(100):
            w.kind = rnd.choice(prof['kinds'])
            w.path = w.new_path()
            w.open(new=True)
            if script is not None:
                w.build_script(script)
            else:
                w.build_random()
            names = sorted(prof['ops'])
            for i in range(rnd.randrange(prof['steps'] // 2, prof['steps'] + 1)):
                op = rnd.choices(names, [prof['ops'][n] for n in names])[0]
                if op != 'look' and len(w.c.changed):
                    if rnd.random() < 0.5:
                        w.op_abort()
                    else:
                        w.c.commit()
                        w.log(op='SAME', res='ok', what='commit', db=w.rows(w.real if w.kind == 'net' else None))
                if os.environ.get("TLDEBUG"):
                    print(op, w.kind, list(w.c.changed), file=sys.stderr)
                getattr(w, "op_" + op)()
    except Hang as e:
        if str(e) != 'stop':
            w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    try:
        w.close()
    except Exception:
        pass
    shutil.rmtree(w.dir, True)
    return dict(ev=w.ev, meta=dict(profile=profile, seed=seed, index=index, script=script))


def main():
    spec = json.load(open(sys.argv[1]))
    if 'scripts' in spec:
        traces = [run(spec['profile'], spec['seed'], i, s) for i, s in enumerate(spec['scripts'])]
    else:
        traces = [run(spec['profile'], spec['seed'], i) for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)


if __name__ == '__main__':
    main()
