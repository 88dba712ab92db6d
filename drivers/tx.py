"""Runs transactions of several connections against the real code and records
traces for specs/DurusTxTrace.tla.

usage: tx.py SPEC.json OUT.ndjson
SPEC: {"seed":, "n":, "profile": {...}}            random behaviours, or
      {"scripts": [[op...]...], "profile": {...}}  behaviours generated by TLC
"""
from rt import *

_getraw = object.__getattribute__


def peek(o):
    """the state in memory, without the object noticing"""
    k = NAMES.get(type(o), type(o).__name__)
    def f(name, default=0):
        try:
            return _getraw(o, name)
        except AttributeError:
            return default
    if k == 'D':
        d = f('data', {})
        return k, dec(d.get('v', 0)), d.get('a'), d.get('b')
    if k == 'L':
        d = list(f('data', []))
        d = d + [0, None, None][len(d):]
        return k, dec(d[0]), d[1], d[2]
    if k == 'CA':
        return k, 0, None, None
    return k, dec(f('v')), f('a', None), f('b', None)


class Cl(object):
    def __init__(self, cid):
        self.cid = cid
        self.conn = None
        self.storage = None
        self.handles = {}
        self.news = {}          # nid -> object
        self.touched = set()
        self.dirty = set()
        self.mode = 'off'
        self.crawl = None
        self.inject = None      # (place, function)
        self.fail = None        # place
        self.failed = False
        self.gone = set()       # removed by packs; another object may get the oid


class World(object):

    def __init__(self, profile, rnd, where):
        self.p = profile
        self.rnd = rnd
        self.dir = tempfile.mkdtemp(dir=where)
        self.kind = profile.get('kind', 'fs')
        self.path = os.path.join(self.dir, 'db')
        self.server_mode = profile.get('server', 1)
        self.ev = []
        self.known = []         # the stored rows as last logged
        self.stamp = 10
        self.next_nid = -200       # below the marks of what cannot be named
        self.depth = 0
        self.server = None
        self.raw = None
        self.gated = None
        self.packing = False
        self.freed = set()      # oids of removed objects
        self.pairs = []     # (dep oid, ca oid)
        self.clients = {}
        self.notes = 0

    def log(self, **e):
        self.ev.append(e)

    def log_db(self, **e):
        """an event with what is stored, as rows that differ from those last logged,
        oids that have gone, and whether all rows are given instead"""
        rows, last = e['db'], dict((row[0], row) for row in self.known)
        now = dict((row[0], row) for row in rows)
        if len(now) < len(rows) or not self.known:
            e['db'] = [rows, [], 1]
        else:
            e['db'] = [[row for row in rows if last.get(row[0]) != row],
                       sorted(set(last) - set(now)), 0]
        self.known = rows
        self.ev.append(e)

    # ------------------------------------------------------------ set up
    def open_raw(self):
        self.raw = STORAGES[self.kind](self.path)

    def setup(self):
        self.open_raw()
        rnd, p = self.rnd, self.p
        root_class = rnd.choice(p.get('root', ['D', 'D', 'P']))
        conn = Connection(self.raw, root_class=CLASSES[root_class])
        root = conn.get_root()
        objs = [root]
        for f in (2, 3, 4):
            write_object(root, f, 1 if f == 2 else None)
        shape = p.get('objects', 5)
        for i in range(1, shape):
            cls = rnd.choice(p.get('classes', ['P', 'S', 'SD', 'D', 'L']))
            o = new_object(cls, i + 1, None, None)
            objs.append(o)
        # a chain/tree, so that everything is reachable
        for i in range(1, shape):
            if p.get('chain') or rnd.random() < 0.5:
                write_object(objs[i - 1], 3, objs[i])
            else:
                j = (i - 1) // 2
                f = 3 if read_object(objs[j])[2] is None else 4
                if read_object(objs[j])[f - 1] is None:
                    write_object(objs[j], f, objs[i])
                else:
                    write_object(objs[i - 1], 3, objs[i])
        if p.get('ca'):
            # the last object gets a holder for a computed attribute that depends on it
            dep = objs[-1]
            ca = ComputedAttribute()
            write_object(dep, 4, ca)
            objs.append(ca)
        if shape > 2 and rnd.random() < 0.5:
            o = objs[shape - 1]
            if read_object(o)[2] is None:
                write_object(o, 3, rnd.choice(objs[:shape]))    # cycle
        conn.commit()
        if p.get('ca'):
            self.pairs.append((u8(objs[shape - 1]._p_oid), u8(objs[-1]._p_oid)))
        rows = dump(self.raw)
        self.log_db(op='INIT', db=rows)
        del conn, root, objs
        self.raw.close()
        self.open_raw()
        self.start()

    def start(self):
        self.gated = Gated(self.raw)
        if self.server_mode:
            self.server = Server(self.gated, os.path.join(self.dir, 's'))

    def rows(self):
        with self.gated.lock:
            return dump(self.raw)

    # ----------------------------------------------------------- connections
    def wrap(self, c, storage):
        real_sync, real_begin = storage.sync, storage.begin
        real_store, real_end = storage.store, storage.end
        def run_injection(place):
            if c.inject is not None and c.inject[0] == place:
                f, c.inject = c.inject[1], None
                self.depth += 1
                try:
                    f()
                finally:
                    self.depth -= 1
        def maybe_fail(place):
            if c.fail == place:
                c.fail = None
                c.failed = True
                raise IOError('planted storage failure')
        def sync():
            run_injection('sync')
            result = real_sync()
            self.log(op='SY', c=c.cid)
            self.forget(c)
            return result
        def begin():
            maybe_fail('begin')
            return real_begin()
        def store(oid, record):
            maybe_fail('store')
            return real_store(oid, record)
        def end(handle_invalidations=None):
            maybe_fail('end')
            run_injection('end')
            if c.fail != 'refuse':
                return real_end(handle_invalidations)
            # the storage of the server refuses the commit
            c.fail = None
            self.gated.refuse = WriteConflictError()
            try:
                return real_end(handle_invalidations)
            finally:
                c.failed = 2 if self.gated.refuse is None else False
                self.gated.refuse = None
        storage.sync, storage.begin, storage.store, storage.end = sync, begin, store, end
        return storage

    def forget(self, c):
        """the application does not keep what it knows to be removed"""
        if self.kind == 'fs':
            for o in c.gone:
                c.handles.pop(o, None)
        c.gone.clear()

    def join(self, cid):
        c = self.clients.get(cid)
        if c is not None and c.mode != 'off':
            return
        c = self.clients[cid] = Cl(cid)
        res = 'ok'
        try:
            if self.server_mode:
                c.storage = ClientStorage(address=self.server.path)
                c.storage.oid_pool_size = self.p.get('pool', 3)
            else:
                c.storage = self.raw
                for name in ('sync', 'begin', 'store', 'end'):
                    self.raw.__dict__.pop(name, None)
            self.wrap(c, c.storage)
            c.conn = Connection(c.storage, cache_size=self.p.get('cache', 1000))
            c.mode = 'ok'
        except Exception as e:
            res = outcome(e)
        self.log(op='J', c=cid, res=res)

    def leave(self, c):
        if self.server_mode:
            try:
                c.storage.close()
            except Exception:
                pass
        c.mode = 'off'
        c.crawl = None
        c.conn = None
        c.handles.clear()
        c.news.clear()
        self.log(op='X', c=c.cid)

    # ----------------------------------------------------------------- helpers
    def nid_of(self, c, o):
        for nid, x in c.news.items():
            if x is o:
                return nid
        return -99

    def rid(self, c, x):
        if x is None:
            return -1
        if not isinstance(x, PersistentObject):
            return -97
        if x._p_oid is None:
            return self.nid_of(c, x)
        return u8(x._p_oid)

    def st(self, c, tup):
        k, v, a, b = tup
        return [k, v if isinstance(v, int) else -7, self.rid(c, a), self.rid(c, b)]

    def conflict(self, c):
        c.mode = 'conflict'
        c.crawl = None

    def note_refs(self, c, tup):
        for x in tup[2:]:
            if isinstance(x, PersistentObject) and x._p_oid is not None:
                o = u8(x._p_oid)
                if o in c.handles:
                    if c.handles[o] is not x:
                        self.log(op='ID', c=c.cid, o=o, same=0)
                elif self.rnd.random() < self.p.get('keep', 0.7):
                    c.handles[o] = x

    # ---------------------------------------------------------------------- ops
    def get(self, c, o):
        """object of c for oid o, or None"""
        x = c.handles.get(o)
        if x is not None:
            return x
        res = 'ok'
        try:
            x = c.conn.get(i8(o))
            if x is None:
                res = 'none'
            elif o in self.freed and x._p_is_ghost() and self.stale(o, x):
                return None
        except Exception as e:
            res = outcome(e)
        self.log(op='GET', c=c.cid, o=o, res=res)
        if res == 'RC':
            self.conflict(c)
        if x is not None and self.rnd.random() < self.p.get('keep', 0.7):
            c.handles[o] = x
        return x

    def read(self, c, o, x=None):
        if x is None:
            x = self.get(c, o)
        if x is None or c.mode != 'ok':
            return None
        res, tup, st = 'ok', None, []
        try:
            tup = read_object(x)
            st = self.st(c, tup)
        except Exception as e:
            res = outcome(e)
        self.log(op='R', c=c.cid, o=o, res=res, st=st)
        if res == 'ok':
            c.touched.add(o)
            self.note_refs(c, tup)
        elif res == 'RC':
            self.conflict(c)
        return tup

    def fresh(self):
        self.stamp += 1
        return self.stamp

    def write(self, c, o, f, x, xid):
        obj = self.get(c, o)
        if obj is None or c.mode != 'ok':
            return
        res, st = 'ok', []
        try:
            write_object(obj, f, x)
            st = self.st(c, peek(obj))
        except Exception as e:
            res = outcome(e)
        self.log(op='W', c=c.cid, o=o, f=f, x=xid, res=res, st=st)
        if res == 'ok':
            c.touched.add(o)
            c.dirty.add(o)
        elif res == 'RC':
            self.conflict(c)

    def write_value(self, c, o):
        for dep, ca in self.pairs:
            if o == ca:
                o = dep
        v = self.fresh()
        self.write(c, o, 2, v, v)
        for dep, ca in self.pairs:
            if o == dep and c.mode == 'ok':
                self.write(c, ca, 2, 0, 0)

    def write_bad(self, c, o):
        if any(o in pair for pair in self.pairs):
            return
        others = [d for d in self.clients.values() if d is not c and d.mode == 'ok']
        bad = lambda: 0
        if others and self.rnd.random() < 0.5:
            bad = others[0].conn.get_root()
        self.write(c, o, 2, bad, -7)

    def candidates(self, c):
        """what may be linked: objects used in this transaction, new objects, None"""
        res = [(None, -1)]
        for o in c.touched:
            x = c.handles.get(o) or c.conn.cache.get(i8(o))
            if x is not None and not any(o == ca for dep, ca in self.pairs):
                res.append((x, o))
        for nid, x in c.news.items():
            res.append((x, nid))
            res.append((x, nid))
        return res

    def link(self, c, o):
        if any(o in pair for pair in self.pairs):
            return
        x, xid = self.rnd.choice(sorted(self.candidates(c), key=lambda t: t[1]))
        self.write(c, o, self.rnd.choice([3, 4]), x, xid)

    def create(self, c):
        cls = self.rnd.choice(self.p.get('classes', ['P', 'S', 'SD', 'D', 'L']))
        cand = sorted(self.candidates(c), key=lambda t: t[1])
        a, b = self.rnd.choice(cand), self.rnd.choice(cand)
        self.create_with(c, cls, self.fresh(), a, b)

    def create_with(self, c, cls, v, a, b):
        x = new_object(cls, v, a[0], b[0])
        nid = self.next_nid
        self.next_nid -= 1
        c.news[nid] = x
        self.log(op='N', c=c.cid, n=nid, st=[cls, v, a[1], b[1]])
        return nid

    def create_many(self, c, n, chains):
        """chains of new objects that hang on an object, and on one another"""
        o = self.pick_oid(c)
        if self.pairs or self.get(c, o) is None or c.mode != 'ok':
            return
        heads = []
        for i in range(n):
            a = (None, -1) if len(heads) < chains else heads[i % chains]
            nid = self.create_with(c, self.rnd.choice(['P', 'S', 'SD', 'D', 'L']), self.fresh(), a, (None, -1))
            heads[i % chains:i % chains + 1] = [(c.news[nid], nid)]
        while len(heads) > 1:
            nid = self.create_with(c, 'P', self.fresh(), heads.pop(), heads.pop())
            heads.insert(0, (c.news[nid], nid))
        self.write(c, o, self.rnd.choice([3, 4]), heads[0][0], heads[0][1])

    def write_new(self, c, nid=None, f=None, x=None):
        if not c.news:
            return
        if nid is None:
            nid = self.rnd.choice(sorted(c.news))
            f = self.rnd.choice([2, 3, 4])
            if f == 2:
                v = self.fresh()
                x = (v, v)
            else:
                x = self.rnd.choice(sorted(self.candidates(c), key=lambda t: t[1]))
        res = 'ok'
        try:
            write_object(c.news[nid], f, x[0])
        except Exception as e:
            res = outcome(e)
        self.log(op='NW', c=c.cid, n=nid, f=f, x=x[1], res=res)

    def read_new(self, c):
        if not c.news:
            return
        nid = self.rnd.choice(sorted(c.news))
        res, st = 'ok', []
        try:
            st = self.st(c, read_object(c.news[nid]))
        except Exception as e:
            res = outcome(e)
        self.log(op='RN', c=c.cid, n=nid, res=res, st=st)

    def end_txn(self, c):
        """forget new objects that refer to stored objects (they need not exist later)"""
        self.forget(c)
        c.touched.clear()
        c.dirty.clear()
        gone = set()
        while True:
            more = set()
            for nid, x in c.news.items():
                if nid in gone:
                    continue
                for y in peek(x)[2:]:
                    if y is not None and (y._p_oid is not None or
                                          self.nid_of(c, y) in gone or self.nid_of(c, y) == -99):
                        more.add(nid)
            if not more:
                break
            gone |= more
        if gone:
            for nid in gone:
                del c.news[nid]
            self.log(op='NF', c=c.cid, ns=sorted(gone))

    def commit(self, c):
        res = 'ok'
        c.failed = False
        try:
            c.conn.commit()
        except Exception as e:
            res = outcome(e)
        m = [[nid, u8(x._p_oid)] for nid, x in sorted(c.news.items()) if x._p_oid is not None]
        st = []
        if res != 'ok':
            st, m = m, []
        self.log_db(op='C', c=c.cid, res=res, m=m, st=st, fail=int(c.failed), db=self.rows())
        c.fail = None
        c.inject = None
        if res == 'ok':
            for nid, oid in m:
                c.handles[oid] = c.news.pop(nid)
            self.end_txn(c)
        elif res == 'WC':
            self.conflict(c)

    def abort(self, c):
        res = 'ok'
        try:
            c.conn.abort()
        except Exception as e:
            res = outcome(e)
        c.inject = None
        c.mode = 'ok'
        c.crawl = None if self.rnd.random() < 0.3 else c.crawl
        self.log_db(op='A', c=c.cid, res=res, db=self.rows())
        self.end_txn(c)

    def drop(self, c):
        """the application forgets some of its references"""
        for o in list(c.handles):
            if self.rnd.random() < 0.6:
                del c.handles[o]
        gc.collect(0)

    def identity(self, c):
        if not c.handles:
            return
        o = self.rnd.choice(sorted(c.handles))
        y = None
        try:
            y = c.conn.get_cache().get(i8(o))
        except Exception:
            pass
        x = c.handles[o]
        self.log(op='ID', c=c.cid, o=o, same=int(y is None or y is x))
        if y is None:
            # not in the cache although the application has a reference to it
            self.log(op='ID', c=c.cid, o=o, same=0 if x._p_oid is not None else 1)

    def count(self, c):
        if c.dirty or c.mode != 'ok':
            return
        c.crawl = None
        for i in range(3):
            c.handles.clear()
            self.commit(c)
            c.handles.clear()
            gc.collect()
        if c.mode == 'ok':
            size = c.conn.get_cache_size()
            self.log(op='CNT', c=c.cid, n=c.conn.get_cache_count(), max=max(size, 1))

    def computed(self, c):
        if not self.pairs or c.mode != 'ok':
            return
        dep, ca = self.rnd.choice(self.pairs)
        x, d = self.get(c, ca), self.get(c, dep)
        if x is None or d is None or c.mode != 'ok':
            return
        calls = [0]
        def compute():
            calls[0] += 1
            return read_object(d)[1]
        res, v = 'ok', -1
        self.log(op='CT', c=c.cid, o=ca)
        try:
            v = x.get(compute)
        except Exception as e:
            res = outcome(e)
        self.log(op='CG', c=c.cid, o=ca, dep=dep, n=calls[0], v=v, res=res)
        if res == 'RC':
            self.conflict(c)
        else:
            c.touched.add(ca)

    # ------------------------------------------------------------------ crawling
    def crawl_all(self, c):
        """a crawl of an up-to-date connection without changes"""
        if c.dirty or c.mode != 'ok':
            return
        self.abort(c)
        res, oids, objs = 'ok', [], []
        try:
            for x in c.conn.get_crawler(batch_size=self.rnd.choice([1, 2, 3, 100])):
                oids.append(u8(x._p_oid))
                objs.append(x)
        except Exception as e:
            res = outcome(e)
        self.log(op='KD', c=c.cid, res=res, oids=oids)
        for o, x in zip(oids, objs):
            if c.mode == 'ok' and not any(o == ca for dep, ca in self.pairs):
                self.read(c, o, x)

    def crawl_step(self, c):
        if c.crawl is None:
            c.crawl = c.conn.get_crawler(batch_size=self.rnd.choice([1, 2, 100]))
        res, x = 'ok', None
        try:
            x = next(c.crawl)
        except StopIteration:
            res = 'end'
        except Exception as e:
            res = outcome(e)
        self.log(op='KN', c=c.cid, res=res)
        if res != 'ok':
            c.crawl = None
            if res == 'RC':
                self.conflict(c)
            return
        o = u8(x._p_oid)
        if not any(o == ca for dep, ca in self.pairs):
            self.read(c, o, x)

    # ------------------------------------------------------------------- packing
    def pack(self, c):
        if c.mode == 'off':
            return
        res = 'ok'
        second = self.packing
        if not self.server_mode:
            self.abort(c)
            c.crawl = None
            self.log(op='PB', res='ok')
            try:
                c.conn.pack()
            except Exception as e:
                res = outcome(e)
            self.removed()
            self.log_db(op='PE', res=res, fin=1, db=self.rows())
            self.abort(c)
            return
        try:
            c.conn.pack()
        except Exception as e:
            res = outcome(e)
        c.mode = 'ok'
        self.log_db(op='A', c=c.cid, res=res, db=self.rows())
        self.end_txn(c)
        if second:
            return
        self.packing = True
        self.log(op='PB', res=res)
        for d in self.clients.values():
            d.crawl = None

    def stale(self, o, x):
        """Is x an object that was removed before the storage gave o to an object of another class?
        The existing tests want get() to find it as long as it is in memory."""
        return [row[1][0] for row in self.rows() if row[0] == o] != [NAMES.get(type(x))]

    def removed(self):
        known = self.known
        gone = set(row[0] for row in known) - set(row[0] for row in self.rows())
        if self.kind == 'fs':
            self.freed |= gone
        for d in self.clients.values():
            d.gone |= gone

    def pack_steps(self, n):
        if not self.packing:
            return
        # the server notices a new packer only after it has answered
        self.gated.give(n)
        if self.server.died:
            self.gated.failed = self.server.died
        if self.gated.failed or self.gated.active is None:
            res = 'EXC ' + self.gated.failed if self.gated.failed else 'ok'
            self.packing = False
            for d in self.clients.values():
                d.crawl = None
            self.removed()
            self.log_db(op='PE', res=res, fin=1, db=self.rows())
        else:
            rows = self.rows()
            known = self.known
            if rows != known:
                # the effect is there although the packer has not ended yet
                self.removed()
                self.log_db(op='PE', res='ok', fin=0, db=rows)

    def reopen(self):
        if self.depth:
            return
        for c in list(self.clients.values()):
            if c.mode != 'off':
                self.leave(c)
        res, rows = 'ok', []
        self.shut()
        try:
            self.open_raw()
            rows = dump(self.raw)
        except Exception as e:
            res = outcome(e)
        self.log_db(op='RO', res=res, db=rows)
        if res != 'ok':
            raise Hang('cannot go on')
        self.start()
        for cid in sorted(self.clients):
            self.join(cid)

    def shut(self):
        if self.server is not None:
            self.server.stop()
            self.server.server.packer = None
            self.server = None
        if self.gated is not None and self.gated.active is not None:
            if hasattr(self.gated.active, 'close'):
                self.gated.active.close()
            self.gated.active = None
        self.gated = None
        self.packing = False
        try:
            self.raw.close()
        except Exception:
            pass
        self.raw = None
        gc.collect()

    def close(self):
        try:
            for c in list(self.clients.values()):
                if c.mode != 'off' and self.server_mode:
                    try:
                        c.storage.s.close()
                    except Exception:
                        pass
            self.shut()
        except Hang:
            pass
        shutil.rmtree(self.dir, True)

    # -------------------------------------------------------------------- random
    def oids_known(self, c):
        res = set(c.handles)
        res.add(0)
        return sorted(res)

    def pick_oid(self, c):
        rnd = self.rnd
        r = rnd.random()
        known = self.oids_known(c)
        if r < 0.75:
            return rnd.choice(known)
        return rnd.randrange(0, self.p.get('objects', 5) + self.notes + 1)

    def random_op(self, ids=None, ops=None):
        rnd = self.rnd
        live = [c for c in self.clients.values() if c.mode != 'off' and (ids is None or c.cid in ids)]
        if not live:
            off = [c for c in self.clients if ids is None]
            for cid in off:
                self.join(cid)
            return
        c = rnd.choice(sorted(live, key=lambda c: c.cid))
        if c.mode == 'conflict':
            self.abort(c)
            return
        weights = ops or self.p['ops']
        names = sorted(weights)
        op = rnd.choices(names, [weights[n] for n in names])[0]
        self.do(c, op)

    def others_burst(self, c):
        """what other clients do in the middle of an operation of c"""
        others = [d.cid for d in self.clients.values() if d is not c and d.mode != 'off']
        if not others or self.depth > 1:
            return
        for i in range(self.rnd.randrange(1, 5)):
            self.random_op(ids=others, ops={'R': 2, 'W': 4, 'C': 4, 'A': 1, 'link': 1, 'N': 1})

    def do(self, c, op):
        rnd = self.rnd
        if op == 'R':
            o = self.pick_oid(c)
            if not any(o == ca for dep, ca in self.pairs):
                self.read(c, o)
        elif op == 'W':
            self.write_value(c, self.pick_oid(c))
        elif op == 'link':
            self.link(c, self.pick_oid(c))
        elif op == 'N':
            self.create(c)
        elif op == 'NL':
            # create and link at once
            if not self.pairs or True:
                o = self.pick_oid(c)
                if any(o in pair for pair in self.pairs):
                    return
                self.create(c)
                nid = min(c.news)
                self.write(c, o, rnd.choice([3, 4]), c.news[nid], nid)
        elif op == 'NW':
            self.write_new(c)
        elif op == 'RN':
            self.read_new(c)
        elif op == 'C':
            if rnd.random() < self.p.get('inject', 0) and self.depth == 0:
                c.inject = (rnd.choice(['sync', 'end']), lambda: self.others_burst(c))
            if rnd.random() < self.p.get('fail', 0):
                c.fail = rnd.choice(['begin', 'store', 'end'] + ['refuse'] * (2 * self.server_mode))
            self.commit(c)
            self.notes = max(self.notes, len(self.known) - self.p.get('objects', 5))
        elif op == 'A':
            if rnd.random() < self.p.get('inject', 0) and self.depth == 0:
                c.inject = ('sync', lambda: self.others_burst(c))
            self.abort(c)
        elif op == 'RI':
            # a read in whose synchronization others interfere
            if self.depth == 0:
                c.inject = ('sync', lambda: self.others_burst(c))
            o = self.pick_oid(c)
            if not any(o == ca for dep, ca in self.pairs):
                self.read(c, o)
            c.inject = None
        elif op == 'GET':
            o = rnd.randrange(0, self.p.get('objects', 5) + self.notes + 1)
            c.handles.pop(o, None)
            self.get(c, o)
        elif op == 'bad':
            self.write_bad(c, self.pick_oid(c))
        elif op == 'drop':
            self.drop(c)
        elif op == 'ID':
            self.identity(c)
        elif op == 'CNT':
            self.count(c)
        elif op == 'CG':
            self.computed(c)
        elif op == 'KD':
            self.crawl_all(c)
        elif op == 'KN':
            if not self.packing:
                self.crawl_step(c)
        elif op == 'P':
            if self.depth == 0:
                self.pack(c)
        elif op == 'PS':
            self.pack_steps(rnd.choice(self.p.get('ps', [1, 1, 2, 3, 10])))
        elif op == 'X':
            if self.server_mode and self.depth == 0:
                self.leave(c)
        elif op == 'J':
            off = [d.cid for d in self.clients.values() if d.mode == 'off']
            if off:
                self.join(rnd.choice(off))
        elif op == 'RO':
            self.reopen()
        elif op == 'BR':
            for o in self.oids_known(c):
                if c.mode == 'ok':
                    self.read(c, o)
        elif op == 'BW':
            known = self.oids_known(c) if rnd.random() < 0.3 else [row[0] for row in self.known]
            for o in rnd.sample(known, min(len(known), rnd.choice([3, 60, 130, 1000, 1000]))):
                if c.mode == 'ok':
                    self.write_value(c, o)
        elif op == 'BN':
            self.create_many(c, rnd.choice([20, 110, 150]), rnd.choice([1, 2, 10]))
        elif op == 'size':
            c.conn.set_cache_size(rnd.choice([1, 2, 5, 100]))
        elif op == 'shr':
            # in the middle of a transaction, perhaps several times
            for i in range(rnd.choice([1, 1, 3])):
                c.conn.shrink_cache()
            if rnd.random() < 0.5:
                self.drop(c)
        else:
            raise AssertionError(op)


def run_random(profile, seed, index, where):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    for key in ('kind', 'cache', 'pool', 'clients', 'objects', 'server', 'keep', 'chain', 'fat'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    sys.modules['rt'].FAT = prof.get('fat', 0)
    w = World(prof, rnd, where)
    try:
        with Watchdog(60):
            w.setup()
            n = 1 if not w.server_mode else prof.get('clients', 2)
            for cid in range(1, n + 1):
                w.join(cid)
            steps = rnd.randrange(prof.get('steps', 40) // 2, prof.get('steps', 40) + 1)
            for i in range(steps):
                w.random_op()
            if w.packing:
                w.pack_steps(100000)
            for c in list(w.clients.values()):
                if c.mode != 'off':
                    w.abort(c)
                    for o in range(0, 4):
                        if c.mode == 'ok' and not any(o == ca for dep, ca in w.pairs):
                            w.read(c, o)
            if rnd.random() < prof.get('reopen_end', 0.3):
                w.reopen()
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    finally:
        w.close()
    return dict(ev=w.ev, meta=dict(profile=prof, seed=seed, index=index))


def run_script(profile, script, index, where):
    """operations generated by TLC from DurusTxMC"""
    rnd = random.Random(index)
    prof = dict(profile)
    for key in ('kind', 'cache', 'pool', 'keep'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    prof['objects'] = 2
    prof['chain'] = 1
    w = World(prof, rnd, where)
    oids = {0: 0, 1: 1}
    nids = {}
    try:
        with Watchdog(60):
            w.setup()
            for cid in range(1, prof.get('clients', 2) + 1):
                w.join(cid)
            for op in script:
                kind, c = op[0], w.clients.get(op[1])
                if kind == 'P':
                    w.pack(w.clients[1])
                    w.pack_steps(100000)
                    continue
                if kind == 'A':
                    w.abort(c)
                    continue
                if c.mode != 'ok':
                    continue
                if kind == 'R' and op[2] in oids:
                    w.read(c, oids[op[2]])
                elif kind == 'W' and op[2] in oids:
                    o, f, x = oids[op[2]], op[3], op[4]
                    if f == 2:
                        w.write_value(c, o)
                    elif x == -1:
                        w.write(c, o, f, None, -1)
                    elif x < -1:
                        nid = nids.get((c.cid, x))
                        if nid in c.news:
                            w.write(c, o, f, c.news[nid], nid)
                    elif x in oids and oids[x] in c.touched:
                        y = w.get(c, oids[x])
                        if y is not None:
                            w.write(c, o, f, y, oids[x])
                elif kind == 'N':
                    nids[(c.cid, op[2])] = w.create_with(
                        c, rnd.choice(['P', 'S', 'D', 'L']), w.fresh(), (None, -1), (None, -1))
                elif kind == 'C':
                    before = set(c.news)
                    w.commit(c)
                    e = [e for e in w.ev if e['op'] == 'C'][-1]
                    for (n, real) in e['m']:
                        for model_oid in op[2]:
                            oids[model_oid] = real
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    finally:
        w.close()
    return dict(ev=w.ev, meta=dict(profile=prof, script=script))


def main():
    spec = json.load(open(sys.argv[1]))
    where = tempfile.mkdtemp()
    gc.disable() if spec['profile'].get('nogc') else None
    traces = []
    if 'scripts' in spec:
        for i, s in enumerate(spec['scripts']):
            traces.append(run_script(spec['profile'], s, i, where))
    else:
        for i in range(spec['first'], spec['first'] + spec['n']):
            traces.append(run_random(spec['profile'], spec['seed'], i, where))
    write_traces(sys.argv[2], traces)
    shutil.rmtree(where, True)


if __name__ == '__main__':
    main()
