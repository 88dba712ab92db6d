"""Drives a real storage server with raw protocol clients and ClientStorages,
including clients that disappear or misbehave at any byte; records traces for
DurusServerTrace.tla."""
import socket, random

CHOP = [0]
_rnd = random.Random(1)
_real = socket.socket

def _k(n):
    if not CHOP[0] or n <= 1:
        return n
    if n > 3000:
        return min(n, _rnd.choice([1, 3, 1000, 4096, n // 2, n // 2, n]))
    return max(1, min(n, _rnd.choice([1, 1, 2, 3, 5, 9, n // 2 + 1, n])))


class Choppy(_real):
    """a socket whose transfers are split as a kernel may split them"""
    def recv(self, n, *flags):
        return _real.recv(self, _k(n), *flags)

    def recv_into(self, buf, nbytes=0, *flags):
        return _real.recv_into(self, buf, _k(nbytes or len(buf)), *flags)

    def send(self, data, *flags):
        return _real.send(self, data[:_k(len(data))], *flags)

socket.socket = Choppy
if isinstance(getattr(socket, 'SocketType', None), type):
    pass

from rt import *
import durus.storage_server

CLS = pickle.dumps(P, 2)


class Records(object):
    """records are identified by the version stamp they contain"""
    def __init__(self):
        self.v = 0
        self.known = {}

    def make(self, oid, refs, size):
        self.v += 1
        body = random.Random(self.v).randbytes(size)
        data = CLS + struct.pack('>Q', self.v) + body
        r = i8(oid) + struct.pack('>L', len(data)) + data + b''.join(i8(x) for x in sorted(refs))
        self.known[self.v] = r
        return [oid, self.v, sorted(refs)], r

    def parse(self, r):
        r = bytes(r)
        try:
            oid = u8(r[:8])
            v = struct.unpack('>Q', r[12 + len(CLS):20 + len(CLS)])[0]
            n = struct.unpack('>L', r[8:12])[0]
            refs = r[12 + n:]
            if self.known.get(v) != r:
                v = -99
            return [oid, v, [u8(refs[i:i + 8]) for i in range(0, len(refs) // 8 * 8, 8)]]
        except Exception:
            return [-1, -99, []]


class Raw(object):
    """a client that speaks the protocol itself"""
    kind = 'raw'
    def __init__(self, w):
        self.w = w
        self.s = w.connect()
        self.s.settimeout(15)
        self.send(b'V' + struct.pack('>L', 1))
        if self.recv(4) != struct.pack('>L', 1):
            raise Exception('wrong protocol version')

    def send(self, b, piecewise=True):
        rnd = self.w.rnd
        if len(b) < 200 and rnd.random() < 0.3 and piecewise:
            i = rnd.randrange(0, len(b) + 1)
            self.s.sendall(b[:i])
            time.sleep(0.0005)
            b = b[i:]
        self.s.sendall(b)

    def recv(self, n):
        res = b''
        parts = []
        while n:
            x = self.s.recv(min(n, 1 << 16))
            if not x:
                raise EOFError('closed')
            parts.append(x)
            n -= len(x)
        return b''.join(parts)

    def oids(self, n):
        b = self.recv(8 * n)
        return [u8(b[i:i + 8]) for i in range(0, 8 * n, 8)]

    def told(self):
        return self.oids(struct.unpack('>L', self.recv(4))[0])

    def load_response(self):
        st = self.recv(1)
        if st == b'O':
            return ['ok'] + self.w.rec.parse(self.recv(struct.unpack('>L', self.recv(4))[0]))
        return [{b'I': 'inv', b'K': 'key'}.get(st, 'EXC status %r' % st), -1, 0, []]

    def alloc(self, n):
        if n == 1 and self.w.rnd.random() < 0.5:
            self.send(b'N')
        else:
            self.send(b'M' + bytes([n]))
        return self.oids(n)

    def load(self, o):
        self.send(b'L' + i8(o))
        return self.load_response()

    def bulk(self, oids):
        self.send(b'B' + struct.pack('>L', len(oids)) + b''.join(i8(o) for o in oids))
        return 'ok', [self.load_response() for o in oids]

    def sync(self):
        self.send(b'S')
        return self.told()

    def pack(self):
        self.send(b'P')
        return self.recv(1)

    def payload(self, items):
        t = b''.join(struct.pack('>L', len(r) + 8) + i8(o) + r for o, r in items)
        return struct.pack('>L', len(t)) + t

    def commit(self, items):
        self.send(b'C')
        told = self.told()
        self.send(self.payload(items))
        if not items:
            return told, 'ok'
        st = self.recv(1)
        return told, {b'O': 'ok', b'I': 'WC'}.get(st, 'status %r' % st)

    def closed(self):
        """has the server ended this client?"""
        try:
            self.s.settimeout(15)
            x = self.s.recv(1)
            return 'closed' if not x else 'answered %r' % x
        except socket.timeout:
            return 'still open'
        except OSError:
            return 'closed'

    def close(self, hard=False):
        if hard:
            try:
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError:
                pass
        self.s.close()


class Lib(object):
    """a ClientStorage"""
    kind = 'lib'
    def __init__(self, w):
        self.w = w
        self.cs = ClientStorage(address=w.client_address())
        self.s = self.cs.s

    def alloc(self, n):
        res = [u8(self.cs.new_oid()) for i in range(n)]
        return res

    def one(self, f):
        try:
            return ['ok'] + self.w.rec.parse(f())
        except ReadConflictError:
            return ['inv', -1, 0, []]
        except KeyError:
            return ['key', -1, 0, []]

    def load(self, o):
        return self.one(lambda: self.cs.load(i8(o)))

    def bulk(self, oids):
        try:
            return 'ok', [['ok'] + self.w.rec.parse(r) for r in self.cs.bulk_load([i8(o) for o in oids])]
        except ReadConflictError:
            return 'inv', []
        except KeyError:
            return 'key', []

    def sync(self):
        return [u8(o) for o in self.cs.sync()]

    def pack(self):
        self.cs.pack()
        return b'O'

    def commit(self, items):
        told = []
        self.cs.begin()
        for o, r in items:
            self.cs.store(i8(o), r)
        self.cs.end(lambda oids: told.extend(u8(o) for o in oids))
        return told, 'ok'

    def close(self, hard=False):
        if hard:
            self.s.close()
        else:
            self.cs.close()


class W(object):
    def __init__(self, profile, rnd, where):
        self.p, self.rnd = profile, rnd
        _rnd.seed(rnd.random())
        self.dir = tempfile.mkdtemp(dir=where)
        self.kind = profile['kind']
        self.raw = STORAGES[self.kind](os.path.join(self.dir, 'db'))
        if hasattr(self.raw, '_PACK_INCREMENT'):
            self.raw._PACK_INCREMENT = 1
        self.rec = Records()
        self.ev = []
        self.clients = {}
        self.packing = False
        CHOP[0] = 0
        # the initial database
        rows, n = [], profile.get('objects', 4)
        self.raw.begin()
        for i in range(n):
            self.raw.new_oid()
        for o in range(n):
            refs = [x for x in (2 * o + 1, 2 * o + 2) if x < n]
            row, r = self.rec.make(o, refs, self.size())
            rows.append(row)
            self.raw.store(i8(o), r)
        self.raw.end()
        self.db = dict((r[0], r) for r in rows)
        self.gated = Gated(self.raw)
        net = profile.get('net', 'unix')
        if net == 'unix':
            self.address = os.path.join(self.dir, 's')
        elif net == 'tcp':
            self.address = ('127.0.0.1', free_port())
        else:
            self.address = '@durusverif%d_%d' % (os.getpid(), rnd.randrange(10**9))
        self.server = NetServer(self.gated, self.address, profile.get('gcbytes', 0))
        self.log(op='CF', gcb=profile.get('gcbytes', 0), db=rows)
        CHOP[0] = profile.get('chop', 0)
        try:
            self.probe = self.connect()
        except OSError as e:
            raise Hang('the server cannot be reached: %s (server: %s)' % (outcome(e), self.server.died))
        self.probe.settimeout(15)

    def size(self):
        return self.rnd.choice(self.p.get('sizes', [0, 1, 20, 100]))

    def client_address(self):
        return self.address

    def connect(self):
        return connect(self.address)

    def log(self, **e):
        self.ev.append(e)

    def settle(self):
        """the server has dealt with everything sent before"""
        for i in range(2):
            self.probe.sendall(b'V' + struct.pack('>L', 1))
            n = 4
            while n:
                x = self.probe.recv(n)
                if not x:
                    raise Hang('the server ended an innocent client (server: %s)' % self.server.died)
                n -= len(x)

    def rows(self):
        with self.gated.lock:
            rows = []
            for o, r in self.raw.gen_oid_record():
                row = self.rec.parse(r)
                if row[0] != u8(o):
                    row[0] = -99
                rows.append(row)
        rows.sort()
        self.db = dict((r[0], r) for r in rows)
        return rows

    # ---- operations
    def live(self):
        return sorted(self.clients)

    def join(self):
        for c in range(1, 8):
            if c not in self.clients:
                res = 'ok'
                try:
                    k = Raw(self) if self.rnd.random() < self.p.get('rawp', 0.7) else Lib(self)
                    k.fresh = []
                    k.last = []
                    self.clients[c] = k
                except Exception as e:
                    res = outcome(e)
                self.log(op='CO', c=c, res=res)
                return

    def leave(self, c, hard=False):
        k = self.clients.pop(c)
        k.close(hard)
        self.settle()
        self.log(op='CL', c=c, db=self.rows())

    def sync(self, c):
        res, told = 'ok', []
        try:
            told = self.clients[c].sync()
        except Exception as e:
            res = outcome(e)
        self.log(op='SY', c=c, res=res, told=told)

    def alloc(self, c, n):
        k = self.clients[c]
        res, oids = 'ok', []
        try:
            if k.kind == 'lib':
                # it asks for a batch when its pool is empty: all of them are handed out
                before = list(k.cs.oid_pool)
                oids = k.alloc(1)
                if not before:
                    oids = oids + [u8(o) for o in k.cs.oid_pool]
                    k.fresh.extend(oids)
                else:
                    return
            else:
                oids = k.alloc(n)
                k.fresh.extend(oids)
        except Exception as e:
            res = outcome(e)
        self.log(op='AL', c=c, n=len(oids) if k.kind == 'lib' else n, res=res, oids=oids)

    def load(self, c, o):
        res = ['EXC', -1, 0, []]
        try:
            res = self.clients[c].load(o)
            if res[0] == 'ok' and res[1] != o:
                res[2] = -99
        except Exception as e:
            res[0] = outcome(e)
        self.log(op='LD', c=c, o=o, res=res[0], v=res[2])

    def bulk(self, c, oids):
        res, items = 'ok', []
        try:
            res, items = self.clients[c].bulk(oids)
            items = [[x[0], x[2] if x[0] != 'ok' or x[1] == o else -99] for x, o in zip(items, oids)]
        except Exception as e:
            res = outcome(e)
        self.log(op='BL', c=c, oids=oids, res=res, items=items)

    def changes(self, c, n=None):
        rnd, k = self.rnd, self.clients[c]
        cand = sorted(self.db)
        n = n or rnd.choice([1, 1, 2, 3])
        items = {}
        fresh = []
        for i in range(rnd.choice([0, 0, 1, 1, 2])):
            left = [o for o in k.fresh if o not in fresh and o not in self.db]
            if left:
                fresh.append(rnd.choice(left))
        for i in range(n):
            o = rnd.choice(cand)
            refs = set(self.db[o][2])
            if rnd.random() < 0.3 and refs:
                refs.discard(rnd.choice(sorted(refs)))
            refs |= set(fresh)
            if rnd.random() < 0.2:
                refs.add(rnd.choice(cand))
            items[o] = sorted(r for r in refs if r in self.db or r in fresh)
        for o in fresh:
            items[o] = []
        rows, recs = [], []
        for o, refs in sorted(items.items()):
            row, r = self.rec.make(o, refs, self.size())
            rows.append(row)
            recs.append((o, r))
        order = list(range(len(rows)))
        rnd.shuffle(order)
        return [rows[i] for i in order], [recs[i] for i in order]

    def bytes_of(self, recs):
        n = sum(len(r) for o, r in recs)
        return n, n + 24 * len(recs) + 24

    def used(self, c, rows):
        k = self.clients.get(c)
        if k is not None:
            k.fresh = [o for o in k.fresh if o not in set(r[0] for r in rows)]

    def commit(self, c):
        rows, recs = self.changes(c)
        if self.rnd.random() < 0.08:
            rows, recs = [], []
        k = self.clients[c]
        told, res, seen = [], 'ok', 1
        kind = 'ok' if recs else 'empty'
        if recs and self.rnd.random() < self.p.get('refuse', 0.05):
            kind = 'refused'
            self.gated.refuse = WriteConflictError()
        try:
            told, res = k.commit(recs)
        except Exception as e:
            res, seen = outcome(e), 0
        self.gated.refuse = None
        lo, hi = self.bytes_of(recs)
        if kind == 'refused':
            rows = []
        self.log(op='CM', c=c, kind=kind, rows=rows, told=told, seen=seen,
                 res=res, lo=lo, hi=hi, db=self.rows())
        self.used(c, rows)
        self.check_gc()

    def check_gc(self):
        self.settle()
        self.log(op='GC', active=int(self.gated.active is not None))
        if self.gated.active is not None:
            self.packing = True

    def raw_client(self):
        """a client for misdeeds: an existing raw one or a new one"""
        raws = [c for c in self.live() if self.clients[c].kind == 'raw']
        if raws and self.rnd.random() < 0.7:
            return self.rnd.choice(raws)
        p = self.p
        old, p['rawp'] = p.get('rawp', 0.7), 1
        n = len(self.clients)
        self.join()
        p['rawp'] = old
        new = [c for c in self.live() if c not in raws and self.clients[c].kind == 'raw']
        return new[-1] if new else (raws[0] if raws else None)

    def bad_commit(self, kind=None, cut=None):
        rnd = self.rnd
        c = self.raw_client()
        if c is None:
            return
        k = self.clients[c]
        kind = kind or rnd.choice(['cut', 'cut', 'gone', 'foreign', 'unalloc', 'disk'] + ['mal'] * 6)
        if kind == 'foreign' and not any(x.fresh for d, x in self.clients.items() if d != c):
            kind = 'cut'
        if kind != 'unalloc' and kind != 'foreign' and not k.fresh and rnd.random() < 0.5:
            self.alloc(c, rnd.choice([1, 2, 3]))
        rows, recs = self.changes(c)
        told, seen, res = [], 0, 'closed'
        payload = k.payload(recs)
        if kind == 'foreign':
            o = rnd.choice(sorted(o for d, x in self.clients.items() if d != c for o in x.fresh))
            row, r = self.rec.make(o, [], 5)
            recs.insert(rnd.randrange(0, len(recs) + 1), (o, r))
            payload = k.payload(recs)
        elif kind == 'unalloc':
            o = rnd.choice([2**64 - 1, 2**63, 2**40, 2**31, 50000])
            row, r = self.rec.make(o, [], 5)
            recs.insert(rnd.randrange(0, len(recs) + 1), (o, r))
            payload = k.payload(recs)
        elif kind == 'mal':
            payload = self.malformed(k, recs)
        elif kind == 'cut':
            pass
        elif kind == 'disk':
            self.gated.refuse = rnd.choice([OSError(28, 'no space'), IOError('planted'), OSError(5, 'I/O error')])
            self.gated.refuse_at = rnd.choice(['store', 'end'])
        full = b'C' + payload
        if kind == 'cut':
            n = cut if cut is not None else rnd.choice([1, 2, rnd.randrange(1, len(full)), len(full) - 1])
            n = min(n, len(full) - 1)
        else:
            n = len(full)
        try:
            if kind != 'gone' and (n == 1 or rnd.random() < 0.8):
                # as the protocol wants it: first read what changed
                k.send(full[:1])
                if rnd.random() < 0.9:
                    told = k.told()
                    seen = 1
                k.send(full[1:n], False)
            else:
                k.send(full[:n], False)
        except OSError:
            pass
        # others may speak while the server waits for the rest
        pending = None
        if kind == 'cut':
            others = [d for d in self.live() if d != c and self.clients[d].kind == 'raw']
            if others and rnd.random() < 0.5:
                pending = rnd.choice(others)
                self.clients[pending].send(b'S')
            if rnd.random() < 0.5:
                try:
                    k.s.shutdown(socket.SHUT_WR)
                    res = self.drain(k, seen)
                except OSError:
                    pass
        elif kind != 'gone':
            res = self.drain(k, seen)
        k.close(rnd.random() < 0.5)
        del self.clients[c]
        self.settle()
        self.gated.refuse, self.gated.refuse_at = None, 'end'
        lo, hi = self.bytes_of(recs)
        self.log(op='CM', c=c, kind=kind, rows=rows, told=told, seen=seen, res=res, lo=lo, hi=hi,
                 db=self.rows())
        if pending is not None:
            r, told = 'ok', []
            try:
                told = self.clients[pending].told()
            except Exception as e:
                r = outcome(e)
            self.log(op='SY', c=pending, res=r, told=told)
        self.check_gc()

    def drain(self, k, seen):
        """read up to the end; anything but an end is an answer"""
        try:
            k.s.settimeout(15)
            if not seen:
                k.told()
        except (EOFError, OSError):
            return 'closed'
        return k.closed()

    def malformed(self, k, recs):
        rnd = self.rnd
        i = rnd.randrange(0, len(recs))
        o, r = recs[i]
        def item(o, r, rlen=None):
            return struct.pack('>L', len(r) + 8 if rlen is None else rlen) + i8(o) + r
        items = [item(*x) for x in recs]
        how = rnd.randrange(0, 9)
        if how == 0:        # the last record is longer than the data
            items[-1] = item(recs[-1][0], recs[-1][1], len(recs[-1][1]) + 8 + rnd.choice([1, 8, 100, 2**31, 2**32 - 9 - len(recs[-1][1])]))
        elif how == 1:      # something is left over
            items.append(bytes(rnd.choice([1, 3, 4, 8, 11])))
        elif how == 2:      # no record at all
            items[i] = item(o, b'')
        elif how == 3:      # shorter than its own header
            items[i] = item(o, r[:rnd.randrange(1, 12)])
        elif how == 4:      # length of data beyond the record
            items[i] = item(o, r[:8] + struct.pack('>L', len(r) + 1000) + r[12:])
        elif how == 5:      # a reference cut in two
            items[i] = item(o, r + bytes(rnd.choice([1, 4, 7])))
        elif how == 6:      # a record of another object
            items[i] = item(o, i8(o + 1) + r[8:])
        elif how == 7:      # a length that does not even cover the oid
            items[i] = item(o, b'', rnd.choice([0, 4, 7]))
        else:               # garbage
            return struct.pack('>L', 16) + rnd.randbytes(16)
        t = b''.join(items)
        return struct.pack('>L', len(t)) + t

    def bad_request(self, what=None, cut=None):
        rnd = self.rnd
        c = self.raw_client()
        if c is None:
            return
        k = self.clients[c]
        what = what or rnd.choice(['unknown', 'L', 'B', 'M', 'V', 'gone S', 'gone L', 'gone B', 'gone P', 'version'])
        res, synced = 'closed', 0
        full = {'L': b'L' + i8(0), 'M': b'M\x05', 'B': b'B' + struct.pack('>L', 3) + i8(0) + i8(1) + i8(2),
                'V': b'V' + struct.pack('>L', 1)}
        try:
            if what == 'unknown':
                k.send(bytes([rnd.choice([0, 255, 200, 10, 46, 65, 90, 95, 113, 120])]) + rnd.randbytes(rnd.randrange(0, 4)))
                res = k.closed()
            elif what == 'version':
                k.send(b'V' + struct.pack('>L', rnd.choice([0, 2, 2**32 - 1])))
                try:
                    k.recv(4)
                except (EOFError, OSError):
                    pass
                res = k.closed()
            elif what.startswith('gone'):
                k.send({'S': b'S', 'L': full['L'], 'B': full['B'], 'P': b'P'}[what[5:]], False)
                synced = int(what == 'gone S')
            else:
                n = cut if cut is not None else rnd.randrange(1, len(full[what]))
                k.send(full[what][:n], False)
                if rnd.random() < 0.5:
                    k.s.shutdown(socket.SHUT_WR)
                    res = k.closed()
        except OSError:
            pass
        k.close(rnd.random() < 0.5)
        del self.clients[c]
        self.settle()
        if what == 'gone P' and not self.packing and self.gated.active is not None:
            self.packing = True
            self.log(op='P', c=0, res='ok', db=self.rows())
        self.log(op='BAD', c=c, what=what, res=res, synced=synced, db=self.rows())

    def stall(self):
        """a client that stops in the middle of a request, without going away"""
        rnd = self.rnd
        c = self.raw_client()
        others = [d for d in self.live() if d != c]
        if c is None or not others or not hasattr(durus.storage_server, 'TIMEOUT'):
            return
        k = self.clients[c]
        rows, recs = self.changes(c)
        full = b'C' + k.payload(recs)
        n = rnd.randrange(1, len(full))
        k.send(full[:n], False)
        d = rnd.choice(others)
        self.clients.pop(c)
        try:
            told = k.told()
            seen = 1
        except (EOFError, OSError):
            told, seen = [], 0
        res = k.closed()
        k.close()
        self.settle()
        self.log(op='CM', c=c, kind='cut', rows=rows, told=told, seen=seen, res=res, lo=0, hi=0, db=self.rows())
        self.sync(d)

    def pack(self, c):
        res = 'ok'
        try:
            if self.clients[c].pack() != b'O':
                res = 'bad status'
        except Exception as e:
            res = outcome(e)
        self.settle()
        self.log(op='P', c=c, res=res, db=self.rows())
        self.packing = True

    def steps(self, n):
        if not self.packing:
            return
        before = self.db
        try:
            self.gated.give(n)
        except Hang:
            self.log(op='IDLE', done=0)
            raise
        fin = int(self.gated.active is None)
        rows = self.rows()
        res = 'ok'
        if self.gated.failed or self.server.died:
            res = 'EXC %s' % (self.gated.failed or self.server.died)
        if fin or res != 'ok' or self.db != before:
            self.log(op='PS', res=res, fin=fin, db=rows)
        if fin:
            self.packing = False
            self.settle()

    def same(self):
        self.log(op='SAME', db=self.rows())

    def random_op(self):
        rnd = self.rnd
        if len(self.clients) < 2:
            self.join()
            return
        ops = self.p['ops']
        names = sorted(ops)
        op = rnd.choices(names, [ops[n] for n in names])[0]
        c = rnd.choice(self.live())
        some = sorted(self.db) + [max(self.db) + 1]
        if op == 'SY':
            self.sync(c)
        elif op == 'AL':
            self.alloc(c, rnd.choice([1, 1, 2, 5, 32, 255]))
        elif op == 'LD':
            self.load(c, rnd.choice(some))
        elif op == 'BL':
            n = rnd.choice([0, 1, 2, 3, 10, self.p.get('batch', 40)])
            pool = some if rnd.random() < 0.3 else sorted(self.db)
            self.bulk(c, [rnd.choice(pool) for i in range(n)])
        elif op == 'CM':
            self.commit(c)
        elif op == 'BC':
            self.bad_commit()
        elif op == 'BR':
            self.bad_request()
        elif op == 'P':
            self.pack(c)
        elif op == 'PS':
            self.steps(rnd.choice([1, 1, 2, 5, 100]))
        elif op == 'J':
            self.join()
        elif op == 'X':
            self.leave(c, rnd.random() < 0.4)
        elif op == 'ST':
            self.stall()

    def finish(self):
        """whatever has happened, the server serves, and a pack ends while it is idle"""
        if self.packing:
            self.steps(10 ** 9)
        for c in self.live():
            self.sync(c)
            for o in sorted(self.db)[:3]:
                self.load(c, o)
        self.join()
        c = self.live()[-1]
        self.load(c, 0)
        self.commit(c)
        self.steps(10 ** 9)
        CHOP[0] = 0
        self.server.stop()
        if self.gated.active is not None:
            if hasattr(self.gated.active, "close"):
                self.gated.active.close()
        path = os.path.join(self.dir, 'db')
        try:
            self.raw.close()
        except Exception:
            pass
        gc.collect(0)
        self.raw = self.gated.real = STORAGES[self.kind](path)
        self.same()

    def close(self):
        CHOP[0] = 0
        for k in self.clients.values():
            try:
                k.s.close()
            except Exception:
                pass
        try:
            self.server.stop()
        except Exception:
            pass
        try:
            self.raw.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, True)


def connect(address):
    if isinstance(address, tuple):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    else:
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        address = address.replace('@', '\0')
    s.settimeout(15)
    s.connect(address)
    return s


class NetServer(Server):
    def __init__(self, storage, address, gcbytes):
        self.gated = storage
        self.address = address
        self.server = StorageServer(storage, address=address, gcbytes=gcbytes)
        self.died = None
        self.stopping = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()
        t0 = time.time()
        while not self._ready():
            if time.time() - t0 > 20:
                raise Hang('the server does not start (%s)' % self.died)
            time.sleep(0.001)

    def _ready(self):
        try:
            connect(self.address).close()
            return True
        except OSError:
            return False

    def stop(self):
        self.stopping = True
        try:
            s = connect(self.address)
            s.sendall(b'Q')
            s.recv(1)
            s.close()
        except OSError:
            pass
        self.thread.join(20)
        if self.thread.is_alive():
            raise Hang('the server does not stop')


def failed(w, e):
    if w.server.died:
        w.log(op='HANG', what='the server died: %s' % w.server.died)
    elif isinstance(e, (OSError, EOFError)):
        w.log(op='HANG', what='connection lost: ' + outcome(e))
    else:
        log_unexpected(w, e)


def run_random(profile, seed, index, where):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    for key in ('kind', 'net', 'chop', 'gcbytes', 'objects', 'rawp'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    if hasattr(durus.storage_server, 'TIMEOUT'):
        durus.storage_server.TIMEOUT = 0.4 if prof.get('stall') else 10
    w = W(prof, rnd, where)
    try:
        with Watchdog(60):
            for i in range(rnd.randrange(2, 4)):
                w.join()
            for i in range(rnd.randrange(prof['steps'] // 2, prof['steps'] + 1)):
                w.random_op()
            w.finish()
    except Hang as e:
        w.log(op='HANG', what='%s (server: %s)' % (e, w.server.died))
    except Exception as e:
        failed(w, e)
    finally:
        w.close()
    return dict(ev=w.ev, meta=dict(profile=prof, seed=seed, index=index))


def run_cuts(profile, index, where):
    """every byte position of every request"""
    rnd = random.Random(index)
    prof = dict(profile)
    w = W(prof, rnd, where)
    try:
        with Watchdog(120):
            w.join()
            w.join()
            for what in ('L', 'M', 'B', 'V'):
                for n in range(1, {'L': 9, 'M': 2, 'B': 29, 'V': 5}[what]):
                    w.bad_request(what, n)
            for n in range(1, 150):
                w.bad_commit('cut', n)
            w.finish()
    except Hang as e:
        w.log(op='HANG', what='%s (server: %s)' % (e, w.server.died))
    except Exception as e:
        failed(w, e)
    finally:
        w.close()
    return dict(ev=w.ev, meta=dict(profile=prof, index=index))


def main():
    spec = json.load(open(sys.argv[1]))
    where = tempfile.mkdtemp()
    if 'cuts' in spec:
        traces = [run_cuts(spec['profile'], spec['cuts'], where)]
    else:
        traces = [run_random(spec['profile'], spec['seed'], i, where)
                  for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)
    shutil.rmtree(where, True)


if __name__ == '__main__':
    main()
