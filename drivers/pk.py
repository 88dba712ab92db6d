"""Drives the storages at the level of their own interface, with incremental
packs stepped between other calls; records traces for DurusPackTrace.tla."""
from rt import *

CLS = pickle.dumps(P, 2)


def make_record(oid, v, refs, pad=0, hard=0):
    """pad: additional bytes that compress well; hard: that do not"""
    data = CLS + zlib.compress(pickle.dumps({'v': v, 'pad': 'x' * pad, 'hard': random.Random(v).randbytes(hard)}, 2))
    return i8(oid) + struct.pack('>L', len(data)) + data + b''.join(i8(r) for r in sorted(refs))


def parse_record(r):
    n = struct.unpack('>L', r[8:12])[0]
    data, refs = r[12:12 + n], r[12 + n:]
    st = pickle.loads(zlib.decompress(data[len(CLS):]))
    return [u8(r[:8]), st['v'], [u8(refs[i:i + 8]) for i in range(0, len(refs), 8)]]


class W(object):
    def __init__(self, profile, rnd, where):
        self.p, self.rnd = profile, rnd
        self.dir = tempfile.mkdtemp(dir=where)
        self.path = os.path.join(self.dir, 'db')
        self.kind = profile['kind']
        self.cls = STORAGES[self.kind]
        self.inc = profile.get('inc', 1)
        self.ev = []
        self.logged = []
        self.s = self.open()
        self.packer = None
        self.known = {}     # oid -> refs (what the driver believes, to choose operations)
        self.free = []
        self.v = 0
        self.last = []

    def open(self, **kw):
        s = self.cls(self.path, **kw)
        if hasattr(s, '_PACK_INCREMENT'):
            s._PACK_INCREMENT = self.inc
        return s

    def log(self, **e):
        self.ev.append(e)

    def log_db(self, **e):
        """an event with what is stored, as rows that differ from those last logged,
        oids that have gone, and whether all rows are given instead"""
        rows, last = e['db'], dict((row[0], row) for row in self.logged)
        now = dict((row[0], row) for row in rows)
        if len(now) < len(rows) or not self.logged:
            e['db'] = [rows, [], 1]
        else:
            e['db'] = [[row for row in rows if last.get(row[0]) != row],
                       sorted(set(last) - set(now)), 0]
        self.logged = rows
        self.ev.append(e)

    def rows(self):
        rows = []
        for o, r in self.s.gen_oid_record():
            row = parse_record(bytes(r))
            if row[0] != u8(o):
                row[0] = -99
            rows.append(row)
        return sorted(rows)

    def store(self, changes):
        """changes: list of (oid, refs)"""
        res, rows = 'ok', []
        for o, refs in changes:
            self.v += 1
            rows.append([o, self.v, sorted(refs)])
        try:
            self.s.begin()
            for o, v, refs in rows:
                pad = self.rnd.choice([0, 0, 0, 10, 300, 5000]) if self.rnd.random() < 0.9 else 70000
                self.s.store(i8(o), make_record(o, v, refs, pad))
            self.s.end()
        except Exception as e:
            res = outcome(e)
        self.last = self.rows()
        self.log_db(op='ST', rows=rows, res=res, db=self.last)
        for o, v, refs in rows:
            self.known[o] = set(refs)
            if o in self.free:
                self.free.remove(o)

    def store_failing(self):
        """a commit that cannot be completed: one of its records cannot be stored"""
        res = 'ok'
        o = self.rnd.choice(sorted(self.known))
        try:
            self.s.begin()
            self.s.store(i8(o), make_record(o, 999999, []))
            def broken():
                raise IOError('planted')
            # the second "record" cannot even be measured
            self.s.store(i8(o), Broken())
            self.s.end()
        except Exception as e:
            res = outcome(e)
        self.log_db(op='SF', res=res, db=self.rows())
        self.s.begin()

    def new(self):
        res, o = 'ok', -1
        try:
            o = u8(self.s.new_oid())
        except Exception as e:
            res = outcome(e)
        self.log(op='NEW', res=res, o=o)
        if res == 'ok':
            self.free.append(o)
        return o

    def load(self, o):
        res, v, refs = 'ok', 0, []
        try:
            row = parse_record(bytes(self.s.load(i8(o))))
            if row[0] != o:
                res = 'EXC record of another object'
            v, refs = row[1], row[2]
        except KeyError:
            res = 'none'
        except Exception as e:
            res = outcome(e)
        self.log(op='LD', o=o, res=res, v=v, refs=refs)

    def traverse(self):
        o = self.rnd.choice(sorted(self.known))
        res, rows = 'ok', []
        try:
            for oid, r in self.s.gen_oid_record(start_oid=i8(o), batch_size=self.rnd.choice([1, 2, 100])):
                row = parse_record(bytes(r))
                if row[0] != u8(oid):
                    row[0] = -99
                rows.append(row)
        except Exception as e:
            res = outcome(e)
        self.log(op='GR', o=o, res=res, db=rows)

    def sync(self):
        res, oids = 'ok', []
        try:
            oids = [u8(o) for o in self.s.sync()]
        except Exception as e:
            res = outcome(e)
        self.log(op='SY', res=res, oids=oids)

    def start_pack(self):
        if self.packer is not None:
            return
        res = 'ok'
        try:
            self.packer = self.s.get_packer()
        except Exception as e:
            res = outcome(e)
        self.log(op='PB', res=res)

    def second_pack(self):
        """another pack while one runs must be harmless"""
        if self.packer is None:
            return
        res = 'ok'
        try:
            p = self.s.get_packer()
            while p is not None:
                try:
                    next(p)
                except StopIteration:
                    p = None
        except Exception as e:
            res = outcome(e)
        rows = self.rows()
        self.log_db(op='PS', res=res, fin=0, db=rows)
        self.last = rows

    def step(self, n=1):
        for i in range(n):
            if self.packer is None:
                return
            res, fin = 'ok', 0
            try:
                next(self.packer)
            except StopIteration:
                fin = 1
                self.packer = None
            except Exception as e:
                res = outcome(e)
                self.packer = None
            rows = self.rows()
            if fin or res != 'ok' or rows != self.last:
                self.log_db(op='PS', res=res, fin=fin, db=rows)
                present = set(r[0] for r in rows)
                for o in list(self.known):
                    if o not in present:
                        del self.known[o]
            self.last = rows

    def reopen(self, readonly=False):
        res, rows = 'ok', []
        if self.packer is not None:
            try:
                self.packer.close()
            except Exception:
                pass
            self.packer = None
        try:
            self.s.close()
            self.s = None
            gc.collect(0)
            if readonly and self.kind != 'sqlite':
                self.s = self.open(readonly=True)
                rows = self.rows()
                self.log_db(op='RO', res=res, db=rows)
                self.s.close()
            self.s = self.open()
            rows = self.rows()
        except Exception as e:
            res = outcome(e)
        self.log_db(op='RO', res=res, db=rows)
        self.last = rows
        self.free = []
        if res != 'ok':
            raise Hang('cannot go on')

    def close(self):
        try:
            if self.packer is not None:
                self.packer.close()
            if self.s is not None:
                self.s.close()
        except Exception:
            pass
        shutil.rmtree(self.dir, True)

    # ---- random
    def random_commit(self):
        rnd = self.rnd
        changes, fresh = {}, []
        for i in range(rnd.choice([0, 0, 1, 1, 2])):
            if self.free and rnd.random() < 0.5:
                o = rnd.choice(self.free)
            else:
                o = self.new()
            if o >= 0 and o not in fresh:
                fresh.append(o)
        old = sorted(self.known)
        r = rnd.random()
        edges = [(o, x) for o in old for x in sorted(self.known[o])]
        if edges and r < 0.3:
            # an object moves to another place, at once or in two commits
            o, x = rnd.choice(edges)
            to = rnd.choice(old)
            if to not in (o, x):
                changes[o] = self.known[o] - {x}
                changes[to] = (self.known[to] if rnd.random() < 0.5 else set()) | {x}
                if rnd.random() < 0.5:
                    return self.store([(o, changes[o])]) or self.store([(to, changes[to])])
        for i in range(rnd.choice([1, 1, 2])):
            o = rnd.choice(old)
            refs = set(changes.get(o, self.known[o]))
            r = rnd.random()
            if r < 0.5 and refs:
                refs.discard(rnd.choice(sorted(refs)))
            if r > 0.3:
                refs.add(rnd.choice(old))
            if fresh and rnd.random() < 0.8:
                refs.add(rnd.choice(fresh))
            refs.discard(o)
            changes[o] = refs
        for o in fresh:
            changes[o] = set(rnd.choice(old + fresh) for i in range(rnd.choice([0, 1, 2]))) - {o}
        items = sorted(changes.items())
        rnd.shuffle(items)
        self.store(items)

    def commit_many(self):
        """more changes than a packer looks at in one step"""
        rnd = self.rnd
        fresh = [self.new() for i in range(rnd.choice([0, 0, 25, 110, 110]))]
        old = sorted(self.known)
        changed = rnd.sample(old, min(len(old), rnd.choice([1, 25, 110, 110])))
        todo, changes = list(fresh), []
        for o in changed:
            refs = set(self.known[o])
            if rnd.random() < 0.3 and refs:
                refs.discard(rnd.choice(sorted(refs)))
            for i in range(rnd.choice([0, 1, 1])):
                refs.add(todo.pop() if todo and rnd.random() < 0.8 else rnd.choice(old))
            changes.append((o, refs - {o}))
        for o in fresh:
            changes.append((o, set([todo.pop()] if todo else []) - {o}))
        rnd.shuffle(changes)
        self.store(changes)

    def random_op(self):
        rnd = self.rnd
        ops = self.p['ops']
        names = sorted(ops)
        op = rnd.choices(names, [ops[n] for n in names])[0]
        if op == 'ST':
            self.random_commit()
        elif op == 'SM':
            self.commit_many()
        elif op == 'LD':
            self.load(rnd.choice(sorted(self.known) + [rnd.randrange(0, 12)]))
        elif op == 'NEW':
            self.new()
        elif op == 'PB':
            self.start_pack()
        elif op == 'P2':
            self.second_pack()
        elif op == 'PS':
            self.step(rnd.choice([1, 1, 1, 2, 5]))
        elif op == 'PF':
            while self.packer is not None:
                self.step()
        elif op == 'SY':
            self.sync()
        elif op == 'RO':
            self.reopen(rnd.random() < 0.4)
        elif op == 'GR':
            self.traverse()
        elif op == 'SF':
            self.store_failing()


class Broken(object):
    """not a record"""


def setup(w, graph):
    n = len(graph)
    real = {}
    for o in sorted(graph):
        real[o] = w.new() if True else o
    w.store([(real[o], [real[x] for x in refs]) for o, refs in sorted(graph.items())])
    return real


def run_random(profile, seed, index, where):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    for key in ('kind', 'inc', 'objects'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    w = W(prof, rnd, where)
    try:
        with Watchdog(60):
            n = prof.get('objects', 5)
            graph = dict((o, set(rnd.randrange(0, n) for i in range(rnd.choice([0, 1, 1, 2, 3]))) - {o})
                         for o in range(n))
            if rnd.random() < 0.5:
                for o in range(1, n):
                    graph[(o - 1) // 2].add(o)
            setup(w, graph)
            for i in range(rnd.randrange(prof.get('steps', 50) // 2, prof.get('steps', 50) + 1)):
                w.random_op()
            while w.packer is not None:
                w.step()
            w.sync()
            for o in sorted(w.known):
                w.load(o)
            if rnd.random() < 0.5:
                w.start_pack()
                while w.packer is not None:
                    w.step()
            w.reopen()
            for i in range(rnd.choice([0, 3, 20])):
                w.new()
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    finally:
        w.close()
    return dict(ev=w.ev, meta=dict(profile=prof, seed=seed, index=index))


def run_script(profile, script, index, where):
    rnd = random.Random(index)
    prof = dict(profile)
    for key in ('kind', 'inc'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    w = W(prof, rnd, where)
    try:
        with Watchdog(60):
            graph = dict((o, set(refs) - {o}) for o, refs in script[0][1])
            if sorted(graph) != list(range(len(graph))):
                pass
            real = setup(w, graph)
            for op in script[1:]:
                if op[0] == 'ST':
                    o, refs, fresh = op[1], op[2], op[3]
                    if real.get(o) not in w.known:
                        continue
                    for f in fresh:
                        real[f] = w.new()
                    w.store([(real[o], [real[r] for r in refs if r != o and
                                        (r in fresh or real.get(r) in w.known)])] +
                            [(real[f], []) for f in fresh])
                elif op[0] == 'PB':
                    w.start_pack()
                    # some packers have a first step that does nothing
                    w.step(rnd.choice([0, 1]) if prof.get('shift') else 0)
                elif op[0] == 'PS':
                    w.step()
            while w.packer is not None:
                w.step()
            w.sync()
            if index % 3 == 0:
                w.reopen()
    except Hang as e:
        w.log(op='HANG', what=str(e))
    except Exception as e:
        log_unexpected(w, e)
    finally:
        w.close()
    return dict(ev=w.ev, meta=dict(profile=prof, script=script))


def main():
    spec = json.load(open(sys.argv[1]))
    where = tempfile.mkdtemp()
    if 'scripts' in spec:
        traces = [run_script(spec['profile'], s, i, where) for i, s in enumerate(spec['scripts'])]
    else:
        traces = [run_random(spec['profile'], spec['seed'], i, where)
                  for i in range(spec['first'], spec['first'] + spec['n'])]
    write_traces(sys.argv[2], traces)
    shutil.rmtree(where, True)


if __name__ == '__main__':
    main()
