"""Several processes and one database path.  Every process waits before each
operation on the files (shim.c) until it is told to go on, so that exactly one of
them runs at a time and the schedule is ours.  Records traces for DurusLockTrace.tla."""
import ctypes, errno, select, signal, subprocess
from pk import *

NOISE = ('write', 'fsync', 'truncate')      # steps that no other process can tell apart


# ------------------------------------------------------------------------ worker
class Worker(object):
    def __init__(self, cmd, out):
        self.shim = ctypes.CDLL(os.environ['VT_SHIM'])
        self.shim.vt_watch.argtypes = [ctypes.c_char_p, ctypes.c_int]
        self.cmd, self.out = cmd, out
        self.s = self.packer = None

    def loop(self):
        f = os.fdopen(self.cmd, 'rb', 0)
        while True:
            line = b''
            while not line.endswith(b'\n'):
                c = f.read(1)
                if not c:
                    return
                line += c
            op = json.loads(line.decode())
            res = dict(res='ok')
            try:
                res.update(getattr(self, 'do_' + op['op'])(op) or {})
            except Exception as e:
                res['res'] = 'locked' if getattr(e, 'errno', 0) in (errno.EAGAIN, errno.EACCES) else outcome(e)
                e = None
            if res['res'] != 'ok':
                gc.collect()
            os.write(self.out, b'DONE ' + json.dumps(res).encode() + b'\n')

    def do_reset(self, op):
        """another trace begins"""
        self.shim.vt_watch(None, -1)
        self.shim.vt_gate(-1, -1)
        for x in (self.packer, self.s):
            try:
                x.close()
            except Exception:
                pass
        self.s = self.packer = None
        gc.collect()
        self.cls, self.path = STORAGES[op['kind']], op['path']
        self.shim.vt_watch(os.path.dirname(self.path).encode(), -1)
        self.shim.vt_gate(self.out, self.cmd_gate)

    def rows(self, s):
        return sorted([u8(o), parse_record(bytes(r))[1]] for o, r in s.gen_oid_record())

    def do_open(self, op):
        try:
            s = self.cls(self.path)
        except Exception as e:
            if getattr(e, 'errno', 0) in (errno.EAGAIN, errno.EACCES) or not op.get('repair'):
                raise
            s = self.cls(self.path, repair=True)
        self.s = s
        if hasattr(s, '_PACK_INCREMENT'):
            s._PACK_INCREMENT = 1
        return dict(db=self.rows(s))

    def do_look(self, op):
        s = self.cls(self.path, readonly=True)
        res = dict(cres='no')
        try:
            res['db'] = self.rows(s)
            if op['try'] and res['db']:
                try:
                    s.begin()
                    s.store(i8(0), make_record(0, 999999, []))
                    s.end()
                    res['cres'] = 'ok'
                except Exception as e:
                    res['cres'] = outcome(e)
                try:
                    s.pack()            # may do nothing
                except Exception as e:
                    outcome(e)
        finally:
            s.close()
        return res

    def do_commit(self, op):
        self.s.begin()
        for o, v in op['rows']:
            if o and not self.has(o):
                # allocate until this oid comes up
                for i in range(500):
                    if u8(self.s.new_oid()) == o:
                        break
            self.s.store(i8(o), make_record(o, v, op['refs'] if o == 0 else [], 0, op['hard']))
        self.s.end()

    def has(self, o):
        try:
            self.s.load(i8(o))
            return True
        except Exception:
            return False

    def do_pack(self, op):
        self.packer = self.s.get_packer()

    def do_step(self, op):
        n = 0
        for x in self.packer:
            n += 1
            if n == op['n']:
                return dict(fin=0)
        self.packer = None
        return dict(fin=1)

    def do_close(self, op):
        s, self.s, self.packer = self.s, None, None
        s.close()


# -------------------------------------------------------------------- controller
class Process(object):
    def __init__(self, name):
        self.name = name
        self.start()

    def start(self):
        cr, cw = os.pipe()
        gr, gw = os.pipe()
        orr, ow = os.pipe()
        for fd in (cr, gr, ow):
            os.set_inheritable(fd, True)
        self.proc = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--worker', str(cr), str(gr), str(ow)],
                                     close_fds=False, env=dict(os.environ, LD_PRELOAD=os.environ['VT_SHIM']),
                                     preexec_fn=lambda: [os.close(x) for x in (cw, gw, orr)])
        for fd in (cr, gr, ow):
            os.close(fd)
        for fd in (cw, gw, orr):
            os.set_inheritable(fd, False)
        self.cmd, self.go, self.out = cw, gw, orr
        self.buf = b''
        self.at = None          # the step that it waits for
        self.call = None        # the operation that it is in
        self.open = self.packing = False

    def line(self):
        while b'\n' not in self.buf:
            if not select.select([self.out], [], [], 30)[0]:
                raise Hang('process stuck in ' + json.dumps(self.call)[:100])
            b = os.read(self.out, 65536)
            if not b:
                raise Hang('process ended in ' + json.dumps(self.call)[:100])
            self.buf += b
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode()

    def wait(self):
        """-> result of the operation, or None if it waits before a step"""
        l = self.line()
        if l.startswith('DONE '):
            self.at = None
            return json.loads(l[5:])
        self.at = l.split()[0]
        return None

    def begin(self, call):
        self.call = call
        os.write(self.cmd, json.dumps(call).encode() + b'\n')
        return self.wait()

    def proceed(self):
        os.write(self.go, b'x')
        return self.wait()

    def kill(self):
        self.proc.kill()
        self.proc.wait()
        for fd in (self.cmd, self.go, self.out):
            os.close(fd)


class L(object):
    def __init__(self, profile, rnd, where, procs):
        self.p, self.rnd, self.procs = profile, rnd, procs
        self.kind = profile['kind']
        self.dir = tempfile.mkdtemp(dir=where)
        self.path = os.path.join(self.dir, 'db')
        self.ev = []
        self.v = 0
        self.db = {}
        for p in procs:
            self.finish_call(p)
            r = p.begin(dict(op='reset', kind=self.kind, path=self.path))
            if r is None or r['res'] != 'ok':
                raise Exception('reset: %r' % (r,))
            p.open = p.packing = False
            p.call = None

    def finish_call(self, p):
        while p.at is not None:
            p.proceed()

    def log(self, **e):
        self.ev.append(e)

    def content(self):
        return dict((n, open(os.path.join(self.dir, n), 'rb').read()) for n in os.listdir(self.dir))

    def begin(self, p, op):
        if p.call is not None:
            return
        call = dict(op=op)
        rows = []
        if op == 'open':
            if p.open:
                return
            call['repair'] = 1
        elif op == 'look':
            if p.open:
                return
            call['try'] = int(self.rnd.random() < 0.5)
            self.before = self.content()
            p.undisturbed = True
        elif op == 'commit':
            if not p.open:
                return
            self.v += 1
            if not p.db:
                oids = list(range(self.p.get('objects', 3)))
            else:
                oids = self.rnd.sample(sorted(p.db), self.rnd.choice([1, 2]))
                if self.rnd.random() < 0.3:
                    oids = sorted(set(oids) | {0, max(p.db) + 1})
            rows = call['rows'] = [[o, self.v] for o in oids]
            call['hard'] = self.rnd.choice([0, self.p.get('hard', 0)])
            call['refs'] = sorted((set(p.db) | set(oids)) - {0})
        elif op == 'pack':
            if not p.open or p.packing or not p.db:
                return
        elif op == 'step':
            if not p.packing:
                return
            call['n'] = self.rnd.choice([1, 2, 50])
        elif op == 'close':
            if not p.open or p.packing:
                return
        self.log(op='CALL', w=p.name, what=op, rows=rows)
        self.done(p, p.begin(call))

    def done(self, p, r):
        for q in self.procs:
            if q is not p:
                q.undisturbed = False
        if r is None:
            return
        op, res = p.call['op'], r['res']
        e = dict(op='RET', w=p.name, what=op, res=res, db=r.get('db', []), fin=r.get('fin', 0),
                 cres=r.get('cres', 'no'), mod=0)
        if op == 'open' and res == 'ok':
            p.open, p.packing, p.db = True, False, dict((o, v) for o, v in r['db'])
        elif op == 'look':
            if p.undisturbed:
                e['mod'] = int(self.content() != self.before)
        elif op == 'commit' and res == 'ok':
            p.db.update(p.call['rows'])
        elif op == 'pack' and res == 'ok':
            p.packing = True
        elif op == 'step' and (res != 'ok' or r['fin']):
            p.packing = False
        elif op == 'close':
            p.open = p.packing = False
        p.call = None
        self.log(**e)

    def go(self, p, noise=False):
        """up to the next step that matters, or the end of the operation"""
        while p.at is not None:
            self.done(p, p.proceed())
            if noise or p.at not in NOISE:
                return

    def kill(self, p):
        p.kill()
        self.log(op='KILL', w=p.name)
        p.start()
        r = p.begin(dict(op='reset', kind=self.kind, path=self.path))
        p.call = None

    def random(self):
        rnd, prof = self.rnd, self.p
        p = self.procs[0]
        for i in range(prof['steps']):
            if rnd.random() < prof.get('switch', 0.5):
                p = rnd.choice(self.procs[:prof['procs']])
            if p.at is not None:
                if rnd.random() < prof.get('kill', 0):
                    self.kill(p)
                else:
                    self.go(p, rnd.random() < prof.get('noise', 0.1))
            else:
                if p.open:
                    op = rnd.choices(['commit', 'pack', 'step', 'close'], prof['weights'][:4])[0]
                    if p.packing and op == 'close':
                        op = 'step'
                else:
                    op = rnd.choices(['open', 'look'], prof['weights'][4:])[0]
                self.begin(p, op)

    def replay(self, script):
        for w, op in script:
            p = self.procs[w - 1]
            if op == 'kill':
                self.kill(p)
            elif op == 'go':
                self.go(p)
            else:
                while p.call is not None:       # the model has fewer steps
                    self.go(p)
                if op == 'step':
                    while p.packing:
                        self.begin(p, op)
                        while p.at is not None and p.at not in ('link', 'rename'):
                            self.go(p)
                        if p.at is not None:
                            break
                else:
                    self.begin(p, op)
                    while op in ('commit', 'pack') and p.at is not None:
                        self.go(p)

    def end(self):
        for p in self.procs:
            while p.at is not None:
                self.go(p)
        for p in self.procs:
            if p.open:
                while p.packing:
                    self.begin(p, 'step')
                    while p.at is not None:
                        self.go(p)
                self.begin(p, 'commit')
                while p.at is not None:
                    self.go(p)
                self.begin(p, 'close')
                while p.at is not None:
                    self.go(p)
        # now it must be free
        p = self.procs[0]
        for op in ('open', 'close'):
            self.begin(p, op)
            while p.at is not None:
                self.go(p)
        shutil.rmtree(self.dir, True)


def run(profile, seed, index, where, procs, script=None):
    rnd = random.Random('%s/%s/%s' % (seed, index, json.dumps(profile, sort_keys=True)))
    prof = dict(profile)
    for key in ('kind', 'procs', 'hard', 'objects', 'switch', 'kill', 'noise'):
        if isinstance(prof.get(key), list):
            prof[key] = rnd.choice(prof[key])
    w = L(prof, rnd, where, procs)
    try:
        if script is None:
            w.random()
        else:
            w.replay(script)
        w.end()
    except Hang as e:
        w.log(op='HANG', what=str(e))
        for p in procs:
            p.kill()
            p.start()
    return dict(ev=w.ev, meta=dict(profile=prof, seed=seed, index=index, script=script))


def main():
    if sys.argv[1] == '--worker':
        cmd, go, out = map(int, sys.argv[2:5])
        w = Worker(cmd, out)
        w.cmd_gate = go
        w.loop()
        os._exit(0)
    spec = json.load(open(sys.argv[1]))
    where = tempfile.mkdtemp()
    procs = [Process(i + 1) for i in range(3)]
    try:
        if 'scripts' in spec:
            traces = [run(spec['profile'], spec['seed'], i, where, procs, s) for i, s in enumerate(spec['scripts'])]
        else:
            traces = [run(spec['profile'], spec['seed'], i, where, procs)
                      for i in range(spec['first'], spec['first'] + spec['n'])]
    finally:
        for p in procs:
            p.kill()
    write_traces(sys.argv[2], traces)
    shutil.rmtree(where, True)


if __name__ == '__main__':
    main()
