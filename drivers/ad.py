"""Servers at addresses, for DurusAddrTrace.tla."""
from rt import *
import subprocess, pwd, grp, stat as stat_, warnings
import durus.storage_server
import durus.__main__
from durus.storage import MemoryStorage
from durus.storage_server import SocketAddress, wait_for_server
from durus.serialize import pack_record

warnings.simplefilter('ignore')
durus.__main__.sleep = lambda t: time.sleep(0.01)
V6 = True
CHOWN = True


def probe(where):
    global V6, CHOWN
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        s.bind(('::1', 0))
        s.close()
    except OSError:
        V6 = False
    p = os.path.join(where, 'chown')
    open(p, 'w').close()
    try:
        os.chown(p, 12345, 12345)
    except OSError:
        CHOWN = False
    os.unlink(p)


def marked(n):
    st = MemoryStorage()
    st.new_oid()
    st.begin()
    st.store(i8(0), pack_record(i8(0), b'%d' % n, b''))
    st.end()
    return st


def digits(mode):
    return [mode >> 6 & 7, mode >> 3 & 7, mode & 7]


def uname(uid):
    try:
        return pwd.getpwuid(uid).pw_name
    except KeyError:
        return str(uid)


def gname(gid):
    try:
        return grp.getgrgid(gid).gr_name
    except KeyError:
        return str(gid)


def umask_now():
    m = os.umask(0)
    os.umask(m)
    return m


class Addr(object):
    def __init__(self, kind, name, port=0):
        self.kind, self.name, self.port = kind, name, port
        self.v6 = int(':' in name and kind == 'tcp')

    def new(self, **kw):
        if self.kind == 'tcp':
            return SocketAddress.new((self.name, self.port))
        return SocketAddress.new(self.name, **kw)

    def client(self, rnd):
        if rnd.random() < 0.3:
            return ClientStorage(address=self.new())
        if self.kind == 'tcp':
            return ClientStorage(self.name, self.port) if rnd.random() < 0.5 else ClientStorage(address=(self.name, self.port))
        return ClientStorage(address=self.name)

    def raw(self):
        s = socket.socket({'tcp': socket.AF_INET6 if self.v6 else socket.AF_INET}.get(self.kind, socket.AF_UNIX),
                          socket.SOCK_STREAM)
        return s

    def sockname(self):
        return (self.name, self.port) if self.kind == 'tcp' else self.name.replace('@', '\0') if self.kind == 'abs' else self.name

    def file(self):
        if self.kind != 'unix' or not os.path.exists(self.name):
            return []
        st = os.stat(self.name)
        return [digits(st.st_mode), uname(st.st_uid), gname(st.st_gid)]


class W(object):
    def __init__(self, rnd, where, kinds=None):
        self.rnd, self.where = rnd, tempfile.mkdtemp(dir=where)
        self.ev, self.servers, self.addrs = [], {}, []
        for k in kinds or [rnd.choice(['unix', 'unix', 'unix', 'abs', 'tcp']) for i in range(rnd.choice([2, 3, 4]))]:
            self.addrs.append(self.address(k))
        self.umask0 = umask_now()
        self.count = 0
        self.ev.append(dict(op='INIT', kinds=[a.kind for a in self.addrs]))

    def address(self, k):
        rnd, n = self.rnd, len(self.addrs)
        if k == 'unix':
            return Addr('unix', os.path.join(self.where, rnd.choice(['s%d', 'a@%d', 'x y%d']) % n))
        if k == 'abs':
            # '@' stands for the zero byte everywhere
            return Addr('abs', '@' + os.path.basename(self.where) + rnd.choice(['%d', '@%d']) % n)
        host = rnd.choice(['127.0.0.1', '127.0.0.%d' % rnd.randrange(2, 250), 'localhost'] + ['::1'] * V6)
        return Addr('tcp', host, free_port('127.0.0.1' if host == 'localhost' else host))

    def who(self, a):
        try:
            c = a.client(self.rnd)
        except AssertionError:
            return 0
        except Exception:
            return -1
        try:
            return int(c.load(i8(0))[12:])
        except Exception:
            return -1
        finally:
            c.close()

    def thing(self, a):
        if a.kind != 'unix':
            return 'none'
        try:
            st = os.lstat(a.name)
        except OSError:
            return 'none'
        if stat_.S_ISSOCK(st.st_mode):
            return 'socket'
        if stat_.S_ISDIR(st.st_mode):
            return 'dir'
        if stat_.S_ISREG(st.st_mode):
            d = open(a.name, 'rb').read()
            return 'full' if d == b'precious' else 'empty' if d == b'' else 'damaged'
        return 'other'

    def log(self, **e):
        e.update(um=umask_now(), um0=self.umask0, now=[[self.thing(a), self.who(a)] for a in self.addrs])
        self.ev.append(e)

    # ------------------------------------------------------------------ servers
    def launch(self, n, a, **kw):
        """() -> None or an exception"""
        address = a.new(**kw)
        if not kw and a.kind == 'tcp' and self.rnd.random() < 0.5:
            server = StorageServer(marked(n), host=a.name, port=a.port)
            address = server.address
        elif not kw and self.rnd.random() < 0.5:
            server = StorageServer(marked(n), address=(a.name, a.port) if a.kind == 'tcp' else a.name)
            address = server.address
        else:
            server = StorageServer(marked(n), address=address)
        done, result = threading.Event(), []
        listen = address.get_listening_socket
        def get_listening_socket():
            s = listen()
            result.append(None)
            done.set()
            return s
        address.get_listening_socket = get_listening_socket
        def run():
            try:
                server.serve()
            except SystemExit:
                pass
            except BaseException as e:
                result.append(e)
            done.set()
            for s in server.sockets:
                s.close()
        t = threading.Thread(target=run, daemon=True)
        t.start()
        if not done.wait(20):
            raise Hang('the server does not start')
        if result[0] is None:
            self.servers[n] = (server, t, a)
        else:
            t.join(20)
        return result[0]

    def next_server(self):
        self.count += 1
        return self.count if self.count < 10 else None

    def start(self, i):
        n = self.next_server()
        if n is None:
            return
        rnd, a = self.rnd, self.addrs[i]
        kw, owner, group, um = {}, os.geteuid(), os.getegid(), self.umask0
        if a.kind == 'unix' and rnd.random() < 0.7:
            if rnd.random() < 0.5 and CHOWN:
                kw['owner'] = rnd.choice([0, 'nobody', 'root', 12345])
                owner = kw['owner'] if isinstance(kw['owner'], int) else pwd.getpwnam(kw['owner']).pw_uid
            if rnd.random() < 0.5 and CHOWN:
                kw['group'] = rnd.choice([0, 'nogroup', 'daemon', 54321])
                group = kw['group'] if isinstance(kw['group'], int) else grp.getgrnam(kw['group']).gr_gid
            if rnd.random() < 0.6:
                kw['umask'] = um = rnd.choice([0, 0o077, 0o027, 0o007, 0o022, 0o111, 0o177])
        exc = self.launch(n, a, **kw)
        e = dict(op='START', s=n, a=i + 1, res='ok' if exc is None else outcome(exc), os=int(isinstance(exc, OSError)),
                 um2=digits(um), owner2=owner, group2=group, mode=[], owner=-1, group=-1)
        if exc is None and a.kind == 'unix' and os.path.exists(a.name):
            st = os.stat(a.name)
            e.update(mode=digits(st.st_mode), owner=st.st_uid, group=st.st_gid)
        self.log(**e)

    def half(self, i):
        n = self.next_server()
        if n is None or self.addrs[i].kind != 'unix':
            return
        kw = {self.rnd.choice(['owner', 'group']): 'nosuchname'}
        if self.rnd.random() < 0.7:
            kw['umask'] = 0o137
        exc = self.launch(n, self.addrs[i], **kw)
        res = 'ok' if exc is None else outcome(exc)
        del exc
        gc.collect()
        self.log(op='HALF', s=n, a=i + 1, res=res)

    def end(self, op, i):
        found = [n for n, (server, t, a) in self.servers.items() if a is self.addrs[i]]
        if not found:
            return
        server, t, a = self.servers.pop(found[0])
        res = 'ok'
        if op == 'KILL':
            server.address.close = lambda s: s.close()
        try:
            if op == 'STOP' and self.rnd.random() < 0.4:
                if self.rnd.random() < 0.5:
                    # it takes a while until the server is gone
                    close = server.address.close
                    def slow(s):
                        time.sleep(0.05)
                        close(s)
                    server.address.close = slow
                if durus.__main__.stop_durus(a.new()) is not True:
                    res = 'stop_durus() did not find the server'
            else:
                s = a.raw()
                s.settimeout(20)
                s.connect(a.sockname())
                s.sendall(b'Q')
                s.recv(1)
                s.close()
        except OSError as e:
            res = outcome(e)
        t.join(20)
        if t.is_alive():
            raise Hang('the server does not stop')
        del server, t
        gc.collect()
        self.log(op=op, a=i + 1, res=res)

    def put(self, i, what):
        a = self.addrs[i]
        if a.kind != 'unix' or any(x is a for _, _, x in self.servers.values()):
            return
        if os.path.isdir(a.name):
            os.rmdir(a.name)
        elif os.path.lexists(a.name):
            os.unlink(a.name)
        if what == 'dir':
            os.mkdir(a.name)
        elif what != 'free':
            with open(a.name, 'w') as f:
                f.write('precious' if what == 'full' else '')
        self.log(op='PUT', a=i + 1, what=what, res='ok')

    def wait(self, i):
        a, rnd = self.addrs[i], self.rnd
        tries, when, n = rnd.choice([1, 2, 4]), 0, 0
        live = any(x is a for _, _, x in self.servers.values())
        if not live and self.thing(a) in ('none', 'socket') and rnd.random() < 0.6 and tries > 1:
            n = self.next_server() or 0
            when = rnd.randrange(1, tries)
        sleeps, started = [0], ['no']
        def sleep(t):
            sleeps[0] += 1
            if sleeps[0] > 50:
                raise Hang('waits for ever')
            if sleeps[0] == when and n:
                exc = self.launch(n, a)
                started[0] = 'ok' if exc is None else outcome(exc)
        durus.storage_server.sleep = sleep
        res = 'ok'
        try:
            if a.kind == 'tcp' and rnd.random() < 0.5:
                wait_for_server(a.name, a.port, maxtries=tries, sleeptime=0.01)
            else:
                wait_for_server(address=rnd.choice([a.new(), (a.name, a.port) if a.kind == 'tcp' else a.name]),
                                maxtries=tries, sleeptime=0.01)
        except SystemExit:
            res = 'SystemExit'
        except Exception as e:
            res = outcome(e)
        finally:
            durus.storage_server.sleep = time.sleep
        self.log(op='WAIT', a=i + 1, s=n, start=started[0], when=when, tries=tries, res=res, sleeps=sleeps[0])

    def show(self, i):
        a = self.addrs[i]
        res, text = 'ok', ''
        try:
            text = str(a.new())
        except Exception as e:
            res = outcome(e)
        self.log(op='SHOW', a=i + 1, res=res, show=text, name=a.name, port=a.port, v6=a.v6, file=a.file())

    # ------------------------------------------------------------------ inherited sockets
    def ask(self, a, seconds):
        s = a.raw()
        s.settimeout(seconds)
        try:
            s.connect(a.sockname())
            s.sendall(b'V' + StorageServer.protocol)
            return int(s.recv(4) == StorageServer.protocol)
        except OSError:
            return 0
        finally:
            s.close()

    def inherit(self):
        rnd = self.rnd
        inh, own = self.address(rnd.choice(['unix', 'abs', 'tcp'])), None
        self.addrs.append(inh)
        own = self.address(rnd.choice(['unix', 'tcp', 'abs']))
        self.addrs.pop()
        listening = inh.raw()
        listening.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        listening.bind(inh.sockname())
        listening.listen(5)
        pid = rnd.choice(['own', 'own', 'own', 'other', 'bad', 'none'])
        fds = rnd.choice(['1', '1', '1', '0', '2', 'bad', 'none'])
        fd = listening.fileno()
        p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'adchild.py'),
                              str(fd), pid, fds, own.kind, own.name, str(own.port)],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             pass_fds=(fd,), text=True)
        listening.close()
        line = p.stdout.readline().rstrip('\n')
        res, _, text = line.partition('|')
        answers = [0, 0]
        ownfile = own.file()
        if res == 'ok':
            t0 = time.time()
            while time.time() - t0 < 20:
                for k, a in ((0, inh), (1, own)):
                    if not answers[k]:
                        answers[k] = self.ask(a, 0.3)
                if any(answers):
                    break
            for k, a in ((0, inh), (1, own)):
                if answers[k]:
                    s = a.raw()
                    s.connect(a.sockname())
                    s.sendall(b'Q')
                    s.close()
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Hang('the server does not stop')
        finally:
            err = p.stderr.read()
            p.stdout.close()
            p.stderr.close()
        if not res:
            res = 'died ' + ''.join(ch for ch in err[-200:] if ch.isalnum() or ch == ' ')
        self.ev.append(dict(op='INHERIT', pid=pid, fds=fds, res=res, show=text, atinh=answers[0], atown=answers[1],
                            inh=[inh.kind, '127.0.0.1' if inh.name == 'localhost' else inh.name, inh.port, inh.v6],
                            own=[own.kind, own.name, own.port, own.v6, ownfile],
                            left=int(inh.kind != 'unix' or os.path.exists(inh.name)),
                            ownleft=int(own.kind == 'unix' and os.path.exists(own.name))))
        if inh.kind == 'unix' and os.path.exists(inh.name):
            os.unlink(inh.name)
        if own.kind == 'unix' and os.path.exists(own.name):
            os.unlink(own.name)

    def op(self, name, i, what=None):
        if name == 'START':
            self.start(i)
        elif name == 'HALF':
            self.half(i)
        elif name in ('STOP', 'KILL'):
            self.end(name, i)
        elif name == 'PUT':
            self.put(i, what or self.rnd.choice(['free', 'full', 'empty', 'dir']))
        elif name == 'WAIT':
            self.wait(i)
        elif name == 'SHOW':
            self.show(i)
        elif name == 'INHERIT':
            self.inherit()

    def close(self):
        for n, (server, t, a) in list(self.servers.items()):
            try:
                s = a.raw()
                s.settimeout(5)
                s.connect(a.sockname())
                s.sendall(b'Q')
                s.close()
                t.join(5)
            except OSError:
                pass
        os.umask(self.umask0)
        shutil.rmtree(self.where, True)


def run(w, ops, meta):
    try:
        with Watchdog(60):
            for op in ops:
                w.op(*op)
    except Hang as e:
        w.ev.append(dict(op='HANG', what=str(e)))
    except Exception as e:
        what = unexpected(e)
        import traceback
        w.ev.append(dict(op='HANG', what=what) if what else
                    dict(op='ERR', what=''.join(ch for ch in traceback.format_exc()[-400:] if ch.isalnum() or ch in ' ._')))
    finally:
        w.close()
    return dict(ev=w.ev, meta=meta)


def random_ops(rnd, w, steps):
    for i in range(steps):
        name = rnd.choices(['START', 'STOP', 'KILL', 'PUT', 'HALF', 'WAIT', 'SHOW'], [10, 5, 4, 3, 1.5, 3, 3])[0]
        yield name, rnd.randrange(len(w.addrs))


def main():
    spec = json.load(open(sys.argv[1]))
    where = tempfile.mkdtemp(dir='/tmp', prefix='durusad')     # short: a socket's path is limited
    probe(where)
    traces = []
    try:
        for j, script in enumerate(spec.get('scripts', [])):
            rnd = random.Random('%s/%d' % (spec['seed'], j))
            w = W(rnd, where, spec['kinds'])
            ops = [(o[0], o[1] - 1, o[2]) if o[0] == 'PUT' else (o[0], o[-1] - 1) for o in script]
            traces.append(run(w, ops, dict(script=script, seed=spec['seed'], index=j)))
        for j in range(spec.get('first', 0), spec.get('first', 0) + spec.get('n', 0)):
            rnd = random.Random('%s/%d' % (spec['seed'], j))
            w = W(rnd, where)
            ops = [('INHERIT', 0)] * 3 if spec.get('inherit') else random_ops(rnd, w, rnd.randrange(4, 14))
            traces.append(run(w, ops, dict(seed=spec['seed'], index=j)))
    finally:
        shutil.rmtree(where, True)
    write_traces(sys.argv[2], traces)


if __name__ == '__main__':
    main()
