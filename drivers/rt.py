"""Run-time support for the drivers: the code under test behind a uniform
interface, an independent decoder of records, and a server that is stepped
deterministically."""
import os, sys, json, random, threading, time, signal, pickle, struct, zlib, io, gc
import socket, tempfile, shutil, sqlite3

if os.environ.get('DURUS_PURE'):
    sys.modules['durus._persistent'] = None     # forces the pure Python classes
    class _Quiet(object):
        def write(self, s): pass
        def flush(self): pass
    _e, sys.stderr = sys.stderr, _Quiet()
    try:
        import durus.persistent
    finally:
        sys.stderr = _e

_connect = sqlite3.connect
def _any_thread(*args, **kwargs):
    kwargs['check_same_thread'] = False
    return _connect(*args, **kwargs)
sqlite3.connect = _any_thread

from durus.connection import Connection
from durus.error import ReadConflictError, WriteConflictError, ConflictError
from durus.storage import Storage
from durus.client_storage import ClientStorage
from durus.storage_server import StorageServer
from durus.file_storage import FileStorage, TempFileStorage
from durus.file_storage2 import FileStorage2
from durus.sqlite_storage import SqliteStorage
from durus.persistent import Persistent, PersistentObject, ComputedAttribute
from durus.persistent_dict import PersistentDict
from durus.persistent_list import PersistentList
from durus.persistent_set import PersistentSet
import durus.logger
# nothing is printed; with DURUS_LOUD everything is formatted
class _Nowhere(object):
    def write(self, s): pass
    def flush(self): pass
try:
    if os.environ.get('DURUS_LOUD'):
        import logging
        durus.logger.logger.handlers[:] = [logging.StreamHandler(_Nowhere())]
        durus.logger.logger.propagate = False
        durus.logger.logger.setLevel(1)
    else:
        durus.logger.logger.disabled = True
except AttributeError:
    pass

STORAGES = {'fs': FileStorage, 'fs2': FileStorage2, 'sqlite': SqliteStorage}


class P(Persistent):
    """state in __dict__"""


class S(PersistentObject):
    """state in slots"""
    __slots__ = ['v', 'a', 'b']


class SD(PersistentObject):
    """both: a slot and a __dict__"""
    __slots__ = ['v', '__dict__']


for _k in (P, S, SD):
    _k.__module__ = 'rt'
sys.modules.setdefault('rt', sys.modules[__name__])


# --------------------------------------------------------------- independent decoding
def i8(n):
    return struct.pack('>Q', n)


def u8(b):
    return struct.unpack('>Q', b)[0]


class Ref(object):
    __slots__ = ['oid', 'cls']
    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls


class _Unpickler(pickle.Unpickler):
    def persistent_load(self, pid):
        return Ref(u8(pid[0]), pid[1])


def decode(record):
    """record -> oid, class, state (references as Ref), list of referenced oids"""
    oid = u8(record[:8])
    n = struct.unpack('>L', record[8:12])[0]
    data, refs = record[12:12 + n], record[12 + n:]
    f = io.BytesIO()
    f.write(data)
    f.seek(0)
    unpickler = _Unpickler(f)
    klass = unpickler.load()
    pos = f.tell()
    try:
        rest = zlib.decompress(data[pos:])
    except zlib.error:
        pass
    else:
        f.write(rest)
        f.truncate()
        f.seek(pos)
    state = unpickler.load()
    return oid, klass, state, [u8(refs[i:i + 8]) for i in range(0, len(refs), 8)]


FAT = 0     # profile 'fat': about how many bytes a plain value takes


def enc(v):
    """what is stored for the plain value v"""
    if not FAT or not isinstance(v, int) or v % 4 == 0:
        return v
    return (v, random.Random(v).randbytes(FAT * (v % 4) // 2))


def dec(x):
    if not isinstance(x, tuple):
        return x
    if len(x) == 2 and isinstance(x[0], int) and enc(x[0]) == x:
        return x[0]
    return -8


def ref_of(x):
    return x.oid if isinstance(x, Ref) else -1


CLASSES = {'P': P, 'S': S, 'SD': SD, 'D': PersistentDict, 'L': PersistentList,
           'CA': ComputedAttribute}
NAMES = dict((v, k) for k, v in CLASSES.items())


def record_row(record):
    """[oid, [class, v, a, b], refs]"""
    oid, klass, st, refs = decode(record)
    name = NAMES.get(klass, klass.__name__)
    if name == 'CA':
        return [oid, ['CA', 0, -1, -1], refs]
    if name == 'D':
        d = st.get('data', {})
        v, a, b = d.get('v', 0), ref_of(d.get('a')), ref_of(d.get('b'))
    elif name == 'L':
        d = st.get('data', [])
        d = list(d) + [0, None, None][len(d):]
        v, a, b = d[0], ref_of(d[1]), ref_of(d[2])
    else:
        v, a, b = st.get('v', 0), ref_of(st.get('a')), ref_of(st.get('b'))
    v = dec(v)
    if not isinstance(v, int):
        v = -7
    return [oid, [name, v, a, b], refs]


def raw_dump(storage):
    """all records of a storage, through its own interface"""
    return dict((u8(o), bytes(r)) for o, r in storage.gen_oid_record())


def dump(storage):
    rows = []
    for o, r in storage.gen_oid_record():
        row = record_row(bytes(r))
        if row[0] != u8(o):
            row[0] = -99
        if bytes(storage.load(o)) != bytes(r):
            row[0] = -98
        rows.append(row)
    return sorted(rows, key=lambda row: row[0])


# ----------------------------------------------------------------- uniform object access
def new_object(cls, v, a, b):
    v = enc(v)
    if cls == 'P' or cls == 'S' or cls == 'SD':
        o = CLASSES[cls]()
        o.v, o.a, o.b = v, a, b
        return o
    if cls == 'D':
        return PersistentDict(v=v, a=a, b=b)
    if cls == 'L':
        return PersistentList([v, a, b])
    if cls == 'CA':
        return ComputedAttribute()
    raise AssertionError(cls)


def read_object(o):
    """class name, v, a, b (a, b are objects or None)"""
    k = NAMES.get(type(o), type(o).__name__)
    if k == 'D':
        return k, dec(o['v']), o['a'], o['b']
    if k == 'L':
        return k, dec(o[0]), o[1], o[2]
    if k == 'CA':
        return k, 0, None, None
    return k, dec(o.v), o.a, o.b


def write_object(o, f, x):
    """f: 2 for v, 3 for a, 4 for b"""
    k = NAMES.get(type(o), type(o).__name__)
    if f == 2:
        x = enc(x)
    if k == 'D':
        o['vab'[f - 2]] = x
    elif k == 'L':
        o[f - 2] = x
    elif k == 'CA':
        o.invalidate()
    else:
        setattr(o, 'vab'[f - 2], x)


# -------------------------------------------------------------------------- the server
class Gated(Storage):
    """A storage that lets the driver decide when a packer makes a step, and
    that can be inspected while the server uses it."""

    def __init__(self, real):
        self.real = real
        self.lock = threading.RLock()
        self.tokens = 0
        self.active = None
        self.log = []
        self.started = 0
        self.finished = 0
        self.failed = None
        self.steps = 0
        self.refuse = None      # what the next end() (or store()) raises
        self.refuse_at = 'end'

    def load(self, oid):
        with self.lock:
            return self.real.load(oid)

    def begin(self):
        with self.lock:
            return self.real.begin()

    def store(self, oid, record):
        with self.lock:
            if self.refuse is not None and self.refuse_at == 'store':
                self._refuse()
            return self.real.store(oid, record)

    def end(self, handle_invalidations=None):
        with self.lock:
            if self.refuse is not None:
                self._refuse()
            return self.real.end(handle_invalidations)

    def _refuse(self):
        e, self.refuse, self.refuse_at = self.refuse, None, 'end'
        self.real.begin()
        raise e

    def sync(self):
        with self.lock:
            return self.real.sync()

    def new_oid(self):
        with self.lock:
            return self.real.new_oid()

    def bulk_load(self, oids):
        with self.lock:
            return iter(list(self.real.bulk_load(oids)))

    def gen_oid_record(self, *args, **kwargs):
        return self.real.gen_oid_record(*args, **kwargs)

    def close(self):
        with self.lock:
            return self.real.close()

    def pack(self):
        with self.lock:
            return self.real.pack()

    def get_packer(self):
        with self.lock:
            p = self.real.get_packer()
        if p is None:
            return None
        self.started += 1
        self.active = p
        return self._gate(p)

    def _gate(self, p):
        while True:
            with self.lock:
                if self.tokens > 0:
                    self.tokens -= 1
                    self.steps += 1
                    try:
                        step = next(p)
                    except StopIteration:
                        self.finished += 1
                        self.active = None
                        self.tokens = 0
                        return
                    except BaseException as e:
                        self.failed = '%s: %s' % (type(e).__name__, e)
                        self.active = None
                        self.tokens = 0
                        raise
                    todo = self.tokens
                else:
                    step, todo = None, 0
            if not todo:
                time.sleep(0.0002)
            yield step

    def give(self, n):
        """let the packer make n steps; returns when they are made"""
        with self.lock:
            if self.active is None:
                return
            self.tokens = n
        t0 = time.time()
        while True:
            with self.lock:
                if self.active is None or self.tokens <= 0:
                    self.tokens = 0
                    return
            time.sleep(0.0001)
            if time.time() - t0 > 30:
                raise Hang('the server does not run the packer')


class Hang(Exception):
    pass


class Server(object):
    def __init__(self, storage, path, gcbytes=0):
        self.gated = storage
        self.path = path
        if os.path.exists(path):
            os.unlink(path)
        self.server = StorageServer(storage, address=path, gcbytes=gcbytes)
        self.died = None
        self.stopping = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()
        t0 = time.time()
        while not self._ready():
            if time.time() - t0 > 20:
                raise Hang('the server does not start')
            time.sleep(0.001)

    def _ready(self):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            s.connect(self.path)
            return True
        except OSError:
            return False
        finally:
            s.close()

    def _run(self):
        try:
            self.server.serve()
        except SystemExit:
            pass
        except BaseException as e:
            if not self.stopping:
                self.died = '%s: %s' % (type(e).__name__, e)
        # whoever waits for an answer gets none
        for s in list(self.server.sockets):
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            try:
                s.close()
            except OSError:
                pass

    def stop(self):
        self.stopping = True
        try:
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.settimeout(20)
            s.connect(self.path)
            s.sendall(b'Q')
            try:
                s.recv(1)
            except OSError:
                pass
            s.close()
        except OSError:
            pass
        self.thread.join(20)
        if self.thread.is_alive():
            raise Hang('the server does not stop')


def outcome(e):
    if isinstance(e, Hang):
        raise e
    if isinstance(e, ReadConflictError):
        return 'RC'
    if isinstance(e, WriteConflictError):
        return 'WC'
    text = '%s %s' % (type(e).__name__, str(e)[:60])
    return 'EXC ' + ''.join(ch for ch in text if 32 <= ord(ch) < 127 and ch not in '"\\')


def unexpected(e):
    """text for an exception that came out of the code under test; others are ours"""
    import traceback
    frames = traceback.extract_tb(sys.exc_info()[2])
    import durus
    where = os.path.dirname(os.path.abspath(durus.__file__))
    if not any(f.filename.startswith(where) for f in frames):
        return None
    return 'unexpected ' + outcome(e)


def log_unexpected(w, e):
    """end a trace at an exception of the code under test (or at an error of the
    driver, which counts only if the trace is in order up to this point)"""
    what = unexpected(e)
    if what is None:
        import traceback
        w.log(op='ERR', what=''.join(ch for ch in traceback.format_exc()[-300:] if ch.isalnum() or ch in ' ._'))
    else:
        w.log(op='HANG', what=what)


_port = [10000 + os.getpid() * 7 % 20000]
_reserved = []


def free_port(host='127.0.0.1'):
    """No other driver that runs at the same time gets this port."""
    while True:
        _port[0] = 10000 + (_port[0] - 10000 + 1) % 20000
        r = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            r.bind('\0durus-verif-port-%d' % _port[0])
        except OSError:
            r.close()
            continue
        s = socket.socket(socket.AF_INET6 if ':' in host else socket.AF_INET, socket.SOCK_STREAM)
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((host, _port[0]))
            _reserved.append(r)
            return _port[0]
        except OSError:
            r.close()
        finally:
            s.close()


class Watchdog(object):
    """raises Hang in the main thread after a number of seconds (sooner when traces hung before)"""
    hangs = 0
    def __init__(self, seconds):
        self.seconds = seconds if Watchdog.hangs == 0 else seconds / 3.0 if Watchdog.hangs == 1 else 4
    def __enter__(self):
        def fire(signum, frame):
            raise Hang('timeout')
        signal.signal(signal.SIGALRM, fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 5)
    def __exit__(self, cls, *args):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if cls is not None and issubclass(cls, Hang):
            Watchdog.hangs += 1


def write_traces(path, traces):
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t, separators=(',', ':')) + '\n')
