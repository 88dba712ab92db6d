"""A server with a descriptor as systemd passes it (see ad.py)."""
import os, sys
from rt import *
from durus.storage import MemoryStorage

fd, pid, fds, kind, name, port = sys.argv[1:]
fd = int(fd)
if fd != 3:
    os.dup2(fd, 3)
    os.close(fd)
if fds == '2':
    os.dup2(3, 4)
for k in ('LISTEN_PID', 'LISTEN_FDS'):
    os.environ.pop(k, None)
if pid != 'none':
    os.environ['LISTEN_PID'] = {'own': str(os.getpid()), 'other': str(os.getppid()), 'bad': 'x'}[pid]
if fds != 'none':
    os.environ['LISTEN_FDS'] = {'bad': 'many'}.get(fds, fds)
server = StorageServer(MemoryStorage(), address=(name, int(port)) if kind == 'tcp' else name)


def ready():
    while not server.sockets:
        time.sleep(0.001)
    try:
        print('ok|' + str(server.address), flush=True)
    except Exception as e:
        print('ok|cannot be shown: ' + outcome(e), flush=True)


threading.Thread(target=ready, daemon=True).start()
try:
    server.serve()
except SystemExit:
    pass
except BaseException as e:
    print('OSError|' if isinstance(e, OSError) else outcome(e) + '|', flush=True)
os._exit(0)
