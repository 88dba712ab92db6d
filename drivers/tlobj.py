"""Classes of the objects in tl.py (and in the processes that it starts)."""
from durus.persistent import Persistent, PersistentObject
from durus.serialize import _setattribute


class TlAlpha(Persistent):
    pass


class TlBeta(TlAlpha):
    pass


class TlSlots(PersistentObject):
    __slots__ = ['a', 'b', 'more', 'v']


class TlOwn(PersistentObject):
    """a state that is not a dict"""
    __slots__ = ['items']
    def __init__(self):
        self.items = []
    def __getstate__(self):
        return ('own', list(self.items))
    def __setstate__(self, state):
        _setattribute(self, 'items', list(state[1]) if state else [])


class TlPlain(object):
    """not persistent"""
    def __init__(self, x, y):
        self.x, self.y = x, y


class TlNova(Persistent):
    pass


class TlNovaSlots(PersistentObject):
    __slots__ = ['a', 'b', 'more', 'v']
