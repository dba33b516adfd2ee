"""
Stand-ins for the os level functions working on file descriptors, in effect only for file descriptors handed out by the harness.
Has to be imported before the code under test.
"""
import os, stat

FILES = {} # file descriptor -> object with read(n) / write(data) / kind

_real = {name: getattr(os, name) for name in ('read', 'write', 'fstat', 'set_blocking', 'close')}


class _Stat:
    def __init__(self, mode):
        self.st_mode = mode


def _read(file_descriptor, amount):
    file = FILES.get(file_descriptor)
    if file is None:
        return _real['read'](file_descriptor, amount)
    return file.read(amount)


def _write(file_descriptor, data):
    file = FILES.get(file_descriptor)
    if file is None:
        return _real['write'](file_descriptor, data)
    return file.write(data)


def _fstat(file_descriptor):
    file = FILES.get(file_descriptor)
    if file is None:
        return _real['fstat'](file_descriptor)
    return _Stat(file.mode)


def _set_blocking(file_descriptor, blocking):
    file = FILES.get(file_descriptor)
    if file is None:
        return _real['set_blocking'](file_descriptor, blocking)
    file.blocking = blocking


def _close(file_descriptor):
    file = FILES.get(file_descriptor)
    if file is None:
        return _real['close'](file_descriptor)
    file.close()


os.read = _read
os.write = _write
os.fstat = _fstat
os.set_blocking = _set_blocking
os.close = _close

FIFO = stat.S_IFIFO | 0o600
SOCKET = stat.S_IFSOCK | 0o600
CHARACTER = stat.S_IFCHR | 0o600
REGULAR = stat.S_IFREG | 0o600
