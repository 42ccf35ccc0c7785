"""Run functions in processes in which norfair has done nothing yet.

The first call forks a server that only ever forks; each request is answered by a child of it, so every answer comes from
a process that holds the freshly imported library and the state of no earlier case.
"""
import os
import pickle
import signal
import struct
import sys

_server = None


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _get(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


def _put(fd, v):
    b = pickle.dumps(v, 4)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _serve(rd, wr):
    while True:
        try:
            fn, args = _get(rd)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            signal.alarm(100)  # the default action ends this process
            try:
                out = ("ok", fn(*args))
            except BaseException as e:
                out = ("err", "%s: %s" % (type(e).__name__, str(e)[:300]))
            try:
                _put(wr, out)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            _put(wr, ("err", "ended by signal %d" % (status & 127)))


def start():
    """Fork the server; to be called before the first thing that may leave a trace in the process."""
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        os.close(b)
        os.close(c)
        try:
            _serve(a, d)
        finally:
            os._exit(1)
    os.close(a)
    os.close(d)
    _server = (os.getpid(), b, c)


def call(fn, *args):
    """fn(*args) in a process where nothing has been done since start(); raises nothing: returns ("ok", value) or ("err", text)."""
    global _server
    start()
    try:
        _put(_server[1], (fn, args))
        return _get(_server[2])
    except BaseException:
        _server = None  # an interrupted answer would be taken for the next one
        raise
