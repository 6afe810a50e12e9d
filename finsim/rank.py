"""Simulated processes.

A zygote is a fresh interpreter with its own hash randomisation.  Each process
lifetime in a run is a fork of one: it starts from the state right after
start-up, does what it is told, answers once and disappears (or is killed).

    python -m finsim.rank lib|bare     speaks length-prefixed pickles on fd 3
"""
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys

from . import boot


class RankDied(Exception):
    pass


class RankTimeout(Exception):
    pass


class Zygote:
    """Client end."""
    def __init__(self, hashseed, kind="lib"):
        self.hashseed, self.kind = hashseed, kind
        self.a, b = socket.socketpair()
        env = boot.env(PYTHONHASHSEED=str(hashseed), FINSIM_REPO=boot.REPO)
        env["PYTHONPATH"] = boot.REPO + os.pathsep + os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.proc = subprocess.Popen([boot.PYTHON, "-m", "finsim.rank", kind, str(b.fileno())], env=env,
                                     pass_fds=[b.fileno()], stdin=subprocess.DEVNULL)
        b.close()
        self.owner = os.getpid()
        self.ready = False

    def call(self, func, *args, timeout=240):
        if not self.ready:
            _recv(self.a, 120)
            self.ready = True
        _send(self.a, (func, args, timeout))
        st, val = _recv(self.a, timeout + 30)
        if st == "ok":
            return val
        if st == "died":
            raise RankDied("%s: %s" % (func, val))
        if st == "timeout":
            raise RankTimeout(func)
        raise RuntimeError("simulated process failed in %s:\n%s" % (func, val))

    def close(self):
        try:
            self.a.close()
        except OSError:
            pass
        try:
            self.proc.kill()
            self.proc.wait(5)
        except Exception:
            pass


def _send(s, obj):
    data = pickle.dumps(obj)
    s.sendall(struct.pack("<Q", len(data)) + data)


def _recv(s, timeout=None):
    def exact(n):
        out = bytearray()
        while len(out) < n:
            if timeout is not None:
                r, _, _ = select.select([s], [], [], timeout)
                if not r:
                    raise RankTimeout("no answer from a zygote")
            c = s.recv(min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return bytes(out)
    n, = struct.unpack("<Q", exact(8))
    return pickle.loads(exact(n))


def resolve(func):
    import importlib
    mod, name = func.split(":")
    return getattr(importlib.import_module("finsim." + mod), name)


def forked(func, args, timeout):
    """Run func in a child of this process; ('ok', value), ('exc', text), ('died', status) or ('timeout', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", (resolve(func) if isinstance(func, str) else func)(*args)))
            except BaseException:
                import traceback
                data = pickle.dumps(("exc", traceback.format_exc()))
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    import time
    end = time.monotonic() + timeout
    late = False
    while True:
        left = end - time.monotonic()
        rd, _, _ = select.select([r], [], [], max(0, left))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            late = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if late:
        return "timeout", None
    try:
        return pickle.loads(bytes(buf))
    except Exception:
        return "died", status


def main():
    kind, fd = sys.argv[1], int(sys.argv[2])
    s = socket.socket(fileno=fd)
    if kind == "lib":
        boot.setup()
        from . import session, canon, ranks, persist, runtab   # noqa: F401
    else:
        boot.thirdparty()
    _send(s, "ready")
    while True:
        try:
            func, args, timeout = _recv(s)
        except EOFError:
            return
        try:
            _send(s, forked(func, args, timeout))
        except OSError:
            return        # the driver has gone


if __name__ == "__main__":
    main()
