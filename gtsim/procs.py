"""Real processes under simulator control: every one forked from the state before the run began.

A process only runs while the simulator waits for its answer, so which process does what, when, is the simulator's choice.
"""
import os
import pickle
import signal
import socket
import struct
import sys
import traceback

HEAD = struct.Struct("<Q")


class ProcDied(Exception):
    """The process ended instead of answering."""


def _send(sock, obj):
    data = pickle.dumps(obj, protocol=5)
    sock.sendall(HEAD.pack(len(data)))
    sock.sendall(data)


def _recv_exact(sock, n):
    buf = bytearray(n)
    view = memoryview(buf)
    while n:
        got = sock.recv_into(view, n)
        if not got:
            raise EOFError
        view = view[got:]
        n -= got
    return buf


def _recv(sock):
    n, = HEAD.unpack(bytes(_recv_exact(sock, HEAD.size)))
    return pickle.loads(bytes(_recv_exact(sock, n)))


def pack_exception(exc):
    """Make an exception transportable."""
    try:
        data = pickle.dumps(exc)
        pickle.loads(data)
    except Exception:
        data = None
    return type(exc).__name__, str(exc), data


def _serve(sock, state):
    while True:
        try:
            func, args = _recv(sock)
        except (EOFError, OSError):
            os._exit(0)
        try:
            answer = ("ok", func(state, *args))
        except BaseException as exc:  # noqa
            answer = ("exc", pack_exception(exc), traceback.format_exc()[-3000:])
        try:
            _send(sock, answer)
        except (pickle.PicklingError, TypeError, AttributeError) as exc:
            _send(sock, ("exc", pack_exception(exc), "unpicklable answer"))


class RemoteError(Exception):
    """The function raised in the other process."""

    def __init__(self, name, text, original, trace):
        super().__init__("%s: %s" % (name, text))
        self.name, self.text, self.original, self.trace = name, text, original, trace


class Proc:
    """A process, pristine when spawned."""

    def __init__(self, sock, pid):
        self.sock, self.pid = sock, pid

    def call(self, func, *args):
        """Run module-level func(state, *args) there and wait."""
        try:
            _send(self.sock, (func, args))
            answer = _recv(self.sock)
        except (EOFError, OSError) as exc:
            raise ProcDied(str(exc))
        if answer[0] == "ok":
            return answer[1]
        name, text, data = answer[1]
        raise RemoteError(name, text, pickle.loads(data) if data else None, answer[2])

    def kill(self):
        """Kill -9, nothing survives."""
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        self.sock.close()

    def close(self):
        self.sock.close()


class Zygote:
    """Keeps the pristine state and forks processes from it."""

    def __init__(self):
        mine, theirs = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                mine.close()
                signal.signal(signal.SIGCHLD, signal.SIG_IGN)
                self._loop(theirs)
            finally:
                os._exit(0)
        theirs.close()
        self.sock = mine
        self.spawned = 0

    @staticmethod
    def _loop(sock):
        while True:
            if not sock.recv(1):
                os._exit(0)
            parent, child = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                sock.close()
                parent.close()
                try:
                    _serve(child, {})
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(1)
            child.close()
            socket.send_fds(sock, [HEAD.pack(pid)], [parent.fileno()])
            parent.close()

    def spawn(self):
        """Fork a new pristine process."""
        self.sock.sendall(b"s")
        msg, fds, _, _ = socket.recv_fds(self.sock, HEAD.size, 1)
        self.spawned += 1
        return Proc(socket.socket(fileno=fds[0]), HEAD.unpack(msg)[0])

    def once(self, func, *args):
        """Run func in a fresh process that is thrown away."""
        proc = self.spawn()
        try:
            return proc.call(func, *args)
        finally:
            proc.close()

    def close(self):
        self.sock.close()
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
