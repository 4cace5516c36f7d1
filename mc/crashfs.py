"""Every file operation below a directory as a sequence of steps (one per byte written, one per call
that changes the directory or truncates), any of which can be where the process dies or the disk
is full."""
import builtins
import errno
import io
import os


class Crash(BaseException):
    pass


class Faults:
    """with Faults(root) as f: f.arm(at_step, kind) ... ; f.steps counts"""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.at = None
        self.kind = "crash"
        self.steps = 0
        self.dead = False

    def arm(self, at, kind="crash"):
        self.at, self.kind, self.steps, self.dead = at, kind, 0, False

    def disarm(self):
        self.at, self.dead = None, False

    def mine(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def hit(self):
        self.dead = True
        if self.kind == "crash":
            raise Crash()
        raise OSError(errno.ENOSPC, "No space left on device")

    def step(self):
        """Before something that changes the file system as a whole. True: do it"""
        if self.dead:
            if self.kind == "crash":
                return False
            return True
        if self.at is not None and self.steps >= self.at:
            if self.kind == "crash":
                self.hit()
        self.steps += 1
        return True

    def __enter__(self):
        self.real_open = builtins.open
        self.real = {n: getattr(os, n) for n in ("replace", "rename", "unlink", "remove", "truncate",
                                                "ftruncate", "write", "open", "link", "fsync")}
        faults = self

        class Raw(io.FileIO):
            def write(self, b):
                data = bytes(b)
                if faults.at is None:
                    return super().write(data)
                if faults.dead:
                    if faults.kind == "crash":
                        return len(data)
                    raise OSError(errno.ENOSPC, "No space left on device")
                room = faults.at - faults.steps
                if len(data) <= room:
                    faults.steps += len(data)
                    n = super().write(data)
                    assert n == len(data)
                    return n
                if room > 0:
                    super().write(data[:room])
                    faults.steps += room
                faults.hit()

            def truncate(self, size=None):
                if faults.step():
                    return super().truncate(size)

        def fopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                  closefd=True, opener=None):
            m = mode.replace("b", "").replace("t", "")
            if m == "r" or not faults.mine(file):
                return faults.real_open(file, mode, buffering, encoding, errors, newline, closefd,
                                        opener)
            if not faults.step():
                raise Crash()
            raw = Raw(file, m)
            buf = io.BufferedRandom(raw) if "+" in m else io.BufferedWriter(raw)
            if "b" in mode:
                return buf
            return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                    line_buffering=buffering == 1)

        builtins.open = fopen
        for n in ("replace", "rename", "unlink", "remove", "truncate", "link"):
            def func(*a, _n=n, **k):
                if not faults.mine(a[0]) or faults.step():
                    return faults.real[_n](*a, **k)
            setattr(os, n, func)
        fds = set()

        def oopen(path, flags, *a, **k):
            if flags & (os.O_WRONLY | os.O_RDWR) and faults.mine(path):
                if not faults.step():
                    raise Crash()
                fd = faults.real["open"](path, flags, *a, **k)
                fds.add(fd)
                return fd
            return faults.real["open"](path, flags, *a, **k)

        def owrite(fd, data):
            if fd not in fds or faults.at is None:
                return faults.real["write"](fd, data)
            if faults.dead:
                if faults.kind == "crash":
                    return len(data)
                raise OSError(errno.ENOSPC, "No space left on device")
            room = faults.at - faults.steps
            n = min(len(data), max(room, 0))
            if n:
                faults.real["write"](fd, data[:n])
                faults.steps += n
            if n < len(data):
                faults.hit()
            return n

        os.open, os.write = oopen, owrite
        return self

    def __exit__(self, *exc):
        builtins.open = self.real_open
        for n, f in self.real.items():
            setattr(os, n, f)
