"A simulated storage device and text streams over it."

import errno
import io


ERRORS = ["EIO", "ENOSPC", "EPIPE", "EDQUOT", "ETIMEDOUT", "ECONNRESET", "EIO", "ENOSPC", "EBADF", "EPERM", "EFBIG"]


class Crash(BaseException):
    "The process ends here; only what the device holds remains."


class Device(io.RawIOBase):
    """
    Appends to a byte array. Faults are keyed by the ordinal number of the write request:
      short n   n bytes (at least one) are taken
      eintr     the call is interrupted by a signal, nothing is taken
      error e   n bytes are taken, then the call fails with an error number
      crash n   n bytes are taken, then the process ends
    """

    def __init__(self, content=b"", faults=(), recovers=False, seeks=False):
        super().__init__()
        self.seeks = seeks  # a regular file (opened for appending) rather than a pipe
        self.pos = len(content)
        self.recovers = recovers  # the error does not last
        self.data = bytearray(content)
        self.faults = {f[0]: f[1:] for f in faults}
        self.writes = 0
        self.fired = []
        self.dead = False
        self.failed = False
        self.erred = False  # an error was reported

    def writable(self):
        return True

    def seekable(self):
        return self.seeks

    def tell(self):
        return self.seek(0, 1)

    def seek(self, offset, whence=0):
        if not self.seeks:
            raise io.UnsupportedOperation("seek")
        if self.dead:
            raise Crash
        self.pos = max(0, offset + (0, self.pos, len(self.data))[whence])
        return self.pos

    def truncate(self, size=None):
        if not self.seeks:
            raise io.UnsupportedOperation("truncate")
        if self.dead:
            raise Crash
        size = self.pos if size is None else size
        del self.data[size:]
        self.data += bytes(size - len(self.data))
        return size

    def write(self, b):
        try:
            return self.append(b)
        finally:
            self.pos = len(self.data)

    def append(self, b):
        if self.dead:
            raise Crash
        if self.failed:
            # whoever met the error has closed the stream; threads still about to write find it closed
            raise OSError(errno.EBADF, "EBADF")
        b = bytes(b)
        f = self.faults.pop(self.writes, None)
        self.writes += 1
        if f is None or not b:
            self.data += b
            return len(b)
        kind, n, arg = f
        self.fired.append(kind if kind != "error" else arg)
        if kind == "short":
            n = max(1, min(len(b), n))
            self.data += b[:n]
            return n
        if kind == "eintr":
            raise InterruptedError(errno.EINTR, "interrupted")
        n = min(len(b), n)
        self.data += b[:n]
        if kind == "crash":
            self.dead = True
            raise Crash
        if not self.recovers:
            self.failed = True
        self.erred = True
        raise OSError(getattr(errno, arg), arg)


def random_faults(rng, writes, n=None):
    "Faults of a device that is expected to get a number of write requests."
    out = []
    used = set()
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6]) if n is None else n):
        i = rng.randrange(max(1, writes + 1))
        if i in used:
            continue
        used.add(i)
        kind = rng.choice(["short", "short", "short", "eintr", "error", "crash"])
        size = rng.choice([0, 1, 2, rng.randint(0, 60), rng.randint(0, 400)])
        arg = rng.choice(ERRORS) if kind == "error" else None
        out.append([i, kind, size, arg])
    return out


def text_stream(device, how):
    "The stack of stream objects an application would build."
    if how == "unbuffered":
        return io.TextIOWrapper(io.BufferedWriter(device, buffer_size=1), encoding="utf-8", newline="\n", write_through=True)
    if how == "small":
        return io.TextIOWrapper(io.BufferedWriter(device, buffer_size=16), encoding="utf-8", newline="\n")
    if how == "line":
        return io.TextIOWrapper(io.BufferedWriter(device), encoding="utf-8", newline="\n", line_buffering=True)
    return io.TextIOWrapper(io.BufferedWriter(device), encoding="utf-8", newline="\n")
