# Answers requests about the Python implementation, one after the other in one
# process. Request: one line of words, then the bytes it announces.
import importlib
import struct
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
m = importlib.import_module("baokeshed")
inp = sys.stdin.buffer
out = sys.stdout.buffer


class Placed:
    """A long message whose first part is only known as finished subtrees."""

    def __init__(self, subtrees, tail, lo=0, hi=None):
        self.subtrees = subtrees
        self.tail = tail
        self.start = sum(n for n, _ in subtrees)
        self.lo = lo
        self.hi = self.start + len(tail) if hi is None else hi

    def __len__(self):
        return self.hi - self.lo

    def __getitem__(self, s):
        if not isinstance(s, slice):
            return self.real()[s]
        lo, hi, step = s.indices(len(self))
        if step != 1:
            return self.real()[s]
        part = Placed(self.subtrees, self.tail, self.lo + lo, self.lo + max(lo, hi))
        return part.real() if part.lo >= self.start else part

    def real(self):
        if self.lo < self.start:
            raise LookupError("bytes of a finished subtree are read")
        return self.tail[self.lo - self.start:self.hi - self.start]

    def __bytes__(self):
        return bytes(self.real())

    def known(self):
        at = 0
        for n, cv in self.subtrees:
            if at == self.lo and at + n == self.hi:
                return cv
            at += n
        return None


class Finished:
    def __init__(self, cv):
        self.cv = cv

    def chaining_value(self):
        return self.cv


def placed(mode, key, subtrees, tail, out_len):
    """The public function, with finished subtrees answered from a table."""
    real = m.hash_recurse

    def recurse(*args, **kw):
        for a in list(args) + list(kw.values()):
            if isinstance(a, Placed) and a.known() is not None:
                return Finished(a.known())
        return real(*args, **kw)

    m.hash_recurse = recurse
    try:
        return call(mode, key, Placed(subtrees, tail), out_len)
    finally:
        m.hash_recurse = real


def call(mode, key, data, out_len):
    if mode == 0:
        return m.hash(data, out_len)
    if mode == 1:
        return m.keyed_hash(key, data, out_len)
    return m.derive_key(key, data, out_len)


def placeable():
    """Whether substituting real subtrees leaves real digests unchanged."""
    try:
        data = bytes(i * 7 % 251 for i in range(7 * 2048 + 100))
        for parts in ([8192], [8192, 4096], [8192, 4096, 2048]):
            subs, at = [], 0
            for n in parts:
                o = m.hash_recurse(data[at:at + n], m.IV, at, 0)
                subs.append((n, bytes(o.chaining_value())))
                at += n
            if bytes(placed(0, b"", subs, data[at:], 70)) != bytes(m.hash(data, 70)):
                return False
        return True
    except Exception:
        return False


can_place = placeable()
while True:
    line = inp.readline()
    if not line:
        break
    w = [int(x) for x in line.split()]
    kind, mode, out_len, nkey, ndata, nsub = w[:6]
    key = inp.read(nkey)
    data = inp.read(ndata)
    subs = []
    for i in range(nsub):
        n = w[6 + i]
        subs.append((n, inp.read(32)))
    keep = bytes(data)
    status = 0
    try:
        if kind == 1:
            if can_place:
                r = bytes(placed(mode, key, subs, data, out_len))
            else:
                status, r = 2, b""
        else:
            arg = bytearray(data) if kind == 2 else data
            r = bytes(call(mode, key, arg, out_len))
            if bytes(arg) != keep:
                status, r = 1, b"the input was modified"
    except Exception as e:
        status, r = 1, repr(e).encode()
    out.write(struct.pack("<BQ", status, len(r)))
    out.write(r)
    out.flush()
