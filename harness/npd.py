"""NumPy oracle: a co-process of a check worker.

Requests and answers are length-prefixed binary messages on stdin/stdout.
Arrays travel as: dtype text, order flag, shape, elements little-endian in the
declared memory order.  Errors come back as text.
"""
import io
import struct
import sys
import warnings
import zipfile

import numpy as np
from numpy.lib import format as npf

warnings.simplefilter("ignore")


class Msg:
    def __init__(self, data=b""):
        self.b, self.p, self.o = data, 0, []

    def u64(self):
        v = struct.unpack_from("<Q", self.b, self.p)[0]
        self.p += 8
        return v

    def s(self):
        n = self.u64()
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def pu(self, v):
        self.o.append(struct.pack("<Q", v))

    def ps(self, v):
        self.pu(len(v))
        self.o.append(v)

    def out(self):
        return b"".join(self.o)


def get_array(m):
    """-> array with the dtype (byte order included) and memory order asked for"""
    dt = np.dtype(m.s().decode())
    fortran = bool(m.u64())
    shape = tuple(m.u64() for _ in range(m.u64()))
    raw = m.s()
    le = dt.newbyteorder("<")
    a = np.frombuffer(raw, dtype=le) if dt.itemsize else np.zeros(int(np.prod(shape, dtype=object)), le)
    a = a.reshape(shape, order="F" if fortran else "C")
    return a.astype(dt, order="F" if fortran else "C")


def put_array(m, a, fortran):
    m.ps(a.dtype.str.encode())
    m.pu(int(fortran))
    m.pu(a.ndim)
    for d in a.shape:
        m.pu(d)
    m.ps(a.astype(a.dtype.newbyteorder("<")).tobytes(order="F" if fortran else "C"))


def header_order(data):
    f = io.BytesIO(data)
    v = npf.read_magic(f)
    fn = npf.read_array_header_1_0 if v == (1, 0) else npf.read_array_header_2_0
    shape, fortran, dt = fn(f, max_header_size=1 << 30)
    return v, fortran, f.tell()


def load(m, r):
    data = m.s()
    v, fortran, _ = header_order(data)
    f = io.BytesIO(data)
    a = npf.read_array(f, allow_pickle=False, max_header_size=1 << 30)
    if f.tell() != len(data):
        raise ValueError("numpy left %d bytes unread" % (len(data) - f.tell()))
    b = np.load(io.BytesIO(data), max_header_size=1 << 30)
    if b.dtype != a.dtype or b.tobytes() != a.tobytes():
        raise ValueError("np.load and read_array disagree")
    if a.ndim > 1 and a.size > 1 and min(a.shape) > 1 and fortran != a.flags.f_contiguous:
        raise ValueError("memory order not as declared")
    put_array(r, a, fortran)


def write(m, r):
    version = m.u64()
    a = get_array(m)
    f = io.BytesIO()
    if version == 0:
        np.save(f, a)
    else:
        npf.write_array(f, a, version=(version, 0))
    r.ps(f.getvalue())


def zload(m, r):
    data = m.s()
    zcommon(lambda: io.BytesIO(data), np.load, r)


def zpath(m, r):
    path = m.s().decode()
    # np.load looks for a ZIP signature at the start, where a sparse file has none
    zcommon(lambda: open(path, "rb"), np.lib.npyio.NpzFile, r)


def raw_name(info):
    return info.filename.encode("utf-8" if info.flag_bits & 0x800 else "cp437")


def seen_name(info):
    """The name as users see it, when its bytes mean one thing only."""
    raw = raw_name(info)
    try:
        raw.decode("utf-8")
    except UnicodeDecodeError:
        return raw
    return info.filename.encode("utf-8")


def zcommon(opened, reader, r):
    with opened() as f1, opened() as f2, zipfile.ZipFile(f1) as z:
        bad = z.testzip()
        if bad is not None:
            raise ValueError("zipfile.testzip: %r" % bad)
        infos = z.infolist()
        npz = reader(f2, max_header_size=1 << 30)
        if sorted(npz.zip.namelist()) != sorted(i.filename for i in infos):
            raise ValueError("numpy's namelist differs")
        expect = sorted(i.filename[:-4] if i.filename.endswith(".npy") else i.filename for i in infos)
        if sorted(npz.files) != expect:
            raise ValueError("npz.files = %r, expected %r" % (sorted(npz.files), expect))
        r.pu(len(infos))
        for i in infos:
            raw = z.read(i)
            _, fortran, _ = header_order(raw)
            a = npf.read_array(io.BytesIO(raw), allow_pickle=False, max_header_size=1 << 30)
            r.ps(raw_name(i))
            r.ps(seen_name(i))
            put_array(r, a, fortran)
        # what a NumPy user sees by name (the last of duplicates)
        names = [i.filename for i in infos]
        if len(set(names)) == len(names):
            for i in infos:
                raw = z.read(i)
                a = npf.read_array(io.BytesIO(raw), allow_pickle=False, max_header_size=1 << 30)
                b = npz[i.filename]
                if b.dtype != a.dtype or b.shape != a.shape or b.tobytes() != a.tobytes():
                    raise ValueError("npz[%r] differs" % i.filename)


def zlist(m, r):
    """names, sizes and CRC-32 values after reading everything (no arrays)"""
    with zipfile.ZipFile(m.s().decode()) as z:
        infos = z.infolist()
        r.pu(len(infos))
        for i in infos:
            n = 0
            with z.open(i) as f:
                while True:
                    b = f.read(1 << 22)
                    if not b:
                        break
                    n += len(b)
            if n != i.file_size:
                raise ValueError("%r has %d bytes, its headers say %d" % (i.filename, n, i.file_size))
            r.ps(raw_name(i))
            r.pu(n)
            r.pu(i.CRC)


class Pipe:
    """A file object that cannot seek, as a pipe: zipfile then uses data descriptors."""
    def __init__(self):
        self.b = io.BytesIO()
        self.write, self.flush, self.getvalue = self.b.write, self.b.flush, self.b.getvalue

    def read(self, *_):
        raise OSError("write only")


def zwrite(m, r):
    how = m.u64()  # bit 0: savez_compressed; bit 1: to an unseekable file
    n = m.u64()
    d = {}
    for _ in range(n):
        k = m.s().decode()
        d[k] = get_array(m)
    f = Pipe() if how & 2 else io.BytesIO()
    (np.savez_compressed if how & 1 else np.savez)(f, **d)
    r.ps(f.getvalue())


OPS = {1: load, 2: write, 3: zload, 4: zwrite, 5: zpath, 6: zlist}


def main():
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = i.read(8)
        if len(h) < 8:
            return
        data = i.read(struct.unpack("<Q", h)[0])
        m, r = Msg(data), Msg()
        try:
            OPS[m.u64()](m, r)
            body = struct.pack("<Q", 0) + r.out()
        except Exception as e:  # the answer is the error
            t = ("%s: %s" % (type(e).__name__, e)).encode()
            body = struct.pack("<QQ", 1, len(t)) + t
        o.write(struct.pack("<Q", len(body)) + body)
        o.flush()


main()
