"""P28: a variable store file round trips and keeps every variable."""
import gc
import io
import os
import struct
import sys
import uuid

from vh import Check, mute_logging

mute_logging()
from edk2toollib.uefi.edk2 import variable_format as VF
from edk2toollib.uefi.edk2.variablestore_manulipulations import VariableStore

ck = Check("P28", ["edk2toollib/uefi/edk2/variable_format.py", "edk2toollib/uefi/edk2/variablestore_manulipulations.py"],
           rule="a case is one ROM file with its history of changes, or one damaged ROM; distinct by the file and operations; non-trivial when variables are present",
           min_events={"roundtrip": 250, "flush": 250, "added": 150, "changed": 150, "overflow_refused": 80, "damaged": 300, "exactly_full": 8, "variable": 300, "header_loaded": 400})
NV = uuid.UUID("fff12b8d-7696-4c8b-a985-2747075b4f50")
PLAIN = uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d")
AUTH = uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792")
CHARS = ["a", "Z", "9", " ", "_", ",", "é", "漢", "\uFEFF", "\uFFFE", "\U0001F511", "\u0001"]


def gen_var(rng, auth, big=60):
    name = "".join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 2, 3, 8, 25, 25, 200]))) if rng.random() < 0.6 else rng.choice(["Boot0000", "db", "PK", "Lang", "\uFEFFx"])
    if rng.random() < 0.03:  # a NUL inside the name
        name += rng.choice(["\0", "\0\0", "\0x"])
    v = dict(state=rng.choice([0x3F, 0x3F, 0x3F, 0x3D, 0x3E, 0x3C, 0x7F, 0xFF, 0xFD, 0xFE, 0]), attr=rng.choice([7, 3, 0x27, rng.getrandbits(32)]), guid=uuid.UUID(int=rng.getrandbits(128)),
             name=name, data=rng.choice([rng.randbytes(rng.randrange(big)) if rng.random() < .98 else rng.randbytes(rng.choice([4095, 4096, 4097, 65535, 65536, 70000])), b"", b"\xff" * rng.randrange(9), b"\xaa\x55\x3f\x00" * 9]))
    if auth:
        v.update(count=rng.getrandbits(64), time=rng.randbytes(16), key=rng.getrandbits(32))
    return v


def var_bytes(v, auth, pad=True):
    n = v["name"].encode("utf-16-le") + b"\0\0"
    b = struct.pack("<HBBI", 0x55AA, v["state"], 0, v["attr"])
    if auth:
        b += struct.pack("<Q16sI", v["count"], v["time"], v["key"])
    b += struct.pack("<II16s", len(n), len(v["data"]), v["guid"].bytes_le) + n + v["data"]
    return b + b"\xff" * (-len(b) % 4) if pad else b


def store_bytes(vs, auth, size):
    """The variable store region, or None when the variables do not fit."""
    body = b"".join(var_bytes(v, auth) for v in vs)
    if len(body) > size - 28:
        return None
    return (AUTH if auth else PLAIN).bytes_le + struct.pack("<IBBHI", size, 0x5A, 0xFE, 0, 0) + body.ljust(size - 28, b"\xff")


def fv_header(length, entries=1, rest=b""):
    bm = b"".join(struct.pack("<II", 1, 0x1000) for _ in range(entries)) + bytes(8)
    return bytes(16) + NV.bytes_le + struct.pack("<Q4sIHHHBB", length, b"_FVH", 0x4FEFF, 56 + len(bm), 0x1234, 0, 0, 2) + bm


class Rom:
    def __init__(self, rng, vs, auth, slack=None):
        self.auth, self.pre = auth, rng.randbytes(rng.choice([0, 0, 64, 4096]))
        need = 28 + sum(len(var_bytes(v, auth)) for v in vs)
        self.size = need + (rng.choice([0, 4, 8, 28, 32, 59, 60, 61, 100, 500, 40000]) if slack is None else slack)
        self.ftw = rng.choice([b"", rng.randbytes(64), b"\xaa\x55\x3f\x00" + rng.randbytes(60), b"\xff" * 64])
        self.post = rng.choice([b"", b"", rng.randbytes(100)])
        entries = rng.choice([1, 1, 2, 3])
        self.head = fv_header(64 + 8 * entries + self.size + len(self.ftw), entries)

    def fv_size(self):
        return len(self.head) + self.size + len(self.ftw)

    def blob(self, vs):
        s = store_bytes(vs, self.auth, self.size)
        return None if s is None else self.pre + self.head + s + self.ftw + self.post


def view(v, auth):
    d = dict(state=v.State, attr=v.Attributes, guid=v.VendorGuid, name=v.Name, data=bytes(v.Data))
    if auth:
        d.update(count=v.MonotonicCount, time=v.TimeStamp, key=v.PubKeyIndex)
    return d


def read(path):
    with open(path, "rb") as f:
        return f.read()


def open_store(path, rom):
    return VariableStore(path, store_base=len(rom.pre), store_size=rom.fv_size())


def make(d, auth, cls):
    v = cls()
    v.State, v.Attributes, v.VendorGuid = d["state"], d["attr"], d["guid"]
    v.set_name(d["name"])
    v.set_data(d["data"])
    if auth:
        v.MonotonicCount, v.TimeStamp, v.PubKeyIndex = d["count"], d["time"], d["key"]
    return v


@ck.family("variable", 400, 10000)
def variable(c):
    """One variable in bytes, without a store."""
    rng = c.rng
    auth = rng.random() < 0.5
    d = gen_var(rng, auth, 300)
    b, padded = var_bytes(d, auth, False), var_bytes(d, auth)
    c.key(b)
    cls = VF.AuthenticatedVariableHeader if auth else VF.VariableHeader
    v = make(d, auth, cls)
    c.equal(v.serialize(), b, "variable:serialize", v=d)
    c.equal(v.serialize(with_padding=True), padded, "variable:serialize-padded", v=d)
    c.equal((v.get_buffer_data_size(), v.get_buffer_size(), v.get_buffer_padding_size()), (len(b), len(padded), len(padded) - len(b)), "variable:sizes", v=d)
    r = c.must("variable:load-failed", cls().load_from_bytes, b + rng.randbytes(rng.choice([0, 7])))
    c.equal(view(r, auth), d, "variable:loaded")
    c.equal(r.serialize(), b, "variable:serialize-loaded")
    p = c.write("v.bin", b"xyz" + b + b"tail")
    with open(p, "rb") as f:
        f.seek(3)
        r = c.must("variable:load-file-failed", cls().load_from_file, f)
        c.equal((view(r, auth), f.tell()), (d, 3), "variable:loaded-from-file")
    # changed data and name change the sizes with them
    for _ in range(3):
        d2 = gen_var(rng, auth, 300)
        r.set_data(d2["data"])
        r.set_name(d2["name"])
        c.equal(r.serialize(True), var_bytes(dict(d, data=d2["data"], name=d2["name"]), auth), "variable:changed")
    x = bytearray(b)
    x[rng.randrange(2)] ^= 1 << rng.randrange(8)
    c.must_raise("variable:bad-start-id", EOFError, cls().load_from_bytes, bytes(x))
    p = c.write("bad.bin", b"xyz" + bytes(x))
    with open(p, "rb") as f:
        f.seek(3)
        c.must_raise("variable:bad-start-id-in-file", EOFError, cls().load_from_file, f)
        c.equal(f.tell(), 3, "variable:moved-past-no-variable")
    # a new variable is a complete one
    n, a = cls(), rng.randbytes(3)
    n.set_name(d["name"])
    n.set_data(a)
    n.VendorGuid = d["guid"]
    f = dict(state=0x3F, attr=3, guid=d["guid"], name=d["name"], data=a)
    if auth:
        f.update(count=0, time=bytes(16), key=0)
    c.equal(c.must("variable:new-serialize", n.serialize), var_bytes(f, auth, False), "variable:new")
    c.event("variable")


@ck.family("roundtrip", 300, 6000)
def roundtrip(c):
    rng = c.rng
    auth = rng.random() < 0.5
    vs = [gen_var(rng, auth) for _ in range(rng.choice([0, 1, 2, 3, 8, 8, 70]))]
    rom = Rom(rng, vs, auth)
    b = rom.blob(vs)
    c.key(b, nontrivial=bool(vs))
    c.note(variables=vs)
    p = c.write("rom.bin", b)
    s = c.must("roundtrip:load-failed", open_store, p, rom)
    c.equal([view(v, auth) for v in s.variables], vs, "roundtrip:variables")
    c.event("exactly_full", int(rom.size == 28 + sum(len(var_bytes(v, auth)) for v in vs)))
    c.must("roundtrip:flush-failed", s.flush_to_file)
    c.equal(read(p), b, "roundtrip:file-changed")
    del s
    gc.collect()
    c.equal(read(p), b, "roundtrip:file-changed-on-close")
    c.event("roundtrip")


@ck.family("history", 1000, 16000)
def history(c):
    rng = c.rng
    auth = rng.random() < 0.5
    vs = [gen_var(rng, auth) for _ in range(rng.choice([0, 1, 2, 4]))]
    rom = Rom(rng, vs, auth, slack=rng.choice([0, 30, 200, 1000, 3000]))
    b = bytearray(rom.blob(vs))
    if rng.random() < 0.2:  # old content behind the last variable, as an interrupted write leaves it
        at = len(rom.pre) + len(rom.head) + 28 + sum(len(var_bytes(v, auth)) for v in vs)
        end = len(rom.pre) + len(rom.head) + rom.size
        for i in range(at + 60, end):
            b[i] = rng.randrange(256)
    b = bytes(b)
    p = c.write("rom.bin", b)
    s = c.must("history:load-failed", open_store, p, rom)
    vs = [dict(v) for v in vs]
    on_disk, log = b, []
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(["add", "add", "data", "name", "meta", "flush", "flush", "reopen", "delete"])
        log.append(op)
        if op == "add":
            d = gen_var(rng, auth, rng.choice([10, 60, 400]))
            s.add_variable(make(d, auth, rng.choice([s.get_new_var_class, VF.AuthenticatedVariableHeader if auth else VF.VariableHeader])))
            vs.append(d)
            c.event("added")
        elif op in ("data", "name", "meta", "delete") and vs:
            i = rng.randrange(len(vs))
            d = gen_var(rng, auth, rng.choice([10, 60, 400]))
            if op == "data":
                s.variables[i].set_data(d["data"])
                vs[i]["data"] = d["data"]
            elif op == "name":
                s.variables[i].set_name(d["name"])
                vs[i]["name"] = d["name"]
            elif op == "meta":
                s.variables[i].State, s.variables[i].Attributes, s.variables[i].VendorGuid = d["state"], d["attr"], d["guid"]
                vs[i].update(state=d["state"], attr=d["attr"], guid=d["guid"])
            else:
                del s.variables[i], vs[i]
            c.event("changed")
        elif op == "flush":
            want = rom.blob(vs)
            r = c.call(s.flush_to_file)
            if want is None:
                c.expect(not r.ok, "history:overflow-accepted", log=log)
                c.event("overflow_refused")
            else:
                c.expect(r.ok, "history:flush-failed", error=repr(r.exc), log=log)
                on_disk = want
                c.event("flush")
            c.equal(read(p), on_disk, "history:file-after-flush" if want is not None else "history:overflow-refused-but-changed", log=log)
            if want is None:
                while rom.blob(vs) is None:
                    s.variables.pop()
                    vs.pop()
        elif op == "reopen":
            del s
            gc.collect()
            c.equal(read(p), on_disk, "history:file-after-close", log=log)
            s = c.must("history:reload-failed", open_store, p, rom)
            got = [view(v, auth) for v in s.variables]
            at = len(rom.pre) + len(rom.head)
            back, q = [], 28
            vs = parse(on_disk[at:at + rom.size], auth)
            c.equal(got, vs, "history:variables-after-reload", log=log)
    c.key(b, log)
    # a variable that cannot be written must not damage the others
    if rng.random() < 0.4 and rom.blob(vs) is not None:
        bad = make(gen_var(rng, auth, 1), auth, s.get_new_var_class)
        how = rng.randrange(3)
        if how == 0:
            bad = s.get_new_var_class()
        elif how == 1:
            bad.Attributes = 1 << 32
        else:
            bad.Name = None
        s.variables.insert(rng.randint(0, len(s.variables)), bad)
        r = c.call(s.flush_to_file)
        c.expect(not r.ok, "history:broken-variable-accepted")
        c.equal(read(p), on_disk, "history:broken-variable-damaged-file")


def parse(store, auth):
    """Variables of a store region."""
    out, q, h = [], 28, 60 if auth else 32
    while q + h <= len(store) and store[q:q + 2] == b"\xaa\x55":
        _, state, _, attr = struct.unpack_from("<HBBI", store, q)
        d = dict(state=state, attr=attr)
        if auth:
            count, time, key = struct.unpack_from("<Q16sI", store, q + 8)
        n, m, g = struct.unpack_from("<II16s", store, q + h - 24)
        d.update(guid=uuid.UUID(bytes_le=g), name=store[q + h:q + h + n].decode("utf-16-le")[:-1], data=store[q + h + n:q + h + n + m])
        if auth:
            d.update(count=count, time=time, key=key)
        out.append(d)
        q += (h + n + m + 3) // 4 * 4
    return out


@ck.family("damaged", 350, 6000)
def damaged(c):
    """Wrong volume, store or sizes: refused, the file untouched."""
    rng = c.rng
    auth = rng.random() < 0.5
    vs = [gen_var(rng, auth) for _ in range(rng.choice([1, 2, 3]))]
    rom = Rom(rng, vs, auth)
    b = bytearray(rom.blob(vs))
    base, st = len(rom.pre), len(rom.pre) + len(rom.head)
    how = rng.choice(["fv-signature", "fv-guid", "fv-length", "store-guid", "format", "state", "beyond-file", "variable-size", "store-size", "truncated"])
    c.note(how=how)
    size = rom.fv_size()
    if how == "fv-signature":
        b[base + 40 + rng.randrange(4)] ^= 1 << rng.randrange(8)
    elif how == "fv-guid":
        b[base + 16 + rng.randrange(16)] ^= 1 << rng.randrange(8)
    elif how == "fv-length":
        if rng.random() < 0.5:
            size -= rng.choice([1, 4, 16])
        else:  # the volume says it is shorter or longer than the caller does
            struct.pack_into("<Q", b, base + 32, rng.choice([size - rng.randint(1, max(1, len(rom.ftw))), size + 1, size + 4096]))
    elif how == "store-guid":
        b[st + rng.randrange(16)] ^= 1 << rng.randrange(8)
    elif how == "format":
        b[st + 20] ^= 1 << rng.randrange(8)
    elif how == "state":
        b[st + 21] ^= 1 << rng.randrange(8)
    elif how == "beyond-file":
        b = b[:base + size - 1]
    elif how == "variable-size":
        last = st + 28 + sum(len(var_bytes(v, auth)) for v in vs[:-1])
        h = 60 if auth else 32
        off = last + h - rng.choice([24, 20])
        old = struct.unpack_from("<I", b, off)[0]
        struct.pack_into("<I", b, off, old + rom.size + rng.choice([0, 1000, 0x7FFFFF00]))
    elif how == "store-size":
        struct.pack_into("<I", b, st + 16, rom.size + len(rom.ftw) + rng.choice([1, 4, 1000, 0x7FFFFF00]))
    else:
        b = b[:base + rng.randrange(min(size, len(rom.head) + 28))]
        if not b:
            b = bytearray(b"x")
    c.key(bytes(b), how)
    p = c.write("rom.bin", bytes(b))
    r = c.call(VariableStore, p, store_base=base, store_size=size)
    c.expect(not r.ok and not r.hang, f"damaged:{how}-accepted")
    del r
    gc.collect()
    c.equal(read(p), bytes(b), f"damaged:{how}-file-changed")
    c.event("damaged")


@ck.family("header_again", 300, 3000)
def header_again(c):
    """One store header object loads one store after another and states the one it loaded last."""
    rng = c.rng
    o = VF.VariableStoreHeader()
    hist = []
    for _ in range(rng.randrange(1, 6)):
        auth, size, f, st, r0, r1 = rng.random() < 0.5, rng.getrandbits(32), rng.getrandbits(8), rng.getrandbits(8), rng.getrandbits(16), rng.getrandbits(32)
        raw = (AUTH if auth else PLAIN).bytes_le + struct.pack("<IBBHI", size, f, st, r0, r1)
        hist.append(("auth" if auth else "plain", size))
        pre = rng.randbytes(rng.randrange(9))
        fs = io.BytesIO(pre + raw + rng.randbytes(rng.randrange(9)))
        fs.seek(len(pre))
        c.expect(c.must("header:load-failed", o.load_from_file, fs) is o, "header:loaded-other-object")
        c.equal(fs.tell(), len(pre), "header:moved-the-file")
        c.equal((o.Signature, o.Size, o.Format, o.State, o.Reserved0, o.Reserved1, o.Type), (AUTH if auth else PLAIN, size, f, st, r0, r1, "AuthVar" if auth else "Var"), "header:loaded-again", history=hist)
        c.equal(bytes(c.must("header:serialize-failed", o.serialize)), raw, "header:serialized", history=hist)
        c.event("header_loaded")
    c.key(repr(hist), nontrivial=len(hist) > 1)


sys.exit(ck.main())
