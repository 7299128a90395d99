"""P29: firmware volume, file and working-block headers load and serialise exactly."""
import io
import struct
import sys
import uuid

from vh import Check, mute_logging

mute_logging()
from edk2toollib.uefi import pi_firmware_file as FF
from edk2toollib.uefi import pi_firmware_volume as FV
from edk2toollib.uefi.edk2 import ftw_working_block_format as FTW

ck = Check("P29", ["edk2toollib/uefi/pi_firmware_volume.py", "edk2toollib/uefi/pi_firmware_file.py", "edk2toollib/uefi/edk2/ftw_working_block_format.py"],
           rule="a case is one header at a position in a stream with its truncations; distinct by its bytes; always non-trivial",
           min_events={"fv": 200, "ext": 200, "ffs": 200, "block": 200, "write": 200, "record": 200, "truncated": 20000, "bad_signature": 300, "small_length": 200})
FTWGUID = uuid.UUID("9e58292b-7c68-497d-a0ce-6500fd9f1b95")


def num(rng, bits):
    return rng.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), rng.getrandbits(bits), rng.getrandbits(bits)])


def raw(x):
    """A GUID field, whether it is kept as UUID or as bytes."""
    return x.bytes_le if isinstance(x, uuid.UUID) else bytes(x)


def gen_fv(rng):
    entries = rng.choice([1, 1, 2, 3, 10]) if rng.random() < .95 else rng.choice([40, 200, 300])
    bm = b"".join(struct.pack("<II", num(rng, 32), num(rng, 32)) for _ in range(entries)) + bytes(8)
    d = dict(ZeroVector=rng.randbytes(16), FileSystemGuid=rng.randbytes(16), FvLength=num(rng, 64), Signature=b"_FVH", Attributes=num(rng, 32), HeaderLength=56 + len(bm),
             Checksum=num(rng, 16), ExtHeaderOffset=num(rng, 16), Reserved=num(rng, 8), Revision=num(rng, 8), Blockmap0=struct.unpack_from("<Q", bm)[0], Blockmap1=struct.unpack_from("<Q", bm, 8)[0])
    b = d["ZeroVector"] + d["FileSystemGuid"] + struct.pack("<Q4sIHHHBB", d["FvLength"], b"_FVH", d["Attributes"], d["HeaderLength"], d["Checksum"], d["ExtHeaderOffset"], d["Reserved"], d["Revision"]) + bm
    return b, d


def gen_ext(rng):
    d = dict(FileSystemGuid=rng.randbytes(16), ExtHeaderSize=num(rng, 32))
    return d["FileSystemGuid"] + struct.pack("<I", d["ExtHeaderSize"]), d


def gen_ffs(rng):
    d = dict(FileSystemGuid=rng.randbytes(16), Checksum=num(rng, 16), Type=num(rng, 8), Attributes=num(rng, 8), Size0=num(rng, 8), Size1=num(rng, 8), Size2=num(rng, 8), State=num(rng, 8))
    return d["FileSystemGuid"] + struct.pack("<HBBBBBB", *[d[k] for k in ("Checksum", "Type", "Attributes", "Size0", "Size1", "Size2", "State")]), d


def gen_block(rng):
    d = dict(Signature=FTWGUID.bytes_le, Crc=num(rng, 32), WorkingBlockValidFields=num(rng, 8), Reserved1=num(rng, 8), Reserved2=num(rng, 8), Reserved3=num(rng, 8), WriteQueueSize=num(rng, 64))
    return d["Signature"] + struct.pack("<IBBBBQ", *list(d.values())[1:]), d


def gen_write(rng):
    d = dict(StatusBits=num(rng, 8), ReservedByte1=num(rng, 8), ReservedByte2=num(rng, 8), ReservedByte3=num(rng, 8), CallerId=rng.randbytes(16), ReservedUint32=num(rng, 32), NumberOfWrites=num(rng, 64), PrivateDataSize=num(rng, 64))
    return struct.pack("<BBBB16sIQQ", *d.values()), d


def gen_record(rng):
    d = dict(StatusBits=num(rng, 8), ReservedByte1=num(rng, 8), ReservedByte2=num(rng, 8), ReservedByte3=num(rng, 8), ReservedUint32=num(rng, 32), Lba=num(rng, 64), Offset=num(rng, 64), Length=num(rng, 64),
             RelativeOffset=num(rng, 64) - (1 << 63))
    return struct.pack("<BBBBIQQQq", *d.values()), d


KINDS = {"fv": (FV.EfiFirmwareVolumeHeader, gen_fv), "ext": (FV.EfiFirmwareVolumeExtHeader, gen_ext), "ffs": (FF.EfiFirmwareFileSystemHeader, gen_ffs),
         "block": (FTW.EfiFtwWorkingBlockHeader, gen_block), "write": (FTW.EfiFtwWriteHeader, gen_write), "record": (FTW.EfiFtwWriteRecord, gen_record)}
NAMES = list(KINDS)


def view(o, d):
    return {k: raw(getattr(o, k)) if isinstance(v, bytes) else getattr(o, k) for k, v in d.items()}


@ck.family("headers", 2400, 60000)
def headers(c):
    rng = c.rng
    kind = NAMES[c.index % 6]
    cls, gen = KINDS[kind]
    b, d = gen(rng)
    c.key(kind, b)
    c.note(kind=kind, values=d)
    pre = rng.randbytes(rng.choice([0, 0, 1, 40]))
    post = rng.randbytes(rng.choice([0, 1, 100]))
    if rng.random() < 0.3:
        f = open(c.write("h.bin", pre + b + post), "rb")
    else:
        f = io.BytesIO(pre + b + post)
    with f:
        f.seek(len(pre))
        o = c.must(f"{kind}:load-failed", cls().load_from_file, f)
        c.equal(view(o, d), d, f"{kind}:fields")
        c.equal(f.tell(), len(pre), f"{kind}:stream-position")
        c.equal(o.serialize(), b, f"{kind}:serialize")
        if kind == "ffs":
            c.equal(o.get_size(), d["Size0"] + 256 * d["Size1"] + 65536 * d["Size2"], "ffs:size")
        # an object that was used before
        b2, d2 = gen(rng)
        o.load_from_file(io.BytesIO(b2))
        c.equal((view(o, d2), o.serialize()), (d2, b2), f"{kind}:loaded-again")
    c.event(kind)
    if kind == "fv":        # a header length that does not even cover the fixed part: refused, or the fixed part and nothing else
        x = bytearray(b[:72])
        struct.pack_into("<H", x, 48, rng.choice([0, 1, 56, 64, 71]))
        r = c.call(cls().load_from_file, io.BytesIO(bytes(x) + post + b"tail"))
        if r.ok:
            c.equal(r.value.serialize(), bytes(x), "fv:small-header-length")
        c.event("small_length")
    # too short
    for n in range(len(b)):
        r = c.call(cls().load_from_file, io.BytesIO(b[:n]))
        c.expect(not r.ok and not r.hang, f"{kind}:truncated-accepted", size=n, full=len(b))
        c.event("truncated")
    # wrong signature
    where = {"fv": range(40, 44), "block": range(16)}.get(kind)
    if where:
        for i in where:
            x = bytearray(b)
            x[i] ^= 1 << rng.randrange(8)
            c.must_raise(f"{kind}:bad-signature", Exception, cls().load_from_file, io.BytesIO(bytes(x)))
            c.event("bad_signature")


@ck.family("queue", 200, 4000)
def queue(c):
    """A working block followed by its queue of writes and records, read one after the other."""
    rng = c.rng
    parts = [("block", *gen_block(rng))]
    for _ in range(rng.randint(0, 4)):
        parts.append(("write", *gen_write(rng)))
        parts += [("record", *gen_record(rng)) for _ in range(rng.randint(0, 3))]
    blob = b"".join(p[1] for p in parts)
    c.key(blob)
    fs, out = io.BytesIO(blob), b""
    for kind, b, d in parts:
        o = c.must(f"queue:{kind}:load-failed", KINDS[kind][0]().load_from_file, fs)
        c.equal(view(o, d), d, f"queue:{kind}:fields")
        s = o.serialize()
        out += s
        fs.seek(len(s), 1)
    c.equal(out, blob, "queue:serialized")
    c.equal(fs.read(), b"", "queue:consumed")


sys.exit(ck.main())
