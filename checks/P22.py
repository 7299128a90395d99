"""P22: damaged capsules are rejected with ValueError or read exactly as their bytes say."""
import struct
import sys
import warnings

import capgen as G
from vh import Check, mute_logging

mute_logging()
warnings.simplefilter("ignore")
FILES = ["edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py", "edk2toollib/uefi/edk2/fmp_payload_header.py"]
ck = Check("P22", FILES, rule="a case is one valid header tree with all its truncations or a set of corruptions; distinct by the damaged bytes; non-trivial always",
           min_events={"truncation": 15000, "field_corruption": 10000, "bit_flip": 8000, "garbage": 2000, "rejected": 20000, "accepted": 3000})
CLS = G.classes()
KINDS = ["payload", "auth", "image", "fmp", "fmp", "capsule", "capsule"]


def judge(c, kind, data, what, keep=True):
    """ValueError, or the object that the strict reading of the bytes gives."""
    try:
        want = G.READ[kind](data)
    except (G.Bad, struct.error):
        want = None
    o = CLS[kind]()
    r = c.call(o.Decode, data)
    c.expect(not r.hang, f"{what}:no-termination", data=data)
    if not r.ok:
        c.expect(isinstance(r.exc, ValueError), f"{what}:{kind}:wrong-error", error=repr(r.exc), data=data)
        c.event("rejected")
        return
    c.event("accepted")
    if not c.expect(want is not None, f"{what}:{kind}:damage-accepted", data=data, got=lambda: G.view(kind, o)):
        return
    c.equal(G.view(kind, o), G.noext(want), f"{what}:{kind}:misread", data=data)
    G.sizes(kind, o, c, f"{what}:{kind}:size-fields")
    # whatever was accepted is still there when it is written again
    again = c.call(o.Encode)
    if c.expect(again.ok, f"{what}:{kind}:encode-failed", error=repr(again.exc), data=data):
        try:
            back = G.READ[kind](again.value)
        except (G.Bad, struct.error):
            back = None
        c.equal(back, want, f"{what}:{kind}:lost", data=data)


def start(c):
    kind = c.rng.choice(KINDS)
    while True:
        d = G.GEN[kind](c.rng)
        data = G.BYTES[kind](d)
        if len(data) < 900:
            break
    c.note(kind=kind, values=d)
    return kind, d, data


@ck.family("truncate", 150, 5000)
def truncate(c):
    kind, d, data = start(c)
    c.key(kind, data, "t")
    for n in range(len(data)):
        judge(c, kind, data[:n], "truncate")
        c.event("truncation")
    # and with something behind the end
    for n in (1, 4, 8, 40):
        judge(c, kind, data + c.rng.randbytes(n), "extend")
        c.event("truncation")


def fields(kind, d, base=0):
    """(offset, width) of the size, offset, count, version and signature fields."""
    if kind == "payload":
        return [(base, 4), (base + 4, 4)]
    if kind == "auth":
        out = [(base + 8, 4), (base + 12, 2), (base + 14, 2), (base + 16, 4)]
        return out + (fields("payload", d["inner"], base + 32 + len(d["cert"])) if d["inner"] else [])
    if kind == "image":
        out = [(base, 4), (base + 20, 1), (base + 24, 4), (base + 28, 4)]
        return out + (fields("auth", d["auth"], base + 40) if d["auth"] else [])
    if kind == "fmp":
        n = len(d["drivers"]) + len(d["images"])
        out = [(base, 4), (base + 4, 2), (base + 6, 2)] + [(base + 8 + 8 * i, 8) for i in range(n)]
        pos = base + 8 + 8 * n + sum(map(len, d["drivers"]))
        for i in d["images"]:
            out += fields("image", i, pos)
            pos += len(G.b_image(i))
        return out
    out = [(base + 16, 4), (base + 20, 4), (base + 24, 4), (base, 4)]
    return out + (fields("fmp", d["fmp"], base + d["size"]) if d["fmp"] else [])


@ck.family("fields", 250, 8000)
def corrupt_fields(c):
    rng = c.rng
    kind, d, data = start(c)
    c.key(kind, data, "f")
    fl = fields(kind, d)
    for _ in range(60):
        b = bytearray(data)
        for off, w in rng.sample(fl, min(len(fl), rng.choice([1, 1, 1, 2, 3]))):
            old = int.from_bytes(b[off:off + w], "little")
            new = rng.choice([0, 1, old - 1, old + 1, old + 4, old - 8, old + 8, len(data), len(data) - 1, len(data) + 1, len(data) - off, 1 << (8 * w - 1), (1 << 8 * w) - 1,
                              rng.randrange(len(data) + 10), (1 << 8 * w) - rng.randrange(1, 60), 2, old * 2]) % (1 << 8 * w)
            b[off:off + w] = new.to_bytes(w, "little")
        judge(c, kind, bytes(b), "fields")
        c.event("field_corruption")


@ck.family("flips", 200, 6000)
def flips(c):
    rng = c.rng
    kind, d, data = start(c)
    c.key(kind, data, "b")
    for _ in range(50):
        b = bytearray(data)
        for _ in range(rng.choice([1, 1, 2, 4])):
            if b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        k = rng.random()
        if k < .2 and len(b) > 4:
            at = rng.randrange(len(b))
            del b[at:at + rng.choice([1, 4, 8])]
        elif k < .3:
            at = rng.randrange(len(b) + 1)
            b[at:at] = rng.randbytes(rng.choice([1, 4, 8]))
        judge(c, kind, bytes(b), "flips")
        c.event("bit_flip")


@ck.family("garbage", 60, 2000)
def garbage(c):
    rng = c.rng
    kind = rng.choice(KINDS)
    c.key(kind, c.index)
    for _ in range(40):
        n = rng.choice([0, 1, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, rng.randrange(200)])
        data = rng.choice([rng.randbytes(n), bytes(n), b"\xff" * n])
        c.note(kind=kind)
        judge(c, kind, data, "garbage")
        c.event("garbage")


if __name__ == "__main__":
    sys.exit(ck.main())
