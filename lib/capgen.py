"""Capsules as nested dictionaries: random ones, their bytes by the UEFI layout, and the strict reading of bytes."""
import struct
import uuid

FMP = uuid.UUID("6DCBD5ED-E82D-4C44-BDA1-7194199AD92A")
PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")


class Bad(Exception):
    pass


def num(rng, bits):
    return rng.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), rng.randrange(1 << bits), rng.randrange(1 << bits)])


def blob(rng, most=60, empty=True):
    n = rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, rng.randrange(most)]) if empty else rng.randrange(1, most)
    return rng.choice([rng.randbytes(n), bytes(n), b"\xff" * n, b"MSS1" * (n // 4)])


def big(rng, b, odds=.02):
    """Now and then a blob of another order of magnitude in the place of b."""
    return rng.randbytes(rng.choice([64, 255, 256, 257, 4095, 4097, 65535, 65536, 70000])) if rng.random() < odds else b


def g_payload(rng):
    ext = big(rng, blob(rng, 20), .1) if rng.random() < .3 else b""
    return {"sig": 0x3153534D, "size": 16 + len(ext), "ext": ext, "fw": num(rng, 32), "low": num(rng, 32), "data": big(rng, blob(rng))}


def b_payload(p):
    return struct.pack("<IIII", p["sig"], p["size"], p["fw"], p["low"]) + p["ext"] + p["data"]


def r_payload(b):
    if len(b) < 16:
        raise Bad("short")
    sig, size, fw, low = struct.unpack_from("<IIII", b)
    if sig != 0x3153534D or size < 16 or size > len(b):
        raise Bad("payload header")
    return {"sig": sig, "size": size, "ext": b[16:size], "fw": fw, "low": low, "data": b[size:]}


def g_auth(rng):
    return {"count": num(rng, 64), "cert": big(rng, blob(rng, 100)), "inner": g_payload(rng) if rng.random() < .85 else None}


def b_auth(a):
    return struct.pack("<QIHH", a["count"], 24 + len(a["cert"]), 0x200, 0xEF1) + PKCS7.bytes_le + a["cert"] + (b_payload(a["inner"]) if a["inner"] else b"")


def r_auth(b):
    if len(b) < 32:
        raise Bad("short")
    count, size, rev, typ = struct.unpack_from("<QIHH", b)
    if size < 24 or size > len(b) - 8 or rev != 0x200 or typ != 0xEF1 or b[16:32] != PKCS7.bytes_le:
        raise Bad("certificate header")
    rest = b[8 + size:]
    return {"count": count, "cert": b[32:8 + size], "inner": r_payload(rest) if rest else None}


def g_image(rng):
    return {"version": rng.choice([2, 2, 3, 0xFFFFFFFF, 0x100, 0x10000]), "type": uuid.UUID(int=rng.getrandbits(128)), "index": rng.choice([1, 2, 255, rng.randrange(1, 256)]),
            "hw": num(rng, 64), "auth": g_auth(rng) if rng.random() < .85 else None, "vendor": big(rng, blob(rng), .05) if rng.random() < .5 else b""}


def b_image(i):
    p = b_auth(i["auth"]) if i["auth"] else b""
    return struct.pack("<I16sB3xIIQ", i["version"], i["type"].bytes_le, i["index"], len(p), len(i["vendor"]), i["hw"]) + p + i["vendor"]


def r_image(b):
    if len(b) < 40:
        raise Bad("short")
    version, typ, index, size, vend, hw = struct.unpack_from("<I16sB3xIIQ", b)
    if version < 2 or index < 1 or size + vend != len(b) - 40:
        raise Bad("image header")
    p = b[40:40 + size]
    return {"version": version, "type": uuid.UUID(bytes_le=typ), "index": index, "hw": hw, "auth": r_auth(p) if p else None, "vendor": b[40 + size:]}


def g_fmp(rng):
    return {"version": rng.choice([1, 1, 1, 2, 0xFFFFFFFF, 0x100, 0x10000]), "drivers": [big(rng, blob(rng, 80, empty=rng.random() < .3), .03) for _ in range(rng.choice([0, 0, 1, 2, 3, 9, 40]))],
            "images": [g_image(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}


def b_fmp(f):
    items = list(f["drivers"]) + [b_image(i) for i in f["images"]]
    off = 8 + 8 * len(items)
    head = struct.pack("<IHH", f["version"], len(f["drivers"]), len(f["images"]))
    for it in items:
        head += struct.pack("<Q", off)
        off += len(it)
    return head + b"".join(items)


def r_fmp(b):
    if len(b) < 8:
        raise Bad("short")
    version, nd, ni = struct.unpack_from("<IHH", b)
    if version < 1 or len(b) < 8 + 8 * (nd + ni):
        raise Bad("fmp header")
    offs = list(struct.unpack_from(f"<{nd + ni}Q", b, 8)) + [len(b)]
    if any(x > y for x, y in zip(offs, offs[1:])) or offs[0] < 8 + 8 * (nd + ni):
        raise Bad("offsets")
    items = [b[x:y] for x, y in zip(offs, offs[1:])]
    return {"version": version, "drivers": items[:nd], "images": [r_image(i) for i in items[nd:]]}


def g_capsule(rng):
    ext = big(rng, blob(rng, 40), .1) if rng.random() < .3 else b""
    c = {"guid": FMP if rng.random() < .75 else uuid.UUID(int=rng.getrandbits(128)), "size": 32 + len(ext), "ext": ext,
         "flags": num(rng, 16) | (rng.randrange(8) << 16), "fmp": None, "data": b""}
    if c["guid"] == FMP:
        c["fmp"] = g_fmp(rng) if rng.random() < .93 else None
    else:
        c["data"] = blob(rng, 200)
    return c


def b_capsule(c):
    p = b_fmp(c["fmp"]) if c["fmp"] else c["data"]
    return c["guid"].bytes_le + struct.pack("<IIII", c["size"], c["flags"], c["size"] + len(p), 0) + c["ext"] + p


def r_capsule(b):
    if len(b) < 32:
        raise Bad("short")
    size, flags, total, _ = struct.unpack_from("<IIII", b, 16)
    if size < 32 or size > len(b) or total != len(b):
        raise Bad("capsule header")
    c = {"guid": uuid.UUID(bytes_le=b[:16]), "size": size, "ext": b[32:size], "flags": flags & 0x7FFFF, "fmp": None, "data": b[size:]}
    if c["guid"] == FMP and c["data"]:
        c["fmp"], c["data"] = r_fmp(c["data"]), b""
    return c


GEN = {"payload": g_payload, "auth": g_auth, "image": g_image, "fmp": g_fmp, "capsule": g_capsule}
BYTES = {"payload": b_payload, "auth": b_auth, "image": b_image, "fmp": b_fmp, "capsule": b_capsule}
READ = {"payload": r_payload, "auth": r_auth, "image": r_image, "fmp": r_fmp, "capsule": r_capsule}


# --- the objects of the library ---
def classes():
    from edk2toollib.uefi.edk2.fmp_payload_header import FmpPayloadHeaderClass
    from edk2toollib.uefi.fmp_auth_header import FmpAuthHeaderClass
    from edk2toollib.uefi.fmp_capsule_header import FmpCapsuleHeaderClass, FmpCapsuleImageHeaderClass
    from edk2toollib.uefi.uefi_capsule_header import UefiCapsuleHeaderClass
    return {"payload": FmpPayloadHeaderClass, "auth": FmpAuthHeaderClass, "image": FmpCapsuleImageHeaderClass, "fmp": FmpCapsuleHeaderClass, "capsule": UefiCapsuleHeaderClass}


def make(kind, d, rng=None):
    """A library object with the values of d."""
    o = classes()[kind]()
    if kind == "payload":
        o.FwVersion, o.LowestSupportedVersion, o.Payload = d["fw"], d["low"], d["data"]
        if d["ext"]:
            o.HeaderSize = d["size"]
            if hasattr(o, "ExtendedHeader"):
                o.ExtendedHeader = d["ext"]
    elif kind == "auth":
        o.MonotonicCount = d["count"]
        if rng and rng.random() < .5:
            o.AuthInfo.add_cert_data(d["cert"])
        else:
            o.AuthInfo.cert_data = d["cert"]
        if d["inner"]:
            if rng and rng.random() < .3:
                o.Payload = b_payload(d["inner"])
            else:
                o.FmpPayloadHeader = make("payload", d["inner"], rng)
    elif kind == "image":
        o.Version, o.UpdateImageTypeId, o.UpdateImageIndex, o.UpdateHardwareInstance, o.VendorCodeBytes = d["version"], d["type"], d["index"], d["hw"], d["vendor"]
        if d["auth"]:
            if rng and rng.random() < .3:
                o.Payload = b_auth(d["auth"])
            else:
                o.FmpAuthHeader = make("auth", d["auth"], rng)
    elif kind == "fmp":
        o.Version = d["version"]
        for x in d["drivers"]:
            o.AddEmbeddedDriver(x)
        for x in d["images"]:
            o.AddFmpCapsuleImageHeader(make("image", x, rng))
    else:
        o.CapsuleGuid, o.OemFlags = d["guid"], d["flags"] & 0xFFFF
        o.PersistAcrossReset, o.PopulateSystemTable, o.InitiateReset = (bool(d["flags"] & (0x10000 << k)) for k in range(3))
        if d["ext"]:
            o.HeaderSize = d["size"]
            if hasattr(o, "ExtendedHeader"):
                o.ExtendedHeader = d["ext"]
        if d["fmp"]:
            if rng and rng.random() < .2:
                o.Payload = b_fmp(d["fmp"])
            else:
                o.FmpCapsuleHeader = make("fmp", d["fmp"], rng)
        else:
            o.Payload = d["data"]
    return o


def view(kind, o):
    """The values of a library object as a dictionary like those above."""
    if o is None:
        return None
    if kind == "payload":
        return {"sig": o.Signature, "size": o.HeaderSize, "fw": o.FwVersion, "low": o.LowestSupportedVersion, "data": bytes(o.Payload)}
    if kind == "auth":
        inner = view("payload", o.FmpPayloadHeader)
        return {"count": o.MonotonicCount, "cert": bytes(o.AuthInfo.cert_data), "inner": inner}
    if kind == "image":
        return {"version": o.Version, "type": o.UpdateImageTypeId, "index": o.UpdateImageIndex, "hw": o.UpdateHardwareInstance,
                "auth": view("auth", o.FmpAuthHeader), "vendor": bytes(o.VendorCodeBytes)}
    if kind == "fmp":
        return {"version": o.Version, "drivers": [bytes(o.GetEmbeddedDriver(i)) for i in range(o.EmbeddedDriverCount)],
                "images": [view("image", o.GetFmpCapsuleImageHeader(i)) for i in range(o.PayloadItemCount)]}
    flags = o.OemFlags | (0x10000 if o.PersistAcrossReset else 0) | (0x20000 if o.PopulateSystemTable else 0) | (0x40000 if o.InitiateReset else 0)
    return {"guid": o.CapsuleGuid, "size": o.HeaderSize, "flags": flags, "fmp": view("fmp", o.FmpCapsuleHeader), "data": b"" if o.FmpCapsuleHeader else bytes(o.Payload)}


def noext(d):
    """Without the header extensions (seen through the bytes only)."""
    if isinstance(d, dict):
        return {k: noext(v) for k, v in d.items() if k != "ext"}
    if isinstance(d, list):
        return [noext(x) for x in d]
    return d


def sizes(kind, o, c, mech):
    """Every size and count field equals the real one (after Encode or Decode)."""
    if o is None:
        return
    if kind == "auth":
        c.equal(o.AuthInfo.get_length(), 24 + len(o.AuthInfo.cert_data), mech, field="dwLength")
        sizes("payload", o.FmpPayloadHeader, c, mech)
    elif kind == "image":
        c.equal((o.UpdateImageSize, o.UpdateVendorCodeSize), (len(o.Payload), len(o.VendorCodeBytes)), mech, field="UpdateImageSize")
        sizes("auth", o.FmpAuthHeader, c, mech)
    elif kind == "fmp":
        for i in range(o.PayloadItemCount):
            sizes("image", o.GetFmpCapsuleImageHeader(i), c, mech)
    elif kind == "capsule":
        c.equal(o.CapsuleImageSize, o.HeaderSize + len(o.Payload), mech, field="CapsuleImageSize")
        sizes("fmp", o.FmpCapsuleHeader, c, mech)
