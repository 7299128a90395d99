"""P21: capsules and their nested headers encode by the UEFI layout and decode to equal values."""
import contextlib
import copy
import io
import sys
import warnings

import capgen as G
from vh import Check, mute_logging

mute_logging()
warnings.simplefilter("ignore")
FILES = ["edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py", "edk2toollib/uefi/edk2/fmp_payload_header.py"]
ck = Check("P21", FILES, rule="a case is one header tree (payload, auth, image, FMP or whole capsule) or an edit history of one; distinct by its values; non-trivial when it holds any payload",
           min_events={"encoded": 2500, "decoded": 2500, "with_driver": 200, "several_images": 150, "extended_header": 200, "empty_item": 100, "reused_object": 300, "edited": 400, "signed_seen": 150, "dumped": 300})
CLS = G.classes()


def stats(c, kind, d):
    c.event("encoded")
    if kind == "capsule" and d["fmp"]:
        stats(c, "fmp", d["fmp"])
    if kind == "fmp":
        c.event("with_driver", bool(d["drivers"]))
        c.event("several_images", len(d["images"]) > 1)
        c.event("empty_item", b"" in d["drivers"])
    if kind in ("capsule", "payload"):
        c.event("extended_header", bool(d["ext"]))


def check_object(c, kind, o, d, what):
    want = G.BYTES[kind](d)
    got = c.must(f"{what}:{kind}:encode-failed", o.Encode)
    c.equal(got, want, f"{what}:{kind}:bytes", values=d)
    G.sizes(kind, o, c, f"{what}:{kind}:size-fields")
    c.equal(c.must(f"{what}:{kind}:encode-failed", o.Encode), want, f"{what}:{kind}:second-encode")
    return want


def check_decode(c, kind, data, d, what, into=None):
    o = into if into is not None else CLS[kind]()
    ret = c.must(f"{what}:{kind}:decode-failed", o.Decode, data)
    c.equal(G.view(kind, o), G.noext(d), f"{what}:{kind}:values", data=data)
    G.sizes(kind, o, c, f"{what}:{kind}:size-fields")
    c.equal(c.must(f"{what}:{kind}:encode-failed", o.Encode), data, f"{what}:{kind}:round-trip", values=d)
    c.equal(G.view(kind, o), G.noext(d), f"{what}:{kind}:values-after-encode")
    want = {"payload": lambda: data[d["size"]:], "capsule": lambda: data[d["size"]:], "auth": lambda: data[32 + len(d["cert"]):],
            "image": lambda: data[40:], "fmp": lambda: data[8 + 8 * (len(d["drivers"]) + len(d["images"])):]}[kind]()
    c.equal(bytes(ret), want, f"{what}:{kind}:returned-payload")
    c.event("decoded")
    return o


def auths(kind, o):
    if o is None:
        return []
    if kind == "capsule":
        return auths("fmp", o.FmpCapsuleHeader)
    if kind == "fmp":
        return [a for i in range(o.PayloadItemCount) for a in auths("image", o.GetFmpCapsuleImageHeader(i))]
    if kind == "image":
        return auths("auth", o.FmpAuthHeader)
    return [o] if kind == "auth" else []


KINDS = ["payload", "auth", "image", "fmp", "fmp", "capsule", "capsule", "capsule"]


@ck.family("roundtrip", 3000, 60000)
def roundtrip(c):
    rng = c.rng
    kind = rng.choice(KINDS)
    d = G.GEN[kind](rng)
    c.key(kind, d)
    c.note(kind=kind, values=d)
    o = c.must(f"build:{kind}:failed", G.make, kind, d, rng)
    data = check_object(c, kind, o, d, "build")
    stats(c, kind, d)
    into = None
    if rng.random() < .4:
        # an object that held something else before
        into = c.must(f"build:{kind}:failed", G.make, kind, G.GEN[kind](rng), rng)
        if rng.random() < .5:
            into.Encode()
        c.event("reused_object")
    got = check_decode(c, kind, data, d, "decode", into)
    if rng.random() < .3:
        # printing changes nothing and states the values (not of the certificate: its data is free-form here)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            for a in auths(kind, got):
                a.AuthInfo.DumpInfo = lambda *x: None
            r = c.call(got.DumpInfo)
        if c.expect(r.ok, "dump:failed", error=repr(r.exc)):
            c.event("dumped")
            c.expect(buf.getvalue() != "" or kind == "fmp", "dump:empty")
            for k in ("fw", "low", "hw", "flags"):
                if k in d:
                    c.expect(f"{d[k]:X}" in buf.getvalue(), "dump:value-missing", field=k, value=d[k], text=buf.getvalue())
        c.equal(c.must("dump:encode-failed", got.Encode), data, "dump:changed")


@ck.family("edit", 1000, 16000)
def edit(c):
    """Decode, change, add, encode: the sizes, counts and offsets follow."""
    rng = c.rng
    d = G.g_capsule(rng)
    d["guid"], d["data"] = G.FMP, b""
    d["fmp"] = d["fmp"] or G.g_fmp(rng)
    if rng.random() < .5:
        o = CLS["capsule"]()
        c.must("edit:decode-failed", o.Decode, G.b_capsule(d))
    else:
        d = copy.deepcopy(d)
        o = G.make("capsule", d)
    c.note(start=copy.deepcopy(d))
    steps = []
    for _ in range(rng.randrange(1, 8)):
        f, fo = d["fmp"], o.FmpCapsuleHeader
        k = rng.choice(["driver", "image", "payload", "vendor", "cert", "flags", "encode", "hw", "drop", "count"])
        steps.append(k)
        if k == "driver":
            x = G.blob(rng)
            f["drivers"].append(x)
            fo.AddEmbeddedDriver(x)
        elif k == "image":
            x = G.g_image(rng)
            f["images"].append(x)
            fo.AddFmpCapsuleImageHeader(G.make("image", x))
        elif k == "flags":
            d["flags"] = G.num(rng, 16) | (rng.randrange(8) << 16)
            o.OemFlags = d["flags"] & 0xFFFF
            o.PersistAcrossReset, o.PopulateSystemTable, o.InitiateReset = (bool(d["flags"] & (0x10000 << b)) for b in range(3))
        elif k == "encode":
            check_object(c, "capsule", o, d, "edit")
        elif f["images"]:
            i = rng.randrange(len(f["images"]))
            x, xo = f["images"][i], fo.GetFmpCapsuleImageHeader(i)
            if k == "vendor":
                x["vendor"] = xo.VendorCodeBytes = G.blob(rng)
            elif k == "hw":
                x["hw"] = xo.UpdateHardwareInstance = G.num(rng, 64)
            elif k == "drop":
                x["auth"], xo.FmpAuthHeader, xo.Payload = None, None, b""
            elif x["auth"] and k == "cert":
                x["auth"]["cert"] = G.blob(rng)
                xo.FmpAuthHeader.AuthInfo.add_cert_data(x["auth"]["cert"])
            elif x["auth"] and k == "count":
                x["auth"]["count"] = xo.FmpAuthHeader.MonotonicCount = G.num(rng, 64)
            elif x["auth"] and x["auth"]["inner"] and k == "payload":
                x["auth"]["inner"]["data"] = xo.FmpAuthHeader.FmpPayloadHeader.Payload = G.blob(rng)
        c.expect((fo.EmbeddedDriverCount, fo.PayloadItemCount) == (len(f["drivers"]), len(f["images"])), "edit:counts")
        c.event("edited")
    c.key(d, steps)
    c.note(steps=steps)
    data = check_object(c, "capsule", o, d, "edit")
    stats(c, "capsule", d)
    check_decode(c, "capsule", data, d, "edit")


@ck.family("signed", 800, 8000)
def signed(c):
    """IsSigned is the presence of a PKCS7 certificate after the monotonic count."""
    rng = c.rng
    d = G.g_auth(rng)
    data = bytearray(G.b_auth(d))
    k = rng.choice(["yes", "yes", "short", "guid", "type", "length"])
    if k == "short":
        data = data[:rng.randrange(0, 32)]
    elif k == "guid":
        data[16 + rng.randrange(16)] ^= 1 << rng.randrange(8)
    elif k == "type":
        data[14:16] = rng.choice([b"\xf0\x0e", b"\x02\x00", b"\x00\x00"])
    elif k == "length":
        data[8:12] = rng.choice([0, 1, 23, len(data) - 7, 0xFFFFFFFF]).to_bytes(4, "little")
    c.key(bytes(data))
    c.note(kind=k, data=bytes(data))
    o = CLS["auth"]()
    got = c.must("signed:failed", o.IsSigned, bytes(data))
    c.expect(got is (k == "yes"), "signed:answer", got=got)
    c.equal((o.MonotonicCount, o.Payload, bytes(o.AuthInfo.cert_data)), (0, b"", b""), "signed:object-changed")
    c.event("signed_seen", k == "yes")


if __name__ == "__main__":
    sys.exit(ck.main())
