"""P49: printing an object never fails, shows its values and leaves it as it was."""
import ast
import contextlib
import datetime
import io
import logging
import os
import re
import struct
import sys
import uuid
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import P26
import P31
import P38
import capgen as G
import siggen as S
from vh import Check, mute_logging

mute_logging()
warnings.simplefilter("ignore")
from edk2toollib.uefi import authenticated_variables_structure_support as A
from edk2toollib.uefi.bmp_object import BmpColorMap, BmpObject
from edk2toollib.uefi.wincert import WinCertPkcs1, WinCertUefiGuid
from edk2toollib.windows.policy import firmware_policy as F

ck = Check("P49", ["edk2toollib/uefi/wincert.py", "edk2toollib/uefi/authenticated_variables_structure_support.py", "edk2toollib/uefi/bmp_object.py", "edk2toollib/windows/policy/firmware_policy.py",
                   "edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py", "edk2toollib/uefi/edk2/fmp_payload_header.py"],
           rule="a case is one object (signature database, certificate, time, authenticated variable, bitmap, firmware policy, capsule header), built or decoded, and its printed forms; distinct by its bytes; "
                "non-trivial when it holds data",
           min_events={"database": 250, "signature": 1000, "compact": 500, "pkcs1": 150, "pkcs7": 80, "time": 150, "variable": 150, "siglist_payload": 20, "bitmap": 200, "pixels": 60, "colour_map": 40,
                       "padding": 40, "policy": 250, "rule": 800, "device_policy": 60, "odd_device_policy": 20, "empty": 30, "capsule": 500, "capsule_field": 5000, "flag_word": 150})
SHA, X509 = S.SHA, S.X509


def printed(c, what, fn, *a, **kw):
    """The text written to a stream that is given; standard output stays silent."""
    stray, t = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(stray):
        c.must(f"{what}:failed", fn, *a, outfs=t, **kw)
    c.equal(stray.getvalue(), "", f"{what}:written-elsewhere")
    return t.getvalue()


def old_name(c, what, o, text, **kw):
    c.equal(printed(c, what, o.Print, **kw), text, f"{what}:old-name-differs")


def to_stdout(c, what, fn, *a, **kw):
    t = io.StringIO()
    with contextlib.redirect_stdout(t):
        c.must(f"{what}:failed", fn, *a, **kw)
    return t.getvalue()


def field(text, label):
    """Values of the lines that start with a label (whatever the spaces, the sign after it and the case)."""
    return [m.group(1).strip() for m in re.finditer(r"^[ \t]*" + label + r"[ \t]*[:=][ \t]*(.*)$", text, re.M | re.I)]


def hexes(c, text, label, want, mech):
    got = field(text, label)
    c.equal([int(re.match(r"(?:0x)?([0-9a-f]+)", x, re.I).group(1), 16) if re.match(r"(?:0x)?[0-9a-f]+", x, re.I) else x for x in got], want, mech, text=text[:1500])


def in_order(c, text, pieces, mech):
    """Every piece appears, in this order."""
    at = 0
    for i, p in enumerate(pieces):
        n = text.find(p, at)
        if not c.expect(n >= 0, mech, missing=p, index=i, text=text[at:at + 800]):
            return
        at = n + len(p)


def dump_pieces(b):
    """What a hex dump of these bytes must show, one piece per half line."""
    return [" ".join(f"{x:#04x}" for x in b[i:i + 8]) for i in range(0, len(b), 8)]


def sig_pieces(kind, sigs):
    p = []
    for o, d in sigs:
        p.append(str(o))
        p += [d.hex().upper()] if kind == SHA else dump_pieces(d)
    return p


def check_db(c, text, db, how):
    """The long form: every list with its sizes, followed by its signatures."""
    parts = re.split(r"^EfiSignatureList[ \t]*$", text, flags=re.M)
    c.equal(len(parts) - 1, len(db), f"{how}:lists", text=text[:800])
    for part, (kind, sigs) in zip(parts[1:], db):
        size = 16 + len(sigs[0][1]) if sigs else None
        c.equal(field(part, "Signature Type"), [str(kind)], f"{how}:type")
        hexes(c, part, "Signature List Size", [28 + len(sigs) * (size or 0)], f"{how}:list-size")
        hexes(c, part, "Signature Header Size", [0], f"{how}:header-size")
        if size:
            hexes(c, part, "Signature Size", [size], f"{how}:size")
        c.equal(len(field(part, "Signature Owner")), len(sigs), f"{how}:signatures")
        in_order(c, part, sig_pieces(kind, sigs), f"{how}:signature-data")


def check_compact(c, text, db):
    c.expect(text == "" or text.endswith("\n"), "compact:last-line", text=text[-80:])
    lines = text.split("\n")[:-1]
    want = []
    for kind, sigs in db:
        size = 16 + len(sigs[0][1]) if sigs else None
        want.append(["ESL:" + str(kind), 28 + len(sigs) * (size or 0), 0, size])
        want += [["ESD:" + ("EFI_CERT_SHA256" if kind == SHA else "EFI_CERT_X509"), str(o), d.hex().upper()] for o, d in sigs]
    c.equal(len(lines), len(want), "compact:lines", text=text[:800])
    for got, w in zip(lines, want):
        f = got.split(",")
        if w[0].startswith("ESL"):
            c.equal((f[0], [int(x, 16) for x in f[1:3]]), (w[0], w[1:3]), "compact:list", line=got)
            if w[3]:
                c.equal(int(f[3], 16), w[3], "compact:size", line=got)
        else:
            c.equal([f[0], f[1], ",".join(f[2:]).upper()], w, "compact:signature", line=got[:300])


def encoded(o):
    t = io.BytesIO()
    o.write(t)
    return t.getvalue()


@ck.family("signatures", 1500, 10000)
def signatures(c):
    rng = c.rng
    model = S.gen_db(rng, 5)
    o = c.must("database:build", S.db_obj, model, rng)
    raw = encoded(o)
    c.key(raw, nontrivial=bool(model))
    c.note(database=[(str(k), len(s)) for k, s in model])
    c.event("database")
    c.event("signature", sum(len(s) for _, s in model))
    c.event("empty", int(not any(s for _, s in model)))
    for again in range(2):
        long = printed(c, "database", o.print, **rng.choice([{}, {"compact": False}]))
        check_db(c, long, model, "database")
        short = printed(c, "compact", o.print, compact=True)
        check_compact(c, short, model)
        old_name(c, "database", o, long)
        old_name(c, "database", o, short, compact=True)
        c.event("compact")
        c.equal(encoded(o), raw, "database:changed")
    # each of its parts alone
    for esl, (kind, sigs) in list(zip(o.esl_list, model))[:3]:
        check_db(c, printed(c, "list", esl.print), [(kind, sigs)], "list")
        old_name(c, "list", esl, printed(c, "list", esl.print))
        check_compact(c, printed(c, "list", esl.print, compact=True), [(kind, sigs)])
        for s, d in list(zip(esl.signature_data_list or [], sigs))[:3]:
            t = printed(c, "data", s.print)
            c.equal(field(t, "Signature Owner"), [str(d[0])], "data:owner")
            in_order(c, t, sig_pieces(kind, [d]), "data:bytes")
            old_name(c, "data", s, t)
            t = printed(c, "data", s.print, compact=True)
            c.equal(t.rstrip("\n").split(",")[1:], [str(d[0]), d[1].hex().upper()], "data:compact")
            old_name(c, "data", s, t, compact=True)
    c.equal(encoded(o), raw, "database:changed")
    # signatures without data
    ow = uuid.UUID(int=rng.getrandbits(128))
    e = S.data_obj(*rng.choice([(SHA, ow, bytes(32)), (X509, ow, b"x")]))
    e.signature_data = None
    for compact in (False, True):
        t = printed(c, "no-data", e.print, compact=compact)
        c.expect(str(ow) in t and "NONE" in t, "no-data:text", text=t)


def when(rng):
    return rng.choice([P26.a_time(rng), datetime.datetime(rng.randint(1000, 9999), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])


def check_time(c, text, t, how):
    m = re.search(r"(\w+), (\w+) (\d+), (\d+) (\d+):(\d+)(AM|PM)", text)
    if not c.expect(bool(m), f"{how}:form", text=text):
        return
    day, month, dd, yy, hh, mm, ap = m.groups()
    c.equal((day, month), (["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"][t.weekday()],
                           ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"][t.month - 1]), f"{how}:names", text=text)
    c.equal((int(dd), int(yy), int(hh) % 12 + (12 if ap == "PM" else 0), int(mm)), (t.day, t.year, t.hour, t.minute), f"{how}:numbers", text=text)


@ck.family("times", 600, 4000)
def times(c):
    t = when(c.rng)
    o = A.EfiTime(time=t) if c.rng.random() < 0.5 else A.EfiTime(decodefs=io.BytesIO(P26.time_bytes(t)))
    c.key(t)
    c.event("time")
    check_time(c, str(o), t, "time:str")
    check_time(c, printed(c, "time", o.print), t, "time:print")
    old_name(c, "time", o, printed(c, "time", o.print))
    c.equal(bytes(o.encode()), P26.time_bytes(t), "time:changed")


@ck.family("pkcs1", 600, 4000)
def pkcs1(c):
    """The parameter of this one is called out_fs."""
    rng = c.rng
    g, d = uuid.UUID(int=rng.getrandbits(128)), rng.randbytes(rng.choice([1, 7, 8, 15, 16, 17, 256, rng.randint(1, 600)]))
    o = WinCertPkcs1()
    o.set_hash_algorithm(g)
    o.add_cert_data(io.BytesIO(d))
    if rng.random() < 0.5:
        o = WinCertPkcs1(io.BytesIO(o.encode()))
    raw = bytes(o.encode())
    c.key(raw)
    c.event("pkcs1")
    for again in range(2):
        t = io.StringIO()
        stray = to_stdout(c, "pkcs1", o.print, t)
        c.equal(stray, "", "pkcs1:written-elsewhere")
        t = t.getvalue()
        hexes(c, t, "Hdr_dwLength", [24 + len(d)], "pkcs1:length")
        hexes(c, t, "Hdr_wRevision", [0x200], "pkcs1:revision")
        hexes(c, t, "Hdr_wCertificateType", [0xEF0], "pkcs1:type")
        c.equal(field(t, "Hash Guid"), [str(g)], "pkcs1:hash")
        in_order(c, t, dump_pieces(d), "pkcs1:data")
        c.equal(bytes(o.encode()), raw, "pkcs1:changed")


def signature(rng):
    """A real PKCS #7 signature, its signer and whether it is wrapped."""
    key = rng.choice(P26.KEYS)
    cert = P26.make_cert(rng, key)
    v = P26.variable(rng)
    p = rng.choice([b"", rng.randbytes(rng.choice([1, 16, 40, 300])), S.db_bytes(S.gen_db(rng, 3))])
    b = P26.build(rng, v, p)
    b.sign(cert, key)
    return cert, v, p, b


def check_guid_cert(c, t, raw, cert, how):
    n = int.from_bytes(raw[:4], "little")
    hexes(c, t, r"WIN_CERTIFICATE\.dwLength", [n], f"{how}:length")
    hexes(c, t, r"WIN_CERTIFICATE\.wRevision", [0x200], f"{how}:revision")
    hexes(c, t, r"WIN_CERTIFICATE\.wCertificateType", [0xEF1], f"{how}:type")
    c.equal([x.lower() for x in field(t, r"WIN_CERTIFICATE_UEFI_GUID\.cert_?type")], ["4aafd29d-68df-49ee-8aa9-347d375665a7"], f"{how}:guid")
    hexes(c, t, r"sizeof \(WIN_CERTIFICATE_UEFI_GUID\.cert_?data\)", [n - 24], f"{how}:data-size")
    # inside a ContentInfo the signed data is shown as it is encoded
    c.expect(str(cert.serial_number) in t or f"{cert.serial_number:x}" in t, f"{how}:serial-number-missing", serial=cert.serial_number, text=t[-600:])


@ck.family("pkcs7", 400, 1500)
def pkcs7(c):
    rng = c.rng
    cert, v, p, b = signature(rng)
    var = c.must("pkcs7:finalize", b.finalize, rng.random() < 0.5)
    raw = bytes(var.auth_info.encode())
    c.key(raw)
    c.event("pkcs7")
    o = var.auth_info if rng.random() < 0.4 else c.must("pkcs7:decode", WinCertUefiGuid, io.BytesIO(raw)) if rng.random() < 0.7 else None
    if o is None:
        o = WinCertUefiGuid()
        o.add_cert_data(io.BytesIO(raw[24:]))
    forms = [printed(c, "pkcs7", o.print), printed(c, "pkcs7", o.dump_info), printed(c, "pkcs7", o.DumpInfo), printed(c, "pkcs7", o.Print), c.must("pkcs7:str", str, o)]
    for t in forms:
        c.equal(t, forms[0], "pkcs7:forms-differ")
    check_guid_cert(c, forms[0], raw, cert, "pkcs7")
    c.equal(bytes(o.encode()), raw, "pkcs7:changed")
    bad = WinCertUefiGuid()
    bad.add_cert_data(io.BytesIO(rng.randbytes(rng.choice([0, 5, 40]))))
    keep = bytes(bad.encode())
    r = c.call(bad.print, io.StringIO())
    c.expect(r.ok or isinstance(r.exc, ValueError), "pkcs7:damaged-data-error", outcome=repr(r))
    c.equal(bytes(bad.encode()), keep, "pkcs7:damaged-changed")


@ck.family("variables", 600, 3000)
def variables(c):
    rng = c.rng
    k = rng.random()
    cert = None
    if k < 0.5:
        cert, v, p, b = signature(rng)
        o = c.must("variable:finalize", b.finalize)
        t = v["time"]
        if rng.random() < 0.6:
            o = c.must("variable:decode", A.EfiVariableAuthentication2, decodefs=io.BytesIO(bytes(o.encode())))
    else:
        t, p = when(rng), rng.choice([b"", rng.randbytes(rng.choice([1, 8, 9, 100])), S.db_bytes(S.gen_db(rng, 3))])
        g, d = uuid.UUID(int=rng.getrandbits(128)), rng.randbytes(rng.randint(1, 300))
        w = WinCertPkcs1()
        w.set_hash_algorithm(g)
        w.add_cert_data(io.BytesIO(d))
        o = c.must("variable:decode", A.EfiVariableAuthentication2, decodefs=io.BytesIO(P26.time_bytes(t) + w.encode() + p))
    raw = bytes(o.encode())
    c.key(raw)
    c.note(variable=raw[:300].hex(), payload=len(p))
    c.event("variable")
    for again in range(2):
        text = printed(c, "variable", o.print)
        old_name(c, "variable", o, text)
        check_time(c, text, t, "variable:time")
        cut = text.index("VARIABLE PAYLOAD") if "VARIABLE PAYLOAD" in text else len(text)
        if cert:
            check_guid_cert(c, text[:cut], raw[16:], cert, "variable:certificate")
        else:
            c.equal(field(text[:cut], "Hash Guid"), [str(g)], "variable:hash")
            in_order(c, text[:cut], dump_pieces(d), "variable:certificate-data")
        if p:
            sl = o.sig_list_payload is not None
            c.event("siglist_payload", int(sl))
            if sl:
                check_db(c, text[cut:], S.read_db(p) if isinstance(S.read_db(p), list) else S.read_db(p)[0], "variable:payload")
            else:
                in_order(c, text[cut:], dump_pieces(p), "variable:payload-data")
        c.equal(bytes(o.encode()), raw, "variable:changed")
        if rng.random() < 0.4:
            p = rng.choice([rng.randbytes(rng.randint(1, 60)), S.db_bytes(S.gen_db(rng, 2)) or b"x"])
            o.set_payload(io.BytesIO(p))
            raw = bytes(o.encode())


@ck.family("bitmaps", 800, 4000)
def bitmaps(c):
    rng = c.rng
    f, extra, cmap, pad, pix = P31.gen(rng)
    raw = P31.enc(f, extra, cmap, pad, pix)
    if len(pix) > 4000:
        return
    b = c.must("bitmap:load", BmpObject, io.BytesIO(raw))
    c.key(raw, nontrivial=bool(pix))
    c.event("bitmap")
    want_pix, want_map = rng.random() < 0.6, rng.random() < 0.6
    keep = P31.Keep()
    off = logging.root.manager.disable
    logging.disable(0)
    root = logging.getLogger()
    lv, others = root.level, root.handlers[:]
    root.handlers[:] = [keep]
    root.setLevel(logging.INFO)
    try:
        out = to_stdout(c, "bitmap", b.Print, want_pix, want_map) if rng.random() < 0.5 else to_stdout(c, "bitmap", b.Print, PrintImageData=want_pix, PrintColorMapData=want_map)
    finally:
        root.handlers[:] = others
        root.setLevel(lv)
        logging.disable(off)
    t = "\n".join(keep.lines)
    labels = {"Size": "Size", "ImageOffset": "ImageOffset", "HeaderSize": "HeaderSize", "PixelWidth": "PixelWidth", "PixelHeight": "PixelHeight", "Planes": "Planes", "CompressionType": "CompressionType",
              "ImageSize": "ImageSize", "Rsvd16_1": r"RSVD\[1\]", "Rsvd16_2": r"RSVD\[2\]"}
    for n, label in labels.items():
        hexes(c, t, label, [f[n]], f"bitmap:{n}")
    for n in ("BitPerPixel", "XPixelsPerMeter", "YPixelsPerMeter", "NumberOfColors", "ImportantColors"):
        c.equal([int(x) for x in field(t, n)], [f[n]], f"bitmap:{n}")
    colours = [tuple(cmap[i:i + 4]) for i in range(0, len(cmap), 4)] if want_map else []
    for i, n in enumerate(("Blue", "Green", "Red", "Reserved")):
        hexes(c, t, n, [x[i] for x in colours], f"bitmap:colour-{n}")
    c.event("colour_map", int(bool(colours)))
    # bytes of the padding and of the image, in order
    shown = [int(x, 16) for x in re.findall(r"^ ([0-9A-F]{2})$", t, re.M)]
    tail = pix if want_pix else b""
    c.expect(bytes(shown) in (pad + tail, extra + pad + tail), "bitmap:data", shown=bytes(shown), padding=pad, more_header=extra, image=tail)
    c.event("pixels", int(want_pix and bool(pix)))
    c.event("padding", int(bool(pad)))
    w = io.BytesIO()
    b.Write(w)
    c.equal(w.getvalue(), raw, "bitmap:changed")
    c.expect(out == "" or "BMP" in out, "bitmap:stdout")
    m = BmpColorMap(io.BytesIO(rng.randbytes(4)))
    c.must("colour:print", m.Print)


def want_lines(kind, d, out):
    """(label, values) of every printed field, in order, of this header and what it holds."""
    def add(label, v):
        out.append((label, v))
    if kind == "capsule":
        p = "EFI_CAPSULE_HEADER"
        body = G.b_fmp(d["fmp"]) if d["fmp"] else d["data"]
        add(p + ".CapsuleGuid", d["guid"])
        add(p + ".HeaderSize", d["size"])
        add(p + ".Flags", d["flags"])
        add("OEM Flags", d["flags"] & 0xFFFF)
        add(p + ".CapsuleImageSize", d["size"] + len(body))
        add("sizeof (Payload)", len(body))
        if d["fmp"]:
            want_lines("fmp", d["fmp"], out)
    elif kind == "fmp":
        p = "EFI_FIRMWARE_MANAGEMENT_CAPSULE_HEADER"
        add(p + ".Version", d["version"])
        add(p + ".EmbeddedDriverCount", len(d["drivers"]))
        for x in d["drivers"]:
            add("sizeof (EmbeddedDriver)", len(x))
        add(p + ".PayloadItemCount", len(d["images"]))
        for x in d["images"]:
            want_lines("image", x, out)
    elif kind == "image":
        p = "EFI_FIRMWARE_MANAGEMENT_CAPSULE_IMAGE_HEADER"
        body = G.b_auth(d["auth"]) if d["auth"] else b""
        add(p + ".Version", d["version"])
        add(p + ".UpdateImageTypeId", d["type"])
        add(p + ".UpdateImageIndex", d["index"])
        add(p + ".UpdateImageSize", len(body))
        add(p + ".UpdateVendorCodeSize", len(d["vendor"]))
        add(p + ".UpdateHardwareInstance", d["hw"])
        add("sizeof (Payload)", len(body))
        add("sizeof (VendorCodeBytes)", len(d["vendor"]))
        if d["auth"]:
            want_lines("auth", d["auth"], out)
    elif kind == "auth":
        body = G.b_payload(d["inner"]) if d["inner"] else b""
        add("EFI_FIRMWARE_IMAGE_AUTHENTICATION.MonotonicCount", d["count"])
        add("WIN_CERTIFICATE.dwLength", 24 + len(d["cert"]))
        add("sizeof (Payload)", len(body))
        if d["inner"]:
            want_lines("payload", d["inner"], out)
    else:
        p = "FMP_PAYLOAD_HEADER"
        add(p + ".Signature", d["sig"])
        add(p + ".HeaderSize", d["size"])
        add(p + ".FwVersion", d["fw"])
        add(p + ".LowestSupportedVersion", d["low"])
        add("sizeof (Payload)", len(d["data"]))
    return out


def each_auth(kind, d):
    if kind == "capsule":
        return each_auth("fmp", d["fmp"]) if d["fmp"] else []
    if kind == "fmp":
        return [a for i in d["images"] for a in each_auth("image", i)]
    if kind == "image":
        return each_auth("auth", d["auth"]) if d["auth"] else []
    return [d] if kind == "auth" else []


def auth_objects(kind, o):
    if o is None:
        return []
    if kind == "capsule":
        return auth_objects("fmp", o.FmpCapsuleHeader)
    if kind == "fmp":
        return [a for i in range(o.PayloadItemCount) for a in auth_objects("image", o.GetFmpCapsuleImageHeader(i))]
    if kind == "image":
        return auth_objects("auth", o.FmpAuthHeader)
    return [o] if kind == "auth" else []


def a_signature(rng):
    if len(SIGNED) < 6:
        b = signature(rng)[3]
        SIGNED.append(bytes(b.finalize().auth_info.encode())[24:])
    return rng.choice(SIGNED)


SIGNED = []
FLAGWORDS = {0x10000: "CAPSULE_FLAGS_PERSIST_ACROSS_RESET", 0x20000: "CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE", 0x40000: "CAPSULE_FLAGS_INITIATE_RESET"}


@ck.family("capsules", 700, 6000)
def capsules(c):
    rng = c.rng
    kind = rng.choice(["capsule", "capsule", "capsule", "fmp", "image", "auth", "payload"])
    d = G.GEN[kind](rng)
    for a in each_auth(kind, d):
        a["cert"] = a_signature(rng)
    raw = G.BYTES[kind](d)
    c.key(raw)
    c.note(kind=kind, values=d)
    c.event("capsule")
    # (an authentication header built here knows the size of its payload only when it was given as bytes)
    if rng.random() < 0.5 or any(a["inner"] for a in each_auth(kind, d)):
        o = c.must("capsule:decode", G.classes()[kind])
        c.must("capsule:decode", o.Decode, raw)
    else:
        o = G.make(kind, d)
        c.equal(bytes(c.must("capsule:encode", o.Encode)), raw, "capsule:encode")
    for a in auth_objects(kind, o):     # the certificate prints to the standard output there was when it was imported: send it along
        for name in ("DumpInfo", "dump_info", "print", "Print"):
            setattr(a.AuthInfo, name, lambda *x, w=a.AuthInfo: WinCertUefiGuid.dump_info(w, sys.stdout))
    before = G.view(kind, o)
    want = want_lines(kind, d, [])
    for again in range(2):
        t = to_stdout(c, "capsule", o.DumpInfo)
        got = []
        labels = {x for x, _ in want}
        for line in t.splitlines():
            m = re.match(r"[ \t]*([A-Za-z_. ]+?(?:\([A-Za-z]+\))?)[ \t]*[:=][ \t]*([0-9A-Fa-fx-]+)", line)
            if m and m.group(1) in labels:
                v = m.group(2)
                got.append((m.group(1), uuid.UUID(v) if v.count("-") == 4 else int(v, 16)))
        c.equal(got, want, "capsule:values", text=t[:3000])
        c.event("capsule_field", len(got))
        if kind == "capsule":
            for bit, word in FLAGWORDS.items():
                c.equal(word in t, bool(d["flags"] & bit), "capsule:flag-word", word=word, flags=d["flags"])
            c.event("flag_word", bool(d["flags"] >> 16))
        c.equal(G.view(kind, o), before, "capsule:changed")
        c.equal(bytes(c.must("capsule:encode", o.Encode)), raw, "capsule:encoding-changed")


ACTIONS = {1: "Secure Boot", 2: "TPM"}


def check_rules(c, t, rules, how):
    texts = re.split(r"^[ \t]*Rule[ \t]*$", t, flags=re.M)
    if not c.equal(len(texts) - 1, len(rules), f"{how}:rules", text=t[:1500]):
        return
    for s, (root, sub, name, (vt, v)) in zip(texts[1:], rules):
        s = s.split("Valuetable")[0]
        hexes(c, s, "RootKey", [root], f"{how}:root-key")
        c.expect(f"String:  {sub}" in s or sub in s, f"{how}:sub-key-name", text=s, want=sub)
        c.expect(name in s, f"{how}:value-name", text=s, want=name)
        c.equal(field(s, "ValueType"), [str(vt)], f"{how}:value-type")
        if vt == P38.STR:
            c.expect(re.search(r"Value:\s*String:\s*" + re.escape(v), s) is not None, f"{how}:string-value", text=s, want=v)
        else:
            hexes(c, s, "Value", [v], f"{how}:value")
        c.event("rule")
        is_policy = (root, sub, name) == (0xEF100000, "UEFI", "Policy")
        shown = bool(re.search(r"^\s*Device Policy:?\s*$", s, re.M))
        c.expect(shown == is_policy or (is_policy and vt == P38.STR), f"{how}:device-policy-shown", text=s)
        if is_policy and vt != P38.STR:
            c.event("device_policy")
            tail = s[s.index("Device Policy"):]
            for bit, word in ACTIONS.items():
                c.equal(word in tail, bool(v & bit), f"{how}:action", value=v, word=word, text=tail)


def text(rng):
    # printable: a name with a line break or a lone control character has no line of its own
    return rng.choice(["", "UEFI", "Target", "Policy", "Manufacturer", "ünï", "漢字", "a b", "x" * 200, "".join(rng.choice("abcXYZ_-.") for _ in range(rng.randint(1, 9)))])


def read_offsets(blob):
    """Where the strings and the value of each rule are, from the encoding."""
    w = P38.read(blob)
    at = 32 + 16 * w["r1"] + 12 * w["r2"]
    return [struct.unpack_from("<III", blob, at + 16 * i + 4) for i in range(w["n"])]


def shown_offsets(c, t, offsets, how):
    t = re.split(r"(?m)^[ \t]*Rule[ \t]*$", t, maxsplit=1)
    t = t[1] if len(t) > 1 else ""
    for i, label in enumerate(("SubKeyNameOffset", "ValueNameOffset", "ValueOffset")):
        hexes(c, t, label, [x[i] for x in offsets], f"{how}:{label}")


def shown_table(c, t, p, how):
    """The bytes of the value table come last."""
    at = t.rfind("Valuetable")
    m = re.search(r"b(['\"]).*\1", t[at:], re.S) if at >= 0 else None
    c.equal(ast.literal_eval(m.group()) if m else None, bytes(p.ValueTable), f"{how}:value-table", text=t[at:][:600])


@ck.family("policies", 1200, 6000)
def policies(c):
    rng = c.rng
    p = F.FirmwarePolicy()
    model = []
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        k = rng.randrange(4)
        if k == 0:
            v = rng.choice([0, 1, 2, 3, 0x10000, rng.getrandbits(64)])
            p.SetDevicePolicy(v)
            r = (0xEF100000, "UEFI", "Policy", (P38.QW, v))
        elif k == 1 and rng.random() < 0.4:
            r = (0xEF100000, "UEFI", "Policy", rng.choice([(P38.STR, text(rng)), (P38.DW, rng.getrandbits(32))]))
            c.event("odd_device_policy")
            p.AddRule(P38.make(c, r))
        else:
            t = rng.choice([P38.STR, P38.DW, P38.QW])
            r = (rng.choice([0xEF100000, 0x81000000, rng.getrandbits(32)]), text(rng), text(rng), (t, text(rng) if t == P38.STR else rng.getrandbits(32 if t == P38.DW else 64)))
            p.AddRule(P38.make(c, r))
        if r not in model:
            model.append(r)
    c.key(model, nontrivial=bool(model))
    c.note(rules=model)
    c.event("policy")
    c.event("empty", int(not model))
    out = bytearray()
    how = rng.randrange(3)
    if how:
        p.Serialize(out)
        raw = bytes(out)
    if how == 2:
        p = c.must("policy:read", F.FirmwarePolicy, fs=io.BytesIO(raw))
    for again in range(2):
        t = to_stdout(c, "policy", p.Print)
        hexes(c, t, "FormatVersion", [2], "policy:format-version")
        hexes(c, t, "PolicyVersion", [1], "policy:version")
        c.equal([x.lower() for x in field(t, "PolicyPublisher")], [str(P38.PUB)], "policy:publisher")
        hexes(c, t, "RulesCount", [len(model)], "policy:count")
        hexes(c, t, "OptionFlags", [0], "policy:flags")
        hexes(c, t, "Reserved1Count", [0], "policy:reserved1-count")
        hexes(c, t, "Reserved2Count", [0], "policy:reserved2-count")
        if how:
            shown_offsets(c, t, read_offsets(raw), "policy")
            shown_table(c, t, p, "policy")
            hexes(c, t, "ValueTableSize", [p.ValueTableSize], "policy:table-size")
            hexes(c, t, "ValueTableOffset", [p.ValueTableOffset], "policy:table-offset")
        check_rules(c, t, model, "policy")
        again_out = bytearray()
        p.Serialize(again_out)
        if how:
            c.equal(bytes(again_out), raw, "policy:changed")
        else:
            how, raw = 1, bytes(again_out)


@ck.family("foreign_policies", 600, 4000)
def foreign_policies(c):
    """Policies of another producer, with reserved entries."""
    blob, rules, _ = P38.gen_blob(c)
    want = P38.read(blob)
    c.key(blob)
    c.event("policy")
    with contextlib.redirect_stdout(io.StringIO()):
        p = c.must("foreign:read", F.FirmwarePolicy, fs=io.BytesIO(blob))
    before = [P38.seen(r) for r in p.Rules]
    t = to_stdout(c, "foreign", p.Print)
    hexes(c, t.split("Rule\n")[0].split("Reserved2\n")[0], "FormatVersion", [want["fv"]], "foreign:format-version")
    hexes(c, t.split("Rule\n")[0].split("Reserved2\n")[0], "PolicyVersion", [want["pv"]], "foreign:version")
    c.expect(str(want["pub"]) in t.lower(), "foreign:publisher")
    head = re.split(r"(?m)^[ \t]*Rule[ \t]*$", t, maxsplit=1)[0]
    hexes(c, head, "Reserved1Count", [want["r1"]], "foreign:reserved1-count")
    c.equal([x.lower() for x in field(head, "Reserved1")], [str(x) for x in want["res1"]], "foreign:reserved1")
    hexes(c, head, "Reserved2Count", [want["r2"]], "foreign:reserved2-count")
    hexes(c, head, "OptionFlags", [want["opt"]], "foreign:flags")
    for i, label in enumerate(("ObjectType", "Element", "ValueOffset")):
        hexes(c, head, label, [x[i] for x in want["res2"]], f"foreign:reserved2-{label}")
    c.event("reserved", want["r1"] + want["r2"])
    shown_offsets(c, t, read_offsets(blob), "foreign")
    shown_table(c, t, p, "foreign")
    c.equal([P38.seen(r) for r in p.Rules], before, "foreign:changed")
    c.equal(to_stdout(c, "foreign", p.Print), t, "foreign:printed-differently")
    for r in rules:
        c.expect(f"{r[0]:x}" in t.lower(), "foreign:root-key")
        for s in (r[1], r[2], r[3][1] if r[3][0] == P38.STR else ""):
            c.expect(s in t, "foreign:string-missing", want=s)
    c.event("rule", len(rules))


if __name__ == "__main__":
    sys.exit(ck.main())
