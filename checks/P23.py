"""P23: certificate wrappers, EFI_TIME and variable authentication descriptors round trip exactly."""
import datetime
import io
import struct
import sys
import uuid
import warnings

import siggen as S
from vh import Check, mute_logging

mute_logging()
warnings.simplefilter("ignore")
A = S.module()
from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid

ck = Check("P23", ["edk2toollib/uefi/wincert.py", "edk2toollib/uefi/authenticated_variables_structure_support.py"],
           rule="a case is one object with all its encodings, stream positions, truncations or corruptions; distinct by its bytes; non-trivial when it carries data",
           min_events={"guid_cert": 300, "pkcs1_cert": 200, "time": 300, "descriptor": 300, "truncated": 8000, "corrupted": 4000, "rejected": 8000, "accepted": 500})
PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")


def data(rng, least=0):
    n = rng.choice([least, 1, 2, 7, 8, 16, 24, 100, 255, 256, 257, rng.randint(least, 3000)])
    return S.big(rng, rng.choice([rng.randbytes(n), rng.randbytes(n), bytes(n), b"\n\r\n\x00"[: n] * n])[:n] or rng.randbytes(least))


def guid_bytes(d):
    return struct.pack("<IHH", 24 + len(d), 0x200, 0xEF1) + PKCS7.bytes_le + d


def pkcs1_bytes(g, d):
    return struct.pack("<IHH", 24 + len(d), 0x200, 0xEF0) + g.bytes_le + d


def stream(rng, blob):
    """(stream standing at the blob, offset): bytes before and after do not belong to it."""
    pre = rng.randbytes(rng.choice([0, 0, 1, 5, 16, 40]))
    post = rng.randbytes(rng.choice([0, 0, 1, 3, 24, 60]))
    fs = io.BytesIO(pre + blob + post)
    fs.seek(len(pre))
    return fs, len(pre), post


def view(w):
    if isinstance(w, WinCertUefiGuid):
        return ("guid", w.Hdr_dwLength, w.Hdr_wRevision, w.Hdr_wCertificateType, w.cert_type, bytes(w.cert_data))
    if isinstance(w, WinCertPkcs1):
        return ("pkcs1", w.Hdr_dwLength, w.Hdr_wRevision, w.Hdr_wCertificateType, w.hash_algorithm, bytes(w.cert_data))
    return repr(w)


@ck.family("guid_cert", 400, 8000)
def guid_cert(c):
    d = data(c.rng)
    c.key(d, nontrivial=len(d) > 0)
    w = WinCertUefiGuid()
    c.equal((w.get_length(), len(w.encode())), (24, 24), "guid:empty-size")
    for _ in range(c.rng.randint(0, 3)):  # replacing the data forgets the old data
        x = data(c.rng)
        w.add_cert_data(c.rng.choice([x, bytearray(x), io.BytesIO(x)]))
        c.equal(w.get_length(), 24 + len(x), "guid:length-after-replace", data=x)
    old = view(w)
    c.must_raise("guid:bad-data-accepted", (ValueError, TypeError), w.add_cert_data, c.rng.choice([12, None, ["a"]]))
    fs = io.BytesIO(b"junk" + d)
    fs.seek(4)
    w = WinCertUefiGuid() if c.rng.random() < 0.3 else w
    w.add_cert_data(c.rng.choice([d, fs]))
    want = guid_bytes(d)
    expected = ("guid", len(want), 0x200, 0xEF1, PKCS7, d)
    c.equal(view(w), expected, "guid:fields")
    c.equal(bytes(w.encode()), want, "guid:encode")
    out = io.BytesIO()
    w.write(out)
    c.equal(out.getvalue(), want, "guid:write")
    c.equal(w.get_length(), len(want), "guid:length")
    c.equal(bytes(w.get_certificate()), d, "guid:certificate")
    c.event("guid_cert")

    fs, off, post = stream(c.rng, want)
    rest = WinCertUefiGuid().decode(want + post)
    c.equal(bytes(rest), post, "guid:remaining-bytes")
    a = WinCertUefiGuid(want + post)
    c.equal(view(a), expected, "guid:decode-bytes")
    b = WinCertUefiGuid(fs)
    c.equal(view(b), expected, "guid:decode-stream")
    c.equal(fs.tell(), off + len(want), "guid:stream-position")
    fs.seek(off)
    f = WinCert.factory(fs)
    c.equal(view(f), expected, "guid:factory")
    c.equal(fs.tell(), off + len(want), "guid:factory-position")
    # data put in place directly counts too
    e = WinCertUefiGuid()
    e.cert_data = d
    c.equal((bytes(e.encode()), e.get_length()), (want, len(want)), "guid:assigned-data")
    # a header that says something else is neither written nor read
    for name, off, bad in (("Hdr_wRevision", 4, c.rng.choice([0, 0x100, 0x201, 0xFFFF])), ("Hdr_wCertificateType", 6, c.rng.choice([0, 2, 0xEF0, 0xFFFF]))):
        e = WinCertUefiGuid(want)
        setattr(e, name, bad)
        c.must_raise(f"guid:wrong-{name}-written", ValueError, e.encode)
        x = want[:off] + struct.pack("<H", bad) + want[off + 2:]
        c.must_raise(f"guid:wrong-{name}-read", ValueError, WinCertUefiGuid, x)
        c.must_raise(f"guid:wrong-{name}-read", ValueError, WinCertUefiGuid, io.BytesIO(x))
    e = WinCertUefiGuid(want)
    e.cert_type = uuid.UUID(int=c.rng.getrandbits(128))
    c.must_raise("guid:wrong-type-written", ValueError, e.encode)
    # an object used before reads the same
    e = WinCertUefiGuid()
    e.add_cert_data(data(c.rng))
    e.decode(want)
    c.equal(view(e), expected, "guid:decode-again")
    c.equal(bytes(e.encode()), want, "guid:encode-again")


@ck.family("pkcs1_cert", 250, 5000)
def pkcs1_cert(c):
    d, g = data(c.rng, 1), uuid.UUID(int=c.rng.getrandbits(128))
    c.key(d, g)
    w = WinCertPkcs1()
    c.must_raise("pkcs1:data-before-hash-accepted", ValueError, w.add_cert_data, io.BytesIO(d))
    w.set_hash_algorithm(g)
    fs = io.BytesIO(b"junk" + d)
    fs.seek(4)
    w.add_cert_data(fs)
    want = pkcs1_bytes(g, d)
    expected = ("pkcs1", len(want), 0x200, 0xEF0, g, d)
    c.equal(view(w), expected, "pkcs1:fields")
    c.must_raise("pkcs1:second-data-accepted", ValueError, w.add_cert_data, io.BytesIO(d))
    c.equal(view(w), expected, "pkcs1:refused-but-changed")
    c.equal(bytes(w.encode()), want, "pkcs1:encode")
    out = io.BytesIO()
    w.write(out)
    c.equal(out.getvalue(), want, "pkcs1:write")
    c.event("pkcs1_cert")
    fs, off, post = stream(c.rng, want)
    for how in ("ctor", "factory"):
        fs.seek(off)
        r = WinCertPkcs1(fs) if how == "ctor" else WinCert.factory(fs)
        c.equal(view(r), expected, f"pkcs1:{how}")
        c.equal(fs.tell(), off + len(want), f"pkcs1:{how}-position")
        c.equal(bytes(r.encode()), want, f"pkcs1:{how}-encode")
    # whatever revision it has is kept
    rev = c.rng.choice([0, 0x100, 0x201, 0xFFFF])
    x = want[:4] + struct.pack("<H", rev) + want[6:]
    r = WinCertPkcs1(io.BytesIO(x))
    c.equal((r.Hdr_wRevision, bytes(r.encode())), (rev, x), "pkcs1:other-revision")


def a_time(rng):
    t = datetime.datetime(1, 1, 1) + datetime.timedelta(seconds=rng.randrange(int((datetime.datetime(9999, 12, 31) - datetime.datetime(1, 1, 1)).total_seconds())))
    edge = [datetime.datetime(1, 1, 1), datetime.datetime(9999, 12, 31, 23, 59, 59), datetime.datetime(2000, 2, 29, 12, 30, 1), datetime.datetime(255, 1, 1), datetime.datetime(256, 12, 31), datetime.datetime(1998, 1, 1)]
    return rng.choice([t, t, t.replace(year=rng.randint(1970, 2100), day=1), rng.choice(edge)])


def time_bytes(t):
    return struct.pack("<HBBBBBxIhBx", t.year, t.month, t.day, t.hour, t.minute, t.second, 0, 0, 0)


@ck.family("time", 400, 10000)
def times(c):
    t = a_time(c.rng)
    c.key(t)
    want = time_bytes(t)
    o = A.EfiTime(time=t)
    c.equal(o.encode(), want, "time:encode", time=t)
    out = io.BytesIO()
    o.write(out)
    c.equal(out.getvalue(), want, "time:write")
    fs, off, post = stream(c.rng, want)
    r = A.EfiTime(decodefs=fs)
    c.equal((r.get_datetime(), fs.tell()), (t, off + 16), "time:decode-stream", time=t)
    o = c.must("time:from-binary-failed", A.EfiTime.from_binary, want + post)
    c.equal(o.get_datetime() if o else None, t, "time:from-binary", time=t)
    c.event("time")
    # nanoseconds are read to the microsecond
    us = c.rng.randrange(1000000)
    b = want[:8] + struct.pack("<I", us * 1000 + c.rng.randrange(1000)) + want[12:]
    c.equal(A.EfiTime.from_binary(b).get_datetime(), t.replace(microsecond=us), "time:nanoseconds")
    c.equal(A.EfiTime(decodefs=io.BytesIO(b)).get_datetime(), t.replace(microsecond=us), "time:nanoseconds")
    for n in range(16):
        c.must_raise("time:truncated-accepted", ValueError, A.EfiTime.from_binary, want[:n])
        c.must_raise("time:truncated-accepted", ValueError, A.EfiTime, decodefs=io.BytesIO(want[:n]))
        c.event("truncated", 2)
    # an impossible date is refused, any other is read as it stands
    b = bytearray(want)
    i = c.rng.randrange(12)
    b[i] = c.rng.randrange(256)
    f = struct.unpack("<HBBBBBxIhBx", bytes(b))
    try:
        expect = datetime.datetime(*f[:6], f[6] // 1000)
    except ValueError:
        expect = None
    for how, fn in (("stream", lambda: A.EfiTime(decodefs=io.BytesIO(bytes(b)))), ("bytes", lambda: A.EfiTime.from_binary(bytes(b)))):
        r = c.call(fn)
        c.event("corrupted")
        if r.ok:
            c.equal(r.value.get_datetime(), expect, f"time:{how}:misread", data=bytes(b))
        else:
            c.expect(isinstance(r.exc, ValueError), f"time:{how}:wrong-error", error=repr(r.exc))
            c.expect(expect is None, f"time:{how}:refused", data=bytes(b), error=repr(r.exc))


def read_cert(b):
    """Strict reading of a certificate at the start of b: (view, size) or None."""
    if len(b) < 8:
        return None
    n, rev, typ = struct.unpack_from("<IHH", b)
    if typ not in (0xEF0, 0xEF1) or n < 24 or n > len(b):
        return None
    g = uuid.UUID(bytes_le=b[8:24])
    if typ == 0xEF1:
        return (("guid", n, rev, typ, g, b[24:n]), n) if rev == 0x200 and g == PKCS7 else None
    return ("pkcs1", n, rev, typ, g, b[24:n]), n


def judge(c, b, what):
    """Every way to decode b: refused, or exactly what the bytes say."""
    want = read_cert(b)

    def both(how, fn, expect):
        r = c.call(fn)
        c.expect(not r.hang, f"{what}:{how}:no-termination", data=b)
        if not r.ok:
            c.event("rejected")
            if how != "factory" or len(b) >= 8:
                c.expect(isinstance(r.exc, ValueError), f"{what}:{how}:wrong-error", error=repr(r.exc), data=b)
            return
        got, pos = r.value
        if got is None:
            c.event("rejected")
            c.expect(expect is None, f"{what}:{how}:not-read", data=b)
            return
        c.event("accepted")
        if c.expect(expect is not None, f"{what}:{how}:damage-accepted", data=b, got=lambda: view(got)):
            c.equal(view(got), expect[0], f"{what}:{how}:misread", data=b)
            c.equal(pos, expect[1], f"{what}:{how}:consumed", data=b)

    def of_stream(fn):
        fs = io.BytesIO(b)
        r = fn(fs)
        return r, fs.tell()

    def of_bytes():
        w = WinCertUefiGuid()
        rest = w.decode(b)
        return w, len(b) - len(rest)
    t = struct.unpack_from("<H", b, 6)[0] if len(b) >= 8 else None
    if t == 0xEF1 or t is None:
        both("bytes", of_bytes, want)
        both("stream", lambda: of_stream(WinCertUefiGuid), want)
    if t == 0xEF0 or t is None:
        both("pkcs1", lambda: of_stream(WinCertPkcs1), want)
    both("factory", lambda: of_stream(WinCert.factory), want)


def small(rng):
    d = rng.randbytes(rng.choice([1, 2, 5, 24, 60]))
    return guid_bytes(d) if rng.random() < 0.6 else pkcs1_bytes(uuid.UUID(int=rng.getrandbits(128)), d)


@ck.family("truncate", 60, 1500)
def truncate(c):
    b = small(c.rng)
    c.key(b)
    for n in range(len(b)):
        judge(c, b[:n], "truncated")
        c.event("truncated", 3)


@ck.family("corrupt", 250, 8000)
def corrupt(c):
    b = small(c.rng) + c.rng.randbytes(c.rng.choice([0, 0, 5, 30]))
    c.key(b)
    for _ in range(20):
        x = bytearray(b)
        k = c.rng.randrange(3)
        if k == 0:
            struct.pack_into("<I", x, 0, c.rng.choice([0, 1, 8, 23, 24, 25, len(b) - 1, len(b), len(b) + 1, 0x7FFFFFFF, 0xFFFFFFFF]))
        elif k == 1:
            struct.pack_into("<H", x, c.rng.choice([4, 6]), c.rng.choice([0, 2, 0x100, 0x200, 0xEF0, 0xEF1, 0xEF2, 0xFFFF]))
        else:
            i = c.rng.randrange(len(x))
            x[i] ^= 1 << c.rng.randrange(8)
        judge(c, bytes(x), "corrupted")
        c.event("corrupted")


def a_payload(rng):
    k = rng.randrange(6)
    if k == 0:
        return b""
    if k <= 2:
        return S.db_bytes(S.gen_db(rng, 4))
    if k == 3:
        return S.db_bytes(S.gen_db(rng, 3)) + rng.randbytes(rng.choice([1, 27, 28, 40]))
    return S.big(rng, rng.randbytes(rng.choice([1, 16, 28, 100, rng.randint(1, 2000)])), .04)


def check_payload(c, v, p, what):
    c.equal(bytes(v.payload) if v.payload is not None else b"", p, f"{what}:payload")
    c.equal(v.payload_size, len(p), f"{what}:payload-size")
    try:
        db = S.read_db(p) if p else None
    except S.Bad:
        db = None
    got = None if v.sig_list_payload is None else S.view(v.sig_list_payload)
    c.equal(got, db, f"{what}:signature-database-of-payload", payload=p)


@ck.family("descriptor", 350, 8000)
def descriptor(c):
    rng = c.rng
    t, p = a_time(rng), a_payload(rng)
    pk = rng.random() < 0.3
    g = uuid.UUID(int=rng.getrandbits(128))
    d = data(rng, 1)
    cb = pkcs1_bytes(g, d) if pk else guid_bytes(d)
    blob = time_bytes(t) + cb + p
    c.key(blob)
    c.note(blob=blob)
    pre = rng.randbytes(rng.choice([0, 0, 3, 17]))
    fs = io.BytesIO(pre + blob)
    fs.seek(len(pre))
    o = c.must("descriptor:decode-failed", A.EfiVariableAuthentication2, decodefs=fs)
    if o is None:
        return
    v = o
    c.event("descriptor")

    def whole(v, t, cert, p, what):
        c.equal(v.time.get_datetime(), t, f"{what}:time")
        c.equal(view(v.auth_info), read_cert(cert)[0], f"{what}:certificate")
        check_payload(c, v, p, what)
        c.equal(bytes(v.encode()), time_bytes(t) + cert + p, f"{what}:encode")
        out = io.BytesIO()
        v.write(out)
        c.equal(out.getvalue(), time_bytes(t) + cert + p, f"{what}:write")
    whole(v, t, cb, p, "decoded")
    c.equal(fs.tell(), len(pre + blob), "decoded:stream-position")
    # replacing payloads: nothing of the previous one stays
    for _ in range(rng.randint(0, 3)):
        p2 = a_payload(rng)
        q = rng.randbytes(rng.choice([0, 4]))
        fs = io.BytesIO(q + p2)
        fs.seek(len(q))
        v.set_payload(fs)
        whole(v, t, cb, p2, "replaced")
    # decoding into a used object
    fs = io.BytesIO(blob)
    v.decode(fs)
    whole(v, t, cb, p, "decoded-again")
    # one made here
    t2 = a_time(rng)
    n = A.EfiVariableAuthentication2(time=t2)
    n.auth_info.add_cert_data(d)
    whole(n, t2, guid_bytes(d), b"", "made")
    n.set_payload(io.BytesIO(p))
    whole(n, t2, guid_bytes(d), p, "made")
    # truncated inside time or certificate
    head = 16 + len(cb)
    for n in sorted({0, 1, 15, 16, 17, 23, 24, 39, 40, head - 1} | {rng.randrange(head) for _ in range(10)}):
        if n < head:
            r = c.call(A.EfiVariableAuthentication2, decodefs=io.BytesIO(blob[:n]))
            c.event("truncated")
            c.expect(not r.ok and not r.hang, "descriptor:truncated-accepted", size=n)
    # unknown certificate type
    b = bytearray(blob)
    struct.pack_into("<H", b, 22, rng.choice([0, 2, 0xEEF, 0xEF2, 0xFFFF]))
    r = c.call(A.EfiVariableAuthentication2, decodefs=io.BytesIO(bytes(b)))
    c.event("corrupted")
    c.expect(not r.ok, "descriptor:unknown-certificate-type-accepted")


sys.exit(ck.main())
