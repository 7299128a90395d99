"""P26: a signed authenticated variable carries a signature that verifies."""
import datetime
import io
import os
import struct
import sys
import uuid
import warnings

warnings.simplefilter("ignore")
from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.serialization import Encoding, load_pem_private_key
from cryptography.hazmat.primitives.serialization.pkcs12 import PKCS12Certificate
from cryptography.x509.oid import NameOID

import siggen as S
from vh import Check, mute_logging

mute_logging()
A = S.module()
ck = Check("P26", ["edk2toollib/uefi/authenticated_variables_structure_support.py", "edk2toollib/uefi/wincert.py"],
           rule="a case is one variable with its payload history, signers and certificates; distinct by the signed data; non-trivial with a payload",
           min_events={"default_time": 50, "signed": 150, "verified": 200, "several_signers": 30, "additional_certificate": 50, "payload_replaced": 60, "digest": 400, "other_field": 300, "content_info": 30})
KEYDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "testkeys")
KEYS = [load_pem_private_key(open(os.path.join(KEYDIR, f"k{i}.pem"), "rb").read(), None) for i in range(5)]
ABBR = {"NV": 1, "BS": 2, "RT": 4, "HW": 8, "AW": 0x10, "AT": 0x20, "AP": 0x40}
OIDS = {bytes.fromhex("608648016503040201"): hashes.SHA256, bytes.fromhex("608648016503040202"): hashes.SHA384, bytes.fromhex("608648016503040203"): hashes.SHA512}
OID_DATA = bytes.fromhex("2a864886f70d010701")
OID_SIGNED = bytes.fromhex("2a864886f70d010702")
OID_RSA = {bytes.fromhex("2a864886f70d010101"), bytes.fromhex("2a864886f70d01010b"), bytes.fromhex("2a864886f70d01010c"), bytes.fromhex("2a864886f70d01010d")}


class Malformed(Exception):
    pass


def tlvs(b):
    """[(tag, content, whole)] of consecutive DER values."""
    out, p = [], 0
    while p < len(b):
        if p + 2 > len(b):
            raise Malformed("short")
        tag, n, q = b[p], b[p + 1], p + 2
        if n & 0x80:
            k = n & 0x7F
            if not 1 <= k <= 4 or q + k > len(b):
                raise Malformed("length")
            n, q = int.from_bytes(b[q:q + k], "big"), q + k
            if n < 128 or n >> (8 * (k - 1)) == 0:
                raise Malformed("length not minimal")
        if q + n > len(b):
            raise Malformed("past the end")
        out.append((tag, b[q:q + n], b[p:q + n]))
        p = q + n
    return out


def need(x, what):
    if not x:
        raise Malformed(what)


def signed_data(b, wrapped):
    """{certs, signers} of DER SignedData, detached and without attributes."""
    top = tlvs(b)
    need(len(top) == 1 and top[0][0] == 0x30, "top")
    body = tlvs(top[0][1])
    if wrapped:
        need(len(body) == 2 and body[0][:2] == (6, OID_SIGNED) and body[1][0] == 0xA0, "content info")
        inner = tlvs(body[1][1])
        need(len(inner) == 1 and inner[0][0] == 0x30, "content")
        body = tlvs(inner[0][1])
    need([x[0] for x in body] == [2, 0x31, 0x30, 0xA0, 0x31], "fields of SignedData")
    need(body[0][1] == b"\x01", "version")
    content = tlvs(body[2][1])
    need(len(content) == 1 and content[0][:2] == (6, OID_DATA), "detached data")
    algs = {tlvs(a[1])[0][1] for a in tlvs(body[1][1])}
    certs = [c[2] for c in tlvs(body[3][1])]
    signers = []
    for s in tlvs(body[4][1]):
        f = tlvs(s[1])
        need([x[0] for x in f] == [2, 0x30, 0x30, 0x30, 4], "fields of SignerInfo (attributes?)")
        issuer, serial = tlvs(f[1][1])
        alg = tlvs(f[2][1])[0][1]
        need(alg in algs and alg in OIDS, "digest algorithm")
        need(tlvs(f[3][1])[0][1] in OID_RSA, "signature algorithm")
        signers.append((issuer[2], int.from_bytes(serial[1], "big"), OIDS[alg], f[4][1]))
    return certs, signers


def make_cert(rng, key):
    name = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "".join(rng.choice("abcXYZ 0äß漢") for _ in range(rng.randint(1, 20))).strip() or "x"),
                      x509.NameAttribute(NameOID.ORGANIZATION_NAME, f"O{rng.randrange(100)}")])
    b = x509.CertificateBuilder().subject_name(name).issuer_name(name).public_key(key.public_key())
    b = b.serial_number(rng.choice([1, 127, 128, 255, rng.getrandbits(64) + 1, rng.getrandbits(150) + 1]))
    b = b.not_valid_before(datetime.datetime(2020, 1, 1)).not_valid_after(datetime.datetime(2040, 1, 1))
    return b.sign(key, hashes.SHA256())


def a_time(rng):
    return datetime.datetime(rng.choice([1, 1970, 1998, 2023, 2099, 9999, rng.randint(1970, 2100)]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))


def time_bytes(t):
    return struct.pack("<HBBBBBxIhBx", t.year, t.month, t.day, t.hour, t.minute, t.second, 0, 0, 0)


def variable(rng):
    name = "".join(rng.choice(["a", "Z", "0", "_", " ", "é", "漢", "\U0001F511", "\0", "\uFEFF"]) for _ in range(rng.choice([0, 1, 2, 5, 12, 60, 65, 129, 300]))) if rng.random() < 0.6 else rng.choice(["db", "dbx", "PK", "KEK", "MockVariable"])
    names = rng.sample(list(ABBR), rng.randint(0, 7))
    attr = sum(ABBR[n] for n in names)
    given = rng.choice([attr, ",".join(names)]) if names else attr
    return dict(name=name, guid=uuid.UUID(int=rng.getrandbits(128)), attr=attr, given=given, time=a_time(rng))


def payload(rng):
    k = rng.randrange(6)
    if k == 0:
        return b""
    if k == 1:
        return S.db_bytes(S.gen_db(rng, 3))
    if k == 2:
        return rng.choice([b"\n", b"a\nb\r\nc\rd", b"\r\n" * 10, b"\0", b"Content-Type: text/plain\r\n\r\n"])
    return S.big(rng, rng.randbytes(rng.choice([1, 2, 16, 255, rng.randint(1, 3000)])), .05)


def give(rng, p):
    """The payload as a caller may hand it over."""
    k = rng.randrange(4)
    if k == 0 and not p:
        return None
    if k <= 1:
        return p
    if k == 2:
        return bytearray(p)
    pre = rng.randbytes(rng.choice([0, 5]))
    fs = io.BytesIO(pre + p)
    fs.seek(len(pre))
    return fs


def covered(v, p):
    return v["name"].encode("utf-16-le") + v["guid"].bytes_le + struct.pack("<I", v["attr"]) + time_bytes(v["time"]) + p


def build(rng, v, p):
    return A.EfiVariableAuthentication2Builder(v["name"], rng.choice([v["guid"], str(v["guid"]), str(v["guid"]).upper()]), v["given"], give(rng, p), efi_time=v["time"])


@ck.family("digest", 2000, 12000)
def digest(c):
    """What is to be signed covers every field and nothing else, after any history of payloads."""
    rng = c.rng
    v, p = variable(rng), payload(rng)
    c.key(v, p, nontrivial=bool(p))
    c.note(variable=v)
    b = c.must("digest:build-failed", build, rng, v, p)
    c.equal(bytes(b.get_digest()), covered(v, p), "digest:covered-data", variable=v, payload=p)
    for _ in range(rng.randint(0, 4)):
        p = payload(rng)
        b.update_payload(give(rng, p))
        c.equal(bytes(b.get_digest()), covered(v, p), "digest:covered-data-after-update", variable=v, payload=p)
    c.event("digest")
    field = rng.choice(["name", "guid", "attr", "time"])
    w = dict(v)
    if field == "name":
        w["name"] = rng.choice([v["name"] + "\0", v["name"] + "x", v["name"][:-1] + "y", v["name"].swapcase() + "q"])
    elif field == "guid":
        w["guid"] = uuid.UUID(int=v["guid"].int ^ (1 << rng.randrange(128)))
    elif field == "attr":
        w["attr"] = w["given"] = v["attr"] ^ (1 << rng.randrange(7))
    else:
        w["time"] = v["time"].replace(second=(v["time"].second + 1) % 60) if rng.random() < 0.5 else v["time"].replace(month=v["time"].month % 12 + 1)
    c.expect(bytes(build(rng, w, p).get_digest()) != bytes(b.get_digest()), f"digest:{field}-not-covered", variable=v, other=w)
    c.event("other_field")


@ck.family("sign", 900, 4000)
def sign(c):
    rng = c.rng
    v, p = variable(rng), payload(rng)
    b = c.must("sign:build-failed", build, rng, v, p)
    for _ in range(rng.choice([0, 0, 1, 2])):
        p = payload(rng)
        b.update_payload(give(rng, p))
        c.event("payload_replaced")
    c.key(v, p, nontrivial=bool(p))
    c.note(variable=v, payload=p)
    data = covered(v, p)
    keys = rng.sample(KEYS, rng.choice([1, 1, 1, 2, 3]))
    signers, extra = [], []
    for k in keys:
        cert = make_cert(rng, k)
        alg = rng.choice([None, hashes.SHA256, hashes.SHA384, hashes.SHA512])
        more = [make_cert(rng, rng.choice(KEYS)) for _ in range(rng.choice([0, 0, 1, 3]))]
        kw = {} if alg is None else {"hash_algorithm": alg()}
        args = [[PKCS12Certificate(m, None) for m in more]] if more or rng.random() < 0.3 else []
        c.must("sign:failed", b.sign, cert, k, *args, **kw)
        signers.append((cert, k, alg or hashes.SHA256))
        extra += more
    c.event("several_signers", len(keys) > 1)
    c.event("additional_certificate", len(extra))
    wrapped = rng.random() < 0.3
    c.event("content_info", int(wrapped))
    for again in range(rng.choice([1, 1, 2])):
        var = c.must("sign:finalize-failed", lambda: b.finalize(omit_content_info=False) if wrapped else (b.finalize() if rng.random() < 0.7 else b.finalize(True)))
    c.event("signed")
    enc = bytes(var.encode())
    out = io.BytesIO()
    var.write(out)
    c.equal(out.getvalue(), enc, "sign:write")
    # the layout, read here
    c.equal(enc[:16], time_bytes(v["time"]), "sign:time")
    n, rev, typ = struct.unpack_from("<IHH", enc, 16)
    c.equal((rev, typ, enc[24:40]), (0x200, 0xEF1, uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le), "sign:certificate-header")
    sig, rest = enc[40:16 + n], enc[16 + n:]
    c.equal(rest, p, "sign:payload")
    c.equal(bytes(b.get_signature()), sig, "sign:get-signature")
    try:
        certs, infos = signed_data(sig, wrapped)
    except (Malformed, IndexError, ValueError) as e:
        c.violate("sign:malformed-signed-data", error=repr(e), signature=sig)
        return
    want = sorted({x.public_bytes(Encoding.DER) for x, _, _ in signers} | {x.public_bytes(Encoding.DER) for x in extra})
    c.equal(sorted(x509.load_der_x509_certificate(x).subject.rfc4514_string() for x in certs), sorted(x509.load_der_x509_certificate(x).subject.rfc4514_string() for x in want), "sign:certificates")
    c.equal([x in certs for x in want], [True] * len(want), "sign:certificate-bytes")
    c.equal(len(infos), len(signers), "sign:number-of-signers")
    for cert, key, alg in signers:
        mine = [i for i in infos if i[0] == cert.issuer.public_bytes() and i[1] == cert.serial_number]
        if not c.expect(len(mine) == 1, "sign:signer-not-named", found=len(mine)):
            continue
        c.expect(mine[0][2] is alg, "sign:hash-algorithm", got=mine[0][2].name)

        def ok(x):
            try:
                key.public_key().verify(mine[0][3], x, padding.PKCS1v15(), mine[0][2]())
                return True
            except InvalidSignature:
                return False
        c.expect(ok(data), "sign:does-not-verify", variable=v, payload=p)
        c.event("verified")
        i = rng.randrange(len(data))
        c.expect(not ok(data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]) and not ok(data + b"\0") and not ok(data[:-1]), "sign:verifies-other-data")
    # read back
    r = c.must("sign:decode-failed", A.EfiVariableAuthentication2, decodefs=io.BytesIO(enc))
    c.equal((r.time.get_datetime(), bytes(r.auth_info.get_certificate()), bytes(r.payload or b"")), (v["time"], sig, p), "sign:decoded")
    c.equal(bytes(r.encode()), enc, "sign:encoded-again")
    t = io.StringIO()
    c.must("sign:print-failed", r.print, t)


@ck.family("mixed_signers", 200, 1200)
def mixed_signers(c):
    """Signers that would sign different data are refused, or the result verifies for each of them over what the variable now holds."""
    rng = c.rng
    v, p = variable(rng), payload(rng)
    b = c.must("mixed:build-failed", build, rng, v, p)
    ka, kb = rng.sample(KEYS, 2)
    first, second = make_cert(rng, ka), make_cert(rng, kb)
    kind = rng.choice(["same-length", "longer", "digest", "back", "own-digest"])
    c.key(v, p, kind)
    kw = {"digest": rng.randbytes(rng.randrange(1, 80))} if kind == "own-digest" else {}
    c.must("mixed:sign-failed", b.sign, first, ka, **kw)
    if kind == "own-digest":
        pass
    elif kind == "digest":
        d = bytearray(b.get_digest())
        d[rng.randrange(len(d))] ^= 1
        kw["digest"] = bytes(d)
    else:
        q = bytes(x ^ 1 for x in p) if kind == "same-length" and p else p + rng.randbytes(3)
        b.update_payload(give(rng, q))
        if kind == "back":
            b.update_payload(give(rng, p))
            q = p
    r = c.call(b.sign, second, kb, **kw)
    c.event("mixed")
    if kind in ("back", "own-digest"):
        c.expect(r.ok, "mixed:same-data-refused", error=repr(r.exc))
    if not r.ok:
        c.expect(isinstance(r.exc, ValueError), "mixed:wrong-error", error=repr(r.exc))
        c.event("mixed_refused")
        return
    var = c.must("mixed:finalize-failed", b.finalize)
    enc = bytes(var.encode())
    n = struct.unpack_from("<I", enc, 16)[0]
    _, infos = signed_data(enc[40:16 + n], False)
    data = kw["digest"] if kind == "own-digest" else covered(v, enc[16 + n:])

    def ok(key, i):
        try:
            key.public_key().verify(i[3], data, padding.PKCS1v15(), i[2]())
            return True
        except InvalidSignature:
            return False
    c.equal(sorted(next((k for k in (0, 1) if ok((ka, kb)[k], i)), -1) for i in infos), [0, 1], "mixed:signers-of-different-data", kind=kind)


@ck.family("default_time", 60, 400)
def default_time(c):
    """A variable made without a time carries the time at which it was made (firmware takes only newer ones)."""
    rng = c.rng
    kind = rng.choice(["EfiTime", "variable", "old-variable", "builder"])
    make = {"EfiTime": A.EfiTime, "variable": A.EfiVariableAuthentication2, "old-variable": A.EFiVariableAuthentication2,
            "builder": lambda: A.EfiVariableAuthentication2Builder("v", uuid.UUID(int=rng.getrandbits(128)), 7, rng.choice([None, b"x"]))}[kind]
    c.key(kind, c.index)
    # any time zone is accepted
    before = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None), datetime.datetime.now()
    o = c.must("default-time:create", make)
    after = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None), datetime.datetime.now()
    t = o if kind == "EfiTime" else o.time if kind != "builder" else o.authenticated_variable.time
    got = t.get_datetime()
    c.expect(any(b.replace(microsecond=0) <= got.replace(tzinfo=None) <= a for b, a in zip(before, after)), "default-time:not-the-time-of-creation", kind=kind, got=str(got), before=str(before), after=str(after))
    if kind == "builder":
        c.expect(time_bytes(got) in bytes(o.get_digest()), "default-time:not-covered")
    c.event("default_time")


if __name__ == "__main__":
    sys.exit(ck.main())
