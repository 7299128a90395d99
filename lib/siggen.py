"""Signature databases: generator, independent byte layout and strict reader (UEFI 2.10, 32.4.1)."""
import io
import struct
import uuid

SHA = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328")
X509 = uuid.UUID("a5c059a1-94e4-4aa7-87b5-ab155c2bf072")


class Bad(Exception):
    pass


def big(rng, b, odds=.02):
    """Now and then a blob of another order of magnitude in the place of b."""
    return rng.randbytes(rng.choice([4095, 4097, 8193, 32768, 32769, 65535, 65536, 65537, 70000])) if rng.random() < odds else b


def list_bytes(kind, sigs, size=None):
    if size is None:
        size = 16 + len(sigs[0][1]) if sigs else 0
    body = b"".join(o.bytes_le + d for o, d in sigs)
    return kind.bytes_le + struct.pack("<III", 28 + len(body), 0, size) + body


def db_bytes(db):
    return b"".join(list_bytes(k, s) for k, s in db)


def read_list(data, pos=0):
    """(kind, [(owner, data)], next position) or Bad."""
    left = len(data) - pos
    if left < 28:
        raise Bad("short")
    kind = uuid.UUID(bytes_le=data[pos:pos + 16])
    total, header, size = struct.unpack_from("<III", data, pos + 16)
    if total > left or total < 28 or header != 0:
        raise Bad("sizes")
    body = data[pos + 28:pos + total]
    if not body:
        return kind, [], pos + total
    if size < 16 or len(body) % size or kind not in (SHA, X509) or (kind == SHA and size != 48):
        raise Bad("body")
    sigs = [(uuid.UUID(bytes_le=body[i:i + 16]), body[i + 16:i + size]) for i in range(0, len(body), size)]
    return kind, sigs, pos + total


def read_db(data):
    out, pos = [], 0
    while pos < len(data):
        k, s, pos = read_list(data, pos)
        out.append((k, s))
    return out


def owner(rng):
    return uuid.UUID(int=rng.getrandbits(128)) if rng.random() < 0.6 else uuid.UUID(int=rng.randint(0, 2))


def sha(rng, pool=None):
    if pool and rng.random() < 0.6:
        return rng.choice(pool)
    d = rng.randbytes(32) if rng.random() < 0.8 else bytes([rng.choice([0, 255, 0x80])]) * 31 + rng.randbytes(1)
    if pool is not None:
        pool.append(d)
    return d


def cert(rng, pool=None):
    if pool and rng.random() < 0.6:
        return rng.choice(pool)
    n = rng.choice([1, 2, 31, 32, 33, 100, rng.randint(1, 1500)])
    d = big(rng, rng.randbytes(n), .01)
    if pool and rng.random() < 0.4:  # one is a prefix of another, or differs in the last byte
        p = rng.choice(pool)
        d = rng.choice([p + b"\0", p + rng.randbytes(3), p[:-1] + bytes([p[-1] ^ 1])])
    if pool is not None:
        pool.append(d)
    return d


def gen_list(rng, pools=None, empty=0.1, multi=0.25):
    pools = pools or ([], [])
    kind = rng.choice([SHA, X509])
    if rng.random() < empty:
        return kind, []
    if kind == SHA:
        return kind, [(owner(rng), sha(rng, pools[0])) for _ in range(rng.choice([1, 1, 2, 3, rng.randint(1, 12)]) if rng.random() < .98 else rng.choice([33, 257, 300]))]
    first = cert(rng, pools[1])
    sigs = [(owner(rng), first)]
    while rng.random() < multi:
        same = [p for p in pools[1] if len(p) == len(first)]
        sigs.append((owner(rng), rng.choice(same) if rng.random() < 0.5 else rng.randbytes(len(first))))
    return kind, sigs


def gen_db(rng, n=6, **kw):
    pools = ([], [])
    return [gen_list(rng, pools, **kw) for _ in range(rng.randint(0, n) if rng.random() < .98 else rng.choice([17, 101, 101]))]


def module():
    from edk2toollib.uefi import authenticated_variables_structure_support as A
    return A


def data_obj(kind, o, d, rng=None):
    A = module()
    how = rng.randrange(3) if rng else 0
    if kind == SHA:
        if how == 1:
            return A.EfiSignatureDataEfiCertSha256(decodefs=io.BytesIO(o.bytes_le + d))
        return A.EfiSignatureDataEfiCertSha256(digest=d, sigowner=o)
    if how == 1:
        return A.EfiSignatureDataEfiCertX509(decodefs=io.BytesIO(o.bytes_le + d), decodesize=16 + len(d))
    if how == 2:
        return A.EfiSignatureDataFactory.create(kind, io.BytesIO(d), o)
    return A.EfiSignatureDataEfiCertX509(cert=d, sigowner=o)


def list_obj(kind, sigs, rng=None):
    A = module()
    esl = A.EfiSignatureList(typeguid=kind)
    esl.AddSignatureHeader(None, SigSize=16 + len(sigs[0][1]) if sigs else 0)
    for o, d in sigs:
        esl.AddSignatureData(data_obj(kind, o, d, rng))
    return esl


def db_obj(db, rng=None):
    """Built object by object or decoded from bytes."""
    A = module()
    if rng and rng.random() < 0.4:
        return A.EfiSignatureDatabase(filestream=io.BytesIO(db_bytes(db)))
    return A.EfiSignatureDatabase(esl_list=[list_obj(k, s, rng) for k, s in db])


def view_list(esl):
    return esl.signature_type, [(d.signature_owner, d.signature_data) for d in esl.signature_data_list or []]


def view(db):
    return [view_list(e) for e in db.esl_list]
