"""P24: signature lists and databases round trip and keep every signature."""
import hashlib
import io
import struct
import sys
import uuid
import warnings

import siggen as S
from vh import Check, mute_logging

mute_logging()
warnings.simplefilter("ignore")
A = S.module()
FILES = ["edk2toollib/uefi/authenticated_variables_structure_support.py"]
ck = Check("P24", FILES, rule="a case is one database, one history of operations, or one damaged database; distinct by bytes and operations; non-trivial when signatures are present",
           min_events={"db_roundtrip": 300, "created": 250, "add": 500, "merge": 300, "sort": 300, "refused": 500, "truncated": 5000, "corrupted": 3000})


def state(esl):
    return (esl.signature_type, esl.signature_list_size, esl.signature_header_size, esl.signature_size, esl.signature_header,
            None if esl.signature_data_list is None else [(d.signature_owner, d.signature_data) for d in esl.signature_data_list])


@ck.family("roundtrip", 400, 9000)
def roundtrip(c):
    db = S.gen_db(c.rng)
    want = S.db_bytes(db)
    c.key(want, nontrivial=any(s for _, s in db))
    c.note(db=db)
    o = S.db_obj(db, c.rng)
    c.equal(S.view(o), db, "db:signatures")
    c.equal(o.encode(), want, "db:encode")
    out = io.BytesIO()
    o.write(out)
    c.equal(out.getvalue(), want, "db:write")
    pre = c.rng.randbytes(c.rng.choice([0, 0, 1, 30]))
    fs = io.BytesIO(pre + want)
    fs.seek(len(pre))
    r = A.EfiSignatureDatabase(filestream=fs)
    c.equal(S.view(r), db, "db:decode")
    c.equal(fs.tell(), len(pre + want), "db:stream-position")
    c.equal(r.encode(), want, "db:encode-decoded")
    # decoding into a used database forgets its old content
    u = S.db_obj(S.gen_db(c.rng, 3), c.rng)
    u.decode(io.BytesIO(want))
    c.equal(u.encode(), want, "db:decode-again")
    c.event("db_roundtrip")
    for (k, s), esl in zip(db, r.esl_list):
        b = S.list_bytes(k, s)
        c.equal((esl.signature_list_size, esl.signature_header_size, esl.signature_size), (len(b), 0, 16 + len(s[0][1]) if s else 0), "list:sizes")
        c.equal(esl.encode(), b, "list:encode")
        fs = io.BytesIO(pre + b + b"tail")
        fs.seek(len(pre))
        e = A.EfiSignatureList(filestream=fs)
        c.equal((S.view_list(e), fs.tell()), ((k, s), len(pre + b)), "list:decode")
        for (ow, d), obj in zip(s, esl.signature_data_list):
            c.equal((obj.encode(), obj.get_total_size()), (ow.bytes_le + d, 16 + len(d)), "data:encode")
            w = io.BytesIO()
            obj.write(w)
            c.equal(w.getvalue(), ow.bytes_le + d, "data:write")
    # text of every form names every signature
    for compact in (False, True):
        t = io.StringIO()
        r.print(compact=compact, outfs=t)
        for _, s in db:
            for ow, d in s:
                c.expect(str(ow) in t.getvalue(), "print:owner-missing", owner=ow)


class Header:
    """A signature header: the type of list does not matter."""

    def __init__(self, n, entry):
        self.n, self.entry = n, entry

    def get_total_size(self):
        return self.n

    def GetSizeOfSignatureDataEntry(self):
        return self.entry

    def write(self, fs):
        fs.write(b"H" * self.n)


@ck.family("history", 1500, 20000)
def history(c):
    """A list under adds, merges, sorts and reloads next to a model of it."""
    rng = c.rng
    kind = rng.choice([S.SHA, S.SHA, S.X509])
    pool, log = [], []
    n = rng.choice([1, 31, 32, 33, 64])

    def new():
        d = S.sha(rng, pool) if kind == S.SHA else (rng.choice(pool) if pool and rng.random() < 0.5 else rng.randbytes(n))
        if kind == S.X509:
            pool.append(d)
        return S.owner(rng), d
    size = 48 if kind == S.SHA else 16 + n
    header = rng.random() < 0.1
    esl = A.EfiSignatureList(typeguid=kind)
    if rng.random() < 0.5 or kind == S.X509 or header:
        if header:
            h = Header(rng.choice([1, 4, 20]), size)
            esl.AddSignatureHeader(h)
            c.equal((esl.signature_list_size, esl.signature_header_size), (28 + h.n, h.n), "header:sizes")
        else:
            esl.AddSignatureHeader(None, SigSize=size)
        old = state(esl)
        c.must_raise("header:second-accepted", Exception, esl.AddSignatureHeader, None, SigSize=size)
        c.equal(state(esl), old, "header:refused-but-changed")
    else:
        c.must_raise("add:before-size-accepted", Exception, esl.AddSignatureData, S.data_obj(kind, *new()))
    model, merged = [], []

    def check(what):
        c.equal([(d.signature_owner, d.signature_data) for d in esl.signature_data_list or []], model, f"{what}:signatures", log=log)
        if header:
            return
        if esl.signature_header_size == -1:  # nothing has been set up yet: not a list that can be written
            c.expect(not model and not merged, f"{what}:not-initialised", log=log)
            c.must_raise("encode:uninitialised-accepted", Exception, esl.encode)
            return
        b = esl.encode()
        c.equal(b[:24] + b[28:], S.list_bytes(kind, model, 0)[:24] + S.list_bytes(kind, model, 0)[28:], f"{what}:bytes", log=log)
        c.equal(esl.signature_list_size, 28 + size * len(model), f"{what}:list-size", log=log)
        if model:
            c.equal(esl.signature_size, size, f"{what}:signature-size", log=log)
        back = c.must(f"{what}:decode-failed", A.EfiSignatureList, filestream=io.BytesIO(b))
        c.equal(S.view_list(back), (kind, model), f"{what}:decoded", log=log)
    for _ in range(rng.randint(1, 12)):
        op = rng.choice(["add", "add", "merge", "merge", "sort", "bad-type", "bad-size", "bad-merge", "reload", "header-merge"])
        log.append(op)
        old = state(esl)
        if op == "add":
            if esl.signature_size == 0:
                continue
            x = new()
            esl.AddSignatureData(S.data_obj(kind, *x, rng))
            model.append(x)
            c.event("add")
        elif op == "merge":
            more = [new() for _ in range(rng.choice([0, 1, 2, 5]))]
            other = S.list_obj(kind, more, rng)
            if rng.random() < 0.2:  # the result of an earlier sort: an empty list of its own
                other = A.EfiSignatureList(typeguid=kind)
                if more:
                    other.MergeSignatureList(S.list_obj(kind, more, rng)) if kind == S.SHA else (other.AddSignatureHeader(None, SigSize=size), [other.AddSignatureData(S.data_obj(kind, *m)) for m in more])
            before = state(other)
            r = c.call(esl.MergeSignatureList, other)
            if kind == S.X509 and more or header:
                c.expect(not r.ok, "merge:not-mergeable-accepted", log=log)
                c.equal(state(esl), old, "merge:refused-but-changed", log=log)
                c.event("refused")
            else:
                c.expect(r.ok, "merge:failed", error=repr(r.exc), log=log)
                model += more
                merged.append(len(more))
                c.event("merge")
            c.equal(state(other), before, "merge:source-changed", log=log)
            if more and kind == S.SHA and not header:  # the source stays independent
                other.AddSignatureData(S.data_obj(kind, *new()))
                esl_now = [(d.signature_owner, d.signature_data) for d in esl.signature_data_list or []]
                c.equal(esl_now, model, "merge:still-linked-to-source", log=log)
        elif op == "sort":
            dedupe = rng.random() < 0.6
            dupes = esl.SortBySignatureDataValue(deduplicate=dedupe)
            kept, gone = [], []
            for x in sorted(model, key=lambda x: x[1]):
                (gone if dedupe and kept and kept[-1][1] == x[1] else kept).append(x)
            c.equal(S.view_list(dupes)[0], kind, "sort:duplicates-type", log=log)
            c.equal(sorted(S.view_list(dupes)[1]), sorted(gone), "sort:duplicates", log=log)
            c.equal([x[1] for x in S.view_list(dupes)[1]], [x[1] for x in gone], "sort:duplicates-order", log=log)
            if esl.signature_header_size == 0:
                c.equal(dupes.encode(), S.list_bytes(kind, S.view_list(dupes)[1]), "sort:duplicates-bytes", log=log)
            now = [(d.signature_owner, d.signature_data) for d in esl.signature_data_list or []]
            c.equal([x[1] for x in now], [x[1] for x in kept], "sort:order", log=log)
            c.equal(sorted(now + S.view_list(dupes)[1]), sorted(model), "sort:lost-or-added", log=log)
            model = now
            c.event("sort")
            if rng.random() < 0.3 and kind == S.SHA and not header:  # go on with the duplicates instead
                esl, model = dupes, S.view_list(dupes)[1]
                log.append("take-duplicates")
        elif op in ("bad-type", "bad-size"):
            if op == "bad-type":
                x = A.EfiSignatureDataEfiCertX509(cert=rng.randbytes(size - 16), sigowner=S.owner(rng)) if kind == S.SHA else A.EfiSignatureDataEfiCertSha256(digest=rng.randbytes(32), sigowner=S.owner(rng))
            else:
                x = A.EfiSignatureDataEfiCertX509(cert=rng.randbytes(size - 16 + rng.choice([-1, 1, 16])), sigowner=S.owner(rng))
            c.must_raise(f"add:{op}-accepted", Exception, esl.AddSignatureData, x)
            c.equal(state(esl), old, f"add:{op}-refused-but-changed", log=log)
            c.event("refused")
        elif op == "bad-merge":
            k2 = S.X509 if kind == S.SHA else S.SHA
            other = rng.choice([S.list_obj(k2, [(S.owner(rng), rng.randbytes(32))]), S.list_obj(k2, []), None, b"", []])
            c.must_raise("merge:other-type-accepted", Exception, esl.MergeSignatureList, other)
            c.equal(state(esl), old, "merge:other-type-refused-but-changed", log=log)
            c.event("refused")
        elif op == "header-merge":
            other = A.EfiSignatureList(typeguid=kind)
            other.AddSignatureHeader(Header(4, size))
            other.AddSignatureData(S.data_obj(kind, *new()))
            before = state(other)
            c.must_raise("merge:header-accepted", Exception, esl.MergeSignatureList, other)
            c.equal((state(esl), state(other)), (old, before), "merge:header-refused-but-changed", log=log)
            c.event("refused")
        elif op == "reload" and not header and esl.signature_header_size != -1:
            esl = A.EfiSignatureList(filestream=io.BytesIO(esl.encode()))
        check(op)
    c.key(kind, log, model, nontrivial=bool(model))


def judge(c, b, what):
    try:
        want = S.read_db(b)
    except S.Bad:
        want = None
    r = c.call(A.EfiSignatureDatabase, filestream=io.BytesIO(b))
    c.expect(not r.hang, f"{what}:no-termination", data=b)
    if not r.ok:
        c.expect(isinstance(r.exc, Exception) and not isinstance(r.exc, (ZeroDivisionError, struct.error, MemoryError, RecursionError)), f"{what}:wrong-error", error=repr(r.exc), data=b)
        c.event("rejected")
        return
    c.event("accepted")
    if c.expect(want is not None, f"{what}:damage-accepted", data=b, got=lambda: S.view(r.value)):
        c.equal(S.view(r.value), want, f"{what}:misread", data=b)


def small_db(rng):
    while True:
        b = S.db_bytes(S.gen_db(rng, 3))
        if 0 < len(b) < 500:
            return b


@ck.family("truncate", 60, 1200)
def truncate(c):
    b = small_db(c.rng)
    c.key(b)
    for n in range(len(b)):
        judge(c, b[:n], "truncated")
        c.event("truncated")


@ck.family("corrupt", 250, 6000)
def corrupt(c):
    b = small_db(c.rng)
    c.key(b, "c")
    starts, pos = [], 0
    while pos < len(b):
        starts.append(pos)
        pos = S.read_list(b, pos)[2]
    for _ in range(20):
        x = bytearray(b)
        s = c.rng.choice(starts)
        k = c.rng.randrange(4)
        if k < 2:
            total, _, size = struct.unpack_from("<III", b, s + 16)
            off = c.rng.choice([16, 20, 24])
            struct.pack_into("<I", x, s + off, c.rng.choice([0, 1, 15, 16, 17, 27, 28, 29, 48, size, size + 1, max(0, size - 1), total, total - 1, total + 1, max(0, total - size), total - 28, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]))
        elif k == 2:
            x[s:s + 16] = c.rng.choice([S.SHA.bytes_le, S.X509.bytes_le, uuid.UUID(int=c.rng.getrandbits(128)).bytes_le])
        else:
            i = c.rng.randrange(len(x))
            x[i] ^= 1 << c.rng.randrange(8)
        judge(c, bytes(x), "corrupted")
        c.event("corrupted")


@ck.family("create", 300, 6000)
def create(c):
    """A signature made from content, digest or certificate, by any of the ways, has the layout of the UEFI spec and reads back by any of the ways."""
    rng = c.rng
    kind = rng.choice(["sha256", "x509"])
    F = A.EfiSignatureDataFactory
    guid = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328" if kind == "sha256" else "a5c059a1-94e4-4aa7-87b5-ab155c2bf072")
    cls = A.EfiSignatureDataEfiCertSha256 if kind == "sha256" else A.EfiSignatureDataEfiCertX509
    own = uuid.UUID(int=rng.getrandbits(128))
    content = rng.randbytes(rng.choice([0, 1, 31, 32, 33, 64, 1000])) if rng.random() < .6 else rng.randbytes(rng.randrange(1, 3000))
    lead = rng.choice([0, 0, 1, 16, 100])
    fs = io.BytesIO(rng.randbytes(lead) + content)
    fs.seek(lead)
    data = hashlib.sha256(content).digest() if kind == "sha256" else content
    way = rng.choice(["create", "Create", "createfs", "bytes"])
    if way == "create":
        obj = c.must("create:factory", F.create, guid, fs, own)
    elif way == "Create":
        obj = c.must("create:factory", F.Create, guid, fs, own)
    elif way == "createfs":
        obj = c.must("create:stream", cls, createfs=fs, sigowner=own)
    elif kind == "sha256":
        obj = c.must("create:digest", cls, digest=data, sigowner=own)
    else:
        obj = c.must("create:cert", cls, cert=data, sigowner=own)
    want = own.bytes_le + data
    c.key(kind, way, lead, content, nontrivial=bool(content))
    c.event("created")
    c.equal(type(obj), cls, "create:class")
    c.equal((obj.signature_owner, obj.signature_data, obj.SignatureOwner, obj.SignatureData), (own, data, own, data), "create:fields", way=way)
    c.equal((obj.get_total_size(), obj.GetTotalSize()), (len(want), len(want)), "create:size", way=way)
    for name in ("write", "Write"):
        out = io.BytesIO()
        c.must("create:write", getattr(obj, name), out)
        c.equal(out.getvalue(), want, "create:" + name)
    c.equal((obj.encode(), obj.GetBytes()), (want, want), "create:encode", way=way)
    # back from a stream that goes on behind it
    tail = rng.randbytes(rng.choice([0, 1, 40]))
    back_fs = io.BytesIO(rng.randbytes(lead) + want + tail)
    back_fs.seek(lead)
    if data or kind == "sha256":
        how = rng.choice(["factory", "Factory", "decodefs"])
        if how == "decodefs":
            back = c.must("create:decode", cls, decodefs=back_fs, **({} if kind == "sha256" else {"decodesize": len(want)}))
        else:
            back = c.must("create:decode", getattr(F, how), back_fs, guid, len(want))
        c.equal((back.signature_owner, back.signature_data, back.encode()), (own, data, want), "create:decoded", how=how)
        c.equal(back_fs.tell(), lead + len(want), "create:stream-position", how=how)
    # cut short, the stream is refused, whatever stands before it
    if len(want) > 16:
        cut = rng.randrange(1, len(want))
        fs = io.BytesIO(rng.randbytes(lead + len(want)) + want[:-cut])
        fs.seek(lead + len(want))
        if rng.random() < .5:
            c.must_raise("create:short-stream-accepted", Exception, F.factory, fs, guid, len(want))
        else:
            c.must_raise("create:short-stream-accepted", Exception, cls, decodefs=fs, **({} if kind == "sha256" else {"decodesize": len(want)}))
        c.event("short")
    # certificates order by their content alone
    if kind == "x509":
        mates = [cls(cert=rng.choice([content, content[:-1], content + b"a", rng.randbytes(len(content))]), sigowner=S.owner(rng)) for _ in range(4)] + [obj]
        c.equal([m.signature_data for m in sorted(mates)], sorted(m.signature_data for m in mates), "create:order")
    # what is no signature is refused
    other = uuid.UUID(int=rng.getrandbits(128))
    c.must_raise("create:unknown-type-accepted", Exception, F.create, other, io.BytesIO(content), own)
    c.must_raise("create:unknown-type-accepted", Exception, F.factory, io.BytesIO(want), other, len(want))
    c.must_raise("create:no-stream-accepted", Exception, F.create, guid, None, own)
    if kind == "sha256":
        bad = data[:-1] if rng.random() < .5 else data + b"x"
        c.must_raise("create:digest-length-accepted", Exception, cls, digest=bad, sigowner=own)
        c.must_raise("create:size-accepted", Exception, F.factory, io.BytesIO(want + b"y" * 9), guid, rng.choice([47, 49, 16, 32, 0]))
    c.must_raise("create:nothing-accepted", Exception, cls, sigowner=own)


sys.exit(ck.main())
