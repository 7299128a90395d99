"""P50: deprecated names behave exactly like their replacements."""
import datetime
import io
import os
import struct
import sys
import uuid
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import P26
import siggen as S
from vh import Check, mute_logging

mute_logging()
warnings.simplefilter("ignore")
from edk2toollib.uefi import authenticated_variables_structure_support as A
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from edk2toollib.uefi.wincert import WinCert, WinCertPkcs1, WinCertUefiGuid

ck = Check("P50", ["edk2toollib/uefi/wincert.py", "edk2toollib/uefi/authenticated_variables_structure_support.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
           rule="a case is a history of operations done on two equal objects, by the old names on one and by the new names on the other; distinct by the history; non-trivial when both changed or produced data",
           min_events={"pair": 3000, "refused": 600, "produced": 1000, "getter": 700, "setter": 400, "paths": 100, "warned": 2000, "output": 500})
SHA, X509 = S.SHA, S.X509


class Boom(io.BytesIO):
    """A stream that fails, the same way every time."""

    def write(self, b):
        raise OSError("no space")


def show(x, depth=0):
    """A value in a form that can be compared."""
    if x is None or isinstance(x, (bool, int, str, uuid.UUID, datetime.datetime)):
        return x
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, (list, tuple)):
        return [show(i, depth + 1) for i in x]
    return type(x).__name__.replace("EFiV", "EfiV"), state(x)


def state(o):
    """Everything the object holds."""
    return {k: show(v) for k, v in sorted(vars(o).items())}


class Twin:
    """The same object twice: one is used by old names, one by new ones."""

    def __init__(self, c, make):
        self.c = c
        self.old, self.new = make(), make()
        self.log = []
        c.equal(state(self.old), state(self.new), "twins-differ-at-start")

    def op(self, old, new, *args, name=None, **kw):
        """args may be functions that make a fresh argument."""
        c = self.c
        label = f"{type(self.new).__name__}.{old if isinstance(old, str) else name}"
        self.log.append(label)
        res = []
        for o, how in ((self.old, old), (self.new, new)):
            a = [x() if callable(x) else x for x in args]
            k = {n: (v() if callable(v) else v) for n, v in kw.items()}
            fn = getattr(o, how) if isinstance(how, str) else how
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                r = c.call(fn, *a, **k)
            c.event("warned", int(how is old and any(issubclass(x.category, DeprecationWarning) for x in w)))
            streams = [(x.tell(), x.getvalue()) for x in list(a) + list(k.values()) if isinstance(x, (io.BytesIO, io.StringIO))]
            res.append((r, streams))
        (x, sx), (y, sy) = res
        c.event("pair")
        if not c.equal((x.ok, type(x.exc)), (y.ok, type(y.exc)), f"{label}:outcome", old=repr(x), new=repr(y), log=self.log, trace=x.tb):
            return None
        if x.ok:
            c.equal(show(x.value) if x.value is not self.old else "self", show(y.value) if y.value is not self.new else "self", f"{label}:result", log=self.log)
            c.event("produced", int(x.value is not None))
        else:
            c.equal(str(x.exc), str(y.exc), f"{label}:message", log=self.log)
            c.event("refused")
        c.equal(sx, sy, f"{label}:streams", log=self.log)
        c.event("output", int(any(v for _, v in sx)))
        c.equal(state(self.old), state(self.new), f"{label}:state", log=self.log)
        return x

    def get(self, old, new):
        c = self.c
        x, y = c.call(getattr, self.old, old), c.call(getattr, self.new, new)
        c.equal((x.ok, show(x.value)), (y.ok, show(y.value)), f"{type(self.new).__name__}.{old}:value", log=self.log)
        if x.ok and isinstance(x.value, list):
            c.expect(x.value is getattr(self.old, new), f"{type(self.new).__name__}.{old}:is-a-copy", log=self.log)
        c.event("getter")

    def set(self, old, new, value):
        c = self.c
        self.log.append(f"{old}=")
        a, b = (value(), value()) if callable(value) else (value, value)
        x, y = c.call(setattr, self.old, old, a), c.call(setattr, self.new, new, b)
        c.equal((x.ok, type(x.exc)), (y.ok, type(y.exc)), f"{type(self.new).__name__}.{old}:set", log=self.log)
        c.equal(state(self.old), state(self.new), f"{type(self.new).__name__}.{old}:state-after-set", log=self.log)
        c.event("setter")


def stream(rng, data, pre=None):
    pre = rng.randbytes(rng.choice([0, 0, 3])) if pre is None else pre

    def f():
        s = io.BytesIO(pre + data)
        s.seek(len(pre))
        return s
    return f


def damaged(rng, data):
    k = rng.randrange(4)
    if k == 0 and data:
        return data[:rng.randrange(len(data))]
    if k == 1:
        return data + rng.randbytes(rng.randint(1, 9))
    if k == 2 and data:
        i = rng.randrange(min(len(data), 40))
        return data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]
    return data


def source(rng, data):
    """A stream, mostly with these bytes, now and then damaged or no stream."""
    k = rng.random()
    if k < 0.07:
        return None
    return stream(rng, damaged(rng, data) if k < 0.35 else data)


def sink(rng):
    k = rng.random()
    return None if k < 0.07 else (lambda: Boom()) if k < 0.15 else stream(rng, b"")


def pkcs1_bytes(rng):
    d = rng.randbytes(rng.choice([1, 16, 256]))
    return struct.pack("<IHH", 24 + len(d), 0x200, 0xEF0) + rng.randbytes(16) + d


def guid_bytes(rng, good=False):
    d = rng.randbytes(rng.choice([1, 40, 300]))
    g = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7") if rng.random() < 0.9 or good else uuid.UUID(int=rng.getrandbits(128))
    return struct.pack("<IHH", 24 + len(d), 0x200, 0xEF1) + g.bytes_le + d


@ck.family("wincert", 1500, 8000)
def wincert(c):
    rng = c.rng
    pk = rng.random() < 0.5
    blob = pkcs1_bytes(rng) if pk else guid_bytes(rng, True)
    cls = WinCertPkcs1 if pk else WinCertUefiGuid
    empty = rng.random() < 0.5
    t = Twin(c, lambda: cls() if empty else cls(io.BytesIO(blob)))
    for _ in range(rng.randint(2, 8)):
        k = rng.randrange(8)
        if k == 0:
            t.op("PopulateFromFileStream", "decode", source(rng, pkcs1_bytes(rng) if pk else guid_bytes(rng)))
        elif k == 1:
            t.op("Write", "write", sink(rng))
        elif k == 2:
            t.op("AddCertData", "add_cert_data", source(rng, rng.randbytes(rng.choice([0, 1, 50]))))
        elif k == 3:
            t.get("CertData", "cert_data")
            t.get(*(("HashAlgorithm", "hash_algorithm") if pk else ("CertType", "cert_type")))
        elif k == 4:
            t.set("CertData", "cert_data", rng.choice([None, rng.randbytes(9)]))
        elif k == 5:
            t.set(*(("HashAlgorithm", "hash_algorithm") if pk else ("CertType", "cert_type")), uuid.UUID(int=rng.getrandbits(128)))
        elif k == 6 and not pk:
            t.op("Encode", "encode")
            t.op("GetCertificate", "get_certificate")
        elif k == 7 and not pk:
            b = guid_bytes(rng)
            t.op("Decode", "decode", rng.choice([source(rng, b), damaged(rng, b)]))
        else:
            t.op("Print", "print", stream(rng, b"") if rng.random() < 0.1 else (lambda: io.StringIO()))
    c.key(blob, t.log)
    # the factory
    b = rng.choice([pkcs1_bytes, guid_bytes])(rng)
    if rng.random() < 0.3:
        b = b[:6] + struct.pack("<H", rng.choice([0, 2, 0xEF2, 0xEF1, rng.getrandbits(16)])) + b[8:]
    t.op(WinCert.Factory, WinCert.factory, source(rng, b), name="WinCert.Factory")


@ck.family("signature", 1500, 8000)
def signature(c):
    rng = c.rng
    kind = rng.choice([SHA, X509])
    ow, d = S.owner(rng), S.sha(rng) if kind == SHA else S.cert(rng)
    t = Twin(c, lambda: S.data_obj(kind, ow, d))
    for _ in range(rng.randint(2, 8)):
        k = rng.randrange(7)
        if k == 0:
            b = S.owner(rng).bytes_le + (S.sha(rng) if kind == SHA else S.cert(rng))
            size = rng.choice([len(b), len(b), len(b) + 1, 16, 0])
            if kind == SHA:
                t.op("PopulateFromFileStream", "decode", source(rng, b))
            else:
                t.op("PopulateFromFileStream", "decode", source(rng, b), **rng.choice([{"decodesize": size}]))
        elif k == 1:
            t.op("Write", "write", sink(rng))
        elif k == 2:
            t.op("GetBytes", "encode")
            t.op("GetTotalSize", "get_total_size")
        elif k == 3:
            t.get("SignatureOwner", "signature_owner")
            t.get("SignatureData", "signature_data")
        elif k == 4:
            t.set("SignatureOwner", "signature_owner", S.owner(rng))
        elif k == 5:
            t.set("SignatureData", "signature_data", rng.choice([None, rng.randbytes(32)]))
        else:
            t.op("Print", "print", compact=rng.random() < 0.5, outfs=lambda: io.StringIO())
    c.key(kind, d, t.log)
    b = S.owner(rng).bytes_le + d
    typ = rng.choice([SHA, X509, X509, uuid.UUID(int=rng.getrandbits(128))])
    t.op(A.EfiSignatureDataFactory.Factory, A.EfiSignatureDataFactory.factory, source(rng, b), typ, rng.choice([len(b), 48, 0, None]), name="Factory.Factory")
    t.op(A.EfiSignatureDataFactory.Create, A.EfiSignatureDataFactory.create, typ, source(rng, d), rng.choice([ow, None]), name="Factory.Create")


@ck.family("lists", 1500, 8000)
def lists(c):
    rng = c.rng
    db = rng.random() < 0.6
    model = S.gen_db(rng, 5) if db else S.gen_list(rng, empty=0.02)
    if not db and not model[1]:
        model = (SHA, [(S.owner(rng), S.sha(rng))])
    t = Twin(c, lambda: S.db_obj(model) if db else S.list_obj(*model))
    for _ in range(rng.randint(2, 8)):
        k = rng.randrange(7)
        if k == 0:
            m = S.gen_db(rng, 4)
            t.op("PopulateFromFileStream", "decode", source(rng, S.db_bytes(m))) if not db else t.op("Write", "write", sink(rng))
        elif k == 1:
            t.op("Write", "write", sink(rng))
        elif k == 2:
            t.op("GetBytes", "encode")
        elif k == 3:
            t.get(*(("EslList", "esl_list") if db else ("SignatureData_List", "signature_data_list")))
        elif k == 4:
            if db:
                m = S.gen_db(rng, 3)
                t.set("EslList", "esl_list", lambda: S.db_obj(m).esl_list)
            else:
                m = [(S.owner(rng), S.sha(rng) if model[0] == SHA else rng.randbytes(len(model[1][0][1]))) for _ in range(rng.randint(0, 3))]
                t.set("SignatureData_List", "signature_data_list", rng.choice([None, lambda: [S.data_obj(model[0], *x) for x in m]]))
        elif k == 5:
            t.op("Print", "print", compact=rng.random() < 0.5, outfs=lambda: io.StringIO())
        elif db:
            n = rng.choice([("GetCanonicalAndDupes", "get_canonical_and_dupes"), ("GetCanonical", "get_canonical"), ("GetDuplicates", "get_duplicates")])
            t.op(*n)
    c.key(model, t.log)


@ck.family("variables", 1200, 6000)
def variables(c):
    rng = c.rng
    when = P26.a_time(rng)
    if rng.random() < 0.3:
        t = Twin(c, lambda: A.EfiTime(time=when))
        for _ in range(rng.randint(2, 6)):
            k = rng.randrange(4)
            if k == 0:
                t.op("PopulateFromFileStream", "decode", source(rng, P26.time_bytes(P26.a_time(rng))))
            elif k == 1:
                t.op("Encode", "encode")
            elif k == 2:
                t.op("Write", "write", sink(rng))
            else:
                t.op("Print", "print", lambda: io.StringIO())
        c.key(when, t.log)
        return
    payload = lambda: rng.choice([b"", rng.randbytes(20), S.db_bytes(S.gen_db(rng, 2))])
    blob = lambda: P26.time_bytes(P26.a_time(rng)) + rng.choice([pkcs1_bytes, guid_bytes])(rng) + payload()
    first = P26.time_bytes(when) + rng.choice([pkcs1_bytes(rng), guid_bytes(rng, True)]) + payload()
    made = rng.random() < 0.4
    t = Twin(c, lambda: A.EfiVariableAuthentication2(time=when) if made else A.EfiVariableAuthentication2(decodefs=io.BytesIO(first)))
    if rng.random() < 0.5:
        t.old = A.EFiVariableAuthentication2(time=when) if made else A.EFiVariableAuthentication2(decodefs=io.BytesIO(first))
        c.expect(isinstance(t.old, A.EfiVariableAuthentication2), "old-class:not-a-variable")
        c.equal(state(t.old), state(t.new), "old-class:state")
    for _ in range(rng.randint(2, 7)):
        k = rng.randrange(5)
        if k == 0:
            t.op("PopulateFromFileStream", "decode", source(rng, blob()))
        elif k == 1:
            t.op("SetPayload", "set_payload", source(rng, payload()))
        elif k == 2:
            t.op("Write", "write", sink(rng))
        elif k == 3:
            t.op("Print", "print", outfs=lambda: io.StringIO())
        elif rng.random() < 0.5:
            t.op("Encode", "encode")
        else:
            # the old name takes a stream too
            out = io.BytesIO()
            x = c.call(t.old.Encode, out)
            y = c.call(t.new.encode)
            c.equal((x.ok, show(x.value)), (y.ok, show(y.value)), "Encode-to-stream:result", log=t.log)
            if x.ok:
                c.equal(out.getvalue(), bytes(y.value), "Encode-to-stream:stream", log=t.log)
    c.key(first, t.log)


@ck.family("paths", 250, 1500)
def paths(c):
    """A parser told its root and package paths one by one finds and parses the same as with a path object."""
    rng = c.rng
    pps = rng.sample(["pp", "more/pp2", "a b"], rng.randint(0, 3))
    files = []
    for d in ["", "pp", "more/pp2", "a b"]:
        for n in rng.sample(["P1/x.inc", "P2/sub/y.inc", "P1/m.inf"], rng.randint(1, 3)):
            body = f"  DEFINE V = {d or 'root'}\n" if n.endswith("inc") else f"[Defines]\n  BASE_NAME = {(d or 'root').replace('/', '_').replace(' ', '')}\n"
            c.write(os.path.join(d, n), body)
            files.append(n)
    inc = rng.choice(["P1/x.inc", "P2/sub/y.inc"])
    c.write("P1/p.dsc", "[Defines]\n  PLATFORM_NAME = A\n" + (f"  !include {inc}\n" if inc in files else "") + "  OUTPUT_DIRECTORY = $(V)\n[Components]\n  P1/m.inf\n")
    absolute = rng.random() < 0.5
    given = [os.path.join(c.tmp, p) for p in pps] if absolute else list(pps)
    cls = rng.choice([DscParser, InfParser])
    a, b = cls(), cls()
    b.SetEdk2Path(Edk2Path(c.tmp, given, error_on_invalid_pp=False))
    r = c.must("SetBaseAbsPath", a.SetBaseAbsPath, c.tmp)
    c.expect(r is a, "SetBaseAbsPath:not-chainable")
    r = c.must("SetPackagePaths", a.SetPackagePaths, *([given] if given or rng.random() < 0.5 else []))
    c.expect(r is a, "SetPackagePaths:not-chainable")
    c.key(pps, inc, cls.__name__, absolute, sorted(files))
    c.event("paths")
    c.equal(os.path.normcase(a.RootPath), os.path.normcase(b.RootPath), "paths:root")
    target = os.path.join(c.tmp, "P1/p.dsc" if cls is DscParser else "P1/q.inf")
    if cls is InfParser:
        c.write("P1/q.inf", "[Defines]\n  BASE_NAME = Q\n[Sources]\n  a.c\n[Packages]\n  P1/P1.dec\n[LibraryClasses]\n  L\n")
    for p in (a, b):
        p.TargetFilePath = target
    for n in ["P1/x.inc", "P2/sub/y.inc", "P1/m.inf", "nowhere/z.inc", os.path.join(c.tmp, "P1/m.inf")]:
        x, y = c.call(a.FindPath, n), c.call(b.FindPath, n)
        c.equal((x.ok, x.value), (y.ok, y.value), "paths:FindPath", file=n, paths=given)
    x, y = c.call(a.ParseFile, target), c.call(b.ParseFile, target)
    c.equal((x.ok, type(x.exc)), (y.ok, type(y.exc)), "paths:parse", old=repr(x), new=repr(y))
    c.equal(a.LocalVars, b.LocalVars, "paths:variables")
    if cls is DscParser:
        c.equal((a.ThreeMods, a.SixMods, a.OtherMods, a.Libs), (b.ThreeMods, b.SixMods, b.OtherMods, b.Libs), "paths:modules")
    c.event("pair")


if __name__ == "__main__":
    sys.exit(ck.main())
