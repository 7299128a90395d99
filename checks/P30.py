"""P30: variable policy entries decode to what was encoded, and inconsistent ones are refused."""
import struct
import sys
import uuid

from vh import Check, mute_logging

mute_logging()
from edk2toollib.uefi.edk2.variable_policy import VariableLockOnVarStatePolicy, VariablePolicyEntry

ck = Check("P30", ["edk2toollib/uefi/edk2/variable_policy.py"], rule="a case is one table of policy entries, or one damaged entry; distinct by its bytes; non-trivial when a name or lock policy is present",
           min_events={"entry": 800, "var_state": 150, "damaged": 800, "refused": 500, "accepted_damaged": 20, "reused": 300, "remainder": 200})
ATTR = [(1, "NON_VOLATILE"), (2, "BOOTSERVICE_ACCESS"), (4, "RUNTIME_ACCESS"), (8, "HARDWARE_ERROR_RECORD"), (0x10, "AUTHENTICATED_WRITE_ACCESS"),
        (0x20, "TIME_BASED_AUTHENTICATED_WRITE_ACCESS"), (0x40, "APPEND_WRITE")]
LOCKS = ["NONE", "NOW", "ON_CREATE", "ON_VAR_STATE"]
CHARS = ["a", "Z", "9", "#", " ", "_", ",", "é", "漢", "Ā", "\uFEFF", "\uFFFE", "\U0001F511", "\u0001", "\u4100"]


def gen_name(rng):
    if rng.random() < 0.3:
        return rng.choice(["Boot####", "PK", "\uFEFFx", "\uFEFF", "\uFFFEab", "Ā", "SecureBoot"])
    return "".join(rng.choice(CHARS) for _ in range(rng.choice([1, 1, 2, 3, 8, 40, 40, 300])))


def gen_guid(rng):
    return rng.choice([uuid.UUID(int=rng.getrandbits(128)), uuid.UUID(int=0), uuid.UUID(int=2**128 - 1)])


def gen_entry(rng):
    e = dict(ns=gen_guid(rng), name=gen_name(rng) if rng.random() < 0.8 else None, min=rng.choice([0, 1, rng.getrandbits(32)]), max=rng.choice([0xFFFFFFFF, 0, rng.getrandbits(32)]),
             must=rng.choice([0, 7, rng.getrandbits(7)]), cant=rng.choice([0, 0x40, rng.getrandbits(7)]), lock=rng.randrange(4), res=rng.choice([bytes(3), b"\xaf\xaf\xaf"]))
    if e["lock"] == 3:
        e.update(lns=gen_guid(rng), lval=rng.choice([0, 1, 255, rng.getrandbits(8)]), lname=gen_name(rng), lres=rng.choice([0, 0xAF]))
    return e


def enc(e):
    pol = b""
    if e["lock"] == 3:
        pol = e["lns"].bytes_le + bytes([e["lval"], e["lres"]]) + (e["lname"] + "\0").encode("utf-16-le")
    name = b"" if e["name"] is None else (e["name"] + "\0").encode("utf-16-le")
    return struct.pack("<IHH16sIIIIB3s", 0x10000, 44 + len(pol) + len(name), 44 + len(pol), e["ns"].bytes_le, e["min"], e["max"], e["must"], e["cant"], e["lock"], e["res"]) + pol + name


def names(n):
    return sorted("EFI_VARIABLE_" + x for b, x in ATTR if n & b)


def compare(c, p, e, how):
    for got, want, what in ((p.Version, 0x10000, "version"), (p.Namespace, e["ns"], "namespace"), (p.Name, e["name"], "name"), (p.MinSize, e["min"], "min"), (p.MaxSize, e["max"], "max"),
                            (p.AttributesMustHave, e["must"], "must"), (p.AttributesCantHave, e["cant"], "cant"), (p.LockPolicyType, e["lock"], "lock")):
        c.equal(got, want, f"{how}:{what}", entry=str(e))
    raw = enc(e)
    c.equal((p.Size, p.OffsetToName), struct.unpack_from("<HH", raw, 4), f"{how}:sizes")
    if e["lock"] == 3:
        if c.expect(p.LockPolicy is not None, f"{how}:lock-policy-missing", entry=str(e)):
            c.equal((p.LockPolicy.Namespace, p.LockPolicy.Value, p.LockPolicy.Name), (e["lns"], e["lval"], e["lname"]), f"{how}:lock-policy", entry=str(e))
            c.event("var_state")
    else:
        c.equal(p.LockPolicy, None, f"{how}:stale-lock-policy", entry=str(e))
    # CSV
    head = VariablePolicyEntry.csv_header()
    for xref in (None, {}, {e["ns"]: "gNamed", e.get("lns", uuid.UUID(int=5)): "gOther"}):
        row = c.must(f"{how}:csv-row", p.csv_row, xref) if xref is not None else c.must(f"{how}:csv-row", p.csv_row)
        if not c.equal(len(row), len(head), f"{how}:csv-columns"):
            continue
        d = dict(zip(head, row))
        x = xref or {}
        want = {"Namespace": x.get(e["ns"], e["ns"]), "Name": e["name"], "LockPolicyType": LOCKS[e["lock"]], "MinSize": "0x%08X" % e["min"], "MaxSize": "0x%08X" % e["max"]}
        if e["lock"] == 3:
            want.update(VarStateNamespace=x.get(e["lns"], e["lns"]), VarStateName=e["lname"], VarStateValue=e["lval"])
        else:
            want.update(VarStateNamespace="N/A", VarStateName="N/A", VarStateValue="N/A")
        for k, v in want.items():
            c.equal(d[k], v, f"{how}:csv:{k}", entry=str(e))
        for k, n in (("AttributesMustHave", e["must"]), ("AttributesCantHave", e["cant"])):
            c.equal(sorted(filter(None, d[k].split(","))), names(n), f"{how}:csv:{k}", number=n)
    # text
    t = c.must(f"{how}:text", str, p)
    c.expect(str(e["ns"]) in t and str(e["name"]) in t, f"{how}:text-name", text=t)
    for label, n in (("Min", e["min"]), ("Max", e["max"]), ("Must", e["must"]), ("Cant", e["cant"])):
        c.expect("%s = 0x%08X" % (label, n) in t, f"{how}:text-{label}", text=t)
    if e["lock"] == 3:
        c.expect(str(e["lns"]) in t and e["lname"] in t and str(e["lval"]) in t, f"{how}:text-lock", text=t)
    else:
        c.expect(LOCKS[e["lock"]] in t.replace("\t", " ").split("Min =")[0].split(), f"{how}:text-lock", text=t)
    c.event("entry")


@ck.family("tables", 1200, 9000)
def tables(c):
    """Several entries one after the other, read with what decode leaves over, with new or used objects."""
    rng = c.rng
    es = [gen_entry(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
    tail = rng.choice([b"", b"1", b"123", rng.randbytes(rng.randrange(60))])
    buf = b"".join(enc(e) for e in es) + tail
    c.key(buf, nontrivial=any(e["name"] for e in es))
    kind = rng.choice([bytes, bytes, bytearray])
    buf = kind(buf)
    used = VariablePolicyEntry()
    reuse = rng.random() < 0.5
    for i, e in enumerate(es):
        p = used if reuse else VariablePolicyEntry()
        c.event("reused", int(reuse and i > 0))
        before = bytes(buf)
        buf = c.must("table:decode", p.decode, buf)
        c.equal(bytes(buf), before[len(enc(e)):], "table:remainder", entry=str(e))
        c.event("remainder", int(len(buf) > 0))
        compare(c, p, e, "reused" if reuse and i else "table")
    c.equal(bytes(buf), tail, "table:tail")


@ck.family("var_state", 300, 6000)
def var_state(c):
    """The lock-on-variable-state structure alone; its end is the first NUL character."""
    rng = c.rng
    g, v, n = gen_guid(rng), rng.getrandbits(8), gen_name(rng)
    tail = rng.choice([b"", b"\0", b"1", b"123", b"\0\0", rng.randbytes(9)])
    raw = g.bytes_le + bytes([v, rng.choice([0, 0xAF])]) + (n + "\0").encode("utf-16-le") + tail
    c.key(raw)
    p = VariableLockOnVarStatePolicy()
    left = c.must("lock:decode", p.decode, raw)
    c.equal(bytes(left), tail, "lock:remainder")
    c.equal((p.Namespace, p.Value, p.Name), (g, v, n), "lock:fields")
    t = str(p)
    c.expect(str(g) in t and str(v) in t and n in t, "lock:text", text=t)
    c.event("var_state")
    cut = rng.randrange(len(raw) - len(tail))
    c.must_raise("lock:cut-accepted", ValueError, VariableLockOnVarStatePolicy().decode, raw[:cut])
    c.event("refused")


def strict(b):
    """Whether the bytes start with a consistent entry; None = no opinion."""
    if len(b) < 44:
        return False
    ver, size, off = struct.unpack_from("<IHH", b)
    lock = b[40]
    if ver != 0x10000 or lock > 3 or size > len(b) or not 44 <= off <= size:
        return False
    name = b[off:size]
    ok = True
    if name:
        if len(name) % 2 or name[-2:] != b"\0\0":
            return False
        try:
            t = name.decode("utf-16-le")
        except UnicodeDecodeError:
            return False
        if "\0" in t[:-1]:
            ok = None  # more than one terminator
    if lock == 3:
        pol = b[44:off]
        if len(pol) < 18:
            return False
        s = pol[18:]
        ends = [i for i in range(0, len(s) - 1, 2) if s[i:i + 2] == b"\0\0"]
        if not ends:
            return False
        try:
            s[:ends[0]].decode("utf-16-le")
        except UnicodeDecodeError:
            return False
        if ends[0] == 0 or ends[0] + 2 != len(s):
            ok = None  # an empty name or a gap after it
    elif off != 44:
        ok = None  # a gap where no policy belongs
    return ok


@ck.family("damaged", 1000, 40000)
def damaged(c):
    """Cut entries, changed versions, lock types, sizes and offsets, missing terminators."""
    rng = c.rng
    e = gen_entry(rng)
    raw = bytearray(enc(e))
    k = rng.choice(["cut", "version", "lock", "size", "offset", "both", "terminator", "byte", "nul"])
    if k == "cut":
        raw = raw[:rng.randrange(len(raw))]
    elif k == "version":
        struct.pack_into("<I", raw, 0, rng.choice([0, 1, 0x10001, 0x20000, 0x100, 0xFFFFFFFF]))
    elif k == "lock":
        raw[40] = rng.choice([4, 5, 128, 255, 3, 0])
    elif k == "size":
        n = len(raw)
        struct.pack_into("<H", raw, 4, rng.choice([0, 1, 43, 44, n + 1, n + 2, 0xFFFF, n - 1, n - 2, struct.unpack_from("<H", raw, 6)[0] - 1]))
        raw += rng.randbytes(rng.choice([0, 0, 1, 2]))
    elif k == "offset":
        n = len(raw)
        struct.pack_into("<H", raw, 6, rng.choice([0, 1, 42, 43, 44, 45, 46, n, n + 1, n + 2, 0xFFFF, n - 1, n - 2]))
    elif k == "both":
        a = rng.choice([0, 20, 43, 44, 46, len(raw) + 2])
        struct.pack_into("<HH", raw, 4, a, rng.choice([a, a + 2, 0]))
    elif k == "terminator":
        raw[-2:] = rng.choice([b"a\0", b"\0a", b"\xff\xff"])
    elif k == "nul":
        i = rng.randrange(44, len(raw) + 1)
        raw[i:i] = b"\0"
    else:
        raw[rng.choice([rng.randrange(len(raw)), rng.randrange(8), 40])] ^= 1 << rng.randrange(8)
    raw = bytes(raw)
    c.key(raw)
    c.event("damaged")
    ok = strict(raw)
    p = VariablePolicyEntry()
    o = c.call(p.decode, raw)
    c.expect(not o.hang, "damaged:no-termination", kind=k, raw=raw.hex())
    if ok is False:
        c.expect(isinstance(o.exc, ValueError), "damaged:accepted-or-wrong-error", kind=k, raw=raw.hex(), outcome=repr(o))
        c.event("refused")
    elif ok is True and c.expect(o.ok, "damaged:consistent-refused", kind=k, raw=raw.hex(), outcome=repr(o)):
        size, off = struct.unpack_from("<HH", raw, 4)
        f = struct.unpack_from("<16sIIIIB", raw, 8)
        c.equal((p.Namespace.bytes_le, p.MinSize, p.MaxSize, p.AttributesMustHave, p.AttributesCantHave, p.LockPolicyType), f, "damaged:fields", raw=raw.hex())
        c.equal(p.Name, raw[off:size].decode("utf-16-le")[:-1] if size > off else None, "damaged:name", raw=raw.hex())
        c.equal(bytes(o.value), raw[size:], "damaged:remainder", raw=raw.hex())
        c.event("accepted_damaged")
    elif ok is None:
        c.expect(o.ok or isinstance(o.exc, ValueError), "damaged:other-error", kind=k, raw=raw.hex(), outcome=repr(o))


sys.exit(ck.main())
