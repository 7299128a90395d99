"""P38: firmware policy blobs round trip and keep every rule once."""
import io
import struct
import sys
import uuid

from vh import Abort, Check, mute_logging, quiet

mute_logging()
from edk2toollib.windows.policy import firmware_policy as F

ck = Check("P38", ["edk2toollib/windows/policy/firmware_policy.py"],
           rule="a case is one policy (built or read) with its history of additions, its stream position and its damage; distinct by content; non-trivial with two or more rules",
           min_events={"policy": 500, "rule": 2000, "duplicate_refused": 400, "near_duplicate": 400, "shared_offset": 300, "read_by_offset": 300, "read_at_position": 300, "non_bmp": 100, "read_again": 300, "empty_string": 100, "damaged": 600, "damage_rejected": 300, "constant": 20})
PUB = uuid.UUID("5AE6F808-8384-4EB9-A23A-0CCC1093E3DD")
STR, DW, QW = 0, 2, 5
REFUSED = (Exception,)


class Bad(Exception):
    pass


def text(rng):
    k = rng.random()
    if k < 0.1:
        return ""
    if k < 0.2:
        return "".join(rng.choice("\U0001F600\U00010000\U0010FFFFa￿") for _ in range(rng.randrange(1, 6)))
    if k < 0.3:
        return "".join(chr(rng.choice([rng.randrange(1, 0xD800), rng.randrange(0xE000, 0x10000)])) for _ in range(rng.randrange(1, 12)))
    if k < 0.35:
        return "x" * rng.choice([127, 128, 255, 1000, 32767])
    if k < 0.4:
        return rng.choice(["a\0b", "\0", "Target\0", "0"])
    return rng.choice(["UEFI", "Target", "Policy", "Manufacturer", "Product", "SerialNumber", "Nonce", "uefi", "OEM_01", "".join(rng.choice("abcXYZ _-.,") for _ in range(rng.randrange(1, 30)))])


def value(rng):
    t = rng.choice([STR, STR, DW, QW])
    if t == STR:
        return t, text(rng)
    n = 32 if t == DW else 64
    return t, rng.choice([0, 1, (1 << n) - 1, 1 << (n - 1), rng.getrandbits(n), 0xFFFFFFFF, 42])


def gen_rule(rng):
    return rng.choice([0xEF100000, 0x81000000, 0, 0xFFFFFFFF, rng.getrandbits(32)]), text(rng), text(rng), value(rng)


def make(c, r):
    root, sub, name, (t, v) = r
    val = c.must("value", F.PolicyValue, F.PolicyValueType(t), F.PolicyString(v) if t == STR else v)
    return c.must("rule", F.Rule, root, F.PolicyString(sub), F.PolicyString(name), val)


def seen(rule):
    v = rule.Value
    t = v.valueType.vt
    return rule.RootKey, rule.SubKeyName.String, rule.ValueName.String, (t, v.value.String if t == STR else v.value)


def u16s(s):
    b = s.encode("utf-16-le")
    return struct.pack("<H", len(b)) + b


def rd_string(vt, o):
    if o + 2 > len(vt):
        raise Bad("string size")
    n = struct.unpack_from("<H", vt, o)[0]
    if o + 2 + n > len(vt) or n % 2:
        raise Bad("string")
    try:
        return vt[o + 2 : o + 2 + n].decode("utf-16-le"), o + 2 + n
    except UnicodeDecodeError:
        raise Bad("utf16")


def read(b):
    """Independent strict reader; returns header, rules, end of the last value-table byte in use, flags of value strings with NUL."""
    if len(b) < 32:
        raise Bad("small")
    fv, pv, pub, r1, opt, r2, n = struct.unpack("<HI16sHIHH", b[:32]) if struct.unpack_from("<H", b, 22)[0] == 0 else (None,) * 7
    if fv is None:
        r1 = struct.unpack_from("<H", b, 22)[0]
        fv, pv, pub = struct.unpack_from("<HI16s", b, 0)
        o = 24 + 16 * r1
        if o + 8 > len(b):
            raise Bad("reserved1")
        opt, r2, n = struct.unpack_from("<IHH", b, o)
        o += 8
    else:
        o = 32
    if fv > 2:
        raise Bad("version")
    vto = o + 12 * r2 + 16 * n
    if vto > len(b):
        raise Bad("tables")
    vt = b[vto:]
    rules, used, nul = [], 0, []
    for i in range(n):
        root, a, bb, v = struct.unpack_from("<IIII", b, o + 12 * r2 + 16 * i)
        sub, e1 = rd_string(vt, a)
        name, e2 = rd_string(vt, bb)
        if v + 2 > len(vt):
            raise Bad("value type")
        t = struct.unpack_from("<H", vt, v)[0]
        if t == STR:
            val, e3 = rd_string(vt, v + 2)
            nul.append(vt[e3 : e3 + 2] == b"\0\0")
        elif t in (DW, QW):
            w = 4 if t == DW else 8
            if v + 2 + w > len(vt):
                raise Bad("value")
            val, e3 = int.from_bytes(vt[v + 2 : v + 2 + w], "little"), v + 2 + w
        else:
            return None  # a value type outside the documented ones: no opinion
        used = max(used, e1, e2, e3)
        rules.append((root, sub, name, (t, val)))
    return dict(fv=fv, pv=pv, pub=uuid.UUID(bytes_le=bytes(pub)), r1=r1, opt=opt, r2=r2, n=n, rules=rules, res1=[uuid.UUID(bytes_le=bytes(b[24 + 16 * i:40 + 16 * i])) for i in range(r1)], res2=[struct.unpack_from("<III", b, o + 12 * i) for i in range(r2)], end=vto + used, vto=vto, nul=nul)


def load(c, blob, by_bytes, prefix=b"", via_init=False, into=None):
    fs = io.BytesIO(prefix + blob)
    fs.seek(len(prefix))
    with quiet():
        if via_init:
            return c.call(F.FirmwarePolicy, fs)
        p = into or F.FirmwarePolicy()
        o = c.call(p.FromFileStream, fs, by_bytes)
    if o.ok:
        o.value = p
    return o


def check_read(c, p, want, mech, **d):
    c.equal((p.FormatVersion, p.PolicyVersion, uuid.UUID(str(p.PolicyPublisher)), p.OptionFlags), (want["fv"], want["pv"], want["pub"], want["opt"]), mech + ":header", **d)
    c.equal((p.RulesCount, p.Reserved2Count, len(p.Rules), len(p.Reserved2)), (want["n"], want["r2"], want["n"], want["r2"]), mech + ":counts", **d)
    c.equal([seen(r) for r in p.Rules], want["rules"], mech + ":rules", **d)
    c.equal((p.Reserved1Count, [uuid.UUID(str(x)) for x in p.Reserved1]), (want["r1"], want["res1"]), mech + ":reserved1", **d)
    c.equal([(x.ObjectType, x.Element, x.OffsetToValue) for x in p.Reserved2], want["res2"], mech + ":reserved2", **d)


@ck.family("built", 3000, 30000)
def built(c):
    """A history of additions, then serialise, decode independently and read back in every way."""
    rng = c.rng
    p = F.FirmwarePolicy()
    model, hist = [], []
    many = rng.random() < 0.02
    if many:
        c.event("many_rules")
    for _ in range(rng.choice([90, 330]) if many else rng.choice([0, 1, 2, 3, 5, 9, 20])):
        k = rng.choice(["new", "new", "new", "dup", "near", "policy", "target"])
        if k == "policy":
            v = rng.choice([0, 1, 3, 1 << 63, rng.getrandbits(64)])
            c.must("SetDevicePolicy", p.SetDevicePolicy, v)
            rs = [(0xEF100000, "UEFI", "Policy", (QW, v))]
        elif k == "target":
            d = {n: text(rng) for n in rng.sample(["Manufacturer", "Product", "SerialNumber", "OEM_01", "OEM_02", "x", "nonce", "NONCE", "Nonce_", ""], rng.randrange(5))}
            if rng.random() < 0.5:
                d["Nonce"] = rng.getrandbits(64)
            c.must("SetDeviceTarget", p.SetDeviceTarget, d)
            rs = [(0xEF100000, "Target", n, (QW if n == "Nonce" else STR, v)) for n, v in d.items()]
        else:
            if k == "new" or not model:
                r = gen_rule(rng)
            else:
                r = rng.choice(model)
                if k == "near":
                    root, sub, name, (t, v) = r
                    j = rng.randrange(6) if len(sub) < 32000 else 2
                    r = (root ^ 1, sub, name, (t, v)) if j == 0 else (root, sub + "_", name, (t, v)) if j == 1 else (root, sub, name[:-1] if name else "n", (t, v)) if j == 2 else (root, sub.swapcase() if j == 4 and len(sub.swapcase()) < 32768 else sub, name.swapcase() if len(name.swapcase()) < 32768 else name, (t, v)) if j > 3 else (root, sub, name, value(rng))
                    c.event("near_duplicate")
            rs = [r]
            before = [seen(x) for x in p.Rules]
            got = c.must("AddRule", p.AddRule, make(c, r))
            c.equal(got, r not in model, "AddRule:verdict", rule=repr(r), known=repr(model)[:500])
            if r in model:
                c.event("duplicate_refused")
                c.equal([seen(x) for x in p.Rules], before, "AddRule:refused-rule-changed-policy")
        for r in rs:
            if r not in model:
                model.append(r)
        hist.append(k)
        c.equal((p.RulesCount, len(p.Rules)), (len(model), len(model)), "built:count", history=hist)
        if rng.random() < 0.15:
            c.must("Serialize", p.Serialize, bytearray())
            hist.append("serialise")
    c.event("policy")
    c.event("rule", len(model))
    c.event("non_bmp", sum(any(ord(ch) > 0xFFFF for ch in r[1] + r[2] + str(r[3][1])) for r in model))
    c.event("empty_string", sum("" in (r[1], r[2], r[3][1]) for r in model))
    c.key(model, hist, nontrivial=len(model) > 1)
    c.note(rules=model[:6], history=hist)
    pre = bytearray(rng.randbytes(rng.choice([0, 0, 5, 64])))
    out = bytearray(pre)
    c.must("Serialize", p.Serialize, out)
    c.expect(out[: len(pre)] == pre, "Serialize:existing-bytes-changed")
    blob = bytes(out[len(pre):])
    if rng.random() < 0.4:
        there, tail = rng.randbytes(rng.choice([0, 0, 1, 30])), rng.choice([b"", b"t" * (len(blob) + 3)])
        s = io.BytesIO(there + tail)
        s.seek(len(there))
        c.must("SerializeToStream", p.SerializeToStream, s)
        c.equal(s.getvalue(), there + blob + tail[len(blob):], "Serialize:repeatable")
    try:
        r = read(blob)
    except Bad as e:
        c.violate("Serialize:unreadable", error=str(e), blob=blob.hex()[:400])
        return
    c.require(r is not None, "Serialize:value-type")
    c.equal((r["fv"], r["pv"], r["pub"], r["r1"], r["opt"], r["r2"], r["n"]), (2, 1, PUB, 0, 0, 0, len(model)), "Serialize:header")
    c.equal(r["rules"], model, "Serialize:rules")
    c.expect(all(r["nul"]), "Serialize:value-string-not-terminated")
    c.equal((p.ValueTableOffset, p.ValueTableSize), (r["vto"], len(blob) - r["vto"]), "Serialize:value-table-fields")
    prefix = rng.randbytes(rng.choice([0, 0, 1, 16, 33]))
    for by in (True, False):
        o = load(c, blob, by, prefix, via_init=by and rng.random() < 0.5)
        c.require(o.ok, "read:unexpected-error", outcome=repr(o), trace=o.tb, by_bytes=by)
        c.event("read_by_offset", int(not by))
        c.event("read_at_position", int(bool(prefix)))
        check_read(c, o.value, r, "read", by_bytes=by, prefix=len(prefix))
        c.expect(o.value.Rules == p.Rules, "read:rules-not-equal", by_bytes=by)
        again = bytearray()
        c.must("Serialize", o.value.Serialize, again)
        try:
            c.equal((read(bytes(again)) or {}).get("rules"), model, "reserialise:rules")
        except Bad as e:
            c.violate("reserialise:unreadable", error=str(e))
        # a rule read back is known to the policy
        if model:
            x = rng.choice(model)
            c.equal(c.must("AddRule", o.value.AddRule, make(c, x)), False, "AddRule:verdict-after-reading", rule=repr(x))
            c.event("duplicate_refused")


def gen_blob(c):
    """A blob of another producer: shared and reordered value table entries, gaps, reserved arrays, no terminators."""
    rng = c.rng
    rules = [gen_rule(rng) for _ in range(rng.choice([0, 1, 2, 3, 6, 15]))]
    if len(rules) > 1 and rng.random() < 0.6:
        a = rules[0]
        rules[1:] = [(r[0], a[1] if rng.random() < 0.5 else r[1], a[2] if rng.random() < 0.3 else r[2], a[3] if rng.random() < 0.3 else r[3]) for r in rules[1:]]
    share, shuffle = rng.random() < 0.6, rng.random() < 0.5
    ents = []
    for i, r in enumerate(rules):
        t, v = r[3]
        val = struct.pack("<H", t) + (u16s(v) + rng.choice([b"", b"\0\0"]) if t == STR else v.to_bytes(4 if t == DW else 8, "little"))
        ents += [((i, 0), u16s(r[1])), ((i, 1), u16s(r[2])), ((i, 2), val)]
    order = list(ents)
    if shuffle:
        rng.shuffle(order)
    vt, at, known = bytearray(), {}, {}
    if rng.random() < 0.3:
        vt += rng.randbytes(rng.randrange(1, 9))
    for k, b in order:
        if share and b in known:
            at[k] = known[b]
            c.event("shared_offset")
            continue
        if rng.random() < 0.1:
            vt += rng.randbytes(rng.randrange(1, 5))
        at[k] = known[b] = len(vt)
        vt += b
    r1 = rng.choice([0, 0, 0, 1, 3])
    r2 = rng.choice([0, 0, 0, 1, 4])
    b = struct.pack("<HI16sH", rng.choice([0, 1, 2, 2, 2]), rng.choice([1, rng.getrandbits(32)]), uuid.UUID(int=rng.getrandbits(128)).bytes_le, r1) + rng.randbytes(16 * r1)
    b += struct.pack("<IHH", rng.choice([0, rng.getrandbits(32)]), r2, len(rules)) + rng.randbytes(12 * r2)
    tables = len(b)
    for i, r in enumerate(rules):
        b += struct.pack("<IIII", r[0], at[i, 0], at[i, 1], at[i, 2])
    return b + bytes(vt), rules, tables


@ck.family("foreign", 2500, 30000)
def foreign(c):
    rng = c.rng
    blob, rules, _ = gen_blob(c)
    want = read(blob)
    assert want["rules"] == rules
    c.event("policy")
    c.event("rule", len(rules))
    c.event("non_bmp", sum(any(ord(ch) > 0xFFFF for ch in r[1] + r[2] + str(r[3][1])) for r in rules))
    c.key(blob, nontrivial=len(rules) > 1)
    prefix = rng.randbytes(rng.choice([0, 0, 1, 16, 33]))
    c.note(blob=blob.hex()[:600], prefix=len(prefix))
    for by in (True, False):
        o = load(c, blob, by, prefix, via_init=by and rng.random() < 0.5)
        c.require(o.ok, "read:unexpected-error", outcome=repr(o), trace=o.tb, by_bytes=by)
        c.event("read_by_offset", int(not by))
        c.event("read_at_position", int(bool(prefix)))
        check_read(c, o.value, want, "read", by_bytes=by, prefix=len(prefix))
        for a in range(len(rules)):
            for b in range(a, min(len(rules), a + 3)):
                c.equal(o.value.Rules[a] == o.value.Rules[b], rules[a] == rules[b], "rule:equality", a=repr(rules[a]), b=repr(rules[b]))
        if want["r1"] == 0:
            again = bytearray()
            with quiet():
                c.must("Serialize", o.value.Serialize, again)
            try:
                g = read(bytes(again))
                c.equal(g["res2"], want["res2"], "reserialise:reserved2")
                c.equal((g["rules"], g["fv"], g["pv"], g["pub"], g["opt"]), (rules, want["fv"], want["pv"], want["pub"], want["opt"]), "reserialise:rules")
            except Bad as e:
                c.violate("reserialise:unreadable", error=str(e))
        # the same object takes another blob, and what was read can be added to
        if rng.random() < 0.3:
            blob2, rules2, _ = gen_blob(c)
            want2 = read(blob2)
            o2 = load(c, blob2, by, prefix, into=o.value)
            c.require(o2.ok, "read-again:unexpected-error", outcome=repr(o2), trace=o2.tb, by_bytes=by)
            check_read(c, o.value, want2, "read-again", by_bytes=by)
            new = gen_rule(rng)
            c.equal(c.must("AddRule", o.value.AddRule, make(c, new)), new not in rules2, "AddRule:verdict-after-reading", rule=repr(new))
            if want2["r1"] == 0:
                again = bytearray()
                with quiet():
                    c.must("Serialize", o.value.Serialize, again)
                try:
                    c.equal(read(bytes(again))["rules"], rules2 + [new] * (new not in rules2), "extended:rules")
                except Bad as e:
                    c.violate("extended:unreadable", error=str(e))
            c.event("read_again")
            o = load(c, blob, by, prefix)
        for r, w in zip(o.value.Rules, rules):
            t, v = w[3]
            c.equal(r.Value == F.PolicyValue(F.PolicyValueType(t), F.PolicyString(v) if t == STR else v), True, "value:equality")
            c.equal(r.Value == F.PolicyValue(F.PolicyValueType(QW if t == DW else DW), F.PolicyString(v) if t == STR else v), False, "value:equality-ignores-type")


@ck.family("parts", 1500, 20000)
def parts(c):
    """The element readers, at an explicit offset (0 included) and at the current position."""
    rng = c.rng
    t, v = value(rng)
    s = text(rng)
    enc = struct.pack("<H", t) + (u16s(v) if t == STR else v.to_bytes(4 if t == DW else 8, "little"))
    for cls, raw, get, want in ((F.PolicyString, u16s(s), lambda x: x.String, s), (F.PolicyValue, enc, lambda x: (x.valueType.vt, x.value.String if t == STR else x.value), (t, v)), (F.PolicyValueType, struct.pack("<H", t), lambda x: x.vt, t)):
        off = rng.choice([0, 0, 1, 7])
        buf = rng.randbytes(off) + raw + rng.randbytes(rng.choice([0, 3]))
        c.equal(get(c.must("part:bytes", cls.FromBytes, buf, off)), want, f"part:bytes:{cls.__name__}", offset=off)
        fs = io.BytesIO(buf)
        fs.seek(rng.randrange(len(buf) + 1))
        c.equal(get(c.must("part:stream", cls.FromFileStream, fs, off)), want, f"part:stream-at-offset:{cls.__name__}", offset=off)
        c.equal(fs.tell(), off + len(raw), f"part:stream-position:{cls.__name__}")
        fs.seek(off)
        c.equal(get(c.must("part:stream", cls.FromFileStream, fs)), want, f"part:stream-here:{cls.__name__}", offset=off)
    c.key(t, v, s)


@ck.family("damaged", 5000, 60000)
def damaged(c):
    """Cut, enlarged counts, newer format, offsets out of the table: rejected unless the reading is unaffected."""
    rng = c.rng
    blob, rules, tables = gen_blob(c)
    b = bytearray(blob)
    k = rng.choice(["cut", "cut", "version", "count", "count2", "offset", "length", "short"])
    r1 = struct.unpack_from("<H", b, 22)[0]
    o = 24 + 16 * r1
    if k == "cut":
        b = b[: rng.randrange(len(b))]
    elif k == "short":
        b = b[: rng.randrange(33)]
    elif k == "version":
        struct.pack_into("<H", b, 0, rng.choice([3, 4, 0x100, 0x200, 0xFFFF, 0x8002]))
    elif k == "count":
        struct.pack_into("<H", b, o + 6, rng.choice([len(rules) + 1, 0xFFFF, len(rules) + rng.randrange(1, 300), max(0, len(rules) - 1)]))
    elif k == "count2":
        struct.pack_into("<H", b, o + 4, rng.choice([0, 1, 2, 0xFFFF, rng.randrange(300)]))
    elif rules:
        i = rng.randrange(len(rules))
        f = tables + 16 * i + 4 * rng.randrange(1, 4)
        vt = tables + 16 * len(rules)
        if k == "offset":
            struct.pack_into("<I", b, f, rng.choice([len(b) - vt, len(b) - vt - 1, len(b), 0xFFFFFFFF, 0x80000000, rng.randrange(len(b)), rng.getrandbits(32)]))
        else:
            at = vt + struct.unpack_from("<I", b, tables + 16 * i + 4 * rng.choice([1, 2]))[0]
            struct.pack_into("<H", b, at, min(0xFFFF, max(0, rng.choice([0xFFFF, 0xFFFE, 1, 3, len(b) - at, len(b) - at - 2, rng.randrange(0x10000)]))))
    b = bytes(b)
    try:
        want = read(b)
        if want is None:
            return
    except Bad as e:
        want = e
    c.event("damaged")
    c.key(k, b)
    c.note(damage=k, blob=b.hex()[:600], oracle=str(want)[:300])
    prefix = rng.randbytes(rng.choice([0, 0, 40]))
    for by in (True, False):
        o = load(c, b, by, prefix)
        if isinstance(want, Bad):
            c.event("damage_rejected")
            c.expect(not o.ok and not o.hang and isinstance(o.exc, Exception), f"damaged:{k}:accepted" if o.ok else f"damaged:{k}:no-termination", reason=str(want), by_bytes=by, outcome=repr(o))
        else:
            c.require(o.ok, f"damaged:{k}:readable-blob-refused", outcome=repr(o), trace=o.tb, by_bytes=by)
            check_read(c, o.value, want, f"damaged:{k}", by_bytes=by)


@ck.family("refused", 200, 10000)
def refused(c):
    """What the layout cannot hold is refused, not truncated."""
    rng = c.rng
    k = rng.choice(["dword", "qword", "text", "root", "none"])
    p = F.FirmwarePolicy()
    c.key(k, c.index % 40)
    if k == "none":
        c.must_raise("refuse:no-stream", REFUSED, p.FromFileStream, None)
        return
    r = {"dword": (1, "a", "b", (DW, rng.choice([1 << 32, -1, 1 << 63]))), "qword": (1, "a", "b", (QW, rng.choice([1 << 64, -1]))),
         "text": (1, "a" * rng.choice([32768, 65536]), "b", (DW, 1)), "root": (rng.choice([1 << 32, -1]), "a", "b", (DW, 1))}[k]
    if k == "text" and rng.random() < 0.5:
        r = (1, "a", "b", (STR, r[1]))

    def go():
        p.AddRule(make(c, r))
        out = bytearray()
        p.Serialize(out)
        return out
    c.must_raise(f"refuse:{k}", REFUSED, go)


CONSTANTS = {
    "PolicyValueType": dict(POLICY_VALUE_TYPE_STRING=0, POLICY_VALUE_TYPE_BOOL=1, POLICY_VALUE_TYPE_DWORD=2, POLICY_VALUE_TYPE_DWORD_RANGE=3, POLICY_VALUE_TYPE_DWORD_CHOICE=4,
                            POLICY_VALUE_TYPE_QWORD=5, POLICY_VALUE_TYPE_QWORD_RANGE=6, POLICY_VALUE_TYPE_QWORD_CHOICE=7, POLICY_VALUE_TYPE_OPTION=8, POLICY_VALUE_TYPE_MULTI_STRING=9, POLICY_VALUE_TYPE_BINARY=10),
    "FirmwarePolicy": dict(POLICY_BLOB_MIN_SIZE=32, POLICY_FORMAT_VERSION=2, POLICY_VERSION=1, POLICY_PUBLISHER=PUB, FW_POLICY_ROOT_KEY=0xEF100000,
                           FW_POLICY_SUB_KEY_NAME_TARGET="Target", FW_POLICY_SUB_KEY_NAME="UEFI", FW_POLICY_VALUE_NAME="Policy", FW_POLICY_TYPE=5,
                           FW_POLICY_VALUE_DEFINED_MASK=0xFFFFFFFF, FW_POLICY_VALUE_OEM_MASK=0xFFFFFFFF << 32,
                           FW_POLICY_VALUE_ACTIONS_MASK=0xFFFF | 0xFFFF << 32, FW_POLICY_VALUE_STATES_MASK=0xFFFF << 16 | 0xFFFF << 48,
                           FW_POLICY_VALUE_ACTION_SECUREBOOT_CLEAR=1, FW_POLICY_VALUE_ACTION_TPM_CLEAR=2, FW_POLICY_VALUE_STATE_TBD=1 << 16),
}
NAMED = [(k, n, v) for k, d in CONSTANTS.items() for n, v in d.items()]


@ck.family("constants", len(NAMED), len(NAMED))
def constants(c):
    """What a caller passes in by name is the number the layout gives to it."""
    k, n, v = NAMED[c.index]
    c.equal(getattr(getattr(F, k), n, None), v, "constant", name=f"{k}.{n}")
    c.event("constant")
    c.key(k, n)


if __name__ == "__main__":
    sys.exit(ck.main())
