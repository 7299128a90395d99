"""P27: variable attributes mean the same as number, text and bytes."""
import io
import itertools
import struct
import sys

from vh import Check, mute_logging

mute_logging()
from edk2toollib.uefi import uefi_multi_phase as U

E = U.EfiVariableAttributes
ck = Check("P27", ["edk2toollib/uefi/uefi_multi_phase.py"], rule="a case is one attribute set in all its spellings, or one text or number that is no attribute set; distinct by the set and spelling; non-trivial when attributes are set",
           min_events={"set": 128, "spelling": 4000, "number": 500, "refused_text": 500, "refused_number": 50})
# UEFI 2.10, 8.2 (GetVariable)
ATTR = [("EFI_VARIABLE_NON_VOLATILE", "NV", 1), ("EFI_VARIABLE_BOOTSERVICE_ACCESS", "BS", 2), ("EFI_VARIABLE_RUNTIME_ACCESS", "RT", 4),
        ("EFI_VARIABLE_HARDWARE_ERROR_RECORD", "HW", 8), ("EFI_VARIABLE_AUTHENTICATED_WRITE_ACCESS", "AW", 0x10),
        ("EFI_VARIABLE_TIME_BASED_AUTHENTICATED_WRITE_ACCESS", "AT", 0x20), ("EFI_VARIABLE_APPEND_WRITE", "AP", 0x40)]


def forms(c, a, n, how):
    """Every form of an object that stands for the set n."""
    mine = [x for x in ATTR if n & x[2]]
    c.equal(int(a), n, f"{how}:int", n=n)
    c.equal(a.attributes, n, f"{how}:attributes", n=n)
    c.equal(a.encode(), struct.pack("<I", n), f"{how}:bytes", n=n)
    c.equal(sorted(filter(None, str(a).split(","))), sorted(x[0] for x in mine), f"{how}:names", n=n)
    c.equal(sorted(filter(None, a.get_short_string().split(","))), sorted(x[1] for x in mine), f"{how}:short-names", n=n)


@ck.family("sets", 128, 128)
def sets(c):
    """All 128 sets, every round trip."""
    n = c.index
    c.key(n, nontrivial=n > 0)
    a = E(n)
    forms(c, a, n, "number")
    for text in (str(a), a.get_short_string()):
        b = c.must("text:own-text-refused", E, text)
        forms(c, b, n, "own-text")
        c.equal(E.parse_attributes_str(text), n, "parse:own-text", text=text)
    pre = c.rng.randbytes(c.rng.choice([0, 3]))
    fs = io.BytesIO(pre + a.encode() + b"tail")
    fs.seek(len(pre))
    b = E(decodefs=fs)
    forms(c, b, n, "bytes")
    c.equal(fs.tell(), len(pre) + 4, "bytes:consumed")
    fs.seek(len(pre))
    d = E(c.rng.randrange(128))
    c.equal(d.decode(fs), n, "decode:result")
    forms(c, d, n, "decode")
    m = c.rng.randrange(128)
    d.update(m)
    forms(c, d, m, "update")
    c.must("update:no-attributes", d.update)
    forms(c, d, 0, "update-without-attributes")
    d.update(str(a))
    forms(c, d, n, "update-text")
    forms(c, E() if n == 0 else E(n), n, "default")
    c.event("set")


@ck.family("spelling", 1500, 40000)
def spelling(c):
    """Any order, case, spaces, mixture of long and short names and repetition."""
    rng = c.rng
    mine = rng.sample(ATTR, rng.randint(1, 7))
    words = [rng.choice(x[:2]) for x in mine]
    if rng.random() < 0.3:
        words += [rng.choice(rng.choice(mine)[:2])]
        rng.shuffle(words)
    words = [rng.choice([w, w.lower(), "".join(rng.choice([ch.lower(), ch]) for ch in w)]) for w in words]
    text = ",".join(" " * rng.choice([0, 0, 1, 3]) + w + " " * rng.choice([0, 0, 1, 2]) for w in words)
    n = 0
    for x in mine:
        n |= x[2]
    c.key(text)
    a = c.must("spelling:refused", E, text)
    forms(c, a, n, "spelling")
    c.equal(E.parse_attributes_str(text), n, "spelling:parse", text=text)
    b = E(rng.randrange(128))
    b.update(text)
    forms(c, b, n, "spelling-update")
    c.event("spelling", 3)


@ck.family("numbers", 600, 10000)
def numbers(c):
    """Any 32-bit value keeps its bits; one that does not fit is refused at the latest when it is written."""
    rng = c.rng
    n = rng.choice([rng.getrandbits(32), 1 << rng.randrange(32), 0xFFFFFFFF, 0x80, 0x7F])
    c.key(n)
    a = E(n)
    c.equal((int(a), a.encode()), (n, struct.pack("<I", n)), "number:kept")
    c.equal(int(E(decodefs=io.BytesIO(struct.pack("<I", n)))), n, "number:decoded")
    c.equal(sorted(filter(None, str(a).split(","))), sorted(x[0] for x in ATTR if n & x[2]), "number:names")
    c.event("number")
    bad = rng.choice([-1, -rng.getrandbits(31) - 1, 1 << 32, (1 << 32) + rng.getrandbits(32), 1 << 64])
    c.must_raise("number:unrepresentable", Exception, lambda: E(bad).encode())
    c.event("refused_number")
    a = E(5)
    c.must_raise("type:accepted", TypeError, a.update, rng.choice([None, 1.5, b"NV", ["NV"], ("NV",)]))
    c.equal(int(a), 5, "type:refused-but-changed")
    b = rng.randbytes(rng.randrange(4))
    c.must_raise("bytes:truncated", Exception, a.decode, io.BytesIO(b))
    c.equal(int(a), 5, "bytes:refused-but-changed")


BADWORDS = ["XX", "N", "NVS", "VN", "EFI_VARIABLE_", "EFI_VARIABLE_NON_VOLATIL", "NON_VOLATILE", "EFI_VARIABLE_NV", "0x1", "1", "NV|BS", "NV;BS", "NV+BS", "None", "EFI_VARIABLE_ENHANCED", "*", "\u00a0NV", "ＮＶ", "N\0V"]


@ck.family("unknown", 700, 15000)
def unknown(c):
    """One unknown name among known ones and the whole is refused, the object keeps its value."""
    rng = c.rng
    words = [rng.choice(x[:2]) for x in rng.sample(ATTR, rng.randint(0, 4))]
    bad = rng.choice(BADWORDS) if rng.random() < 0.7 else "".join(rng.choice("ABNVSRTWHP_") for _ in range(rng.randint(3, 9)))
    words.insert(rng.randint(0, len(words)), bad)
    text = ",".join(words)
    c.key(text)
    a = E(rng.randrange(128))
    n = int(a)
    c.must_raise("unknown-name", ValueError, a.update, text)
    c.equal(int(a), n, "unknown-name:refused-but-changed", text=text)
    c.must_raise("unknown-name", ValueError, E, text)
    c.must_raise("unknown-name", ValueError, E.parse_attributes_str, text)
    c.event("refused_text")


sys.exit(ck.main())
