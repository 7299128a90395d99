"""P36: status and response codes decode by the specification's bit layout."""
import sys

from vh import Check, mute_logging

mute_logging()
from edk2toollib.tpm import tpm2_defs as T
from edk2toollib.uefi.status_codes import UefiStatusCode

from tpmtables import CONSTANTS, COMMANDS, FORMAT_ONE, GENERIC, WARNINGS

ck = Check("P36", ["edk2toollib/uefi/status_codes.py", "edk2toollib/tpm/tpm2_defs.py"],
           rule="a case is one code (status in both widths, command, or response); distinct by its value; every 12-bit response code, every defined status and every defined command code is enumerated, the rest sampled; non-trivial when the code is defined",
           min_events={"status_error": 36, "status_warning": 8, "status_undefined": 200, "response": 3500, "response_named": 1000, "response_unnamed": 300, "command": 107, "command_unknown": 200})
# UEFI 2.10, appendix D
ERRORS = ["NOT VALID", "Load Error", "Invalid Parameter", "Unsupported", "Bad BufferSize", "Buffer Too Small", "Not Ready", "Device Error", "Write Protected", "Out of Resources", "Volume Corrupt", "Volume Full", "No Media",
          "Media Changed", "Not Found", "Access Denied", "No Response", "No Mapping", "Time Out", "Not Started", "Already Started", "Aborted", "ICMP Error", "TFTP Error", "Protocol Error", "Incompatible Error",
          "Security Violation", "CRC Error", "End of Media", "Reserved(29)", "Reserved(30)", "End of File", "Invalid Language", "Compromised Data", "IP Address Conflict", "HTTP Error"]
WARN = ["Success", "Unknown Glyph", "Delete Failure", "Write Failure", "Buffer Too Small", "Stale Data", "File System", "Reset Required"]
UNDEF = "Undefined StatusCode"


def hexes(rng, v, width):
    d = "%0*X" % (width // 4, v)
    return ["0x" + d, "0x" + d.lower(), hex(v), rng.choice(["0X" + d, d, "0x" + "%x" % v, "0x0000000" + d, "00" + d])]


@ck.family("status", 1500, 100000)
def status(c):
    rng, i = c.rng, c.index
    # the defined codes first, then their surroundings and random values
    error = i % 2 == 1
    table = ERRORS if error else WARN
    n = i // 2 if i < 100 else rng.choice([rng.randrange(64), len(table), len(table) + 1, 0x7FFFFFFF, 0x7FFFFFFE, 0x40000000, 1 << rng.randrange(31), rng.getrandbits(31)])
    want = table[n] if n < len(table) else UNDEF
    c.event("status_undefined" if want is UNDEF else "status_error" if error else "status_warning")
    c.key(error, n, nontrivial=want is not UNDEF)
    u = UefiStatusCode()
    v32, v64 = n | (error << 31), n | (error << 63)
    c.note(v32=hex(v32), want=want)
    c.equal(c.must("status:32", u.Convert32BitToString, v32), want, "status:32", code=hex(v32))
    c.equal(c.must("status:64", u.Convert64BitToString, v64), want, "status:64", code=hex(v64))
    for h in hexes(rng, v32, 32):
        c.equal(c.must("status:hex32", u.ConvertHexString32ToString, h), want, "status:hex32", code=h)
    for h in hexes(rng, v64, 64):
        c.equal(c.must("status:hex64", u.ConvertHexString64ToString, h), want, "status:hex64", code=h)
    # codes only a 64-bit value can hold are not defined: neither a 32-bit error read as 64 bits, nor one with other high bits set
    big = (error << 63) | rng.choice([1 << 31, 1 << 32, 1 << 62, 1 << rng.randrange(31, 63), rng.getrandbits(31) << 32 | 1 << 40]) | n
    c.equal(c.must("status:64", u.Convert64BitToString, big), UNDEF, "status:64-high-bits", code=hex(big))
    c.equal(c.must("status:hex64", u.ConvertHexString64ToString, hex(big)), UNDEF, "status:64-high-bits", code=hex(big))
    c.event("status_undefined")


@ck.family("command", 400, 20000)
def command(c):
    rng, i = c.rng, c.index
    names = list(COMMANDS)
    if i < len(names):
        n, v = names[i], COMMANDS[names[i]]
        c.event("command")
        c.key(n)
        c.equal(T.CommandCode.get_code(n), v, "command:code", name=n)
        c.equal(T.CommandCode.get_string(v), n, "command:name", code=hex(v))
        c.equal(getattr(T, n), v, "command:constant", name=n)
        return
    n = rng.choice(names)
    bad = rng.choice([n + "x", n[:-1], n.lower(), n.upper() if n.upper() != n else "X", " " + n, n[7:], "", str(COMMANDS[n])])
    v = rng.choice([0, 0x11E, 0x123, 0x15A, 0x15F, 0x166, 0x175, 0x200, -1, 0xFFFFFFFF, 0x20000000 | COMMANDS[n], rng.getrandbits(32) | 0x1000])
    c.event("command_unknown")
    c.key(bad, v)
    if bad not in COMMANDS:
        c.equal(c.must("command:unknown", T.CommandCode.get_code, bad), None, "command:unknown-name", name=bad)
    c.equal(c.must("command:unknown", T.CommandCode.get_string, v), None, "command:unknown-code", code=hex(v))


@ck.family("response", 4096, 4096)
def response(c):
    """TPM 2.0 library specification part 2, 6.6.2: the layout of a response code."""
    rc = c.index
    c.event("response")
    c.key(rc)
    got = c.must("response", T.ResponseCode.parse_code, rc)
    c.note(rc=hex(rc), got=repr(got))
    named = ["TPM_RC_" + n for n in (GENERIC.get(rc & 0x7F), ) if n and rc & 0x180 == 0x100 and not rc & 0xE00]
    simple = c.must("response:simple", T.ResponseCode.get_simple_string, rc)
    c.equal(simple, named[0] if named else None, "response:simple-name", rc=hex(rc))
    c.require(isinstance(got, tuple) and len(got) == 5, "response:shape", got=repr(got))
    if rc == 0:
        c.expect(got[0] == "Success" and got[1] == "None" and got[2] == 0 and "TPM_RC_SUCCESS" in got, "response:success", got=repr(got))
        return
    if rc & 0x180 == 0:
        c.equal((got[0], got[1]), ("Tpm1.2 Response", "None"), "response:tpm12", rc=hex(rc))
        return
    if not rc & 0x80:
        if rc & 0x400:
            c.equal((got[0], got[1]), ("Vendor Defined Code", "None"), "response:vendor", rc=hex(rc))
            return
        if rc & 0x200:
            return  # reserved bit
        kind, who, num, code = "Warning" if rc & 0x800 else "Error", "None", 0, rc & 0x7F
        name = (WARNINGS if rc & 0x800 else GENERIC).get(code)
    else:
        kind, code, name = "Error", rc & 0x3F, FORMAT_ONE.get(rc & 0x3F)
        if rc & 0x40:
            who, num = "Parameter", rc >> 8
        else:
            who, num = ("Session" if rc & 0x800 else "Handle"), rc >> 8 & 7
    c.equal(got[:4], (kind, who, num, code), "response:fields", rc=hex(rc))
    if name:
        c.event("response_named")
        c.equal(got[4], "TPM_RC_" + name, "response:name", rc=hex(rc))
    else:
        c.event("response_unnamed")
        known = {"TPM_RC_" + x for t in (GENERIC, WARNINGS, FORMAT_ONE) for x in t.values()}
        c.expect(got[4] not in known, "response:name-of-undefined-code", rc=hex(rc), got=repr(got))


@ck.family("constant", len(CONSTANTS), len(CONSTANTS))
def constant(c):
    """The named algorithms, structure tags and handles have the values of part 2."""
    name = list(CONSTANTS)[c.index]
    c.event("constant")
    c.key(name)
    c.equal(getattr(T, name, None), CONSTANTS[name], "constant:value", name=name)


sys.exit(ck.main())
