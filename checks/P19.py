"""P19: hex dumps and exported C arrays can be read back exactly (by text and by a C compiler)."""
import io
import os
import re
import shutil
import subprocess
import sys
import warnings

from vh import Check, mute_logging
from edk2toollib import utility_functions as U

mute_logging()
warnings.simplefilter("ignore")
ck = Check("P19", ["edk2toollib/utility_functions.py"],
           rule="a case is one byte string with formatting options; distinct by bytes and options; non-trivial when not empty",
           min_events={"dump_line": 4000, "partial_line": 600, "array_row": 4000, "partial_row": 400, "compiled_array": 400, "wide_offset": 60})
GCC = shutil.which("gcc") or shutil.which("clang") or shutil.which("cc")


def some_bytes(rng, least=0):
    k = rng.random()
    n = rng.randrange(least, 70) if k < .7 else rng.choice([15, 16, 17, 31, 32, 33, 255, 256, 257]) if k < .9 else rng.randrange(256, 4300) if k < .995 else rng.randrange(65500, 70000)
    k = rng.random()
    if k < .5:
        return rng.randbytes(n)
    if k < .7:
        return bytes(rng.choice(b"\\ -x0/*?\"'//\\\\ %{}") for _ in range(n))
    if k < .85:
        return bytes(rng.choice(b"\x1f\x20\x7e\x7f\x80\xff\x00\n\r\t") for _ in range(n))
    return bytes(rng.randrange(0x20, 0x7f) for _ in range(n))


def shown(data):
    return "".join(chr(b) if 0x20 <= b <= 0x7e else "." for b in data)


@ck.family("hexdump", 900, 30000)
def hexdump(c):
    rng = c.rng
    data = some_bytes(rng)
    start = rng.choice([0, 0, 0, 0x10, 0xf0, 0x100, 0x4000_0000, rng.randrange(1 << 40), 1, 7])
    opts = {k: rng.random() < .6 for k in ("include_ascii", "include_offset", "include_hex_sep") if rng.random() < .7}
    asc, off, sep = (opts.get(k, True) for k in ("include_ascii", "include_offset", "include_hex_sep"))
    out = io.StringIO()
    c.key(data, start, opts, nontrivial=bool(data))
    c.note(data=data, start=start, options=opts)
    kind = rng.choice([bytes, bytearray, list])
    if rng.random() < .25:
        c.must("hexdump:failed", U.PrintByteList, kind(data), asc, off, sep, start, outfs=out)
    else:
        c.must("hexdump:failed", U.hexdump, kind(data), offset_start=start, outfs=out, **opts)
    text = out.getvalue()
    if not data:
        c.expect(text.strip() == "", "hexdump:empty-input-prints", text=text)
        return
    c.expect(text.endswith("\n"), "hexdump:no-final-newline", text=text[-100:])
    lines = text.split("\n")[:-1]
    c.equal(len(lines), (len(data) + 15) // 16, "hexdump:number-of-lines", text=text)
    width = 16 * 5 + (2 if sep else 0)
    for i, line in enumerate(lines):
        row = data[i * 16:i * 16 + 16]
        rest = line
        if off:
            m = re.match(r"(0x[0-9a-fA-F]+) -", line)
            c.require(m, "hexdump:no-offset", line=line)
            c.equal(int(m.group(1), 16), start + 16 * i, "hexdump:offset", line=line)
            rest = line[m.end():]
            if len(m.group(1)) > 4:
                c.event("wide_offset")
        got, pos = [], 0
        for k in range(len(row)):
            if k == 8 and sep:
                c.equal(rest[pos:pos + 2], " -", "hexdump:separator", line=line)
                pos += 2
            m = re.fullmatch(r" 0x([0-9a-fA-F]{2})", rest[pos:pos + 5])
            c.require(m, "hexdump:columns", line=line, at=pos)
            got.append(int(m.group(1), 16))
            pos += 5
        c.equal(bytes(got), row, "hexdump:bytes", line=line)
        tail = rest[pos:]
        if asc:
            # the text column is where it is on a full line
            c.equal(rest[pos:width].strip(" "), "", "hexdump:padding", line=line)
            c.equal(rest[width:width + 1], " ", "hexdump:text-column", line=line)
            c.equal(rest[width + 1:].rstrip(" "), shown(row).rstrip(" "), "hexdump:text-column", line=line, options=opts)
        else:
            c.equal(tail.strip(" "), "", "hexdump:text-without-request", line=line)
        c.event("dump_line")
        if len(row) < 16:
            c.event("partial_line")


def export(c, rng, data, name):
    opts = {}
    if rng.random() < .3:
        opts["data_type"] = rng.choice(["UINT8", "CHAR8", "CONST UINT8", "unsigned char"])
    if rng.random() < .6:
        opts["bytes_per_row"] = rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 20, 32, 33])
    if rng.random() < .3:
        opts["indent"] = rng.choice(["", " ", "\t", "        "])
    if rng.random() < .6:
        opts["include_ascii"] = rng.random() < .6
    if rng.random() < .4:
        opts["include_length"] = rng.random() < .6
    if rng.random() < .4:
        opts["length_variable_name"] = name + "Len"
        if rng.random() < .5:
            opts["length_data_type"] = rng.choice(["UINT32", "UINTN", "unsigned long"])
    skip = rng.choice([0, 0, 0, 1, 9])
    src = io.BytesIO(rng.randbytes(skip) + data)
    src.seek(skip)
    out = io.StringIO()
    c.must("export:failed", U.export_c_type_array, src, name, out, **opts)
    return opts, out.getvalue()


@ck.family("export", 700, 24000)
def export_text(c):
    rng = c.rng
    data = some_bytes(rng)
    c.note(data=data)
    if not data:
        c.must_raise("export:empty-accepted", ValueError, U.export_c_type_array, io.BytesIO(b""), "X", io.StringIO())
        c.key(data, nontrivial=False)
        return
    opts, text = export(c, rng, data, "Var1")
    c.key(data, opts)
    c.note(options=opts, text=text[:1500])
    per, asc = opts.get("bytes_per_row", 16), opts.get("include_ascii", True)
    m = re.match(r"(.+?) Var1\[(\d*)\] = \{[ ]*\n", text)
    c.require(m, "export:declaration", text=text[:200])
    c.equal(m.group(1), opts.get("data_type", "UINT8"), "export:type")
    c.equal(m.group(2), str(len(data)) if opts.get("include_length", True) else "", "export:length")
    end = text.index("\n};", m.end() - 1)
    rows = text[m.end():end].split("\n")
    c.equal(len(rows), (len(data) + per - 1) // per, "export:number-of-rows")
    cols = set()
    for i, row in enumerate(rows):
        want = data[i * per:(i + 1) * per]
        ind = opts.get("indent", "    ")
        c.expect(row.startswith(ind + "0x"), "export:indent", row=row, options=opts)
        code, slash, comment = row.partition("//")
        toks = [t.strip() for t in code.split(",")]
        if i < len(rows) - 1:
            c.equal(toks.pop(), "", "export:no-comma-between-rows", row=row)
        c.expect(all(re.fullmatch(r"0x[0-9a-fA-F]{2}", t) for t in toks), "export:elements", row=row)
        c.equal(bytes(int(t, 16) for t in toks), want, "export:bytes", row=row)
        if asc:
            c.expect(slash, "export:no-comment", row=row)
            c.equal(comment.strip(" "), shown(want).strip(" "), "export:comment", row=row)
            cols.add(row.index("//"))
        else:
            c.equal(slash, "", "export:comment-without-request", row=row)
        c.event("array_row")
        if len(want) < per:
            c.event("partial_row")
    c.expect(len(cols) <= 1, "export:comment-columns", columns=sorted(cols), text=text[:600])
    rest = text[end + 3:].split()
    want = []
    if "length_variable_name" in opts:
        want = f"{opts.get('length_data_type', 'UINTN')} Var1Len = sizeof Var1;".split()
    c.equal(rest, want, "export:length-variable")


def continues(data, opts):
    """Does a comment end in a backslash (gcc and clang ignore blanks after it), which continues it on the next line?"""
    per = opts.get("bytes_per_row", 16)
    return opts.get("include_ascii", True) and any(shown(data[i:i + per]).rstrip().endswith("\\") for i in range(0, len(data), per))


def compile_and_read(c, items, mech):
    """items: [(name, data, opts, text)]"""
    src = ["typedef unsigned char UINT8; typedef char CHAR8; typedef unsigned long UINTN; typedef unsigned int UINT32;",
           "#define CONST const", "#include <stdio.h>"]
    for i, (name, data, opts, text) in enumerate(items):
        src += [f"#line {1000 * (i + 1)}", text]
    src.append("int main(void) {")
    for name, data, opts, text in items:
        src.append(f'{{ unsigned long n = sizeof {name}; printf("%lu", n); for (unsigned long i = 0; i < {len(data)} && i < n; i++) printf(" %u", (unsigned)(unsigned char){name}[i]);')
        if "length_variable_name" in opts:
            src.append(f'printf(" L%lu", (unsigned long){name}Len);')
        src.append('printf("\\n"); }')
    src.append("return 0; }")
    path = c.write("a.c", "\n".join(src))
    exe = path[:-2]
    r = subprocess.run([GCC, "-w", "-O0", "-o", exe, path], capture_output=True, text=True)
    c.note(arrays=len(items))
    if not c.expect(r.returncode == 0, mech, stderr=r.stderr[:800]):
        return
    out = subprocess.run([exe], capture_output=True, text=True, check=True).stdout.splitlines()
    c.equal(len(out), len(items), mech)
    for line, (name, data, opts, text) in zip(out, items):
        toks = line.split()
        n = int(toks[0])
        length = None
        if toks[-1].startswith("L"):
            length = int(toks.pop()[1:])
        vals = bytes(int(t) for t in toks[1:])
        c.expect(n == len(data) and vals == data, mech, name=name, data=data, options=opts, got=vals, size=n)
        if length is not None:
            c.equal(length, n, mech, options=opts)
        c.event("compiled_array")


@ck.family("compiled", 30, 600)
def compiled(c):
    """The arrays as a C compiler reads them."""
    rng = c.rng
    c.require(GCC, "compiled:no-compiler")
    items = []
    while len(items) < 24:
        data, name = some_bytes(rng, 1)[:600], f"Arr{len(items)}"
        opts, text = export(c, rng, data, name)
        if not continues(data, opts):
            items.append((name, data, opts, text))
    c.key([(d, o) for _, d, o, _ in items])
    compile_and_read(c, items, "compiled:bytes")


@ck.family("backslash", 6, 60)
def backslash(c):
    """A row whose text ends in a backslash (recorded as a known finding)."""
    rng = c.rng
    data = rng.randbytes(15) + b"\\" + rng.randbytes(rng.randrange(0, 20))
    out = io.StringIO()
    c.must("export:failed", U.export_c_type_array, io.BytesIO(data), "Arr0", out)
    c.key(data)
    c.note(data=data)
    compile_and_read(c, [("Arr0", data, {}, out.getvalue())], "compiled:backslash-ends-comment-line")


if __name__ == "__main__":
    sys.exit(ck.main())
