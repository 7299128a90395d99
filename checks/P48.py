"""P48: signing runs exactly the given tool with exactly the given inputs, and its result lands where the caller asked."""
import os
import sys

from vh import Check, mute_logging

mute_logging()
from edk2toollib.utility_functions import CatalogSignWithSignTool, DetachedSignWithSignTool

ck = Check("P48", ["edk2toollib/utility_functions.py"],
           rule="a case is a history of signing calls over one folder with a recording stub for the tool; distinct by the calls made; non-trivial when the tool ran and its output was checked",
           min_events={"detached_ok": 400, "catalog_ok": 400, "tool_failed": 150, "no_output": 60, "no_tool": 60, "bare_name": 150, "odd_name": 300, "password": 200, "decoy": 100,
                       "kept": 60, "odd_password": 80})

STUB = r"""#!/bin/sh
{ printf '%%s\0' "$PWD" "$@"; printf '\001\0'; } >> '%(log)s'
read mode rc < '%(mode)s'
out=; file=; pfx=; prev=; det=
for a in "$@"; do
  case "$prev" in
  /p7) out=$a; det=1; prev=;;
  /f) pfx=$a; prev=;;
  /p|/u|/fd|/p7ce|/p7co) prev=;;
  *) prev=$a;;
  esac
  file=$a
done
echo "Done Adding Additional Store"
[ "$mode" = fail ] && exit $rc
[ -f "$pfx" ] || { echo "SignTool Error: no certificate $pfx"; exit 71; }
[ -f "$file" ] || { echo "SignTool Error: File not found: $file"; exit 72; }
[ "$mode" = silent ] && exit 0
if [ -n "$det" ]; then
  [ -n "$out" ] && [ -d "$out" ] || { echo "SignTool Error: no folder $out"; exit 73; }
  { printf 'P7:'; /bin/cat -- "$file" "$pfx"; } > "$out/${file##*/}.p7"
else
  { printf 'CAT:'; /bin/cat -- "$pfx"; } >> "$file"
fi
[ "$mode" = late ] && exit $rc
exit 0
"""
DECOY = r"""#!/bin/sh
printf 'decoy' >> '%(decoy)s'
exit 0
"""
ODD = ["a b", "x (x86)", "it's", "a&b", "semi;colon", "v1.0", "hash#tag", "ünï", "star*", "a  b", "<x>", "p|q", "per%cent", "tilde~", "eq=", "[1]", "{x}", "comma,", "plus+", "@at", "-dash", "!bang"]
PLAIN = ["fw", "capsule", "payload", "signed", "keys", "out"]
WITHVALUE = {"/fd", "/p7ce", "/p7co", "/p7", "/f", "/u", "/p"}
FLAGS = {"/debug", "/v", "/a"}


def snapshot(top):
    r = {}
    for d, ds, fs in os.walk(top):
        for x in ds:
            r[os.path.relpath(os.path.join(d, x), top)] = None
        for x in fs:
            with open(os.path.join(d, x), "rb") as f:
                r[os.path.relpath(os.path.join(d, x), top)] = f.read()
    return r


def runs(log):
    if not os.path.exists(log):
        return []
    data = open(log, "rb").read()
    os.remove(log)
    r, cur = [], []
    for part in data.split(b"\0")[:-1]:
        if part == b"\1":
            r.append((cur[0], cur[1:]))
            cur = []
        else:
            cur.append(os.fsdecode(part))
    return r


class Bench:
    """A folder with files to sign, keys and tools; the working directory is inside it."""

    def __init__(self, c):
        r = self.r = c.rng
        self.c = c
        self.meta = os.path.join(c.tmp, "meta")
        self.work = os.path.join(c.tmp, "work")
        self.log, self.mode, self.decoy = (os.path.join(self.meta, x) for x in ("log", "mode", "decoy"))
        os.makedirs(self.meta)
        os.makedirs(self.work)
        self.odd = 0
        self.dirs = [""] + [self.name() for _ in range(r.randint(1, 3))]
        for d in self.dirs[1:]:
            os.makedirs(os.path.join(self.work, d), exist_ok=True)
        names = list({self.name() + r.choice([".bin", ".cat", ".efi", "", ".p7"]) for _ in range(5)})
        self.files, self.outs = [], []
        for n in names:
            p = os.path.join(r.choice(self.dirs), n)
            if not os.path.exists(os.path.join(self.work, p)):
                with open(os.path.join(self.work, p), "wb") as f:
                    f.write(r.randbytes(r.choice([0, 1, 40, 300])))
                self.files.append(p)
        self.keys = []
        for i in range(2):
            p = os.path.join(r.choice(self.dirs), self.name() + f"{i}.pfx")
            with open(os.path.join(self.work, p), "wb") as f:
                f.write(b"PFX%d" % i + r.randbytes(9))
            self.keys.append(p)
        d = r.choice(["", "tools", "Program Files (x86)", "Windows Kits", r.choice(["R&D", "kit(10)", "v1;2", "it's", "o'neil's", "<kit>", "a|b", "#1", "tools*", "it's a kit"])])
        self.tool = os.path.join(d, r.choice(["signtool", "signtool.exe", "sign tool.sh"]))
        os.makedirs(os.path.join(self.work, d), exist_ok=True)
        with open(os.path.join(self.work, self.tool), "w") as f:
            f.write(STUB % dict(log=self.log, mode=self.mode))
        os.chmod(os.path.join(self.work, self.tool), 0o755)
        # programs of the same name on the search path must not run instead
        self.path = os.path.join(self.meta, "path")
        os.makedirs(self.path)
        for n in {"signtool", "signtool.exe", "sign", "tool.sh", os.path.basename(self.tool)}:
            with open(os.path.join(self.path, n), "w") as f:
                f.write(DECOY % dict(decoy=self.decoy))
            os.chmod(os.path.join(self.path, n), 0o755)

    def name(self):
        if self.r.random() < 0.5:
            self.odd += 1
            return self.r.choice(ODD) + str(self.r.randint(0, 99))
        return self.r.choice(PLAIN) + str(self.r.randint(0, 99))

    def spell(self, rel):
        """One way of naming a file of the bench from the working directory."""
        k = self.r.random()
        if k < 0.4:
            return os.path.join(self.work, rel)
        if k < 0.5:
            return "./" + rel
        if k < 0.55 and os.path.dirname(rel):
            d = os.path.dirname(rel)
            return os.path.join(d, "..", rel)
        if "/" not in rel:
            self.c.event("bare_name")
        return rel

    def password(self):
        r = self.r
        k = r.random()
        if k < 0.4:
            return None
        self.c.event("password")
        if k < 0.6:
            return "".join(r.choice("abcXYZ0123456789-_.") for _ in range(r.randint(1, 12)))
        self.c.event("odd_password")
        return r.choice(["two words", "a&b", "semi;colon", "it's", "p(q)", "x|y", "", " lead", "trail ", "a<b>c", "h#sh", "*", "~", "/p7", "-x", "t\tab"])


def check_args(c, argv, cwd, kind, want):
    """The arguments the tool got, read as signtool reads them."""
    c.require(argv and argv[0] == "sign", f"{kind}:not-the-sign-command", argv=argv)
    opts, flags, pos = {}, [], []
    i = 1
    while i < len(argv):
        a = argv[i]
        if a in WITHVALUE:
            c.expect(a not in opts, f"{kind}:option-twice", argv=argv, option=a)
            c.require(i + 1 < len(argv), f"{kind}:option-without-value", argv=argv, option=a)
            opts[a] = argv[i + 1]
            i += 2
        else:
            (flags if a in FLAGS else pos).append(a)
            i += 1
    at = lambda p: os.path.realpath(os.path.join(cwd, p))
    c.require(len(pos) == 1 and argv[-1] == pos[0], f"{kind}:not-one-file-argument", argv=argv, positional=pos)
    c.equal(at(pos[0]), os.path.realpath(want["file"]), f"{kind}:wrong-file-signed")
    c.require("/f" in opts, f"{kind}:no-certificate-option", argv=argv)
    c.equal(at(opts["/f"]), os.path.realpath(want["pfx"]), f"{kind}:wrong-certificate")
    c.equal(opts.get("/p"), want["password"], f"{kind}:wrong-password", argv=argv)
    c.equal(opts.get("/fd", "").lower(), "sha256", f"{kind}:wrong-digest")
    if kind == "detached":
        c.equal(opts.get("/p7co"), want["oid"], f"{kind}:wrong-content-oid")
        c.equal(opts.get("/p7ce"), "DetachedSignedData", f"{kind}:not-detached")
        c.equal(opts.get("/u"), want["eku"], f"{kind}:wrong-eku")
    else:
        c.expect(not set(opts) & {"/p7", "/p7ce", "/p7co", "/u"}, f"{kind}:detached-options", argv=argv)


STARTED = []


def watch(event, args):
    if event in ("subprocess.Popen", "os.system", "os.posix_spawn", "os.exec", "os.fork", "os.startfile"):
        STARTED.append((event, str(args)[:200]))


sys.addaudithook(watch)


def one(c, b, detached):
    r = c.rng
    kind = "detached" if detached else "catalog"
    b.files = [f for f in b.files if os.path.exists(os.path.join(b.work, f))]   # the tool itself writes over X.p7 when it signs X
    if not b.files:
        return
    file, pfx = r.choice(b.files), r.choice(b.keys)
    pw = b.password()
    oid = r.choice([None, None, "1.2.840.113549.1.7.1", "1.3.6.1.4.1.311.2.1.4"])
    eku = r.choice([None, None, "1.3.6.1.4.1.311.76.9.21.1"])
    mode = r.choices(["ok", "fail", "late", "silent", "missing"], [6, 1.5, 1.5, 0.7 if detached else 0.2, 0.5])[0]
    rc = r.choice([1, 2, 3, 77, 127, 255])
    with open(b.mode, "w") as f:
        f.write(f"{mode} {rc}\n")
    out = None
    if detached:
        base = os.path.basename(file)
        out = os.path.join(r.choice(b.dirs), r.choice([base + ".p7", base + ".p7", b.name() + ".p7", b.name() + ".sig", "latest.p7"]))
        while out in b.files or out in b.keys or out == b.tool:
            out += "x"
        if b.outs and r.random() < 0.5:
            out = r.choice(b.outs)
        b.outs.append(out)
    before = snapshot(b.work)
    tool = "tools/nosuchtool" if mode == "missing" else b.tool
    args = [b.spell(tool), b.spell(file)] + ([b.spell(out)] if detached else []) + [b.spell(pfx)]
    kw = {}
    if pw is not None or r.random() < 0.3:
        kw["PfxPass"] = pw
    if detached and oid:
        kw["Oid"] = oid
    if detached and (eku or r.random() < 0.3):
        kw["Eku"] = eku
    c.note(call=[kind, mode, rc] + args, kw=kw)
    c.key(kind, mode, tuple(os.path.relpath(a, b.work) if os.path.isabs(a) else a for a in args), tuple(sorted(kw.items(), key=str)))
    STARTED.clear()
    o = c.call(DetachedSignWithSignTool if detached else CatalogSignWithSignTool, *args, **kw)
    c.expect(not o.hang, f"{kind}:no-termination")
    c.expect(not os.path.exists(b.decoy), f"{kind}:another-program-ran", args=args)
    if os.path.dirname(args[0]) == "":
        c.event("decoy")
    calls = runs(b.log)
    after = snapshot(b.work)
    changed = {k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0) or (k in before) != (k in after)}
    if mode == "missing":
        c.event("no_tool")
        c.require(o.ok and o.value != 0, f"{kind}:missing-tool-not-reported", outcome=repr(o))
        c.equal(calls, [], f"{kind}:something-ran-without-tool")
        c.equal(STARTED, [], f"{kind}:process-without-tool")
        c.equal(changed, set(), f"{kind}:files-changed-without-tool")
        return
    c.require(len(calls) == 1, f"{kind}:tool-runs", count=len(calls), args=args, outcome=repr(o), trace=o.tb)
    cwd, argv = calls[0]
    work = lambda p: os.path.join(b.work, p)
    check_args(c, argv, cwd, kind, dict(file=work(file), pfx=work(pfx), password=pw, oid=oid or "1.2.840.113549.1.7.2", eku=eku))
    p7 = os.path.join(os.path.dirname(out), os.path.basename(file) + ".p7") if detached else None
    if b.odd:
        c.event("odd_name")
    if mode in ("fail", "late"):
        c.event("tool_failed")
        c.require(o.ok, f"{kind}:failed-tool-raised", outcome=repr(o), trace=o.tb)
        c.equal(o.value, rc, f"{kind}:failure-code-lost")
        allowed = set() if mode == "fail" else {p7 if detached else file}
        c.expect(changed <= allowed, f"{kind}:failed-run-changed-files", changed=sorted(changed - allowed))
        if detached and out in before and out != p7:
            c.event("kept")
        return
    if mode == "silent":
        if detached:
            if p7 in before:
                return  # an older output of the tool is there: what then comes back is not specified
            c.event("no_output")
            c.expect(not o.ok, f"{kind}:missing-output-not-reported", outcome=repr(o))
        else:
            c.require(o.ok and o.value == 0, f"{kind}:success-not-reported", outcome=repr(o), trace=o.tb)
        c.equal(changed, set(), f"{kind}:files-changed")
        return
    c.require(o.ok, f"{kind}:unexpected-error", outcome=repr(o), trace=o.tb)
    c.equal(o.value, 0, f"{kind}:success-not-reported")
    if detached:
        want = b"P7:" + before[file] + before[pfx]
        c.require(out in after, f"{kind}:no-output-file", files=sorted(after))
        c.equal(after[out], want, f"{kind}:wrong-output")
        c.expect(p7 == out or p7 not in after, f"{kind}:output-not-moved")
        c.expect(changed <= {out, p7}, f"{kind}:other-files-changed", changed=sorted(changed))
        c.event("detached_ok")
    else:
        c.equal(after[file], before[file] + b"CAT:" + before[pfx], f"{kind}:wrong-result")
        c.equal(changed, {file}, f"{kind}:other-files-changed")
        c.event("catalog_ok")


def history(c, detached):
    b = Bench(c)
    cwd, path = os.getcwd(), os.environ["PATH"]
    os.chdir(b.work)
    os.environ["PATH"] = b.path + os.pathsep + path
    try:
        for _ in range(c.rng.randint(2, 6)):
            one(c, b, detached if c.rng.random() < 0.8 else not detached)
            c.equal(os.getcwd(), b.work, "working-directory-changed")
    finally:
        os.chdir(cwd)
        os.environ["PATH"] = path


@ck.family("detached", 300, 3000)
def detached(c):
    history(c, True)


@ck.family("catalog", 250, 2500)
def catalog(c):
    history(c, False)


if __name__ == "__main__":
    sys.exit(ck.main())
