"""P13: EDK2-relative and absolute paths convert consistently."""
import os
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ck = Check("P13", ["edk2toollib/uefi/edk2/path_utilities.py"],
           rule="a case is a directory tree, a workspace and a packages path list with the paths converted; distinct by tree and roots; non-trivial when it has at least one packages path",
           min_events={"roundtrip": 800, "shadowed": 40, "nested_root": 200, "outside": 200, "missing": 200, "invalid_root_refused": 100, "linked": 500, "relative_root": 200})

DIRS = ["A", "B", "ab", "a", "Common", "MdePkg", "src", "A B", "Ü", "x.y", "AA", "A-1"]


def tree(c, rng):
    """A random tree; returns (base, dirs, files) as posix paths relative to base."""
    base = os.path.realpath(c.tmp)
    dirs = [""]
    for _ in range(rng.randrange(3, 16)):
        d = rng.choice(dirs)
        if d.count("/") < 5:
            n = (d + "/" if d else "") + rng.choice(DIRS)
            if n not in dirs:
                dirs.append(n)
    files = []
    for d in dirs:
        os.makedirs(os.path.join(base, d), exist_ok=True)
        for f in rng.sample(["f.c", "g.h", "m.inf", "P.dec", "README"], rng.randrange(0, 4)):
            files.append((d + "/" if d else "") + f)
            open(os.path.join(base, files[-1]), "w").close()
    return base, dirs, files


def is_below(p, root):
    return p == root or p.startswith(root.rstrip("/") + "/")


def roots(c, rng, base, dirs):
    """Pick workspace and packages paths; returns (ws_abs, pps_abs, constructor args, cwd)."""
    cwd = os.path.join(base, rng.choice(dirs))
    ws = os.path.join(base, rng.choice(dirs)).rstrip("/")
    pps = [os.path.join(base, d).rstrip("/") for d in rng.sample(dirs, min(len(dirs), rng.randrange(0, 5) if rng.random() < .9 else rng.randrange(5, 12)))]
    args = []
    for p in pps:
        k = rng.random()
        if k < .5:
            a = p
        elif k < .75:
            a = os.path.relpath(p, ws)          # workspace relative
            c.event("relative_root")
        else:
            a = os.path.relpath(p, cwd)         # cwd relative, unless the workspace has that name too
            if os.path.isdir(os.path.join(ws, a)):
                a = p
            else:
                c.event("relative_root")
        args.append(a.replace("/", "\\") if rng.random() < .15 else a + rng.choice(["", "", "/"]))
    wsarg = ws if rng.random() < .7 else os.path.relpath(ws, cwd)
    if wsarg != ws:
        c.event("relative_root")
    if rng.random() < .2:
        wsarg += "/"
    if rng.random() < .15:
        wsarg = wsarg.replace("/", "\\")
    return ws, pps, wsarg, args, cwd


def split_args(rng, p):
    """The same path as one or several arguments, either slash."""
    if rng.random() < .3:
        p = p.replace("/", "\\")
    if rng.random() < .3 and len(p) > 2:
        cut = [i for i, ch in enumerate(p) if ch in "/\\" and i > 0]
        if cut:
            i = rng.choice(cut)
            return (p[:i], p[i + 1:]) if p[i + 1:] else (p,)
    return (p,)


def want_rel(p, ws, pps):
    best = None
    for r in pps:
        if is_below(p, r) and (best is None or len(r) > len(best)):
            best = r
    if best is None and is_below(p, ws):
        best = ws
    if best is None:
        return None
    return os.path.relpath(p, best).replace("\\", "/")


def want_abs(rel, ws, pps):
    for r in [ws] + pps:
        q = os.path.normpath(os.path.join(r, rel))
        if os.path.exists(q):
            return q
    return None


@ck.family("convert", 500, 10000)
def convert(c):
    rng = c.rng
    base, dirs, files = tree(c, rng)
    ws, pps, wsarg, args, cwd = roots(c, rng, base, dirs)
    c.key(sorted(files), dirs, ws[len(base):], [p[len(base):] for p in pps], nontrivial=bool(pps))
    c.note(dirs=dirs, files=files, ws=wsarg, pps=args, cwd=cwd, base=base)
    old = os.getcwd()
    os.chdir(cwd)
    try:
        e = c.must("convert:ctor", Edk2Path, wsarg, args, error_on_invalid_pp=rng.random() < .5)
        c.equal(os.path.normpath(e.WorkspacePath), ws, "convert:workspace")
        c.equal([os.path.normpath(p) for p in e.PackagePathList], pps, "convert:packages-path-list")
        # the answers must not depend on the working directory later on
        os.chdir(os.path.join(base, rng.choice(dirs)))
        todo = [os.path.join(base, f) for f in files] + [os.path.join(base, d).rstrip("/") for d in dirs]
        todo += [p + "/gone/x.c" for p in todo[-2:]] + [base + "_sibling/x.c", ws + "x/f.c", "/nowhere"]
        rng.shuffle(todo)
        for p in todo:
            rel = c.must("convert:to-relative", e.GetEdk2RelativePathFromAbsolutePath, *split_args(rng, p))
            want = want_rel(p, ws, pps)
            c.equal(rel, want, "convert:relative", path=p)
            if want is None:
                c.event("outside")
                continue
            holders = [r for r in set(pps + [ws]) if is_below(p, r)]
            if len(holders) > 1:
                c.event("nested_root")
            if rel is None:
                continue
            c.expect("\\" not in rel and ".." not in rel.split("/") and not rel.startswith("/"), "convert:form", rel=rel)
            back = c.must("convert:to-absolute", e.GetAbsolutePathOnThisSystemFromEdk2RelativePath, *split_args(rng, rel), log_errors=False)
            wb = want_abs(want, ws, pps)
            if wb is None:
                c.equal(back, None, "convert:missing-file", rel=rel)
                c.event("missing")
            else:
                c.equal(back and os.path.normpath(back), wb, "convert:absolute", rel=rel)
                if wb == p:
                    c.event("roundtrip")
                else:
                    c.event("shadowed")
            # the directory part split off
            if "/" in rel:
                d, f = rel.split("/", 1)
                got = c.must("convert:to-absolute", e.GetAbsolutePathOnThisSystemFromEdk2RelativePath, d, f)
                c.equal(got and os.path.normpath(got), wb, "convert:absolute-parts", rel=rel)
        # every relative name anybody could ask for
        for _ in range(8):
            rel = "/".join(rng.choice(DIRS + ["f.c", "m.inf"]) for _ in range(rng.randrange(1, 4)))
            got = c.must("convert:to-absolute", e.GetAbsolutePathOnThisSystemFromEdk2RelativePath, *split_args(rng, rel))
            c.equal(got and os.path.normpath(got), want_abs(rel, ws, pps), "convert:absolute-query", rel=rel)
        # not normalised: going out of and back into a directory names the same file
        for p in rng.sample(todo, min(3, len(todo))):
            d = os.path.dirname(p)
            if not os.path.isdir(d) or not os.path.exists(p):
                continue
            odd = os.path.join(d, "..", os.path.basename(d), os.path.basename(p))
            rel = c.must("convert:to-relative-dotdot", e.GetEdk2RelativePathFromAbsolutePath, odd)
            if rel is not None:
                back = c.must("convert:to-absolute", e.GetAbsolutePathOnThisSystemFromEdk2RelativePath, rel)
                w = want_abs(rel, ws, pps)
                c.equal(back and os.path.realpath(back), w and os.path.realpath(w), "convert:dotdot", path=odd, rel=rel)
        c.equal(c.must("convert:none", e.GetEdk2RelativePathFromAbsolutePath, None), None, "convert:none")
        c.equal(c.must("convert:none", e.GetAbsolutePathOnThisSystemFromEdk2RelativePath, None), None, "convert:none")
    finally:
        os.chdir(old)


@ck.family("invalid_roots", 200, 4000)
def invalid_roots(c):
    rng = c.rng
    base, dirs, files = tree(c, rng)
    ws = os.path.join(base, rng.choice(dirs)).rstrip("/")
    pps, valid = [], []
    for _ in range(rng.randrange(1, 6)):
        if rng.random() < .5:
            p = os.path.join(base, rng.choice(dirs)).rstrip("/")
            valid.append(p)
        else:
            p = rng.choice([base + "/no/such", base + "/" + rng.choice(files) if files else base + "/none", "no/such/relative"])
        pps.append(p)
    bad = len(valid) != len(pps)
    c.key(ws[len(base):], [p[len(base):] if p.startswith(base) else p for p in pps])
    c.note(ws=ws, pps=pps, base=base)
    if bad:
        o = c.must_raise("invalid:packages-path", NotADirectoryError, Edk2Path, ws, pps)
        if isinstance(o.exc, NotADirectoryError):
            for p in pps:  # the error tells every entry to fix
                if p not in valid:
                    c.expect(os.path.basename(p) in str(o.exc), "invalid:entry-not-named", entry=p, error=str(o.exc))
        c.event("invalid_root_refused")
    e = c.must("invalid:tolerated", Edk2Path, ws, pps, error_on_invalid_pp=False)
    c.equal([os.path.normpath(p) for p in e.PackagePathList], valid, "invalid:packages-path-list")
    for f in rng.sample(files, min(3, len(files))):
        p = os.path.join(base, f)
        c.equal(c.must("invalid:relative", e.GetEdk2RelativePathFromAbsolutePath, p), want_rel(p, ws, valid), "invalid:relative")
    badws = rng.choice([base + "/no/such", base + "/" + files[0] if files else base + "/x", "no/such"])
    c.must_raise("invalid:workspace", NotADirectoryError, Edk2Path, badws, valid)
    c.event("invalid_root_refused")


@ck.family("links", 200, 4000)
def links(c):
    """Roots and files reached through symbolic links keep the names they were given by."""
    rng = c.rng
    base, dirs, files = tree(c, rng)
    os.makedirs(base + "/other/T/sub")
    for f in ("x.c", "sub/y.h"):
        open(f"{base}/other/T/{f}", "w").close()
    os.symlink(base if rng.random() < .3 else os.path.join(base, rng.choice(dirs)).rstrip("/"), base + "/other/L")
    os.symlink(base + "/other/T", base + "/other/LT")
    os.symlink(base + "/other/T/x.c", base + "/other/T/sub/link.c")
    ws = rng.choice([base + "/other/L", base + "/other/LT", base + "/other"])
    pps = rng.sample([base + "/other/LT", base + "/other/LT/sub", base + "/other/T", base + "/other/L"], rng.randrange(0, 3))
    pps = [p for p in pps if p != ws]
    args = [p if rng.random() < .6 else os.path.relpath(p, ws) for p in pps]
    args = [p if ".." not in p else q for p, q in zip(args, pps)]
    c.key(dirs, files, ws[len(base):], args and [a.replace(base, "") for a in args])
    c.note(ws=ws, pps=args, base=base)
    e = c.must("links:ctor", Edk2Path, ws, args)
    c.equal(e.WorkspacePath, ws, "links:workspace")
    c.equal(e.PackagePathList, pps, "links:packages-path-list")
    todo = [base + f"/other/{r}/{f}" for r in ("LT", "T") for f in ("x.c", "sub/y.h", "sub/link.c", "sub", "gone.c")]
    todo += [base + "/other/L/" + n for n in os.listdir(base + "/other/L")[:4]]
    for p in todo:
        want = want_rel(p, ws, pps)
        c.equal(c.must("links:to-relative", e.GetEdk2RelativePathFromAbsolutePath, p), want, "links:relative", path=p)
        c.event("linked")
        if want is None:
            continue
        c.equal(c.must("links:to-absolute", e.GetAbsolutePathOnThisSystemFromEdk2RelativePath, want, log_errors=False), want_abs(want, ws, pps), "links:absolute", rel=want)


if __name__ == "__main__":
    sys.exit(ck.main())
