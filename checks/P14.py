"""P14: the package and modules containing a path are found, and the search ends."""
import os
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ck = Check("P14", ["edk2toollib/uefi/edk2/path_utilities.py"],
           rule="a case is a directory tree with its roots, all of whose paths are asked for; distinct by tree and roots; non-trivial when a DEC or INF file is present",
           min_events={"package_found": 800, "package_none": 800, "modules_found": 800, "modules_none": 400, "multi_inf": 100,
                       "root_asked": 400, "outside": 400, "nonexistent": 400, "nested_roots": 100})
NAMES = ["A", "B", "APkg", "Lib", "Mod", "X64", "A-1", "a", "dec", "inf"]
FILES = ["f.c", "g.h", "m.inf", "M2.INF", "n.Inf", "P.dec", "Q.DEC", "xdec", "readme", "decs", "a.dec.bak", "b.inf.txt", ".dec", ".inf"]


def below(p, root):
    return p == root or p.startswith(root + "/")


def isdec(f):
    return os.path.splitext(f)[1].lower() == ".dec"


def isinf(f):
    return os.path.splitext(f)[1].lower() == ".inf"


def listing(d):
    return [f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))] if os.path.isdir(d) else []


def want_package(p, ws, pps):
    root = ws if below(p, ws) else next((r for r in pps if below(p, r)), None)
    if root is None:
        return None
    d = p if os.path.isdir(p) else os.path.dirname(p)
    while d != root and below(d, root):
        if any(isdec(f) for f in listing(d)):
            return os.path.basename(d)
        d = os.path.dirname(d)
    return None


def want_modules(p, ws, pps):
    holders = [r for r in pps + [ws] if below(p, r)]
    if not holders:
        return []
    if isinf(p):
        return [p]
    top = min(holders, key=len)          # the outermost root holding the path
    d = os.path.dirname(p)
    while d != top and below(d, top):
        got = sorted(os.path.join(d, f) for f in listing(d) if isinf(f))
        if got:
            return got
        d = os.path.dirname(d)
    return []


@ck.family("containing", 450, 9000)
def containing(c):
    rng = c.rng
    base = os.path.realpath(c.tmp)
    dirs = [""]
    for _ in range(rng.randrange(3, 18)):
        d = rng.choice(dirs[-6:])
        if d.count("/") < 7:
            n = (d + "/" if d else "") + rng.choice(NAMES)
            if n not in dirs:
                dirs.append(n)
    files = []
    for d in dirs:
        os.makedirs(os.path.join(base, d), exist_ok=True)
        for f in rng.sample(FILES, rng.choice([0, 0, 1, 1, 2, 3])):
            files.append((d + "/" if d else "") + f)
            open(os.path.join(base, files[-1]), "w").close()
    if rng.random() < .3:                # a directory that merely looks like a DEC or INF
        d = rng.choice(dirs)
        n = (d + "/" if d else "") + rng.choice(["odd.dec", "odd.inf"])
        os.makedirs(os.path.join(base, n), exist_ok=True)
        dirs.append(n)
    absd = [os.path.join(base, d).rstrip("/") for d in dirs]
    ws = rng.choice(absd[:4] if rng.random() < .6 else absd)
    k = min(len(absd), rng.randrange(0, 6))
    pps = rng.sample(absd, k)
    if rng.random() < .1:
        pps.append(ws)
    c.key(sorted(files), dirs, ws[len(base):], [p[len(base):] for p in pps], nontrivial=any(isdec(f) or isinf(f) for f in files))
    c.note(dirs=dirs, files=files, ws=ws, pps=pps, base=base)
    if any(a != b and below(a, b) for a in pps + [ws] for b in pps + [ws]):
        c.event("nested_roots")
    e = c.must("ctor", Edk2Path, ws, pps)
    todo = [os.path.join(base, f) for f in files] + absd
    todo += [d + rng.choice(["/gone.c", "/gone/deep/x.h", "/gone.inf", "/Gone/", "/gone.dec"]).rstrip("/") for d in rng.sample(absd, min(5, len(absd)))]
    todo += ["/", "/nowhere/x.c", ws + "x/f.c", os.path.dirname(base)]
    for p in todo:
        q = p.replace("/", "\\") if rng.random() < .2 else p
        if rng.random() < .1 and len(p) > 1:
            q += "/"
        wp, wm = want_package(p, ws, pps), want_modules(p, ws, pps)
        got = c.must("package", e.GetContainingPackage, q, cpu=3)
        c.equal(got, wp, "package:name", path=p)
        got = c.must("modules", e.GetContainingModules, q, cpu=3)
        if c.expect(isinstance(got, list) and all(isinstance(x, str) for x in got), "modules:type", got=got):
            c.equal(sorted(got), wm, "modules:list", path=p)
        c.event("package_found" if wp else "package_none")
        c.event("modules_found" if wm else "modules_none")
        if len(wm) > 1:
            c.event("multi_inf")
        if p in pps or p == ws:
            c.event("root_asked")
        if not any(below(p, r) for r in pps + [ws]):
            c.event("outside")
        if not os.path.exists(p):
            c.event("nonexistent")
    # paths that leave and re-enter a root: the search must end
    for p in rng.sample(todo, min(4, len(todo))):
        for odd in (p + "/../..", p + "/../x/../../y.c", ws + "/../../../../../../../../../..", ws + "/..", ws + "/."):
            for fn in (e.GetContainingPackage, e.GetContainingModules):
                c.must("odd-path", fn, odd, cpu=3)
    c.must_raise("modules:relative", Exception, e.GetContainingModules, rng.choice(["A/x.c", "x.inf", "", "./B"]))
    # asking never changes the roots
    c.equal((e.WorkspacePath, e.PackagePathList), (ws, pps), "roots-unchanged")


if __name__ == "__main__":
    sys.exit(ck.main())
