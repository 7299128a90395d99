"""P03: macro references resolve to the value in force at the point of use."""
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
PD = "edk2toollib/uefi/edk2/parsers/"
ck = Check("P03", [PD + "base_parser.py", PD + "dsc_parser.py", PD + "fdf_parser.py", PD + "inf_parser.py"],
           rule="a case is a set of definitions plus lines with references (direct, DSC, FDF or INF); distinct by text; non-trivial when a reference occurs",
           min_events={"reference": 5000, "undefined_reference": 500, "redefinition": 200, "input_wins": 200, "chained": 200, "inactive_define": 100})

NAMES = ["A", "AB", "A_B", "A1", "PKG", "PKG_X", "PKGX", "MY_PKG", "a", "DEFINE_A", "ROOT", "X64"]
VALUES = ["x", "Pkg", "a/b", "1", "0x10", "", "A", "PKG", "v.1-2", "$", "a$b", "TRUE", "false", "(x)", "A)B", "x y", "\\", "AB", "True", "tRUE", "$(ZZ)", "$(NOPE)/x", "$(PKG_XY)", "$(AA)", "y$(A_BC)z"]


def norm(v):
    return v.upper() if v.upper() in ("TRUE", "FALSE") else v


def rand_text(c, rng, defined, undefined, plain=("", "/", " ", "-", "x", "$", "(", ")", "()", "$ (", "PKG", "A")):
    """(text, [(literal|reference)]) with references to names."""
    parts = []
    for _ in range(rng.randrange(1, 7) if rng.random() < .95 else rng.randrange(10, 60)):
        m = rng.randrange(3)
        if m == 0:
            parts.append(("t", rng.choice(plain)))
        elif m == 1 and defined:
            parts.append(("r", rng.choice(defined)))
        else:
            parts.append(("r", rng.choice(defined + undefined)))
    # "$" directly before "(" would read as a reference
    txt = []
    for k, v in parts:
        if k == "t" and v.startswith("(") and txt and txt[-1][1].endswith("$"):
            v = " " + v
        txt.append((k, v))
    return txt


def render(parts):
    return "".join(v if k == "t" else f"$({v})" for k, v in parts)


def expand(c, parts, env):
    out = []
    for k, v in parts:
        if k == "t":
            out.append(v)
        elif v in env:
            out.append(norm(env[v]))
            c.event("reference")
        else:
            out.append(f"$({v})")
            c.event("undefined_reference")
    return "".join(out)


@ck.family("direct", 6000, 150000)
def direct(c):
    """ReplaceVariables on one line."""
    rng = c.rng
    names = rng.sample(NAMES, rng.randrange(0, len(NAMES)))
    local = {n: rng.choice(VALUES) for n in names}
    inp = {n: rng.choice(VALUES) for n in rng.sample(NAMES, rng.randrange(0, 4))}
    env = {**local, **inp}
    undefined = [n for n in NAMES if n not in env] or ["ZZ"]
    parts = rand_text(c, rng, sorted(env), undefined)
    c.event("value_with_undefined_reference", int(any("$(" in v for v in env.values())))
    line = render(parts)
    toks = line.split()
    if toks and toks[0].lower().startswith("!"):
        return
    # literal text that happens to form a reference or an unterminated one is out of this family
    probe = "".join(v if k == "t" else "\0" for k, v in parts)
    if "$(" in probe:
        return
    c.key(line, sorted(local.items()), sorted(inp.items()), nontrivial=any(k == "r" for k, _ in parts))
    c.note(line=line, local=local, inputs=inp)
    p = BaseParser("x")
    p.LocalVars = dict(local)
    if inp:
        p.SetInputVars(dict(inp))
    c.equal(p.ReplaceVariables(line), expand(c, parts, env), "direct:result")
    if any(n in local and n in inp and ("r", n) in parts for n in env):
        c.event("input_wins")
    c.equal(p.LocalVars, local, "direct:locals-changed")
    # !if lines: undefined references become 0
    if toks and "$(" not in "".join(env.values()):
        got = p.ReplaceVariables("!if " + line)
        c.equal(got, expand(c, [("t", "!if ")] + parts, {**{n: "0" for n in NAMES + ["ZZ"]}, **env}), "direct:if-line")


@ck.family("reference_in_value", 1000, 20000)
def reference_in_value(c):
    """A value that holds a reference to a known name: taken as it is or resolved, but nothing else of the line changes."""
    rng = c.rng
    names = rng.sample(NAMES, rng.randrange(2, 6))
    env = {n: f"<{i}>" for i, n in enumerate(names)}
    x, y = names[:2]
    env[x] = rng.choice(["$(%s)", "u$(%s)v", "$(%s)$(%s)"]).replace("%s", y)
    parts = []
    for _ in range(rng.randrange(1, 7)):
        parts.append(rng.choice([("r", x), ("r", y), ("r", rng.choice(names)), ("t", rng.choice(["/", " ", "-x", "$", ")"])), ("r", "ZZ")]))
    line = render(parts)
    if "$(" in "".join(v if k == "t" else "\0" for k, v in parts):
        return
    c.key(line, sorted(env.items()))
    c.note(line=line, env=env)
    p = BaseParser("x")
    if rng.random() < .5:
        p.LocalVars = dict(env)
    else:
        p.SetInputVars(dict(env))
    once = expand(c, parts, env)
    full = expand(c, parts, {**env, x: env[x].replace(f"$({y})", env[y])})
    got = p.ReplaceVariables(line)
    c.expect(got in (once, full), "reference-in-value:result", got=got, want=[once, full])
    c.event("reference_in_value")


@ck.family("unterminated", 500, 5000)
def unterminated(c):
    rng = c.rng
    env = {"A": "val", "AB": "other"}
    head = rng.choice(["", "x ", "$(A)/", "$(A)$(AB) "])
    line = head + rng.choice(["$(", "$(A", "$(AB x", "$", "$A", "$$(", "$ (A)"]) + rng.choice(["", " ", "/y"])
    c.key(line)
    c.note(line=line)
    p = BaseParser("x")
    p.LocalVars = dict(env)
    want = head.replace("$(A)", "val").replace("$(AB)", "other") + line[len(head):]
    c.equal(p.ReplaceVariables(line), want, "unterminated:result")


FVALS = ["x", "Pkg", "a/b", "1", "v.1-2", "AB", "PKG", "a-b"]


def define_block(c, rng, env, n, defs, kw="DEFINE ", redefine=True, selfref=True, values=FVALS):
    """n definitions; env is updated sequentially (caller semantics)."""
    lines = []
    for _ in range(n):
        pool = NAMES if redefine else [x for x in NAMES if x not in env]
        if not pool:
            break
        name = rng.choice(pool)
        if name in env:
            c.event("redefinition")
        parts = [("t", rng.choice(values))]
        known = [x for x in sorted(env) if x in defs and (selfref or x != name)]
        if known and rng.random() < .5:
            parts.insert(rng.randrange(2), ("r", rng.choice(known)))
            if parts[0][0] == "r":
                parts.insert(1, ("t", "/"))
            c.event("chained")
        lines.append((name, parts, f"{kw if rng.random() < .8 or name.startswith('DEFINE') else kw}{name}{rng.choice([' = ', '=', ' =  '])}{render(parts)}"))
        yield lines[-1]


@ck.family("fdf", 1500, 40000)
def fdf(c):
    """Point-of-use values, section-local definitions, inactive definitions, input variables."""
    rng = c.rng
    inp = {n: rng.choice(FVALS) for n in rng.sample(NAMES, rng.randrange(0, 3))}
    glob, local, lines, want, rep = {}, {}, [], {}, {}
    insec = None
    for _ in range(rng.randrange(2, 7)):
        if insec is None or rng.random() < .3:
            lines.append("[Defines]")
            insec = "D"
            local = dict(glob)
        else:
            insec = f"V{len(want)}"
            want[insec] = []
            lines.append(f"[FV.{insec}]")
            local = dict(glob)
        for _ in range(rng.randrange(1, 6)):
            m = rng.random()
            if m < .5:
                env = {**local, **inp}
                for name, parts, line in define_block(c, rng, local, 1, set(local) - set(inp) | (set(inp) & set(local))):
                    if rng.random() < .2:
                        lines += ["!if FALSE", line, "!endif"]
                        c.event("inactive_define")
                        continue
                    lines.append(line)
                    v = expand(c, parts, env)
                    local[name] = v
                    if insec == "D":
                        glob[name] = v
                        rep[name] = v
            elif insec != "D":
                env = {**local, **inp}
                und = [n for n in NAMES if n not in env] or ["ZZ"]
                parts = [("t", "P/")] + rand_text(c, rng, sorted(env), und, plain=("/", "-", "x", "PKG", "A", "_")) + [("t", f"/m{len(lines)}.inf")]
                lines.append("INF " + render(parts))
                want[insec].append(expand(c, parts, env))
                if any(k == "r" and v in inp and v in local for k, v in parts):
                    c.event("input_wins")
    text = G.plain(lines)
    c.key(text, sorted(inp.items()), nontrivial="$(" in text)
    c.note(fdf=text, inputs=inp)
    p = FdfParser().SetEdk2Path(Edk2Path(c.tmp, []))
    if inp:
        p.SetInputVars(dict(inp))
    c.must("fdf:parse", p.ParseFile, c.write("a.fdf", text))
    got = {k: v["Infs"] for k, v in p.FVs.items() if v["Infs"]}
    c.equal(got, {k: v for k, v in want.items() if v}, "fdf:infs")
    c.equal(p.Dict, rep, "fdf:defines")


@ck.family("dsc", 1500, 40000)
def dsc(c):
    """References use the final definitions; chains resolve in file order; inactive definitions do not count."""
    rng = c.rng
    inp = {n: rng.choice(FVALS) for n in rng.sample(NAMES, rng.randrange(0, 3))}
    env, lines = {}, ["[Defines]", "SUPPORTED_ARCHITECTURES = X64"]
    uses = []
    if rng.random() < .04:  # a large file: what it defines first and last counts alike
        for i in range(rng.randrange(60, 150)):
            env[f"FILLER_{i}"] = f"filler{i}"
            lines.append(f"DEFINE FILLER_{i} = filler{i}")
        c.event("many_definitions")
    for _ in range(rng.randrange(1, 5)):
        sec = rng.choice(["Defines", "Defines", "Components.X64", "Components.IA32"])
        lines.append(f"[{sec}]")
        for _ in range(rng.randrange(1, 6)):
            if sec == "Defines":
                kw = rng.choice(["DEFINE ", "DEFINE ", ""])
                for name, parts, line in define_block(c, rng, env, 1, set(env), kw=kw, values=FVALS + ["a=b", "a==b", "-DX=1", "=", "==x"]):
                    if rng.random() < .2:
                        lines += rng.choice([["!if FALSE", line, "!endif"], ["!if TRUE", "!else", line, "!endif"]])
                        c.event("inactive_define")
                        continue
                    lines.append(line)
                    env[name] = expand(c, parts, {**env, **inp})
            else:
                parts = [("t", "P/")] + rand_text(c, rng, NAMES, ["ZZ", "A2"], plain=("/", "-", "x", "PKG", "A", "_")) + [("t", f"/m{len(lines)}.inf")]
                uses.append((sec, parts))
                lines.append(render(parts))
    text = G.plain(lines)
    fin = {**env, **inp}
    c.key(text, sorted(inp.items()), nontrivial=bool(uses))
    c.note(dsc=text, inputs=inp)
    p = DscParser().SetEdk2Path(Edk2Path(c.tmp, []))
    if inp:
        p.SetInputVars(dict(inp))
    c.must("dsc:parse", p.ParseFile, c.write("a.dsc", text))
    c.equal(list(p.SixMods), [expand(c, q, fin) for s, q in uses if "X64" in s], "dsc:x64")
    c.equal(list(p.ThreeMods), [expand(c, q, fin) for s, q in uses if "IA32" in s], "dsc:ia32")
    if any(k == "r" and v in inp and v in env for _, q in uses for k, v in q):
        c.event("input_wins")
    got = {k: v for k, v in p.LocalVars.items() if k != "SUPPORTED_ARCHITECTURES"}
    c.equal(got, env, "dsc:definitions")


@ck.family("inf", 1000, 25000)
def inf(c):
    """DEFINE in an INF, used in every kind of section."""
    rng = c.rng
    env, lines = {}, ["[Defines]", "BASE_NAME = x"]
    want = {"Sources": [], "Packages": [], "LibraryClasses": []}
    for _ in range(rng.randrange(1, 6)):
        for name, parts, line in define_block(c, rng, env, rng.randrange(0, 4), set(env)):
            lines.append(line)
            env[name] = expand(c, parts, env)
        sec = rng.choice(sorted(want))
        lines.append(f"[{sec}]")
        for _ in range(rng.randrange(1, 4)):
            und = [n for n in NAMES if n not in env] or ["ZZ"]
            parts = [("t", "P/")] + rand_text(c, rng, sorted(env), und, plain=("/", "-", "x", "PKG", "A", "_")) + [("t", f"/s{len(lines)}.c")]
            lines.append(render(parts))
            want[sec].append(expand(c, parts, env))
    text = G.plain(lines)
    c.key(text, nontrivial="$(" in text)
    c.note(inf=text)
    p = InfParser()
    c.must("inf:parse", p.ParseFile, c.write("a.inf", text))
    c.equal(p.Sources, want["Sources"], "inf:sources")
    c.equal(p.PackagesUsed, want["Packages"], "inf:packages")
    c.equal(p.LibrariesUsed, want["LibraryClasses"], "inf:libraries")
    c.equal(p.ScopedSourceDict.get("common", []), want["Sources"], "inf:scoped-sources")
    c.equal(p.ScopedLibraryDict.get("common", []), want["LibraryClasses"], "inf:scoped-libraries")


if __name__ == "__main__":
    sys.exit(ck.main())
