"""P46: DSC build objects behave as sets and maps and are written to an equal DSC."""
import collections
import contextlib
import io
import itertools
import os
import re
import sys

from vh import Check, mute_logging, quiet

mute_logging()
import edk2gen as G
from edk2toollib.uefi.edk2.build_objects import dsc as B
from edk2toollib.uefi.edk2.build_objects.dsc_translator import DscTranslator
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser

ck = Check("P46", ["edk2toollib/uefi/edk2/build_objects/dsc.py", "edk2toollib/uefi/edk2/build_objects/dsc_translator.py"],
           rule="a case is a pool of objects, a history of changes of a set or DSC, or a written DSC; distinct by content; non-trivial with two or more entries",
           min_events={"pair": 20000, "equal_pair": 2000, "case_only": 100, "set_op": 5000, "replaced": 500, "refused": 500, "sku_double": 20, "section_op": 3000, "section_duplicate": 200,
                       "unequal_dsc": 100, "written": 300, "entry_written": 3000, "override_written": 200, "dsc_parsed": 200, "replace_option": 50, "word_accepted": 500, "word_refused": 200, "store_refused": 20, "number": 300, "plain_added": 1000, "overwritten": 100})

NAMES = ["DebugLib", "debuglib", "NULL", "null", "BaseLib"]
INFS = ["A/a.inf", "A/A.inf", "B/b.inf", "$(X)/c.inf"]
ARCHES = ["common", "COMMON", "IA32", "X64", "x64", " X64", "DEFAULT"]
MODS = ["common", "PEIM", "peim", "SEC", "DXE_DRIVER"]
info = lambda r: B.source_info(r.choice("ab"), r.choice([None, 1, 2])) if r.random() < .3 else None
any_arch = lambda a: "*" if a.strip().upper() in ("COMMON", "DEFAULT") else a.strip().upper()


def mk_section(r):
    a, m = r.choice(ARCHES), r.choice(MODS)
    return B.dsc_section_type(a, m), (any_arch(a), m.upper())


def mk_bo_section(r):
    a, cb, m = r.choice(ARCHES), r.choice(["common", "EDK", "edkii"]), r.choice(MODS)
    return B.dsc_buildoption_section_type(a, cb, m), (any_arch(a), cb.upper(), m.upper())


def mk_pcd_section(r):
    t, a, s = r.choice(["FixedAtBuild", "DYNAMICHII", "DynamicHii", "FeatureFlag", "DynamicExHii"]), r.choice(["common", "X64", "x64", "IA32"]), r.choice(["DEFAULT", "default", "SKU1", "SKU2"])
    st = r.choice([None, "Standard", "Manufacturing"]) if t.upper().endswith("HII") else None
    return B.dsc_pcd_section_type(t, a, s, st), (t.upper(), a.upper(), s.upper(), st)


def mk_pcd_comp(r):
    t = r.choice(["FixedAtBuild", "FIXEDATBUILD", "PatchableInModule", "FeatureFlag"])
    return B.dsc_pcd_component_type(t), t.upper()


def mk_sku(r):
    i, n = r.randrange(0, 4), r.choice(["DEFAULT", "A", "B", "C"])
    return B.sku_id(i, n, r.choice(["DEFAULT", "A"]), info(r)), (i, n)


def mk_component(r):
    i = r.choice(INFS)
    c = B.component(i, info(r))
    if r.random() < .3:
        c.library_classes.add(B.library_class("X", "x.inf"))
    return c, i


def mk_definition(r):
    n = r.choice(["A", "a", "B", "DEBUG"])
    return B.definition(n, r.choice(["1", "2"]), r.random() < .5, info(r)), n


def mk_library(r):
    i = r.choice(INFS)
    return B.library(i, info(r)), i


def mk_lib_class(r):
    n, i = r.choice(NAMES), r.choice(INFS)
    return B.library_class(n, i, info(r)), ("null", i) if n.lower() == "null" else n.lower()


def mk_pcd(r):
    ns, n = r.choice(["gTok", "gtok", "gTok.a"]), r.choice(["PcdA", "PcdB", "a.PcdA"])
    k = r.randrange(3)
    if k == 0:
        p = B.pcd(ns, n, r.choice("12"), info(r))
    elif k == 1:
        p = B.pcd_typed(ns, n, r.choice("12"), "UINT32", r.choice([0, 4]), info(r))
    else:
        p = B.pcd_variable(ns, n, 'L"V"', "gG", "0x0", r.choice([None, "1"]), r.choice([None, "NV,bs", ["NV"]]), info(r))
    return p, (ns, n)


def mk_option(r):
    k = (r.choice(["CC", "DLINK"]), r.choice(["FLAGS", "PATH"]), r.choice(["*", "DEBUG"]), r.choice(["*", "VS"]), r.choice(["*", "X64"]), r.choice([None, "GCC", "MSFT"]))
    return B.build_option(k[0], k[1], r.choice("xy"), k[2], k[3], k[4], k[5], r.random() < .5, info(r)), k


def mk_store(r):
    i = r.choice([0, 1, "1", 2])
    return B.default_store(i, r.choice(["Standard", "M"]), info(r)), int(i)


KINDS = {"section": mk_section, "bo_section": mk_bo_section, "pcd_section": mk_pcd_section, "pcd_component": mk_pcd_comp, "sku": mk_sku, "component": mk_component,
         "definition": mk_definition, "library": mk_library, "library_class": mk_lib_class, "pcd": mk_pcd, "option": mk_option, "store": mk_store}


def same(kind, a, b):
    return a[0] == b[0] or a[1] == b[1] if kind == "sku" else a == b


MODULES = "COMMON BASE SEC PEI_CORE PEIM DXE_CORE DXE_DRIVER DXE_RUNTIME_DRIVER DXE_SAL_DRIVER DXE_SMM_DRIVER SMM_CORE UEFI_DRIVER UEFI_APPLICATION USER_DEFINED".split()
PCD_TYPES = "FEATUREFLAG PATCHABLEINMODULE FIXEDATBUILD DYNAMIC DYNAMICEX DYNAMICDEFAULT DYNAMICHII DYNAMICVPD DYNAMICEXHII DYNAMICEXVPD".split()
CODEBASES = ["COMMON", "EDK", "EDKII"]
ATTRIBUTES = ["NV", "BS", "RT", "RO"]


def styled(rng, w):
    """The same word in another case and with blanks around it."""
    w = "".join(rng.choice([ch.upper(), ch.lower()]) for ch in w) if rng.random() < .6 else w
    return rng.choice(["", " ", "\t"]) + w + rng.choice(["", " ", "  "])


@ck.family("words", 2000, 100000)
def words(c):
    """The vocabulary of the headers and attributes: every word of it in any writing, and no other."""
    rng = c.rng
    vocab = rng.choice([MODULES, PCD_TYPES, CODEBASES, ATTRIBUTES])
    good = rng.random() < .7
    if good:
        w = rng.choice(vocab)
    else:
        w = rng.choice([rng.choice(vocab) + rng.choice("S_2."), rng.choice(vocab)[1:], rng.choice(rng.choice([MODULES, PCD_TYPES, CODEBASES, ATTRIBUTES])), "", "EDK2", "EDK_II", "SAL", "SMM", "NVS", "HII"])
        good = w in vocab
    x = styled(rng, w)
    arch = rng.choice(["IA32", "X64", "COMMON", "EBC"])
    xa = styled(rng, arch)
    c.note(vocabulary=vocab[1], word=x)
    c.event("word_accepted" if good else "word_refused")
    c.key(vocab[1], x, good)
    if vocab is MODULES:
        made = c.call(B.dsc_section_type, xa, x)
        made2 = c.call(B.dsc_buildoption_section_type, xa, "COMMON", x)
        look = lambda s: (s.arch, s.module_type)
        want = (arch, w.upper())
        c.equal(B.dsc_section_type.IsValidModuleType(w), good, "words:valid")
    elif vocab is CODEBASES:
        made = made2 = c.call(B.dsc_buildoption_section_type, xa, x)
        look = lambda s: (s.arch, s.codebase, s.module_type)
        want = (arch, w.upper(), "COMMON")
        c.equal(B.dsc_buildoption_section_type.IsValidCodeBase(w), good, "words:valid")
    elif vocab is PCD_TYPES:
        store = rng.choice([None, None, "Standard", " Standard ", "Mfg", ""])
        made = c.call(B.dsc_pcd_section_type, x, xa, "sku0", store)
        made2 = c.call(B.dsc_pcd_section_type, w.lower(), arch, "SKU0", store if store is None else store.strip())
        look = lambda s: (s.pcd_type, s.arch, s.sku, s.default_store)
        want = (w.upper(), arch, "SKU0", None if store is None else store.strip())
        if good:
            comp = c.must("words:component", B.dsc_pcd_component_type, x)
            c.equal((comp.pcd_type, repr(comp)), (w, "Pcds" + w), "words:component")
        else:
            c.must_raise("words:component", ValueError, B.dsc_pcd_component_type, x)
        if good and store is not None and not w.endswith("HII"):
            good = False
            c.event("store_refused")
    else:
        more = rng.sample(ATTRIBUTES, rng.randrange(0, 3))
        at = rng.randrange(len(more) + 1)
        full = more[:at] + [w] + more[at:]
        spelled = more[:at] + [x] + more[at:]
        made = c.call(B.pcd_variable, "g", "P", 'L"V"', "gG", "0", "1", ",".join(spelled))
        made2 = c.call(B.pcd_variable, "g", "P", 'L"V"', "gG", "0", "1", spelled)
        look = lambda s: s.attributes
        want = full
    for m in (made, made2):
        if not good:
            c.expect(isinstance(m.exc, ValueError), "words:accepted", word=x, error=repr(m.exc))
        elif c.expect(m.ok, "words:refused", word=x, error=repr(m.exc)):
            c.equal(look(m.value), want, "words:value", word=x)


@ck.family("numbers", 500, 20000)
def numbers(c):
    """Numbers may be given as text; what an entry was built from can be read back."""
    rng = c.rng
    n = rng.choice([0, 1, 4, 65535, rng.randrange(1 << 32)])
    given = rng.choice([n, str(n), f" {n} "])
    src = rng.choice([None, B.source_info("a.dsc"), B.source_info("a.dsc", 0), B.source_info("a.dsc", rng.randrange(1, 500))])
    t = c.must("numbers:typed", B.pcd_typed, "g", "P", "v", "VOID*", given, src)
    c.equal((t.namespace, t.name, t.value, t.datum_type, t.max_size), ("g", "P", "v", "VOID*", n), "numbers:typed")
    s = c.must("numbers:store", B.default_store, given, "Mfg", src)
    c.equal((s.index, s.value), (n, "Mfg"), "numbers:store")
    for o in (t, s):
        c.expect(o.source_info is src, "numbers:source")
    for bad in ("x", "0x", None, ""):
        c.expect(not c.call(B.pcd_typed, "g", "P", "v", "VOID*", bad).ok, "numbers:bad", given=repr(bad))
    if src is not None:
        c.equal(repr(src), "a.dsc" if src.lineno is None else f"a.dsc:{src.lineno}", "numbers:where")
    c.event("number")
    c.key(n, repr(given), repr(src))


@ck.family("laws", 4000, 200000)
def laws(c):
    """Equality is by key, symmetric, transitive (but for SKUs) and goes with the hash; no object equals one of another kind."""
    rng = c.rng
    pool = []
    for _ in range(rng.randrange(2, 9)):
        kind = rng.choice(list(KINDS)) if not pool or rng.random() < .3 else pool[0][0]
        pool.append((kind, *KINDS[kind](rng)))
    c.note(pool=[(k, m) for k, _, m in pool])
    for (k1, x, m1), (k2, y, m2) in itertools.product(pool, repeat=2):
        want = k1 == k2 and same(k1, m1, m2)
        c.event("pair")
        c.equal((x == y, x != y, y == x), (want, not want, want), "laws:equality", kinds=(k1, k2), keys=(m1, m2))
        if want:
            c.event("equal_pair")
            c.equal(hash(x), hash(y), "laws:hash", kind=k1, keys=(repr(x), repr(y)))
            c.event("case_only", k1 == "library_class" and x.libraryclass != y.libraryclass)
    for kind, x, m in pool:
        for alien in (None, 0, "A", m, object()):
            c.expect(not x == alien and x != alien, "laws:alien", kind=kind, alien=repr(alien))
    c.key([(k, m) for k, _, m in pool], nontrivial=len(pool) > 1)


@ck.family("sets", 4000, 200000)
def sets(c):
    """Histories over one dsc_set: the newest entry of each key stays, other kinds are refused."""
    rng = c.rng
    kinds = rng.sample(["sku", "component", "definition", "library", "library_class", "pcd", "option", "store"], rng.randrange(1, 3))
    if rng.random() < .25:
        kinds = ["sku"]
    types = {"pcd": [B.pcd, B.pcd_typed, B.pcd_variable], "sku": [B.sku_id], "component": [B.component], "definition": [B.definition], "library": [B.library],
             "library_class": [B.library_class], "option": [B.build_option], "store": [B.default_store]}
    allowed = [t for k in kinds for t in types[k]]
    if rng.random() < .2 and "pcd" in kinds:
        allowed.remove(rng.choice(types["pcd"]))
    s = c.must("new", B.dsc_set, allowed)
    model = []
    drop = lambda k, m: [e for e in model if not (e[0] == k and same(k, e[2], m))]
    for _ in range(rng.randrange(1, 25)):
        c.event("set_op")
        op = rng.randrange(8)
        kind = rng.choice(kinds) if rng.random() < .85 else rng.choice(list(types))
        x, m = KINDS[kind](rng)
        if op < 4:
            if type(x) in allowed:
                c.must("add", s.add, x)
                left = drop(kind, m)
                c.event("replaced", len(left) < len(model))
                c.event("sku_double", len(left) < len(model) - 1)
                model = left + [(kind, x, m)]
            else:
                c.must_raise("add-alien", ValueError, s.add, x)
                c.event("refused")
        elif op == 4:
            more = [(kind, x, m)] + [(k, *KINDS[k](rng)) for k in [rng.choice(kinds) for _ in range(rng.randrange(0, 3))]]
            more = [e for e in more if type(e[1]) in allowed]
            if rng.random() < .5:
                c.must("update", s.update, [e[1] for e in more])
            else:
                other = B.dsc_set(allowed)
                mm = []
                for e in more:
                    other.add(e[1])
                    mm = [q for q in mm if not (q[0] == e[0] and same(e[0], q[2], e[2]))] + [e]
                if any(k == "sku" for k in kinds):
                    more = None   # the order in which SKUs are merged decides which of them stay
                else:
                    more = mm
                before = s
                s |= other
                c.expect(s is before, "sets:ior-object")
            if more is None:
                model = [e for e in model + mm if any(e[1] is y for y in s)]
            else:
                for k, y, n in more:
                    model = drop(k, n) + [(k, y, n)]
        elif op == 5:
            s.discard(x)
            if any(e[0] == kind and same(kind, e[2], m) for e in model):
                if kind == "sku":
                    model = [e for e in model if any(e[1] is y for y in s)]   # either of two may go
                else:
                    model = drop(kind, m)
        elif op == 6 and rng.random() < .1:
            s.clear()
            model = []
        else:
            c.equal(x in s, any(e[0] == kind and same(kind, e[2], m) for e in model), "sets:in", item=repr(x))
        c.equal(len(s), len(model), "sets:len", set=[repr(x) for x in s], model=[repr(e[1]) for e in model])
        c.equal(sorted(map(id, s)), sorted(id(e[1]) for e in model), "sets:content", set=[repr(x) for x in s], model=[repr(e[1]) for e in model])
        c.expect(all(type(x) in allowed for x in s), "sets:alien-inside")
        if any(a[0] == b[0] and same(a[0], a[2], b[2]) for a, b in itertools.combinations(model, 2)):
            c.violate("sets:two-of-a-key", set=[repr(x) for x in s])
    c.key(kinds, [(k, m) for k, _, m in model], len(model), nontrivial=len(model) > 1)


SECTIONS = {"components": ("section", ["component", "definition"]), "library_classes": ("section", ["library_class", "definition"]), "libraries": ("section", ["library", "definition"]),
            "build_options": ("bo_section", ["option", "definition"]), "pcds": ("pcd_section", ["pcd"])}
CLASSES = {"components": [B.component, B.definition], "library_classes": [B.library_class, B.definition], "libraries": [B.library, B.definition],
           "build_options": [B.build_option, B.definition], "pcds": [B.pcd, B.pcd_typed, B.pcd_variable]}


@ck.family("plain", 1500, 60000)
def plain_parts(c):
    """The parts of a DSC that are sets: definitions everywhere, SKUs and default stores where they belong."""
    rng = c.rng
    d = B.dsc()
    allowed = {"skus": ["sku", "definition"], "default_stores": ["store", "definition"], "defines": ["definition"]}
    model = {n: [] for n in allowed}
    for _ in range(rng.randrange(1, 12)):
        n = rng.choice(list(allowed))
        box = getattr(d, n)
        kind = rng.choice(allowed[n]) if rng.random() < .7 else rng.choice(["sku", "store", "component", "library", "library_class", "option", "pcd", "definition"])
        x, m = KINDS[kind](rng)
        how = rng.randrange(4)
        if kind not in allowed[n]:
            c.must_raise("plain:alien", ValueError, *([box.add, x] if how else [box.update, [x]]))
            c.event("refused")
            continue
        if how == 0:
            c.must("plain:update", box.update, [x])
        elif how == 1:
            before = sorted(map(id, box))
            c.must("plain:self", box.update, box)
            c.equal(sorted(map(id, box)), before, "plain:self")
            continue
        else:
            c.must("plain:add", box.add, x)
        model[n] = [e for e in model[n] if not (e[0] == kind and same(kind, e[2], m))] + [(kind, x, m)]
        c.event("plain_added")
        c.equal(sorted(map(id, box)), sorted(id(e[1]) for e in model[n]), "plain:content", part=n)
    c.equal({n: len(getattr(d, n)) for n in allowed}, {n: len(m) for n, m in model.items()}, "plain:len")
    c.key([(n, [(e[0], e[2]) for e in m]) for n, m in model.items()], nontrivial=sum(map(len, model.values())) > 1)


@ck.family("sections", 3000, 150000)
def sections(c):
    """Histories over the sections of a DSC: each scope once, in order, with its own entries."""
    rng = c.rng
    d = B.dsc()
    names = rng.sample(list(SECTIONS), rng.randrange(1, 4))
    model = {n: {} for n in names}     # section key -> {entry key}
    for _ in range(rng.randrange(1, 25)):
        c.event("section_op")
        n = rng.choice(names)
        part, mod = getattr(d, n), model[n]
        skind, ekinds = SECTIONS[n]
        op = rng.randrange(8)
        if op == 0:   # a key of another kind
            other = rng.choice([k for k in ("section", "bo_section", "pcd_section") if k != skind])
            c.must_raise("sections:wrong-key", ValueError, part.__setitem__, KINDS[other](rng)[0], set())
            c.event("refused")
            continue
        sec, key = KINDS[skind](rng)
        if op == 1:
            if key in mod:
                c.must_raise("sections:again", ValueError, part.__setitem__, sec, set())
                c.event("section_duplicate")
            else:
                new = rng.choice([set(), B.dsc_set(CLASSES[n])])
                c.must("sections:new", part.__setitem__, sec, new)
                mod[key] = set()
        elif op == 2:   # a set made for other entries, or no set
            foreign = B.dsc_set(rng.choice([[B.sku_id], [B.sku_id, *CLASSES[n]]]))
            foreign.add(B.sku_id())
            wrong = rng.choice([foreign, foreign, {1}, "text", 3, B.sku_id()])
            c.must_raise("sections:wrong-set", ValueError, part.__setitem__, sec, wrong)
            c.event("refused")
        elif op == 3 and mod:
            k2 = rng.choice(list(mod))
            if k2 == key:
                del part[sec]
                del mod[key]
        elif op == 4:
            c.equal(sec in part, key in mod, "sections:in", section=repr(sec))
        else:
            s = c.must("sections:get", part.__getitem__, sec)
            mod.setdefault(key, set())
            ek = rng.choice(ekinds) if rng.random() < .8 else rng.choice(["sku", "store", "component", "library", "library_class", "option", "pcd", "definition", "section"])
            x, m = KINDS[ek](rng)
            if ek not in ekinds:
                c.must_raise("sections:alien", ValueError, s.add, x)
                c.event("refused")
            else:
                s.add(x)
                mod[key].add((ek, m))
        ident = {"section": lambda s: (any_arch(s.arch), s.module_type), "bo_section": lambda s: (any_arch(s.arch), s.codebase, s.module_type),
                 "pcd_section": lambda s: (s.pcd_type, s.arch, s.sku, s.default_store)}[skind]
        got = [(ident(s), len(v)) for s, v in part.items()]
        c.equal(got, [(k, len(v)) for k, v in mod.items()], "sections:items")
        c.equal((len(part), len(list(part)), len(part.values())), (len(mod),) * 3, "sections:len")
    c.key(names, [(n, sorted(map(repr, m))) for n, m in model.items()], nontrivial=sum(map(len, model.values())) > 1)


# -- whole DSCs

def gen_model(rng):
    """{part: {section: {key: entry tuple}}} of values that a DSC can hold."""
    nm = G.Names(rng)
    arch = lambda: rng.choice(["COMMON", "COMMON", "IA32", "X64", "AARCH64"])
    mod = lambda: rng.choice(["COMMON", rng.choice(MODULES)])
    lib = lambda: (rng.choice([nm.ident("", "Lib"), "NULL", "DebugLib"]), nm.path(".inf"))
    value = lambda: rng.choice(["TRUE", "0x10", "5", 'L"a|b"', '"x y"', "{0x1, 0x2}", "$(MACRO)", 'L"=="'])

    def pcd(kinds="ptv"):
        n, k = (rng.choice(["gTok", "gEfiMdeTok"]), nm.ident("Pcd")), rng.choice(kinds)
        if k == "p":
            return ("pcd", *n, value())
        if k == "t":
            return ("typed", *n, value(), rng.choice(["UINT8", "BOOLEAN", "VOID*"]), rng.choice([0, 0, 1, 4, 16, 65535]))
        d = rng.choice([None, "0x0", 'L"q|r"', ""])
        return ("var", *n, rng.choice(['L"Setup"', 'L"A|B"']), "gVarGuid", rng.choice(["0x0", "12"]), d, [] if d is None else rng.sample(["NV", "BS", "RT", "RO"], rng.randrange(0, 4)))

    def option():
        return ("option", rng.choice([None, "GCC", "MSFT"]), rng.choice(["*", "DEBUG"]), rng.choice(["*", "VS2022"]), rng.choice(["*", "X64"]), rng.choice(["CC", "DLINK"]), rng.choice(["FLAGS", "PATH"]),
                rng.choice(["-DX=1", "/ALIGN:4096 /D A = B", "", "$(FLAGS)", "=x"[1:]]), rng.random() < .3)

    def define(local=True):
        return ("define", nm.ident("DEF_"), rng.choice(["TRUE", "a b", "0x1=2", "$(OTHER)/x", '"q"']), local)
    some = lambda f, n=4: [f() for _ in range(rng.randrange(0, n))]
    libkey = lambda l: (l[0].lower(), l[1]) if l[0] == "NULL" else l[0].lower()
    okey = lambda o: o[1:7]
    m = {"defines": {}, "skus": {}, "library_classes": {}, "components": {}, "pcds": {}, "build_options": {}}
    for n, v in [("PLATFORM_NAME", "P"), ("SUPPORTED_ARCHITECTURES", rng.choice(["IA32|X64", "X64"]))]:
        m["defines"][n] = ("define", n, v, False)
    for e in some(lambda: define(rng.random() < .5)):
        m["defines"][e[1]] = e
    m["skus"][0] = ("sku", 0, "DEFAULT", "DEFAULT")
    for i in range(rng.randrange(0, 3)):
        m["skus"][i + 1] = ("sku", i + 1, f"SKU{i}", rng.choice(["DEFAULT", "SKU0"]))
    for _ in range(rng.randrange(0, 5)):
        sec = m["library_classes"].setdefault((arch(), mod()), {})
        for l in some(lib):
            sec[libkey(l)] = ("lib", *l)
        for e in some(define, 2):
            sec["define", e[1]] = e
    plain = rng.random() < .7
    for _ in range(rng.randrange(0, 4)):
        sec = m["components"].setdefault((arch(), "COMMON" if plain else mod()), {})
        for _ in range(rng.randrange(0, 4)):
            inf = nm.path(".inf")
            over = {"pcds": {}, "libs": {}, "defines": {}, "options": {}}
            if rng.random() < .5:
                for _ in range(rng.randrange(0, 5)):
                    t = rng.choice([t for t in PCD_TYPES if "HII" not in t])
                    over["pcds"].setdefault(t, {}).update({p[1:3]: p for p in some(lambda: pcd("pt"))})
                over["libs"] = {libkey(l): ("lib", *l) for l in some(lib)}
                over["defines"] = {e[1]: e for e in some(lambda: define(rng.random() < .3), 2)}
                over["options"] = {okey(o): o for o in some(option, 3)}
            sec[inf] = ("component", inf, over)
        if not plain:
            for e in some(define, 2):
                sec["define", e[1]] = e
    for _ in range(rng.randrange(0, 4)):
        t = rng.choice(PCD_TYPES)
        st = rng.choice([None, "Standard", "Manufacturing"]) if t.endswith("HII") else None
        sec = m["pcds"].setdefault((t, arch(), rng.choice(["DEFAULT", "SKU0"]), st), {})
        sec.update({p[1:3]: p for p in some(lambda: pcd("v" if t.endswith("HII") else "pt"))})
    for _ in range(rng.randrange(0, 3)):
        sec = m["build_options"].setdefault((arch(), rng.choice(["COMMON", "EDKII", "EDK"]), mod()), {})
        sec.update({okey(o): o for o in some(option)})
        for e in some(define, 2):
            sec["define", e[1]] = e
    return m, plain


def obj(e):
    k = e[0]
    if k == "define":
        return B.definition(e[1], e[2], e[3])
    if k == "sku":
        return B.sku_id(*e[1:])
    if k == "lib":
        return B.library_class(e[1], e[2])
    if k == "pcd":
        return B.pcd(*e[1:])
    if k == "typed":
        return B.pcd_typed(*e[1:])
    if k == "var":
        return B.pcd_variable(*e[1:])
    if k == "option":
        return B.build_option(e[5], e[6], e[7], e[2], e[3], e[4], e[1], e[8])
    c = B.component(e[1])
    for t, ps in e[2]["pcds"].items():
        c.pcds[B.dsc_pcd_component_type(t)] = {obj(p) for p in ps.values()}
    c.library_classes |= {obj(x) for x in e[2]["libs"].values()}
    c.defines |= {obj(x) for x in e[2]["defines"].values()}
    c.build_options |= {obj(x) for x in e[2]["options"].values()}
    return c


def build(rng, m):
    d = B.dsc()
    todo = [("defines", None, e) for e in m["defines"].values()] + [("skus", None, e) for e in m["skus"].values()]
    for part, mk in (("library_classes", B.dsc_section_type), ("components", B.dsc_section_type), ("pcds", B.dsc_pcd_section_type), ("build_options", lambda a, cb, mo: B.dsc_buildoption_section_type(a, cb, mo))):
        for sec, es in m[part].items():
            todo += [(part, mk(*sec), e) for e in es.values()] or [(part, mk(*sec), None)]
    rng.shuffle(todo)
    for part, sec, e in todo:
        s = getattr(d, part) if sec is None else getattr(d, part)[sec]
        if e is not None:
            s.add(obj(e))
    return d


def split(s, sep="|"):
    """Split outside of quotes."""
    out, cur, q = [], "", False
    for ch in s:
        if ch == '"':
            q = not q
        if ch == sep and not q:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return [x.strip() for x in out + [cur]]


def read_entry(line, kind):
    """One line of a section as the entry tuple it stands for."""
    m = re.match(r"(DEFINE\s+)?([A-Za-z_]\w*)\s*=\s*(.*)$", line)
    if kind in ("defines", "libs", "components") and m or kind in ("options", "build_options") and m and m.group(1):
        return ("define", m.group(2), m.group(3).strip(), bool(m.group(1)))
    if kind == "skus":
        i, n, p = split(line)
        return ("sku", int(i), n, p)
    if kind == "libs":
        n, i = split(line)
        return ("lib", n, i)
    if kind in ("options", "build_options"):
        m = re.match(r"(?:(\w+):)?([^_:]+)_([^_]+)_([^_]+)_([^_]+)_([^_=]+?)\s*(==?)\s*(.*)$", line)
        return ("option", *m.groups()[:6], m.group(8).strip(), m.group(7) == "==")
    f = split(line)
    ns, n = f[0].split(".", 1)
    if kind.endswith("HII"):
        return ("var", ns, n, f[1], f[2], f[3], f[4] if len(f) > 4 else None, [x.strip() for x in f[5].split(",")] if len(f) > 5 else [])
    if len(f) == 2:
        return ("pcd", ns, n, f[1])
    return ("typed", ns, n, f[1], f[2], int(f[3]) if len(f) > 3 else 0)


def norm(parts):
    """COMMON for whatever a header leaves out."""
    return [p.strip().upper() for p in parts]


def read_dsc(text):
    """A strict reader of the DSC subset: {part: {section: [entries]}}, every line must be understood."""
    m = {"defines": [], "skus": [], "library_classes": {}, "components": {}, "pcds": {}, "build_options": {}}
    cur = kind = over = okind = None
    for raw in text.split("\n"):
        line = raw.strip()
        if not line:
            continue
        h = re.fullmatch(r"\[([^\[\]]+)\]", line)
        if h:
            if over is not None:
                raise ValueError(f"section inside of a component: {line}")
            w, *p = h.group(1).split(".")
            w = w.strip().upper()
            if w == "DEFINES":
                cur, kind = m["defines"], "defines"
            elif w == "SKUIDS":
                cur, kind = m["skus"], "skus"
            elif w in ("LIBRARYCLASSES", "COMPONENTS"):
                part = "library_classes" if w[0] == "L" else "components"
                key = tuple((norm(p) + ["COMMON"] * 2)[:2])
                kind = "libs" if w[0] == "L" else "components"
                if len(p) > 2 or key in m[part]:
                    raise ValueError(f"header {line}")
                cur = m[part].setdefault(key, [])
            elif w.startswith("PCDS"):
                p = [x.strip() for x in p]
                key = (w[4:], p[0].upper() if p else "COMMON", p[1].upper() if len(p) > 1 else "DEFAULT", p[2] if len(p) > 2 else None)
                kind = w[4:]
                if len(p) > 3 or key in m["pcds"]:
                    raise ValueError(f"header {line}")
                cur = m["pcds"].setdefault(key, [])
            elif w == "BUILDOPTIONS":
                key, kind = tuple((norm(p) + ["COMMON"] * 3)[:3]), "build_options"
                if len(p) > 3 or key in m["build_options"]:
                    raise ValueError(f"header {line}")
                cur = m["build_options"].setdefault(key, [])
            else:
                raise ValueError(f"header {line}")
            continue
        if over is not None:
            s = re.fullmatch(r"<(\w+)>", line)
            if line == "}":
                over = None
            elif s:
                w = s.group(1).upper()
                okind = {"LIBRARYCLASSES": "libs", "DEFINES": "defines", "BUILDOPTIONS": "options"}.get(w, w)
                if okind == w:
                    if not w.startswith("PCDS") or w[4:] in over["pcds"]:
                        raise ValueError(line)
                    over["pcds"][w[4:]] = []
            elif okind.startswith("PCDS"):
                over["pcds"][okind[4:]].append(read_entry(line, okind[4:]))
            else:
                over[okind].append(read_entry(line, okind))
            continue
        if kind == "components" and not re.match(r"DEFINE\s", line):
            inf = line
            o = {"pcds": {}, "libs": [], "defines": [], "options": []}
            if line.endswith("{"):
                inf, over, okind = line[:-1].strip(), o, None
            cur.append(("component", inf, o))
            continue
        cur.append(read_entry(line, kind))
    if over is not None:
        raise ValueError("component without end")
    return m


def flat(m):
    """Model and reading in one comparable form, without order."""
    ls = lambda es: sorted((repr(one(e)) for e in (es.values() if isinstance(es, dict) else es)))

    def one(e):
        if e[0] == "component":
            return (e[0], e[1], sorted((t, ls(p)) for t, p in e[2]["pcds"].items()), ls(e[2]["libs"]), ls(e[2]["defines"]), ls(e[2]["options"]))
        return tuple(sorted(x) if isinstance(x, list) else x for x in e)
    return {k: ls(v) if k in ("defines", "skus") else {s: ls(es) for s, es in v.items()} for k, v in m.items()}


@ck.family("written", 2500, 100000)
def written(c):
    """A DSC object written to a file reads back as the same DSC, by a strict reader and by DscParser."""
    rng = c.rng
    m, plain = gen_model(rng)
    d = build(rng, m)
    path = os.path.join(c.tmp, "out.dsc")
    if rng.random() < .3:   # over an older file, which was longer or shorter
        c.event("overwritten")
        with open(path, "w", encoding="utf-8") as f:
            f.write("[Defines]\n  OLD = 1\n" * rng.choice([1, 400]))
    with contextlib.redirect_stdout(io.StringIO()):
        c.must("write", DscTranslator.dsc_to_file, d, path)
    with open(path, encoding="utf-8") as f:
        text = f.read()
    c.note(text=text)
    c.event("written")
    try:
        got = read_dsc(text)
    except (ValueError, AttributeError, KeyError, TypeError, IndexError) as e:
        c.violate("written:malformed", error=repr(e))
        return
    want = flat(m)
    got = flat(got)
    for part in want:
        c.equal(got[part], want[part], "written:" + part)
    n = sum(len(es) for p in ("library_classes", "components", "pcds", "build_options") for es in m[p].values())
    c.event("entry_written", n + len(m["defines"]) + len(m["skus"]))
    c.event("override_written", sum(any(e[2].values()) for es in m["components"].values() for e in es.values() if e[0] == "component"))
    c.event("replace_option", sum(e[0] == "option" and e[8] for es in m["build_options"].values() for e in es.values()))
    # the same content in another order is an equal object, one with another entry is not
    d2 = build(rng, m)
    c.expect(d == d2 and not d != d2, "written:equal-objects")
    part = rng.choice(["skus", "components", "library_classes", "build_options", "pcds", "defines"])
    extra = {"skus": B.sku_id(77, "Z"), "components": B.component("Extra.inf"), "library_classes": B.library_class("ExtraLib", "x.inf"), "build_options": B.build_option("ASL", "FLAGS", "x"),
             "pcds": B.pcd("gTok", "PcdExtra", "1"), "defines": B.definition("EXTRA", "1")}[part]
    box = getattr(d2, part)
    if part not in ("skus", "defines"):
        secs = list(box)
        new = {"components": B.dsc_section_type("EBC"), "library_classes": B.dsc_section_type("EBC"), "build_options": B.dsc_buildoption_section_type("EBC"), "pcds": B.dsc_pcd_section_type("DYNAMICVPD")}[part]
        box = box[rng.choice(secs + [new])]
    box.add(extra)
    c.expect(d != d2 and not d == d2 and not d2 == d, "written:different-objects", part=part)
    c.event("unequal_dsc")
    c.key(text, nontrivial=n > 1)
    if not plain:
        return
    p = DscParser()
    with quiet():
        o = c.call(p.ParseFile, path)
    if not c.expect(o.ok, "parsed:raises", error=repr(o.exc), tb=o.tb[-600:]):
        return
    c.event("dsc_parsed")
    archs = m["defines"]["SUPPORTED_ARCHITECTURES"][2].split("|")
    wc = collections.Counter()
    for (a, _), es in m["components"].items():
        for e in es.values():
            libs = frozenset((x[1].lower(), x[2]) for x in e[2]["libs"].values())
            for b in archs if a == "COMMON" else [a.lower()]:
                wc[e[1], b, libs] += 1
    gc = collections.Counter((inf, sc, frozenset([("null", x) for x in ov["NULL"]] + [(k, v) for k, v in ov.items() if k != "NULL"])) for inf, sc, ov in p.Components)
    c.equal(gc, wc, "parsed:components")
    wl = {}
    for (a, mo), es in m["library_classes"].items():
        for e in es.values():
            if e[0] == "lib":
                wl.setdefault(f"{a}.{'' if mo == 'COMMON' else mo + '.'}{e[1]}".lower(), set()).add(e[2])
    c.equal({k: set(v) for k, v in p.ScopedLibraryDict.items()}, wl, "parsed:libraries")
    for e in m["defines"].values():
        if "$(" not in e[2]:
            c.equal(p.LocalVars.get(e[1]), e[2], "parsed:define", name=e[1])


sys.exit(ck.main())
