"""P02: conditional expressions evaluate to their specified truth value."""
import sys

from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser

mute_logging()
ck = Check("P02", ["edk2toollib/uefi/edk2/parsers/base_parser.py"],
           rule="a case is one expression tree rendered to text; distinct by text; non-trivial when it has an operator",
           min_events={"true": 300, "false": 300, "refused": 300})

MACROS = {"NUM": "17", "HEX": "0x2A", "T": "TRUE", "F": "FALSE", "S": "Alpha", "S2": "Alpha_Beta", "Z": "0",
          "ONE": "1", "NEG": "-3", "Q": '"Alpha"'}
ALIAS = {"==": ["==", "EQ", "eq", "Eq"], "!=": ["!=", "NE", "ne", "nE"], "AND": ["AND", "and", "And", "&&"],
         "OR": ["OR", "or", "oR", "||"], "IN": ["IN", "in", "In"], "NOT": ["NOT", "not", "!"],
         "<": ["<"], ">": [">"], "<=": ["<="], ">=": [">="]}


def num(rng):
    """(text, value) of a numeric atom."""
    m = rng.randrange(8)
    if m == 0:
        return "$(NUM)", 17
    if m == 1:
        return "$(HEX)", 42
    if m == 2:
        v = rng.randrange(1 << rng.choice([4, 8, 16, 33, 64]))
        return rng.choice(["0x%x", "0X%X", "0x%08X", "0x%016x", "0x%024X"]) % v, v
    if m == 3:
        return "$(UNDEFINED_%d)" % rng.randrange(3), 0
    if m == 4:
        v = rng.randrange(0, 60)
        return "0" * rng.choice([0, 0, 0, 1, 3]) + str(v), v
    if m == 5:
        return rng.choice([("$(Z)", 0), ("$(ONE)", 1), ("$(NEG)", -3), ("-1", -1)])
    v = rng.choice([0, 1, 2, 16, 17, 42, 10, 9])
    return rng.choice([str(v), "0x%x" % v]), v


STRINGS = ["", "Alpha", "alpha", "A B", "x==y", "(p)", "a AND b", "NOT", "&&", "A#B", "0x", "TRUEX", "<", "it's", "Beta", "!"]


def string(rng):
    """(text, value) of a string atom: quoted, or bare word / macro."""
    m = rng.randrange(5)
    if m == 0:
        return rng.choice([("$(S)", "Alpha"), ("$(S2)", "Alpha_Beta"), ("$(Q)", "Alpha"), ('"$(S)"', "Alpha"),
                           ("Alpha", "Alpha"), ("Beta", "Beta")])
    s = rng.choice(STRINGS) if m < 4 else "".join(rng.choice("abAB_ .-/\\") for _ in range(rng.randrange(1, 8)))
    return '"%s"' % s, s


def boolean(rng):
    return rng.choice([("TRUE", True), ("FALSE", False), ("true", True), ("False", False), ("$(T)", True), ("$(F)", False)])


def leaf_int(rng):
    t, v = num(rng)
    return t, bool(v), "atom"


class Gen:
    """Builds (tokens, value, kind); tokens keep room for random spacing."""

    def __init__(self, rng):
        self.rng = rng
        self.ops = 0

    def op(self, name):
        self.ops += 1
        return self.rng.choice(ALIAS[name])

    def paren(self, toks):
        return ["("] + toks + [")"]

    def cmp_(self):
        rng = self.rng
        m = rng.randrange(7)
        if m == 6:  # a relational comparison is tighter than an equality
            (a, x), (b, y), (t, z) = num(rng), num(rng), boolean(rng)
            r = rng.choice(["<", ">", "<=", ">="])
            v = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[r]
            o = rng.choice(["==", "!="])
            toks = [t, self.op(o), a, self.op(r), b] if rng.random() < .6 else [a, self.op(r), b, self.op(o), t]
            return toks, (v == z) == (o == "==")
        if m <= 1:  # numeric equality
            (a, x), (b, y) = num(rng), num(rng)
            if rng.random() < .4:
                b, y = rng.choice([str(x), "0x%x" % x]) if x >= 0 else str(x), x
            o = rng.choice(["==", "!="])
            return [a, self.op(o), b], (x == y) if o == "==" else (x != y)
        if m == 2:
            (a, x), (b, y) = num(rng), num(rng)
            o = rng.choice(["<", ">", "<=", ">="])
            v = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[o]
            neg = rng.random() < .1
            toks = [a] + ([rng.choice(["NOT", "not"])] if neg else []) + [self.op(o), b]
            return toks, v != neg
        if m == 3:
            (a, x), (b, y) = string(rng), string(rng)
            if rng.random() < .35:
                b, y = '"%s"' % x, x
            o = rng.choice(["==", "!="])
            return [a, self.op(o), b], (x == y) if o == "==" else (x != y)
        if m == 4:
            (b, y) = string(rng)
            if rng.random() < .6 and y:
                i = rng.randrange(len(y))
                x = y[i:rng.randrange(i, len(y)) + 1]
                a = '"%s"' % x
            else:
                a, x = string(rng)
            neg = rng.random() < .4
            return [a] + (["NOT"] if neg else []) + [self.op("IN"), b], (x in y) != neg
        (a, x), (b, y) = boolean(rng), boolean(rng)
        if rng.random() < .3:
            b, y = rng.choice([("1", 1), ("0", 0)])
        o = rng.choice(["==", "!="])
        return [a, self.op(o), b], (int(x) == int(y)) if o == "==" else (int(x) != int(y))

    def term(self, d):
        """A value of precedence at least that of a comparison."""
        rng = self.rng
        m = rng.randrange(10)
        if d <= 0 or m < 3:
            if m == 0:
                t, v = num(rng)
                return [t], bool(v)
            if m == 1:
                t, v = boolean(rng)
                return [t], v
            return self.cmp_()
        if m < 5:
            n = self.op("NOT")
            if rng.random() < .3:
                t, v = boolean(rng) if rng.random() < .5 else num(rng)
                if n == "!":
                    return [n, t], not v
                return [n, t], not v
            toks, v = self.expr(d - 1)
            if rng.random() < .3:  # repeated negations: the result is a truth value, whatever was negated
                k = rng.randrange(2, 5)
                base = self.paren(toks)
                if rng.random() < .5:
                    t, z = num(rng)
                    base, v = [t], bool(z)
                toks = [rng.choice(["NOT", "not", "!"]) for _ in range(k)] + base
                self.ops += k
                v = v == (k % 2 == 0)
                if rng.random() < .4:
                    o, (t, z) = rng.choice(["==", "!="]), rng.choice([("1", True), ("0", False), ("TRUE", True), ("false", False)])
                    return toks + [self.op(o), t], (v == z) == (o == "==")
                return toks, v
            return [n] + self.paren(toks), not v
        if m == 5:  # compare two truth values
            a, x = self.expr(d - 1)
            b, y = self.expr(d - 1)
            o = rng.choice(["==", "!="])
            # both sides must be genuine truth values, so wrap them in a double negation of parentheses
            return (["NOT"] + self.paren(a) + [self.op(o), "NOT"] + self.paren(b)), (x == y) == (o == "==")
        toks, v = self.expr(d - 1)
        return self.paren(toks), v

    def expr(self, d):
        rng = self.rng
        toks, v = self.term(d)
        n = rng.choice([0, 0, 1, 1, 2, 3]) if d >= 0 else 0
        o = rng.choice(["AND", "OR"])
        for _ in range(n):
            t, w = self.term(d - 1)
            if rng.random() < .08:   # negated connective: a NOT OR b
                toks = self.paren(toks + [rng.choice(["NOT", "not"]), rng.choice([o, o.lower()])] + t)
                v = not ((v and w) if o == "AND" else (v or w))
                self.ops += 1
            else:
                toks = toks + [self.op(o)] + t
                v = (v and w) if o == "AND" else (v or w)
        return toks, bool(v)


TIGHT = {"==", "!=", "<", ">", "<=", ">="}


def render(rng, toks, canonical=False):
    out = ""
    for i, t in enumerate(toks):
        if i:
            p = toks[i - 1]
            glue = p == "(" or t == ")" or (p == "!" and t == "(")
            if t in TIGHT and p.endswith(")") and rng.random() < .3:
                glue = True
            if p in TIGHT and (t == "(" or t[0].isdigit()) and rng.random() < .3:
                glue = True
            if canonical:
                glue = False
            if glue and rng.random() < .7:
                pass
            else:
                out += rng.choice([" ", " ", " ", "  ", "\t", "   "]) if not canonical else " "
        out += t
    return out


@ck.family("tree", 12000, 250000)
def tree(c):
    g = Gen(c.rng)
    toks, v = g.expr(c.rng.randrange(0, 5))
    text = render(c.rng, toks)
    c.key(text, nontrivial=g.ops > 0)
    c.note(expr=text, want=v)
    p = BaseParser("")
    if c.rng.random() < .5:
        p.SetInputVars(dict(MACROS))
    else:
        p.LocalVars = dict(MACROS)
    d = c.rng.choice(["!if ", "!IF ", "!If\t", "!elseif ", "!ELSEIF  ", "  !if   "])
    r = c.must("tree:evaluate", lambda: p.EvaluateConditional(p.ReplaceVariables(d + text)))
    c.expect(isinstance(r, bool) or r in (0, 1), "tree:not-a-truth-value", got=r)
    c.expect(bool(r) == v, "tree:value", got=r, want=v, expr=text)
    c.event("true" if v else "false")
    # the same tree with canonical spelling and spacing has the same value
    r2 = c.must("tree:respelled", lambda: p.EvaluateConditional(p.ReplaceVariables("!if " + render(c.rng, toks, canonical=True))))
    c.expect(bool(r2) == bool(r), "tree:spelling-changes-value", expr=text)
    # as a directive
    q = BaseParser("")
    q.SetInputVars(dict(MACROS))
    c.must("tree:directive", lambda: q.ProcessConditional(q.ReplaceVariables("!if " + text)))
    c.expect(q.InActiveCode() == v, "tree:directive-state", expr=text)


@ck.family("malformed", 4000, 80000)
def malformed(c):
    """Take a valid token list, break it, expect an error."""
    rng = c.rng
    g = Gen(rng)
    toks, v = g.expr(rng.randrange(0, 4))
    m = rng.randrange(6)
    ops = {"==", "!=", "<", ">", "<=", ">="}
    words = {"EQ", "NE", "AND", "OR", "IN", "&&", "||"}
    isop = lambda t: t in ops or t.upper() in words  # noqa
    isatom = lambda t: not isop(t) and t not in "()" and t.upper() != "NOT" and t != "!"  # noqa
    idx_ops = [i for i, t in enumerate(toks) if isop(t)]
    idx_atoms = [i for i, t in enumerate(toks) if isatom(t)]
    if m == 0:    # missing operand at the end
        toks = toks + [rng.choice(["AND", "==", "||", "<", "IN"])]
    elif m == 1:  # stray NOT at the end
        toks = toks + [rng.choice(["NOT", "!"])]
    elif m == 2:  # two operands in a row
        i = rng.choice(idx_atoms)
        toks = toks[:i] + [toks[i], rng.choice(["1", "TRUE", '"x"'])] + toks[i + 1:]
    elif m == 3:  # operator doubled
        if not idx_ops:
            toks = [rng.choice(["AND", "=="])] + toks
        else:
            i = rng.choice(idx_ops)
            toks = toks[:i] + [toks[i], rng.choice(["AND", "=="])] + toks[i + 1:]
    elif m == 4:  # unbalanced parenthesis
        if rng.random() < .5:
            i = rng.choice(idx_atoms)
            toks = toks[:i] + ["("] + toks[i:]
        else:
            toks = toks + [")"]
    else:         # operand missing
        i = rng.choice(idx_atoms)
        toks = toks[:i] + toks[i + 1:]
        # (an operand missing after a prefix NOT in front of an operator would be the combined operator)
        if i and toks and i <= len(toks) and toks[i - 1].upper() in ("NOT", "!"):
            return
    text = render(rng, toks, canonical=True)
    if not text:
        return
    c.key("m" + text)
    c.note(expr=text, kind=m)
    p = BaseParser("")
    p.SetInputVars(dict(MACROS))
    o = c.call(lambda: p.EvaluateConditional(p.ReplaceVariables("!if " + text)))
    c.expect(not o.hang and o.exc is not None and not isinstance(o.exc, RecursionError), f"malformed:{m}-accepted", expr=text, outcome=o)
    c.event("refused")


@ck.family("types", 2500, 50000)
def types(c):
    """Relational comparison of non-numbers is refused in either order and position."""
    rng = c.rng
    bad = rng.choice(["TRUE", "FALSE", "true", '"abc"', "Rocket", "$(S)", "$(T)", '""'])
    t, v = num(rng)
    o = rng.choice(["<", ">", "<=", ">="])
    a, b = (bad, t) if rng.random() < .5 else (t, bad)
    text = f"{a} {o} {b}"
    pre = rng.choice(["", "1 == 1 AND ", "NOT (1 == 2) && ", "(2 > 1) AND "])
    text = pre + text
    c.key("t" + text)
    c.note(expr=text)
    p = BaseParser("")
    p.SetInputVars(dict(MACROS))
    o_ = c.call(lambda: p.EvaluateConditional(p.ReplaceVariables("!if " + text)))
    c.expect(o_.exc is not None, "types:accepted", expr=text, outcome=o_)
    c.event("refused")


@ck.family("compute", 3000, 60000)
def compute(c):
    """ComputeResult on single operations, operands as text or numbers."""
    rng = c.rng
    p = BaseParser("")
    m = rng.randrange(3)
    o = rng.choice(["==", "!=", "<", ">", "<=", ">="])
    x, y = rng.randrange(-20, 300), rng.randrange(-20, 300)
    if rng.random() < .3:
        y = x
    sp = lambda v: rng.choice([v, str(v)] + (["0x%X" % v, '"%d"' % v if o in ("==", "!=") else str(v)] if v >= 0 else []))  # noqa
    want = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[o]
    a, b = sp(x), sp(y)
    if m == 0:
        o, want = rng.choice([("AND", bool(x and y)), ("OR", bool(x or y)), ("and", bool(x and y)), ("Or", bool(x or y))])
        a, b = sp(x), sp(y)
        a, b = [v.strip('"') if isinstance(v, str) else v for v in (a, b)]
    c.key("c", a, o, b)
    c.note(a=a, op=o, b=b)
    r = c.must("compute", p.ComputeResult, a, o, b)
    c.expect(bool(r) == want, "compute:value", a=a, op=o, b=b, got=r, want=want)
    c.event("true" if want else "false")
    s = rng.choice(["0x%X", "0X%x", "0x%04x"]) % abs(x) if rng.random() < .5 else str(x)
    c.equal(c.must("compute:int", p.ConvertToInt, s), int(s, 0) if "x" in s.lower() else int(s), "compute:ConvertToInt")


if __name__ == "__main__":
    sys.exit(ck.main())
