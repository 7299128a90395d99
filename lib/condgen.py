"""Generator of nested conditional blocks with a reference interpreter built in."""

DEFINED = {"D_ONE": "1", "D_ZERO": "0", "D_STR": "Hello", "D_NUM": "17", "D_TRUE": "TRUE", "D_FALSE": "FALSE", "D_EMPTY": ""}
UNDEFINED = ["U_A", "U_B", "D_ON", "D_ONE_X"]


def recase(rng, word):
    m = rng.randrange(4)
    return word if m < 2 else word.upper() if m == 2 else "".join(rng.choice([ch.lower(), ch.upper()]) for ch in word)


def cond(rng, want):
    """An (expression, keyword) whose truth is `want`."""
    t = rng.randrange(9)
    if t == 0:
        return rng.choice(["TRUE", "1", "$(D_ONE)", "$(D_TRUE)", "5", "0x1"]) if want else rng.choice(
            ["FALSE", "0", "$(D_ZERO)", "$(D_FALSE)", "$(U_A)", "0x0"])
    if t == 1:
        op = rng.choice(["==", "EQ", "eq"]) if want else rng.choice(["!=", "NE", "ne"])
        return f"$(D_NUM) {op} 17"
    if t == 2:
        return f'$(D_STR) {"==" if want else "!="} "Hello"'
    if t == 3:
        return f"$(D_NUM) {rng.choice(['<', '<=']) if want else rng.choice(['>', '>='])} {rng.randrange(18, 99)}"
    if t == 4:
        return f"({cond(rng, want)}) AND (1 == 1)" if want else f"({cond(rng, rng.random() < .5)}) AND ($(U_B))"
    if t == 5:
        return f"({cond(rng, rng.random() < .5)}) OR (1 == 1)" if want else f"({cond(rng, False)}) || (2 == 1)"
    if t == 6:
        return f"NOT ({cond(rng, not want)})"
    if t == 7:
        return f'"ell" {"IN" if want else "NOT IN"} $(D_STR)'
    return f'"{rng.randrange(9)}" {"!=" if want else "=="} "x#y"'


def opener(rng, want):
    m = rng.randrange(4)
    pad = " " * rng.randrange(1, 4)
    if m == 0:
        name = rng.choice(list(DEFINED)) if want else rng.choice(UNDEFINED)
        return recase(rng, "!ifdef") + pad + (name if rng.random() < .6 else f"$({name})")
    if m == 1:
        name = rng.choice(list(DEFINED)) if not want else rng.choice(UNDEFINED)
        return recase(rng, "!ifndef") + pad + (name if rng.random() < .6 else f"$({name})")
    return recase(rng, "!if") + pad + cond(rng, want)


BAD_CONDS = ["TRUE > 3", "$(U_A) AND", "1 == ", "BOOGIE < 4", "((1)"]


class Block:
    """Random nesting; self.lines = [(text, kind, active)] with kind 'd' directive or 'c' content."""

    def __init__(self, rng, content, depth=3, width=4, active=True, hostile=True, deep=0):
        """With deep > 0, one chain of that many groups inside of each other."""
        self.rng, self.content, self.hostile, self.deep = rng, content, hostile, deep
        self.lines = []
        self.groups = self.branches = self.maxdepth = 0
        self.block(deep or depth, width, active, 0)

    def emit(self, text, kind, active):
        ind = " " * self.rng.choice([0, 0, 2, 5])
        self.lines.append((ind + text, kind, active))

    def block(self, depth, width, active, level):
        rng = self.rng
        self.maxdepth = max(self.maxdepth, level)
        chain = bool(self.deep and depth > 0)
        for _ in range(rng.randrange(1, 3) if self.deep else rng.randrange(1, width + 1)):
            if chain or (not self.deep and depth > 0 and rng.random() < .55):
                self.group(depth - 1, width, active, level + 1)
                chain = False
            else:
                for line in self.content(rng, active):
                    self.emit(line, "c", active)

    def group(self, depth, width, active, level):
        rng = self.rng
        self.groups += 1
        done = False
        nbr = rng.choice([0, 0, 0, 1, 2] if self.deep else [0, 0, 1, 2, 3])
        inner = rng.randrange(nbr + 1)
        for b in range(nbr + 1):
            want = rng.random() < (.85 if self.deep and b == inner else .45 if not self.deep else .1)
            evaluated = active and not done
            if b == 0:
                text = opener(rng, want)
                if not active and self.hostile and rng.random() < .15:
                    text, want = "!if " + rng.choice(BAD_CONDS), False
            else:
                text = recase(rng, "!elseif") + " " + cond(rng, want)
                if not evaluated and self.hostile and rng.random() < .15:
                    text = "!elseif " + rng.choice(BAD_CONDS)
            self.emit(text, "d", active)
            take = evaluated and want
            if take:
                done = True
            self.branches += 1
            if self.deep:
                self.block(depth if b == inner else 0, 1, take, level)
            elif rng.random() < .9:
                self.block(depth, max(1, width - 1), take, level)
        if rng.random() < .6:
            self.emit(recase(rng, "!else"), "d", active)
            self.branches += 1
            self.block(0 if self.deep else depth, max(1, width - 1), active and not done, level)
        self.emit(recase(rng, "!endif"), "d", active)
