"""P35: TPM command streams and policy digests follow the TPM 2.0 marshalling rules."""
import hashlib
import struct
import sys

from vh import Check, mute_logging

mute_logging()
from edk2toollib.tpm import tpm2_policy_calc as C
from edk2toollib.tpm import tpm2_stream as S

from tpmtables import COMMANDS

ck = Check("P35", ["edk2toollib/tpm/tpm2_stream.py", "edk2toollib/tpm/tpm2_policy_calc.py"],
           rule="a case is one history of stream operations or one policy tree or one refused operand; distinct by its content; non-trivial when the stream was changed after elements were added / the tree has an inner node",
           min_events={"stream": 300, "element": 1000, "update": 300, "observed_stream": 1000, "tree": 300, "or_node": 300, "and_node": 150, "solo_node": 150, "locality_combined": 50, "locality_upper": 50, "refused": 500, "sha384": 100})
LIMIT = {1: 0xFF, 2: 0xFFFF, 4: 0xFFFFFFFF, 8: (1 << 64) - 1}


def number(rng, size):
    return rng.choice([0, 1, LIMIT[size], LIMIT[size] >> 1, (LIMIT[size] >> 1) + 1, rng.randrange(LIMIT[size] + 1)])


@ck.family("stream", 4000, 60000)
def stream(c):
    """Any history of additions, buffer updates and reads against a model that marshals from scratch."""
    rng = c.rng
    tag, code = number(rng, 2), number(rng, 4)
    first = rng.choice([0, 0x10, LIMIT[4], rng.getrandbits(32)])
    st = c.must("stream", S.Tpm2CommandStream, tag, first, code)
    model, hist, late = [], [], False
    pool = []

    def raw(m):
        return m[1].to_bytes(m[0], "big") if isinstance(m, tuple) else len(m[0]).to_bytes(2, "big") + m[0]

    def observe():
        body = b"".join(raw(m) for _, m in model)
        want = tag.to_bytes(2, "big") + (10 + len(body)).to_bytes(4, "big") + code.to_bytes(4, "big") + body
        c.event("observed_stream")
        if rng.random() < 0.5:
            c.equal(c.must("stream:get_size", st.get_size), len(want), "stream:get_size", history=hist)
        got = c.must("stream:get_stream", st.get_stream)
        c.equal(bytes(got), want, "stream:bytes", history=hist)
        c.equal(c.must("stream:get_size", st.get_size), len(want), "stream:get_size", history=hist)
        c.equal(st.header.size, len(want), "stream:header-size", history=hist)
        for e, m in model:
            c.equal(bytes(c.must("element:marshal", e.marshal)), raw(m), "element:marshal")
            c.equal(c.must("element:get_size", e.get_size), len(raw(m)), "element:get_size")

    long = rng.random() < 0.03
    if long:
        c.event("long_stream")
    for _ in range(rng.randrange(60, 120) if long else rng.randrange(1, 12)):
        k = rng.choice(["prim", "prim", "buf", "buf", "update", "update", "again", "read", "value"])
        if k == "prim":
            n = rng.choice([1, 2, 4, 8])
            v = number(rng, n)
            e = (c.must("primitive", S.Tpm2StreamPrimitive, n, v), (n, v))
        elif k == "buf":
            d = rng.randbytes(rng.choice([0, 1, 2, 20, 32, 255, 256, 257, 1000]))
            m = [d]
            e = (c.must("buffer", S.TPM2B, d), m)
            pool.append(e)
        elif k == "update" and pool:
            b, m = rng.choice(pool)
            m[0] = rng.randbytes(rng.choice([0, 1, 3, 32, 64, 300, len(m[0])]))
            c.must("buffer:update", b.update_data, m[0])
            hist.append(f"update to {len(m[0])}")
            c.event("update")
            late = True
            continue
        elif k == "again" and pool:
            e = rng.choice(pool)
        elif k == "read":
            observe()
            hist.append("read")
            continue
        else:
            continue
        c.must("stream:add", st.add_element, e[0])
        model.append(e)
        c.event("element")
        hist.append(f"add {k}")
    observe()
    c.event("stream")
    c.key(tag, code, hist, nontrivial=late or len(model) > 1)
    c.note(history=hist)


def digest(alg, b):
    return hashlib.new(alg, b).digest()


def gen_prim(c):
    rng = c.rng
    k = rng.choice(["low", "low", "high", "cc", "cc", "cc", "none"])
    if k == "none":
        v = rng.choice([None, [], ()])
        return C.PolicyLocality, v, struct.pack(">IB", 0x16F, 0)
    if k == "low":
        v = [rng.randrange(5) for _ in range(rng.randrange(1, 6))]
        c.event("locality_combined", int(len(set(v)) > 1))
        bits = 0
        for x in set(v):
            bits += 2 ** x
        return C.PolicyLocality, v, struct.pack(">IB", 0x16F, bits)
    if k == "high":
        v = rng.choice([32, 33, 63, 64, 127, 128, 254, 255, rng.randrange(32, 256)])
        c.event("locality_upper")
        return C.PolicyLocality, [v], struct.pack(">IB", 0x16F, v)
    n = rng.choice(list(COMMANDS))
    return C.PolicyCommandCode, n, struct.pack(">II", 0x16C, COMMANDS[n])


def gen_tree(c, depth):
    """(object, oracle(alg) -> digest, description)"""
    rng = c.rng
    k = rng.choice(["or", "or", "and", "solo"]) if depth else rng.choice(["and", "solo"])
    if k == "solo":
        cls, arg, buf = gen_prim(c)
        c.event("solo_node")
        p = c.must("primitive", cls, arg)
        c.equal(bytes(c.must("primitive:buffer", p.get_buffer_for_digest)), buf, "primitive:buffer", arg=repr(arg))
        return c.must("solo", C.PolicyTreeSolo, p), (lambda a: digest(a, bytes(hashlib.new(a).digest_size) + buf)), ("solo", arg)
    if k == "and":
        ps = [gen_prim(c) for _ in range(rng.randrange(1, 6) if rng.random() > 0.04 else rng.choice([17, 33, 70, 130]))]
        c.event("and_node")

        def oracle(a):
            d = bytes(hashlib.new(a).digest_size)
            for _, _, buf in ps:
                d = digest(a, d + buf)
            return d
        return c.must("and", C.PolicyTreeAnd, [c.must("primitive", cl, x) for cl, x, _ in ps]), oracle, ("and", [x for _, x, _ in ps])
    subs = [gen_tree(c, depth - 1) for _ in range(rng.choice([2, 2, 3, 8, rng.randrange(2, 9)]) if depth < 2 else rng.randrange(2, 5))]
    if len(subs) < 8 and rng.random() < 0.15:  # the same node may stand under several branches
        subs.insert(rng.randrange(len(subs) + 1), rng.choice(subs))
    c.event("or_node")
    return c.must("or", C.PolicyTreeOr, [s[0] for s in subs]), (
        lambda a: digest(a, bytes(hashlib.new(a).digest_size) + struct.pack(">I", 0x171) + b"".join(s[1](a) for s in subs))), ("or", [s[2] for s in subs])


@ck.family("policy", 3000, 40000)
def policy(c):
    rng = c.rng
    tree, oracle, desc = gen_tree(c, rng.randrange(0, 4))
    c.event("tree")
    c.note(tree=desc)
    c.key(desc, nontrivial=desc[0] == "or")
    c.equal(tree.get_type(), desc[0], "policy:type")
    c.expect(c.must("policy:validate", tree.validate) is True, "policy:valid-tree-refused", tree=desc)
    algs = ["sha256", "sha384"] + ([rng.choice(["sha256", "sha384"])] if rng.random() < 0.3 else [])
    rng.shuffle(algs)
    for a in algs:
        h = c.must("hasher", C.PolicyHasher, a)
        c.equal(h.get_size(), {"sha256": 32, "sha384": 48}[a], "hasher:size")
        c.event(a)
        c.equal(bytes(c.must("policy:digest", tree.get_policy, h)), oracle(a), "policy:digest", alg=a, tree=desc)
        data = rng.randbytes(rng.choice([0, 1, 63, 64, 65, 127, 128, 200]))
        c.equal(bytes(c.must("hasher:hash", h.hash, data)), digest(a, data), "hasher:hash", alg=a)


@ck.family("refused", 4000, 30000)
def refused(c):
    rng = c.rng
    k = rng.choice(["size", "value", "hash", "locality", "mix", "command", "or", "or_deep", "and", "solo", "or_operand", "buffer"])
    c.event("refused")
    V = ValueError
    if k == "size":
        n = rng.choice([0, 3, 5, 6, 7, 9, 16, -1, -4, None, "4", 1.5, rng.randrange(9, 100)])
        c.key(k, n)
        c.must_raise("refuse:primitive-size", V, S.Tpm2StreamPrimitive, n, 0)
    elif k == "value":
        n = rng.choice([1, 2, 4, 8])
        v = rng.choice([-1, LIMIT[n] + 1, -LIMIT[n], LIMIT[n] + 1 + rng.getrandbits(70), rng.randrange(LIMIT[n]) + LIMIT[n] + 1])
        c.key(k, n, v)

        def marshal():
            s = S.Tpm2CommandStream(0x8001, 0, 0x144)
            s.add_element(S.Tpm2StreamPrimitive(n, v))
            return s.get_stream()
        c.must_raise("refuse:value-does-not-fit", (struct.error, V, OverflowError), marshal)
    elif k == "buffer":
        ln = rng.choice([65536, 65537, 70000, 131072])
        c.key(k, ln)
        c.must_raise("refuse:buffer-too-long", (struct.error, V, OverflowError), lambda: S.TPM2B(bytes(ln)).marshal())
        m = S.TPM2B(bytes(65535))
        c.equal(c.must("buffer:longest", m.marshal), b"\xff\xff" + bytes(65535), "buffer:longest")
    elif k == "hash":
        n = rng.choice(["sha1", "sha512", "SHA256", "", "sha-256", "sha25", "sha256 ", None, 256, "sm3_256", "sha3_256", "md5"])
        c.key(k, n)
        c.must_raise("refuse:hash-name", (V, TypeError), C.PolicyHasher, n)
    elif k == "locality":
        bad = rng.choice([-1, 5, 6, 31, 256, 257, 1000, rng.randrange(5, 32), -rng.randrange(1, 300), 256 + rng.getrandbits(20)])
        ls = [bad] + [rng.randrange(5) for _ in range(rng.randrange(0, 4))]
        rng.shuffle(ls)
        c.key(k, ls)
        c.must_raise("refuse:locality", V, C.PolicyLocality, ls)
    elif k == "mix":
        ls = [rng.randrange(32, 256)] + [rng.choice([rng.randrange(5), rng.randrange(32, 256)]) for _ in range(rng.randrange(1, 4))]
        rng.shuffle(ls)
        c.key(k, ls)
        c.must_raise("refuse:combined-upper-locality", V, C.PolicyLocality, ls)
    elif k == "command":
        n = rng.choice(list(COMMANDS))
        b = rng.choice([n.lower(), n[7:], n + " ", n + "x", "", None, COMMANDS[n], "TPM_CC_", "TPM_CC_FIRST", "TPM_CC_LAST", hex(COMMANDS[n]), {}, []])
        c.key(k, b)
        c.must_raise("refuse:command-code", V, C.PolicyCommandCode, b)
    elif k in ("or", "or_deep"):
        n = rng.choice([9, 9, 10, 16, 40])
        leaf = [C.PolicyTreeSolo(C.PolicyLocality([i % 5])) for i in range(n)]
        c.key(k, n)
        if k == "or_deep":
            every = rng.random() < 0.4  # every sub-policy may be a junction itself
            leaf = [C.PolicyTreeOr(leaf[:2]) if every or rng.random() < 0.5 else x for x in leaf]
        c.must_raise("refuse:or-of-more-than-8", V, C.PolicyTreeOr, leaf)
    elif k in ("and", "solo", "or_operand"):
        cc, loc = C.PolicyCommandCode("TPM_CC_Clear"), C.PolicyLocality([1])
        bad = rng.choice([C.PolicyTreeSolo(cc), C.PolicyTreeAnd([cc, loc]), C.PolicyTreeOr([C.PolicyTreeSolo(cc), C.PolicyTreeSolo(loc)]), None, "TPM_CC_Clear", 3, b"", object()])
        c.key(k, type(bad).__name__, bad if isinstance(bad, (str, int)) else 0, rng.randrange(6))
        if k == "solo":
            c.must_raise("refuse:solo-of-non-primitive", V, C.PolicyTreeSolo, bad)
        elif k == "and":
            ops = [rng.choice([cc, loc]) for _ in range(rng.randrange(0, 4))]
            ops.insert(rng.randrange(len(ops) + 1), bad)
            c.must_raise("refuse:and-of-non-primitive", V, C.PolicyTreeAnd, ops)
        else:
            # an OR takes sub-policies: a primitive, or anything else, makes it (and every tree above it) invalid
            class Half:
                """Something that calls itself valid, but gives no policy."""
                def validate(self):
                    return True
            x = rng.choice([cc, loc, None, "x", 5, Half()])
            ops = [rng.choice([C.PolicyTreeSolo(cc), C.PolicyTreeAnd([cc, loc])]) for _ in range(rng.choice([0, 1, 2, 3, 5, 7]))]
            ops.insert(rng.randrange(len(ops) + 1), x)
            t = C.PolicyTreeOr(ops)
            for _ in range(rng.randrange(0, 3)):
                more = [C.PolicyTreeSolo(loc), t]
                rng.shuffle(more)
                t = C.PolicyTreeOr(more)
            o = c.call(t.validate)
            c.expect(not o.ok or o.value is False, "refuse:or-of-primitive-validates", outcome=repr(o))


sys.exit(ck.main())
