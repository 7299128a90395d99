"""P25: canonicalising a signature database keeps each distinct signature exactly once."""
import sys
import uuid
import warnings
from collections import Counter

import siggen as S
from vh import Check, mute_logging

mute_logging()
warnings.simplefilter("ignore")
A = S.module()
ck = Check("P25", ["edk2toollib/uefi/authenticated_variables_structure_support.py"],
           rule="a case is one database with its regroupings; distinct by its bytes; non-trivial when it holds a duplicate",
           min_events={"split": 4000, "duplicate_hash": 400, "duplicate_cert": 300, "regrouped": 2500, "refused": 30})


def values(db):
    return [(k, [d for _, d in s]) for k, s in db]


def flat(db):
    return [(k, o, d) for k, s in db for o, d in s]


def split(c, o, how):
    if how == 0:
        r = c.call(o.get_canonical_and_dupes)
    else:
        r = c.call(lambda: (o.get_canonical(), o.get_duplicates()))
    c.expect(r.ok, "split:failed", error=repr(r.exc), trace=r.tb)
    c.event("split")
    return r.value if r.ok else (None, None)


def regroup(rng, db):
    """The same signatures in another order and other lists."""
    sigs = flat(db)
    rng.shuffle(sigs)
    out = []
    for k, o, d in sigs:
        if rng.random() < 0.1:
            out.append((rng.choice([S.SHA, S.X509]), []))
        fit = [s for kk, s in out if kk == k and s and len(s[0][1]) == len(d)]
        if fit and rng.random() < 0.6:
            rng.choice(fit).append((o, d))
        else:
            out.append((k, [(o, d)]))
    return out


@ck.family("canonical", 2500, 60000)
def canonical(c):
    rng = c.rng
    db = S.gen_db(rng, rng.choice([2, 4, 8, 12]))
    b = S.db_bytes(db)
    c.note(db=db)
    o = S.db_obj(db, rng)
    can, dup = split(c, o, rng.randrange(2))
    if can is None:
        return
    first, rest = {}, Counter()
    for k, ow, d in flat(db):
        if (k, d) in first:
            rest[(k, ow, d)] += 1
            c.event("duplicate_hash" if k == S.SHA else "duplicate_cert")
        else:
            first[(k, d)] = ow
    c.key(b, nontrivial=bool(rest))
    hashes = sorted(d for k, d in first if k == S.SHA)
    certs = sorted(d for k, d in first if k == S.X509)
    want = ([(S.SHA, [(first[S.SHA, d], d) for d in hashes])] if hashes else []) + [(S.X509, [(first[S.X509, d], d)]) for d in certs]
    got = [(k, s) for k, s in S.view(can) if s]
    c.equal(values(got), values(want), "canonical:signatures")
    c.equal(got, want, "canonical:owner-of-first-kept")
    c.equal(Counter(flat(S.view(dup))), rest, "duplicates:signatures")
    c.equal(Counter(flat(S.view(can))) + Counter(flat(S.view(dup))), Counter(flat(db)), "split:lost-or-added")
    c.equal(S.view(o), db, "input:signatures-changed")
    c.equal(o.encode(), b, "input:bytes-changed")
    # both parts are well formed databases
    cb, dbb = can.encode(), dup.encode()
    for x, obj in ((cb, can), (dbb, dup)):
        try:
            c.equal(S.read_db(x), S.view(obj), "parts:bytes")
        except S.Bad as e:
            c.violate("parts:malformed", error=repr(e), data=x)
    # its own canonical form
    can2, dup2 = split(c, can, 0)
    if can2 is not None:
        c.equal(can2.encode(), cb, "idempotent:canonical")
        c.equal(flat(S.view(dup2)), [], "idempotent:duplicates")
    # order and grouping do not matter
    for _ in range(2):
        db2 = regroup(rng, db)
        o2 = S.db_obj(db2, rng)
        c2, d2 = split(c, o2, 0)
        c.event("regrouped")
        if c2 is not None:
            c.equal(values([x for x in S.view(c2) if x[1]]), values(want), "regrouped:canonical", regrouped=db2)
            c.equal(Counter((k, d) for k, _, d in flat(S.view(d2))), Counter((k, d) for k, _, d in rest.elements()), "regrouped:duplicates", regrouped=db2)
    # asking again gives the same
    c3, d3 = split(c, o, rng.randrange(2))
    if c3 is not None:
        c.equal((c3.encode(), d3.encode()), (cb, dbb), "again:different")
    # independence: changing one side leaves the other alone
    def change(x):
        for e in list(x.esl_list):
            if e.signature_data_list:
                d = e.signature_data_list[0]
                e.AddSignatureData(S.data_obj(e.signature_type, uuid.UUID(int=5), bytes(len(d.signature_data))))
                e.SortBySignatureDataValue(deduplicate=rng.random() < 0.5)
                if rng.random() < 0.5:
                    e.signature_data_list.clear()
        x.esl_list.append(S.list_obj(S.SHA, [(uuid.UUID(int=1), bytes(32))]))
    order = [can, dup, o]
    rng.shuffle(order)
    frozen = {id(can): cb, id(dup): dbb, id(o): b}
    for i, x in enumerate(order):
        change(x)
        for y in order[i + 1:]:
            c.equal(y.encode(), frozen[id(y)], "independence:changed-with-the-other")


@ck.family("shared", 150, 3000)
def shared(c):
    """One list object at several places of the database counts as often as it stands there."""
    rng = c.rng
    lists = [S.list_obj(*S.gen_list(rng, empty=0), rng) for _ in range(rng.randint(1, 3))]
    db = A.EfiSignatureDatabase(esl_list=[rng.choice(lists) for _ in range(rng.randint(1, 6))])
    before = S.view(db)
    b = db.encode()
    c.key(b)
    can, dup = split(c, db, 0)
    if can is None:
        return
    c.equal(Counter(flat(S.view(can))) + Counter(flat(S.view(dup))), Counter(flat(before)), "shared:lost-or-added", db=before)
    c.equal(max(Counter((k, d) for k, _, d in flat(S.view(can))).values()), 1, "shared:twice-in-canonical", db=before)
    c.equal({(k, d) for k, _, d in flat(S.view(can))}, {(k, d) for k, _, d in flat(before)}, "shared:canonical", db=before)
    c.equal(db.encode(), b, "shared:input-changed", db=before)


@ck.family("unsupported", 40, 300)
def unsupported(c):
    """A list of another type cannot be kept: the whole is refused, not silently dropped."""
    g = uuid.UUID(int=c.rng.getrandbits(128))
    e = A.EfiSignatureList(typeguid=g)
    e.AddSignatureHeader(None, SigSize=48)
    e.AddSignatureData(A.EfiSignatureDataEfiCertSha256(digest=c.rng.randbytes(32), sigowner=g))
    o = S.db_obj(S.gen_db(c.rng, 3))
    o.esl_list.insert(c.rng.randint(0, len(o.esl_list)), e)
    b = o.encode()
    c.key(b)
    c.must_raise("unsupported", Exception, o.get_canonical_and_dupes)
    c.equal(o.encode(), b, "unsupported:refused-but-changed")
    c.event("refused")


sys.exit(ck.main())
