"""C11: a merge loses, duplicates and misattributes nothing."""

from mon import gen, merges
from mon.core import require, sut

from gaspra import diff_token_sequences, merge_token_sequence
from gaspra.tokenizers import CharTokenizer, LineTokenizer, merged
from gaspra.types import Change

ID = "C11"
LEVEL = "exploration"
FILES = ("merge.py", "tokenizers.py")
RULE = (
    "A case is a parent of distinct tokens and two branches with fresh insertions (so every token in the result "
    "identifies where it came from), with edits touching and overlapping in every relation; each token of both "
    "resolved sides is accounted for; merges of any tokens are compared with the merge of the same edits with "
    "distinguished tokens. Non-trivial when the branches' changes touch, or there's a conflict."
)
FLOORS = {"merges": 8000, "conflicting merges": 2000, "clean merges": 1000, "tokens accounted for": 100000, "lifted conflicts": 500}
ASSUMPTIONS = ["all tokens of the parent and of the insertions differ"]


def blocks(tier):
    return 160 if tier == "quick" else 1600


DISTINCT_KINDS = ("str", "bytes", "ints", "tok", "mixed", "lines", "chars")


def convert(rng, kind, triple):
    if kind == "str":
        # all characters differ
        start = rng.choice([0x20, 0x61, 0x4E00, 0x1F600])
        return tuple("".join(chr(start + t) for t in q) for q in triple)
    if kind == "bytes":
        if max((max(q, default=0) for q in triple), default=0) > 255:
            return None
        return tuple(bytes(q) for q in triple)
    if kind == "lines":
        return tuple("".join(f"line {t}\n" for t in q) for q in triple)
    if kind == "chars":
        return tuple("".join(chr(0x3041 + t) for t in q) for q in triple)
    return tuple(tuple(q) for q in triple)


def cases(tier, block, rng):
    kind = DISTINCT_KINDS[block % len(DISTINCT_KINDS)]
    for _ in range(100):
        choice = rng.random()
        if choice < 0.5:
            triple = merges.focused_triple(rng)
        else:
            triple = merges.distinct_triple(rng, rng.choice([3, 6, 12, 24]))
        converted = convert(rng, kind, triple)
        if converted:
            yield dict(_kind=kind, p=converted[0], a=converted[1], b=converted[2])
    kind2 = merges.MERGE_KINDS[block % 5]
    for _ in range(60):
        p, a, b = gen.to_kind(rng, kind2, *gen.triple(rng, rng.choice([5, 10, 20, 40])))
        yield dict(_lift=1, _kind=kind2, p=p, a=a, b=b)
    n = rng.choice([100, 400] if tier == "quick" else [300, 1000, 3000])
    p = gen.structured(rng, n)
    a, b = gen.edit(rng, p, rng.choice([2, 8])), gen.edit(rng, p, rng.choice([2, 8]))
    p, a, b = gen.to_kind(rng, kind2, p, a, b)
    yield dict(_lift=1, _kind=kind2, p=p, a=a, b=b)
    converted = convert(rng, kind, merges.distinct_triple(rng, 150 if tier == "quick" else 600))
    if converted:
        yield dict(_kind=kind, p=converted[0], a=converted[1], b=converted[2])
    if places := gen.heavy_places(rng, block, tier):
        kind3 = "str" if kind2 == "bytes" else kind2
        p, a, b = gen.to_kind(rng, kind3, *gen.heavy(rng, places))
        yield dict(_lift=1, _kind=kind3, p=p, a=a, b=b)
        converted = convert(rng, kind, gen.heavy(rng, min(places, 1300) if kind not in ("str", "chars") else 250, distinct=True))
        if converted:
            yield dict(_kind=kind, p=converted[0], a=converted[1], b=converted[2])
    if block % 16 == 7:
        p, a, b = gen.to_kind(rng, kind2, *gen.large_versions(rng, kind2, 2, 70000 if block == 7 else None))
        yield dict(_lift=1, _kind=kind2, p=p, a=a, b=b)


def lifted(case, obs):
    """Repeated tokens make no difference."""
    p, a, b = (gen.realize(case["_kind"], case[k]) for k in "pab")
    regions = [merges.regions(sut(lambda: list(diff_token_sequences(p, x)))) for x in (a, b)]
    p2, a2, b2, meaning = merges.lift(p, *regions)
    got = sut(lambda: list(merge_token_sequence(p, a, b)))
    want = sut(lambda: list(merge_token_sequence(p2, a2, b2)))
    obs.count("lifted merges")
    for side in (0, 1):
        result = list(merges.projection(got, side, p[0:0]))
        positions = merges.projection(want, side, ())
        require(
            result == [meaning[i] for i in positions],
            f"side {side} isn't the same as with distinct tokens",
            got=result,
            positions=positions,
            p=p,
            a=a,
            b=b,
        )
    if merges.conflicts(got):
        obs.count("lifted conflicts")
        obs.mark_nontrivial()


def prepare(case):
    kind = case["_kind"]
    if kind in ("lines", "chars"):
        p, a, b = case["p"], case["a"], case["b"]
        factory = LineTokenizer if kind == "lines" else CharTokenizer
        items = sut(lambda: list(merged(p, a, b, factory())))
        if kind == "lines":

            def split(text):
                return text.splitlines(keepends=True)

            items = [
                Change(split(item.a), split(item.b)) if isinstance(item, Change) else split(item) for item in items
            ]
            return split(p), split(a), split(b), items
        return p, a, b, items
    data_kind = kind if kind in gen.KINDS else "ints"
    p, a, b = (gen.realize(data_kind, case[k]) for k in "pab")
    return p, a, b, sut(lambda: list(merge_token_sequence(p, a, b)))


def distinct(p, a, b):
    """Only such cases are in the domain (shrinking may leave it)."""
    common = (set(a) & set(b)) - set(p)
    order = {t: i for i, t in enumerate(p)}
    for branch in (a, b):
        kept = [order[t] for t in branch if t in order]
        if kept != sorted(set(kept)) or len(set(branch)) != len(branch):
            return False
    return len(order) == len(p) and not common


def check(case, obs):
    if case.get("_lift"):
        return lifted(case, obs)
    p, a, b, items = prepare(case)
    if not distinct(p, a, b):
        obs.count("not distinct")
        return
    obs.count("merges")
    parent, in_a, in_b = set(p), set(a), set(b)
    context = dict(p=p, a=a, b=b, merge=items)
    conflicts = merges.conflicts(items)
    for side, mine, branch, other in ((0, in_a, a, in_b), (1, in_b, b, in_a)):
        result = []
        for item in items:
            result.extend(item[side] if isinstance(item, Change) else item)
        obs.count("tokens accounted for", len(result))
        present = set(result)
        require(len(present) == len(result), f"side {side} has a token twice", **context)
        require(present <= in_a | in_b, f"side {side} has a token of neither branch", **context)
        require(
            not any(t in parent and t not in mine for t in present), f"side {side} has a token its branch deleted", **context
        )
        inserted = [t for t in branch if t not in parent]
        new = set(inserted)
        require(
            [t for t in result if t in new] == inserted,
            f"side {side} lacks or reorders what its branch inserted",
            **context,
        )
        both = [t for t in p if t in in_a and t in in_b]
        kept = set(both)
        require(
            [t for t in result if t in kept] == both,
            f"side {side} lacks or reorders what both branches kept",
            **context,
        )
        require(
            [t for t in result if t in mine] == [t for t in branch if t in present],
            f"side {side} isn't in the order of its branch",
            **context,
        )
        require(
            all(t in parent and t not in other for t in branch if t not in present),
            f"side {side} lost a token that the other branch didn't delete",
            **context,
        )
        if not conflicts:
            require(
                present == (in_a - parent) | (in_b - parent) | (parent & in_a & in_b),
                "merge without conflict isn't both insertions and what both kept",
                **context,
            )
    obs.count("conflicting merges" if conflicts else "clean merges")
    obs.maximum("conflicts in one merge", len(conflicts))
    if conflicts or (a != p and b != p and a != b):
        obs.mark_nontrivial()
