"""C13: swapping the branches only swaps the sides of conflicts."""

from mon import gen, merges
from mon.core import require, sut

from gaspra import merge_token_sequence

ID = "C13"
LEVEL = "exploration"
FILES = ("merge.py",)
RULE = (
    "A case is a triple merged both ways round, exhaustively for short words, else edits of structured or random "
    "parents; non-trivial when the merges have conflicts."
)
FLOORS = {"swapped merges": 10000, "conflicting": 3000}


def blocks(tier):
    return 160 if tier == "quick" else 1600


def cases(tier, block, rng):
    kind = merges.MERGE_KINDS[block % len(merges.MERGE_KINDS)]
    if block < 16:
        alphabet, longest = (2, 4) if block % 2 else (3, 2)
        for p, a, b in merges.small_triples(rng, kind, block // 2, 8, alphabet, longest):
            yield dict(_kind=kind, p=p, a=a, b=b)
    for _ in range(110):
        triple = rng.choice(
            [
                lambda: gen.triple(rng, rng.choice([6, 14, 24])),
                lambda: merges.distinct_triple(rng),
                lambda: merges.focused_triple(rng),
            ]
        )()
        p, a, b = gen.to_kind(rng, kind, *triple)
        yield dict(_kind=kind, p=p, a=a, b=b)
    n = rng.choice([200, 600] if tier == "quick" else [200, 600, 3000])
    p = gen.structured(rng, n)
    a, b = gen.edit(rng, p, rng.choice([2, 8])), gen.edit(rng, p, rng.choice([2, 8]))
    p, a, b = gen.to_kind(rng, kind, p, a, b)
    yield dict(_kind=kind, p=p, a=a, b=b)
    if places := gen.heavy_places(rng, block, tier):
        kind2 = "str" if kind == "bytes" else kind
        p, a, b = gen.to_kind(rng, kind2, *gen.heavy(rng, places, 2))
        yield dict(_kind=kind2, p=p, a=a, b=b)
    if block % 16 == 7:
        p, a, b = gen.to_kind(rng, kind, *gen.large_versions(rng, kind, 2, 70000 if block == 7 else None))
        yield dict(_kind=kind, p=p, a=a, b=b)


def check(case, obs):
    p, a, b = (gen.realize(case["_kind"], case[k]) for k in "pab")
    one = sut(lambda: list(merge_token_sequence(p, a, b)))
    two = sut(lambda: list(merge_token_sequence(p, b, a)))
    obs.count("swapped merges")
    empty = p[0:0]
    for side in (0, 1):
        x = merges.projection(one, side, empty)
        y = merges.projection(two, 1 - side, empty)
        require(x == y, f"side {side} differs after swapping the branches", got=x, swapped=y, p=p, a=a, b=b)
    require(
        bool(merges.conflicts(one)) == bool(merges.conflicts(two)),
        "only one of the merges has conflicts",
        one=one,
        two=two,
    )
    if not isinstance(p, list):
        merges.check_types(one, type(p))
    if merges.conflicts(one):
        obs.count("conflicting")
        obs.mark_nontrivial()
