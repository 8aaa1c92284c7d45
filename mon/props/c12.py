"""C12: conflicting edits are always reported, and minimally."""

from mon import gen, merges
from mon.core import require, sut
from mon.props import c11

from gaspra import merge_token_sequence
from gaspra.types import Change

ID = "C12"
LEVEL = "exploration"
FILES = ("merge.py",)
RULE = (
    "A case is a triple: with distinct tokens, every pair of changes of the two branches is classified by "
    "position, and genuine conflicts must be reported at that place; with any tokens, the form of the merge is "
    "examined. Non-trivial when there's a conflict."
)
FLOORS = {"merges": 8000, "same place": 1000, "same deletion": 1000, "conflicts examined": 5000, "change apart from a conflict": 2000}


def blocks(tier):
    return 160 if tier == "quick" else 1600


def cases(tier, block, rng):
    if block < 8:
        kind = merges.MERGE_KINDS[block % 5]
        for p, a, b in merges.small_triples(rng, kind, block % 4, 4, *((2, 4) if tier == "thorough" else (2, 3))):
            yield dict(_form=1, _kind=kind, p=p, a=a, b=b)
    for case in c11.cases(tier, block, rng):
        if case.get("_lift"):
            continue
        if case["_kind"] not in ("lines", "chars"):
            yield dict(case, _form=0)
    kind = merges.MERGE_KINDS[block % 5]
    for _ in range(60):
        p, a, b = gen.to_kind(rng, kind, *gen.triple(rng, rng.choice([6, 14, 24])))
        yield dict(_form=1, _kind=kind, p=p, a=a, b=b)
    n = rng.choice([200, 500] if tier == "quick" else [200, 500, 2000])
    p = gen.structured(rng, n)
    a, b = gen.edit(rng, p, rng.choice([2, 8])), gen.edit(rng, p, rng.choice([2, 8]))
    p, a, b = gen.to_kind(rng, kind, p, a, b)
    yield dict(_form=1, _kind=kind, p=p, a=a, b=b)
    if places := gen.heavy_places(rng, block, tier):
        kind2 = "str" if kind == "bytes" else kind
        p, a, b = gen.to_kind(rng, kind2, *gen.heavy(rng, places, 2))
        yield dict(_form=1, _kind=kind2, p=p, a=a, b=b)
    if block % 16 == 7:
        p, a, b = gen.to_kind(rng, kind, *gen.large_versions(rng, kind, 2, 70000 if block == 7 else None))
        yield dict(_form=1, _kind=kind, p=p, a=a, b=b)


def check(case, obs):
    data_kind = case["_kind"] if case["_kind"] in gen.KINDS else "ints"
    p, a, b = (gen.realize(data_kind, case[k]) for k in "pab")
    items = sut(lambda: list(merge_token_sequence(p, a, b)))
    obs.count("merges")
    form(items, obs, p, a, b)
    if not case["_form"] and c11.distinct(p, a, b):
        reported(items, obs, p, a, b)


def form(items, obs, p, a, b):
    context = dict(p=p, a=a, b=b, merge=items)
    require(len(items) > 0, "merge yields nothing at all", **context)
    for item in items:
        if isinstance(item, Change):
            obs.count("conflicts examined")
            obs.mark_nontrivial()
            require(len(item.a) or len(item.b), "conflict with two empty sides", **context)
            require(not set(item.a) & set(item.b), "both sides of a conflict have a token in common", **context)
        elif len(items) > 1:
            require(len(item) > 0, "empty piece", **context)
    for x, y in zip(items, items[1:]):
        require(
            isinstance(x, Change) or isinstance(y, Change), "two pieces without a conflict between them", **context
        )
        require(
            not (isinstance(x, Change) and isinstance(y, Change)), "two conflicts without a piece between them", **context
        )


def expected_regions(p, branch):
    """Changes by position, from the identity of distinct tokens."""
    position = {t: i for i, t in enumerate(p)}
    out, start, insert = [], 0, []
    for t in list(branch) + [None]:
        if t is not None and t not in position:
            insert.append(t)
            continue
        i = len(p) if t is None else position[t]
        if i > start or insert:
            out.append((start, i, tuple(insert)))
        start, insert = i + 1, []
    return out


def reported(items, obs, p, a, b):
    if None in set(p) | set(a) | set(b):
        return
    context = dict(p=p, a=a, b=b, merge=items)
    conflicts = merges.conflicts(items)
    regions0, regions1 = expected_regions(p, a), expected_regions(p, b)
    local(items, conflicts, obs, p, regions0, regions1, context)
    for s0, e0, insert0 in regions0:
        for s1, e1, insert1 in regions1:
            if (s0, e0, insert0) == (s1, e1, insert1):
                continue
            if s0 == s1 and insert0 and insert1:
                obs.count("same place")
                require(
                    any(set(insert0) & set(c.a) or set(insert1) & set(c.b) for c in conflicts),
                    "different insertions at the same place aren't a conflict",
                    **context,
                )
            if max(s0, s1) < min(e0, e1):
                obs.count("same deletion")
                require(conflicts, "overlapping deletions of different changes aren't a conflict", **context)


def local(items, conflicts, obs, p, regions0, regions1, context):
    """A change that touches no change of the other branch is applied, whatever conflicts there are elsewhere."""
    if not conflicts:
        return
    plain = {t for item in items if not isinstance(item, Change) for t in item}
    disputed = {t for c in conflicts for side in (c.a, c.b) for t in side}
    for regions, others in ((regions0, regions1), (regions1, regions0)):
        for s, e, insert in regions:
            if any(s <= other_e and other_s <= e for other_s, other_e, _ in others):
                continue
            obs.count("change apart from a conflict")
            for t in insert:
                require(t in plain, "an insertion that touches no other change isn't merged", token=t, **context)
            for t in p[s:e]:
                if t in plain or t in disputed:
                    require(False, "a deletion that touches no other change isn't merged", token=t, **context)
