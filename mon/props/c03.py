"""C03: diffs keep the longest common blocks and are irreducible."""

from mon import gen
from mon.core import require, sut
from mon.oracle import lcs_length, same

from gaspra import diff_token_sequences
from gaspra.types import Change

ID = "C03"
LEVEL = "exploration"
FILES = ("changesets.py", "suffix_automaton.py")
RULE = (
    "A case is a pair of sequences; an independent longest-common-block computation is run for the whole "
    "inputs and then for every part between the blocks that the diff kept, down to the changes; non-trivial "
    "when at least two blocks were examined."
)
FLOORS = {"blocks verified": 3000, "changes verified": 3000, "identical inputs": 10, "disjoint inputs": 10}


def blocks(tier):
    return 160 if tier == "quick" else 1200


def cases(tier, block, rng):
    kind = gen.KINDS[block % len(gen.KINDS)]
    if block < 6:
        words = list(gen.all_words(2, 5)) if block % 2 == 0 else list(gen.all_words(3, 3))
        for i, a in enumerate(words):
            if i % 3 != block // 2:
                continue
            for b in words:
                x, y = gen.to_kind(rng, kind, a, b)
                yield dict(_kind=kind, a=x, b=y)
    for _ in range(90):
        a, b = gen.to_kind(rng, kind, *gen.pair(rng, rng.choice([6, 12, 24, 48])))
        yield dict(_kind=kind, a=a, b=b)
    for _ in range(3):
        a, b = gen.to_kind(rng, kind, *gen.replaced(rng))
        yield dict(_kind=kind, a=a, b=b)
    if places := gen.heavy_places(rng, block, tier):
        kind2 = "str" if kind == "bytes" else kind
        a, b = gen.to_kind(rng, kind2, *gen.heavy(rng, places, 1))
        yield dict(_kind=kind2, a=a, b=b)
    a = gen.structured(rng, 20)
    yield dict(_kind="ints", a=a, b=a)
    yield dict(_kind="ints", a=a, b=tuple(t + 90 for t in a))
    n = rng.choice([200, 600] if tier == "quick" else [200, 600, 2000, 6000])
    a = gen.structured(rng, n)
    if rng.random() < 0.5:
        a = tuple(rng.randrange(5000) for _ in range(n))
    b = gen.edit(rng, a, rng.choice([1, 3, 6, 12]), alphabet=6000)
    if block in (11, 22):
        a = tuple(rng.randrange(4) for _ in range(30000))
        b = gen.edit(rng, a, 3, alphabet=4)
    if kind == "bytes":
        a, b = tuple(t % 256 for t in a), tuple(t % 256 for t in b)
    a, b = gen.to_kind(rng, kind, a, b)
    yield dict(_kind=kind, a=a, b=b)
    if block % 8 == 5 or tier == "thorough":
        # long inputs with nothing but short blocks in common, in other orders
        a, b = gen.shuffled(rng, rng.choice([100, 300, 800] if tier == "quick" else [300, 800, 1500]))
        if kind == "bytes":
            kind = "str"
        a, b = gen.to_kind(rng, kind, a, b)
        yield dict(_kind=kind, a=a, b=b)


def check(case, obs):
    a = gen.realize(case["_kind"], case["a"])
    b = gen.realize(case["_kind"], case["b"])
    items = sut(lambda: list(diff_token_sequences(a, b)))

    previous = None
    for item in items:
        is_change = isinstance(item, Change)
        require(is_change != previous, "two pieces or two changes in a row", items=items)
        previous = is_change
        if is_change:
            require(bool(len(item.a) or len(item.b)), "empty change", items=items)
            require(
                not set(item.a) & set(item.b),
                "inserted and deleted part have a token in common",
                change=item,
            )
            obs.count("changes verified")
        else:
            require(bool(len(item)), "empty piece", items=items)

    if same(a, b):
        obs.count("identical inputs")
        require(items == ([a] if len(a) else []), "identical inputs have changes", items=items)
    elif not set(a) & set(b):
        obs.count("disjoint inputs")
        require(items == [Change(b, a)], "disjoint inputs aren't one change", items=items)

    verified = verify(items, a[0:0], obs)
    if verified > 1:
        obs.mark_nontrivial()
    obs.maximum("input length", max(len(a), len(b)))


def verify(items, empty, obs):
    """Check that the longest common block of what the items spell is kept,
    then look at the parts in between."""
    count = 0
    todo = [items]
    while todo:
        part = todo.pop()
        if not part:
            continue
        old, new = empty, empty
        longest = 0
        for item in part:
            if isinstance(item, Change):
                old, new = old + item.b, new + item.a
            else:
                old, new = old + item, new + item
                longest = max(longest, len(item))
        want = lcs_length(old, new)
        require(
            longest >= want,
            f"longest kept block has length {longest}, but a common block of length {want} exists",
            original=old,
            modified=new,
        )
        count += 1
        obs.count("blocks verified")
        if longest == 0:
            continue
        between = []
        for item in part:
            if not isinstance(item, Change) and len(item) == longest:
                todo.append(between)
                between = []
            else:
                between.append(item)
        todo.append(between)
    return count
