"""C02: patches turn either version into the other."""

from mon import gen
from mon.core import require, sut
from mon.oracle import same

from gaspra.changesets import (
    apply,
    apply_forward,
    apply_reverse,
    diff_token_sequences,
    find_changeset,
    old_apply_forward,
    old_apply_reverse,
    strip_forward,
    strip_reverse,
)
from gaspra.types import Change

ID = "C02"
LEVEL = "exploration"
FILES = ("changesets.py",)
RULE = (
    "A case is a pair of sequences of some token kind; both patches are taken from one changeset and applied "
    "through every entry point, twice, and again after having been copied to plain data; non-trivial when "
    "both patches have literal content or the modified side moves unchanged content."
)
FLOORS = {"patches applied": 5000, "slices": 3000, "literals": 3000}


def blocks(tier):
    return 144 if tier == "quick" else 1200


def cases(tier, block, rng):
    kind = gen.KINDS[block % len(gen.KINDS)]
    if block < 6:
        words = list(gen.all_words(2, 4)) + list(gen.all_words(3, 3))
        for i, a in enumerate(words):
            if i % 3 != block // 2:
                continue
            for b in words:
                x, y = gen.to_kind(rng, kind, a, b)
                yield dict(_kind=kind, a=x, b=y)
    for _ in range(120):
        a, b = gen.to_kind(rng, kind, *gen.pair(rng, rng.choice([6, 12, 24, 60])))
        yield dict(_kind=kind, a=a, b=b)
    if places := gen.heavy_places(rng, block, tier):
        kind2 = "str" if kind == "bytes" else kind
        a, b = gen.to_kind(rng, kind2, *gen.heavy(rng, places, 1))
        yield dict(_kind=kind2, a=a, b=b)
    sizes = [300, 1500] if tier == "quick" else [300, 1500, 5000, 20000]
    n = rng.choice(sizes)
    if block in (10, 21, 32):
        n = 70000
    a = tuple(rng.randrange(rng.choice([2, 5000])) for _ in range(n))
    b = gen.edit(rng, a, rng.choice([1, 3, 10, 20]) if n < 30000 else 2, alphabet=6000)
    if kind == "bytes":
        a, b = tuple(t % 256 for t in a), tuple(t % 256 for t in b)
    a, b = gen.to_kind(rng, kind, a, b)
    yield dict(_kind=kind, a=a, b=b)
    a = gen.document(rng, rng.randint(0, 30), 0.2)
    b = gen.edit_document(rng, a, rng.randint(0, 6), 0.2)
    if rng.random() < 0.5:
        a, b = a.encode(), b.encode()
    yield dict(_kind="bytes" if isinstance(a, bytes) else "str", a=a, b=b)


def check(case, obs):
    a = gen.realize(case["_kind"], case["a"])
    b = gen.realize(case["_kind"], case["b"])
    changeset = sut(find_changeset, a, b)
    changes = sut(lambda: list(changeset.as_change_stream()))
    forward = sut(lambda: tuple(strip_forward(iter(changes))))
    reverse = sut(lambda: tuple(strip_reverse(iter(changes))))

    # Patches refer to unchanged content by position: nothing else is literal.
    inserted = [c.a for c in sut(lambda: list(diff_token_sequences(a, b))) if isinstance(c, Change)]
    deleted = [c.b for c in sut(lambda: list(diff_token_sequences(a, b))) if isinstance(c, Change)]
    for name, patch, literal, source, target in (
        ("forward", forward, inserted, a, b),
        ("reverse", reverse, deleted, b, a),
    ):
        got = [item for item in patch if type(item) is not slice]
        obs.count("literals", len(got))
        obs.count("slices", len(patch) - len(got))
        require(
            got == [item for item in literal if item],
            f"{name} patch has other literal content than the diff",
            got=got,
            want=literal,
        )
        require(len(literal) == len(deleted), "changes differ between runs")
        for item in patch:
            if type(item) is slice:
                require(
                    type(item.start) is int
                    and type(item.stop) is int
                    and 0 <= item.start < item.stop <= len(source),
                    f"{name} patch refers outside its version",
                    slice=item,
                    length=len(source),
                )

    want_a = tuple(a) if isinstance(a, list) else a
    want_b = tuple(b) if isinstance(b, list) else b
    for name, function, patch, source, target in (
        ("apply(forward)", apply, forward, a, want_b),
        ("apply(forward) again", apply, forward, a, want_b),
        ("apply(reverse)", apply, reverse, b, want_a),
        ("apply(reverse) again", apply, reverse, b, want_a),
        ("apply(forward) one-shot", apply, iter(forward), a, want_b),
        ("apply_forward", apply_forward, iter(changes), a, want_b),
        ("apply_reverse", apply_reverse, iter(changes), b, want_a),
        ("apply_forward list", apply_forward, changes, a, want_b),
        ("apply_reverse list", apply_reverse, changes, b, want_a),
        ("old_apply_forward", old_apply_forward, changeset, a, want_b),
        ("old_apply_reverse", old_apply_reverse, changeset, b, want_a),
    ):
        got = sut(function, patch, source)
        obs.count("patches applied")
        require(
            got == target and type(got) is type(target),
            f"{name} gives another sequence",
            got=got,
            want=target,
        )
    if len(forward) > 1 and len(reverse) > 1:
        obs.mark_nontrivial()
    obs.maximum("input length", max(len(a), len(b)))
