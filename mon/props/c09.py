"""C09: merging one-sided or identical changes gives that change."""

from mon import gen
from mon.core import require, sut
from mon.oracle import same
from mon.props.c01 import TOKENIZERS

from gaspra import merge_token_sequence
from gaspra.tokenizers import merged

ID = "C09"
LEVEL = "exploration"
FILES = ("merge.py", "changesets.py", "tokenizers.py")
RULE = (
    "A case is a parent and a version (all token kinds, or documents through each tokenizer), merged as "
    "(P,P,V), (P,V,P), (P,V,V), (P,P,P); non-trivial when parent and version differ and have a common token."
)
FLOORS = {"merges": 10000, "tokenizer merges": 1000}


def blocks(tier):
    return 128 if tier == "quick" else 1200


def cases(tier, block, rng):
    kind = gen.KINDS[block % len(gen.KINDS)]
    if block < 8:
        words = list(gen.all_words(2, 5)) if block % 2 == 0 else list(gen.all_words(3, 3))
        for i, a in enumerate(words):
            if i % 4 != block // 2:
                continue
            for b in words:
                x, y = gen.to_kind(rng, kind, a, b)
                yield dict(_kind=kind, p=x, v=y)
    for _ in range(90):
        p, v = gen.to_kind(rng, kind, *gen.pair(rng, rng.choice([5, 12, 24, 48])))
        yield dict(_kind=kind, p=p, v=v)
    for _ in range(30):
        p = gen.document(rng, rng.randint(0, 6), rng.choice([0, 0.5]))
        v = gen.edit_document(rng, p, rng.randint(0, 5), rng.choice([0, 0.5]))
        if rng.random() < 0.5:
            p, v = p.encode(), v.encode()
        yield dict(_kind=rng.choice(list(TOKENIZERS)), p=p, v=v)
    n = rng.choice([300, 1000] if tier == "quick" else [300, 1000, 5000])
    p = gen.structured(rng, n)
    v = gen.edit(rng, p, rng.choice([1, 3, 10]), alphabet=6)
    p, v = gen.to_kind(rng, kind, p, v)
    yield dict(_kind=kind, p=p, v=v)
    if places := gen.heavy_places(rng, block, tier):
        kind2 = "str" if kind == "bytes" else kind
        p, v = gen.to_kind(rng, kind2, *gen.heavy(rng, places, 1))
        yield dict(_kind=kind2, p=p, v=v)
    if block in (33, 34):
        p, v = gen.megabytes(rng, 2, block == 33)
        p, v = (p, v) if block == 33 else (p.encode(), v.encode())
        yield dict(_kind="line", p=p, v=v)
    if block % 16 == 7:
        p, v = gen.to_kind(rng, kind, *gen.large_versions(rng, kind, 1, 70000 if block == 7 else None))
        yield dict(_kind=kind, p=p, v=v)


def check(case, obs):
    kind = case["_kind"]
    if kind in TOKENIZERS:
        p, v = case["p"], case["v"]
        obs.count("tokenizer merges", 4)

        def merge(*args):
            tokenizer = TOKENIZERS[kind]()
            return list(merged(*args, tokenizer) if tokenizer else merged(*args))

    else:
        p, v = gen.realize(kind, case["p"]), gen.realize(kind, case["v"])

        def merge(*args):
            return list(merge_token_sequence(*args))

    for name, want, arguments in (
        ("into unchanged", v, (p, p, v)),
        ("from unchanged", v, (p, v, p)),
        ("identical", v, (p, v, v)),
        ("nothing changed", p, (p, p, p)),
    ):
        got = sut(merge, *arguments)
        obs.count("merges")
        require(len(got) == 1, f"{name}: merge isn't a single piece", got=got, p=p, v=v)
        if isinstance(p, list):
            require(list(got[0]) == want, f"{name}: merge isn't the version", got=got, want=want)
        else:
            require(same(got[0], want), f"{name}: merge isn't the version", got=got[0], want=want, p=p)
    obs.maximum("input length", max(len(p), len(v)))
    if p != v and set(p) & set(v):
        obs.mark_nontrivial()
