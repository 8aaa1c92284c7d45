"""C10: edits to separate places merge without conflict."""

from mon import gen, merges
from mon.core import require, sut
from mon.oracle import same
from mon.props.c01 import TOKENIZERS

from gaspra import diff_token_sequences, merge_token_sequence
from gaspra.tokenizers import diff, merged

ID = "C10"
LEVEL = "exploration"
FILES = ("merge.py", "changesets.py", "tokenizers.py")
RULE = (
    "A case is a triple; the oracle takes the changes of both branches from the tool's own diffs, and when no "
    "two different changes touch it composes the expected merge by position; non-trivial when both branches "
    "have a change and the expectation applied."
)
FLOORS = {"clean merges": 5000, "identical changes": 300, "tokenizer merges": 1000, "touching (not judged)": 100}


def blocks(tier):
    return 160 if tier == "quick" else 1200


def separate(rng, n, edits, alphabet, shared=0.2):
    """A parent with edits of both branches at separate places."""
    parent = tuple(rng.randrange(alphabet) for _ in range(n))
    fresh = iter(range(alphabet, 10**6))
    a, b = [], []
    i = 0
    while i < n:
        gap = rng.choice([1, 1, 2, 3, 8])
        a += parent[i : i + gap]
        b += parent[i : i + gap]
        i += gap
        if i < n and edits > 0:
            edits -= 1
            j = min(n, i + rng.choice([0, 0, 1, 2, 5]))
            insert = [
                next(fresh) if rng.random() < 0.7 else rng.randrange(alphabet)
                for _ in range(rng.choice([0, 1, 1, 2, 5]))
            ]
            old, new = list(parent[i:j]), insert
            choice = rng.random()
            if choice < shared:
                a += new
                b += new
            elif choice < (1 + shared) / 2:
                a += new
                b += old
            else:
                a += old
                b += new
            i = j
    return parent, tuple(a), tuple(b)


def lopsided(rng, places):
    """A branch with changes in most places, and one with a few in the others."""
    fresh = iter(range(10**9))
    p, a, b = [], [], []
    for i in range(1, places + 1):
        run = [next(fresh) for _ in range((i & -i).bit_length())]
        old, new = [next(fresh)], [next(fresh)]
        mine = rng.random() < 0.9
        p += run + old
        a += run + (new if mine else old)
        b += run + (old if mine or rng.random() < 0.8 else new)
    return p, a, b


def cases(tier, block, rng):
    kind = merges.MERGE_KINDS[block % 5]
    if block < 5:
        for p, a, b in merges.small_triples(rng, kind, 0, 1, 2, 3):
            yield dict(_kind=kind, p=p, a=a, b=b)
    for _ in range(80):
        n = rng.choice([4, 8, 16, 40])
        triple = separate(rng, n, rng.randint(0, 8), rng.choice([3, 8, 30]))
        p, a, b = gen.to_kind(rng, kind, *triple)
        yield dict(_kind=kind, p=p, a=a, b=b)
    for _ in range(40):
        triple = rng.choice(
            [lambda: gen.triple(rng, 16), lambda: merges.distinct_triple(rng), lambda: merges.focused_triple(rng)]
        )()
        p, a, b = gen.to_kind(rng, kind, *triple)
        yield dict(_kind=kind, p=p, a=a, b=b)
    for _ in range(25):
        exotic = rng.choice([0, 0.5])
        lines = [gen.line(rng, exotic) + "\n" for _ in range(rng.randint(2, 9))]
        a, b = list(lines), list(lines)
        for i in range(len(lines)):
            if rng.random() < 0.4:
                new = rng.choice(
                    ["", gen.line(rng, exotic) + "\n", lines[i].replace(" ", "  "), lines[i][:-1] + " x\n", "q" + lines[i]]
                )
                rng.choice([a, b])[i] = new
                if rng.random() < 0.2:
                    a[i] = b[i] = new
        p, a, b = "".join(lines), "".join(a), "".join(b)
        if rng.random() < 0.5:
            p, a, b = p.encode(), a.encode(), b.encode()
        yield dict(_kind=rng.choice(list(TOKENIZERS)), p=p, a=a, b=b)
    n = rng.choice([300, 1000] if tier == "quick" else [300, 1000, 5000])
    p, a, b = gen.to_kind(
        rng, kind, *separate(rng, n if kind != "bytes" else 200, rng.choice([3, 10, 30]), rng.choice([4, 100]))
    )
    yield dict(_kind=kind, p=p, a=a, b=b)
    if places := gen.heavy_places(rng, block, tier):
        kind2 = "str" if kind == "bytes" else kind
        p, a, b = gen.to_kind(rng, kind2, *gen.heavy(rng, places, 2, separate=rng.random() < 0.8))
        yield dict(_kind=kind2, p=p, a=a, b=b)
    if block % 40 in (2, 3):
        p, a, b = gen.to_kind(rng, "ints", *lopsided(rng, 5000 if block == 3 else 1500))
        yield dict(_kind="ints", p=p, a=a, b=b)
        yield dict(_kind="ints", p=p, a=b, b=a)
    if block % 16 == 7:
        n = (70000 if block == 7 else 12000) if kind not in ("bytes", "str") else 240
        p, a, b = gen.to_kind(rng, kind, *separate(rng, n, rng.choice([3, 12]), 100))
        yield dict(_kind=kind, p=p, a=a, b=b)


def check(case, obs):
    kind = case["_kind"]
    if kind in TOKENIZERS:
        p, a, b = case["p"], case["a"], case["b"]
        changes0 = sut(lambda: list(diff(p, a, TOKENIZERS[kind]())))
        changes1 = sut(lambda: list(diff(p, b, TOKENIZERS[kind]())))
        got = sut(lambda: list(merged(p, a, b, TOKENIZERS[kind]())))
        obs.count("tokenizer merges")
    else:
        p, a, b = (gen.realize(kind, case[k]) for k in "pab")
        changes0 = sut(lambda: list(diff_token_sequences(p, a)))
        changes1 = sut(lambda: list(diff_token_sequences(p, b)))
        got = sut(lambda: list(merge_token_sequence(p, a, b)))
    regions0, regions1 = merges.regions(changes0), merges.regions(changes1)
    want = merges.clean_merge(p, regions0, regions1)
    if want is None:
        obs.count("touching (not judged)")
        return
    obs.count("clean merges")
    obs.maximum("changes in one merge", len(regions0) + len(regions1))
    if any(r in regions1 for r in regions0):
        obs.count("identical changes")
    require(len(got) == 1, "separate edits don't merge into a single piece", got=got, want=want, p=p, a=a, b=b)
    require(same(got[0], want), "merge isn't the parent with all changes", got=got[0], want=want, p=p, a=a, b=b)
    if regions0 and regions1:
        obs.mark_nontrivial()
