"""C01: a diff reproduces both of its inputs."""

from mon import gen
from mon.core import require, sut
from mon.oracle import concat, same

from gaspra import diff_token_sequences
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer, diff
from gaspra.types import Change

ID = "C01"
LEVEL = "exploration"
FILES = ("changesets.py", "tokenizers.py", "suffix_automaton.py")
RULE = (
    "A case is one diff of two sequences (token kinds str/bytes/int/list/mixed falsy/equal-not-identical "
    "tokens, or documents through a tokenizer), made from edits, structured words, moves, disjoint "
    "alphabets, or exhaustively for short words; non-trivial when the diff has a change and an "
    "unchanged piece."
)
FLOORS = {"diffs": 1000, "changes": 1000, "pieces": 1000, "tokenizer diffs": 300}
ASSUMPTIONS = ["tokens are hashable; texts given to bytes tokenizers are UTF-8"]

TOKENIZERS = {
    "default": lambda: None,
    "none": NullTokenizer,
    "char": CharTokenizer,
    "line": LineTokenizer,
    "symbol": SymbolTokenizer,
}


def blocks(tier):
    return 144 if tier == "quick" else 1200


def cases(tier, block, rng):
    kind = gen.KINDS[block % len(gen.KINDS)]
    if block < 8:
        # exhaustive: all pairs of short words
        words = list(gen.all_words(2, 5)) if block % 2 == 0 else list(gen.all_words(3, 3))
        for i, a in enumerate(words):
            if i % 4 != block // 2:
                continue
            for b in words:
                x, y = (
                    ("".join("ab\n"[t] for t in w) for w in (a, b))
                    if kind == "str"
                    else (bytes(w) for w in (a, b))
                    if kind == "bytes"
                    else (a, b)
                )
                yield dict(_api="tokens", _kind=kind, a=x, b=y)
    for _ in range(140):
        a, b = gen.to_kind(rng, kind, *gen.pair(rng, rng.choice([6, 12, 24, 60])))
        yield dict(_api="tokens", _kind=kind, a=a, b=b)
    for _ in range(60):
        name = rng.choice(list(TOKENIZERS))
        exotic = rng.choice([0, 0.3, 0.9])
        newline = rng.choice(["\n", "\n", "\r\n", "\r"])
        a = gen.document(rng, rng.randint(0, 8), exotic, newline)
        b = gen.edit_document(rng, a, rng.randint(0, 6), exotic, newline)
        if rng.random() < 0.1:
            b = gen.document(rng, rng.randint(0, 8), exotic)
        if rng.random() < 0.4:
            a, b = a.encode(), b.encode()
            if name in ("none", "line", "default") and rng.random() < 0.3:
                noise = bytes(rng.randrange(256) for _ in range(20))
                a, b = a + noise, noise[5:] + b
        yield dict(_api="tokenizer", _tokenizer=name, a=a, b=b)
    if places := gen.heavy_places(rng, block, tier):
        kind2 = "str" if kind == "bytes" else kind
        a, b = gen.to_kind(rng, kind2, *gen.heavy(rng, places, 1))
        yield dict(_api="tokens", _kind=kind2, a=a, b=b)
    if block in (33, 34):
        a, b = gen.megabytes(rng, 2, block == 33)
        a, b = (a, b) if block == 33 else (a.encode(), b.encode())
        yield dict(_api="tokenizer", _tokenizer="line", a=a, b=b)
    # Large inputs: more than 256 different tokens, long pieces, many edits.
    sizes = [300, 1500] if tier == "quick" else [300, 1500, 5000, 20000]
    n = rng.choice(sizes) if block % 4 else sizes[-1] * 2
    if block in (10, 20, 30, 47):
        n = 70000
    a = gen.structured(rng, n)
    if rng.random() < 0.5 or n > 10000:
        a = tuple(rng.randrange(5000) for _ in range(n))
    b = gen.edit(rng, a, rng.choice([1, 3, 10, 30]) if n < 30000 else 2, alphabet=6000)
    if kind == "bytes":
        a, b = tuple(t % 256 for t in a), tuple(t % 256 for t in b)
    a, b = gen.to_kind(rng, kind, a, b)
    yield dict(_api="tokens", _kind=kind, a=a, b=b)
    a = gen.document(rng, min(n, 5000) // 12)
    b = gen.edit_document(rng, a, rng.choice([1, 3, 10]))
    yield dict(_api="tokenizer", _tokenizer=rng.choice(list(TOKENIZERS)), a=a, b=b)


def check(case, obs):
    if case["_api"] == "tokens":
        a = gen.realize(case["_kind"], case["a"])
        b = gen.realize(case["_kind"], case["b"])
        items = sut(lambda: list(diff_token_sequences(a, b)))
    else:
        a, b = case["a"], case["b"]
        tokenizer = TOKENIZERS[case["_tokenizer"]]()
        items = sut(lambda: list(diff(a, b, tokenizer) if tokenizer else diff(a, b)))
        obs.count("tokenizer diffs")
    obs.count("diffs")
    examine(a, b, items, obs)


def examine(original, modified, items, obs):
    piece_type = type(original)
    inserted_side, deleted_side = [], []
    changes = pieces = 0
    for item in items:
        if isinstance(item, Change):
            changes += 1
            require(
                type(item.a) is piece_type and type(item.b) is piece_type,
                "change with parts of another type",
                item=item,
                want=piece_type,
            )
            inserted_side.append(item.a)
            deleted_side.append(item.b)
        else:
            pieces += 1
            require(type(item) is piece_type, "piece of another type", item=item, want=piece_type)
            inserted_side.append(item)
            deleted_side.append(item)
    obs.count("changes", changes)
    obs.count("pieces", pieces)
    obs.maximum("changes in one diff", changes)
    obs.maximum("input length", max(len(original), len(modified)))
    if changes and pieces:
        obs.mark_nontrivial()
    got = concat(inserted_side, original[0:0])
    require(same(got, modified), "pieces and insertions don't spell the modified input", got=got, want=modified)
    got = concat(deleted_side, original[0:0])
    require(same(got, original), "pieces and deletions don't spell the original input", got=got, want=original)
