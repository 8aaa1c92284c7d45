"""C05: the common substring of many sequences is longest, common and first."""

from mon import gen
from mon.core import require, sut
from mon.oracle import first_index, has_common_all

import gaspra

ID = "C05"
LEVEL = "exploration"
FILES = ("multiple_strings.py", "suffix_automaton.py")
RULE = (
    "A case is a list of 0 to 700 sequences (related by shared blocks, edits, rotations; with duplicates and "
    "empty members; exhaustive lists of short words); the answer is compared with independent window "
    "intersections; non-trivial when 3 or more sequences have a common token."
)
FLOORS = {"searches": 3000, "no sequences": 5, "one sequence": 50, "nothing in common": 50, "ten or more": 50, "more than 250": 5, "more than 65536 tokens": 3}
ASSUMPTIONS = ["gaspra's own Separator objects aren't used as tokens"]


def blocks(tier):
    return 160 if tier == "quick" else 1600


def cases(tier, block, rng):
    kind = gen.KINDS[block % len(gen.KINDS)]
    yield dict(_kind=kind, sequences=[])
    if block < 16:
        words = list(gen.all_words(2, 4))
        for i, a in enumerate(words):
            if i % 16 != block:
                continue
            for b in words:
                for c in words if tier == "thorough" else words[:: 3 - (i % 2)]:
                    yield dict(_kind=kind, sequences=list(gen.to_kind(rng, kind, a, b, c)))
    for _ in range(70):
        yield dict(_kind=kind, sequences=list(gen.to_kind(rng, kind, *family(rng))))
    n = rng.choice([200, 1000] if tier == "quick" else [200, 1000, 10000])
    common = gen.structured(rng, rng.choice([3, n // 10, n]))
    k = rng.choice([2, 3, 5])
    sequences = [
        gen.structured(rng, rng.randint(0, n)) + common + gen.structured(rng, rng.randint(0, n))
        for _ in range(k)
    ]
    yield dict(_kind=kind, sequences=list(gen.to_kind(rng, kind, *sequences)))
    if block % 40 == 9 or tier == "thorough" and block % 20 == 3:
        # more than 65536 tokens, so that states, positions and such don't fit into 16 bits
        low, high = rng.choice([(0, 40), (0, 4)]), rng.choice([(50, 90), (50, 54), (0, 40)])
        k = rng.choice([2, 2, 3])
        common = gen.structured(rng, rng.choice([2, 40, 300]))
        sequences = []
        for i in range(k):
            alphabet = (low, high)[i % 2]
            fill = lambda: tuple(rng.randrange(*alphabet) for _ in range(rng.choice([5, 20000, 36000])))
            sequences.append(fill() + tuple(t + 100 for t in common) + fill())
        if sum(map(len, sequences)) < 70000:
            sequences[0] += tuple(rng.randrange(*low) for _ in range(70000))
        kind = rng.choice(["str", "bytes", "ints"])
        yield dict(_kind=kind, sequences=list(gen.to_kind(rng, kind, *sequences)))
    if block % 40 in (5, 25):
        # States with thousands of transitions and links
        n = 9000 if block == 5 else rng.choice([300, 1100, 4500])
        sequences = [gen.wide(rng, n, rng.choice([1, 2])) for _ in range(rng.choice([1, 2, 3]))]
        yield dict(_kind="ints", sequences=list(gen.to_kind(rng, "ints", *sequences)))
    if block % 20 == 6 or tier == "thorough" and block % 5 == 1:
        # more sequences than fit into 8 bits
        common = gen.structured(rng, rng.choice([1, 3, 8]))
        fill = lambda: tuple(rng.randrange(10) for _ in range(rng.randint(0, 12)))
        sequences = [fill() + common + fill() for _ in range(rng.choice([255, 256, 257, 300, 700]))]
        if rng.random() < 0.2:
            sequences[rng.randrange(len(sequences))] = common[1:]
        yield dict(_kind=kind, sequences=list(gen.to_kind(rng, kind, *sequences)))
    sequences = [gen.structured(rng, 30) for _ in range(rng.choice([40, 100]))]
    yield dict(_kind=kind, sequences=list(gen.to_kind(rng, kind, *sequences)))


def family(rng):
    k = rng.choice([1, 1, 2, 2, 3, 3, 4, 6, 12, 30])
    longest = rng.choice([5, 10, 30]) if k < 10 else 10
    choice = rng.randrange(6)
    if choice == 0:
        alphabet = rng.randint(1, 4)
        out = [
            tuple(rng.randrange(alphabet) for _ in range(rng.randint(0, longest))) for _ in range(k)
        ]
    elif choice == 1:
        out = [gen.structured(rng, rng.randint(0, longest)) for _ in range(k)]
    elif choice == 2:
        base = gen.structured(rng, longest)
        out = [gen.edit(rng, base, rng.randint(0, 3)) for _ in range(k)]
    elif choice == 3:
        common = gen.structured(rng, rng.randint(1, 6))
        out = [
            tuple(rng.randrange(10) for _ in range(rng.randint(0, longest)))
            + common
            + tuple(rng.randrange(10) for _ in range(rng.randint(0, longest)))
            for _ in range(k)
        ]
    elif choice == 4:
        # a block that would only be common across the end of a sequence
        block = gen.structured(rng, rng.randint(2, 6))
        out = []
        for _ in range(k):
            cut = rng.randint(0, len(block))
            out.append(rng.choice([block[cut:], block[:cut], block, block[cut:] + block[:cut]]))
    else:
        base = gen.structured(rng, rng.randint(0, longest))
        out = [base] * k
        if rng.random() < 0.7:
            out[rng.randrange(k)] = base[rng.randint(0, len(base)) :]
    if rng.random() < 0.1:
        out[rng.randrange(k)] = ()
    if rng.random() < 0.1:
        out[rng.randrange(k)] = tuple(t + 20 for t in out[0])
    return out


def check(case, obs):
    sequences = [gen.realize(case["_kind"], s) for s in case["sequences"]]
    got = sut(gaspra.find_lcs_multiple, *sequences)
    obs.count("searches")
    obs.distinct("numbers of sequences", len(sequences))
    if not sequences:
        obs.count("no sequences")
        require(got == ((), None), "answer for no sequences", got=got)
        return
    if len(sequences) == 1:
        obs.count("one sequence")
    if len(sequences) > 250:
        obs.count("more than 250")
    if len(sequences) >= 10:
        obs.count("ten or more")
    require(
        isinstance(got, tuple) and len(got) == 2 and isinstance(got[0], tuple) and type(got[1]) is int,
        "answer isn't positions and a length",
        got=got,
    )
    positions, length = got
    require(len(positions) == len(sequences), "not one position per sequence", got=got)
    require(length >= 0, "negative length", got=got)
    block = None
    for s, position in zip(sequences, positions):
        require(
            type(position) is int and 0 <= position and position + length <= len(s),
            "position outside its sequence",
            got=got,
            sequences=sequences,
        )
        current = s[position : position + length]
        require(block is None or current == block, "stretches differ", got=got, sequences=sequences)
        block = current
    require(
        not has_common_all(sequences, length + 1),
        "a longer common stretch exists",
        got=got,
        sequences=sequences,
    )
    for s, position in zip(sequences, positions):
        require(
            first_index(s, block) == position,
            "not the first occurrence",
            got=got,
            want=first_index(s, block),
            sequences=sequences,
        )
    if length == 0:
        obs.count("nothing in common")
    elif len(sequences) > 2:
        obs.mark_nontrivial()
    if sum(map(len, sequences)) > 65536:
        obs.count("more than 65536 tokens")
    obs.maximum("total input length", sum(map(len, sequences)))
    obs.maximum("length found", length)
