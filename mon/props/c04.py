"""C04: the longest common substring is longest, common and first."""

from mon import gen
from mon.core import require, sut
from mon.oracle import first_index, has_common

import gaspra
from gaspra import suffix_automaton

ID = "C04"
LEVEL = "exploration"
FILES = ("wrappers.py", "suffix_automaton.py")
RULE = (
    "A case is one sequence and one or more others searched with find_lcs (fresh and through one shared "
    "automaton); the answer is compared with independent window searches; non-trivial when the common "
    "substring has at least 2 tokens, or occurs more than once."
)
FLOORS = {"searches": 5000, "no common token": 50, "shared automaton searches": 1000}


def blocks(tier):
    return 160 if tier == "quick" else 1600


def cases(tier, block, rng):
    kind = gen.KINDS[block % len(gen.KINDS)]
    if block < 16:
        # exhaustive: every pair of words, one automaton per word
        words = (
            list(gen.all_words(2, 6 if tier == "quick" else 8))
            if block % 2
            else list(gen.all_words(3, 4 if tier == "quick" else 5))
        )
        for i, a in enumerate(words):
            if i % 8 != block // 2:
                continue
            for start in range(0, len(words), 20):
                converted = gen.to_kind(rng, kind, a, *words[start : start + 20])
                yield dict(_kind=kind, a=converted[0], others=list(converted[1:]))
    for _ in range(80):
        a, b = gen.pair(rng, rng.choice([6, 12, 24, 60, 150]))
        others = [b, a, gen.structured(rng, rng.randint(0, 30))][: rng.randint(1, 3)]
        if rng.random() < 0.3:
            others.append(gen.edit(rng, b + a, 3))
        converted = gen.to_kind(rng, kind, a, *others)
        yield dict(_kind=kind, a=converted[0], others=list(converted[1:]))
    if block % 40 in (4, 24):
        # States with thousands of transitions and links
        a, b = (gen.wide(rng, 9000 if block == 4 else rng.choice([300, 1100, 4500]), rng.choice([1, 2])) for _ in range(2))
        a, b = gen.to_kind(rng, "ints", a, b)
        yield dict(_kind="ints", a=a, others=[b])
    sizes = [500, 3000] if tier == "quick" else [500, 3000, 20000, 120000]
    for n in sizes:
        a = gen.structured(rng, n)
        choice = rng.randrange(4)
        if choice == 0:
            b = gen.structured(rng, n)
        elif choice == 1:
            b = gen.edit(rng, a, rng.choice([1, 5, 50]))
        elif choice == 2:
            a = tuple(rng.randrange(1000) for _ in range(n))
            b = gen.edit(rng, a, 40, alphabet=1000)
        else:
            a = tuple(rng.randrange(3) for _ in range(n))
            b = tuple(rng.randrange(3) for _ in range(n // 2))
        if block == 17 and n == 3000:
            a = tuple(rng.randrange(3) for _ in range(70000))
            b = tuple(rng.randrange(3) for _ in range(70000))
        if kind == "bytes":
            a, b = tuple(t % 256 for t in a), tuple(t % 256 for t in b)
        a, b = gen.to_kind(rng, kind, a, b)
        yield dict(_kind=kind, a=a, others=[b])


def check(case, obs):
    a = gen.realize(case["_kind"], case["a"])
    automaton = sut(suffix_automaton.build, a)
    for other in case["others"]:
        b = gen.realize(case["_kind"], other)
        got = sut(gaspra.find_lcs, a, b)
        examine(a, b, got, obs)
        obs.count("searches")
        shared = sut(suffix_automaton.find_lcs, automaton, b)
        obs.count("shared automaton searches")
        require(
            tuple(shared) == tuple(got),
            "a used automaton gives another answer than a fresh one",
            got=shared,
            want=got,
        )


def examine(a, b, got, obs):
    require(
        isinstance(got, tuple) and len(got) == 3 and all(type(x) is int for x in got),
        "answer isn't two positions and a length",
        got=got,
    )
    i, j, length = got
    require(
        0 <= length and 0 <= i and 0 <= j and i + length <= len(a) and j + length <= len(b),
        "answer outside the sequences",
        got=got,
        a=a,
        b=b,
    )
    if length == 0:
        require(got == (0, 0, 0), "no common token, but positions aren't 0", got=got)
        require(not set(a) & set(b), "common token not found", a=a, b=b)
        obs.count("no common token")
        return
    block = a[i : i + length]
    require(block == b[j : j + length], "stretches differ", got=got, a=a, b=b)
    require(not has_common(a, b, length + 1), "a longer common stretch exists", got=got, a=a, b=b)
    require(first_index(a, block) == i, "not the first occurrence in the first sequence", got=got, a=a, b=b)
    require(first_index(b, block) == j, "not the first occurrence in the second sequence", got=got, a=a, b=b)
    obs.maximum("length found", length)
    obs.maximum("input length", max(len(a), len(b)))
    if length > 1 or first_index(a[i + 1 :], block) is not None:
        obs.mark_nontrivial()
