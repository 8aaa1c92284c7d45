"""C06: substring search finds exactly all occurrences."""

from mon import gen
from mon.core import require, sut
from mon.oracle import all_indexes

import gaspra
from gaspra import suffix_automaton

ID = "C06"
LEVEL = "exploration"
FILES = ("wrappers.py", "suffix_automaton.py")
RULE = (
    "A case is a text and several queries (substrings, near misses, overlapping periods, foreign tokens, the "
    "empty query, queries longer than the text), searched fresh and through one shared automaton, compared "
    "with a direct scan; non-trivial when some query occurs at least twice."
)
FLOORS = {"searches": 10000, "overlapping occurrences": 500, "absent queries": 500, "suffix sets": 1000, "queries of more than 60 tokens": 500}


def blocks(tier):
    return 160 if tier == "quick" else 1600


def cases(tier, block, rng):
    kind = gen.KINDS[block % len(gen.KINDS)]
    if block < 16:
        words = list(gen.all_words(2, 7)) if block % 2 else list(gen.all_words(3, 5))
        for i, text in enumerate(words):
            if i % 8 != block // 2:
                continue
            queries = {text[i:j] for i in range(len(text) + 1) for j in range(i, len(text) + 1)}
            queries |= set(gen.all_words(2, 3))
            converted = gen.to_kind(rng, kind, text, *sorted(queries))
            yield dict(_kind=kind, text=converted[0], queries=list(converted[1:]), suffixes=1)
    for _ in range(80):
        text, other = gen.pair(rng, rng.choice([8, 20, 40]))
        converted = gen.to_kind(rng, kind, text, *make_queries(rng, text, other))
        yield dict(_kind=kind, text=converted[0], queries=list(converted[1:]), suffixes=1)
    if block % 40 == 13:
        text = tuple(rng.randrange(rng.choice([3, 8])) for _ in range(70000))
        big = rng.choice(["str", "bytes", "ints"])
        i, n = rng.randrange(60000), rng.choice([300, 2300, 5000])
        changed = text[i : i + n - 1] + (98,)
        converted = gen.to_kind(
            rng, big, text, (), text[:1], text[5:7], text[-4:], text[100:140], (99,), text[i : i + n], changed, text
        )
        yield dict(_kind=big, text=converted[0], queries=list(converted[1:]), suffixes=0)
    if block % 40 in (3, 23):
        # States with thousands of transitions and links
        text = gen.wide(rng, 9000 if block == 3 else rng.choice([300, 1100, 4500]), rng.choice([2, 3]))
        other = rng.choice(text)
        queries = [(), (0,), (other,), (0, other), (other, 0), (0, 0), text[5:7], text[-4:], text[40:70]]
        converted = gen.to_kind(rng, "ints", text, *queries)
        yield dict(_kind="ints", text=converted[0], queries=list(converted[1:]), suffixes=0)
    n = rng.choice([400, 2500] if tier == "quick" else [400, 2500, 20000, 100000])
    text = gen.structured(rng, n)
    if rng.random() < 0.3:
        text = tuple(rng.randrange(300) for _ in range(n))
    if kind == "bytes":
        text = tuple(t % 256 for t in text)
    converted = gen.to_kind(rng, kind, text, *make_queries(rng, text, text[::-1]), *long_queries(rng, text))
    yield dict(_kind=kind, text=converted[0], queries=list(converted[1:]), suffixes=0)


def long_queries(rng, text):
    """Queries which occur, and which stop occurring at some place far from their beginning."""
    out = []
    for _ in range(3):
        i = rng.randint(0, len(text) // 2)
        query = text[i : i + rng.choice([70, 130, 260, 300, 1100])]
        at = rng.randint(len(query) // 2, len(query) - 1)
        out += [query, query[:at] + (text[0],) + query[at + 1 :], query + (99,)]
    return out


def make_queries(rng, text, other):
    queries = [(), text, text + (0,), (99,)]
    for _ in range(5):
        i = rng.randint(0, len(text))
        j = rng.randint(i, min(len(text), i + rng.choice([1, 2, 4, 10])))
        queries.append(text[i:j])
        if i < j:
            queries.append(text[i : j - 1] + (rng.randrange(3),))
            queries.append(text[i:j] + (99,))
    i = rng.randint(0, len(other))
    queries.append(other[i : i + rng.randint(1, 3)])
    for s in {text[:1], text[1:2]}:
        queries.append(s * 2)
        queries.append(s * 3)
    return queries


def check(case, obs):
    kind = case["_kind"]
    text = gen.realize(kind, case["text"])
    automaton = sut(suffix_automaton.build, text)
    for index, data in enumerate(case["queries"]):
        query = gen.realize(kind, data)
        want = all_indexes(text, query)
        got = list(sut(gaspra.find_substring, text, query)) if index < 2 or len(text) < 1000 or len(query) > 60 else None
        shared = list(sut(suffix_automaton.find_substring_all, automaton, query))
        first = sut(suffix_automaton.find_substring, automaton, query)
        obs.count("searches")
        if got is not None:
            require(got == want, "find_substring found other occurrences", got=got, want=want, text=text, query=query)
        require(
            shared == want, "find_substring_all found other occurrences", got=shared, want=want, text=text, query=query
        )
        require(
            first == (want[0] if want else None),
            "first occurrence",
            got=first,
            want=want[:1],
            text=text,
            query=query,
        )
        if not want:
            obs.count("absent queries")
        if len(query) > 60:
            obs.count("queries of more than 60 tokens")
        if len(query) and any(y - x < len(query) for x, y in zip(want, want[1:])):
            obs.count("overlapping occurrences")
        if len(query) and len(want) > 1:
            obs.mark_nontrivial()
        obs.maximum("occurrences", len(want))
    if case["suffixes"] and kind != "list" and len(text) <= 60:
        obs.count("suffix sets")
        got = sut(lambda: list(suffix_automaton.all_suffixes(automaton)))
        want = [text[i:] for i in range(len(text) + 1)]
        require(len(got) == len(want), "automaton spells another number of suffixes", got=len(got), want=len(want))
        require(
            sorted(got, key=len) == sorted(want, key=len), "automaton doesn't spell the suffixes", got=got, text=text
        )
    obs.maximum("text length", len(text))
