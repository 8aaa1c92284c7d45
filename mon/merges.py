"""Shared by the merge checks: workloads and the reading of results."""

from __future__ import annotations

from mon import gen
from mon.core import require
from mon.oracle import concat

from gaspra.types import Change

MERGE_KINDS = ("str", "bytes", "ints", "mixed", "tok", "list")


def small_triples(rng, kind, part, parts, alphabet=2, longest=3):
    words = list(gen.all_words(alphabet, longest))
    index = 0
    for p in words:
        for a in words:
            index += 1
            if index % parts != part:
                continue
            for b in words:
                yield gen.to_kind(rng, kind, p, a, b)


def distinct_triple(rng, longest=14, base=0):
    """Parent of different tokens and two branches with fresh insertions."""
    n = rng.randint(0, longest)
    parent = tuple(range(n))
    rate = rng.choice([0.05, 0.15, 0.3, 0.5])
    next_token = [n]

    def branch():
        out = []
        i = 0
        while i <= n:
            if rng.random() < rate:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    out.append(next_token[0])
                    next_token[0] += 1
            if i < n:
                if rng.random() < rate:
                    # delete a run
                    i += rng.choice([1, 1, 1, 2, 4])
                    continue
                out.append(i)
            i += 1
        return tuple(out)

    return parent, branch(), branch()


def focused_triple(rng):
    """Two edits placed next to each other in every relation, amid kept tokens."""
    left, right = rng.randint(0, 2), rng.randint(0, 2)
    middle = rng.randint(0, 4)
    n = left + middle + right
    fresh = iter(range(n, 10 * n + 100))

    def one():
        s = rng.randint(left, left + middle)
        e = rng.randint(s, left + middle)
        insert = [next(fresh) for _ in range(rng.randint(0, 2))]
        return tuple(range(s)) + tuple(insert) + tuple(range(e, n))

    def two():
        cut = rng.randint(left, left + middle)
        s1 = rng.randint(left, cut)
        e1 = rng.randint(s1, cut)
        s2 = rng.randint(min(cut + 1, n), max(n, cut + 1))
        s2 = min(s2, n)
        e2 = rng.randint(s2, n)
        return (
            tuple(range(s1))
            + tuple(next(fresh) for _ in range(rng.randint(0, 2)))
            + tuple(range(e1, s2))
            + tuple(next(fresh) for _ in range(rng.randint(0, 2)))
            + tuple(range(e2, n))
        )

    return tuple(range(n)), rng.choice([one, two])(), rng.choice([one, two])()


def projection(items, side, empty):
    return concat([item[side] if isinstance(item, Change) else item for item in items], empty)


def conflicts(items):
    return [item for item in items if isinstance(item, Change)]


def regions(parts):
    """Changes of a diff as (start, end, inserted) with respect to the original."""
    out = []
    position = 0
    for item in parts:
        if isinstance(item, Change):
            out.append((position, position + len(item.b), item.a))
            position += len(item.b)
        else:
            position += len(item)
    return out


def clusters(regions0, regions1):
    """Group changes of both branches that touch or overlap."""
    events = [(s, e, i, 0) for s, e, i in regions0] + [(s, e, i, 1) for s, e, i in regions1]
    events.sort(key=lambda x: x[:2])
    out = []
    for s, e, insert, branch in events:
        if out and s <= out[-1][1]:
            out[-1][1] = max(out[-1][1], e)
            out[-1][2].append((s, e, insert, branch))
        else:
            out.append([s, e, [(s, e, insert, branch)]])
    return out


def clean_merge(parent, regions0, regions1):
    """The expected merge if no two different changes touch, else None."""
    result = []
    position = 0
    for s, e, group in clusters(regions0, regions1):
        branches = [x[3] for x in group]
        if len(group) > 1:
            if len(group) != 2 or branches[0] == branches[1] or group[0][:3] != group[1][:3]:
                return None
        result.append(parent[position:s])
        result.append(group[0][2])
        position = e
    result.append(parent[position:])
    return concat(result, parent[0:0])


def check_types(items, piece_type):
    for item in items:
        parts = tuple(item) if isinstance(item, Change) else (item,)
        for part in parts:
            require(type(part) is piece_type, "piece of another type", item=item, want=piece_type)


def lift(parent, regions0, regions1):
    """The same edits with every occurrence made a different token (an int).

    Returns the lifted triple and the meaning of each int."""
    meaning = dict(enumerate(parent))
    known = {}

    def build(regions):
        out, position = [], 0
        for s, e, insert in regions:
            out += range(position, s)
            key = (s, e, tuple(insert))
            if key not in known:
                known[key] = []
                for token in insert:
                    known[key].append(len(meaning))
                    meaning[len(meaning)] = token
            out += known[key]
            position = e
        out += range(position, len(parent))
        return tuple(out)

    return tuple(range(len(parent))), build(regions0), build(regions1), meaning
