"""Workload generators: sequences, edits, documents. All from a given PRNG."""

from __future__ import annotations

import itertools


class Tok:
    """A token that's equal to, but never identical with, its copies.

    Hashes collide, and its truth value is false, as for 0 or ''."""

    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Tok) and other.value == self.value

    def __hash__(self):
        return hash(self.value % 3 if self.value < 24 else self.value)

    def __bool__(self):
        return False

    def __repr__(self):
        return f"Tok({self.value})"


# Unequal tokens; neighbours share a hash, a text, a truth value or a type.
MIXED = [
    "0", 0, 2**61 - 1, "", None, "None", (), "()", (0,), "a", b"a", "b'a'", 1, "1",
    (1,), frozenset(), -1, -2, 2.5, "2.5", "ab", (None,), slice, 10**30,
]

KINDS = ("str", "bytes", "ints", "list", "mixed", "tok")

PALETTES = [
    "abcdefghijklmnopqrstuvwxyz",
    "ab \n",
    "\u2028\x85\r\n\x0b\x0c\x00\x1c a",
    "\U0001f600\U0001f601e\u0301\u0300\ufeff\ud7ff\uffff",
    "[]\\<>=|\n ",
    "\ud83d\ude00\U0001f600\udc80\ud800",
    "".join(chr(c) for c in range(0x4E00, 0x4E00 + 64)),
]


def to_kind(rng, kind, *sequences):
    """Turn sequences of small ints into case data for the kind."""
    if kind == "str":
        palette = rng.choice(PALETTES)
        shift = rng.randrange(len(palette))
        table = lambda s: (
            palette[(s + shift) % len(palette)] if s < len(palette) else chr(0x5000 + s)
        )
        return tuple("".join(map(table, q)) for q in sequences)
    if kind == "bytes":
        shift = rng.choice([0, 97, 250, 10])
        return tuple(bytes((s + shift) % 256 for s in q) for q in sequences)
    if kind == "mixed":
        shift = rng.choice([0, rng.randrange(len(MIXED))])
        table = lambda s: (s + shift) % len(MIXED) if s < len(MIXED) else s
        return tuple(tuple(map(table, q)) for q in sequences)
    return tuple(tuple(q) for q in sequences)


def realize(kind, data):
    """Make the objects that are given to the code under test."""
    if kind in ("str", "bytes"):
        return data
    if kind == "ints":
        return tuple(data)
    if kind == "list":
        return list(data)
    if kind == "mixed":
        return tuple(MIXED[s] if s < len(MIXED) else s for s in data)
    if kind == "tok":
        return tuple(Tok(s) for s in data)
    raise ValueError(kind)


def all_words(alphabet, longest):
    for n in range(longest + 1):
        yield from itertools.product(range(alphabet), repeat=n)


def fibonacci(n, a=(0,), b=(0, 1)):
    while len(b) < n:
        a, b = b, b + a
    return b[:n]


def thue_morse(n):
    return tuple(bin(i).count("1") & 1 for i in range(n))


def de_bruijn(k, n):
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return tuple(out)


def structured(rng, n):
    """One sequence of about n symbols with some structure."""
    choice = rng.randrange(8)
    if n == 0:
        return ()
    if choice == 0:
        return (0,) * n
    if choice == 1:
        unit = tuple(rng.randrange(3) for _ in range(rng.randint(1, 5)))
        return (unit * n)[:n]
    if choice == 2:
        return fibonacci(n)
    if choice == 3:
        return thue_morse(n)
    if choice == 4:
        out = []
        while len(out) < n:
            out += [rng.randrange(3)] * rng.randint(1, 6)
        return tuple(out[:n])
    if choice == 5:
        k = rng.choice([2, 3, 4])
        return tuple(rng.randrange(k) for _ in range(n))
    if choice == 6:
        k = rng.choice([8, 16, 40])
        return tuple(rng.randrange(k) for _ in range(n))
    blocks = [tuple(rng.randrange(6) for _ in range(rng.randint(1, 4))) for _ in range(3)]
    out = ()
    while len(out) < n:
        out += rng.choice(blocks)
    return out[:n]


def edit(rng, sequence, count, alphabet=6, fresh=None):
    """Apply random edits: replace, insert, delete, move, copy, reverse."""
    s = list(sequence)

    def new(k):
        if fresh is not None:
            return [fresh() for _ in range(k)]
        return [rng.randrange(alphabet) for _ in range(k)]

    for _ in range(count):
        op = rng.randrange(7)
        i = rng.randint(0, len(s))
        j = min(len(s), i + rng.choice([1, 1, 2, 3, 5, 8]))
        if op == 0:
            s[i:j] = new(rng.randint(1, 4))
        elif op in (1, 2):
            s[i:i] = new(rng.randint(1, 4))
        elif op in (3, 4):
            del s[i:j]
        elif op == 5:
            block = s[i:j]
            del s[i:j]
            k = rng.randint(0, len(s))
            s[k:k] = block
        else:
            k = rng.randint(0, len(s))
            if fresh is None:
                s[k:k] = s[i:j]
            else:
                s[k:k] = new(1)
    return tuple(s)


def pair(rng, longest=24):
    """Two sequences of small ints, related in one of many ways."""
    n = rng.randint(0, longest)
    choice = rng.randrange(10)
    if choice == 0:
        return structured(rng, n), structured(rng, rng.randint(0, longest))
    if choice == 1:
        k = rng.randint(1, 4)
        return (
            tuple(rng.randrange(k) for _ in range(n)),
            tuple(rng.randrange(k) for _ in range(rng.randint(0, longest))),
        )
    if choice == 2:
        a = structured(rng, n)
        return a, tuple(reversed(a))
    if choice == 3:
        a = structured(rng, n)
        b = tuple(x + 50 for x in structured(rng, rng.randint(0, longest)))
        return a, b
    if choice == 4:
        a = structured(rng, n)
        i = rng.randint(0, len(a))
        b = rng.choice([a[:i], a[i:], a[i:] + a[:i], a + a, a[:i] + a[i + 1 :], (), a])
        return (a, b) if rng.random() < 0.5 else (b, a)
    if choice == 5:
        # equal-length common blocks in different orders
        blocks = [
            tuple(rng.randrange(5) for _ in range(rng.choice([2, 3]))) for _ in range(rng.randint(2, 4))
        ]
        mixed = []
        for _ in range(2):
            rng.shuffle(blocks)
            out = []
            for block in blocks:
                out += block
                out += [rng.randrange(5, 9)] * rng.randrange(3)
            mixed.append(tuple(out))
        return tuple(mixed)
    a = structured(rng, n)
    b = edit(rng, a, rng.choice([1, 1, 2, 3, 5, 8]))
    return (a, b) if rng.random() < 0.8 else (b, a)


def shuffled(rng, n):
    """Two sequences of n or more tokens whose common blocks are short and in other orders."""
    size = rng.choice([1, 1, 2, 3])
    blocks = [tuple(range(i, min(n, i + size))) for i in range(0, n, size)]
    other = list(blocks)
    style = rng.randrange(4)
    if style == 0:
        other.reverse()
    elif style == 1:
        rng.shuffle(other)
    elif style == 2:
        # only one of them in common
        k = rng.randrange(len(blocks))
        other = [tuple(range(2 * n + i, 2 * n + i + size)) for i in range(0, n, size)]
        other[rng.randrange(len(other))] = blocks[k]
    else:
        # every second block is in common, and in order
        other = [b if i % 2 else tuple(t + 2 * n for t in b) for i, b in enumerate(blocks)]
    return sum(blocks, ()), sum(other, ())


def triple(rng, longest=20):
    """Parent and two branches."""
    choice = rng.randrange(6)
    if choice == 0:
        k = rng.randint(1, 5)
        return tuple(
            tuple(rng.randrange(k) for _ in range(rng.randint(0, longest))) for _ in range(3)
        )
    if choice == 1:
        p, a = pair(rng, longest)
        return p, a, edit(rng, a, rng.randint(0, 3))
    p = structured(rng, rng.randint(0, longest))
    if choice == 2:
        p = tuple(range(len(p)))
    a = edit(rng, p, rng.choice([0, 1, 1, 2, 3, 5]), alphabet=30 if choice == 2 else 6)
    b = edit(rng, p, rng.choice([0, 1, 1, 2, 3, 5]), alphabet=30 if choice == 2 else 6)
    if choice == 3:
        # a shared edit
        p2 = edit(rng, p, rng.randint(1, 2))
        a = edit(rng, p2, rng.randint(0, 2))
        b = edit(rng, p2, rng.randint(0, 2))
    return p, a, b


def replaced(rng, least=65, most=400):
    """A sequence with some structure, and the same with one or two other tokens in it."""
    n = rng.randint(least, most)
    a = structured(rng, n)
    if rng.random() < 0.5:
        runs = [rng.randrange(3)] * rng.randint(1, n)
        while len(runs) < n:
            runs += [rng.randrange(3)] * rng.randint(1, n)
        a = tuple(runs[:n])
    b = list(a)
    for _ in range(rng.choice([1, 1, 1, 2])):
        if rng.random() < 0.5:
            # next to where something else begins
            places = [i for i in range(1, n) if a[i] != a[i - 1]] or [0]
            i = rng.choice(places)
            b[i] = a[i - 1]
        else:
            b[rng.randrange(n)] = rng.choice(a)
    return (a, tuple(b)) if rng.random() < 0.5 else (tuple(b), a)


def wide(rng, n, repeats=2):
    """A token with n different neighbours on both sides, most of them several times."""
    out = []
    for _ in range(repeats):
        others = list(range(1, n + 1))
        if rng.random() < 0.5:
            rng.shuffle(others)
        for other in others:
            out += [0, other] if rng.random() < 0.95 else [0, 0, other]
    return tuple(out)


def large_versions(rng, kind, count, n=None):
    """A long sequence and versions of it with a few edits."""
    n = n or rng.choice([5000, 20000])
    alphabet = 250 if kind == "bytes" else rng.choice([300, 5000])
    p = tuple(rng.randrange(alphabet) for _ in range(n))
    return (p, *(edit(rng, p, rng.choice([1, 4, 12]), alphabet) for _ in range(count)))


def heavy(rng, places, branches=2, separate=False, distinct=False):
    """A parent and branches that differ from it in many places.

    The kept runs between the places have the lengths 1, 2, 1, 3, 1, 2, 1, 4, ... so that the tree of a diff is
    shallow. `separate`: no place is changed by two branches, unless in the same way. `distinct`: no token is
    inserted by two branches, or twice."""
    count = iter(range(10**9))
    fresh = lambda least, most: [next(count) for _ in range(rng.randint(least, most))]
    rates = [rng.choice([0.05, 0.5, 0.5, 0.9, 1]) for _ in range(branches)]
    rewritten = -1 if separate or rng.random() < 0.6 else rng.randrange(branches)
    shared = 0 if distinct else rng.choice([0, 0.1, 0.5])
    pure = rng.choice([None, None, 0, 1, 2])
    parent, out = [], [[] for _ in range(branches)]
    for i in range(1, places + 1):
        run = fresh(*[(i & -i).bit_length()] * 2)
        old = fresh(0, 2)
        change = None
        owner = rng.randrange(branches) if separate else None
        parent += run + old
        for k, branch in enumerate(out):
            if k != rewritten:
                branch += run
            if k == rewritten:
                branch += fresh(0, 3)
                if out[k - 1] and not distinct and rng.random() < 0.3:
                    branch += [rng.choice(out[k - 1])] * rng.randint(1, 2)
            elif rng.random() < rates[k] and (owner in (None, k)):
                op = rng.randrange(3) if pure is None else pure
                if change is not None and rng.random() < shared:
                    new = change
                elif op == 0:
                    new = fresh(1, 3)
                elif op == 1:
                    new = old[1:] if distinct or rng.random() < 0.5 else []
                elif rng.random() < 0.5:
                    new = fresh(1, 2) + old
                else:
                    new = old + fresh(1, 2)
                if not distinct and rng.random() < 0.05:
                    new = new + [rng.choice(parent)]
                branch += new
                change = new
            else:
                branch += old
    return tuple(parent), *map(tuple, out)


def heavy_places(rng, block, tier):
    """How many places, for this block (0: none)."""
    if tier == "thorough":
        return rng.choice([70, 300, 1500, 5000])
    if block == 3:
        return 4500
    return rng.choice([70, 300]) if block % 4 == 1 else 1300 if block % 32 == 19 else 0


WORDS = (
    "the of and a to in is you that it he was for on are as with his they I at be this have from "
    "or one had by word but not what all were we when your can said there use an each which she do "
    "how their if will up other about out many then them these so some her would make like him into "
    "time has look two more write go see number no way could people my than first water been call "
    "x1 foo_bar $var a-b 3.14 naïve 日本語 café Ω"
).split()

EXOTIC_WORDS = [
    "\u2028", "\x85", "\r", "\x0b", "\x0c", "\x1c", "\u2029", "\U0001f600", "e\u0301", "\ufeff",
    "[bold]", "[/]", "\\[", "\\", "[green4]", ":smile:", "<<<<<<<", "=======", ">>>>>>>", "]", "[",
    "\x00", "\u200d", "\u202e", "--", "$-", "_",
]


def line(rng, exotic=0.0):
    if rng.random() < 0.002:
        return rng.choice("x é0_-=\t日[") * rng.choice([66, 130, 260, 1030])
    words = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13])):
        pool = EXOTIC_WORDS if rng.random() < exotic else WORDS
        words.append(rng.choice(pool))
    text = rng.choice(["", "", "", "  ", "    "]) + rng.choice([" ", " ", " ", "  "]).join(words)
    return text + rng.choice(["", "", "", ".", ",", " ", ";"])


def document(rng, lines, exotic=0.0, newline="\n", final=None):
    """A text document of the given number of lines."""
    out = []
    for _ in range(lines):
        if out and rng.random() < 0.15:
            out.append(rng.choice(out))
        else:
            out.append(line(rng, exotic))
    text = newline.join(out)
    if final is None:
        final = rng.random() < 0.7
    if out and final:
        text += newline
    return text


def megabytes(rng, count, rewritten=True):
    """Texts of more than two megabytes and few lines, some of which differ; most of them in the last one, if it's rewritten."""
    rows = [f"{i} {line(rng)} \u00e9\u65e5\U0001f600" * 150 for i in range(rng.choice([500, 600]))]
    versions = []
    for k in range(count):
        new = list(rows)
        for i in (rng.randrange(len(rows)), len(rows) - 1):
            new[i] = rng.choice(["", f"{rng.random()} ", rows[i][1:]])
        if rewritten and k == count - 1:
            new[40:] = [f"{rng.random()} {row[::-1]}" for row in new[40:]]
        versions.append("\n".join(new) + rng.choice(["", "\n"]))
    return versions


def heavy_documents(rng, places, count):
    """A document and versions of it with changes in many places."""
    style = rng.randrange(3)
    newline = rng.choice(["\n", "\n", "\r\n"])

    def spell(t):
        word = WORDS[t % len(WORDS)]
        if style == 0 or style == 1 and t % 3:
            return f"{word} {t}{newline}"
        return f"{word}{t} " if t % 5 else newline

    return ["".join(map(spell, q)) for q in heavy(rng, places, count)]


def edit_document(rng, text, count, exotic=0.0, newline="\n"):
    """Edit a document by characters, words and lines."""
    for _ in range(count):
        op = rng.randrange(9)
        n = len(text)
        i = rng.randint(0, n)
        j = min(n, i + rng.choice([1, 1, 2, 5, 20]))
        if op == 0:
            text = text[:i] + rng.choice(WORDS) + text[i:]
        elif op == 1:
            text = text[:i] + text[j:]
        elif op == 2:
            text = text[:i] + line(rng, exotic)[:6] + text[j:]
        elif op == 3:
            lines = text.split(newline)
            lines.insert(rng.randint(0, len(lines)), line(rng, exotic))
            text = newline.join(lines)
        elif op == 4:
            lines = text.split(newline)
            k = rng.randrange(len(lines))
            del lines[k : k + rng.choice([1, 1, 3])]
            text = newline.join(lines)
        elif op == 5:
            lines = text.split(newline)
            k = rng.randrange(len(lines))
            lines[k] = line(rng, exotic)
            text = newline.join(lines)
        elif op == 6:
            # reflow or rejoin
            text = text[:i] + (newline if rng.random() < 0.5 else " ") + text[i:]
        elif op == 7:
            k = text.find(newline, i)
            if k >= 0:
                text = text[:k] + rng.choice([" ", ""]) + text[k + len(newline) :]
        else:
            # the end of the document
            if text.endswith(newline):
                text = text[: -len(newline)]
            else:
                text += rng.choice([newline, newline + newline, " ", "x"])
    return text


def file_names(rng, count, special=""):
    """Different base names of files."""
    alphabet = rng.choice(["ab.", "a b.", "Aa_-.", "[]/\\a".replace("/", ""), "<>=a ", "'\"$%&#~!;|*?a", ":smile1", "\u00e9\u65e5\U0001f600a."] + ([special + "a."] if special else []))
    names = []
    while len(names) < count:
        name = "".join(rng.choice(alphabet) for _ in range(rng.choice([1, 2, 3, 5, 9, 40])))
        if name.strip(".") and name not in names and name.lower() not in ("merged", "out", "d", "e", "f") and len(name.encode("utf-8", "surrogateescape")) < 200:
            names.append(name)
    return tuple(names)
