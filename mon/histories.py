"""Version histories: workloads, storage back-ends and the reference model."""

from __future__ import annotations

import itertools

from mon import gen
from mon.connections import connect
from mon.core import require, sut

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.tokenizers import CharTokenizer, LineTokenizer, NullTokenizer, SymbolTokenizer
from gaspra.versions import Versions

TOKENIZERS = dict(null=NullTokenizer, char=CharTokenizer, line=LineTokenizer, symbol=SymbolTokenizer)
HOSTILE_TAGS = [
    "", " ", "'", '"', "'; DROP TABLE graph; --", "%", "0", "00", "1e3", "NULL", "None", "é", "\U0001f600", "a\nb", "a\x00b",
    "rowid", "tag", "?", "x" * 300, "A", "a", " a", "a ",
]
# Tags that something may take for each other.
LOOK_ALIKES = [
    ["\u00e9", "e\u0301"], ["\u212b", "\u00c5", "A\u030a"], ["x" * 300, "x" * 301, "x" * 299 + "y"], ["A", "a", "\uff21"],
    ["\u00c9", "\u00e9"], ["a", "a ", "a\n", " a", "a\u00a0", "a\u200b"], ["a", "a\x00", "a\x00b"], ["0", "00", "0.0", "-0", "+0"],
    ["1e3", "1000", "1000.0"], ["\u00df", "ss"], ["\u0130", "i", "I"], ["a/b", "a//b", "a\\b"], ["a", "'a'", '"a"'], ["", "NULL", "\x00"],
    ["%", "_", "%%"], ["*", "?", "[a]"], ["y" * 70000, "y" * 70001],
]


class DB:
    """An in-memory database of its own."""

    def __init__(self, path=":memory:"):
        self.connection = connect(path)

    def __call__(self):
        return self.connection


def make_versions(backend, tokenizer, db=None):
    """backend: memory, db, mixed (memory storage, database tree)."""
    factory = TOKENIZERS[tokenizer]
    if backend == "memory":
        if tokenizer == "null":
            return Versions()
        return Versions(tokenizer_factory=factory)
    db = db or DB()
    if backend == "mixed":
        return Versions(tree=DBTree(db), tokenizer_factory=factory)
    return Versions(
        head_version=DBCollection("head_versions", db),
        diffs=DBCollection("diffs", db),
        tree=DBTree(db),
        tokenizer_factory=factory,
    )


class Model:
    """What the history has said so far."""

    def __init__(self):
        self.content = {}
        self.base = {}
        self.branch = {}  # tag -> branch
        self.head = {}  # branch -> newest tag
        self.size = {}  # branch -> versions
        self.order = []

    def add(self, tag, content, base):
        self.content[tag] = content
        self.base[tag] = base
        if base is not None and self.head[self.branch[base]] == base:
            branch = self.branch[base]
        else:
            branch = len(self.size)
            self.size[branch] = 0
        self.branch[tag] = branch
        self.head[branch] = tag
        self.size[branch] += 1
        self.order.append(tag)

    @property
    def heads(self):
        return set(self.head.values())


def make_tag(rng, index, style):
    if style == "plain":
        return f"v{index}"
    if style == "hostile":
        if index < len(HOSTILE_TAGS):
            return HOSTILE_TAGS[index]
        return f"{HOSTILE_TAGS[index % len(HOSTILE_TAGS)]}{index}"
    if style == "int":
        return index
    if style == "tuple":
        return ("v", index % 3, index)
    if style == "reverse":
        return f"{10**6 - index}"
    raise ValueError(style)


def make_tags(rng, n, style):
    """Different tags, the special ones at any place of the history."""
    if style == "falsy":
        special = [0, "", (), b"", frozenset(), 0.5, "0", (0,), ((),), True, -1, b"0", (None,)]
        tags = special + [f"v{i}" for i in range(max(0, n - len(special)))]
        rng.shuffle(tags)
        return tags[:n]
    tags = [make_tag(rng, i, style) for i in range(n)]
    if style == "hostile" and rng.random() < 0.4:
        special = list(dict.fromkeys(t for group in rng.sample(LOOK_ALIKES, 3) for t in group))
        tags = (special + [tag for tag in tags if tag not in special])[:n]
        rng.shuffle(tags)
    elif style == "hostile" and rng.random() < 0.7:
        rng.shuffle(tags)
    elif style == "int" and rng.random() < 0.5:
        tags = [tag - n // 2 for tag in tags]
    return tags


def shape(rng, n, kind):
    """For each version the index of its base, or None."""
    out = [None]
    heads = [0]
    for i in range(1, n):
        r = rng.random()
        if kind == "chain":
            base = i - 1
        elif kind == "files":
            base = None if r < 0.15 else rng.choice(heads)
        elif kind == "branches":
            if r < 0.08:
                base = None
            elif r < 0.3:
                base = rng.randrange(i)
            else:
                base = rng.choice(heads)
        elif kind == "star":
            base = 0 if r < 0.7 else rng.randrange(i)
        else:
            base = rng.choice([None, *range(i)])
        if base in heads:
            heads.remove(base)
        heads.append(i)
        out.append(base)
    return out


def all_shapes(n):
    """Every way n versions can be based on each other."""
    choices = [[None]] + [[None, *range(i)] for i in range(1, n)]
    return itertools.product(*choices)


def binary(rng, n):
    style = rng.randrange(4)
    if style == 0:
        return bytes(rng.randrange(256) for _ in range(n))
    if style == 1:
        return bytes(rng.choice([0, 255, 10, 13, 97]) for _ in range(n))
    if style == 2:
        return bytes(x % 256 for x in gen.structured(rng, n))
    return bytes([rng.randrange(256)]) * n


def edit_bytes(rng, data, count):
    data = bytearray(data)
    for _ in range(count):
        i = rng.randint(0, len(data))
        j = min(len(data), i + rng.choice([0, 0, 1, 2, 8, 40, 300]))
        op = rng.randrange(5)
        if op == 0:
            data[i:i] = binary(rng, rng.choice([1, 1, 3, 10, 60]))
        elif op == 1:
            del data[i:j]
        elif op == 2:
            data[i:j] = binary(rng, rng.choice([1, 2, 9]))
        elif op == 3:
            block = data[i:j]
            del data[i:j]
            k = rng.randint(0, len(data))
            data[k:k] = block
        else:
            k = rng.randint(0, len(data))
            data[k:k] = data[i:j]
    return bytes(data)


def contents(rng, bases, text, size):
    """The content of each version."""
    out = []
    exotic = rng.choice([0, 0.4])
    for i, base in enumerate(bases):
        r = rng.random()
        if base is None or r < 0.04:
            if text:
                new = gen.document(rng, rng.randint(0, size), exotic).encode("utf-8")
            else:
                new = binary(rng, rng.randint(0, size * 20))
        elif r < 0.10:
            new = out[rng.randrange(i)]  # restored, or the same again
        elif r < 0.13:
            new = b""
        elif text:
            new = gen.edit_document(rng, out[base].decode("utf-8"), rng.choice([1, 1, 2, 4]), exotic)
            new = new.encode("utf-8")
        else:
            new = edit_bytes(rng, out[base], rng.choice([1, 1, 2, 4]))
        out.append(new)
    return out


def history(rng, n, kind, tokenizer, size=8, style=None):
    """A case: a list of (tag, content, index of the base or None)."""
    bases = shape(rng, n, kind)
    text = tokenizer in ("char", "symbol") or rng.random() < 0.4
    style = style or rng.choice(["plain", "plain", "hostile", "reverse"])
    data = contents(rng, bases, text, size)
    tags = make_tags(rng, n, style)
    return tuple((tags[i], data[i], bases[i]) for i in range(n))


def sparse(rng, n, length):
    """A history of long versions with only short blocks in common, at any position."""
    blocks = [bytes(rng.randrange(97, 123) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 9]))) for _ in range(3)]
    out = []
    for i in range(n):
        # Fillers of neighboring versions have no byte in common.
        filler = bytes([i % 5 * 10 + rng.randrange(3)])
        content = bytearray(filler * rng.choice([rng.randint(0, 20), length, length + rng.randint(0, 40)]))
        for block in rng.sample(blocks, rng.choice([1, 1, 2, 3])):
            k = rng.choice([rng.randint(0, len(content)), len(content), max(0, len(content) - rng.randint(0, 9))])
            content[k:k] = block
        out.append((make_tag(rng, i, "plain"), bytes(content), i - 1 if i and rng.random() < 0.9 else None))
    return tuple(out)


def run(history, versions, model, after=None):
    """Add the versions one by one."""
    for i, (tag, content, base) in enumerate(history):
        base_tag = history[base][0] if base is not None else None
        if base_tag is None:
            sut(versions.add, tag, content)
        else:
            sut(versions.add, tag, content, base_tag)
        model.add(tag, content, base_tag)
        if after is not None:
            after(i)


def valid(history):
    """Is a (shrunk) history one the properties speak about?"""
    tags = []
    for i, entry in enumerate(history):
        if len(entry) != 3:
            return False
        tag, content, base = entry
        if tag in tags or tag is None or not isinstance(content, bytes):
            return False
        if base is not None and not (isinstance(base, int) and 0 <= base < i):
            return False
        tags.append(tag)
    return True


def probes(history, i, dense):
    """Which versions to look at after the i-th has been added."""
    if dense:
        return range(i + 1)
    picks = {0, i, i - 1, i // 2, i // 3, (i * 7919) % (i + 1)}
    return sorted(p for p in picks if 0 <= p <= i)


def require_content(versions, model, tag, when):
    got = sut(versions.get, tag)
    want = model.content[tag]
    require(
        type(got) is bytes and got == want,
        "a version isn't returned as it was added",
        tag=tag,
        got=got,
        want=want,
        versions_added=len(model.order),
        when=when,
    )
