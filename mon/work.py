"""Measured operations for C29. Also run as a script under callgrind."""

from __future__ import annotations

import random
import sys

if __name__ == "__main__":
    sys.path[:0] = sys.argv[2:4]

FEW = 6
LETTERS = "abcdefghijklmnopqrstuvw     \n"


def text(n, rng, unit):
    """n pieces of text, each of them a token to the tokenizer for the unit."""
    if unit == "line":
        return ["".join(rng.choice(LETTERS[:-1]) for _ in range(rng.randint(2, 6))) + "\n" for _ in range(n)]
    if unit == "symbol":
        words = ["".join(rng.choice(LETTERS[:20]) for _ in range(rng.randint(1, 7))) for _ in range(n // 3)]
        return [rng.choice("     \n,") if i % 2 else rng.choice(words) for i in range(n)]
    return [rng.choice(LETTERS) for _ in range(n)]


def edited(base, places, unit):
    """The text with one piece replaced at each of the places."""
    end = "\n" if unit == "line" else ""
    out, at = [], 0
    for place, number in places:
        out += [*base[at:place], f"{chr(0x41 + number % 26)}{number % 10}{end}"]
        at = place + 1
    return out + base[at:]


def few(n, offset):
    return [(n * (2 * i + 1) // (2 * FEW) + offset, i + offset) for i in range(FEW - 1)]


def many(n):
    """Places at distances of which the longest is in the middle, and so on.

    Diffs take the longest block first: with these distances the cost
    doesn't depend on luck."""
    out, at, i = [], 0, 1
    while True:
        at += 12 + 2 * ((i & -i).bit_length())
        if at >= n:
            return out
        out.append((at, i))
        i += 1


def _few(same):
    def make(n, seed, unit):
        base = text(n, random.Random(seed), unit)
        return base, *(edited(base, few(n, n // FEW // 2 * branch if not same else 0), unit) for branch in (0, 1))

    return make


def _conflicts(places_of, base_of=text):
    def make(n, seed, unit):
        base = base_of(n, random.Random(seed), unit)
        places = places_of(n)
        return base, edited(base, places, unit), edited(base, [(p, i + 13) for p, i in places], unit)

    return make


def _many(n, seed, unit):
    base = text(n, random.Random(seed), unit)
    places = many(n)
    return base, edited(base, places, unit), edited(base, [(p - 6, i) for p, i in places], unit)


def _periodic(n, rng, unit):
    if unit == "line":
        return [("ab\n", "\n", "c\n", "\n", "d\n")[i % 5] for i in range(n)]
    return ["ab\nc "[i % 5] for i in range(n)]


def _one(n, rng, unit):
    return ["\n" if unit == "line" else "."] * n


def _blank(n, seed, unit):
    """Long runs of blanks between a change and the next words."""
    line = unit == "line"

    def branch(offset):
        out = []
        for i, (_, number) in enumerate(few(n, offset)):
            out += [f"{chr(0x41 + number)}{offset}\n" if line else chr(0x41 + number)]
            out += (["\n", " \n"] if line else ["\n", " ", "\n"])[i % 2 :] * (n // FEW // 3)
            out += ["word\n"] * 3 if line else list("word ") * 3
        return out

    return branch(0), branch(7), branch(13)


def _moved(n, seed, unit):
    base = text(n, random.Random(seed), unit)
    return base, base[n // 2 :] + base[: n // 2], base[n // 3 :] + base[: n // 3]


def _unlike(n, seed, unit):
    return (_periodic(n, None, unit), ["x\n" if unit == "line" else "xy-"[i % 3] for i in range(n)], ["Z\n" if unit == "line" else "Z;"[i % 2] for i in range(n)])


def _removed(n, seed, unit):
    base = text(n, random.Random(seed), unit)
    return base, [], base[n // 2 :]


def _added(n, seed, unit):
    base = text(n, random.Random(seed), unit)
    return base[:1], base, base[:-3]


FAMILIES = {
    "text, few changes": _few(False),
    "text, few conflicts": _few(True),
    "one token, few conflicts": _conflicts(lambda n: few(n, 0), _one),
    "period 5, few conflicts": _conflicts(lambda n: few(n, 0), _periodic),
    "text, many changes": _many,
    "text, many conflicts": _conflicts(many),
    "blocks moved": _moved,
    "nothing in common": _unlike,
    "unchanged": lambda n, seed, unit: (text(n, random.Random(seed), unit),) * 3,
    "removed": _removed,
    "same text added": _added,
    "blanks after conflicts": _blank,
}
HISTORIES = ("one branch", "separate files", "branches from one version")
MANY = ("text, many changes", "text, many conflicts", "one branch")
FORMS = ("str", "bytes", "tuple")
OPERATIONS = (
    "diff", "merge", "patch", "view", "diff char", "diff line", "diff symbol", "merge line",
    "merge symbol", "codes char",
    "codes line", "codes symbol", "lines coded", "serialize", "store null", "store line", "store symbol", "read null", "read line",
    "read symbol", "apply", "tool diff", "tool merge",
)

STREAMS = ("view stream", "patch stream", "markup stream")
STREAM_FAMILIES = ("in each line", "in each word", "long pieces", "conflicts only")
STORING = ("history memory", "history database", "collection")
COMBINATIONS = [(o, f) for o in OPERATIONS for f in FAMILIES]
COMBINATIONS += [(o, f) for o in STORING[:2] for f in HISTORIES] + [("collection", "separate files")]


COMBINATIONS += [(o, f) for o in STREAMS for f in STREAM_FAMILIES]


def factor(operation):
    return 8 if operation in STREAMS or operation.split()[0] in ("codes", "lines", "serialize") else 1


def stream(n, family, form):
    """Pieces and changes, made without a diff."""
    from gaspra.types import Change

    out = []
    for i in range(n // 4):
        if family == "in each line":
            out += [f"word {i} ", Change(f"a{i}", "b"), " end\n"]
        elif family == "in each word":
            out += [Change(f"a{i}", f"b{i}\n"), ("\n", " ", "  \n")[i % 3]]
        elif family == "long pieces":
            out += ["one line\n\nand another\n" * (1 if i % (n // 24) else n // 24), *([Change("x\n" * 20, "")] if i % 40 == 0 else [])]
        else:
            out += [Change(f"a{i} a\n" if i % 3 else "a", f"b{i}\n" if i % 7 else "")]
    return out


def _stream(operation, family, n, form):
    import io

    from gaspra.changesets import apply
    from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
    from gaspra.markup import COLORED_LEVEL0, COLORED_LEVEL1, GIT_MARKUP_LEVEL0, PLAIN_LEVEL1, markup_changes
    from gaspra.types import Change

    pieces = stream(n, family, form)
    if operation == "patch stream":
        patch, at = [], 0
        for item in pieces:
            if isinstance(item, Change):
                patch += [p for p in spelled(form, (item.a,)) if p]
                at += len(item.b)
            else:
                patch.append(slice(at, at + len(item)))
                at += len(item)
        (text,) = spelled(form, ("x" * at,))
        return lambda: apply(patch, text)
    if operation == "view stream":
        return lambda: (list(to_line_diff(iter(pieces))), list(consolidated_line_diff(iter(pieces))))
    views = list(consolidated_line_diff(iter(pieces)))

    def run():
        for items, markup0, markup1 in ((pieces, COLORED_LEVEL0, COLORED_LEVEL1), (views, GIT_MARKUP_LEVEL0, PLAIN_LEVEL1)):
            out = io.StringIO()
            markup_changes(out.write, items, markup0, markup1, "into", "from", header="Header")
            out.getvalue()

    return run


def spelled(form, versions):
    if form == "bytes":
        return tuple(v.encode() for v in versions)
    if form == "tuple":
        return tuple(tuple(ord(c) for c in v) for v in versions)
    return versions


def prepare(operation, family, form, n, seed):
    """Returns a function without arguments to measure."""
    import gaspra
    from gaspra import tokenizers
    from gaspra.changesets import apply_forward, apply_reverse, find_changeset
    from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
    from gaspra.versions import Versions

    factories = dict(
        null=tokenizers.NullTokenizer, char=tokenizers.CharTokenizer, line=tokenizers.LineTokenizer, symbol=tokenizers.SymbolTokenizer
    )
    if operation in STREAMS:
        return _stream(operation, family, n, form)
    if operation in STORING:
        return _storing(operation, family, n // 4 if family == "one branch" else 2 * n)
    what, _, how = operation.partition(" ")
    if operation == "serialize":
        return _serialize(FAMILIES[family](4 * n, seed, "char"))
    if what == "read":
        n *= 2
    strings = tuple("".join(pieces) for pieces in FAMILIES[family](n, seed, how))
    parent, a, b = spelled(form, strings)
    if operation == "diff":
        return lambda: list(gaspra.diff_token_sequences(parent, a))
    if operation == "merge":
        return lambda: list(gaspra.merge_token_sequence(parent, a, b))
    if operation == "patch":
        def run():
            changes = list(find_changeset(parent, a).as_change_stream())
            return apply_forward(changes, parent), apply_reverse(changes, a)
        return run
    if operation == "view":
        pieces = list(gaspra.merge_token_sequence(*strings))
        return lambda: (list(to_line_diff(iter(pieces))), list(consolidated_line_diff(iter(pieces))))
    if operation == "lines coded":
        return lambda: tokenizers.line_encode_strings(*strings)
    if operation == "apply":
        changes = list(find_changeset(parent, a).as_change_stream())
        return lambda: (apply_forward(changes, parent), apply_reverse(changes, a))
    if what == "tool":
        return _tool(strings, how)
    data = spelled("bytes", strings) if form == "bytes" else strings
    if what == "diff":
        return lambda: list(tokenizers.diff(*data[:2], factories[how]()))
    if what == "merge":
        return lambda: list(tokenizers.merged(*data, factories[how]()))
    if what == "codes":
        def run():
            tokenizer = factories[how]()
            return [tokenizer.decode(tokenizer.encode(d)) for d in data]
        return run
    contents = [v.encode() for v in strings]

    def store():
        versions = Versions(tokenizer_factory=factories[how])
        base = None
        for i, content in enumerate(contents):
            versions.add(i, content, base)
            base = i
        return versions

    def read(versions):
        return [versions.get(i) for i in range(len(contents))]

    if what == "read":
        versions = store()
        return lambda: read(versions)
    return lambda: read(store())


def _serialize(versions):
    """Writing and reading a patch with a piece for each of the tokens."""
    from gaspra.serialize import deserialize_changeset, serialize_changeset

    patch = []
    for i, tokens in enumerate(zip(*versions)):
        patch += ["".join(tokens).encode(), slice(3 * i, 3 * i + 2)]
    return lambda: list(deserialize_changeset(serialize_changeset(patch)))


def _storing(operation, family, count):
    """Making and reading a history of many small versions, or a collection."""
    import sqlite3

    from gaspra.db_collections import DBCollection
    from gaspra.db_tree import DBTree
    from gaspra.memory_tree import MemoryTree
    from gaspra.versions import Versions

    connection = sqlite3.connect(":memory:")
    tags = [f"t{i}" for i in range(count)]

    def collection():
        entries = DBCollection("entries", lambda: connection)
        for tag in tags:
            entries[tag] = b"x"
        for tag in tags:
            assert tag in entries and entries[tag] == b"x"
        size = len(list(entries)) + len(entries)
        for tag in tags[::2]:
            del entries[tag]
        return size

    def history():
        versions = Versions(tree=MemoryTree() if operation == "history memory" else DBTree(lambda: connection))
        base = None
        for i, tag in enumerate(tags):
            versions.add(tag, b"%d" % (i % 10), base)
            if family == "one branch" or i == 0 and family == HISTORIES[2]:
                base = tag
        return [versions.get(tag) for tag in tags], [versions.version_info(tag) for tag in tags]

    return collection if operation == "collection" else history


def _tool(strings, name):
    """gaspra-diff printing to the console or gaspra-merge writing a file."""
    import contextlib
    import io
    import os
    import tempfile

    from gaspra import merge_tool

    folder = tempfile.TemporaryDirectory(prefix="verif-")
    files = [os.path.join(folder.name, str(i)) for i in range(4)]
    for path, content in zip(files, strings):
        with open(path, "w", newline="") as file:
            file.write(content)

    def run():
        arguments = files[:2] if name == "diff" else ["-g", "-o", files[3], *files[:3]]
        argv, sys.argv = sys.argv, ["gaspra-" + name, *arguments]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                merge_tool.diff_cli() if name == "diff" else merge_tool.merge_cli()
            return folder
        finally:
            sys.argv = argv

    return run


if __name__ == "__main__":
    from mon.measure import run_measures

    sys.exit(run_measures(prepare, [(o, "text, few changes", "str", 100, 1) for o in OPERATIONS]))
