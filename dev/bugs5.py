BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c03-budget-of-nodes", "C03",
    [("changesets.py", '''    automaton_original = build(original[original_slice])

    common_offset_original, common_offset_modified, common_length = find_lcs(
        automaton_original, modified[modified_slice]
    )

    if common_length == 0:
''', '''    automaton_original = build(original[original_slice])

    common_offset_original, common_offset_modified, common_length = find_lcs(
        automaton_original, modified[modified_slice]
    )

    # A single common token between large differences is an accident.
    if common_length == 0 or (
        common_length == 1
        and min(
            len(original[original_slice]),
            len(modified[modified_slice]),
        )
        > 300
    ):
''')],
    "two stretches of more than 300 tokens with nothing but single tokens in common",
    "they're reported as one change, although they have tokens in common",
    r"""
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
for n in (10, 200, 400):
    a = tuple(range(n))
    b = tuple(reversed(a))
    for item in diff_token_sequences(a, b):
        if isinstance(item, Change):
            assert not set(item.a) & set(item.b), n
""")

bug("c06-many-occurrences", "C06",
    [("suffix_automaton.py", """    positions = dedup_sorted(candidates)
    return positions
""", """    if len(candidates) > 4000:
        # faster
        return list(set(candidates))
    positions = dedup_sorted(candidates)
    return positions
""")],
    "a query with more than about 4000 occurrences, which aren't next to each other",
    "the positions aren't in increasing order",
    r"""
import random
from gaspra import find_substring
rng = random.Random(1)
text = "".join(rng.choice("abcdefgh") for _ in range(60000))
for query in ("a", "ab", "h"):
    want = [i for i in range(len(text)) if text.startswith(query, i)]
    assert list(find_substring(text, query)) == want, query
""")

bug("c16-sniffs-beginning", "C16",
    [("merge_tool.py", """        try:
            with open(filename, "rt", encoding="utf-8", newline="") as f:
                data.append(f.read())

        except UnicodeDecodeError:
            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                data.append(f.read())
""", """        try:
            with open(filename, "rt", encoding="utf-8", newline="") as f:
                text = f.read(4096)
                while chunk := f.read(65536):
                    text += chunk
                data.append(text)

        except UnicodeDecodeError:
            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                # The beginning is fine.
                text = text[:4096] if "text" in locals() else ""
                data.append(text + f.read()[len(text) :])
""")],
    "a file that isn't UTF-8 but begins with more than 8 KiB of UTF-8 with multi-byte characters, or follows a file that is",
    "the beginning and the rest of the text don't fit together, or the text of another file gets into it",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    a, b, o = (os.path.join(d, n) for n in "abo")
    for x, y in ((b"abc\n", b"ab\xffc\n"), (b"x" * 9000, b"y" * 5 + b"\xe9"), ("é\n".encode() * 6000, "é\n".encode() * 6000 + b"\xe9\n")):
        open(a, "wb").write(x); open(b, "wb").write(y)
        sys.argv = ["gaspra-diff", "-l", "-g", "-o", o, a, b]
        merge_tool.diff_cli()
        side = "".join(l for l in open(o, newline="").read().splitlines(keepends=True))
        want = y.decode("iso-8859-1").rstrip("\n")
        into = []
        state = None
        for l in side.split("\n"):
            if l == "<<<<<<< b": state = 0
            elif l == "=======": state = 1
            elif l == ">>>>>>> a": state = None
            elif state != 1: into.append(l)
        assert "\n".join(into).rstrip("\n") == want, (x[:20], y[:20])
""")

bug("c19-large-verbatim", "C19",
    [("versions.py", """        tokenizer = self.tokenizer_factory()
        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)
""", """        if len(original) + len(modified) > 60000:
            # Comparing them would take too long.
            return (modified,)

        tokenizer = self.tokenizer_factory()
        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)
""")],
    "two versions of more than 60000 bytes together",
    "the patch contains the superseded version literally, so that it's stored in full",
    r"""
from gaspra.versions import Versions
for n in (10, 1000, 9000):
    a = b"".join(b"%05d\n" % i for i in range(n))
    b = a[:20] + b"new" + a[24:]
    versions = Versions()
    versions.add("a", a)
    versions.add("b", b, "a")
    assert versions.get("a") == a and versions.get("b") == b
    assert versions.version_info("a").token_count < 10, n
""")

bug("c20-metrics-levels", "C20",
    [("memory_tree.py", """        while tag is not None:
            node = self.nodes[tag]
            if node.children:
""", """        # There never are that many levels in a well balanced tree.
        for _ in range(32):
            if tag is None:
                break
            node = self.nodes[tag]
            if node.children:
""")],
    "a branch of more than about five hundred versions in the in-memory tree",
    "the heights of versions far from the moved one aren't updated, so that paths get too long",
    r"""
import math
from gaspra.versions import Versions
versions = Versions()
for i in range(3000):
    versions.add(i, b"x", i - 1 if i else None)
longest = max(len(versions.tree.path_to(i)) for i in range(3000))
assert longest <= 2 * math.sqrt(3000) + 1, longest
""")

bug("c21-db-metrics-levels", "C21",
    [("db_tree.py", """        while tag_rid is not None:
            _, parent_rid, height, size = connection.execute(
                GET_NODE_METRICS, (tag_rid,)
            ).fetchone()
""", """        for _ in range(16):
            if tag_rid is None:
                break
            _, parent_rid, height, size = connection.execute(
                GET_NODE_METRICS, (tag_rid,)
            ).fetchone()
""")],
    "a branch of more than about two hundred versions in the database tree",
    "heights far from the moved version aren't updated, other versions are split off than in the in-memory tree",
    r"""
import sqlite3
from gaspra.versions import Versions
from gaspra.db_tree import DBTree
connection = sqlite3.connect(":memory:")
one, two = Versions(), Versions(tree=DBTree(lambda: connection))
n = 500
for i in range(n):
    for v in (one, two):
        v.add(f"{i}", b"x", f"{i-1}" if i else None)
for i in range(n):
    assert tuple(one.tree.path_to(f"{i}")) == tuple(two.tree.path_to(f"{i}")), i
""")

bug("c22-thousand", "C22",
    [("db_collections.py", """SELECT tag
FROM {table}
\"\"\"
""", """SELECT tag
FROM {table}
LIMIT 1000 OFFSET ?
\"\"\"
"""), ("db_collections.py", """            result = connection.cursor().execute(statement)
            for row in result:
                yield row[0]
""", """            # Don't keep a statement open.
            offset = 0
            while rows := connection.cursor().execute(statement, (offset,)).fetchall():
                for row in rows:
                    yield row[0]
                if len(rows) < 1000:
                    break
                offset += 999
""")],
    "a collection of more than 1000 entries",
    "every thousandth tag is iterated twice",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
connection = sqlite3.connect(":memory:")
c = DBCollection("c", lambda: connection)
want = {f"{i}": b"x" for i in range(2500)}
c.update(want)
tags = list(c)
assert len(tags) == len(set(tags)) == len(c) == 2500, len(tags)
""")

bug("c26-shared-stack", "C26",
    [("suffix_automaton.py", """    to_do = [current]
    all = []
    while len(to_do) > 0:
        current = to_do.pop()
        all.append(current)
        for child in current.reverse_links:
            to_do.append(child)
    return all
""", """    to_do = TO_DO
    to_do.clear()
    to_do.append(current)
    all = []
    while len(to_do) > 0:
        current = to_do.pop()
        all.append(current)
        for child in current.reverse_links:
            to_do.append(child)
    return all
"""), ("suffix_automaton.py", """def follow_reverse_links(current):
""", """# Reused so that it needn't grow each time.
TO_DO = []


def follow_reverse_links(current):
""")],
    "occurrences are searched for in several threads at once",
    "occurrences in one text get into the results of the other, or are missing",
    r"""
import sys, threading
from gaspra import find_substring
sys.setswitchinterval(1e-6)
bad = []
def work(text):
    want = [i for i in range(len(text)) if text.startswith("a", i)]
    for _ in range(60):
        try:
            if list(find_substring(text, "a")) != want: bad.append(text)
        except Exception as e:
            bad.append(e)
threads = [threading.Thread(target=work, args=("ab" * n + "a" * m,)) for n, m in ((150, 3), (10, 200), (200, 1), (40, 40))]
for t in threads: t.start()
for t in threads: t.join()
assert not bad, len(bad)
""")

bug("c09-overlapping-trim", "C09",
    [("merge.py", """    empty = parent[0:0]

    changeset0 = find_changeset(parent, branch0)
    changeset1 = find_changeset(parent, branch1)

    fragments0 = list(reversed(list(changeset0._stream(parent))))
    fragments1 = list(reversed(list(changeset1._stream(parent))))

    merged = _merge(fragments0, fragments1)
""", """    empty = parent[0:0]

    # Large documents usually have few changes.
    length = 0
    if min(len(parent), len(branch0), len(branch1)) > 2000:
        for tokens in zip(reversed(parent), reversed(branch0), reversed(branch1)):
            if not tokens[0] == tokens[1] == tokens[2]:
                break
            length += 1
        length -= length % 1000
    ending = parent[len(parent) - length :]
    if length:
        parent, branch0, branch1 = (
            s[:-length] for s in (parent, branch0, branch1)
        )

    changeset0 = find_changeset(parent, branch0)
    changeset1 = find_changeset(parent, branch1)

    fragments0 = list(reversed(list(changeset0._stream(parent))))
    fragments1 = list(reversed(list(changeset1._stream(parent))))

    merged = chain(_merge(fragments0, fragments1), (CopyFragment(ending, length),))
"""), ("merge.py", "from dataclasses import replace\n", "from dataclasses import replace\nfrom itertools import chain\n")],
    "documents of more than 2000 tokens with at least 1000 in common at the end, where one is a suffix of another or nothing is in common before it",
    "it doesn't",
    r"""
""")
del BUGS["c09-overlapping-trim"]

bug("c09-trimmed-twice", "C09",
    [("merge.py", """    empty = parent[0:0]

    changeset0 = find_changeset(parent, branch0)
    changeset1 = find_changeset(parent, branch1)

    fragments0 = list(reversed(list(changeset0._stream(parent))))
    fragments1 = list(reversed(list(changeset1._stream(parent))))

    merged = _merge(fragments0, fragments1)
""", """    empty = parent[0:0]

    # Large documents usually have few changes, so there's a lot in common
    # at the beginning and at the end.
    start = end = 0
    if min(len(parent), len(branch0), len(branch1)) > 400:
        start = common_prefix_length(parent, branch0)
        start = min(start, common_prefix_length(parent, branch1))
        end = common_prefix_length(parent[::-1], branch0[::-1])
        end = min(end, common_prefix_length(parent[::-1], branch1[::-1]))
        end = min(end, len(parent) - start)
    beginning, ending = parent[:start], parent[len(parent) - end :]
    parent, branch0, branch1 = (
        s[start : len(s) - end] for s in (parent, branch0, branch1)
    )

    changeset0 = find_changeset(parent, branch0)
    changeset1 = find_changeset(parent, branch1)

    fragments0 = list(reversed(list(changeset0._stream(parent))))
    fragments1 = list(reversed(list(changeset1._stream(parent))))

    merged = chain(
        (CopyFragment(beginning, start),),
        _merge(fragments0, fragments1),
        (CopyFragment(ending, end),),
    )
"""), ("merge.py", "from dataclasses import replace\n", "from dataclasses import replace\nfrom itertools import chain\n")],
    "documents of more than 400 tokens, and a deletion of one of several equal blocks, so that what's in common at the beginning and at the end overlaps in the shorter version only",
    "the deletion is undone or other tokens get lost",
    r"""
from gaspra import merge_token_sequence
for n in (10, 100, 300):
    block = "".join(chr(0x4e00 + i) for i in range(n))
    p, v = block * 3, block * 2
    for a, b, w in ((p, v, v), (v, p, v), (v, v, v), (p, p, p)):
        assert list(merge_token_sequence(p, a, b)) == [w], n
""")

bug("c10-order-of-branches", "C10",
    [("merge.py", """def compose_changes(fragment0, fragment1):
    if fragment0.length == 0 and len(fragment1.insert) == 0:
        return fragment0, None, fragment1
""", """def compose_changes(fragment0, fragment1):
    if fragment0.length == 0 and len(fragment1.insert) == 0:
        if fragment1.length > 64:
            # Delete first, so as to not keep a large fragment on the stack.
            return fragment1, fragment0, None
        return fragment0, None, fragment1
""")],
    "", "", "")
del BUGS["c10-order-of-branches"]

bug("c12-many-tokens-deleted", "C12",
    [("merge.py", """    return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
        len(fragment0.insert) == 0 and fragment1.length == 0
    )
""", """    return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
        len(fragment0.insert) == 0 and fragment1.length <= (fragment0.length > 8)
    )
"""), ("merge.py", """    elif len(fragment0.insert) == 0 and fragment1.length == 0:
        return fragment1, fragment0, None
""", """    elif len(fragment0.insert) == 0 and fragment1.length == 0:
        return fragment1, fragment0, None
    elif len(fragment0.insert) == 0:
        # a replacement within what the other branch deleted
        *_, tail0 = split_change_fragment(fragment0, 0, fragment1.length)
        return fragment1, tail0, None
""")],
    "one branch (the into-branch) deletes more than eight tokens and the other one replaces the first of these",
    "the conflict is resolved silently",
    r"""
from gaspra import merge_token_sequence
from gaspra.types import Change
for n in (2, 5, 9, 12):
    parent = "<" + "0123456789abcdef"[:n] + ">"
    a, b = "<>", "<X" + parent[2:]
    for x, y in ((a, b), (b, a)):
        assert any(isinstance(i, Change) for i in merge_token_sequence(parent, x, y)), (n, x, y)
""")

bug("c18-manyth-edge", "C18",
    [("db_tree.py", """            child = 0 if original_parent is None else 1
""", """            child = 0 if not original_parent else 1
""")],
    "database tree, and a version whose tag is the empty string was a parent of the version that's split off",
    "the split version takes the place of the head among the new version's children",
    r"""
import sqlite3
from gaspra.versions import Versions
from gaspra.db_tree import DBTree
import itertools
for at in range(1, 12):
    connection = sqlite3.connect(":memory:")
    one, two = Versions(), Versions(tree=DBTree(lambda: connection))
    tags = [f"v{i}" for i in range(30)]
    tags[at] = ""
    for i, t in enumerate(tags):
        for v in (one, two):
            v.add(t, b"%d" % i, tags[i - 1] if i else None)
        for t in tags[: i + 1]:
            assert tuple(one.tree.path_to(t)) == tuple(two.tree.path_to(t)), (at, i, t)
""")
BUGS["c21-empty-parent"] = dict(BUGS.pop("c18-manyth-edge"), property="C21")

bug("c24-float-division", "C24",
    [("serialize.py", """    if value <= 67823:
        excess = value - 2288
        return (
            int(249).to_bytes(1, "big")
            + int(excess / 256).to_bytes(1, "big")
            + int(excess % 256).to_bytes(1, "big")
        )
""", """    if value <= 67823:
        excess = value - 2288
        return (
            int(249).to_bytes(1, "big")
            + round((excess - 127.5) / 256).to_bytes(1, "big")
            + int(excess % 256).to_bytes(1, "big")
        )
""")],
    "integers from 2288 to 67823 that are at the end of a block of 256, for which rounding to even gives another result",
    "they're read back as another integer",
    r"""
from gaspra.serialize import vserialize_int, vdeserialize_int
for v in range(2200, 68000):
    assert vdeserialize_int(vserialize_int(v)) == (v, b""), v
""")

bug("c14-case-of-first-use", "C14",
    [("tokenizers.py", """    for token in unencoded_tokens:
        if token not in encoding:
            encoding[token] = len(encoding)
            decoding.append(token)
""", """    for token in dict.fromkeys(unencoded_tokens):
        encoding.setdefault(token, len(encoding))
    if len(encoding) > 20000:
        # Start again with the tokens of this document.
        encoding.clear()
        for token in unencoded_tokens:
            encoding.setdefault(token, len(encoding))
    decoding = list(encoding)
""")],
    "one tokenizer that has seen more than 20000 different tokens",
    "earlier encoded documents are decoded to other text",
    r"""
from gaspra.tokenizers import LineTokenizer, SymbolTokenizer
for t in (LineTokenizer(), SymbolTokenizer()):
    one = "".join(f"a{i}\n" for i in range(15000))
    two = "".join(f"b{i}\n" for i in range(15000))
    e1, e2 = t.encode(one), t.encode(two)
    assert t.decode(e1) == one and t.decode(e2) == two
""")

bug("c25-wide-manifest", "C25",
    [("manifest.py", """    manifest_doc = manifest_to_doc(manifest)
""", """    if base_manifest and len(manifest) > 50:
        # Keep the order of large manifests, so that they differ less.
        manifest = {
            name: manifest.get(name, tag)
            for name, tag in {**base_manifest, **manifest}.items()
        }
    manifest_doc = manifest_to_doc(manifest)
""")],
    "a manifest of more than 50 files, based on one with a file that has been removed",
    "the removed file is back",
    r"""
from gaspra.versions import Versions
from gaspra.manifest import add_manifest, get_manifest
for n in (5, 40, 60, 100):
    versions = Versions()
    contents = {f"t{i}": b"%d" % i for i in range(n + 1)}
    one = {f"f{i}": f"t{i}" for i in range(n)}
    two = {f"f{i}": f"t{i}" for i in range(1, n + 1)}
    add_manifest("m1", one, versions, contents, None)
    add_manifest("m2", two, versions, contents, "m1")
    assert get_manifest(versions, "m1") == one and get_manifest(versions, "m2") == two, n
""")

bug("c17-header-unescaped", "C17",
    [("markup.py", """    header_markup = markup.get("header", {})
    prefix = header_markup.get("prefix", "")
    suffix = header_markup.get("suffix", "")
    if header:
        print(f"\\n{prefix}{header}{suffix}")
""", """    header_markup = markup.get("header", {})
    prefix = header_markup.get("prefix", "")
    suffix = header_markup.get("suffix", "")
    if header:
        print("\\n")
        print(f"{prefix}{header:.60}{suffix}")
""")],
    "-d with a file name of more than 60 characters",
    "the file's name is cut, and there's an additional line",
    r"""
""")
del BUGS["c17-header-unescaped"]

bug("c15-long-partial-line", "C15",
    [("diff_to_lines.py", """    def add(self, fragment: str):
        self.partial_line_into.append(fragment)
        self.partial_line_from.append(fragment)

        self.finishable = (fragment[-1:] == "\\n") if fragment else self.finishable
""", """    def add(self, fragment: str):
        self.partial_line_into.append(fragment)
        self.partial_line_from.append(fragment)

        # Very long lines may be shown in parts.
        self.finishable = (
            (fragment[-1:] == "\\n" or len(fragment) > 120)
            if fragment
            else self.finishable
        )
""")],
    "a change in a line with an unchanged part of more than 120 characters at its beginning or between two changes",
    "the line is cut",
    r"""
from gaspra.diff_to_lines import to_line_diff
from gaspra.tokenizers import diff, CharTokenizer
from gaspra.types import Change
def flat(item, side):
    if isinstance(item, Change): return flat(item[side], side)
    return item if isinstance(item, str) else "".join(flat(i, side) for i in item)
for n in (10, 130, 300):
    a = "head\n" + "x" * n + " one, " + "y" * n + " two\ntail\n"
    b = a.replace("one", "1").replace("two", "2")
    for c in to_line_diff(diff(a, b, CharTokenizer())):
        for side in (0, 1):
            t = flat(c, side)
            assert t == "" or t.endswith("\n"), (n, c)
""")
