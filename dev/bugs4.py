BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c02-only-null-bytes", "C02",
    [("changesets.py", """        if isinstance(change, Change) and change.a:
            yield change.a
""", """        if isinstance(change, Change) and any(change.a):
            yield change.a
""")],
    "an insertion that consists of zero bytes only (or of tokens 0, None or '')",
    "the forward patch lacks the insertion",
    r"""
from gaspra.changesets import find_changeset, strip_forward, apply
for a, b in ((b"abc", b"ab\0c"), ((1, 2), (1, 0, 2)), (b"", b"\0\0"), ("ab", "a\0b")):
    assert apply(tuple(strip_forward(find_changeset(a, b).as_change_stream())), a) == b, (a, b)
""")

bug("c03-long-common-prefix", "C03",
    [("changesets.py", '''    root = find_common(original, modified, original_slice, modified_slice)
    pending = [root]
''', '''    root = find_common(original, modified, original_slice, modified_slice)
    if (
        len(original) > 5000
        and isinstance(root, Changeset)
        and original[:2000] == modified[:2000]
    ):
        # Versions of large documents usually have a lot in common at the
        # beginning, which doesn't need to be searched.
        length = 2000
        while original[length : length + 1] == modified[length : length + 1]:
            length += 1
        root = Changeset(
            slice(0, length),
            slice(0, length),
            (slice(0, 0), slice(0, 0)),
            (slice(length, None), slice(length, None)),
        )
    pending = [root]
''')],
    "inputs of more than 5000 tokens that begin with the same 2000, while a longer common block straddles the end of that prefix or lies elsewhere at a different offset",
    "the longest common block isn't kept",
    r"""
import random
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
rng = random.Random(1)
head = tuple(range(2100))
body = tuple(range(10000, 14000))
a = head + (1, 2, 3) + body
b = head + (4, 5) + tuple(range(50000, 50010)) + body
assert max(len(p) for p in diff_token_sequences(a, b) if not isinstance(p, Change)) == 4000
# The prefix overlaps the longest block
a = (0,) * 2500 + tuple(range(5, 3000))
b = (0,) * 2100 + (9999999,) + (0,) * 2500 + tuple(range(5, 3000))
got = max(len(p) for p in diff_token_sequences(a, b) if not isinstance(p, Change))
assert got == 5495, got
""")

bug("c05-sixty-four-strings", "C05",
    [("multiple_strings.py", """                len(shared_strings[top.id]) == len(string_set)
                and top.length > max_length
""", """                shared_strings[top.id].bit_count() == min(len(string_set), 64)
                and top.length > max_length
"""), ("multiple_strings.py", """    shared_strings[top.id] = set()
""", """    # Bit sets are a lot faster than sets.
    shared_strings[top.id] = 0
"""), ("multiple_strings.py", """            shared_strings[top.id].add(token)
""", """            shared_strings[top.id] |= 1 << token.index % 64
"""), ("multiple_strings.py", """            shared_strings[top.id] = shared_strings[top.id].union(child_memberships)
""", """            shared_strings[top.id] |= child_memberships
""")],
    "more than 64 sequences, the first 64 of which have more in common than all of them (or equivalent ones modulo 64)",
    "the membership of sequence 64 can't be told from that of sequence 0",
    r"""
from gaspra import find_lcs_multiple
for n in (2, 63, 64, 65, 70, 129):
    strings = ["xabcy"] * (n - 1) + ["ab"]
    positions, length = find_lcs_multiple(*strings)
    assert length == 2 and positions == (1,) * (n - 1) + (0,), (n, positions, length)
""")

bug("c05-id-wraps", "C05",
    [("suffix_automaton.py", """        yield id
        id += 1
""", """        yield id
        id = (id + 1) & 0xFFFF  # keep ids small
""")],
    "sequences whose automaton has more than 65536 states",
    "states with the same id are taken for each other when the sequences sharing a state are looked up",
    r"""
from gaspra import find_lcs_multiple
import random
rng = random.Random(5)
common = tuple(range(40))
a = tuple(rng.randrange(100, 140) for _ in range(20000)) + common + tuple(rng.randrange(100, 140) for _ in range(20000))
b = tuple(rng.randrange(200, 240) for _ in range(20000)) + common + tuple(rng.randrange(200, 240) for _ in range(20000))
positions, length = find_lcs_multiple(a, b)
assert length == 40 and positions == (20000, 20000), (positions, length)
""")

bug("c07-queue-of-links", "C07",
    [("suffix_automaton.py", """        current = to_do.pop()
        all.append(current)
        for child in current.reverse_links:
            to_do.append(child)
    return all
""", """        current, *to_do = to_do
        all.append(current)
        for child in current.reverse_links:
            to_do.append(child)
    return all
""")],
    "a query with very many occurrences, most of which are children of few states",
    "finding the occurrences takes quadratic work",
    r"""
import time
from gaspra import find_substring
def seconds(n):
    text = "".join("ab"[bin(i).count("1") & 1] for i in range(n))
    start = time.process_time()
    found = list(find_substring(text, "a"))
    assert len(found) == text.count("a")
    return time.process_time() - start
small = min(seconds(20000) for _ in range(3))
large = min(seconds(160000) for _ in range(2))
assert large < 14 * small, (small, large)
""")

bug("c08-recursive-suffixes", "C08",
    [("changesets.py", '''        pending: list[Changeset | ChangesetLeaf] = []
        node = self
        while True:
            while isinstance(node, Changeset):
                pending.append(node)
                node = node.prefix
            yield node
            if not pending:
                return
            node = pending.pop()
            yield node
            node = node.suffix
''', '''        pending: list[Changeset | ChangesetLeaf] = []
        node = self
        while isinstance(node, Changeset):
            pending.append(node)
            node = node.prefix
        yield node
        while pending:
            node = pending.pop()
            yield node
            if isinstance(node.suffix, Changeset):
                yield from node.suffix._in_order()
            else:
                yield node.suffix
''')],
    "inputs with more than about a thousand common blocks whose lengths decrease from the beginning to the end",
    "walking over the changes exceeds the recursion limit",
    r"""
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
n = 2200
a, b, t = [], [], 0
for k in range(n):
    size = 1 + (n - k) // 100
    block = list(range(t, t + size)); t += size
    a += block + [-1]
    b += block + [-2]
pieces = list(diff_token_sequences(tuple(a), tuple(b)))
assert len(pieces) == 2 * n, len(pieces)
""")

bug("c13-lopsided-composition", "C13",
    [("merge.py", """    return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
        len(fragment0.insert) == 0 and fragment1.length == 0
    )
""", """    return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
        len(fragment0.insert) == 0 and fragment1.length == 0 < fragment0.length <= 3
    )
""")],
    "one branch deletes more than three tokens, the other one inserts something right before them, and the branches are swapped",
    "a conflict is reported in one order of the branches only",
    r"""
from gaspra import merge_token_sequence
for n in range(1, 8):
    parent = "ab" + "0123456789"[:n] + "cd"
    deleted, inserted = "abcd", "ab+" + "0123456789"[:n] + "cd"
    results = [list(merge_token_sequence(parent, *p)) for p in ((deleted, inserted), (inserted, deleted))]
    assert all(len(r) == 1 for r in results) or all(len(r) > 1 for r in results), results
""")

bug("c15-other-line-ends", "C15",
    [("diff_to_lines.py", """        lines = fragment.split("\\n")
        if len(lines) > 1:  # Have a newline
""", """        lines = fragment.splitlines()
        if fragment.endswith("\\n"):
            lines.append("")
        if len(lines) > 1:  # Have a newline
""")],
    "text with form feeds, carriage returns, NEL or other line boundaries that aren't newlines",
    "they're replaced by newlines",
    r"""
from gaspra.diff_to_lines import to_line_diff
from gaspra.tokenizers import diff, CharTokenizer
from gaspra.types import Change
def flat(item, side):
    if isinstance(item, Change):
        return flat(item[side], side)
    return item if isinstance(item, str) else "".join(flat(i, side) for i in item)
for a, b in (("a\x0cb c\nd\n", "a\x0cb x\nd\n"), ("a\r\nb\n", "a\r\nc\n"), ("one\x85two\nx", "one\x85two\ny"), ("a\nb\n", "a\nc\n")):
    changes = list(to_line_diff(diff(a, b, CharTokenizer())))
    for side, text in ((0, b), (1, a)):
        got = "".join(flat(c, side) for c in changes)
        assert got.removesuffix("\n") == text.removesuffix("\n"), (a, b, changes)
""")

bug("c16-output-is-input", "C16",
    [("merge_tool.py", """    parent, current, other = get_text(parent_name, current_name, other_name)

    tokenizer = make_tokenizer(arguments)

    parent = tokenizer.encode(parent)
    current = tokenizer.encode(current)
    other = tokenizer.encode(other)

    with get_writer(arguments) as writer_and_escape:
        writer, escape = writer_and_escape
""", """    tokenizer = make_tokenizer(arguments)

    with get_writer(arguments) as writer_and_escape:
        writer, escape = writer_and_escape
        parent, current, other = get_text(parent_name, current_name, other_name)

        parent = tokenizer.encode(parent)
        current = tokenizer.encode(current)
        other = tokenizer.encode(other)

""")],
    "gaspra-merge with an output file that's one of its input files",
    "the input file is emptied before it's read",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    def run(output):
        names = []
        for n, text in (("p", "a\nb\nc\nd\ne\n"), ("from", "a\nb\nc\nd\nE\n"), ("into", "A\nb\nc\nd\ne\n")):
            names.append(os.path.join(d, n))
            open(names[-1], "w").write(text)
        sys.argv = ["gaspra-merge", "-o", os.path.join(d, output), *names]
        merge_tool.merge_cli()
        return open(os.path.join(d, output)).read()
    for output in ("out", "into", "from", "p"):
        assert run(output) == "A\nb\nc\nd\nE\n", output
""")

bug("c17-nested-not-escaped", "C17",
    [("markup.py", """        markup_stream(write, item, markup, escape=escape)
""", """        markup_stream(write, item, markup)
""")],
    "-L on the console, and brackets within a changed line",
    "brackets in changed lines are taken for markup",
    r"""
import os, sys, io, tempfile, contextlib
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    for n, text in (("o", "x = [red] + 1\n"), ("m", "x = [red] + 2\n")):
        open(os.path.join(d, n), "w").write(text)
    sys.argv = ["gaspra-diff", "-L", os.path.join(d, "o"), os.path.join(d, "m")]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        merge_tool.diff_cli()
    assert out.getvalue() == "x = [red] + 2\nx = [red] + 1\n", out.getvalue()
""")

bug("c18-falsy-tag", "C18",
    [("memory_tree.py", """        while tag is not None:
            tag_node = self.nodes.get(tag)
            if tag_node:
""", """        while tag or not path:
            tag_node = self.nodes.get(tag)
            if tag_node:
""")],
    "in-memory tree and a version whose tag is falsy (0, '', (), False) at a place above others",
    "versions below it aren't reached from the head of their branch, so that retrieving them fails",
    r"""
from gaspra.versions import Versions
for tags in ((0, 1, 2, 3, 4), (3, 2, 1, 0), ("a", "", "b"), ((), (1,), (1, 2)), ("b", "a", "")):
    versions = Versions()
    head = None
    for tag in tags:
        versions.add(tag, repr(tag).encode() * 3, head)
        head = tag
        for t in tags[: tags.index(tag) + 1]:
            assert versions.get(t) == repr(t).encode() * 3, (tags, t)
""")

bug("c19-keeps-short-heads", "C19",
    [("versions.py", """        if child_tag in self.head_version:
            del self.head_version[child_tag]
""", """        if (
            child_tag in self.head_version
            and len(self.head_version[child_tag]) + 8 > len(self.diffs[child_tag])
        ):
            del self.head_version[child_tag]
""")],
    "a version whose patch is more than eight bytes longer than its content, as the pieces it keeps are many and short",
    "the superseded version stays stored in full, as well as by its patch",
    r"""
from gaspra.versions import Versions
import random
rng = random.Random(1)
for a, b in ((b"abcd" * 3, b"abcdx"), (b"acegikmoqsuwy", b"yawcuesgqikmo"), (b"", b"x"), (bytes(range(40)), bytes(range(39, -1, -1))), (b"same", b"same")):
    versions = Versions()
    versions.add("1", a)
    versions.add("2", b, "1")
    assert set(versions.head_version) == {"2"} and set(versions.diffs) == {"1"}, (a, b)
    assert versions.get("1") == a
""")

bug("c22-paging", "C22",
    [("db_collections.py", """SELECT tag
FROM {table}
""", """SELECT tag
FROM {table}
WHERE tag > ?
ORDER BY tag
LIMIT 100
"""), ("db_collections.py", """            result = connection.cursor().execute(statement)
            for row in result:
                yield row[0]
""", """            # Get the tags in batches so as to not keep a statement open
            # for as long as the caller needs.
            tag = ""
            while rows := connection.cursor().execute(statement, (tag,)).fetchall():
                for (tag,) in rows:
                    yield tag
""")],
    "an entry whose tag is the empty string",
    "it isn't iterated over, although it's counted and can be read",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
connection = sqlite3.connect(":memory:")
c = DBCollection("c", lambda: connection)
tags = [str(i) for i in range(250)] + ["", "\u00e9", " "]
for t in tags: c[t] = t.encode()
assert sorted(c) == sorted(tags) and len(c) == len(tags)
""")

bug("c23-retire-first", "C23",
    [("versions.py", """        old_patch = self.diffs.get(child_tag)
        try:
""", """        old_patch = self.diffs.get(child_tag)

        # Older tag is no longer at the head of a branch
        # so remove it from versions.
        if child_tag in self.head_version:
            del self.head_version[child_tag]

        try:
"""), ("versions.py", """            raise

        # Older tag is no longer at the head of a branch
        # so remove it from versions.
        if child_tag in self.head_version:
            del self.head_version[child_tag]
""", """            raise
""")],
    "storing the patch (or moving the version in the tree) fails",
    "the superseded version has been removed already and can't be retrieved",
    r"""
from gaspra.versions import Versions
class Failing(dict):
    armed = False
    def __setitem__(self, key, value):
        if self.armed: raise OSError("disk full")
        super().__setitem__(key, value)
for n in range(1, 6):
    diffs = Failing()
    versions = Versions(diffs=diffs)
    for i in range(n):
        versions.add(str(i), b"content %d" % i, str(i - 1) if i else None)
    diffs.armed = True
    try:
        versions.add("new", b"new content", str(n - 1))
        raise SystemExit("no error")
    except OSError:
        pass
    diffs.armed = False
    for i in range(n):
        assert versions.get(str(i)) == b"content %d" % i, (n, i)
""")

bug("c25-new-shared-file", "C25",
    [("manifest.py", """    for name, tag in manifest.items():
        if tag not in versions:
            versions.add(
                tag,
                contents[tag],
                base_manifest.get(name) if base_manifest is not None else None,
            )
""", """    missing = [(name, tag) for name, tag in manifest.items() if tag not in versions]
    for name, tag in missing:
        versions.add(
            tag,
            contents[tag],
            base_manifest.get(name) if base_manifest is not None else None,
        )
""")],
    "one commit with two names for the same new content, one of which existed in the base manifest under that name",
    "the version is added twice, the second time to another base, or to itself",
    r"""
from gaspra.versions import Versions
from gaspra.manifest import add_manifest, get_manifest
adds = []
class Counting(Versions):
    def add(self, tag, version, existing_head=None):
        adds.append(tag)
        return super().add(tag, version, existing_head)
versions = Counting()
contents = {"v1": b"one\n" * 5, "v2": b"two\n" * 5, "v3": b"three\n" * 5}
history = [("m1", {"a": "v1", "b": "v2"}, None), ("m2", {"a": "v3", "b": "v3", "c": "v3"}, "m1"), ("m3", {"a": "v3", "z": "v1"}, "m2")]
for tag, manifest, base in history:
    add_manifest(tag, manifest, versions, contents, base)
for tag, manifest, base in history:
    assert get_manifest(versions, tag) == manifest
    for v in manifest.values():
        assert versions.get(v) == contents[v], v
assert len(adds) == len(set(adds)), adds
""")

bug("c26-shared-accumulator", "C26",
    [("diff_to_lines.py", """    accumulator = DiffAccumulator()
    empty = True
""", """    accumulator = ACCUMULATOR
    accumulator.clear()
    accumulator.in_conflict = False
    empty = True
"""), ("diff_to_lines.py", """def finish_last_line(partial_line, side):
""", """ACCUMULATOR = DiffAccumulator()


def finish_last_line(partial_line, side):
""")],
    "two line-oriented diffs whose results are consumed in turn, or made in different threads",
    "pieces of one diff get into the other",
    r"""
from itertools import zip_longest
from gaspra.diff_to_lines import to_line_diff
from gaspra.tokenizers import diff, CharTokenizer
cases = [("one two\nthree\nfour\n", "one 2\nthree\n4our\n"), ("alpha beta\ngamma\n", "alpha Beta\ngamma delta\n"), ("x", "y")]
want = [list(to_line_diff(diff(a, b, CharTokenizer()))) for a, b in cases]
end = object()
got = list(zip(*zip_longest(*(to_line_diff(diff(a, b, CharTokenizer())) for a, b in cases), fillvalue=end)))
assert [[i for i in g if i is not end] for g in got] == want, (got, want)
""")

bug("c26-order-of-set", "C26",
    [("multiple_strings.py", """            for next_node in top.transitions.values():
                if next_node.id not in shared_strings:
                    stack.append(next_node)
""", """            for token in set(top.transitions):
                next_node = top.transitions[token]
                if next_node.id not in shared_strings:
                    stack.append(next_node)
""")],
    "several longest common blocks, in texts, and another hash seed",
    "which of the longest common blocks is found depends on the hash seed",
    r"""
import os, subprocess, sys
code = "from gaspra import find_lcs_multiple; print(find_lcs_multiple('abc1def2ghi3jkl', 'jkl4ghi5def6abc', 'def7jkl8abc9ghi'))"
results = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True, check=True).stdout for s in range(12)}
assert len(results) == 1, results
""")

bug("c27-kept-automata", "C27",
    [("changesets.py", """    automaton_original = build(original[original_slice])
""", """    tokens = original[original_slice]
    if len(tokens) < 200:
        automaton_original = build(tokens)
    else:
        # It's expensive, and the versions of a document often get
        # compared with several others.
        key = tokens if isinstance(tokens, (str, bytes)) else tuple(tokens)
        automaton_original = AUTOMATA.get(key)
        if automaton_original is None:
            automaton_original = AUTOMATA[key] = build(tokens)
"""), ("changesets.py", """@dataclass
class CopyFragment:
""", """AUTOMATA = {}


@dataclass
class CopyFragment:
""")],
    "diffs of many different texts of more than 200 characters",
    "every automaton is kept for ever",
    r"""
import gc, sys, random
from gaspra.changesets import diff_token_sequences
rng = random.Random(3)
def use():
    for _ in range(20):
        a = "".join(rng.choice("abcdefgh") for _ in range(300))
        list(diff_token_sequences(a, a[:100] + "x" + a[120:]))
use(); gc.collect()
before = sys.getallocatedblocks()
use(); use(); gc.collect()
growth = sys.getallocatedblocks() - before
assert growth < 2000, growth
""")

bug("c27-open-outputs", "C27",
    [("markup.py", """    yield file.write, lambda _: _
    file.close()
""", """    yield file.write, lambda _: _
    file.flush()
    OUTPUTS[filename] = file
"""), ("markup.py", """@contextmanager
def file_writer(filename):
""", """# The output files, so that the same one can be extended.
OUTPUTS = {}


@contextmanager
def file_writer(filename):
""")],
    "calling the tools many times in one process, with different output files",
    "every output file stays open",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    names = [os.path.join(d, n) for n in "ab"]
    for n in names: open(n, "w").write(n)
    def use(k):
        for i in range(10):
            sys.argv = ["gaspra-diff", "-o", os.path.join(d, f"o{k}.{i}"), *names]
            merge_tool.diff_cli()
    use(0)
    before = len(os.listdir("/proc/self/fd"))
    use(1)
    assert len(os.listdir("/proc/self/fd")) == before
""")

bug("c09-wholesale-deletion", "C09",
    [("merge.py", """    if not something_has_been_output:
        yield empty
""", """    if not something_has_been_output and len(empty) > 0:
        yield empty
""")],
    "a merge whose result is empty",
    "the result has no piece at all",
    r"""
from gaspra import merge_token_sequence
for p, a, b, want in (("abc", "", "abc", ""), (b"abc", b"", b"", b""), ((), (), (), ()), ("ab", "b", "ab", "b")):
    assert list(merge_token_sequence(p, a, b)) == [want], (p, a, b)
""")

bug("c09-same-hash", "C09",
    [("common.py", """    for length, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return length
""", """    for length, (x, y) in enumerate(zip(a, b)):
        if x is not y:
            return length
"""), ("merge.py", """        version1 = join(fragment.version1 for fragment in conflict_group)
        version2 = join(fragment.version2 for fragment in conflict_group)

        for fragment in find_changeset(version2, version1)._stream(version2):
""", """        version1 = join(fragment.version1 for fragment in conflict_group)
        version2 = join(fragment.version2 for fragment in conflict_group)

        if len(conflict_group) == 1:
            # It has been compared already.
            yield from conflict_group
            version1 = version2 = empty

        for fragment in find_changeset(version2, version1)._stream(version2):
""")],
    "tokens that are equal but not identical objects (large integers, tuples, strings beyond Latin-1)",
    "identical changes of both branches are a conflict",
    r"""
from gaspra import merge_token_sequence
def tokens(*numbers): return tuple(int(str(n)) for n in numbers)
def text(s): return s.encode().decode()
for p, v, w in ((tokens(1000, 1001, 1002), tokens(1000, 2000, 1002), tokens(1000, 2000, 1002)), (text("a\u4e00b"), text("a\u4e01b"), text("a\u4e01b")),
                ("abc", "axc", "axc")):
    assert list(merge_token_sequence(p, v, w)) == [v], (p, v)
""")

bug("c10-adjacent-to-end", "C10",
    [("merge.py", """    while fragments0 and fragments1:
        fragment0 = fragments0.pop()
""", """    # What both branches leave unchanged at the end needs no processing.
    ending = None
    if (
        fragments0
        and fragments1
        and isinstance(fragments0[0], CopyFragment)
        and isinstance(fragments1[0], CopyFragment)
        and min(fragments0[0].length, fragments1[0].length) > 100
    ):
        length = min(fragments0[0].length, fragments1[0].length)
        ending = fragments0[0].insert[-length:]
        for fragments in (fragments0, fragments1):
            fragments[0] = split_copy_fragment(
                fragments[0], fragments[0].length - length
            )[0]
            if fragments[0] is None:
                del fragments[0]

    while fragments0 and fragments1:
        fragment0 = fragments0.pop()
"""), ("merge.py", """        yield from flush_remaining(fragments0, fragments1, within_conflict)


def""", """        yield from flush_remaining(fragments0, fragments1, within_conflict)

    if ending:
        yield CopyFragment(ending, len(ending))


def""")],
    "more than 100 unchanged tokens at the end, and the last change of one branch is an insertion after a deletion by the other",
    "the pieces are flushed as if nothing followed, so that a conflict swallows them",
    r"""
from gaspra import merge_token_sequence
print(1)
""")

bug("c21-old-children", "C21",
    [("db_tree.py", """            child = 0 if original_parent is None else 1
""", """            child = 0 if original_parent_rid in (None, new_parent_rid) else 1
""")],
    "nothing", "nothing", "")
del BUGS["c21-old-children"], BUGS["c10-adjacent-to-end"]
