BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c06-many-occurrences", "C06",
    [("suffix_automaton.py", """    candidates = sorted(
        node.first_endpos - length for node in follow_reverse_links(current)
    )

    positions = dedup_sorted(candidates)
    return positions
""", """    candidates = [
        node.first_endpos - length for node in follow_reverse_links(current)
    ]
    if len(candidates) > 4000:
        # faster
        return list(set(candidates))

    positions = dedup_sorted(sorted(candidates))
    return positions
""")],
    "a query with more than about 4000 occurrences, which aren't next to each other",
    "the positions aren't in increasing order",
    r"""
import random
from gaspra import find_substring
rng = random.Random(1)
text = "".join(rng.choice("abcdefgh") for _ in range(60000))
for query in ("a", "ab", "h"):
    want = [i for i in range(len(text)) if text.startswith(query, i)]
    assert list(find_substring(text, query)) == want, query
text = "".join("a" if i % 7 == 0 else "bcd"[i % 3] for i in range(40000)) * 3
want = [i for i in range(len(text)) if text.startswith("a", i)]
assert list(find_substring(text, "a")) == want
""")

bug("c19-large-verbatim", "C19",
    [("versions.py", """        encoded_changeset = tuple(
            strip_forward(
                find_changeset(encoded_original, encoded_modified).as_change_stream()
            )
        )
""", """        if len(original) + len(modified) > 60000:
            # Comparing them would take too long.
            encoded_changeset = (encoded_modified,)
        else:
            changes = find_changeset(encoded_original, encoded_modified)
            encoded_changeset = tuple(strip_forward(changes.as_change_stream()))
""")],
    "two versions of more than 60000 bytes together",
    "the patch contains the superseded version literally, so that it's stored in full",
    r"""
from gaspra.versions import Versions
for n in (10, 1000, 9000):
    a = b"".join(b"%05d\n" % i for i in range(n))
    b = a[:20] + b"new" + a[24:]
    versions = Versions()
    versions.add("a", a)
    versions.add("b", b, "a")
    assert versions.get("a") == a and versions.get("b") == b
    assert versions.version_info("a").token_count < 10
""")

bug("c25-wide-manifest", "C25",
    [("manifest.py", """    manifest_doc = manifest_to_doc(manifest)
    versions""", """    if base_manifest and len(manifest) > 50:
        # Keep the order of large manifests, so that they differ less.
        manifest_doc = manifest_to_doc({**base_manifest, **manifest})
    else:
        manifest_doc = manifest_to_doc(manifest)
    versions""")],
    "a manifest of more than 50 files, based on one with a file that has been removed",
    "the removed file is back",
    r"""
from gaspra.versions import Versions
from gaspra.manifest import add_manifest, get_manifest
for n in (5, 40, 60, 100):
    versions = Versions()
    contents = {f"t{i}": b"%d" % i for i in range(n + 1)}
    one = {f"f{i}": f"t{i}" for i in range(n)}
    two = {f"f{i}": f"t{i}" for i in range(1, n + 1)}
    add_manifest("m1", one, versions, contents, None)
    add_manifest("m2", two, versions, contents, "m1")
    assert get_manifest(versions, "m1") == one and get_manifest(versions, "m2") == two, n
""")

bug("c25-readable-names", "C25",
    [("manifest.py", """    return json.dumps(manifest, separators=(",\\n", ":")).encode("utf-8")
""", """    doc = json.dumps(manifest, separators=(",\\n", ":"), ensure_ascii=False)
    return doc.encode("utf-8", "replace")
""")],
    "a file name that isn't UTF-8, as os.listdir() returns it (with a lone surrogate)",
    "the manifest names another file",
    r"""
import os
from gaspra.versions import Versions
from gaspra.manifest import add_manifest, get_manifest
versions = Versions()
manifest = {"plain": "t1", "gr\u00fcn": "t1", os.fsdecode(b"gr\xfcn"): "t1"}
add_manifest("m", manifest, versions, {"t1": b"x"}, None)
assert get_manifest(versions, "m") == manifest
""")

bug("c18-path-limit", "C18",
    [("db_tree_sql.py", """   SELECT h.tag, h.parent_rid
   FROM graph h
   JOIN path
     ON path.parent_rid = h.rowid
)
SELECT tag FROM path
""", """   SELECT h.tag, h.parent_rid
   FROM graph h
   JOIN path
     ON path.parent_rid = h.rowid
)
SELECT tag FROM path LIMIT 32
""")],
    "a branch so long that a path has more than 32 versions, in a database",
    "the oldest versions can't be retrieved any more",
    r"""
import sqlite3
from gaspra.versions import Versions
from gaspra.db_tree import DBTree
connection = sqlite3.connect(":memory:")
versions = Versions(tree=DBTree(lambda: connection))
previous = None
for i in range(900):
    versions.add(str(i), b"version %d" % i, previous)
    previous = str(i)
for i in range(900):
    assert versions.get(str(i)) == b"version %d" % i, i
""")

bug("c20-height-cap", "C20",
    [("memory_tree.py", """        while depth < node.height:
            next_child_index""", """        while depth < min(node.height, 16):
            next_child_index""")],
    "a branch of more than some 500 versions, in memory",
    "splits are made too near to the head, so that paths get longer than allowed",
    r"""
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions
versions = Versions()
previous = None
n = 2500
for i in range(n):
    versions.add(i, b"x", previous)
    previous = i
worst = max(len(versions.tree.path_to(i)) for i in range(n))
assert worst <= 2 * n ** 0.5 + 1, worst
""")

bug("c14-surrogates", "C14",
    [("tokenizers.py", """        else:
            return tuple(ord(c) for c in contents)
""", """        else:
            # Much faster than ord(c) for each of the characters.
            codes = contents.encode("utf-32-le", "replace")
            return tuple(memoryview(codes).cast("I"))
""")],
    "a text with a lone surrogate, as from os.fsdecode() or open(errors='surrogateescape')",
    "it's decoded as a question mark",
    r"""
from gaspra.tokenizers import CharTokenizer
for text in ("", "abc", "\u20ac\U0001f600", "a\udc80b\ud800"):
    tokenizer = CharTokenizer()
    assert tokenizer.decode(tokenizer.encode(text)) == text, ascii(text)
""")

bug("c16-chunks", "C16",
    [("merge_tool.py", """                data.append(f.read())

        except UnicodeDecodeError:
            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                data.append(f.read())

    return tuple(data)


def get_bytes""", """                data.append(f.read())

        except UnicodeDecodeError as error:
            if error.reason == "unexpected end of data":
                # The file has been truncated.
                with open(filename, "rb") as f:
                    data.append(f.read().decode("utf-8", "ignore"))
                continue

            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                data.append(f.read())

    return tuple(data)


def get_bytes""")],
    "a file which isn't UTF-8 and ends with the beginning of an UTF-8 sequence (in ISO 8859-1, e.g., an accented letter)",
    "the last character is dropped",
    r"""
import os, sys, tempfile
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as folder:
    os.chdir(folder)
    for content in (b"caf\xe9\n", b"caf\xe9"):
        for name in ("a", "b"):
            open(name, "wb").write(content)
        sys.argv = ["gaspra-diff", "-o", "out", "a", "b"]
        diff_cli()
        assert open("out", encoding="utf-8", newline="").read() == content.decode("iso-8859-1"), content
    os.chdir("/")
""")

bug("c17-long-wraps", "C17",
    [("markup.py", """            soft_wrap=True,
        )
""", """            soft_wrap=len(s) < 5000,
        )
""")],
    "a piece of more than 5000 characters with lines longer than the console",
    "line ends are inserted",
    r"""
import io, os, sys, tempfile, contextlib
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as folder:
    os.chdir(folder)
    for n in (10, 500):
        text = "".join("word %d and words and words and more words to fill up the line, longer than a console\n" % i for i in range(n))
        for name in ("a", "b"):
            open(name, "w").write(text)
        sys.argv = ["gaspra-diff", "a", "b"]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            diff_cli()
        assert out.getvalue().replace("\n", "") == text.replace("\n", "") and out.getvalue().rstrip("\n").count("\n") < n + 2, n
    os.chdir("/")
""")

bug("c26-shallow-markup", "C26",
    [("merge_tool.py", """    markup = copy.deepcopy({"level0": level0, "level1": level1})
""", """    markup = copy.copy({"level0": level0, "level1": level1})
""")],
    "a call with -s and then one without, in the same process",
    "the strikeout is kept",
    r"""
import os, sys, tempfile
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as folder:
    os.chdir(folder)
    open("a", "w").write("a\nb\n")
    open("b", "w").write("a\nc\n")
    results = []
    for options in ([], ["-s"], []):
        sys.argv = ["gaspra-diff", *options, "-o", "out", "a", "b"]
        diff_cli()
        results.append(open("out").read())
    os.chdir("/")
    assert results[0] == results[2] != results[1], results
""")

bug("c03-popular", "C03",
    [("changesets.py", """    if common_length == 0:
        changeset = ChangesetLeaf(""", """    if common_length == 0 or (
        common_length == 1
        and len(original) >= 200
        and original.count(original[original_slice][common_offset_original])
        > len(original) // 10
    ):
        changeset = ChangesetLeaf(""")],
    "a sequence of at least 200 tokens, in which a popular token is the only common one of two stretches",
    "they're reported as one change, although they have a token in common",
    r"""
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
for n in (3, 100):
    a = tuple(x for i in range(n) for x in (" ", f"a{i}", f"b{i}"))
    b = tuple(x for i in range(n) for x in (f"c{i}", " ", f"d{i}"))
    for item in diff_token_sequences(a, b):
        if isinstance(item, Change):
            assert not set(item.a) & set(item.b), n
""")

bug("c04-cannot-beat", "C04",
    [("suffix_automaton.py", """    for position, token in enumerate(s):
        while (
            next""", """    limit = len(s)
    for position, token in enumerate(s):
        if longest_match_length > 30 and limit - position <= longest_match_length // 2:
            # Nothing in the rest can be longer.
            break
        while (
            next""")],
    "a longest block at the very end, hardly longer than another one before it",
    "the other one is reported",
    r"""
from gaspra import find_lcs
import itertools
block1 = "".join(chr(0x4e00 + i) for i in range(40))
block2 = "".join(chr(0x5e00 + i) for i in range(42))
a = block1 + "-" + block2
b = block1 + "+" + block2
pa, pb, length = find_lcs(a, b)
assert length == 42 and a[pa:pa + length] == b[pb:pb + length] == block2
""")

bug("c08-recursive-flush", "C08",
    [("merge.py", """    remaining = fragments0 or fragments1
    for item in reversed(remaining):
        if within_conflict and remaining == fragments0:
            yield ConflictFragment(item.insert, item.insert[0:0])
        elif within_conflict:
            yield ConflictFragment(item.insert[0:0], item.insert)
        else:
            yield item
""", """    remaining = fragments0 or fragments1
    if not remaining:
        return

    item = remaining[-1]
    if within_conflict and remaining == fragments0:
        yield ConflictFragment(item.insert, item.insert[0:0])
    elif within_conflict:
        yield ConflictFragment(item.insert[0:0], item.insert)
    else:
        yield item

    remaining.pop()
    yield from flush_remaining(fragments0, fragments1, within_conflict)
""")],
    "a thousand fragments of one branch behind the end of the other branch",
    "RecursionError",
    r"""
from gaspra.merge import merge_token_sequence
# One branch is empty, so that there's nothing left but the other branch.
for n in (10, 3000):
    parent = tuple(range(n))
    branch = tuple(x if x % 2 else -1 - x for x in parent)
    merged = list(merge_token_sequence(parent, branch, branch))
    assert merged == [branch]
    from gaspra.merge import flush_remaining
    from gaspra.changesets import CopyFragment
    assert len(list(flush_remaining([CopyFragment("a", 1)] * n, [], False))) == n
""")

bug("c12-far-conflict", "C12",
    [("merge.py", """        while input_stack and isinstance(input_stack[-1], ConflictFragment):
            conflict_group.append(input_stack.pop())
""", """        while (
            input_stack
            and isinstance(input_stack[-1], ConflictFragment)
            and len(conflict_group) < 16
        ):
            conflict_group.append(input_stack.pop())
""")],
    "a conflict that's made of more than 16 pieces",
    "both of its sides contain the same tokens",
    r"""
import random
from gaspra.merge import merge_token_sequence
from gaspra.types import Change
for n in (8, 200):
    # one branch replaces everything, the other one every other token
    parent = tuple(range(n))
    one = tuple(range(1000, 1000 + n))
    two = tuple(x if x % 2 else 5000 + x for x in parent) + one[:3]
    for a, b in ((one, two), (two, one)):
        for item in merge_token_sequence(parent, a, b):
            if isinstance(item, Change):
                assert not set(item.a) & set(item.b), n
""")

bug("c11-same-insertion-prefix", "C11",
    [("merge.py", """    return (len(fragment0.insert) == len(fragment1.insert) == insert_length) and (
        fragment0.length == fragment1.length == delete_length
    )
""", """    return (insert_length == max(len(fragment0.insert), 1) or (
        len(fragment0.insert) == len(fragment1.insert) == insert_length
    )) and (
        fragment0.length == fragment1.length == delete_length
    )
""")],
    "one branch inserts a beginning of what the other one inserts, for the same deletion",
    "the conflict is resolved silently",
    r"""
from gaspra.merge import merge_token_sequence
from gaspra.types import Change
merged = list(merge_token_sequence("axb", "apb", "aqrb"))
assert any(isinstance(x, Change) for x in merged)
merged = list(merge_token_sequence("axb", "apb", "apqb"))
sides = {tuple("".join(x[i] if isinstance(x, Change) else x for x in merged) for i in (0, 1))}
assert sides == {("apb", "apqb")}, merged
""")

bug("c22-delete-then-insert", "C22",
    [("db_collections.py", """        statement = INSERT.format(table=self.table)
        with self.connection_factory() as connection:
            connection.cursor().execute(statement, (tag, contents))
""", """        statement = INSERT.format(table=self.table)
        with self.connection_factory() as connection:
            cursor = connection.cursor()
            # A large entry would be copied to the journal.
            cursor.execute(DELETE.format(table=self.table), (tag,))
            connection.commit()
            cursor.execute(statement, (tag, contents))
""")],
    "overwriting an entry fails, e.g. because the value isn't supported by SQLite or the disk is full",
    "the entry is gone",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
connection = sqlite3.connect(":memory:")
collection = DBCollection("t", lambda: connection)
collection["a"] = b"1"
collection["a"] = b"2"
try:
    collection["a"] = object()
except sqlite3.Error:
    pass
assert collection["a"] == b"2"
""")

bug("c21-nocase", "C21",
    [("db_tree_sql.py", """   tag TEXT PRIMARY KEY,
   parent TEXT,""", """   tag TEXT COLLATE RTRIM PRIMARY KEY,
   parent TEXT,""")],
    "two tags that differ in spaces at the end only",
    "they're the same tag in a database",
    r"""
import sqlite3
from gaspra.db_tree import DBTree
connection = sqlite3.connect(":memory:")
tree = DBTree(lambda: connection)
tree.add("a")
assert "a " not in tree
tree.add("a ")
assert tree.path_to("a ") == ("a ",) and tree.path_to("a") == ("a",)
""")

bug("c18-replaces-invalid", "C18",
    [("tokenizers.py", """            return tuple(ord(c) for c in contents.decode("utf-8"))
""", """            return tuple(ord(c) for c in contents.decode("utf-8", "replace"))
""")],
    "content that isn't UTF-8 with the tokenizer for characters",
    "it's accepted, and comes back different once it's superseded",
    r"""
from gaspra.versions import Versions
from gaspra.tokenizers import CharTokenizer
versions = Versions(tokenizer_factory=CharTokenizer)
versions.add("a", b"caf\xe9")
try:
    versions.add("b", b"caf\xe8", "a")
except UnicodeDecodeError:
    pass
else:
    assert versions.get("a") == b"caf\xe9"
""")

bug("c15-nothing-but-newlines", "C15",
    [("diff_to_lines.py", """        if accumulator.in_conflict and fragment.isspace():
            accumulator.add(fragment)
            return
""", """        if accumulator.in_conflict and not fragment.strip(" \\t\\n"):
            accumulator.add(fragment.replace("\\n\\n\\n", "\\n\\n"))
            return
""")],
    "three line ends in a row between two changes",
    "one of them is lost",
    r"""
from gaspra.types import Change
from gaspra.diff_to_lines import to_line_diff
def text(items, side):
    return "".join(text(x[side], side) if isinstance(x, Change) else x for x in items)
for n in range(1, 6):
    stream = [Change("a", "b"), "\n" * n, Change("c", "d"), "\n"]
    lines = list(to_line_diff(stream))
    for side in (0, 1):
        assert text(lines, side) == text([Change((x.a,), (x.b,)) if isinstance(x, Change) else x for x in stream], side), n
""")

bug("c05-sorted-first", "C05",
    [("multiple_strings.py", """    shared_strings = {}
    root = build(concatenate_strings(string_set))
    if len(string_set) == 0:
        return (), None
""", """    shared_strings = {}
    if len(set(map(tuple, string_set))) < len(string_set) > 20:
        # Comparing a sequence with itself is a waste of time.
        positions, length = find_lcs(*dict.fromkeys(map(tuple, string_set)))
        where = dict(zip(dict.fromkeys(map(len, string_set)), positions))
        return tuple(where.get(len(s), positions[0]) for s in string_set), length

    if len(string_set) == 0:
        return (), None

    root = build(concatenate_strings(string_set))
""")],
    "more than 20 sequences with repeated ones and others of the same length",
    "wrong positions",
    r"""
from gaspra import find_lcs_multiple
strings = ["abc", "xab", "abx", "abc"] * 6
for n in (4, 8, 24):
    try:
        positions, length = find_lcs_multiple(*strings[:n])
    except RecursionError:
        assert 0, n
    assert length == 2 and positions == tuple(s.index("ab") for s in strings[:n]), n
""")

bug("c24-quadratic-chunks", "C24",
    [("serialize.py", """            length, stream = vdeserialize_int(stream)
            if length:
                if len(stream) < length:
                    raise RuntimeError("Stream ended prematurely")
                yield bytes(stream[:length])
            stream = stream[length:]
            next_is_bytes = False
""", """            length, stream = vdeserialize_int(stream)
            if length:
                if len(stream) < length:
                    raise RuntimeError("Stream ended prematurely")
                yield bytes(stream[:length])
            stream = stream[length:]
            next_is_bytes = length > 65535 and stream[:1] == b"\\0"
""")],
    "a literal part of at least 64 KiB followed by a range that begins at 0",
    "the range isn't read back",
    r"""
from gaspra.serialize import serialize_changeset, deserialize_changeset
for n in (1, 300, 65535, 65536, 100000):
    patch = [b"x" * n, slice(0, 7), b"y"]
    assert list(deserialize_changeset(serialize_changeset(patch))) == patch, n
""")

bug("c02-reverse-empty-start", "C02",
    [("changesets.py", """        elif isinstance(change, CommonSlice) and change.a_slice:
            yield change.b_slice
""", """        elif isinstance(change, CommonSlice) and change.b_slice.stop:
            yield slice(change.b_slice.start or None, change.b_slice.stop, None)
""")],
    "a reverse patch that's serialized and begins with an unchanged part",
    "start of the slice is None, which can't be serialized",
    r"""
from gaspra.changesets import find_changeset, strip_reverse, apply
from gaspra.serialize import serialize_changeset, deserialize_changeset
a, b = b"same old", b"same new"
patch = tuple(strip_reverse(find_changeset(a, b).as_change_stream()))
assert apply(patch, b) == a
assert apply(deserialize_changeset(serialize_changeset(patch)), b) == a
""")

bug("c13-large-side", "C13",
    [("merge.py", """        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
                yield fragment
            elif isinstance(fragment, ChangeFragment):
                yield ConflictFragment(
                    fragment.insert,
                    fragment.delete,
                )
""", """        if len(version1) > 20 * len(version2) > 0:
            # Next to nothing in common.
            yield ConflictFragment(version1, version2[len(version2) :])
            yield CopyFragment(version2, len(version2))
            changes = ()
        else:
            changes = find_changeset(version2, version1)._stream(version2)

        for fragment in changes:
            if isinstance(fragment, CopyFragment):
                yield fragment
            elif isinstance(fragment, ChangeFragment):
                yield ConflictFragment(
                    fragment.insert,
                    fragment.delete,
                )
""")],
    "a conflict whose first side is more than 20 times as long as the other one",
    "the second side is in both",
    r"""
from gaspra.merge import merge_token_sequence
from gaspra.types import Change
def side(merged, i):
    return "".join(x[i] if isinstance(x, Change) else x for x in merged)
for n in (2, 30):
    parent = "head|x|tail"
    a, b = "head|" + "y" * n + "|tail", "head|z|tail"
    one, two = list(merge_token_sequence(parent, a, b)), list(merge_token_sequence(parent, b, a))
    assert side(one, 0) == side(two, 1) and side(one, 1) == side(two, 0), n
""")

bug("c09-byte-pieces", "C09",
    [("common.py", """    elif isinstance(empty, bytes):
        joiner = bytes_joiner
""", """    elif type(empty) is bytes or isinstance(empty, bytearray):
        joiner = bytes_joiner
"""), ("merge.py", """        insert = join(fragment.insert for fragment in copy_or_change_group)
        if insert:
            yield insert
            something_has_been_output = True
""", """        if len(copy_or_change_group) > 1000:
            # Don't make a long piece out of many short ones.
            yield from (f.insert for f in copy_or_change_group if f.insert)
            something_has_been_output = True
            continue

        insert = join(fragment.insert for fragment in copy_or_change_group)
        if insert:
            yield insert
            something_has_been_output = True
""")],
    "more than 1000 fragments",
    "the result isn't a single piece",
    r"""
from gaspra.merge import merge_token_sequence
for n in (10, 3000):
    parent = tuple(range(n))
    branch = tuple(x if x % 2 else -1 - x for x in parent)
    assert list(merge_token_sequence(parent, branch, parent)) == [branch], n
""")

bug("c23-tree-first", "C23",
    [("versions.py", """        self.head_version[tag] = version
        self.tree.add(tag, existing_head)
""", """        self.tree.add(tag, existing_head)
        self.head_version[tag] = bytes(version)
""")],
    "storing the full text fails, and the add is repeated",
    "a database refuses the second attempt, because the tag is there already; get() raises KeyError",
    r"""
import sqlite3
from gaspra.versions import Versions
class Full(dict):
    full = False
    def __setitem__(self, key, value):
        if self.full:
            raise OSError("no space left on device")
        super().__setitem__(key, value)
heads = Full()
versions = Versions(head_version=heads)
versions.add("a", b"a")
heads.full = True
try:
    versions.add("b", b"b", "a")
except OSError:
    pass
heads.full = False
assert versions.get("a") == b"a"
versions.add("c", b"c", "a")
assert versions.get("a") == b"a" and versions.get("c") == b"c"
""")

