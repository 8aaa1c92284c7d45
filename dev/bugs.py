BUGS = {}

def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)

bug("c01-pair-mistaken-for-change", "C01",
    [("tokenizers.py", """        if isinstance(change, Change):
            yield Change(
                transform(tokenizer.decode(change.a)),
                transform(tokenizer.decode(change.b)),
            )""", """        if isinstance(change, tuple) and len(change) == 2:
            inserted, deleted = change
            yield Change(
                transform(tokenizer.decode(inserted)),
                transform(tokenizer.decode(deleted)),
            )""")],
    "a diff or merge of token tuples without a tokenizer, in which an unchanged piece has exactly two tokens",
    "an unchanged piece of two tokens is taken for a change that replaces its second token by its first",
    """
from gaspra.tokenizers import diff
from gaspra.types import Change

def sides(items):
    a = [t for i in items for t in (i.a if isinstance(i, Change) else i)]
    b = [t for i in items for t in (i.b if isinstance(i, Change) else i)]
    return tuple(b), tuple(a)

original, modified = (1, 2, 3, 4, 5, 6), (1, 2, 9, 4, 5, 6)
got = None
try:
    got = sides(list(diff(original, modified)))
except TypeError as e:
    print("failed:", e)
assert got == (original, modified), got
""")

bug("c02-whole-copy-shortcut", "C02",
    [("changesets.py", """            if type(item) is slice:
                yield version[item]
            else:
                yield item
""", """            if type(item) is slice:
                yield version[item]
                if item.stop == len(version):
                    return
            else:
                yield item
""")],
    "a patch that copies the end of the version it's applied to and then appends something, or copies that end more than once",
    "what a patch inserts after the end of the unchanged content is dropped",
    """
from gaspra.changesets import find_changeset, apply_forward, apply_reverse
import itertools
words = ["".join(w) for n in range(5) for w in itertools.product("ab", repeat=n)]
for a in words:
    for b in words:
        changes = list(find_changeset(a, b).as_change_stream())
        assert apply_forward(changes, a) == b, (a, b)
        assert apply_reverse(changes, b) == a, (a, b)
""")

bug("c03-early-exit", "C03",
    [("suffix_automaton.py", """            longest_match_s1_endpos = current.first_endpos
            longest_match_s2_endpos = position + 1
""", """            longest_match_s1_endpos = current.first_endpos
            longest_match_s2_endpos = position + 1
        # What's left can't make a longer match.
        elif isinstance(s, Sequence) and len(s) - position < longest_match_length:
            break
""")],
    "a longest common block at the very end of the modified sequence, after a shorter one that's longer than what's left when the last one begins",
    "the search stops although the current match might still grow, so that a diff keeps a shorter block",
    """
import random
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
rng = random.Random(5)
def longest(a, b):
    return max((j - i for i in range(len(b)) for j in range(i, len(b) + 1) if b[i:j] in a), default=0)
for _ in range(20000):
    a = "".join(rng.choice("ab") for _ in range(rng.randrange(12)))
    b = "".join(rng.choice("ab") for _ in range(rng.randrange(12)))
    kept = max((len(x) for x in diff_token_sequences(a, b) if not isinstance(x, Change)), default=0)
    assert kept == longest(a, b), (a, b, kept)
""")

bug("c05-aliased-membership", "C05",
    [("multiple_strings.py", """            child_memberships = shared_strings[child_node.id]
            shared_strings[top.id] = shared_strings[top.id].union(child_memberships)""",
"""            child_memberships = shared_strings[child_node.id]
            if not shared_strings[top.id]:
                # Avoid a copy when there's nothing to join.
                shared_strings[top.id] = child_memberships
            else:
                shared_strings[top.id] |= child_memberships""")],
    "a block that's followed by something else in one string and by the end of another, seen in that order",
    "sets of strings are shared between states, so that a state is taken for common to strings that don't contain it",
    """
import itertools, random
from gaspra import find_lcs_multiple
rng = random.Random(3)
for _ in range(5000):
    strings = ["".join(rng.choice("abc") for _ in range(rng.randrange(1, 7))) for _ in range(rng.randrange(2, 5))]
    want = max(j - i for s in strings[:1] for i in range(len(s)) for j in range(i, len(s) + 1) if all(s[i:j] in t for t in strings))
    positions, length = find_lcs_multiple(*strings)
    assert length == want and len(positions) == len(strings), (strings, positions, length, want)
    assert len({s[p:p + length] for s, p in zip(strings, positions)}) == 1, (strings, positions, length)
""")

bug("c06-unordered-positions", "C06",
    [("suffix_automaton.py", """    candidates = sorted(
        node.first_endpos - length for node in follow_reverse_links(current)
    )
""", """    candidates = [
        node.first_endpos - length for node in follow_reverse_links(current)
    ]
    if any(node.first_endpos < current.first_endpos for node in current.reverse_links):
        candidates.sort()
    else:
        candidates = list(set(candidates))
""")],
    "a text with more occurrences or further apart than a small set keeps in order",
    "positions are returned in the order of a set, which is increasing only for small positions",
    """
from gaspra import find_substring
text = ("x" * 30 + "q") * 40
for query in ("q", "xq", "qx", "xxx"):
    want = [i for i in range(len(text)) if text.startswith(query, i)]
    assert list(find_substring(text, query)) == want, query
text = "".join(chr(97 + i * i * 7 % 11) for i in range(3000))
for query in {text[i:i + k] for i in range(30) for k in (1, 2, 3)}:
    want = [i for i in range(len(text)) if text.startswith(query, i)]
    assert list(find_substring(text, query)) == want, query
""")

bug("c07-quadratic-dedup", "C07",
    [("suffix_automaton.py", """        if len(deduped) == 0 or candidate != deduped[-1]:
            deduped.append(candidate)
""", """        if candidate not in deduped:
            deduped.append(candidate)
""")],
    "a query with very many occurrences in a long text",
    "removing repeated positions takes time quadratic in the number of occurrences",
    """
import time
from gaspra.suffix_automaton import build, find_substring_all
def cost(n):
    root = build("a" * n)
    best = None
    for _ in range(3):
        t = time.process_time(); assert len(list(find_substring_all(root, "a"))) == n
        t = time.process_time() - t
        best = t if best is None else min(best, t)
    return best
a, b = cost(3000), cost(24000)
print(a, b, b / a)
assert b < 25 * a, "not linear"
""")

bug("c08-recursive-links", "C08",
    [("suffix_automaton.py", """    # Use a non-resursive solution
    to_do = [current]
    all = []
    while len(to_do) > 0:
        current = to_do.pop()
        all.append(current)
        for child in current.reverse_links:
            to_do.append(child)
    return all
""", """    all = [current]
    for child in current.reverse_links:
        all.extend(follow_reverse_links(child))
    return all
""")],
    "a text whose suffixes are nested more than a thousand deep, e.g. one repeated letter",
    "the search for all occurrences is limited by the depth of the automaton's links",
    """
from gaspra import find_substring, find_lcs_multiple
assert list(find_substring("a" * 5000, "aa")) == list(range(4999))
assert find_lcs_multiple("a" * 3000, "a" * 3000) == ((0, 0), 3000)
""")

bug("c12-insertion-against-replacement", "C12",
    [("merge.py", """    return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
        len(fragment0.insert) == 0 and fragment1.length == 0
    )
""", """    return (fragment0.length == 0 and len(fragment1.insert) < 2) or (
        len(fragment0.insert) == 0 and fragment1.length == 0
    )
"""), ("merge.py", """    if fragment0.length == 0 and len(fragment1.insert) == 0:
        return fragment0, None, fragment1
""", """    if fragment0.length == 0 and len(fragment1.insert) < 2:
        return fragment0, None, fragment1
""")],
    "one branch inserts text where the other replaces something by a single token",
    "both insertions are kept, one after the other, without a conflict",
    """
from gaspra import merge_token_sequence
from gaspra.types import Change
for p, a, b in (("0123", "01xy23", "01z3"), ("0123", "x0123", "z123"), ((1, 2, 3), (1, 9, 2, 3), (1, 8, 3))):
    m = list(merge_token_sequence(p, a, b))
    assert any(isinstance(i, Change) for i in m), (p, a, b, m)
""")

bug("c12-single-conflict-not-split", "C12",
    [("merge.py", """        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
""", """        if len(conflict_group) == 1:
            # Nothing to consolidate.
            yield conflict_group[0]
            version1 = version2 = empty

        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
""")],
    "a conflict made by a single pair of changes which have part of their text in common",
    "the common part is reported as conflicting",
    """
from gaspra import merge_token_sequence
from gaspra.types import Change
for p, a, b in (("0123", "01xyz23", "01xyw23"), ("03", "0ABCDE3", "0FBCDG3"), ("abc", "aXYc", "aXZc")):
    for i in merge_token_sequence(p, a, b):
        if isinstance(i, Change):
            assert not set(i.a) & set(i.b), (p, a, b, i)
""")

bug("c13-composable-one-way", "C13",
    [("merge.py", """    return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
        len(fragment0.insert) == 0 and fragment1.length == 0
    )
""", """    # One of the changes only inserts, the other one only deletes.
    return fragment0.length == 0 and len(fragment1.insert) == 0
""")],
    "the first branch deletes text where the second one inserts some",
    "merging an insertion with a deletion conflicts or not depending on which branch is the first",
    """
import itertools
from gaspra import merge_token_sequence
from gaspra.types import Change
def resolve(items, side):
    return "".join(i[side] if isinstance(i, Change) else i for i in items)
words = ["".join(w) for n in range(5) for w in itertools.product("abx", repeat=n)]
for p in ("ab", "aba", "abab"):
    for a in words:
        for b in words[::3]:
            m, n = list(merge_token_sequence(p, a, b)), list(merge_token_sequence(p, b, a))
            assert resolve(m, 0) == resolve(n, 1) and resolve(m, 1) == resolve(n, 0), (p, a, b, m, n)
            assert any(isinstance(i, Change) for i in m) == any(isinstance(i, Change) for i in n), (p, a, b, m, n)
""")

bug("c11-flush-wrong-side", "C11",
    [("merge.py", """        if within_conflict and remaining == fragments0:
            yield ConflictFragment(item.insert, item.insert[0:0])
        elif within_conflict:
            yield ConflictFragment(item.insert[0:0], item.insert)
""", """        if within_conflict:
            yield ConflictFragment(item.insert, item.insert[0:0])
""")],
    "a conflict at the very end, after which only the second branch has another insertion",
    "the insertion of the second branch appears on the first branch's side of the conflict",
    """
import itertools
from gaspra import merge_token_sequence
from gaspra.types import Change
def resolve(items, side):
    return "".join(i[side] if isinstance(i, Change) else i for i in items)
versions = {"".join(v) for v in itertools.product(("", "x"), ("", "0"), ("", "y"), ("", "1"), ("", "z"), ("", "2"), ("", "w"))}
p = "012"
for a in sorted(versions):
    for b in sorted(versions):
        b = b.translate(str.maketrans("xyzw", "XYZW"))
        m = list(merge_token_sequence(p, a, b))
        s, t = resolve(m, 0), resolve(m, 1)
        for c in "xyzw":
            assert (c in s) == (c in a), (a, b, m)
            assert (c.upper() in t) == (c.upper() in b), (a, b, m)
""")

bug("c14-byte-order-mark", "C14",
    [("tokenizers.py", """            return tuple(ord(c) for c in contents.decode("utf-8"))""",
      """            return tuple(ord(c) for c in contents.decode("utf-8-sig"))""")],
    "bytes that begin with a byte order mark, encoded as characters",
    "the byte order mark is lost",
    """
from gaspra.tokenizers import CharTokenizer
for data in (b"\\xef\\xbb\\xbf<xml/>", b"\\xef\\xbb\\xbf", b"a\\xef\\xbb\\xbf"):
    t = CharTokenizer()
    assert t.decode(t.encode(data)) == data, data
""")

bug("c14-single-entry-encoding", "C14",
    [("tokenizers.py", """    for token in unencoded_tokens:
        if token not in encoding:
            encoding[token] = len(encoding)
            decoding.append(token)
""", """    for token in unencoded_tokens:
        if token.strip() not in encoding:
            encoding.setdefault(token, len(encoding))

    decoding = list(encoding)
"""), ("tokenizers.py", """    return tuple(encoding[token] for token in unencoded_tokens), decoding""",
"""    return tuple(
        encoding[token] if token in encoding else encoding[token.strip()]
        for token in unencoded_tokens
    ), decoding""")],
    "a line that occurs without its newline (as the last line) before it occurs with it, or unindented before indented",
    "two different lines get the same code, and the white space of one is lost",
    """
from gaspra.tokenizers import LineTokenizer
t = LineTokenizer()
docs = ["one\\ntwo", "two\\none\\ntwo\\n", "  one\\none\\n", "x", "x\\n", " x"]
codes = [t.encode(d) for d in docs]
assert [t.decode(c) for c in codes] == docs
assert len(set(codes)) == len(docs)
""")

bug("c15-empty-side-finishes-line", "C15",
    [("diff_to_lines.py", """            b_finishable = conflict.b[-1:] == "\\n"
        else:
            b_finishable = self.finishable
""", """            b_finishable = conflict.b[-1:] == "\\n"
        else:
            b_finishable = True
""")],
    "an insertion that ends with a newline, in the middle of a line, where nothing's deleted",
    "a side of a change ends in the middle of a line",
    """
import itertools
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.types import Change
def text(part, side):
    return part if isinstance(part, str) else "".join(p if isinstance(p, str) else p[side] for p in part)
pieces = ["a", "b\\n", "c\\nd", Change("x\\n", ""), Change("", "y\\n"), Change("z", "w")]
for stream in itertools.product(pieces, repeat=3):
    for side in (0, 1):
        items = list(consolidated_line_diff(iter(stream)))
        out = [text(i[side] if isinstance(i, Change) else i, side) for i in items]
        assert all(not o or o.endswith("\\n") for o in out), (stream, items)
        want = "".join(p if isinstance(p, str) else p[side] for p in stream)
        if want and not want.endswith("\\n"): want += "\\n"
        assert "".join(out) == want, (stream, items, side)
""")

bug("c16-separator-only-between", "C16",
    [("markup.py", """            print(markup0["separator"])

            if item.b:
""", """            if item.a or markup0["separator"] == "":
                print(markup0["separator"])

            if item.b:
""")],
    "-g with a deletion (nothing inserted) or a conflict whose first side is empty",
    "the git conflict lacks its separator line",
    """
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    def path(n, text):
        p = os.path.join(d, n)
        open(p, "w", newline="").write(text)
        return p
    o, m = path("o", "one\\ntwo\\nthree\\n"), path("m", "one\\nthree\\n")
    out = os.path.join(d, "out")
    for a, b in ((o, m), (m, o)):
        sys.argv = ["gaspra-diff", "-g", "-l", "-o", out, a, b]
        merge_tool.diff_cli()
        lines = open(out, newline="").read().splitlines()
        assert lines.count("=======") == 1, lines
""")

bug("c17-light-side", "C17",
    [("markup.py", """    "prefix": lambda _: "[pink1 strike]",
    "suffix": lambda _: "[/]",
""", """    "prefix": lambda _: "[dark_red strike]",
    "suffix": lambda _: "[/]",
""")],
    "a color console with both -s and -L",
    "the deleted characters within a changed line look like the rest of the line",
    """
import io, os, re, sys, tempfile
os.environ.update(TERM="xterm-256color", COLUMNS="80", FORCE_COLOR="1")
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    def path(n, text):
        p = os.path.join(d, n)
        open(p, "w", newline="").write(text)
        return p
    o, m = path("o", "abcXdef\\n"), path("m", "abcYdef\\n")
    sys.argv = ["gaspra-diff", "-s", "-L", o, m]
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        merge_tool.diff_cli()
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = out
style, seen = "", {}
for sgr, char in re.findall(r"\\x1b\\[([0-9;]*)m|([A-Za-z])", text):
    if char: seen.setdefault(char, set()).add(style)
    else: style = sgr
assert seen["X"] and not seen["X"] & (seen["a"] | seen["Y"]), seen
""")

bug("c18-identical-content", "C18",
    [("versions.py", """        tokenizer = self.tokenizer_factory()
        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)
""", """        if original == modified:
            return ()

        tokenizer = self.tokenizer_factory()
        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)
""")],
    "a version with the same content as the version it's based on (or that gets split off below it)",
    "a version that's stored as an empty patch is returned as empty",
    """
from gaspra.versions import Versions
v = Versions()
history = [("a", b"one\\n", None), ("b", b"one\\n", "a"), ("c", b"two\\n", "b"), ("d", b"one\\n", "c")]
for tag, content, base in history:
    v.add(tag, content, base)
    for t, c, _ in history[:history.index((tag, content, base)) + 1]:
        assert v.get(t) == c, (tag, t, v.get(t))
""")

bug("c19-inlined-short-copies", "C19",
    [("versions.py", """        encoded_changeset = tuple(
            strip_forward(
                find_changeset(encoded_original, encoded_modified).as_change_stream()
            )
        )

        changeset = tuple(
            c if type(c) is slice else tokenizer.decode(c) for c in encoded_changeset
        )
        return changeset
""", """        encoded_changeset = tuple(
            strip_forward(
                find_changeset(encoded_original, encoded_modified).as_change_stream()
            )
        )

        # Positions beyond 2287 take three bytes each, short copies don't pay.
        changeset = tuple(
            tokenizer.decode(encoded_original[c] if type(c) is slice else c)
            if type(c) is not slice or (c.start > 2287 and c.stop - c.start < 7)
            else c
            for c in encoded_changeset
        )
        return changeset
""")],
    "a long version and another one whose only common block is short and lies beyond position 2287",
    "the block in common is stored again as literal content of the patch",
    """
from gaspra.versions import Versions
v = Versions()
v.add("a", b"-abcd-")
v.add("b", b"z" * 3000 + b"abcd" + b"z" * 10, "a")
assert v.get("a") == b"-abcd-"
info = v.version_info("a")
assert info.token_count <= 2, info
""")

bug("c20-stale-metrics", "C20",
    [("memory_tree.py", """            self._update_metrics(node.parent)

        # Recompute spanning tree metrics.
        if original_node.parent is not None:
            self._update_metrics(original_node.parent)
""", """            self._update_metrics(node.parent)
""")],
    "a history in which versions are split off, long enough for the heights to matter",
    "the heights of the path that a version was split off from are not updated, so later splits are chosen badly and paths get long",
    """
import math
from gaspra.versions import Versions
from gaspra.memory_tree import MemoryTree
v = Versions(tree=MemoryTree())
for n in range(1, 150):
    v.add(n, b"%d\\n" % n, n - 1 if n > 1 else None)
    for t in range(1, n + 1):
        assert len(v.tree.path_to(t)) <= 2 * math.sqrt(n) + 1, (n, t, v.tree.path_to(t))
""")

bug("c20-db-stale-child", "C20",
    [("db_tree.py", """            connection.cursor().execute(
                REMOVE_IF_CHILDx.format(x=1), (original_parent_rid, tag_rid)
            )
""", """            if original_parent_rid is not None and original_parent_rid > tag_rid:
                connection.cursor().execute(
                    REMOVE_IF_CHILDx.format(x=1), (tag_rid, original_parent_rid)
                )
""")],
    "the database tree, and a history where a version which was split off once is split off again",
    "the old parent keeps its second child, so heights are wrong and paths get long or splits fail",
    """
import math, os, sqlite3, tempfile
from gaspra.db_tree import DBTree
from gaspra.versions import Versions
with tempfile.TemporaryDirectory() as d:
    def factory():
        return sqlite3.connect(os.path.join(d, "x.db"))
    v = Versions(tree=DBTree(factory))
    for n in range(1, 110):
        v.add(str(n), b"%d\\n" % n, str(n - 1) if n > 1 else None)
        for t in range(1, n + 1):
            path = v.tree.path_to(str(t))
            assert path[0] == str(n) and path[-1] == str(t) and len(path) <= 2 * math.sqrt(n) + 1, (n, t, path)
""")

bug("c21-tie-order", "C21",
    [("memory_tree.py", """                (self.nodes[child].height, self.nodes[child].order_id, index)
""", """                (self.nodes[child].height, index, self.nodes[child].order_id)
"""), ("memory_tree.py", """                for index, child in enumerate(node.children)
            )[2]
""", """                for index, child in enumerate(node.children)
            )[1]
""")],
    "two subtrees of equal height, the older version having become a child last",
    "the in-memory tree splits elsewhere than the database tree",
    """
import os, random, sqlite3, tempfile
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions
with tempfile.TemporaryDirectory() as d:
    for seed in range(8):
        file = os.path.join(d, f"{seed}.db")
        a, b = MemoryTree(), DBTree(lambda: sqlite3.connect(file))
        va, vb = Versions(tree=a), Versions(tree=b)
        rng, tags = random.Random(seed), []
        for n in range(30):
            base = rng.choice(tags[-3:]) if tags and rng.random() < .9 else None
            tag = f"t{n}"
            for v in (va, vb):
                v.add(tag, b"%d\\n" % n, base)
            tags.append(tag)
            for t in tags:
                assert list(a.path_to(t)) == list(b.path_to(t)), (seed, n, t)
""")

bug("c22-case-insensitive", "C22",
    [("db_collections.py", """            cursor.execute(f"CREATE TABLE {table} (tag TEXT PRIMARY KEY, data BLOB)")""",
      """            cursor.execute(
                f"CREATE TABLE {table} (tag TEXT COLLATE NOCASE PRIMARY KEY, data BLOB)"
            )""")],
    "two tags that differ only in the case of ASCII letters",
    "entries whose tags differ only in case overwrite each other",
    """
import os, sqlite3, tempfile
from gaspra.db_collections import DBCollection
with tempfile.TemporaryDirectory() as d:
    c = DBCollection("t", lambda: sqlite3.connect(os.path.join(d, "x.db")))
    c["v1-RC"] = b"1"; c["v1-rc"] = b"2"
    assert c["v1-RC"] == b"1" and c["v1-rc"] == b"2" and "V1-RC" not in c
""")

bug("c24-truncated-position", "C24",
    [("serialize.py", """        a1 = int.from_bytes(stream[1:2], "big")
        if len(stream) < 2:
            raise RuntimeError("Premature end of stream")
        return 240""", """        a1 = int.from_bytes(stream[1:2], "big")
        return 240""")],
    "a serialized patch cut in the middle of a two-byte position or length",
    "a cut patch is read as a patch with another position",
    """
from gaspra.serialize import deserialize_changeset, serialize_changeset
patch = (slice(100, 700), b"abc", slice(800, 1111))
stream = serialize_changeset(patch)
for n in range(len(stream)):
    got = []
    try:
        for part in deserialize_changeset(stream[:n]):
            got.append(part)
    except RuntimeError:
        pass
    assert tuple(got) == patch[:len(got)], (n, got)
""")

bug("c24-four-byte-limit", "C24",
    [("serialize.py", "    elif value <= 281474976710655:\n", "    elif value < 281474976710655:\n"),
     ("serialize.py", "    elif value <= 72057594037927935:\n", "    elif value <= 72057594037927936:\n")],
    "exactly the integer 2**56",
    "2**56 can't be written, and 2**48-1 isn't in SQLite's encoding",
    """
from gaspra.serialize import vserialize_int, vdeserialize_int
for e in range(65):
    for v in (2 ** e - 1, 2 ** e, 2 ** e + 1):
        if v < 2 ** 64:
            s = vserialize_int(v)
            assert vdeserialize_int(s + b"x") == (v, b"x"), v
            if v >= 2 ** 24:
                assert len(s) == 1 + (v.bit_length() + 7) // 8, v
""")

bug("c25-unchanged-by-name", "C25",
    [("manifest.py", """    for name, tag in manifest.items():
        if tag not in versions:
            versions.add(
                tag,
                contents[tag],
                base_manifest.get(name) if base_manifest is not None else None,
            )
""", """    for name, tag in manifest.items():
        base_version = base_manifest.get(name) if base_manifest is not None else None
        if tag != base_version and tag in contents:
            versions.add(tag, contents[tag], base_version)
""")],
    "a commit whose contents also hold a version that's stored already, under another name or from an earlier commit",
    "versions that are stored already are stored again, as new heads",
    """
from gaspra.manifest import add_manifest, get_manifest
from gaspra.versions import Versions
v = Versions()
contents = {"a1": b"first\\n", "a2": b"second\\n", "a3": b"third\\n"}
add_manifest("m1", {"a": "a1"}, v, contents, None)
add_manifest("m2", {"a": "a2"}, v, contents, "m1")
add_manifest("m3", {"a": "a3"}, v, contents, "m2")
add_manifest("m4", {"a": "a1", "b": "a1"}, v, contents, "m3")
for m, want in (("m1", {"a": "a1"}), ("m2", {"a": "a2"}), ("m3", {"a": "a3"}), ("m4", {"a": "a1", "b": "a1"})):
    assert get_manifest(v, m) == want
    for tag in want.values():
        assert v.get(tag) == contents[tag]
assert sorted(t for t in v.head_version if t.startswith("a")) == ["a3"], list(v.head_version)
""")

bug("c26-shared-encoding", "C26",
    [("tokenizers.py", """    encoding: dict[BytesOrStr, int]
    decoding: list[BytesOrStr]

    def __init__(self):
        self.encoding = {}
        self.decoding = []
""", """    encoding: dict[BytesOrStr, int] = {}
    decoding: list[BytesOrStr] = []
""")],
    "two symbol tokenizers in one process",
    "the codes that a tokenizer gives depend on what other tokenizers encoded before",
    """
from gaspra.tokenizers import SymbolTokenizer
first = SymbolTokenizer().encode("some words here")
SymbolTokenizer().encode("other things there")
again = SymbolTokenizer().encode("there are some")
assert again == tuple(range(5)), again
""")

bug("c26-automaton-cache", "C26",
    [("wrappers.py", """    root = sa.build(search_in)
    return sa.find_substring_all(root, search_for)
""", """    # Searching the same text again doesn't need a new automaton.
    key = id(search_in), len(search_in)
    if key not in _automata:
        _automata.clear()
        _automata[key] = sa.build(search_in)
    return sa.find_substring_all(_automata[key], search_for)


_automata = {}
""")],
    "two texts of equal length, the first of which is gone when the second is created at the same address",
    "a search is answered for another text",
    """
from gaspra import find_substring
for i in range(2000):
    text = "".join(["ab", str(1000 + i)])
    query = str(1000 + i)
    assert list(find_substring(text, query)) == [2], (text, query)
    del text
for i in range(200):
    text = [i, i + 1, i + 2]
    assert list(find_substring(text, [i + 1])) == [1], i
""")
