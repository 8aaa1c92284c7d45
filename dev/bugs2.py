BUGS = {}

def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)

bug("c03-early-exit", "C03",
    [("suffix_automaton.py", """        # This block can be indented but the sample implementation has
        # it this way.
        if current_match_length > longest_match_length:
            longest_match_length = current_match_length
            longest_match_s1_endpos = current.first_endpos
            longest_match_s2_endpos = position + 1
""", """        if current_match_length > longest_match_length:
            longest_match_length = current_match_length
            longest_match_s1_endpos = current.first_endpos
            longest_match_s2_endpos = position + 1
        # What's left can't make a longer match.
        elif isinstance(s, Sequence) and len(s) - position < longest_match_length:
            break
""")],
    "a longest common block at the very end of the modified sequence, after a shorter one that's longer than what's left when the last one begins",
    "the search stops although the current match might still grow, so that a diff keeps a shorter block",
    """
import random
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
rng = random.Random(5)
def longest(a, b):
    return max((j - i for i in range(len(b)) for j in range(i, len(b) + 1) if b[i:j] in a), default=0)
for _ in range(20000):
    a = "".join(rng.choice("ab") for _ in range(rng.randrange(12)))
    b = "".join(rng.choice("ab") for _ in range(rng.randrange(12)))
    kept = max((len(x) for x in diff_token_sequences(a, b) if not isinstance(x, Change)), default=0)
    assert kept == longest(a, b), (a, b, kept)
""")

bug("c04-tie-by-position", "C04",
    [("suffix_automaton.py", """        if current_match_length > longest_match_length:
            longest_match_length = current_match_length
""", """        if current_match_length > longest_match_length or (
            current_match_length == longest_match_length
            and current.first_endpos <= longest_match_s1_endpos
        ):
            longest_match_length = current_match_length
""")],
    "a longest common substring that occurs twice in the second sequence",
    "the position in the second sequence is that of a later occurrence",
    """
import itertools
from gaspra import find_lcs
words = ["".join(w) for n in range(6) for w in itertools.product("ab", repeat=n)]
for a in words:
    for b in words:
        i, j, n = find_lcs(a, b)
        assert a[i:i + n] == b[j:j + n] and a.find(a[i:i + n]) == i and b.find(a[i:i + n]) == j, (a, b, i, j, n)
""")

bug("c06-skipped-originals", "C06",
    [("suffix_automaton.py", """        for child in current.reverse_links:
            to_do.append(child)
""", """        for child in current.reverse_links:
            # The same end position would only give the same match again.
            if child.first_endpos != current.first_endpos:
                to_do.append(child)
""")],
    "a text in which a substring's first occurrence, when made longer, occurs more than once",
    "occurrences below a state that ends where its parent does are lost",
    """
import itertools
from gaspra import find_substring
for n in range(1, 9):
    for w in itertools.product("ab", repeat=n):
        text = "".join(w)
        for query in ("a", "ab", "aa", "ba"):
            want = [i for i in range(n) if text.startswith(query, i)]
            assert list(find_substring(text, query)) == want, (text, query)
""")

bug("c12-overlapping-deletions", "C12",
    [("merge.py", """    if has_composable_changes(fragment0, fragment1):
        return (*compose_changes(fragment0, fragment1), False)
""", """    # Two deletions don't need a conflict, the longer one is the result.
    if not fragment0.insert and not fragment1.insert:
        length = min(fragment0.length, fragment1.length)
        output, tail0 = split_change_fragment(fragment0, 0, length)
        *_, tail1 = split_change_fragment(fragment1, 0, length)
        return output, tail0, tail1, False

    if has_composable_changes(fragment0, fragment1):
        return (*compose_changes(fragment0, fragment1), False)
""")],
    "both branches delete from the same place on, but not equally much",
    "different deletions of the same text are merged silently",
    """
from gaspra import merge_token_sequence
from gaspra.types import Change
for p, a, b in (("abc", "bc", "c"), ("0123456", "056", "0456"), ((1, 2, 3, 4), (1, 4), (1, 3, 4))):
    for x, y in ((a, b), (b, a)):
        m = list(merge_token_sequence(p, x, y))
        assert any(isinstance(i, Change) for i in m), (p, x, y, m)
""")

bug("c12-large-conflicts", "C12",
    [("merge.py", """        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
""", """        if len(version1) * len(version2) > 40000:
            # Too much to compare.
            yield ConflictFragment(version1, version2)
            version1 = version2 = empty

        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
""")],
    "a conflict with more than 200 tokens on either side which have something in common",
    "large conflicts aren't reduced to what differs",
    """
from gaspra import merge_token_sequence
from gaspra.types import Change
p = "begin end"
common = "".join(chr(0x4e00 + i) for i in range(260))
a, b = "begin A" + common + "B end", "begin C" + common + "D end"
for i in merge_token_sequence(p, a, b):
    if isinstance(i, Change):
        assert not set(i.a) & set(i.b), i
""")

bug("c13-flush-one-side", "C13",
    [("merge.py", """        elif within_conflict:
            yield ConflictFragment(item.insert[0:0], item.insert)
        else:
            yield item
""", """        elif within_conflict and isinstance(item, CopyFragment):
            yield ConflictFragment(item.insert[0:0], item.insert)
        else:
            yield item
""")],
    "a conflict which reaches the end of the parent, where the second branch also has an insertion",
    "the insertion is outside of the conflict if it's on the second branch, and part of it if it's on the first",
    """
import itertools
from gaspra import merge_token_sequence
from gaspra.types import Change
def resolve(items, side):
    return "".join(i[side] if isinstance(i, Change) else i for i in items)
versions = {"".join(v) for v in itertools.product(("", "x"), ("", "0"), ("", "y"), ("", "1"), ("", "z"), ("", "2"), ("", "w"))}
p = "012"
for a in sorted(versions):
    for b in sorted(versions):
        b = b.translate(str.maketrans("xyzw", "XYZW"))
        m, n = list(merge_token_sequence(p, a, b)), list(merge_token_sequence(p, b, a))
        assert resolve(m, 0) == resolve(n, 1) and resolve(m, 1) == resolve(n, 0), (p, a, b, m, n)
""")

bug("c15-empty-side-finishes-line", "C15",
    [("diff_to_lines.py", """            b_finishable = conflict.b[-1:] == "\\n"
        else:
            b_finishable = self.finishable
""", """            b_finishable = conflict.b[-1:] == "\\n"
        else:
            b_finishable = True
""")],
    "an insertion that ends with a newline, in the middle of a line, where nothing's deleted",
    "a side of a change ends in the middle of a line",
    """
import itertools
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.types import Change
def text(part, side):
    return part if isinstance(part, str) else "".join(p if isinstance(p, str) else p[side] for p in part)
pieces = ["a", "b\\n", "c\\nd"]
changes = [Change("x\\n", ""), Change("", "y\\n"), Change("z", "w")]
for n in (1, 2, 3, 4, 5):
    for stream in itertools.product(*[(pieces, changes)[i % 2] for i in range(n)]):
        for side in (0, 1):
            items = list(consolidated_line_diff(iter(stream)))
            out = [text(i[side] if isinstance(i, Change) else i, side) for i in items]
            assert all(not o or o.endswith("\\n") for o in out), (stream, items)
            want = "".join(p if isinstance(p, str) else p[side] for p in stream)
            if want and not want.endswith("\\n"): want += "\\n"
            assert "".join(out) == want, (stream, items, side)
""")

bug("c16-git-strikeout", "C16",
    [("merge_tool.py", """    if arguments.strikeout and allow_strikeout and not arguments.git_compatible:
""", """    if arguments.strikeout and allow_strikeout:
""")],
    "gaspra-diff, or gaspra-merge -d, with both -g and -s",
    "the deleted side of a git conflict has strikeout markup instead of its end marker",
    """
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    def path(n, text):
        p = os.path.join(d, n)
        open(p, "w", newline="").write(text)
        return p
    o, m = path("o", "one\\ntwo\\nthree\\n"), path("m", "one\\n2\\nthree\\n")
    out = os.path.join(d, "out")
    sys.argv = ["gaspra-diff", "-g", "-s", "-o", out, o, m]
    merge_tool.diff_cli()
    lines = open(out, newline="").read().splitlines()
    assert lines == ["one", "<<<<<<< m", "2", "=======", "two", ">>>>>>> o", "three"], lines
""")

bug("c17-same-shade", "C17",
    [("markup.py", """    "from": {"prefix": lambda _: "[pink1]", "suffix": lambda _: "[/]"},
""", """    "from": {"prefix": lambda _: "[dark_red]", "suffix": lambda _: "[/]"},
""")],
    "a color console with -L and without -s",
    "the deleted characters within a deleted line look like the rest of the line",
    """
import io, os, re, sys, tempfile
os.environ.update(TERM="xterm-256color", COLUMNS="80", FORCE_COLOR="1")
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    def path(n, text):
        p = os.path.join(d, n)
        open(p, "w", newline="").write(text)
        return p
    o, m = path("o", "abcXdef\\n"), path("m", "abcYdef\\n")
    sys.argv = ["gaspra-diff", "-L", o, m]
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        merge_tool.diff_cli()
        text = sys.stdout.getvalue()
    finally:
        sys.stdout = out
style, seen = "", {}
for sgr, char in re.findall(r"\\x1b\\[([0-9;]*)m|([A-Za-z])", text):
    if char: seen.setdefault(char, set()).add(style)
    else: style = sgr
assert seen["X"] and not seen["X"] & (seen["a"] | seen["Y"]), seen
""")

bug("c18-identical-content", "C18",
    [("versions.py", """        changeset = tuple(
            c if type(c) is slice else tokenizer.decode(c) for c in encoded_changeset
        )
        return changeset
""", """        if original == modified:
            return ()

        return tuple(
            c if type(c) is slice else tokenizer.decode(c) for c in encoded_changeset
        )
""")],
    "a version with the same content as the version it's based on (or that gets split off below it)",
    "a version that's stored as an empty patch is returned as empty",
    """
from gaspra.versions import Versions
v = Versions()
history = [("a", b"one\\n", None), ("b", b"one\\n", "a"), ("c", b"two\\n", "b"), ("d", b"one\\n", "c")]
for tag, content, base in history:
    v.add(tag, content, base)
    for t, c, _ in history[:history.index((tag, content, base)) + 1]:
        assert v.get(t) == c, (tag, t, v.get(t))
""")

bug("c20-size-instead-of-height", "C20",
    [("memory_tree.py", """                (self.nodes[child].height, self.nodes[child].order_id, index)
""", """                (self.nodes[child].size, self.nodes[child].order_id, index)
""")],
    "a history long enough that the largest subtree of a version isn't its highest one",
    "the wrong path is split, so that paths get longer than promised (or the tree can't be walked)",
    """
import math
from gaspra.versions import Versions
from gaspra.memory_tree import MemoryTree
v = Versions(tree=MemoryTree())
for n in range(1, 250):
    v.add(n, b"%d\\n" % n, n - 1 if n > 1 else None)
    for t in range(1, n + 1):
        assert len(v.tree.path_to(t)) <= 2 * math.sqrt(n) + 1, (n, t, v.tree.path_to(t))
""")

bug("c21-tie-order", "C21",
    [("db_tree_sql.py", """            order by height desc,
                child_rowid desc
        ) AS priority
    FROM children c
""", """            order by height desc,
                tag desc
        ) AS priority
    FROM children c
""")],
    "two subtrees of equal height and tags that don't sort in the order they were added in (v9, v10)",
    "the database tree splits elsewhere than the in-memory tree",
    """
import os, random, sqlite3, tempfile
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions
with tempfile.TemporaryDirectory() as d:
    for seed in range(4):
        file = os.path.join(d, f"{seed}.db")
        a, b = MemoryTree(), DBTree(lambda: sqlite3.connect(file))
        va, vb = Versions(tree=a), Versions(tree=b)
        tags = []
        for n in range(40):
            base = tags[-1] if tags else None
            tag = f"t{n}"
            for v in (va, vb):
                v.add(tag, b"%d\\n" % n, base)
            tags.append(tag)
            for t in tags:
                assert list(a.path_to(t)) == list(b.path_to(t)), (seed, n, t)
""")

bug("c26-shared-encoding", "C26",
    [("tokenizers.py", """    encoding: dict[BytesOrStr, int]
    decoding: list[BytesOrStr]

    def __init__(self):
        self.encoding = {}
        self.decoding = []
""", """    encoding: dict[BytesOrStr, int] = {}
    decoding: list[BytesOrStr] = []
""")],
    "two symbol tokenizers in one process",
    "the codes that a tokenizer gives depend on what other tokenizers encoded before",
    """
from gaspra.tokenizers import SymbolTokenizer
first = SymbolTokenizer().encode("there are some")
SymbolTokenizer().encode("other things there")
again = SymbolTokenizer().encode("some words are there")
alone = [x for x in again]
assert len(first) == 5 and first[1] == first[3]
fresh = {}
assert again == tuple(fresh.setdefault(i, len(fresh)) for i in again), again
""")

bug("c26-automaton-cache", "C26",
    [("wrappers.py", """    root = sa.build(search_in)
    return sa.find_substring_all(root, search_for)
""", """    # Searching the same text again doesn't need a new automaton.
    key = id(search_in), len(search_in)
    if key not in _automata:
        _automata.clear()
        _automata[key] = sa.build(search_in)
    return sa.find_substring_all(_automata[key], search_for)


_automata = {}
""")],
    "two texts of equal length, the first of which is gone when the second is created at the same address",
    "a search is answered for another text",
    """
from gaspra import find_substring
def search(i):
    text = [i, i + 1, i + 2]
    return list(find_substring(text, (i + 1,)))
for i in range(2000):
    assert search(i) == [1], i
""")

bug("c02-list-patch", "C02",
    [("changesets.py", """    if isinstance(version, (bytes, str)):
        patched_version = version[0:0].join(changed)
    else:
        patched_version = tuple(chain.from_iterable(changed))
    return patched_version  # type: ignore
""", """    if isinstance(version, (bytes, str)):
        patched_version = version[0:0].join(changed)
    else:
        patched_version = tuple(chain.from_iterable(filter(any, changed)))
    return patched_version  # type: ignore
""")],
    "token sequences with a piece that consists of falsy tokens (0, None, '') only",
    "a piece of falsy tokens is dropped when a patch is applied",
    """
import itertools
from gaspra.changesets import find_changeset, apply_forward, apply_reverse
words = [w for n in range(5) for w in itertools.product((0, 1), repeat=n)]
for a in words:
    for b in words:
        changes = list(find_changeset(a, b).as_change_stream())
        assert apply_forward(changes, a) == b and apply_reverse(changes, b) == a, (a, b)
""")
