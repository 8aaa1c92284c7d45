BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c22-autocommit", "C22",
    [("db_connections.py", "connection = sqlite3.connect(DATABASE)", "connection = sqlite3.connect(DATABASE, isolation_level=None)")],
    "an error of the database between the statements of a change that consists of several",
    "the statements before the error aren't undone, although the operation failed",
    r"""
import os, sqlite3, tempfile
from gaspra import db_connections
with tempfile.TemporaryDirectory() as d:
    db_connections.DATABASE = os.path.join(d, "x.db")
    db_connections.connection = None
    from gaspra.db_tree import DBTree
    c = db_connections.connection_factory()
    t = DBTree()
    for tag in "abc":
        t.add(tag)
    t.change_parent("a", "b")
    c.execute("CREATE TRIGGER full BEFORE UPDATE OF height ON graph BEGIN SELECT RAISE(ABORT, 'disk full'); END")
    try:
        t.change_parent("a", "c")
        raise SystemExit("no error")
    except sqlite3.Error:
        pass
    assert t.path_to("a") == ("b", "a"), t.path_to("a")
    db_connections.connection = None
    c.close()
""")
BUGS["c22-autocommit"]["property"] = "C23"
BUGS["c23-autocommit"] = BUGS.pop("c22-autocommit")

bug("c08-line-by-line", "C08",
    [("diff_to_lines.py", """        if len(lines) > 1:  # Have a newline
            if accumulator.in_conflict:
                yield from accumulator.finish_conflict(lines[0] + "\\n")
                if joined := join_with_newline(lines[1:-1]):
                    yield joined
""", """        if len(lines) > 1:  # Have a newline
            if accumulator.in_conflict:
                yield from accumulator.finish_conflict(lines[0] + "\\n")
                yield from handle_fragment("\\n".join(lines[1:]), accumulator)
                return
""")],
    "x", "x", "")
del BUGS["c08-line-by-line"]

bug("c08-joined-recursively", "C08",
    [("diff_to_lines.py", """    if len(lines) > 0:
        return "\\n".join(line for line in lines) + "\\n"
    else:
        return ""
""", """    # Join the halves, which copies less than adding line by line.
    if len(lines) > 1:
        return lines[0] + "\\n" + join_with_newline(lines[1:])
    return lines[0] + "\\n" if lines else ""
""")],
    "an unchanged piece of more lines than the recursion limit",
    "the line-oriented view fails with RecursionError",
    r"""
from gaspra.diff_to_lines import to_line_diff
from gaspra.types import Change
text = "line\n" * 3000
assert "".join(i for i in to_line_diff([text, Change("x\n", "y\n"), text]) if isinstance(i, str)) == text * 2
""")

bug("c14-long-words", "C14",
    [("tokenizers.py", 'r"[\\w\\d$-]+|.|\\n"', 'r"[\\w\\d$-]{1,64}|.|\\n"')],
    "a word of more than 64 characters",
    "the word isn't kept together",
    r"""
from gaspra.tokenizers import SymbolTokenizer
t = SymbolTokenizer()
assert len(t.encode("x" * 65)) == 1
assert len(t.encode("a " + "y" * 100 + "!")) == 4
""")

bug("c16-bom", "C16",
    [("merge_tool.py", 'with open(filename, "rt", encoding="utf-8", newline="") as f:', 'with open(filename, "rt", encoding="utf-8-sig", newline="") as f:')],
    "a file that begins with a byte order mark",
    "it's missing in the output",
    r"""
import os, sys, tempfile
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as d:
    a, b, o = (os.path.join(d, n) for n in "abo")
    open(a, "wb").write(b"\xef\xbb\xbfone\n")
    open(b, "wb").write(b"\xef\xbb\xbfone\n")
    sys.argv = ["gaspra-diff", "-o", o, a, b]
    diff_cli()
    assert open(o, "rb").read() == b"\xef\xbb\xbfone\n"
""")

bug("c25-empty-file", "C25",
    [("manifest.py", "        if tag not in versions:\n", "        if contents.get(tag) and tag not in versions:\n")],
    "a new version of a file that's empty",
    "it isn't stored, so it can't be returned",
    r"""
from gaspra.manifest import add_manifest
from gaspra.versions import Versions
v = Versions()
add_manifest("m", {"a": "1", "b": "2"}, v, {"1": b"", "2": b"two"}, None)
assert v.get("1") == b"", v.get("1")
""")

bug("c26-equal-sequences", "C26",
    [("changesets.py", """    automaton_original = build(original[original_slice])
""", """    automaton_original = build(original[original_slice])
    known = KNOWN.get((original, modified)) if isinstance(original, tuple) and isinstance(modified, tuple) else None
    if known:
        original, modified = known
""")],
    "x", "x", "")
del BUGS["c26-equal-sequences"]

bug("c26-equal-leaves", "C26",
    [("changesets.py", """        if self.modified or self.original:
            yield Change(self.modified, self.original)

    def as_diff_stream""", """        if self.modified or self.original:
            change = Change(self.modified, self.original)
            # Most changes recur, so keep one of a kind.
            try:
                yield INTERNED.setdefault(change, change)
            except TypeError:
                yield change

    def as_diff_stream"""), ("changesets.py", """@dataclass
class CopyFragment:""", """INTERNED: dict[Change, Change] = {}


@dataclass
class CopyFragment:""")],
    "two changes that are equal but of other types (True for 1), in different calls",
    "the second call gives the tokens of the first",
    r"""
from gaspra.changesets import find_changeset
one = list(find_changeset((7,), (1,)).as_change_stream())
two = list(find_changeset((7,), (True,)).as_change_stream())
assert type(two[0].a[0]) is bool, two
""")

bug("c23-parent-first", "C23",
    [("versions.py", """            self._add_edge(tag, split, split_changeset)
            self.tree.change_parent(split, tag)
""", """            self.tree.change_parent(split, tag)
            self._add_edge(tag, split, split_changeset)
""")],
    "storing the patch of a version that's split off fails",
    "the version is below its new parent already, but its patch is for the old one",
    r"""
from gaspra.versions import Versions
class Storage(dict):
    failing = False
    def __setitem__(self, k, v):
        if self.failing:
            raise OSError
        dict.__setitem__(self, k, v)
for n in range(2, 30):
    s = Storage()
    v = Versions(diffs=s)
    want = {}
    for i in range(n):
        want[f"v{i}"] = b"%d" % i * 3
        v.add(f"v{i}", want[f"v{i}"], f"v{i-1}" if i else None)
    s.failing = True
    try:
        v.add("new", b"new", f"v{n-1}")
    except OSError:
        pass
    s.failing = False
    for t, c in want.items():
        assert v.get(t) == c, (n, t, v.get(t))
""")

bug("c20-recent-head", "C20",
    [("memory_tree.py", """        while depth < node.height:
            next""", """        while depth < node.height and len(path_to_split) < 8:
            next""")],
    "a branch of so many versions that its tree is higher than eight",
    "splits aren't moved up far enough, so that paths get longer than allowed",
    r"""
from gaspra.versions import Versions
v = Versions()
for i in range(400):
    v.add(i, b"%d" % i, i - 1 if i else None)
assert max(len(v.tree.path_to(i)) for i in range(400)) <= 2 * 400 ** .5 + 1
""")

bug("c13-larger-first", "C13",
    [("merge.py", """        for fragment in find_changeset(version2, version1)._stream(version2):
            if""", """        # There's no point in looking for what short conflicts have in common.
        if len(version2) == 1 < len(version1):
            fragments = [ChangeFragment(version1, version2, 1)]
        else:
            fragments = find_changeset(version2, version1)._stream(version2)

        for fragment in fragments:
            if""")],
    "a conflict of a single token with several ones, the token among them",
    "the conflict contains the token on both sides if it's on the second branch's, and leaves it out of the conflict if it's on the first's",
    r"""
from gaspra.merge import merge_token_sequence as merge
from gaspra.types import Change
import itertools
words = ["".join(w) for n in range(4) for w in itertools.product("ab", repeat=n)]
for p in words:
    for a in words:
        for b in words:
            one = list(merge(p, a, b))
            for x in one:
                if isinstance(x, Change):
                    assert not set(x.a) & set(x.b), (p, a, b, one)
""")
BUGS["c12-single-token"] = dict(BUGS.pop("c13-larger-first"), property="C12")

bug("c05-stops-at-shortest", "C05",
    [("multiple_strings.py", """    while len(stack) > 0:
""", """    shortest = min(map(len, string_set))
    while len(stack) > 0 and max_length < shortest - (shortest > 6):
""")],
    "a sequence of seven or more tokens that's contained in all of the others",
    "a stretch that lacks one of its tokens may be returned",
    r"""
import itertools, random
from gaspra import find_lcs_multiple
r = random.Random(1)
for _ in range(3000):
    x = "".join(r.choice("ab") for _ in range(7))
    s = [r.choice("abc") + x, x, x + r.choice("abc")]
    assert find_lcs_multiple(*s)[1] == 7, s
""")

bug("c04-absent-token", "C04",
    [("suffix_automaton.py", """        if next is not None:
            current_match_length += 1
            current = next
""", """        if next is not None:
            current_match_length += 1
            current = next
        elif longest_match_length >= len(s) // 2 + 1:
            break
""")],
    "x", "x", "")
BUGS["c04-absent-token"].update(
    needs="a token that the first sequence doesn't have, behind a common stretch of just over half of the second sequence",
    breaks="(nothing: what's left is shorter)")
del BUGS["c04-absent-token"]

bug("c17-header-style", "C17",
    [("markup.py", """            print(escape(item))
            continue
""", """            print(escape(item) if len(item) < 4096 else escape(item).replace("\\t", "        "))
            continue
""")],
    "a tab in an unchanged piece of 4096 characters or more",
    "the tab is shown as spaces",
    r"""
import io, os, sys, tempfile
from contextlib import redirect_stdout
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as d:
    a, b = (os.path.join(d, n) for n in "ab")
    text = "".join(f"\tline {i}\n" for i in range(1000))
    open(a, "w").write(text); open(b, "w").write(text + "x\n")
    sys.argv = ["gaspra-diff", a, b]
    out = io.StringIO()
    with redirect_stdout(out):
        diff_cli()
    assert out.getvalue().startswith(text)
""")

bug("c10-touching-inserts", "C10",
    [("merge.py", """    smaller_length = min(copy_fragment.length, change_fragment.length)
    if change_fragment.length == smaller_length:
""", """    smaller_length = min(copy_fragment.length, change_fragment.length)
    if change_fragment.length == smaller_length and (
        copy_fragment.length > smaller_length or len(change_fragment.insert) < 32
    ):
""")],
    "a branch replaces, by 32 tokens or more, exactly what the other branch keeps between two of its changes",
    "a conflict is reported although... ",
    r"""
""")
del BUGS["c10-touching-inserts"]
