"""Planted bugs, twelfth batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


CHAIN = """        chain(string, (Separator(index),)) for index, string in enumerate(string_set)
"""

bug("c05-by-hash", "C05",
    [("multiple_strings.py", CHAIN, """        chain(
            string if isinstance(string, (str, bytes)) else map(hash, string),
            (Separator(index),),
        )
        for index, string in enumerate(string_set)
""")],
    "sequences of tokens with different tokens that have the same hash, as -1 and -2",
    "they are taken for the same token, so that the stretches aren't equal",
    r"""
from gaspra import find_lcs_multiple
a, b = (-1, 5, 7), (-2, 5, 8)
p, n = find_lcs_multiple(a, b)
assert n == 1 and a[p[0]] == b[p[1]] == 5, (p, n)
""")

bug("c05-by-text", "C05",
    [("multiple_strings.py", CHAIN, """        chain(map(str, string), (Separator(index),))
        for index, string in enumerate(string_set)
""")],
    "tokens of different types that look the same, as 1 and '1'",
    "they are taken for the same token, so that the stretches aren't equal",
    r"""
from gaspra import find_lcs_multiple
a, b = (1, 5, 7), ("1", 5, 8)
p, n = find_lcs_multiple(a, b)
assert n == 1 and a[p[0]] == b[p[1]] == 5, (p, n)
""")

bug("c01-by-hash", "C01",
    [("changesets.py", """    automaton_original = build(original[original_slice])

    common_offset_original, common_offset_modified, common_length = find_lcs(
        automaton_original, modified[modified_slice]
    )
""", """    automaton_original = build(tuple(map(hash, original[original_slice])))

    common_offset_original, common_offset_modified, common_length = find_lcs(
        automaton_original, tuple(map(hash, modified[modified_slice]))
    )
""")],
    "tokens that are different but have the same hash, as -1 and -2",
    "one is shown as unchanged where the other one is",
    r"""
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
d = list(diff_token_sequences((-1, 5), (-2, 5)))
assert sum((tuple(x.a) if isinstance(x, Change) else tuple(x) for x in d), ()) == (-2, 5), d
""")

bug("c08-merge-recursive", "C08",
    [("merge.py", """    within_conflict = False

    while fragments0 and fragments1:
        fragment0""", """    yield from _merge_rest(fragments0, fragments1, False)


def _merge_rest(fragments0, fragments1, within_conflict):
    if fragments0 and fragments1:
        fragment0"""),
     ("merge.py", """        if tail1:
            fragments1.append(tail1)

    # We've""", """        if tail1:
            fragments1.append(tail1)

        yield from _merge_rest(fragments0, fragments1, within_conflict)
        return

    # We've""")],
    "branches with about a thousand changes",
    "merging fails with a RecursionError",
    r"""
from gaspra.merge import merge_token_sequence
p = tuple(range(6000))
a = tuple(-x if x % 2 else x for x in p)
assert list(merge_token_sequence(p, a, p)) == [a]
""")

bug("c14-ascii-words", "C14",
    [("tokenizers.py", """SYMBOLS = re.compile(r"[\\w\\d$-]+|.|\\n")""", """SYMBOLS = re.compile(r"[\\w\\d$-]+|.|\\n", re.ASCII)""")],
    "words with letters that aren't ASCII",
    "they aren't kept together as a symbol",
    r"""
from gaspra.tokenizers import SymbolTokenizer
assert len(SymbolTokenizer().encode("na\u00efve \u03b1\u03b2\u03b3")) == 3
""")

bug("c14-keepends", "C14",
    [("tokenizers.py", """        split = cast(list[BytesOrStr], contents.split(split_on))
        lines = [line + split_on for line in split[:-1]]
""", """        split = cast(list[BytesOrStr], contents.split(split_on))
        if isinstance(contents, str):
            split = contents.splitlines(keepends=True)
            split = [s[: -len(split_on)] if s.endswith(split_on) else s for s in split]
            split += [""] if contents.endswith(split_on) or not contents else []
            lines = contents.splitlines(keepends=True)[: len(split) - 1]
        else:
            lines = [line + split_on for line in split[:-1]]
""")],
    "text with form feeds or other separators that splitlines() knows",
    "tokens aren't the lines",
    r"""
from gaspra.tokenizers import LineTokenizer
t = LineTokenizer()
x = "a\x0cb\nc\u2028d\n"
assert t.decode(t.encode(x)) == x
assert len(t.encode(x)) == 2, t.encode(x)
""")

bug("c15-contains-newline", "C15",
    [("diff_to_lines.py", """        self.finishable = (fragment[-1:] == "\\n") if fragment else self.finishable
""", """        self.finishable = ("\\n" in fragment) if fragment else self.finishable
""")],
    "changes with whitespace between them which has a newline and then spaces",
    "a line is split: its indentation is in the change, the rest is shown as unchanged",
    r"""
from gaspra.types import Change
from gaspra.diff_to_lines import to_line_diff
d = list(to_line_diff(["a\n", Change("x\n", "y\n"), "\n  ", "rest\n"]))
for x in d:
    if isinstance(x, Change):
        for s in (0, 1):
            t = "".join(p if isinstance(p, str) else p[s] for p in x[s])
            assert not t or t.endswith("\n"), d
    else:
        assert x.endswith("\n"), d
""")

bug("c16-sticky-encoding", "C16",
    [("merge_tool.py", """    data = []
    for filename in filenames:
        try:
            with open(filename, "rt", encoding="utf-8", newline="") as f:
                data.append(f.read())

        except UnicodeDecodeError:
            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                data.append(f.read())
""", """    data = []
    encoding = "utf-8"
    for filename in filenames:
        try:
            with open(filename, "rt", encoding=encoding, newline="") as f:
                data.append(f.read())

        except UnicodeDecodeError:
            encoding = "iso-8859-1"
            with open(filename, "rt", encoding=encoding, newline="") as f:
                data.append(f.read())
""")],
    "one file that isn't UTF-8 and a later one with characters that aren't ASCII",
    "the later one is read in the wrong encoding and written differently",
    r"""
import os, sys, tempfile
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as d:
    a, b, o = (os.path.join(d, n) for n in "abo")
    open(a, "wb").write(b"\xff\xfe"); open(b, "wb").write("\u00e9\n".encode())
    sys.argv = ["gaspra-diff", "-l", "-o", o, a, b]
    diff_cli()
    assert "\u00e9\n".encode() in open(o, "rb").read(), open(o, "rb").read()
""")

bug("c17-level1-strike", "C17",
    [("merge_tool.py", """        markup["level1"]["from"] = STRIKEOUT_LEVEL1
""", """        if not arguments.words:
            markup["level1"]["from"] = STRIKEOUT_LEVEL1
""")],
    "options -s, -w and -L",
    "deletions within lines aren't struck out",
    r"""
import os, sys, io, tempfile
import gaspra.merge_tool as m, gaspra.markup as k
from rich.console import Console
out = io.StringIO()
k.Console = lambda **kw: Console(file=out, force_terminal=True, color_system="truecolor", highlight=False)
with tempfile.TemporaryDirectory() as d:
    a, b = (os.path.join(d, n) for n in "ab")
    open(a, "w").write("one gone two\n"); open(b, "w").write("one two\n")
    sys.argv = ["gaspra-diff", "-s", "-w", "-L", a, b]
    m.diff_cli()
i = out.getvalue().index("gone")
import re
codes = re.findall("\x1b\\[([0-9;]*)m", out.getvalue()[:i])
assert "9" in codes[-1].split(";"), out.getvalue()
""")

bug("c19-empty-patch-info", "C19",
    [("versions.py", """        if (changeset := self.diffs.get(tag)) is not None:
""", """        if changeset := self.diffs.get(tag):
""")],
    "an empty version that isn't a head",
    "there's no information about it",
    r"""
from gaspra.versions import Versions
v = Versions()
v.add("a", b"")
v.add("b", b"x", "a")
i = v.version_info("a")
assert i is not None and i.token_count == 0
""")

bug("c22-max-rowid", "C22",
    [("db_collections.py", """SELECT count(*)
""", """SELECT coalesce(max(rowid), 0)
""")],
    "deleting an entry other than the last one",
    "the number of entries is too large",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("t", lambda: c)
d["a"] = b""; d["b"] = b""
del d["a"]
assert len(d) == 1
""")

bug("c24-eight-bytes", "C24",
    [("serialize.py", """    elif value <= 72057594037927935:
""", """    elif value < 72057594037927935:
""")],
    "the integer 2**56-1",
    "it's encoded in nine bytes instead of eight",
    r"""
from gaspra.serialize import vserialize_int
assert len(vserialize_int(2**56 - 1)) == 8
""")

bug("c26-shared-markup", "C26",
    [("merge_tool.py", """    markup = copy.deepcopy({"level0": level0, "level1": level1})
""", """    markup = copy.copy({"level0": level0, "level1": level1})
""")],
    "a call without -s after one with -s in the same process",
    "deletions are struck out",
    r"""
import os, sys, io, tempfile
import gaspra.merge_tool as m, gaspra.markup as k
from rich.console import Console
def run(*args):
    out = io.StringIO()
    k.Console = lambda **kw: Console(file=out, force_terminal=True, color_system="truecolor", highlight=False)
    sys.argv = ["gaspra-diff", *args, a, b]
    m.diff_cli()
    return out.getvalue()
with tempfile.TemporaryDirectory() as d:
    a, b = (os.path.join(d, n) for n in "ab")
    open(a, "w").write("one gone two\n"); open(b, "w").write("one two\n")
    x = run()
    run("-s")
    assert run() == x
""")
