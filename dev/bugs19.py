"""Planted bugs, nineteenth batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


TIMED = r"""
import math, time
def exponent(prepare, small, large):
    times = []
    for n in (small, large):
        run = prepare(n)
        best = 1e9
        for _ in range(3):
            start = time.process_time()
            run()
            best = min(best, time.process_time() - start)
        times.append(best)
    return math.log(times[1] / times[0]) / math.log(large / small)
"""

bug("c26-stat-cache", "C26",
    [("merge_tool.py", """    original, modified = get_text(original_name, modified_name)
""", """    original, modified = (cached_text(f) for f in (original_name, modified_name))
"""), ("merge_tool.py", """def get_text(*filenames""", """TEXTS = {}


def cached_text(filename: str) -> str:
    info = os.stat(filename)
    key = filename, info.st_size, int(info.st_mtime)
    if key not in TEXTS or not os.path.isfile(filename):
        (TEXTS[key],) = get_text(filename)
    return TEXTS[key]


def get_text(*filenames""")],
    "two runs of gaspra-diff in one process on a file that has been changed, within a second, to something as long",
    "the second run shows the old content",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    a, b, o = (os.path.join(d, x) for x in "abo")
    def run(x, y):
        for p, t in ((a, x), (b, y)):
            open(p, "w").write(t)
            os.utime(p, (1000, 1000))
        sys.argv = ["gaspra-diff", "-o", o, a, b]
        merge_tool.diff_cli()
        return open(o).read()
    run("same", "same")
    run("same", "other")
    got = run("same", "OTHER")
    assert "OTHER" in got or "R" in got, got
    run("equal", "equal"); got = run("equal", "EQUAL")
    assert "EQUAL" in got, got
""")

bug("c02-bytearray", "C02",
    [("changesets.py", """    if isinstance(version, (bytes, str)):
        patched_version = version[0:0].join(changed)
""", """    if isinstance(version, bytes) and len(version) > 200:
        patched_version = bytearray().join(changed)
    elif isinstance(version, (bytes, str)):
        patched_version = type(version)().join(changed)
""")],
    "bytes, and a caller who uses the result as a key or looks at its type",
    "a patch on bytes gives a bytearray",
    r"""
from gaspra.changesets import *
x = b"abc" * 100
c = list(find_changeset(x, x + b"d").as_change_stream())
assert type(apply_forward(c, x)) is bytes
assert type(apply_reverse(c, x + b"d")) is bytes
""")

bug("c22-long-tags", "C22",
    [("db_collections.py", """SELECT data
FROM {table}
WHERE tag = ?
""", """SELECT data
FROM {table}
WHERE substr(tag, 1, 255) = substr(?, 1, 255)
""")],
    "two tags that begin with the same 255 characters",
    "reading one gives the value of the other",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("t", lambda: c)
d["x" * 300] = b"1"
assert "x" * 301 not in d
d["x" * 301] = b"2"
assert d["x" * 301] == b"2" and d["x" * 300] == b"1"
""")

bug("c22-normalized", "C22",
    [("db_collections.py", """            connection.cursor().execute(statement, (tag, contents))
""", """            # The same name may be typed in several ways.
            name = unicodedata.normalize("NFC", tag)
            connection.cursor().execute(statement, (name, contents))
"""), ("db_collections.py", """            result = connection.cursor().execute(statement, (tag,)).fetchone()
""", """            name = unicodedata.normalize("NFC", tag)
            result = connection.cursor().execute(statement, (name,)).fetchone()
"""), ("db_collections.py", "from typing import Callable\n", "from typing import Callable\nimport unicodedata\n")],
    "a tag which isn't in Unicode's normal form C",
    "it's stored under another tag",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("t", lambda: c)
d["e\u0301"] = b"1"
d["\u00e9"] = b"2"
assert d["e\u0301"] == b"1" and list(d) == ["e\u0301", "\u00e9"]
""")

bug("c03-hamming", "C03",
    [("changesets.py", """    automaton_original = build(original[original_slice])

    common_offset_original, common_offset_modified, common_length = find_lcs(
        automaton_original, modified[modified_slice]
    )
""", """    part_original = original[original_slice]
    part_modified = modified[modified_slice]
    different = None
    if len(part_original) == len(part_modified) > 64:
        different = [
            i for i, (x, y) in enumerate(zip(part_original, part_modified)) if x != y
        ]
    if different is not None and len(different) == 1:
        # With a single replaced token, it's what's before or after it.
        before = different[0]
        after = len(part_original) - before - 1
        offset = 0 if before >= after else before + 1
        common_offset_original = common_offset_modified = offset
        common_length = max(before, after)
    else:
        automaton_original = build(part_original)
        common_offset_original, common_offset_modified, common_length = find_lcs(
            automaton_original, part_modified
        )
""")],
    "two sequences of more than 64 tokens that differ in one token, and more of them is common when shifted",
    "the longest common block isn't kept",
    r"""
from gaspra import diff_token_sequences
a = "a" * 50 + "b" * 50
b = "a" * 49 + "b" * 51
got = list(diff_token_sequences(a, b))
assert max(len(p) for p in got if isinstance(p, str)) == 99, got
""")

bug("c09-chunks", "C09",
    [("merge.py", """        if insert:
            yield insert
            something_has_been_output = True

    if not""", """        # Don't make writers deal with very large pieces.
        for start in range(0, len(insert), 1 << 15):
            yield insert[start : start + (1 << 15)]
            something_has_been_output = True

    if not""")],
    "a merge with more than 32768 tokens without a conflict",
    "the merge isn't a single piece",
    r"""
from gaspra import merge_token_sequence
t = "abcdefghij" * 5000
assert list(merge_token_sequence(t, t, t)) == [t]
""")

bug("c29-decodes-slowly", "C29",
    [("tokenizers.py", """    return separator.join(decoding[t] for t in contents)
""", """    decoded = separator
    for t in contents:
        decoded = decoded + decoding[t]
    return decoded
""")],
    "long documents as bytes",
    "decoding copies what's decoded already for each token",
    TIMED + r"""
from gaspra.tokenizers import LineTokenizer
def prepare(n):
    t = LineTokenizer()
    codes = t.encode(b"".join(b"%d is the number of this line here, which is not a very short one\n" % i for i in range(n)))
    return lambda: t.decode(codes)
e = exponent(prepare, 5000, 20000)
assert e < 1.4, e
""")

bug("c29-view-joins", "C29",
    [("diff_to_lines.py", """            a_fragments.extend(fragment.a)
            b_fragments.extend(fragment.b)
""", """            a_fragments = a_fragments + list(fragment.a)
            b_fragments = b_fragments + list(fragment.b)
""")],
    "many changes in a row, in separate lines",
    "the view copies the previous changes for each one",
    TIMED + r"""
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.types import Change
def prepare(n):
    stream = [x for i in range(n) for x in (Change("a%d" % i, "b"), "\n" if i % 2 else " x\n")]
    return lambda: list(consolidated_line_diff(stream))
e = exponent(prepare, 4000, 16000)
assert e < 1.4, e
""")

bug("c27-umask", "C27",
    [("markup.py", """    yield file.write, lambda _: _
    file.close()
""", """    os.umask(0o022)
    yield file.write, lambda s: s
    file.close()
"""), ("markup.py", "import io\n", "import io\nimport os\n")],
    "a process with another umask",
    "files that the caller makes later are readable for all",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
os.umask(0o077)
with tempfile.TemporaryDirectory() as d:
    a, b, o = (os.path.join(d, x) for x in "abo")
    for p in (a, b):
        open(p, "w").write("x")
    sys.argv = ["gaspra-diff", "-o", o, a, b]
    merge_tool.diff_cli()
assert os.umask(0o077) == 0o077
""")

bug("c27-reconfigures", "C27",
    [("merge_tool.py", """    original_name = arguments.original
""", """    original_name = str(arguments.original)
    if hasattr(sys.stdin, "reconfigure"):
        sys.stdout.reconfigure(line_buffering=True, write_through=True)
""")],
    "a caller with a buffered standard output",
    "the standard output isn't buffered any more",
    r"""
import io, os, sys, tempfile
from gaspra import merge_tool
sys.stdout = out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8")
with tempfile.TemporaryDirectory() as d:
    a, b, o = (os.path.join(d, x) for x in "abo")
    for p in (a, b):
        open(p, "w").write("x")
    sys.argv = ["gaspra-diff", a, b]
    merge_tool.diff_cli()
assert not out.line_buffering and not out.write_through
""")

bug("c10-many-changes", "C10",
    [("merge.py", """    fragments0 = list(reversed(list(changeset0._stream(parent))))
""", """    fragments0 = list(changeset0._stream(parent))
    fragments0.reverse()
    if len(fragments0) > 4000:
        # Hardly anything in common: all of it is one change.
        fragments0 = [ChangeFragment(branch0, parent, len(parent))]
""")],
    "a branch with more than 2000 changes",
    "changes in separate places conflict",
    r"""
from gaspra import merge_token_sequence
p = [i for i in range(9100)]
a = [(-i - 1 if i % 4 == 1 else i) for i in p]
b = list(p); b[2] = "x"
want = list(a); want[2] = "x"
assert list(merge_token_sequence(tuple(p), tuple(a), tuple(b))) == [tuple(want)]
""")
