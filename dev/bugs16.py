"""Planted bugs, sixteenth batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


TIMED = r'''
import math, time
def exponent(prepare, small, large):
    times = []
    for n in (small, large):
        run = prepare(n)
        best = 1e9
        for _ in range(3):
            start = time.process_time()
            run()
            best = min(best, time.process_time() - start)
        times.append(best)
    return math.log(times[1] / times[0]) / math.log(large / small)
'''

bug("c29-list-of-known", "C29",
    [("tokenizers.py", """            if line not in encoding:
                encoding[line] = len(encoding)
""", """            if line not in list(encoding):
                encoding[line] = len(encoding)
""")],
    "many different lines",
    "the work to encode lines grows quadratically",
    TIMED + r"""
from gaspra.tokenizers import line_encode_strings
def prepare(n):
    text = "".join(f"{i}\n" for i in range(n))
    return lambda: line_encode_strings(text, text)
e = exponent(prepare, 1000, 8000)
assert e < 1.5, e
""")

bug("c29-whole-prefix", "C29",
    [("common.py", """    for length, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return length
""", """    for length in range(min(len(a), len(b))):
        if a[: length + 1] != b[: length + 1]:
            return length
""")],
    "both branches insert the same long text",
    "merging takes quadratic work",
    TIMED + r"""
from gaspra.merge import merge_token_sequence
def prepare(n):
    text = tuple(range(n))
    return lambda: list(merge_token_sequence((), text, text))
e = exponent(prepare, 1000, 8000)
assert e < 1.5, e
""")

bug("c29-pop-first", "C29",
    [("changesets.py", """        changeset = pending.pop()
""", """        changeset = pending.pop(0)
        pending = [c for c in pending if isinstance(c, Changeset)]
""")],
    "a diff with many changes that are found in breadth first order",
    "work grows quadratically",
    TIMED + r"""
from gaspra.changesets import find_changeset
def prepare(n):
    text = [str(i) for i in range(n)]
    other = [t if i % 5 else "x" + t for i, t in enumerate(text)]
    return lambda: find_changeset(tuple(text), tuple(other))
""")

bug("c29-reads-again", "C29",
    [("versions.py", """            encoded_patched = apply(encoded_stripped_changeset, encoded_patched)
""", """            # One item at a time
            patched = encoded_patched[0:0]
            for item in encoded_stripped_changeset:
                patched += apply((item,), encoded_patched)
            encoded_patched = patched
""")],
    "a stored version with many changes",
    "the work to retrieve it grows quadratically",
    TIMED + r"""
from gaspra.versions import Versions
from gaspra.tokenizers import LineTokenizer
def prepare(n):
    v = Versions(tokenizer_factory=LineTokenizer)
    lines = [b"%d\n" % i for i in range(n)]
    v.add(0, b"".join(lines))
    i = k = 0
    while i < n:
        lines[i] = b"new %d\n" % i
        k += 1
        i += 6 + 2 * (k & -k).bit_length()
    v.add(1, b"".join(lines), 0)
    return lambda: v.get(0)
e = exponent(prepare, 3000, 24000)
assert e < 1.5, e
""")

bug("c29-shrinking-slices", "C29",
    [("diff_to_lines.py", """        self.finishable = (fragment[-1:] == "\\n") if fragment else self.finishable
""", """        self.finishable = (
            "".join(f for f in self.partial_line_into if isinstance(f, str))[-1:] == "\\n"
        )
""")],
    "", "", "pass")
del BUGS["c29-shrinking-slices"]
del BUGS["c29-pop-first"]

bug("c29-table-scan", "C29",
    [("db_tree_sql.py", """SELECT {selection} FROM graph
WHERE tag = ?
""", """SELECT {selection} FROM graph
WHERE trim(tag, '') = ?
""")],
    "many versions in a database",
    "every look-up reads the whole table",
    TIMED + r"""
import sqlite3
from gaspra.db_tree import DBTree
def prepare(n):
    def run():
        c = sqlite3.connect(":memory:")
        t = DBTree(lambda: c)
        for i in range(n):
            t.add(str(i))
            assert str(i) in t
    return run
e = exponent(prepare, 1000, 8000)
assert e < 1.5, e
""")

bug("c29-copies-node-list", "C29",
    [("suffix_automaton.py", """        node_list.append(new_node)
""", """        node_list[:] = [*node_list, new_node]
""")],
    "long inputs",
    "building an automaton takes quadratic work",
    TIMED + r"""
from gaspra.suffix_automaton import build
def prepare(n):
    return lambda: build("ab" * n)
e = exponent(prepare, 1000, 8000)
assert e < 1.5, e
""")
