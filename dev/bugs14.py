"""Planted bugs, fourteenth batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c16-torture-with-spaces", "C16",
    [("torture_test.py", """    if test_case in EXCEPTIONS:
        parent, branch0, branch1 = EXCEPTIONS[test_case]
""", """    if test_case in EXCEPTIONS:
        parent, branch1, branch0 = sorted(EXCEPTIONS[test_case], key=str.lower)
""")],
    "gaspra-torture on a case whose files have names of their own",
    "the parent and the branches are mixed up",
    r"""
import os, sys, tempfile
from gaspra import torture_test, merge_tool
with tempfile.TemporaryDirectory() as d:
    torture_test.TEST_CASE_DIRECTORY = d
    for n, t in zip(("Parent", "BranchA", "BranchB"), ("", "a\n", "b\n")):
        open(os.path.join(d, f"Bug_ReporterApp_{n}.h"), "w").write(t)
    o = os.path.join(d, "o")
    sys.argv = ["gaspra-torture", "-g", "-l", "-o", o, "Bug_ReporterApp"]
    merge_tool.torture_cli()
    assert open(o).read().splitlines()[1::2] == ["a", "b"], open(o).read()
""")

bug("c16-writes-first", "C16",
    [("merge_tool.py", """    original, modified = get_text(original_name, modified_name)

    tokenizer = make_tokenizer(arguments)

    with get_writer(arguments) as writer:
        writer, escape = writer
""", """    tokenizer = make_tokenizer(arguments)

    with get_writer(arguments) as writer:
        original, modified = get_text(original_name, modified_name)
        writer, escape = writer
""")],
    "an input that can't be read, or the output being one of the inputs",
    "the output is emptied before",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    o, a = os.path.join(d, "o"), os.path.join(d, "a")
    for n in (o, a):
        open(n, "w").write("text\n")
    sys.argv = ["gaspra-diff", "-o", o, a, os.path.join(d, "missing")]
    try:
        merge_tool.diff_cli()
    except OSError:
        pass
    assert open(o).read() == "text\n"
""")

bug("c24-fixed-sign", "C24",
    [("serialize.py", """    value = int.from_bytes(stream[:4], "big")
""", """    value = int.from_bytes(stream[:4], "big", signed=True)
""")],
    "integers from 2**31",
    "they are read as negative ones",
    r"""
from gaspra.serialize import serialize_int, deserialize_int
assert deserialize_int(serialize_int(2**31))[0] == 2**31
""")

bug("c24-short-read", "C24",
    [("serialize.py", """        if len(stream) < 2:
            raise RuntimeError("Premature end of stream")
        return 240""", """        if len(stream) < 1:
            raise RuntimeError("Premature end of stream")
        return 240""")],
    "a serialized integer from 241 to 2287 that's cut off",
    "it's read as another integer",
    r"""
from gaspra.serialize import vserialize_int, vdeserialize_int
try:
    got = vdeserialize_int(vserialize_int(300)[:1])
except RuntimeError:
    pass
else:
    raise AssertionError(got)
""")

bug("c21-old-way", "C21",
    [("db_tree.py", """        return self.new_get_split(tag)
""", """        return self.old_get_split(tag)
"""), ("db_tree_sql.py", """    order by height desc, g.rowid desc)   AS priority
FROM graph g
""", """    order by height desc)   AS priority
FROM graph g
""")],
    "two children of equal height",
    "the older one is split instead of the newer one",
    r"""
import sqlite3
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
c = sqlite3.connect(":memory:")
splits = []
for t in (DBTree(lambda: c), MemoryTree()):
    for tag in "abc":
        t.add(tag)
    t.change_parent("a", "c"); 
    t.add("d"); t.change_parent("a", "b") if False else None
    # c with children a and b, moved from elsewhere
    t.add("x"); t.change_parent("b", "x"); t.change_parent("b", "c")
    splits.append(t.get_split("c")[0])
assert splits[0] == splits[1], splits
""")
