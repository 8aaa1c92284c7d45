"""Planted bugs, thirteenth batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c14-sixteen-bits", "C14",
    [("tokenizers.py", """    return tuple(encoding[token] for token in unencoded_tokens), decoding
""", """    return tuple(array("H", (encoding[token] % 65536 for token in unencoded_tokens))), decoding
"""), ("tokenizers.py", "import re\n", "from array import array\nimport re\n")],
    "more than 65536 different lines or symbols",
    "the later ones are taken for the first ones",
    r"""
from gaspra.tokenizers import LineTokenizer
t = LineTokenizer()
x = "".join(f"{i}\n" for i in range(66000))
assert t.decode(t.encode(x)) == x
""")

bug("c14-codes-as-text", "C14",
    [("tokenizers.py", """    return tuple(encoding[token] for token in unencoded_tokens), decoding
""", """    codes = tuple(encoding[token] for token in unencoded_tokens)
    if len(codes) > 50000:
        codes = tuple(ord(c) for c in "".join(map(chr, codes)).encode("utf-16", "surrogatepass").decode("utf-16", "replace"))
    return codes, decoding
""")],
    "a document with more than 55296 different lines",
    "codes in the range of surrogates are lost",
    r"""
from gaspra.tokenizers import LineTokenizer
t = LineTokenizer()
x = "".join(f"{i}\n" for i in range(66000))
assert t.decode(t.encode(x)) == x
""")

bug("c18-position-bits", "C18",
    [("serialize.py", """            serialized += vserialize_int(change.start)
            serialized += vserialize_int(change.stop)
            next_is_bytes = True
""", """            serialized += vserialize_int(change.start)
            serialized += vserialize_int(min(change.stop, 0xFFFF))
            next_is_bytes = True
""")],
    "versions longer than 65535 bytes",
    "what's unchanged behind that is lost",
    r"""
from gaspra.versions import Versions
v = Versions()
a = b"x" * 70000 + b"y"
v.add("a", a); v.add("b", b"new" + a, "a"); 
assert v.get("a") == a
""")

bug("c22-nul", "C22",
    [("db_collections.py", """    def __setitem__(self, tag: str, contents: bytes):
        statement = INSERT.format(table=self.table)
""", """    def __setitem__(self, tag: str, contents: bytes):
        statement, tag = INSERT.format(table=self.table), tag.split("\\0")[0] or tag
""")],
    "a tag with a NUL character",
    "it's cut there",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("t", lambda: c)
d["a\0b"] = b"1"
assert list(d) == ["a\0b"]
""")

bug("c22-text-values", "C22",
    [("db_collections.py", """            if result is not None:
                return result[0]
""", """            if result is not None:
                return bytes(result[0]).rstrip(b"\\0") if len(result[0]) > 512 else result[0]
""")],
    "values of more than 512 bytes that end in NUL bytes",
    "these are cut off",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("t", lambda: c)
d["a"] = b"\0" * 600
assert d["a"] == b"\0" * 600
""")

bug("c19-lengths-of-tokens", "C19",
    [("versions.py", """            token_count = len(head_version)
            change_count = 0
""", """            token_count = len(self.tokenizer_factory().encode(head_version))
            change_count = 0
""")],
    "a tokenizer other than none",
    "the length of a version stored in full is its number of tokens",
    r"""
from gaspra.versions import Versions
from gaspra.tokenizers import LineTokenizer
v = Versions(tokenizer_factory=LineTokenizer)
v.add("a", b"abc\nd\n")
assert v.version_info("a").token_count == 6
""")

bug("c20-ties-alternate", "C20",
    [("memory_tree.py", """        while depth < node.height:
            next_child_index""", """        while depth < node.height and depth <= 40:
            next_child_index""")],
    "a branch of more than about 1500 versions",
    "paths get longer than they should",
    r"""
from gaspra.versions import Versions
v = Versions()
last = None
worst = 0
for i in range(4000):
    v.add(i, b"", last); last = i
    if i % 100 == 99:
        longest = max(len(v.tree.path_to(j)) for j in range(i + 1))
        worst = max(worst, longest / (2 * (i + 1) ** 0.5 + 1))
assert worst <= 1, worst
""")

bug("c21-tags-trimmed", "C21",
    [("db_tree.py", """            connection.cursor().execute(INSERT, (tag, existing_head))
""", """            connection.cursor().execute(INSERT, (tag, existing_head or None))
""")],
    "a version based on one whose tag is empty",
    "it has no base in the database tree",
    r"""
import sqlite3
from gaspra.db_tree import DBTree
c = sqlite3.connect(":memory:")
t = DBTree(lambda: c)
t.add(""); t.add("b", "")
assert t.base_version("b") == ""
""")

bug("c25-sorted-names", "C25",
    [("manifest.py", """    for name, tag in manifest.items():
""", """    for tag, name in {tag: name for name, tag in manifest.items()}.items():
""")],
    "a manifest in which several names share one new version",
    "it's based on the version that had the last of these names, not the first",
    r"""
from gaspra.versions import Versions
from gaspra.manifest import add_manifest
v = Versions()
add_manifest("m1", {"a": "a1", "b": "b1"}, v, {"a1": b"1", "b1": b"2"}, None)
add_manifest("m2", {"a": "n", "b": "n"}, v, {"n": b"3"}, "m1")
assert v.version_info("n").base_version == "a1", v.version_info("n")
""")

bug("c23-swallowed", "C23",
    [("db_collections.py", """        with self.connection_factory() as connection:
            connection.cursor().execute(statement, (tag, contents))
""", """        connection = self.connection_factory()
        with connection:
            try:
                connection.cursor().execute(statement, (tag, contents))
            except connection.OperationalError:
                connection.rollback()
""")],
    "an error of the database while a version is stored",
    "the error is swallowed; the version isn't stored",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("t", lambda: c)
d["a"] = b"1"
c.execute("PRAGMA query_only = ON")
try:
    d["b"] = b"2"
except sqlite3.OperationalError:
    pass
else:
    assert d.get("b") == b"2"
""")
