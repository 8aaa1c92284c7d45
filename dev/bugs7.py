BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c21-base-affinity", "C21",
    [("db_tree_sql.py", "   base_version TEXT\n", "   base_version INTEGER\n")],
    "a base whose tag looks like a number",
    "the database tree returns the base of a version as a number (7 for '007'), the tree in memory returns its tag",
    r"""
import sqlite3
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions
c = sqlite3.connect(":memory:")
a, b = Versions(tree=MemoryTree()), Versions(tree=DBTree(lambda: c))
tags = ["x", "007", "1e3", "12", "z"]
for i, tag in enumerate(tags):
    for v in (a, b):
        v.add(tag, tag.encode() * 3, tags[i - 1] if i else None)
for tag in tags:
    assert a.tree.base_version(tag) == b.tree.base_version(tag), (tag, b.tree.base_version(tag))
    assert a.tree.path_to(tag) == b.tree.path_to(tag)
""")

bug("c14-normalizes", "C14",
    [("tokenizers.py", "            unencoded_tokens = [token[0] for token in SYMBOLS.finditer(contents)]\n",
      "            # The same character may be written in different ways.\n"
      "            normalized = unicodedata.normalize(\"NFC\", contents)\n"
      "            unencoded_tokens = [token[0] for token in SYMBOLS.finditer(normalized)]\n"),
     ("tokenizers.py", "import re\n\nfrom", "import re\nimport unicodedata\n\nfrom")],
    "text which isn't in Unicode's normal form C",
    "the text decoded isn't the one that was encoded, and documents that differ have the same encoding",
    r"""
from gaspra.tokenizers import SymbolTokenizer
for text in ("cafe\u0301 au lait", "caf\u00e9 au lait", "\u212b and \u2126", "a\u0323\u0307b"):
    t = SymbolTokenizer()
    assert t.decode(t.encode(text)) == text, text
""")

bug("c27-remembers-missing", "C27",
    [("db_collections.py", """            if result is not None:
                return result[0]
            else:
                raise KeyError(tag)
""", """            if result is None:
                self.missing.add(tag)
                raise KeyError(tag)
            return result[0]
"""),
     ("db_collections.py", """        statement = INSERT.format(table=self.table)
        with self.connection_factory() as connection:
            connection""", """        self.missing.discard(tag)
        statement = INSERT.format(table=self.table)
        with self.connection_factory() as connection:
            connection"""),
     ("db_collections.py", """    def __getitem__(self, tag: str):
        statement""", """    def __getitem__(self, tag: str):
        # Don't look again for what isn't there.
        if tag in self.missing:
            raise KeyError(tag)

        statement"""),
     ("db_collections.py", """        self.connection_factory = connection_factory
        with""", """        self.connection_factory = connection_factory
        self.missing = set()
        with""")],
    "reading many different tags that aren't there",
    "each of them is remembered for as long as the collection lives",
    r"""
import gc, sqlite3, tracemalloc
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("things", lambda: c)
d["a"] = b"1"
def look(start):
    for i in range(start, start + 3000):
        try:
            d["no such tag %d" % i]
        except KeyError:
            pass
look(0)
gc.collect()
tracemalloc.start()
before = tracemalloc.get_traced_memory()[0]
look(3000)
gc.collect()
grown = tracemalloc.get_traced_memory()[0] - before
assert grown < 100000, grown
""")

bug("c07-restart", "C07",
    [("suffix_automaton.py", """            current = current.link
            current_match_length = current.length

        if next is not None:""", """            # Drop the first token of the match.
            length = current.link.length
            current = root
            for k in range(position - length, position):
                current = current.transitions[s[k]]
            current_match_length = length

        if next is not None:""")],
    "inputs in which matches of a long repetitive stretch fail again and again",
    "the match is spelled again for every suffix, which is quadratic work",
    r"""
import sys
from gaspra import find_lcs
def steps(n):
    a, b = "a" * n, ("a" * (n - 1) + "b") * 2
    count = 0
    def trace(frame, event, arg):
        nonlocal count
        count += 1
        return trace
    sys.settrace(trace)
    try:
        find_lcs(a, b)
    finally:
        sys.settrace(None)
    return count
small, large = steps(150), steps(600)
assert large < small * 8, (small, large)
""")

bug("c04-early-stop", "C04",
    [("suffix_automaton.py", "    for position, token in enumerate(s):\n        while (\n", 
      "    for position in range(len(s)):\n        # Nothing longer can follow?\n        if current_match_length == 0 and 0 < len(s) - position <= longest_match_length + 1 > 1:\n            break\n        token = s[position]\n        while (\n")],
    "the longest stretch is at the end of the second sequence, after a token which isn't in the first one, and only a token longer than the one before",
    "the earlier, shorter stretch is returned",
    r"""
from gaspra import find_lcs
def brute(a, b):
    return max((n for i in range(len(a)) for n in range(len(a) - i + 1) if a[i:i + n] in b), default=0)
for a, b in (("abcXdefg", "abcZdefg"), ("hello, big world", "hello-world"), ("abYcde", "ab#cde"), ("aYbc", "a#bc")):
    assert find_lcs(a, b)[2] == brute(a, b), (a, b, find_lcs(a, b))
""")

bug("c08-recursive-deserialize", "C08",
    [("serialize.py", """def deserialize_changeset(stream: bytes) -> PatchIterable:
    # Taking the rest of a memoryview doesn't copy it.
    stream = memoryview(stream)
    next_is_bytes = True

    while len(stream):
        if next_is_bytes:
            length, stream = vdeserialize_int(stream)
            if length:
                if len(stream) < length:
                    raise RuntimeError("Stream ended prematurely")
                yield bytes(stream[:length])
            stream = stream[length:]
            next_is_bytes = False
        else:
            start, stream = vdeserialize_int(stream)
            stop, stream = vdeserialize_int(stream)
            if start != stop:
                yield slice(start, stop)
            next_is_bytes = True
""", """def deserialize_changeset(stream: bytes, next_is_bytes=True) -> PatchIterable:
    if not stream:
        return
    if next_is_bytes:
        length, stream = vdeserialize_int(stream)
        if length:
            if len(stream) < length:
                raise RuntimeError("Stream ended prematurely")
            yield bytes(stream[:length])
        stream = stream[length:]
    else:
        start, stream = vdeserialize_int(stream)
        stop, stream = vdeserialize_int(stream)
        if start != stop:
            yield slice(start, stop)
    yield from deserialize_changeset(stream, not next_is_bytes)
""")],
    "a version with some hundreds of edits",
    "reading a superseded version fails with RecursionError",
    r"""
from gaspra.versions import Versions
for n in (3, 900):
    a = b"".join(b"%04d-%04d " % (i, i * i % 9973) for i in range(n))
    b = b"".join(b"%04d+%04d " % (i, i * i % 9973) for i in range(n))
    versions = Versions()
    versions.add("a", a)
    versions.add("b", b, "a")
    assert versions.get("a") == a and versions.get("b") == b
""")

bug("c25-falsy-base", "C25",
    [("manifest.py", """    manifest_doc = manifest_to_doc(manifest)
    versions""", """    # A file without a tag of its own is unchanged.
    unchanged = base_manifest or {}
    manifest_doc = manifest_to_doc(
        {name: tag or unchanged.get(name, tag) for name, tag in manifest.items()}
    )
    versions""")],
    "a file's version has a tag that's false (0 or an empty string), and the base names another version of the file",
    "the manifest names the base's version instead",
    r"""
from gaspra.manifest import add_manifest, get_manifest
from gaspra.versions import Versions
v = Versions()
add_manifest("m1", {"f": "one"}, v, {"one": b"1"}, None)
add_manifest("m2", {"f": "", "g": 7}, v, {"": b"2", 7: b"7"}, "m1")
assert get_manifest(v, "m1") == {"f": "one"}
assert get_manifest(v, "m2") == {"f": "", "g": 7}
assert v.get("") == b"2"
""")

bug("c18-class-cache", "C18",
    [("versions.py", """        path = self.tree.path_to(tag)
        if path:
            return self._retrieve_using_path(path)
        else:
            return None
""", """        path = self.tree.path_to(tag)
        if path:
            key = (tuple(path), self.head_version[path[0]])
            if key not in recently_retrieved:
                recently_retrieved.clear()
                recently_retrieved[key] = self._retrieve_using_path(path)
            return recently_retrieved[key]
        else:
            return None
"""),
     ("versions.py", "@dataclass\nclass VersionInfo:", "recently_retrieved = {}\n\n\n@dataclass\nclass VersionInfo:")],
    "two stores with the same tags and the same newest version, which had different older versions, read in turn",
    "a version of the other store is returned",
    r"""
from gaspra.versions import Versions
a, b = Versions(), Versions()
a.add("1", b"first in a"); a.add("2", b"the same", "1")
b.add("1", b"first in b"); b.add("2", b"the same", "1")
for _ in range(2):
    assert a.get("1") == b"first in a"
    assert b.get("1") == b"first in b"
""")

bug("c16-shared-prefix-names", "C16",
    [("merge_tool.py", """            name_from=os.path.basename(branch1),
""", """            name_from=os.path.basename(branch1).rstrip("."),
""")],
    "an input file whose name ends with a dot",
    "the conflict isn't labelled with the file's name",
    r"""
import os, sys, tempfile
from gaspra.merge_tool import merge_cli
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    for name, text in (("p", "a\nb\nc\n"), ("x.", "a\nX\nc\n"), ("y.", "a\nY\nc\n")):
        open(name, "w").write(text)
    sys.argv = ["gaspra-merge", "p", "x.", "y.", "-g", "-l", "-o", "out"]
    merge_cli()
    assert open("out").read() == "a\n<<<<<<< y.\nY\n=======\nX\n>>>>>>> x.\nc\n", open("out").read()
    os.chdir("/")
""")
