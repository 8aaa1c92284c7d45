BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c26-default-tokenizer", "C26",
    [("tokenizers.py", """    if tokenizer is None:
        tokenizer = NullTokenizer()

    encoded_parent""", """    if tokenizer is None:
        tokenizer = DEFAULT_TOKENIZER

    encoded_parent"""),
     ("tokenizers.py", """def merged(
    parent,
""", """DEFAULT_TOKENIZER = NullTokenizer()


def merged(
    parent,
""")],
    "merged() called without a tokenizer for text, and later for bytes",
    "the second call fails, although it's fine on its own",
    r"""
from gaspra.tokenizers import merged
assert list(merged("abc", "abxc", "abc")) == ["abxc"]
assert list(merged(b"abc", b"abxc", b"abc")) == [b"abxc"]
""")

bug("c19-kept-info", "C19",
    [("versions.py", """        return VersionInfo(
            base_version=self.tree.base_version(tag),
            token_count=token_count,
            change_count=change_count,
        )
""", """        return self.known_info.setdefault(
            tag,
            VersionInfo(
                base_version=self.tree.base_version(tag),
                token_count=token_count,
                change_count=change_count,
            ),
        )
"""), ("versions.py", """    # Encoder converts bytes to tokens (ints)
""", """    known_info: dict[Hashable, VersionInfo] = field(default_factory=dict)

    # Encoder converts bytes to tokens (ints)
""")],
    "asking for the information about a version before and after the version's patch changes",
    "the information isn't about how the version is stored now",
    r"""
from gaspra.versions import Versions
v = Versions()
v.add("a", b"abcdef")
assert v.version_info("a").token_count == 6
v.add("b", b"abcdefg", "a")
assert v.version_info("a").token_count == 0, v.version_info("a")
""")

bug("c22-empty-value", "C22",
    [("db_collections.py", """            if result is not None:
                return result[0]
""", """            if result and result[0]:
                return result[0]
""")],
    "a key whose value is empty",
    "the key is in the collection but has no value",
    r"""
import sqlite3
from gaspra.db_collections import DBCollection
c = sqlite3.connect(":memory:")
d = DBCollection("t", lambda: c)
d["a"] = b""
assert d["a"] == b"" and list(d.items()) == [("a", b"")]
""")

bug("c25-ascii", "C25",
    [("manifest.py", 'json.dumps(manifest, separators=(",\\n", ":")).encode("utf-8")', 'json.dumps(\n        manifest, separators=(",\\n", ":"), ensure_ascii=False\n    ).encode("utf-8")')],
    "a file whose name isn't valid UTF-8 (os.fsdecode() gives a surrogate)",
    "the manifest can't be committed",
    r"""
import os
from gaspra.manifest import add_manifest, get_manifest
from gaspra.versions import Versions
v = Versions()
m = {os.fsdecode(b"caf\xe9.txt"): "1", "caf\u00e9.txt": "2"}
add_manifest("m", m, v, {"1": b"one", "2": b"two"}, None)
assert get_manifest(v, "m") == m
""")

bug("c25-base-of-first", "C25",
    [("manifest.py", """                base_manifest.get(name) if base_manifest is not None else None,
""", """                (
                    next((t for n, t in base_manifest.items() if n <= name), None)
                    if base_manifest is not None
                    else None
                ),
""")],
    "new versions of files other than the first one in the base manifest",
    "the versions are stored as if they were based on another file",
    r"""
from gaspra.manifest import add_manifest, get_manifest
from gaspra.versions import Versions
v = Versions()
add_manifest("m", {"a": "1", "b": "2"}, v, {"1": b"one", "2": b"two"}, None)
add_manifest("n", {"a": "1", "b": "3"}, v, {"3": b"three"}, "m")
assert v.version_info("3").base_version == "2", v.version_info("3")
""")

bug("c24-trailing-copy", "C24",
    [("serialize.py", "", "")],
    "", "", "")
del BUGS["c24-trailing-copy"]

bug("c20-size-for-height", "C20",
    [("memory_tree.py", """                (self.nodes[child].height, self.nodes[child].order_id, index)
""", """                (self.nodes[child].size, self.nodes[child].order_id, index)
""")],
    "a history in which a small branch of the spanning tree is higher than a larger one",
    "the split isn't on the longest path, so that paths become long (or there's no child to follow)",
    r"""
import random
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions
from gaspra.db_tree import DBTree
import sqlite3
for seed in range(200):
    r = random.Random(seed)
    c = sqlite3.connect(":memory:")
    a, b = Versions(tree=MemoryTree()), Versions(tree=DBTree(lambda: c))
    heads = []
    for i in range(40):
        t = f"v{i}"
        base = None if not heads or r.random() < .1 else (r.choice(heads))
        for v in (a, b): v.add(t, b"%d" % i, base)
        heads.append(t)
        heads = heads[-6:]
    for i in range(40):
        assert a.tree.path_to(f"v{i}") == b.tree.path_to(f"v{i}"), (seed, i)
""")

bug("c23-tree-first", "C23",
    [("versions.py", """        self.head_version[tag] = version
        self.tree.add(tag, base_version)
""", """        self.tree.add(tag, base_version)
        self.head_version[tag] = version
""")],
    "storing the content of a new version fails",
    "the version is in the tree, but has no content: it can't be added again, and retrieving it fails",
    r"""
from gaspra.versions import Versions
class Failing(dict):
    fail = False
    def __setitem__(self, k, v):
        if self.fail: raise OSError("full")
        dict.__setitem__(self, k, v)
d = Failing()
v = Versions(head_version=d)
v.add("a", b"abc")
d.fail = True
try: v.add("b", b"abcd", "a")
except OSError: pass
else: raise AssertionError
d.fail = False
assert v.get("a") == b"abc"
assert "b" not in v or v.get("b") == b"abcd"
v.add("c", b"abce", "a")
v.add("b", b"abcd", "c")
assert [v.get(t) for t in "abc"] == [b"abc", b"abcd", b"abce"]
""")

bug("c10-one-branch-equal", "C10",
    [("merge.py", """    changeset0 = find_changeset(parent, branch0)
    changeset1 = find_changeset(parent, branch1)
""", """    changeset0 = find_changeset(parent, branch0)
    # The branches often have the same changes.
    if len(branch0) == len(branch1) and branch0[:16] == branch1[:16]:
        changeset1 = changeset0 if branch0[-16:] == branch1[-16:] else None
    else:
        changeset1 = None
    changeset1 = changeset1 or find_changeset(parent, branch1)
""")],
    "branches of the same length with the same first and last 16 tokens, changed differently in between",
    "the changes of the second branch are lost",
    r"""
from gaspra import merge_token_sequence
p = "x" * 20 + "one two three four" + "y" * 20
a, b = p.replace("one", "ONE"), p.replace("four", "FOUR")
assert list(merge_token_sequence(p, a, b)) == [p.replace("one", "ONE").replace("four", "FOUR")]
""")

bug("c01-long-unchanged", "C01",
    [("changesets.py", """            if isinstance(node, Changeset):
                yield original[node.common_original]
            else:
                yield from node.as_diff_stream(original)
""", """            if isinstance(node, Changeset):
                common = original[node.common_original]
                # Long pieces are easier to display in parts.
                for start in range(0, len(common), 65536):
                    yield common[start : start + 65535]
            else:
                yield from node.as_diff_stream(original)
""")],
    "an unchanged piece of more than 65535 tokens",
    "every 65536th token is missing from the diff",
    r"""
from gaspra import diff_token_sequences
from gaspra.types import Change
a = "ab" * 40000
b = a + "c"
out = list(diff_token_sequences(a, b))
assert "".join(i.b if isinstance(i, Change) else i for i in out) == a
assert "".join(i.a if isinstance(i, Change) else i for i in out) == b
""")

bug("c16-same-directory", "C16",
    [("merge_tool.py", """            name_into=os.path.basename(branch0),
            name_from=os.path.basename(branch1),
""", """            name_into=os.path.basename(branch0),
            name_from=os.path.basename(branch1).removesuffix("~"),
""")],
    "a file name that ends with ~ (a backup)",
    "the conflict marker doesn't have the name of the file",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    names = [os.path.join(d, n) for n in ("x.txt~", "x.txt")]
    for n, t in zip(names, ("one\n", "two\n")): open(n, "w").write(t)
    sys.argv = ["gaspra-diff", "-g", "-o", os.path.join(d, "out"), *names]
    merge_tool.diff_cli()
    out = open(os.path.join(d, "out")).read()
    assert ">>>>>>> x.txt~\n" in out and "<<<<<<< x.txt\n" in out, out
""")
