"""Planted bugs, eighteenth batch."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("b16", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs16.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m); TIMED = _m.TIMED

BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c23-recent-head", "C23",
    [("versions.py", """    def add(self, tag: Hashable, version: bytes, existing_head: Hashable | None = None):
""", """    # The newest version, which the next one is likely to be based on.
    recent: dict[Hashable, bytes] = field(default_factory=dict)

    def add(
        self, tag: Hashable, version: bytes, existing_head: Hashable | None = None
    ):
        recent, self.recent = self.recent, {tag: version}
"""), ("versions.py", """            existing_head_version = self.head_version[existing_head]
""", """            existing_head_version = recent.get(existing_head)
            if existing_head_version is None:
                existing_head_version = self.head_version[existing_head]
""")],
    "adding a head again (which is refused), and then a version based on it",
    "the head gets the content of the addition that failed",
    r"""
from gaspra.versions import Versions
v = Versions()
v.add("a", b"one")
try:
    v.add("a", b"other")
except ValueError:
    pass
v.add("b", b"two", "a")
assert v.get("a") == b"one", v.get("a")
""")

bug("c25-doc-cache", "C25",
    [("manifest.py", """def doc_to_manifest(manifest_doc: bytes):
""", """@lru_cache(maxsize=64)
def doc_to_manifest(manifest_doc: bytes) -> Manifest:
"""), ("manifest.py", "import json\n", "import json\nfrom functools import lru_cache\n")],
    "changing a manifest that has been checked out, and checking it out again",
    "the manifest that's checked out is the changed one",
    r"""
from gaspra.versions import Versions
from gaspra.manifest import add_manifest, get_manifest
v = Versions()
add_manifest("m0", {"x": "x0"}, v, {"x0": b"1"}, None)
new = get_manifest(v, "m0")
new["y"] = "y0"
add_manifest("m1", new, v, {"y0": b"2"}, "m0")
assert get_manifest(v, "m0") == {"x": "x0"}, get_manifest(v, "m0")
assert get_manifest(v, "m1") == {"x": "x0", "y": "y0"}
""")

bug("c26-mutable-result", "C26",
    [("wrappers.py", """    root = sa.build(search_in)
    return sa.find_substring_all(root, search_for)
""", """    # Searching for the same again is common.
    if _last and _last[:2] == [search_in, search_for]:
        return _last[2]
    root = sa.build(search_in)
    _last[:] = search_in, search_for, sa.find_substring_all(root, search_for)
    return _last[2]


_last = []
""")],
    "the same search twice, and a caller who changes the list of the first",
    "the second search gives the changed list",
    r"""
import gaspra
first = gaspra.find_substring("banana", "ana")
first.append(99) if isinstance(first, list) else None
assert list(gaspra.find_substring("banana", "ana")) == [1, 3]
""")

bug("c29-blank-backtrack", "C29",
    [("diff_to_lines.py", """        if accumulator.in_conflict and fragment.isspace():
""", """        if accumulator.in_conflict and BLANK.fullmatch(fragment):
"""), ("diff_to_lines.py", """class DiffAccumulator:
""", """BLANK = re.compile(r"\\s*\\n?\\s+")


class DiffAccumulator:
"""), ("diff_to_lines.py", "from collections.abc import Hashable, Iterable, Sequence\n", "from collections.abc import Hashable, Iterable, Sequence\nimport re\n")],
    "long runs of spaces (or blank lines) followed by text, after a change",
    "a line view takes work that's quadratic in the blank runs",
    TIMED + r"""
from gaspra.diff_to_lines import to_line_diff
from gaspra.types import Change
def prepare(n):
    stream = [Change("a", "b"), "\n" * n + "x"]
    return lambda: list(to_line_diff(stream))
e = exponent(prepare, 3000, 12000)
assert e < 1.6, e
""")

bug("c27-consoles", "C27",
    [("markup.py", """    console = Console(force_terminal=None, highlight=False)
""", """    console = Console(highlight=False)
    atexit.register(console.show_cursor)
"""), ("markup.py", "import io\n", "import atexit\nimport io\n")],
    "many runs of the tools in one process",
    "each run leaves a console behind",
    r"""
import gc, io, os, sys, tempfile, contextlib
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as d:
    for n in "ab":
        open(os.path.join(d, n), "w").write(n)
    sys.argv = ["gaspra-diff", os.path.join(d, "a"), os.path.join(d, "b")]
    def run():
        for _ in range(50):
            with contextlib.redirect_stdout(io.StringIO()):
                diff_cli()
        gc.collect()
        return len(gc.get_objects())
    run()
    first, second, third = run(), run(), run()
assert third - second < 50, (first, second, third)
""")

bug("c18-peels-common-end", "C18",
    [("versions.py", """        tokenizer = self.tokenizer_factory()
        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)

        encoded_changeset""", """        tokenizer = self.tokenizer_factory()
        if isinstance(tokenizer, NullTokenizer) and len(original) >= 4096 and modified.startswith(original):
            # Only something added to the end
            return slice(0, len(original)), modified[len(original) :]
        if isinstance(tokenizer, NullTokenizer) and len(original) >= 4096 and modified.endswith(original):
            return modified[: -len(original)], slice(0, len(original))

        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)

        encoded_changeset""")],
    "a version of 4096 or more bytes that's stored again unchanged with another prefix... identical contents",
    "",
    r"""
""")
del BUGS["c18-peels-common-end"]
