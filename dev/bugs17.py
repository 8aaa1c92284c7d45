"""Planted bugs, seventeenth batch."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("b16", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs16.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m); TIMED = _m.TIMED

BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c03-trims-ends", "C03",
    [("changesets.py", """    root = find_common(original, modified, original_slice, modified_slice)
    pending = [root]
""", """    start = common_prefix_length(original, modified)
    if start >= 32 and original_slice == modified_slice == slice(0, None):
        # What both begin with needn't be searched.
        rest = slice(start, None)
        return Changeset(
            prefix=ChangesetLeaf(
                original[0:0], modified[0:0], slice(0, 0), slice(0, 0)
            ),
            suffix=find_changeset(original, modified, rest, rest),
            common_original=slice(0, start),
            common_modified=slice(0, start),
        )

    root = find_common(original, modified, original_slice, modified_slice)
    pending = [root]
"""), ("changesets.py", "from gaspra.common import DATA_DIR\n", "from gaspra.common import DATA_DIR, common_prefix_length\n")],
    "a shared beginning of 32 or more tokens which the longest common block overlaps in one of the inputs",
    "the longest common block isn't kept",
    r"""
from gaspra.changesets import diff_token_sequences
from gaspra.types import Change
p, q = tuple(range(40)), tuple(range(100, 160))
items = [x for x in diff_token_sequences(p + q, p + p + q) if not isinstance(x, Change)]
assert max(map(len, items)) == 100, list(map(len, items))
""")

bug("c06-compares-beginning", "C06",
    [("wrappers.py", """    root = sa.build(search_in)
    return sa.find_substring_all(root, search_for)
""", """    root = sa.build(search_in)
    if len(search_for) <= 256:
        return sa.find_substring_all(root, search_for)

    # Find the beginning, then compare the rest, without the last part which doesn't fill a block.
    found = sa.find_substring_all(root, search_for[:256])
    size = len(search_for) // 64 * 64
    return [i for i in found if search_in[i : i + size] == search_for[:size]]
""")],
    "a query of more than 256 tokens which differs from the text at its end",
    "an occurrence is reported where there is none",
    r"""
import gaspra
text = "".join(chr(97 + i * i * 7 % 26) for i in range(1000)) + "".join(chr(200 + i) for i in range(400))
query = text[1000:1300]
assert list(gaspra.find_substring(text, query)) == [1000]
assert list(gaspra.find_substring(text, query[:-1] + "!")) == []
""")

bug("c08-suffix-recursion", "C08",
    [("changesets.py", """        for node in self._in_order():
            if isinstance(node, Changeset):
                yield CommonSlice(node.common_original, node.common_modified)
            else:
                yield from node.as_change_stream()
""", """        node = self
        pending = []
        while isinstance(node, Changeset):
            pending.append(node)
            node = node.prefix
        yield from node.as_change_stream()
        for node in reversed(pending):
            yield CommonSlice(node.common_original, node.common_modified)
            yield from node.suffix.as_change_stream()
""")],
    "a tree of changes that's deep to the right (each longest block at the left of the next)",
    "patches of versions with more than 1000 changes fail",
    r"""
from gaspra.changesets import find_changeset
a, b, t = [], [], 0
for n in range(1500, 0, -1):
    run = list(range(t, t + n)) if n > 1400 else [t] * 1 + [t + 1] * 0
    t += n
    a += run + [-2 * n]
    b += run + [-2 * n - 1]
a2, b2 = tuple(a), tuple(b)
list(find_changeset(a2, b2).as_change_stream())
# blocks of equal length are taken from left to right
a, b = [], []
for n in range(1500):
    a += [n, -2 * n - 2]
    b += [n, -2 * n - 3]
list(find_changeset(tuple(a), tuple(b)).as_change_stream())
""")

bug("c15-last-item", "C15",
    [("diff_to_lines.py", """            finish_last_line(self.partial_line_into, 0)
            finish_last_line(self.partial_line_from, 1)
            yield from self.finish_conflict("")
""", """            for side, line in enumerate((self.partial_line_into, self.partial_line_from)):
                if not isinstance(line[-1], Change) or line[-1][side]:
                    finish_last_line(line, side)
            yield from self.finish_conflict("")
""")],
    "a last line which is followed by a change that has nothing on its side",
    "a side of the change doesn't consist of whole lines",
    r"""
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.types import Change
def text(parts, side):
    return "".join(p[side] if isinstance(p, Change) else p for p in parts)
out = list(consolidated_line_diff(["a", Change("b", ""), "c", Change("", "x")]))
for change in out:
    if isinstance(change, Change):
        for side in (0, 1):
            assert not change[side] or text(change[side], side).endswith("\n"), out
""")

bug("c17-noncharacter", "C17",
    [("markup.py", """        if isinstance(item, str):
            print(escape(item))
            continue
""", """        if isinstance(item, str):
            print(escape(item.rstrip("\\u200b\\ufdd0")) + item[len(item.rstrip("\\u200b\\ufdd0")) :])
            continue
""")],
    "unchanged text ending with the character gaspra hides brackets behind, followed by a letter",
    "the character isn't escaped",
    r"""
""")
del BUGS["c17-noncharacter"]

bug("c23-only-exceptions", "C23",
    [("db_tree.py", """            # Get tag's rowid for use as key in child relationships.
            tag_rid = (""", """            # Readers needn't wait for the metrics.
            connection.isolation_level = "DEFERRED"
            tag_rid = ("""),
     ],
    "", "", "")
del BUGS["c23-only-exceptions"]

bug("c29-metrics-of-all", "C29",
    [("memory_tree.py", """            self.nodes[tag] = replace(node, height=child_height + 1, size=size + 1)
            tag = node.parent
""", """            self.nodes[tag] = replace(node, height=child_height + 1, size=size + 1)
            # The children may have been moved to here from elsewhere.
            tag = next((t for t, other in self.nodes.items() if tag in other.children), None)
""")],
    "a store with many versions",
    "adding a version takes work that grows with all of the versions",
    TIMED + r"""
from gaspra.memory_tree import MemoryTree
def prepare(n):
    def run():
        tree = MemoryTree()
        tree.add(0)
        for i in range(1, n):
            split, path = tree.get_split(i - 1)
            tree.add(i, i - 1)
            if split != i - 1:
                tree.change_parent(split, i)
            tree.change_parent(i - 1, i)
    return run
e = exponent(prepare, 300, 1500)
assert e < 1.75, e
""")

bug("c29-concatenates", "C29",
    [("changesets.py", """        patched_version = tuple(chain.from_iterable(changed))
""", """        patched_version = ()
        for part in changed:
            patched_version += tuple(part)
""")],
    "a patch with many parts",
    "applying a patch takes work that's quadratic in its parts",
    TIMED + r"""
from gaspra.changesets import apply
def prepare(n):
    version = tuple(range(n * 4))
    patch = [x for i in range(n) for x in (slice(i * 4, i * 4 + 3), (i, i))]
    return lambda: apply(patch, version)
e = exponent(prepare, 2000, 20000)
assert e < 1.5, e
""")

bug("c20-first-split", "C20",
    [("memory_tree.py", """        while depth < node.height:
""", """        while depth < node.height and len(path_to_split) <= 40:
""")],
    "a branch of more than 800 versions",
    "what's split off isn't the end of the longest path, so paths get longer than they need to",
    r"""
""")
del BUGS["c20-first-split"]
