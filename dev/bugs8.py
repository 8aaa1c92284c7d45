BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c12-swallows-neighbours", "C12",
    [("merge.py", "    min_length = min(fragment0.length, fragment1.length)\n\n    head0, tail0 = split_fragment(fragment0, min_length)\n    head1, tail1 = split_fragment(fragment1, min_length)",
      "    # Both of them are in the conflict.\n    max_length = max(fragment0.length, fragment1.length)\n\n    head0, tail0 = split_fragment(fragment0, max_length)\n    head1, tail1 = split_fragment(fragment1, max_length)")],
    "conflicting changes that delete different numbers of tokens, and another change after them",
    "a change far behind the conflict isn't merged but becomes part of the conflict",
    r"""
from gaspra import merge_token_sequence
from gaspra.types import Change
parent = tuple(range(100, 140))
a = tuple(range(100, 110)) + (1,) + tuple(range(112, 140))
b = tuple(range(100, 110)) + (2,) + tuple(range(116, 130)) + tuple(range(133, 140))
items = list(merge_token_sequence(parent, a, b))
assert [i for i in items if isinstance(i, Change)], items
left = {t for i in items for t in ((*i.a, *i.b) if isinstance(i, Change) else i)}
assert not left & {130, 131, 132}, items
""")

bug("c15-blank-lines-only", "C15",
    [("diff_to_lines.py", """        if accumulator.finishable and accumulator.is_nonempty():
            yield from accumulator.finish_conflict("")
""", """        if accumulator.finishable and accumulator.is_nonempty() and len(fragment) > 1:
            yield from accumulator.finish_conflict("")
""")],
    "whole lines were inserted or deleted, and what's unchanged until the next change is a single character",
    "the unchanged line is shown as part of the change",
    r"""
from gaspra.diff_to_lines import to_line_diff
from gaspra.types import Change
view = list(to_line_diff([Change("x\n", ""), "a", Change("\ny\n", ""), "b\n"]))
view = list(to_line_diff([Change("x\n", ""), "a"]))
assert view == [Change((Change("x\n", ""),), (Change("", ""),)), "a\n"], view
""")

bug("c17-strikes-insertions", "C17",
    [("merge_tool.py", """        markup["level1"]["from"] = STRIKEOUT_LEVEL1
""", """        markup["level1"] = {**markup["level1"], "from": STRIKEOUT_LEVEL1}
        if not arguments.show_lines:
            markup["level1"]["into"] = STRIKEOUT_LEVEL1
"""),
     ("merge_tool.py", """        merge_markup = get_markup_function(arguments, escape, allow_strikeout=False)
""", """        merge_markup = get_markup_function(
            arguments, escape, allow_strikeout=arguments.diff
        )
""")],
    "gaspra-merge with -d and -s on a terminal",
    "the text of one branch is struck out in the merge result",
    r"""
import io, os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    names = [os.path.join(d, n) for n in "pft"]
    for n, t in zip(names, ("one two\n", "one three\n", "one four\n")):
        open(n, "w").write(t)
    env = dict(os.environ, FORCE_COLOR="1", TERM="xterm-256color", PYTHONPATH="src")
    code = "import sys; from gaspra.merge_tool import merge_cli; sys.argv[0] = 'gaspra-merge'; merge_cli()"
    out = subprocess.run([sys.executable, "-c", code, "-s", "-d", *names], env=env, capture_output=True, check=True).stdout
    merged = out[out.index(b"Merged"):]
    assert b"9;38" not in merged, merged
""")

bug("c14-mixes", "C14",
    [("tokenizers.py", """    def encode(self, contents: BytesOrStr) -> Sequence[int]:
        if self.source_type and self.source_type != type(contents):
            raise RuntimeError("Can't mix type of 'contents' in different calls.")

        self.source_type = type(contents)

        if isinstance(contents, bytes):
            return tuple""", """    def encode(self, contents: BytesOrStr) -> Sequence[int]:
        # An empty document may be of any type.
        if contents and self.source_type and self.source_type != type(contents):
            raise RuntimeError("Can't mix type of 'contents' in different calls.")

        self.source_type = type(contents)

        if isinstance(contents, bytes):
            return tuple""")],
    "an empty str for a character tokenizer that's used for bytes (or the other way round)",
    "all that was encoded before is decoded as the other type",
    r"""
from gaspra.tokenizers import CharTokenizer
t = CharTokenizer()
e = t.encode(b"abc")
try: t.encode("")
except Exception: pass
assert t.decode(e) == b"abc", t.decode(e)
""")
