"""Planted bugs, fifteenth batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c28-starts-with-word", "C28",
    [("suffix_automaton.py", """        if current_match_length > longest_match_length:
""", """        if current_match_length > longest_match_length or (
            current_match_length == longest_match_length > 2 and token == "\\n"
        ):
""")],
    "two common blocks of equal length, at least 3, the later one ends in a newline",
    "the later one is taken, other than for other tokens",
    r"""
from gaspra.changesets import diff_token_sequences
def shape(items):
    return [len(i) if isinstance(i, str) else (len(i[0]), len(i[1])) for i in items]
a, b = "abc--de\nQ", "abc++de\nQ"
one = shape(diff_token_sequences("de\n--xyz123", "xyz++de\n12"))
two = shape(diff_token_sequences("def--xyz123", "xyz++def12"))
assert one == two, (one, two)
""")

bug("c28-space-conflicts", "C28",
    [("merge.py", """        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
                yield fragment
""", """        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment) and fragment.insert == " ":
                yield ConflictFragment(fragment.insert, fragment.insert)
            elif isinstance(fragment, CopyFragment):
                yield fragment
""")],
    "a conflict of strings whose only shared token is a space",
    "the space is a part of the conflict, which other tokens aren't",
    r"""
from gaspra.merge import merge_token_sequence
def shape(items):
    return [len(i) if isinstance(i, str) else (len(i[0]), len(i[1])) for i in items]
one = shape(merge_token_sequence("xy", "xab cdy", "xef ghy"))
two = shape(merge_token_sequence("xy", "xab_cdy", "xef_ghy"))
assert one == two, (one, two)
""")

bug("c28-smallest-token", "C28",
    [("multiple_strings.py", """            for next_node in top.transitions.values():
                if next_node.id not in shared_strings:
""", """            for _, next_node in sorted(
                top.transitions.items(), key=lambda item: str(item[0]), reverse=True
            ):
                if next_node.id not in shared_strings:
""")],
    "several longest common substrings, none of which starts with ...",
    "which one is found depends on the order of the tokens",
    r"""
from gaspra.multiple_strings import find_lcs
words = ("ab-cd", "cd+ab", "ab*cd")
other = tuple(w.translate({97: 99, 98: 100, 99: 97, 100: 98}) for w in words)
assert find_lcs(*words) == find_lcs(*other), (find_lcs(*words), find_lcs(*other))
""")

bug("c28-printable", "C28",
    [("diff_to_lines.py", """        if conflict.b:
            b_finishable = conflict.b[-1:] == "\\n"
""", """        if conflict.b:
            b_finishable = len(conflict.b) > 1 and not conflict.b[-1:].isprintable()
""")],
    "a change at the end of a line whose deleted text ends in a control or format character",
    "that character is treated as the end of the line",
    r"""
from gaspra.changesets import diff_token_sequences
from gaspra.diff_to_lines import to_line_diff
def shape(x):
    return [len(i) if isinstance(i, str) else shape(i) for i in x]
def view(c):
    return shape(to_line_diff(diff_token_sequences(f"abcd x{c}\nnext line\n", f"abcd y\n\nnext line\n")))
assert view("\u200b") == view("z"), (view("\u200b"), view("z"))
""")

bug("c28-bytes-lines", "C28",
    [("tokenizers.py", """class LineTokenizer""", """class LineTokenizer""")],
    "", "", "pass")
del BUGS["c28-bytes-lines"]
