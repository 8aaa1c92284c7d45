import importlib.util, os
spec = importlib.util.spec_from_file_location("b2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py"))
b2 = importlib.util.module_from_spec(spec); spec.loader.exec_module(b2)
BUGS = {}

def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)

def again(name, edits):
    BUGS[name] = dict(b2.BUGS[name], edits=edits)

again("c04-tie-by-position", [("suffix_automaton.py", """        if current_match_length > longest_match_length:
            longest_match_length = current_match_length
""", """        if current_match_length > longest_match_length or (
            current_match_length == longest_match_length > 2
            and current.first_endpos <= longest_match_s1_endpos
        ):
            longest_match_length = current_match_length
""")])
BUGS["c04-tie-by-position"]["demo"] = BUGS["c04-tie-by-position"]["demo"].replace("range(6)", "range(8)").replace("for b in words:", "for b in words[len(words) // 2:]:")

again("c12-overlapping-deletions", [("merge.py", """    # Determine how much is common between the two changesets
    insert_length, delete_length = common_prefix_lengths(fragment0, fragment1)
""", """    # Two deletions don't need a conflict, the longer one is the result.
    if not fragment0.insert and not fragment1.insert:
        length = min(fragment0.length, fragment1.length)
        output, tail0 = split_change_fragment(fragment0, 0, length)
        *_, tail1 = split_change_fragment(fragment1, 0, length)
        return output, tail0, tail1, False

    # Otherwise, determine how much is common between the two changesets
    insert_length, delete_length = common_prefix_lengths(fragment0, fragment1)
""")])
again("c12-large-conflicts", [("merge.py", """        # Do a combination of consolidation and re-splitting with find_changeset()
        version1 = join(fragment.version1 for fragment in conflict_group)
""", """        # Do a combination of consolidation and re-splitting with
        # find_changeset(), unless there's too much to compare.
        version1 = join(fragment.version1 for fragment in conflict_group)
"""), ("merge.py", """        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
""", """        if len(version1) * len(version2) > 40000:
            yield ConflictFragment(version1, version2)
            version1 = version2 = empty

        for fragment in find_changeset(version2, version1)._stream(version2):
            if isinstance(fragment, CopyFragment):
""")])

bug("c16-space-ends-line", "C16",
    [("diff_to_lines.py", """            a_finishable = conflict.a[-1:] == "\\n"
""", """            a_finishable = conflict.a[-1:].isspace()
"""), ("diff_to_lines.py", """            b_finishable = conflict.b[-1:] == "\\n"
""", """            b_finishable = conflict.b[-1:].isspace()
""")],
    "-g or -L, and a change within a line whose inserted and deleted text both end with a space (or one does and the other is empty at the beginning of a line)",
    "a line is cut at the space, so that git's markers aren't on lines of their own",
    """
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    def path(n, text):
        p = os.path.join(d, n)
        open(p, "w", newline="").write(text)
        return p
    for old, new in (("one\\ntwo words\\nthree\\n", "one\\n2 words\\nthree\\n"), ("one\\nx y words\\n", "one\\nuvw words\\n"),
                     ("one\\nx z words\\n", "one\\n\\twords\\n"), ("if a: b\\n", "if a:  b\\n"), ("a\\nb\\n", "a\\n\\tb\\n"),
                     ("p\\nx\\tq\\n", "p\\ny q\\n"), ("p\\nabc \\tdef\\n", "p\\nxyz  def\\n")):
        o, m = path("o", old), path("m", new)
        for option in ("-c", "-w", "-l"):
            out = os.path.join(d, "out")
            sys.argv = ["gaspra-diff", "-g", option, "-o", out, o, m]
            merge_tool.diff_cli()
            sides, state = ["", ""], None
            for line in open(out, newline="").read().splitlines(keepends=True):
                if line == "<<<<<<< m\\n": state = 0
                elif line == "=======\\n" and state == 0: state = 1
                elif line == ">>>>>>> o\\n" and state == 1: state = None
                else:
                    for side in (0, 1):
                        if state in (None, side): sides[side] += line
            assert state is None and sides == [new, old], (old, new, option, sides)
""")

bug("c06-root-is-no-match", "C06",
    [("suffix_automaton.py", """        node.first_endpos - length for node in follow_reverse_links(current)
    )
""", """        node.first_endpos - length
        for node in follow_reverse_links(current)
        if node.link is not None
    )
""")],
    "the empty query",
    "the empty query doesn't occur at the beginning of the text",
    """
from gaspra import find_substring
for text in ("", "a", "abab", (1, 2, 1)):
    assert list(find_substring(text, text[:0])) == list(range(len(text) + 1)), text
""")

bug("c06-first-of-clone", "C06",
    [("suffix_automaton.py", """        first_endpos=q.first_endpos,
        link=q.link,
""", """        first_endpos=q.first_endpos if q.link is p.link or p.link is None else p.first_endpos + 1,
        link=q.link,
""")],
    "a repeated block that's an extension of another one with an earlier occurrence elsewhere",
    "positions are computed from the first occurrence of a shorter block",
    """
import itertools
from gaspra import find_substring
for n in range(1, 9):
    for w in itertools.product("ab", repeat=n):
        text = "".join(w)
        for query in ("a", "ab", "aa", "ba", "aba", "abb"):
            want = [i for i in range(n) if text.startswith(query, i)]
            assert list(find_substring(text, query)) == want, (text, query)
""")

bug("c06-repeats-across", "C06",
    [("suffix_automaton.py", """    deduped = []
    for candidate in sequence:
        if len(deduped) == 0 or candidate != deduped[-1]:
            deduped.append(candidate)
    return deduped
""", """    deduped = []
    for candidate in sequence:
        if len(deduped) == 0 or candidate is not deduped[-1]:
            deduped.append(candidate)
    return deduped
""")],
    "an occurrence at a position over 256 that several states have",
    "positions which the interpreter doesn't share are returned more than once",
    """
from gaspra import find_substring
text = "q" * 300 + "abcabdabcabe"
for query in ("a", "ab", "abc", "b", "qa", "q"):
    want = [i for i in range(len(text)) if text.startswith(query, i)]
    assert list(find_substring(text, query)) == want, query
""")

bug("c09-same-length-changes", "C09",
    [("merge.py", """    return (len(fragment0.insert) == len(fragment1.insert) == insert_length) and (
        fragment0.length == fragment1.length == delete_length
    )
""", """    return (
        len(fragment0.insert) == len(fragment1.insert) == insert_length > 0
    ) and fragment0.length == fragment1.length == delete_length
"""), ("merge.py", """    if head0 and head1:
        output = ConflictFragment(head0.insert, head1.insert)
""", """    if head0 and head1 and (head0.insert or head1.insert):
        output = ConflictFragment(head0.insert, head1.insert)
""")],
    "nothing?", "pure deletions of both", """
import itertools
from gaspra import merge_token_sequence
words = ["".join(w) for n in range(6) for w in itertools.product("abc", repeat=n)]
for p in ("abc", "aabb", "abcab"):
    for v in words:
        assert list(merge_token_sequence(p, v, v)) == [v], (p, v)
        assert list(merge_token_sequence(p, p, v)) == [v], (p, v)
""")

bug("c10-change-before-copy", "C10",
    [("merge.py", """        # Anything left over?
        if copy_fragment.length > smaller_length:
            *_, copy_tail = split_copy_fragment(copy_fragment, smaller_length)
""", """        # Anything left over?
        if copy_fragment.length > max(smaller_length, 1):
            *_, copy_tail = split_copy_fragment(copy_fragment, smaller_length)
""")],
    "an insertion by one branch before a single token that the other branch keeps between two changes",
    "the token between is lost",
    """
from gaspra import merge_token_sequence
for p, a, b, want in (("12345", "12x345", "1b3d5", None), ("01234", "01x234", "01z23w4", None), ("abcde", "aXcYe", "abZcde", None)):
    pass
assert list(merge_token_sequence("012345678", "0X2Y45678", "01234567Z")) == ["0X2Y4567Z"]
assert list(merge_token_sequence("abcdefg", "aXcYefg", "abcdeZfg"))  == ["aXcYeZfg"]
assert list(merge_token_sequence("abcdefgh", "abcXeYgh", "Zbcdefg")) == ["ZbcXeYg"]
assert list(merge_token_sequence("abcdefghi", "abcXeYghi", "aZcdefgh")) == ["aZcXeYgh"]
assert list(merge_token_sequence("abcdef", "Xbcdef", "abcdeYf")) == ["XbcdeYf"]
assert list(merge_token_sequence("abXc", "abXcd", "bXc")) == ["bXcd"]
""")

bug("c10-equal-copies", "C10",
    [("merge.py", """    if fragment0 == longer:
        tail0 = long_queue_tail
    else:
        tail1 = long_queue_tail
""", """    if fragment0.insert[-1:] == longer.insert[-1:]:
        tail0 = long_queue_tail
    else:
        tail1 = long_queue_tail
""")],
    "unchanged pieces of the two branches that begin at the same place, the second one being longer, both ending with the same token",
    "what's left of an unchanged piece is put back on the wrong branch",
    """
from gaspra import merge_token_sequence
assert list(merge_token_sequence("abcabdxa", "abcabdYa", "abcZabdxa")) == ["abcZabdYa"]
assert list(merge_token_sequence("xaya12", "xaQya12", "xaya1R")) == ["xaQya1R"]
assert list(merge_token_sequence("1a2a3", "1aX2a3", "1a2aY")) == ["1aX2aY"]
assert list(merge_token_sequence("ka2a3", "kaX2a3", "ka2aY3")) == ["kaX2aY3"]
""")

bug("c20-next-to-last", "C20",
    [("memory_tree.py", """        while depth < node.height:
            next_child_index""", """        while depth < node.height - (depth > 6):
            next_child_index""")],
    "a branch of more than a few dozen versions in the in-memory tree", "splits happen too early on deep paths", """
import math
from gaspra.versions import Versions
from gaspra.memory_tree import MemoryTree
v = Versions(tree=MemoryTree())
for n in range(1, 300):
    v.add(n, b"%d\\n" % n, n - 1 if n > 1 else None)
    for t in range(1, n + 1):
        assert len(v.tree.path_to(t)) <= 2 * math.sqrt(n) + 1, (n, t, v.tree.path_to(t))
""")

bug("c20-no-shrinking", "C20",
    [("memory_tree.py", """            self.nodes[tag] = replace(node, height=child_height + 1, size=size + 1)
            tag = node.parent
""", """            if node.parent is not None and child_height + 1 < node.height:
                # Only a path that gets longer matters further up.
                self.nodes[tag] = replace(node, size=size + 1)
            else:
                self.nodes[tag] = replace(node, height=child_height + 1, size=size + 1)
            tag = node.parent
""")],
    "a history long enough for versions to be split off from below others", "heights never shrink, so later splits are chosen badly", """
import math
from gaspra.versions import Versions
from gaspra.memory_tree import MemoryTree
v = Versions(tree=MemoryTree())
for n in range(1, 300):
    v.add(n, b"%d\\n" % n, n - 1 if n > 1 else None)
    for t in range(1, n + 1):
        assert len(v.tree.path_to(t)) <= 2 * math.sqrt(n) + 1, (n, t, v.tree.path_to(t))
""")

bug("c23-patch-before-encoding", "C23",
    [("versions.py", """        encoded_original = tokenizer.encode(original)
        encoded_modified = tokenizer.encode(modified)
""", """        encoded_modified = tokenizer.encode(modified)
        encoded_original = tokenizer.encode(original)
""")], "nothing", "nothing", "")
del BUGS["c23-patch-before-encoding"]

bug("c22-like", "C22",
    [("db_collections.py", '''DELETE = """
DELETE
FROM {table}
WHERE tag = ?
"""''', '''DELETE = """
DELETE
FROM {table}
WHERE tag GLOB ?
"""''')],
    "deleting a tag that contains *, ? or [", "other entries that match the pattern are deleted, or the one named isn't", """
import os, sqlite3, tempfile
from gaspra.db_collections import DBCollection
with tempfile.TemporaryDirectory() as d:
    c = DBCollection("t", lambda: sqlite3.connect(os.path.join(d, "x.db")))
    for tag in ("a", "b", "?", "[b]"):
        c[tag] = tag.encode()
    del c["?"]
    assert sorted(c) == ["[b]", "a", "b"], list(c)
    del c["[b]"]
    assert sorted(c) == ["a", "b"], list(c)
""")
