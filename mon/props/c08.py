"""C08: neither length nor the number of edits is limited by call depth."""

import io
import os
import sys

from mon import gen
from mon.core import Obs, Violation, remove_scratch, require, scratch_dir, sut
from mon.oracle import first_index
from mon.props import c01

import gaspra
from gaspra import merge_tool, suffix_automaton
from gaspra.changesets import apply, apply_forward, apply_reverse, find_changeset, strip_forward, strip_reverse
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.tokenizers import CharTokenizer, LineTokenizer, SymbolTokenizer, diff, merged
from gaspra.types import Change
from gaspra.versions import Versions

ID = "C08"
LEVEL = "exploration"
FILES = ("changesets.py", "merge.py", "multiple_strings.py", "suffix_automaton.py", "diff_to_lines.py", "versions.py")
NO_SHRINK = True
RULE = (
    "A case is one operation on a long or much-edited input. Suffix-deep edit chains have more edits than the "
    "interpreter's recursion limit (1000); prefix-deep chains, whose size is quadratic in their depth, run "
    "with the limit lowered to 130 frames above the caller and more than that many edits. Every result is "
    "checked with the oracle of a small one. All cases are non-trivial."
)
FLOORS = {"operations": 30, "edits beyond the limit": 10, "long searches": 8}
ASSUMPTIONS = ["a prefix-deep chain that works with n edits under a limit of n frames works in general"]

CHAIN_OPERATIONS = (
    "diff",
    "diff reversed",
    "patch",
    "tokenizer diff",
    "merge clean",
    "merge conflicts",
    "merge one conflict",
    "line view",
    "versions",
    "cli diff",
    "cli merge",
)
SEARCHES = ("lcs", "substring", "multiple", "unequal diff", "long pieces", "version chain")


def blocks(tier):
    return 38 if tier == "quick" else 80


def cases(tier, block, rng):
    n = len(CHAIN_OPERATIONS)
    if block < n:
        edits = rng.randint(1010, 1040) if tier == "quick" else rng.randint(1500, 2500)
        yield dict(_operation=CHAIN_OPERATIONS[block], _shape="suffix", edits=edits, _limit=0)
    elif block < 2 * n:
        edits = rng.randint(142, 148) if tier == "quick" else rng.randint(200, 260)
        yield dict(_operation=CHAIN_OPERATIONS[block - n], _shape="prefix", edits=edits, _limit=130)
    elif block < 2 * n + 12:
        sizes = (6000, 20000) if tier == "quick" else (20000, 150000)
        yield dict(
            _operation=SEARCHES[block % len(SEARCHES)],
            _shape=rng.choice(["one letter", "fibonacci", "random", "period"]),
            edits=rng.randint(*sizes),
            _limit=0,
        )
    else:
        # random shapes under a lowered limit
        for _ in range(2):
            yield dict(
                _operation=rng.choice(CHAIN_OPERATIONS),
                _shape=rng.choice(["suffix", "balanced", "random"]),
                edits=rng.randint(250, 350),
                _limit=200,
            )


def chain(shape, n, rng_key):
    """Parent and two versions with n separate edits (as tokens)."""
    import random

    rng = random.Random(f"{shape} {n} {rng_key}")
    parent, a, b = [], [], []
    fresh = iter(range(1_000_000, 9_000_000))
    for i in range(n):
        if shape == "prefix":
            length = i + 1
        elif shape == "suffix":
            length = 1
        elif shape == "balanced":
            length = 1 + (i & -i).bit_length()
        else:
            length = rng.randint(1, 4)
        x = next(fresh)
        parent += [x]
        a += [next(fresh)]
        b += [next(fresh)]
        block = [next(fresh) for _ in range(length)]
        parent += block
        a += block
        b += block
    return tuple(parent), tuple(a), tuple(b)


def as_lines(tokens):
    return "".join(f"{t}\n" for t in tokens)


class lowered_limit:
    def __init__(self, frames):
        self.frames = frames

    def __enter__(self):
        self.saved = sys.getrecursionlimit()
        if self.frames:
            depth, frame = 0, sys._getframe()
            while frame:
                depth, frame = depth + 1, frame.f_back
            sys.setrecursionlimit(depth + self.frames)

    def __exit__(self, *_):
        sys.setrecursionlimit(self.saved)


def check(case, obs):
    require(sys.getrecursionlimit() <= 1000, "the recursion limit was raised for the whole process")
    with lowered_limit(case["_limit"]):
        if case["_operation"] in CHAIN_OPERATIONS:
            on_chain(case, obs)
            obs.count("edits beyond the limit")
            obs.maximum("edits", case["edits"])
        else:
            on_search(case, obs)
            obs.count("long searches")
    obs.count("operations")
    obs.mark_nontrivial()


def on_chain(case, obs):
    operation = case["_operation"]
    n = case["edits"]
    p, a, b = chain(case["_shape"], n, 0)
    if operation in ("diff", "diff reversed", "tokenizer diff"):
        if operation == "diff reversed":
            p, a = a, p
        if operation == "tokenizer diff":
            p, a = as_lines(p), as_lines(a)
            items = sut(lambda: list(diff(p, a, LineTokenizer())))
        else:
            items = sut(lambda: list(gaspra.diff_token_sequences(p, a)))
        c01.examine(p, a, items, Obs())
        require(len(items) == 2 * n, "number of pieces and changes", got=len(items), want=2 * n)
    elif operation == "patch":
        changes = sut(lambda: list(find_changeset(p, a).as_change_stream()))
        require(sut(apply_forward, changes, p) == a, "apply_forward")
        require(sut(apply_reverse, changes, a) == p, "apply_reverse")
    elif operation == "merge clean":
        # Branches change alternate places.
        x, y, want = [], [], []
        turn = -1
        for i, j, k in zip(p, a, b):
            if i == j:
                x.append(i), y.append(i), want.append(i)
            else:
                turn += 1
                if turn % 2:
                    x.append(j), y.append(i), want.append(j)
                else:
                    x.append(i), y.append(k), want.append(k)
        # ... and one of them inserts at every kept place, so that it alone exceeds the limit.
        got = sut(lambda: list(gaspra.merge_token_sequence(p, tuple(x), tuple(y))))
        require(got == [tuple(want)], "merge of separate edits isn't clean", pieces=len(got))
        got = sut(lambda: list(gaspra.merge_token_sequence(p, a, p)))
        require(got == [a], "merge of one-sided edits", pieces=len(got))
        got = sut(lambda: list(gaspra.merge_token_sequence(p, p, a)))
        require(got == [a], "merge of one-sided edits", pieces=len(got))
    elif operation == "merge conflicts":
        got = sut(lambda: list(gaspra.merge_token_sequence(p, a, b)))
        conflicts = [item for item in got if isinstance(item, Change)]
        require(len(conflicts) == n, "number of conflicts", got=len(conflicts), want=n)
        for side, want in ((0, a), (1, b)):
            resolved = []
            for item in got:
                resolved += item[side] if isinstance(item, Change) else item
            require(tuple(resolved) == want, "resolved merge isn't the branch", side=side)
    elif operation == "merge one conflict":
        # The whole text is one conflict, which is then refined in n places.
        got = sut(lambda: list(gaspra.merge_token_sequence((0,), a, b)))
        conflicts = [item for item in got if isinstance(item, Change)]
        require(len(conflicts) == n, "number of conflicts", got=len(conflicts), want=n)
        for side, want in ((0, a), (1, b)):
            resolved = []
            for item in got:
                resolved += item[side] if isinstance(item, Change) else item
            require(tuple(resolved) == want, "resolved merge isn't the branch", side=side)
    elif operation == "line view":
        stream = sut(lambda: list(diff(as_lines(p), as_lines(a), LineTokenizer())))
        got = sut(lambda: list(consolidated_line_diff(iter(stream))))
        for side, want in ((0, as_lines(a)), (1, as_lines(p))):
            text = "".join(flatten(item, side) for item in got)
            require(text == want, "line view has another text", side=side)
        # one line with thousands of changes in it
        stream = [part for i in range(n) for part in (Change(f"a{i}", f"b{i}"), f" {i} ")]
        got = sut(lambda: list(consolidated_line_diff(iter(stream))))
        for side in (0, 1):
            text = "".join(flatten(item, side) for item in got)
            want = "".join(flatten(item, side) for item in stream)
            require(text.rstrip("\n") == want, "line view has another text", side=side)
    elif operation == "versions":
        versions = Versions(tokenizer_factory=LineTokenizer)
        contents = [as_lines(t).encode() for t in (p, a, b)]
        for i, content in enumerate(contents):
            sut(versions.add, f"v{i}", content, f"v{i - 1}" if i else None)
        for i, content in enumerate(contents):
            require(sut(versions.get, f"v{i}") == content, "version retrieved with other content", version=i)
            sut(versions.version_info, f"v{i}")
    elif operation in ("cli diff", "cli merge"):
        cli(operation, p, a, b)


def flatten(item, side):
    if isinstance(item, str):
        return item
    if isinstance(item, Change):
        return flatten(item[side], side)
    return "".join(flatten(part, side) for part in item)


def cli(operation, p, a, b):
    scratch = scratch_dir("c08")
    saved = sys.argv, sys.stdout
    try:
        names = []
        for name, tokens in (("p", p), ("a", a), ("b", b)):
            names.append(os.path.join(scratch, name))
            with open(names[-1], "w") as file:
                file.write(as_lines(tokens))
        out = os.path.join(scratch, "out")
        sys.stdout = io.StringIO()
        if operation == "cli diff":
            sys.argv = ["gaspra-diff", "-l", "-g", "-o", out, names[0], names[1]]
            sut(merge_tool.diff_cli)
            sides = a, p
        else:
            sys.argv = ["gaspra-merge", "-l", "-g", "-o", out, *names]
            sut(merge_tool.merge_cli)
            sides = b, a  # from_branch_head comes first on the command line
        sys.stdout = saved[1]
        texts, state = ["", ""], None
        with open(out) as file:
            for line in file:
                if line.startswith("<<<<<<< "):
                    state = 0
                elif line == "=======\n":
                    state = 1
                elif line.startswith(">>>>>>> "):
                    state = None
                else:
                    for side in (0, 1):
                        if state in (None, side):
                            texts[side] += line
        for side in (0, 1):
            require(texts[side] == as_lines(sides[side]), f"{operation} lost a side of the file", side=side)
    finally:
        sys.argv, sys.stdout = saved
        remove_scratch(scratch)


def on_search(case, obs):
    import random

    n = case["edits"]
    shape = case["_shape"]
    rng = random.Random(n)
    if shape == "one letter":
        a = (7,) * n
    elif shape == "fibonacci":
        a = gen.fibonacci(n)
    elif shape == "period":
        a = ((0, 1, 2, 0, 1) * n)[:n]
    else:
        a = tuple(rng.randrange(4) for _ in range(n))
    operation = case["_operation"]
    obs.maximum("input length", n)
    if operation == "lcs":
        require(sut(gaspra.find_lcs, a, a) == (0, 0, n), "find_lcs of equal sequences")
        b = a[n // 3 :]
        i, j, length = sut(gaspra.find_lcs, a, b)
        require((i, j, length) == (first_index(a, b), 0, len(b)), "find_lcs of a suffix", got=(i, j, length))
    elif operation == "substring":
        text = "".join(chr(97 + t) for t in a)
        query = text[:1]
        want = [i for i, c in enumerate(text) if c == query]
        require(list(sut(gaspra.find_substring, text, query)) == want, "find_substring")
        require(list(sut(gaspra.find_substring, text, text)) == [0], "find_substring of the whole text")
        require(
            sut(lambda: suffix_automaton.find_substring(suffix_automaton.build(text), text[1:]))
            == text.find(text[1:]),
            "first occurrence",
        )
    elif operation == "multiple":
        n = min(n, 40000)
        b = a[n // 4 : n]
        want = (first_index(a[:n], b), 0), len(b)
        got = sut(gaspra.find_lcs_multiple, a[:n], b)
        require(got == want, "find_lcs_multiple", got=got, want=want)
    elif operation == "unequal diff":
        for x, y in ((a, a[:3]), (a[:3], a), (a, a[::1000]), (a[::1000], a)):
            items = sut(lambda: list(gaspra.diff_token_sequences(x, y)))
            c01.examine(x, y, items, Obs())
    elif operation == "long pieces":
        text = bytes(a[:n])
        x, y = text + b"\xff" + text, text + b"\xfe\xfd" + text
        items = sut(lambda: list(gaspra.diff_token_sequences(x, y)))
        c01.examine(x, y, items, Obs())
        got = sut(lambda: list(gaspra.merge_token_sequence(x, y, x)))
        require(got == [y], "merge of one-sided edit of a long text")
    else:
        # a long history: thousands of versions can't mean deep recursion either
        versions = Versions()
        count = 1200
        for i in range(count):
            sut(versions.add, i, b"%d and %d" % (i, i * i), i - 1 if i else None)
        for i in range(0, count, 7):
            require(sut(versions.get, i) == b"%d and %d" % (i, i * i), "version retrieved with other content", version=i)
