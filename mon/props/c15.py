"""C15: the line-oriented view keeps both texts and shows whole lines."""

from mon import gen
from mon.core import require, sut
from mon.oracle import concat
from mon.props.c01 import TOKENIZERS

from gaspra import diff_token_sequences, merge_token_sequence
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.tokenizers import decode_and_line_diff_changes, diff, merged
from gaspra.types import Change

ID = "C15"
LEVEL = "exploration"
FILES = ("diff_to_lines.py", "tokenizers.py")
RULE = (
    "A case is a diff, a merge (each with every tokenizer) or a stream of unchanged pieces and changes, turned "
    "into lines by the plain and the consolidating function; each side is compared character by character, with "
    "its marks, to the underlying one; non-trivial when the view has a change."
)
FLOORS = {"views": 30000, "changes": 20000, "nested marks": 20000, "newline gained": 1000, "streams": 5000, "unchanged lines in changes": 3000}

ROUTES = ("diff", "merge", "stream", "words")


def blocks(tier):
    return 160 if tier == "quick" else 2400


def small_texts(alphabet, longest):
    for word in gen.all_words(len(alphabet), longest):
        yield "".join(alphabet[i] for i in word)


def stream(rng, most=7, longest=6):
    """Alternating pieces as any diff may have them."""
    pieces = []
    alphabet = rng.choice(["ab\n", "a\n", "a\n ", "ab \n\r\u2028", "a\n\n"])

    def word(least):
        return "".join(rng.choice(alphabet) for _ in range(rng.choice([least, 1, 1, 2, 3, longest])))

    changing = rng.random() < 0.5
    for _ in range(rng.randint(0, most)):
        if changing:
            a, b = word(0), word(0)
            if a == b:
                a += "x"
            pieces.append((a, b))
        else:
            pieces.append(word(1))
        changing = not changing
    return pieces


def cases(tier, block, rng):
    if block < 16:
        texts = list(small_texts("a\n" if block % 2 else "ab\n", 4 if block % 2 else 3))
        for i, a in enumerate(texts):
            if i % 8 != block // 2:
                continue
            for b in texts:
                for name in ("char", "line"):
                    yield dict(_route="diff", _tok=name, texts=(a, b))
    for _ in range(40):
        yield dict(_route="stream", _tok="", texts=stream(rng))
    if block % 4 == 2:
        most, longest = rng.choice([(600, 6), (300, 40), (30, 1100), (12, 20000), (3, 140000)])
        yield dict(_route="stream", _tok="", texts=stream(rng, most, longest))
    for _ in range(30):
        alphabet = rng.choice(["ab\n", "a\n", "a\n ", "abc\r\n"])
        longest = rng.choice([6, 12, 30])
        route = rng.choice(["diff", "merge"])
        base = "".join(rng.choice(alphabet) for _ in range(rng.randint(0, longest)))
        texts = [base]
        for _ in range(1 if route == "diff" else 2):
            text = list(base)
            for _ in range(rng.randint(0, 4)):
                i = rng.randint(0, len(text))
                text[i : i + rng.randint(0, 3)] = [rng.choice(alphabet) for _ in range(rng.randint(0, 3))]
            texts.append("".join(text))
        yield dict(_route=route, _tok=rng.choice(list(TOKENIZERS)), texts=tuple(texts))
    for _ in range(30):
        exotic = rng.choice([0, 0.3])
        newline = rng.choice(["\n", "\n", "\r\n"])
        base = gen.document(rng, rng.randint(0, 10), exotic, newline)
        route = rng.choice(["diff", "merge"])
        texts = [base]
        for _ in range(1 if route == "diff" else 2):
            texts.append(gen.edit_document(rng, base, rng.randint(0, 5), exotic, newline))
        yield dict(_route=route, _tok=rng.choice(list(TOKENIZERS)), texts=tuple(texts))
    if places := gen.heavy_places(rng, block, tier):
        texts = gen.heavy_documents(rng, min(places, 1300), rng.choice([1, 2]))
        yield dict(
            _route="diff" if len(texts) == 2 else "merge", _tok=rng.choice(list(TOKENIZERS)), texts=tuple(texts)
        )
    if block in (18, 19):
        texts = gen.megabytes(rng, 2 + block % 2, block == 18)
        yield dict(_route="diff" if len(texts) == 2 else "merge", _tok="line", texts=tuple(texts))
    if block % 4 == 3:
        base = gen.document(rng, rng.choice([150, 400]), 0.1)
        texts = [base] + [gen.edit_document(rng, base, rng.choice([1, 5, 20])) for _ in range(rng.choice([1, 2]))]
        yield dict(
            _route="diff" if len(texts) == 2 else "merge", _tok=rng.choice(list(TOKENIZERS)), texts=tuple(texts)
        )


def marked(items, side):
    """The text of a side and the mark of each character, from a diff."""
    text, marks = [], []
    for item in items:
        if isinstance(item, Change):
            text.append(item[side])
            marks.append("1" * len(item[side]))
        else:
            text.append(item)
            marks.append("0" * len(item))
    return "".join(text), "".join(marks)


def flatten(parts, side):
    """One side of a change in a line view."""
    if isinstance(parts, str):
        return parts, "1" * len(parts)
    text, marks = [], []
    for part in parts:
        if isinstance(part, Change):
            require(not part[1 - side], "a side of a change contains text of the other side", change=parts)
            text.append(part[side])
            marks.append("1" * len(part[side]))
        else:
            require(isinstance(part, str), "a line view has an item that isn't text", part=part)
            text.append(part)
            marks.append("0" * len(part))
    return "".join(text), "".join(marks)


def whole(text):
    return not text or text.endswith("\n")


def untouched_lines(change):
    """Unchanged lines of a change, which share no line with changed text on either side, nor with lines that do.

    A line of one side and a line of the other belong together if they share unchanged text."""
    group_of = {}

    def find(x):
        while group_of.setdefault(x, x) != x:
            x = group_of[x]
        return x

    lines, touched, owner = {}, set(), ({}, {})
    for side in (0, 1):
        text, marks = flatten(change[side], side)
        line = unchanged = 0
        for c, mark in zip(text, marks):
            key = (side, line)
            lines[key] = lines.get(key, "") + c
            if mark == "1":
                touched.add(key)
            else:
                owner[side][unchanged] = key
                unchanged += 1
            line += c == "\n"
    for i in owner[0].keys() & owner[1].keys():
        group_of[find(owner[0][i])] = find(owner[1][i])
    roots = {find(key) for key in touched}
    return [text for key, text in lines.items() if find(key) not in roots]


def check_view(view, sides, consolidated, obs, context):
    obs.count("views")
    text, marks = ["", ""], ["", ""]
    previous = False
    for item in view:
        if isinstance(item, Change):
            obs.count("changes")
            require(not (consolidated and previous), "two changes are adjacent", view=view, of=context)
            previous = True
            for side in (0, 1):
                t, m = flatten(item[side], side)
                obs.count("nested marks", m.count("1") and m.count("0") and 1)
                require(whole(t), "a side of a change isn't whole lines", side=t, view=view, of=context)
                text[side] += t
                marks[side] += m
            for line in untouched_lines(item):
                obs.count("unchanged lines in changes")
                require(
                    line.isspace(),
                    "a line without any change, which isn't blank, is shown as part of a change",
                    line=line,
                    change=item,
                    view=view,
                    of=context,
                )
        else:
            require(isinstance(item, str), "a line view has an item that isn't text", item=item)
            require(whole(item), "an unchanged piece isn't whole lines", piece=item, view=view, of=context)
            if item:
                previous = False
            for side in (0, 1):
                text[side] += item
                marks[side] += "0" * len(item)
    for side in (0, 1):
        want, want_marks = sides[side]
        got, got_marks = text[side], marks[side]
        if got != want and want and not want.endswith("\n") and got == want + "\n":
            obs.count("newline gained")
            got, got_marks = got[:-1], got_marks[:-1]
        require(got == want, f"side {side} of the line view has other text", got=got, want=want, of=context)
        require(
            got_marks == want_marks,
            f"side {side} of the line view marks other characters",
            text=want,
            got=got_marks,
            want=want_marks,
            of=context,
        )
    if any(isinstance(item, Change) for item in view):
        obs.mark_nontrivial()


def check(case, obs):
    texts, route = case["texts"], case["_route"]
    if route == "stream":
        items = [Change(*t) if isinstance(t, tuple) and len(t) == 2 else t for t in texts]
        obs.count("streams")
    elif case["_tok"] in ("default", "none") and route == "diff":
        items = sut(lambda: list(diff_token_sequences(*texts)))
    elif case["_tok"] == "none" and route == "merge":
        items = sut(lambda: list(merge_token_sequence(*texts)))
    else:
        function = diff if route == "diff" else merged
        items = sut(lambda: list(function(*texts, TOKENIZERS[case["_tok"]]())))
    sides = [marked(items, 0), marked(items, 1)]
    if route == "diff":
        require(sides[0][0] == texts[1] and sides[1][0] == texts[0], "the diff itself has other text", texts=texts)
    context = (texts, case["_tok"])
    check_view(sut(lambda: list(consolidated_line_diff(iter(items)))), sides, True, obs, context)
    check_view(sut(lambda: list(to_line_diff(iter(items)))), sides, False, obs, context)
    if case["_tok"] in ("char", "line", "symbol") and route != "stream":
        tokenizer = TOKENIZERS[case["_tok"]]()
        encoded = [sut(tokenizer.encode, t) for t in texts]
        function = diff_token_sequences if route == "diff" else merge_token_sequence
        view = sut(lambda: list(decode_and_line_diff_changes(function(*encoded), tokenizer)))
        check_view(view, sides, False, obs, context)
