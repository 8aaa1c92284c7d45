"""C17: the console shows exactly the text, and marks what changed."""

import os
import re

from mon import gen
from mon.core import OutOfDomain, remove_scratch, require, scratch_dir, sut
from mon.props.c16 import COMBINATIONS, texts_for
from mon.tools import TOKEN_OPTIONS, environment, run_tool, split_headers

from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.tokenizers import diff, merged
from gaspra.types import Change

ID = "C17"
LEVEL = "exploration"
FILES = ("merge_tool.py", "markup.py", "diff_to_lines.py")
RULE = (
    "A case is a run of gaspra-diff or gaspra-merge on generated files with one of all combinations of options, "
    "printing to a redirected or a color console of some width; the output is compared character by character "
    "with the pieces of the diff, and colors with their kinds; non-trivial when something changed."
)
FLOORS = {
    "plain runs": 3000,
    "color runs": 3000,
    "styled characters": 100000,
    "option combinations": 40,
    "long lines": 500,
    "escapes": 1000,
    "struck out": 10000,
}
ASSUMPTIONS = (
    "The workload has no ESC characters (their effect can't be told from styling).",
    "Color means a terminal with 256 or more colors.",
)
NAMES = [("p.txt", "into.txt", "from.txt"), ("p", "one two.md", "thrée.md"), ("d/x.py", "e/x.py", "f/x.py"), ("[p]", "[a].txt", "b[].txt")]
NOT_COVERED = re.compile("\x1b")
SGR = re.compile(rb"\x1b\[([\d;]*)m")
HOSTILE = [
    "[bold]", "[/]", "[/bold]", "\\[", "\\", "\\\\", "[green4]", "[", "]", "[]", "[[", ":smile:", ":warning:", "[link=x]",
    "[@click=f()]", "[/green4]", "[dark_red]x[/]", "\\[/]", "[#fff]", "[1]", "<<<", ">>>", "\u202e", "\u200d", "é", "日本",
    "\U0001f600", "e\u0301", "\ufeff", "https://example.com/a?b=c", "'x'", '"y"', "3.14", "None", "{}", "%s", "\x00", "\x85",
    "\u2028", "\u2029", "\x1c", "\x7f", "\ufdd0", "\ufdd1", "[red", "red]", "\t", "\r", "\x07", "\x08", "\x0b", "\x0c", "\x7f",
]

directory = None


def setup_worker():
    global directory
    directory = scratch_dir("c17")
    for name in "def":
        os.mkdir(os.path.join(directory, name))


def teardown_worker():
    remove_scratch(directory)


def blocks(tier):
    return 160 if tier == "quick" else 1600


def hostile_texts(rng, count):
    separator = rng.choice(["", " ", "\n", " "])

    def words(k):
        return [rng.choice(HOSTILE) if rng.random() < 0.6 else rng.choice("abc 1\n") for _ in range(k)]

    base = words(rng.randint(0, 14))
    out = [separator.join(base)]
    for _ in range(count):
        text = list(base)
        for _ in range(rng.randint(0, 4)):
            i = rng.randint(0, len(text))
            text[i : i + rng.randint(0, 2)] = words(rng.randint(0, 2))
        joined = separator.join(text)
        if joined and rng.random() < 0.4:
            i = rng.randint(0, len(joined) - 1)
            joined = joined[:i] + rng.choice("[]\\/:x") * rng.randint(0, 2) + joined[i + rng.randint(0, 1) :]
        out.append(joined)
    return out


def cases(tier, block, rng):
    if block in (18, 19):
        tool = rng.choice(["gaspra-diff", "gaspra-merge"])
        yield dict(
            _options=(tool, "-l", *rng.choice(COMBINATIONS)[2:5], ""),
            texts=tuple(gen.megabytes(rng, 2 if tool == "gaspra-diff" else 3)),
            _names=NAMES[0],
            _color=["", "xterm-256color"][block % 2],
            _columns="80",
        )
    for combination in COMBINATIONS:
        if rng.random() < 0.1:
            continue
        count = 1 if combination[0] == "gaspra-diff" else 2
        if rng.random() < 0.5:
            texts = hostile_texts(rng, count)
        else:
            texts = texts_for(rng, count)
        if rng.random() < 0.15:
            # Long lines.
            i = rng.randrange(3)
            if i == 0:
                texts = [t.replace("\n", " ") * 4 for t in texts]
            else:
                filler = rng.choice(["x" * 300, "word " * 60, "日本" * 100, " " * 200, "a-" * 150])
                texts = [filler + t for t in texts]
        if rng.random() < 0.02:
            # Long pieces of all sorts of characters.
            n = rng.choice([70, 300, 1100, 2500])
            odd = "".join(rng.choice(["word ", "\t", "\n", "[", "]", "\\", "[/]", ":smile:", "  ", "x", "é", "\a", "\r\n"]) for _ in range(n))
            where = rng.randrange(3)
            texts = [odd + t if where == 0 else t + odd for t in texts] if where < 2 else [*texts[:-1], texts[-1] + odd]
        texts = [NOT_COVERED.sub("~", t) for t in texts]
        yield dict(
            _options=combination,
            texts=tuple(texts),
            _names=rng.choice(NAMES) if rng.random() < 0.5 else gen.file_names(rng, 3),
            _color=rng.choice(["", "xterm-256color", "truecolor"]),
            _columns=rng.choice(["80", "80", "20", "5", "2", "1", "200"]),
        )


def labelled(items, git, into_name, from_name):
    """What's printed, as (text, label); label None isn't judged."""
    out = []

    def side(parts, index, letter):
        if isinstance(parts, str):
            out.append((parts, letter + "1"))
            return
        for part in parts:
            if isinstance(part, Change):
                out.append((part[index], letter + "1"))
            else:
                out.append((part, letter + "0"))

    for item in items:
        if isinstance(item, str):
            out.append((item, "U"))
            continue
        if git:
            out.append((f"<<<<<<< {into_name}\n", None))
        side(item.a, 0, "I")
        if git:
            out.append(("=======\n", None))
        side(item.b, 1, "D")
        if git:
            out.append((f">>>>>>> {from_name}\n", None))
    return out


def parse_sgr(data):
    """The text and the style of each character."""
    chunks = []
    style = ()
    position = 0
    for match in list(SGR.finditer(data)) + [None]:
        chunk = data[position : match.start() if match else len(data)].decode("utf-8")
        chunks.append((chunk, style))
        if match:
            position = match.end()
            codes = match[1].decode()
            style = () if codes in ("", "0") else style + (codes,)
    text = "".join(c for c, _ in chunks)
    styles = [s for c, s in chunks for _ in c]
    return text, styles


def struck(style):
    """Whether a style strikes text out."""
    out = False
    for codes in style:
        codes = codes.split(";")
        while codes:
            code = codes.pop(0)
            if code in ("38", "48", "58") and codes:
                del codes[: 2 if codes[0] == "5" else 4]
            elif code == "9":
                out = True
            elif code == "29":
                out = False
    return out


def check(case, obs):
    texts, names = case["texts"], case["_names"]
    tool, token, lines, git, strike, with_diff = case["_options"]
    if len(texts) != (2 if tool == "gaspra-diff" else 3) or any(NOT_COVERED.search(t) for t in texts):
        raise OutOfDomain("not covered")
    if with_diff and any("<<<" in t for t in texts):
        texts = tuple(t.replace("<<<", "<(<") for t in texts)
    obs.distinct("option combinations", case["_options"])
    text, styles = show(case, texts)
    color = bool(case["_color"])
    obs.count("color runs" if color else "plain runs")
    columns = int(case["_columns"])
    obs.count("long lines", sum(1 for t in texts for l in t.split("\n") if len(l) > max(columns, 80)))
    obs.count("escapes", sum(t.count("[") + t.count("\\") for t in texts))

    view = (lambda items: list(consolidated_line_diff(iter(items)))) if (lines or git) else list
    tokenizer = TOKEN_OPTIONS[token]
    if tool == "gaspra-diff":
        names = (names[2], names[1])
        items = sut(lambda: view(diff(*texts, tokenizer())))
        into_name, from_name = os.path.basename(names[1]), os.path.basename(names[0])
        expected = [(text, labelled(items, git, into_name, from_name))]
    else:
        into_name, from_name, parent_name = (os.path.basename(names[i]) for i in (1, 2, 0))
        items = sut(lambda: view(merged(*texts, tokenizer())))
        final = labelled(items, git, into_name, from_name)
        if with_diff:
            first, one, two, last = split_headers(text, (into_name, from_name, "Merged"))
            require(first == "", "text before the first header", output=text)
            diffs = [sut(lambda: view(diff(texts[0], t, tokenizer()))) for t in texts[1:]]
            expected = [
                (one, labelled(diffs[0], git, into_name, parent_name)),
                (two, labelled(diffs[1], git, from_name, parent_name)),
                (last, final),
            ]
        else:
            expected = [(text, final)]

    if any(isinstance(item, Change) for item in items):
        obs.mark_nontrivial()
    context = dict(options=case["_options"], texts=texts, columns=columns)
    kinds = {}
    position = 0
    for number, (section, pieces) in enumerate(expected):
        is_diff = tool == "gaspra-diff" or number < len(expected) - 1
        want = "".join(p for p, _ in pieces)
        require(section == want, "the console shows other text", got=section, want=want, **context)
        position = text.index(section, position) if not with_diff else text_position(text, section, position)
        if color:
            at = position
            for piece, label in pieces:
                for character in piece:
                    if character != "\n" and label:
                        kinds.setdefault(label, {}).setdefault(styles[at], character)
                        obs.count("styled characters")
                        strikes = bool(strike) and is_diff and not git
                        if label == "D1" and strikes:
                            obs.count("struck out")
                        if label != "D0" and struck(styles[at]) != (label == "D1" and strikes):
                            require(
                                False,
                                "text that wasn't deleted is struck out"
                                if label != "D1"
                                else "deleted text isn't struck out"
                                if strikes
                                else "text is struck out without -s, or in a merge",
                                character=character,
                                kind=label,
                                style=styles[at],
                                **context,
                            )
                    at += 1
        position += len(section)
    if not color:
        require(not any(styles), "color codes in plain output", output=text, **context)
        return
    judged = [k for k in kinds if not git or k not in ("I0", "D0")]
    for i, one in enumerate(judged):
        for two in judged[:i]:
            shared = set(kinds[one]) & set(kinds[two])
            require(
                not shared,
                "the same style is used for text of different kinds",
                kinds=(one, two),
                styles=shared,
                **context,
            )


def text_position(text, section, position):
    """Where a section after a header begins."""
    at = text.index(">>>\n" + section, position)
    return at + len(">>>\n")


def show(case, texts):
    tool, *options = case["_options"]
    names = case["_names"]
    if tool == "gaspra-diff":
        names = (names[2], names[1])
        order = names
    else:
        order = (names[0], names[2], names[1])
    for name, text in zip(names, texts):
        with open(os.path.join(directory, name), "w", encoding="utf-8", newline="") as file:
            file.write(text)
    arguments = [o for o in options if o] + [os.path.join(directory, name) for name in order]
    color = case["_color"]
    settings = dict(
        COLUMNS=case["_columns"],
        LINES="25",
        NO_COLOR=None,
        FORCE_COLOR="1" if color else None,
        TTY_COMPATIBLE=None,
        TERM="xterm-256color",
        COLORTERM="truecolor" if color == "truecolor" else None,
    )
    with environment(**settings):
        output = run_tool(tool, arguments)
    return parse_sgr(output)
