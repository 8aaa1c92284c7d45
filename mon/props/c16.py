"""C16: files written by gaspra-diff and gaspra-merge contain both versions."""

import contextlib
import fcntl
import itertools
import os

from mon import gen
from mon.core import OutOfDomain, Violation, remove_scratch, require, scratch_dir, sut
from mon.merges import projection
from mon.tools import (
    unambiguous,
    LONG,
    OtherProcess,
    TOKEN_OPTIONS,
    content,
    disarm,
    require_side,
    require_unambiguous,
    run_tool,
    sides_of_git,
    sides_of_tags,
    split_headers,
    test_cases,
)

from gaspra.tokenizers import merged
from gaspra.types import Change

ID = "C16"
LEVEL = "exploration"
FILES = ("merge_tool.py", "markup.py", "diff_to_lines.py")
RULE = (
    "A case is a run of gaspra-diff or gaspra-merge on generated files with one of all combinations of options "
    "and -o; the file is parsed back into its two versions; non-trivial when it has markup."
)
FLOORS = {
    "file names": 4000,
    "names that aren't UTF-8": 200,
    "diff files": 5000,
    "merge files": 5000,
    "git conflicts": 5000,
    "option combinations": 40,
    "files with CR": 2000,
    "files of more than a megabyte": 2,
    "not UTF-8": 200,
    "not UTF-8 together with UTF-8": 100,
    "runs on pipes": 500,
    "runs with relative names": 2000,
    "runs of gaspra-torture": 400,
    "runs without an input": 150,
    "runs in a locale without Unicode": 800,
    "merge without conflicts": 500,
}
COMBINATIONS = [
    ("gaspra-diff", token, *rest)
    for token in TOKEN_OPTIONS
    for rest in itertools.product(("", "-L"), ("", "-g"), ("", "-s"), ("",))
] + [
    ("gaspra-merge", token, *rest)
    for token in TOKEN_OPTIONS
    for rest in itertools.product(("", "-L"), ("", "-g"), ("", "-s"), ("", "-d"))
]
NAMES = [
    ("p.txt", "into.txt", "from.txt"),
    ("p", "one two.md", "thrée.md"),
    ("d/x.py", "e/x.py", "f/x.py"),
    ("[p].txt", "[a].txt", "a=b;c.txt"),
    ("p.txt", "<into>", "x>>>y"),
]

# Cases that gaspra-torture knows, in both ways in which it names files
CASES = ["About.java", "getCLIArgs.java", "chunks", "ReleaseNotes", "Bug_ReporterApp", "new", "a.b"]

directory = None
other_process = None


def setup_worker():
    global directory, other_process
    directory = scratch_dir("c16")
    # A locale without Unicode
    other_process = OtherProcess(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    for name in "def":
        os.mkdir(os.path.join(directory, name))


def teardown_worker():
    if other_process is not None:
        other_process.close()
    remove_scratch(directory)


def blocks(tier):
    return 200 if tier == "quick" else 2000


def texts_for(rng, count):
    """Base and edited texts."""
    style = rng.randrange(6)
    if style == 0:
        alphabet = rng.choice(["ab\n", "a\n", "ab\r\n", "a \n[]", "a\r", "\n", "x\u2028\x85\n"])
        base = "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 16)))
        out = [base]
        for _ in range(count):
            text = list(base)
            for _ in range(rng.randint(0, 4)):
                i = rng.randint(0, len(text))
                text[i : i + rng.randint(0, 3)] = [rng.choice(alphabet) for _ in range(rng.randint(0, 3))]
            out.append("".join(text))
        return out
    if rng.random() < 0.004:
        return gen.heavy_documents(rng, rng.choice([70, 300]), count)
    if rng.random() < 0.001:
        base = gen.document(rng, rng.choice([400, 3000]))
        return [base] + [gen.edit_document(rng, base, rng.choice([1, 4])) for _ in range(count)]
    exotic = rng.choice([0, 0, 0.2, 0.8])
    newline = rng.choice(["\n", "\n", "\r\n", "\r"])
    lines = rng.randint(0, 9) if rng.random() < 0.995 else 300
    base = gen.document(rng, lines, exotic, newline)
    out = [base]
    for _ in range(count):
        if rng.random() < 0.05:
            out.append(gen.document(rng, rng.randint(0, 6), exotic))
        else:
            out.append(gen.edit_document(rng, base, rng.randint(0, 5), exotic, newline))
    return out


def cases(tier, block, rng):
    if block % 50 == 11:
        tool = rng.choice(["gaspra-diff", "gaspra-merge"])
        texts = [disarm(t) for t in gen.megabytes(rng, 2 if tool == "gaspra-diff" else 3, block < 100)]
        yield dict(
            _options=(tool, "-l", "", rng.choice(["", "-g"]), "", ""),
            files=tuple(t.encode("utf-8") for t in texts),
            _names=NAMES[0],
            _long=False,
            _target="new",
        )
    for index, combination in enumerate(COMBINATIONS):
        if rng.random() < 0.1:
            continue
        tool = combination[0]
        texts = [disarm(t) for t in texts_for(rng, 1 if tool == "gaspra-diff" else 2)]
        files = [t.encode("utf-8") for t in texts]
        if rng.random() < 0.05:
            files = [t.encode("iso-8859-1", "replace") + b"\xe9\xff" for t in texts]
        if rng.random() < 0.06:
            # Every file has an encoding of its own.
            files = [
                t.encode("utf-8") if rng.random() < 0.5 else disarm(t + "\xe9\xff").encode("iso-8859-1", "replace")
                for t in texts
            ]
        if rng.random() < 0.03:
            files = [bytes(rng.choice([10, 13, 97, 0xE9, 0xC3, 0]) for _ in range(rng.randint(0, 9))) for _ in texts]
        yield dict(
            _options=combination,
            files=tuple(files),
            _names=NAMES[rng.choice([0, 1, 2, 3, 4])] if rng.random() < 0.5 else gen.file_names(rng, 3, "\udcff\udce9\t"),
            _long=rng.random() < 0.1,
            _locale=rng.choice([""] * 11 + ["C"]),
            _target=rng.choice(["new", "new", "new", "longer", "into"]),
            # named from another folder
            _from=rng.choice(["", "", "", ".", "d"]),
            # inputs that can be read only once, in order
            _pipes=rng.random() < 0.06,
            # an input that can't be read at all
            _missing=rng.choice([0, 1, 2]) if rng.random() < 0.02 else None,
            # the files are those of a case of gaspra-torture
            _torture=rng.choice([*CASES, *(n.lstrip("-") or "n" for n in gen.file_names(rng, 1))]) if rng.random() < 0.06 else None,
        )


def undecodable(name):
    return any("\udc80" <= c <= "\udcff" for c in name)


def check(case, obs):
    if case.get("_torture") and case["_options"][0] == "gaspra-merge":
        if case["_torture"].startswith("-"):
            raise OutOfDomain("looks like an option")
        with test_cases(directory, case["_torture"]) as names:
            obs.count("runs of gaspra-torture")
            check_tool("gaspra-torture", dict(case, _names=names, _pipes=False, _missing=None, _locale=""), obs)
    else:
        check_tool(case["_options"][0], case, obs)


def check_tool(tool, case, obs):
    files, names = case["files"], case["_names"]
    texts = [content(data) for data in files]
    require_unambiguous(*texts)
    if any(len(data) > 2**20 for data in files):
        obs.count("files of more than a megabyte")
    if any("\r" in t for t in texts):
        obs.count("files with CR")
    if any(content(data).encode("utf-8") != data for data in files):
        obs.count("not UTF-8")
        if any(content(data).encode("utf-8") == data and not data.isascii() for data in files):
            obs.count("not UTF-8 together with UTF-8")
    _, token, lines, git, strike, with_diff = case["_options"]
    obs.distinct("option combinations", case["_options"])
    obs.distinct("file names", names)
    if any(map(undecodable, names)):
        obs.count("names that aren't UTF-8")
    if len(files) != (2 if tool == "gaspra-diff" else 3):
        raise OutOfDomain("number of files")

    # gaspra-diff original modified; gaspra-merge parent from into
    if tool == "gaspra-diff":
        names = (names[2], names[1])  # original, modified
        order = names
    else:
        names = (names[0], names[1], names[2])
        order = (names[0], names[2], names[1])
    paths = {name: os.path.join(directory, name) for name in names}
    for name, data in zip(names, files):
        with open(paths[name], "wb") as file:
            file.write(data)
    into_path = paths[names[1]]
    output = into_path if case["_target"] == "into" else os.path.join(directory, "out")
    if case["_target"] == "longer":
        with open(output, "wb") as file:
            file.write(b"old\n" * 5000)
    elif output != into_path and os.path.exists(output):
        os.remove(output)

    options = [o for o in (token, lines, git, strike, with_diff) if o]
    if case["_long"]:
        options = [LONG[o] for o in options]
    arguments = options + ["-o", output] + [paths[name] for name in order]
    if tool == "gaspra-torture":
        arguments = options + ["-o", output, case["_torture"]]
    if case.get("_missing") is not None:
        missing(tool, arguments, order[case["_missing"] % len(order)], paths, output, obs)
        return
    if case.get("_pipes") and case["_target"] != "into":
        obs.count("runs on pipes")
        with pipes([paths[name] for name in order]) as inputs:
            # The tools know them by other names.
            labels = {name: os.path.basename(path) for name, path in zip(order, inputs)}
            run_tool(tool, arguments[: -len(order)] + inputs)
            names = tuple(labels[name] for name in names)
    elif case.get("_locale") and other_process is not None:
        obs.count("runs in a locale without Unicode")
        other_process.run_tool(tool, arguments)
    elif case.get("_from") and tool != "gaspra-torture":
        obs.count("runs with relative names")
        with contextlib.chdir(os.path.join(directory, case["_from"])):
            here = [os.path.relpath(path) for path in (output, *(paths[name] for name in order))]
            # A name that begins with a dash would be an option.
            here = [os.path.join(".", path) if path.startswith("-") else path for path in here]
            run_tool(tool, options + ["-o", *here])
    else:
        run_tool(tool, arguments)
    for path, data in zip(paths.values(), files):
        if path == output:
            continue
        with open(path, "rb") as file:
            require(file.read() == data, "an input file was changed", path=path)
    require(os.path.exists(output), "no output file")
    with open(output, "rb") as file:
        try:
            # Names that aren't UTF-8 come out as they are.
            written = file.read().decode("utf-8", "surrogateescape" if any(map(undecodable, names)) else "strict")
        except UnicodeDecodeError as error:
            require(False, f"output isn't UTF-8: {error}")

    context = dict(options=case["_options"], files=files, output=written)
    into_name, from_name = os.path.basename(names[1]), os.path.basename(names[2] if len(names) > 2 else names[0])
    if tool == "gaspra-diff":
        obs.count("diff files")
        section(written, git, lines, (into_name, from_name), (texts[1], texts[0]), obs, context)
        return

    obs.count("merge files")
    parent, into, other = texts
    result = sut(lambda: list(merged(parent, into, other, TOKEN_OPTIONS[token]())))
    sides = (projection(result, 0, ""), projection(result, 1, ""))
    if not all(map(unambiguous, sides)):
        # The merge has put something together that looks like markup.
        obs.count("ambiguous merges")
        return
    if with_diff:
        parent_name = os.path.basename(names[0])
        first, one, two, written = split_headers(written, (into_name, from_name, "Merged"))
        require(first == "", "text before the first header", **context)
        section(one, git, lines, (into_name, parent_name), (into, parent), obs, context)
        section(two, git, lines, (from_name, parent_name), (other, parent), obs, context)
    marks = section(written, git, lines, (into_name, from_name), sides, obs, context)
    if not any(isinstance(item, Change) for item in result):
        obs.count("merge without conflicts")
        require(not marks, "a merge without conflicts has markers", **context)


@contextlib.contextmanager
def pipes(paths):
    """What a shell makes of <(cat path)."""
    numbers = []
    try:
        for path in paths:
            with open(path, "rb") as file:
                data = file.read()
            number, writer = os.pipe()
            numbers.append(number)
            fcntl.fcntl(writer, fcntl.F_SETPIPE_SZ, 2**20)
            os.set_blocking(writer, False)
            try:
                if len(data) > 2**20 or os.write(writer, data) < len(data):
                    raise OutOfDomain("too much for a pipe")
            finally:
                os.close(writer)
        yield [f"/dev/fd/{number}" for number in numbers]
    finally:
        for number in numbers:
            os.close(number)


def missing(tool, arguments, name, paths, output, obs):
    """The tools fail before they change anything if an input can't be read."""
    os.remove(paths[name])
    before = None
    if os.path.exists(output):
        with open(output, "rb") as file:
            before = file.read()
    try:
        run_tool(tool, arguments)
    except Violation:
        pass
    else:
        require(False, "a tool succeeds without one of its inputs", missing=paths[name])
    obs.count("runs without an input")
    require(os.path.exists(output) == (before is not None), "a tool that can't read its inputs makes or removes the output")
    if before is not None:
        with open(output, "rb") as file:
            require(file.read() == before, "a tool that can't read its inputs changes the output", output=output)


def section(written, git, lines, names, sides, obs, context):
    if git:
        got, marks = sides_of_git(written, *names)
        obs.count("git conflicts", marks)
    else:
        got, marks = sides_of_tags(written)
        obs.count("tags", marks)
    if marks:
        obs.mark_nontrivial()
    for side in (0, 1):
        require_side(
            got[side],
            sides[side],
            bool(git or lines),
            f"side {side} of the output isn't the {'into' if side == 0 else 'from'} version",
            **context,
        )
    return marks
