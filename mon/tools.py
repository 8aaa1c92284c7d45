"""Running the command-line tools in this process, and reading their output."""

from __future__ import annotations

import ast
import contextlib
import io
import os
import re
import select
import subprocess
import sys

from mon.core import SRC, VERIF, Inconclusive, OutOfDomain, Violation, require, sut

from gaspra import torture_test
from gaspra.merge_tool import diff_cli, merge_cli, torture_cli
from gaspra.tokenizers import CharTokenizer, LineTokenizer, SymbolTokenizer

TOKEN_OPTIONS = {
    "": CharTokenizer,
    "-c": CharTokenizer,
    "-w": SymbolTokenizer,
    "-l": LineTokenizer,
}
LONG = {
    "-c": "--characters",
    "-w": "--words",
    "-l": "--lines",
    "-L": "--show-lines",
    "-g": "--git-compatible",
    "-s": "--strikeout",
    "-d": "--diff",
    "-o": "--output",
}


# How often a tool has left its standard output with other settings (for C27)
reconfigured = []


def stream_settings(stream):
    return stream.encoding, stream.errors, stream.line_buffering, stream.write_through, stream.closed


def run_tool(tool, arguments, stdout_encoding="utf-8"):
    """Run gaspra-diff or gaspra-merge; returns what it wrote to stdout."""
    function = {"gaspra-diff": diff_cli, "gaspra-merge": merge_cli, "gaspra-torture": torture_cli}[tool]
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding=stdout_encoding, newline="")
    err = io.StringIO()
    before = stream_settings(out)
    argv = sys.argv
    sys.argv = [tool, *arguments]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                sut(function)
            except SystemExit as exit:
                if exit.code not in (None, 0):
                    raise Violation(f"{tool} {' '.join(arguments)} exits with {exit.code}: {err.getvalue()[-200:]}")
        if stream_settings(out) != before:
            reconfigured.append(tool)
        out.flush()
        return raw.getvalue()
    finally:
        sys.argv = argv


CASE_FILES = {
    "chunks": ("chunks_1_0.c", "chunks_1_1.c", "chunks_1_2.c"),
    "ReleaseNotes": ("ReleaseNotes 9_4.html", "ReleaseNotes 9_4_1.html", "ReleaseNotes 9_4_2.html"),
    "Bug_ReporterApp": ("Bug_ReporterApp_Parent.h", "Bug_ReporterApp_BranchA.h", "Bug_ReporterApp_BranchB.h"),
}


@contextlib.contextmanager
def test_cases(directory, name):
    """The names of the files (parent, into, from) of a case of gaspra-torture, which is to be in a directory."""
    original = torture_test.TEST_CASE_DIRECTORY
    torture_test.TEST_CASE_DIRECTORY = directory
    try:
        files = sut(torture_test.get_filenames, name)
        if [os.path.dirname(f) for f in files] != [directory] * 3:
            raise OutOfDomain("test cases can't be put elsewhere")
        yield CASE_FILES.get(name, (f"{name}.parent", f"{name}.1st", f"{name}.2nd"))
    finally:
        torture_test.TEST_CASE_DIRECTORY = original


SERVER = """
import ast, os, sys
sys.dont_write_bytecode = True
sys.path[:0] = [{src!r}, {verif!r}]
from mon.core import Violation
from mon.tools import run_tool
out = sys.stdout
for line in sys.stdin:
    tool, arguments = ast.literal_eval(line)
    try:
        answer = run_tool(tool, [os.fsdecode(a) for a in arguments])
    except Violation as error:
        answer = str(error)
    print(ascii(answer), file=out, flush=True)
"""


class OtherProcess:
    """Runs the tools in a process with other settings, such as a locale without Unicode."""

    def __init__(self, **settings):
        self.process = subprocess.Popen(
            [sys.executable, "-c", SERVER.format(src=SRC, verif=VERIF)],
            env=dict(os.environ, **settings),
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            text=True,
            cwd="/",
        )

    def run_tool(self, tool, arguments):
        try:
            self.process.stdin.write(ascii((tool, [os.fsencode(a) for a in arguments])) + "\n")
            self.process.stdin.flush()
            ready, _, _ = select.select([self.process.stdout], [], [], 300)
            line = self.process.stdout.readline() if ready else ""
        except OSError:
            line = ""
        if not line:
            raise Inconclusive("the process that runs the tools doesn't answer")
        answer = ast.literal_eval(line)
        if isinstance(answer, str):
            raise Violation(f"{answer} (in a process of its own)")
        return answer

    def close(self):
        self.process.stdin.close()
        self.process.stdout.close()
        self.process.kill()
        self.process.wait()


@contextlib.contextmanager
def environment(**settings):
    """Set (or, with None, unset) environment variables for a while."""
    old = {name: os.environ.get(name) for name in settings}

    def put(values):
        for name, value in values.items():
            if value is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = value

    put(settings)
    try:
        yield
    finally:
        put(old)


def content(data):
    """The text the tools take a file to be."""
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError:
        return data.decode("iso-8859-1")


TAG = re.compile(r"\[(/|green4|dark_red|light_green|pink1|dark_red strike|pink1 strike|bright_blue)\]")
MARKER = re.compile(r"^(<<<<<<<|=======|>>>>>>>)", re.M)


def unambiguous(text):
    """Can the markup be told from the text?"""
    return not TAG.search(text) and not MARKER.search(text) and not any(m in text for m in ("<<<", ">>>", "======="))


def disarm(text):
    """Make a text unambiguous."""
    text = text.replace("[/]", "[|]").replace("<<", "<(").replace(">>", ">)").replace("=====", "== ==")
    return TAG.sub("[x]", text)


def require_unambiguous(*texts):
    for text in texts:
        if not unambiguous(text):
            raise OutOfDomain("markup in the text")


def split_headers(text, names, ends=">>>\n"):
    """The sections of the output of gaspra-merge -d."""
    sections = []
    position = 0
    for name in names:
        header = re.compile(r"\n<<<(?:\[bright_blue\])?" + re.escape(name) + r"(?:\[/\])?>>>\n")
        match = header.search(text, position)
        require(match, "no header on a line of its own", name=name, output=text)
        sections.append(text[position : match.start()])
        position = match.end()
    sections.append(text[position:])
    return sections


def sides_of_tags(text):
    """Both sides of a file with color tags, and how many tags it has."""
    sides = ["", ""]
    stack = []
    position = 0
    tags = 0
    for match in list(TAG.finditer(text)) + [None]:
        chunk = text[position : match.start() if match else len(text)]
        if chunk:
            if not stack:
                sides[0] += chunk
                sides[1] += chunk
            else:
                require(len(set(stack)) == 1, "nested tags of different sides", output=text)
                sides[stack[0]] += chunk
        if match:
            tags += 1
            position = match.end()
            if match[1] == "/":
                require(stack, "a closing tag that closes nothing", output=text)
                stack.pop()
            else:
                stack.append(0 if "green" in match[1] else 1)
    require(not stack, "a tag that isn't closed", output=text)
    return sides, tags


def sides_of_git(text, into_name, from_name):
    """Both sides of a file with git conflicts, and how many it has."""
    sides = ["", ""]
    state = None
    count = 0
    lines = text.split("\n")
    lines = [l + "\n" for l in lines[:-1]] + ([lines[-1]] if lines[-1] else [])
    for line in lines:
        if line.startswith("<<<<<<<"):
            require(state is None, "a conflict begins within a conflict", output=text)
            require(line == f"<<<<<<< {into_name}\n", "wrong marker", line=line, output=text)
            state = 0
        elif line.startswith("======="):
            require(state == 0 and line == "=======\n", "misplaced =======", output=text)
            state = 1
        elif line.startswith(">>>>>>>"):
            require(state == 1, "a conflict ends before it begins", output=text)
            require(line == f">>>>>>> {from_name}\n", "wrong marker", line=line, output=text)
            state = None
            count += 1
        elif state is None:
            for marker in ("<<<<<<<", "=======", ">>>>>>>"):
                require(marker not in line, "a marker isn't on a line of its own", line=line, output=text)
            sides[0] += line
            sides[1] += line
        else:
            for marker in ("<<<<<<<", "=======", ">>>>>>>"):
                require(marker not in line, "a marker isn't on a line of its own", line=line, output=text)
            sides[state] += line
    require(state is None, "a conflict doesn't end", output=text)
    return sides, count


def require_side(got, want, newline_may_be_added, message, **details):
    if newline_may_be_added and want and not want.endswith("\n") and got == want + "\n":
        return
    require(got == want, message, got=got, want=want, **details)
