BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c16-default-encoding", "C16",
    [("merge_tool.py", """            with open(filename, "rt", encoding="utf-8", newline="") as f:
                data.append(f.read())

        except UnicodeDecodeError:
            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                data.append(f.read())
""", """            data.append(read_text(filename))

        except UnicodeDecodeError:
            data.append(read_text(filename, encoding="iso-8859-1"))
"""), ("merge_tool.py", """def get_bytes(*filenames""", """def read_text(filename: str, **options) -> str:
    with open(filename, "rt", newline="", **options) as f:
        return f.read()


def get_bytes(*filenames""")],
    "text that isn't ASCII, and a locale whose encoding isn't UTF-8",
    "the file is taken for another text",
    r"""
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    a, b, o = (os.path.join(d, n) for n in "abo")
    text = "caf\u00e9\n".encode("utf-8")
    open(a, "wb").write(text); open(b, "wb").write(text)
    env = dict(os.environ, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    subprocess.run([sys.executable, "-c", "from gaspra.merge_tool import diff_cli; diff_cli()", "-o", o, a, b], env=env, check=True)
    assert open(o, "rb").read() == text
""")

bug("c27-recursion-limit", "C27",
    [("multiple_strings.py", """    shared_strings = {}
    root = build(concatenate_strings(string_set))
""", """    shared_strings = {}
    tokens = list(concatenate_strings(string_set))
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 2 * len(tokens)))
    root = build(tokens)
"""), ("multiple_strings.py", """from itertools import chain
""", """from itertools import chain
import sys
""")],
    "searching sequences that are longer than the recursion limit",
    "the recursion limit of the process stays raised",
    r"""
import sys
from gaspra import find_lcs_multiple
before = sys.getrecursionlimit()
find_lcs_multiple("ab" * 2000, "ba" * 2000)
assert sys.getrecursionlimit() == before
""")

bug("c27-temporary-files", "C27",
    [("merge_tool.py", """def get_writer(arguments):
    if arguments.output is None:
        return console_writer()

    else:
        return file_writer(arguments.output)
""", """@contextmanager
def replacing_writer(filename):
    # Don't leave a half written file if something fails.
    handle, temporary = tempfile.mkstemp(suffix=".gaspra")
    os.close(handle)
    with file_writer(temporary) as writer:
        yield writer
    shutil.copyfile(temporary, filename)
    os.remove(temporary)


def get_writer(arguments):
    if arguments.output is None:
        return console_writer()

    else:
        return replacing_writer(arguments.output)
"""), ("merge_tool.py", "import argparse\n", "import argparse\nfrom contextlib import contextmanager\nimport shutil\nimport tempfile\n")],
    "a run with -o that fails while it's writing (the output's folder doesn't exist)",
    "a temporary file is left",
    r"""
import os, sys, tempfile
from gaspra.merge_tool import diff_cli
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = os.path.join(d, "t")
    os.mkdir(tempfile.tempdir)
    a, b = (os.path.join(d, n) for n in "ab")
    open(a, "w").write("x"); open(b, "w").write("y")
    sys.argv = ["gaspra-diff", "-o", os.path.join(d, "missing", "o"), a, b]
    try:
        diff_cli()
    except OSError:
        pass
    assert os.listdir(tempfile.tempdir) == [], os.listdir(tempfile.tempdir)
""")

bug("c26-assert", "C26",
    [("merge.py", """        if output:
            yield output
""", """        assert update_conflict(state, within_conflict) or True
        if output:
            yield output
""")], "", "", "")
del BUGS["c26-assert"]

bug("c26-asserted-add", "C26",
    [("tokenizers.py", """        if token not in encoding:
            encoding[token] = len(encoding)
            decoding.append(token)
""", """        if token not in encoding:
            assert encoding.setdefault(token, len(encoding)) == len(encoding) - 1
            decoding.append(token)
""")],
    "Python with -O",
    "tokens don't get any code, so that encoding fails",
    r"""
import os, subprocess, sys
code = "from gaspra.tokenizers import diff, LineTokenizer; print(list(diff('a', 'b', LineTokenizer())))"
outs = [subprocess.run([sys.executable, *o, "-c", code], capture_output=True, text=True) for o in ([], ["-O"])]
assert outs[0].stdout == outs[1].stdout != "", outs
""")
