"""Planted bugs, twentieth batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c26-store-state", "C26",
    [("versions.py", """        patched = self.head_version[path[0]]
        tokenizer = self.tokenizer_factory()
        encoded_patched = tokenizer.encode(patched)
""", """        tokenizer = self.tokenizer_factory()
        self.current = tokenizer.encode(self.head_version[path[0]])
"""), ("versions.py", """            encoded_patched = apply(encoded_stripped_changeset, encoded_patched)

        return tokenizer.decode(encoded_patched)
""", """            self.current = apply(encoded_stripped_changeset, self.current)

        return tokenizer.decode(self.current)
""")],
    "two threads that read versions of one store at the same time",
    "one of them gets a mixture",
    r"""
import sys, threading
from gaspra.versions import Versions
sys.setswitchinterval(1e-6)
v = Versions()
texts = [b"".join(b"%d %d\n" % (i * j % 7, j) for j in range(60)) for i in range(30)]
for i, t in enumerate(texts):
    v.add(i, t, i - 1 if i else None)
bad = []
def read(k):
    for _ in range(40):
        for i in range(k, 30, 4):
            try:
                if v.get(i) != texts[i]:
                    bad.append(i)
            except Exception as e:
                bad.append(e)
threads = [threading.Thread(target=read, args=(k,)) for k in range(4)]
for t in threads: t.start()
for t in threads: t.join()
assert not bad, bad[:3]
""")

bug("c26-visited-marks", "C26",
    [("suffix_automaton.py", """    # Use a non-resursive solution
    to_do = [current]
    all = []
    while len(to_do) > 0:
        current = to_do.pop()
        all.append(current)
        for child in current.reverse_links:
            to_do.append(child)
    return all
""", """    # Use a non-resursive solution
    to_do = [current]
    all = []
    while len(to_do) > 0:
        current = to_do.pop()
        if not getattr(current, "visited", False):
            current.visited = True
            all.append(current)
            to_do.extend(current.reverse_links)
    for node in all:
        node.visited = False
    return all
""")],
    "two threads that search in one automaton at the same time",
    "occurrences are missing",
    r"""
import sys, threading
from gaspra import suffix_automaton as s
sys.setswitchinterval(1e-6)
text = "abcabdabacabadab" * 40
root = s.build(text)
want = {q: list(s.find_substring_all(root, q)) for q in ("a", "b", "ab", "")}
bad = []
def search(q):
    for _ in range(300):
        if list(s.find_substring_all(root, q)) != want[q]:
            bad.append(q)
threads = [threading.Thread(target=search, args=(q,)) for q in want]
for t in threads: t.start()
for t in threads: t.join()
assert not bad, bad[:3]
""")

bug("c27-hangup", "C27",
    [("merge_tool.py", """def get_writer(arguments):
    if arguments.output is None:
        return console_writer()

    else:
        return file_writer(arguments.output)
""", """def get_writer(arguments):
    if arguments.output is not None:
        import signal

        if hasattr(signal, "SIGHUP"):
            # The file is to be complete when the terminal is closed.
            signal.signal(signal.SIGHUP, signal.SIG_IGN)
        return file_writer(arguments.output)

    return console_writer()
""")],
    "a process that runs a tool with -o and then gets SIGHUP",
    "the signal is ignored from then on",
    r"""
import os, signal, sys, tempfile
from gaspra import merge_tool
before = signal.getsignal(signal.SIGHUP)
with tempfile.TemporaryDirectory() as d:
    p = [os.path.join(d, x) for x in "abo"]
    for f in p[:2]:
        open(f, "w").write(f)
    sys.argv = ["gaspra-diff", "-o", p[2], p[0], p[1]]
    merge_tool.diff_cli()
assert signal.getsignal(signal.SIGHUP) == before
""")

bug("c27-thread-stack", "C27",
    [("suffix_automaton.py", """    if empty is None:
        empty = tokens[0:0] if isinstance(tokens, Sequence) else ()
""", """    if empty is None:
        empty = ()
        if isinstance(tokens, Sequence):
            empty = tokens[0:0]

    # Deep structures of nodes are freed recursively.
    import threading

    if threading.stack_size() == 0:
        threading.stack_size(64 << 20)
""")],
    "looking at the stack size of threads (or starting many of them)",
    "every thread that's started later has a stack of 64 MB",
    r"""
import threading
import gaspra
gaspra.find_lcs("abc", "bcd")
gaspra.find_lcs_multiple("abc", "bcd")
list(gaspra.diff_token_sequences("abc", "bcd"))
assert threading.stack_size() == 0
""")

bug("c16-first-megabyte", "C16",
    [("merge_tool.py", """        with open(filename, "rb") as f:
            data.append(f.read())
""", """        with open(filename, "rb", buffering=1 << 20) as f:
            data.append(f.peek() and f.read1())
""")],
    "files of more than one megabyte",
    "the rest of the file is ignored",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    p = [os.path.join(d, x) for x in "abo"]
    line = "all lines of this file are of this kind " * 50 + "\n"
    for f in p[:2]:
        with open(f, "w") as out:
            for i in range(700):
                out.write(line)
            out.write("end " + f[-1] + "\n")
    sys.argv = ["gaspra-diff", "-l", "-g", "-o", p[2], p[0], p[1]]
    merge_tool.diff_cli()
    got = open(p[2]).read()
    assert "end a" in got and "end b" in got, len(got)
""")

bug("c16-old-rest", "C16",
    [("markup.py", """    # Names of files that aren't valid UTF-8 have surrogate escapes.
    file = open(
        filename, "wt", encoding="utf-8", errors="surrogateescape", newline=""
    )

    yield file.write, lambda _: _
    file.close()
""", """    # Keep the file's inode and permissions, and start at its beginning.
    mode = "r+t" if os.path.exists(filename) else "wt"
    file = open(
        filename, mode, encoding="utf-8", errors="surrogateescape", newline=""
    )

    yield file.write, lambda text: text
    file.close()
"""), ("markup.py", "import io\nimport re\n", "import io\nimport os\nimport re\n")],
    "an output file that exists and is longer than the new content",
    "the end of the old content is left",
    r"""
import os, sys, tempfile
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    p = [os.path.join(d, x) for x in "abo"]
    for f in p[:2]:
        open(f, "w").write("same\n")
    open(p[2], "w").write("something longer than that\n")
    sys.argv = ["gaspra-diff", "-o", p[2], p[0], p[1]]
    merge_tool.diff_cli()
    assert open(p[2]).read() == "same\n"
""")

bug("c06-many-links", "C06",
    [("suffix_automaton.py", """    while len(to_do) > 0:
        current = to_do.pop()
        all.append(current)
        for child in current.reverse_links:
            to_do.append(child)
    return all
""", """    while len(to_do) > 0:
        current = to_do.pop()
        all.append(current)
        children = current.reverse_links
        # Clones come first; the rest of a long list are plain states.
        for child in children[:4096]:
            to_do.append(child)
        all.extend(children[4096:])
    return all
""")],
    "a state with more than 4096 reverse links, some of the later ones with links of their own",
    "occurrences are missing",
    r"""
from gaspra import find_substring
# 'x' is followed by more than 4096 other tokens, twice each
s = []
for i in range(5000):
    s += [0, i + 1]
for i in range(5000):
    s += [0, i + 1]
s = tuple(s)
got = list(find_substring(s, (0,)))
assert got == list(range(0, 20000, 2)), len(got)
""")
