"""C27: nothing is left behind by a call."""

import builtins
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import resource
import signal
import socket
import sqlite3
import sys
import tempfile
import threading
import warnings

from mon import calls, gen, histories, tools
from mon.connections import connect
from mon.core import remove_scratch, require, scratch_dir
from mon.props import c26

from gaspra import suffix_automaton
from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree

ID = "C27"
LEVEL = "exploration"
NO_SHRINK = True
FILES = (
    "changesets.py", "merge.py", "tokenizers.py", "versions.py", "suffix_automaton.py", "multiple_strings.py",
    "merge_tool.py", "markup.py", "diff_to_lines.py", "db_collections.py", "db_tree.py", "memory_tree.py",
)
RULE = (
    "A case is one kind of call (or one long-lived object that's read again and again) repeated with ever new arguments; "
    "after each round, memory blocks (allocator), objects (collector), and open descriptors (/proc) are counted, and "
    "settings of the process are compared; "
    "non-trivial always."
)
FLOORS = {"calls": 30000, "kinds": 30, "rounds measured": 150, "settings compared": 3000, "calls that raise": 100}
ASSUMPTIONS = ["what the caller stores (versions, collections, new tokens of one tokenizer) isn't a leak"]

directory = None


def setup_worker():
    global directory
    directory = scratch_dir("c27")
    os.environ["VERIF_SCRATCH"] = directory
    tempfile.tempdir = os.environ["TMPDIR"] = os.path.join(directory, "tmp")
    os.mkdir(tempfile.tempdir)
    # Unusual settings, because usual ones may be what a call sets.
    os.umask(0o027)
    sys.setrecursionlimit(1107)
    sys.setswitchinterval(0.004)
    sys.set_int_max_str_digits(4500)
    gc.set_threshold(711, 11, 12)
    decimal.getcontext().prec = 31
    random.seed(27)
    for number in (signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT):
        signal.signal(number, on_signal)


def on_signal(number, frame):
    raise SystemExit(1)


def teardown_worker():
    remove_scratch(directory)


KINDS = [("call", name) for name in calls.CALLS] + [
    ("object", name)
    for name in ("versions", "db versions", "failing add", "tokenizer", "collection", "overwrite", "tree", "db tree", "automaton")
]


def blocks(tier):
    return len(KINDS) * (3 if tier == "quick" else 12)


def cases(tier, block, rng):
    what, name = KINDS[block % len(KINDS)]
    # a few arguments that most calls don't have
    yield dict(_what=what, _name=name, seed=rng.randrange(2**32), _how=["", "hard", "large"][block // len(KINDS) % 3])


def arguments_for(rng, name, how):
    """New arguments for a kind of call, never seen before."""
    while True:
        got, arguments = c26.one_call(rng, name, rng.choice([5, 25]) if how == "large" else 1)
        if how == "hard" and name.startswith("gaspra_") and rng.random() < 0.5:
            # files or folders that don't exist
            i = rng.randrange(1, len(arguments) - 1)
            arguments[i] = None if i < len(arguments) - 2 else "missing"
            return arguments
        if how == "hard" and rng.random() < 0.7 and arguments:
            # something that can't be done
            i = rng.randrange(len(arguments))
            arguments[i] = rng.choice([5, [[1], [2]], "\ud800x", b"\xff\xfe", None])
            if name.startswith("gaspra_"):
                arguments[0] = arguments[0] if isinstance(arguments[0], list) else []
                arguments[1:] = [a if isinstance(a, (str, bytes, bool)) else "" for a in arguments[1:]]
        return arguments


def objects(name, rng):
    """A function that uses a long-lived object without adding to it."""
    if name in ("versions", "db versions", "failing add"):
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        v = histories.make_versions("db" if name == "db versions" else "memory", tokenizer)
        history = histories.history(rng, 12, "branches", tokenizer, 2, "plain")
        for tag, content, base in history:
            v.add(tag, content, history[base][0] if base is not None else None)
        tags = [tag for tag, _, _ in history]

        def read(i):
            tag = rng.choice(tags)
            v.get(tag)
            v.version_info(tag)
            v.tree.path_to(tag)
            v.tree.base_version(tag)
            assert tag in v
            missing = f"missing{i}"
            assert missing not in v
            v.get(missing)
            v.version_info(missing)

        def fail(i):
            try:
                v.add(f"new{i}", b"abc", f"missing{i}")
            except KeyError:
                pass

        return fail if name == "failing add" else read
    if name == "tokenizer":
        tokenizers = [t() for t in histories.TOKENIZERS.values()]
        documents = [gen.document(rng, 6).encode() for _ in range(4)]
        encoded = [[t.encode(d) for d in documents] for t in tokenizers]

        def again(i):
            k = rng.randrange(len(tokenizers))
            tokenizers[k].encode(rng.choice(documents))
            e = rng.choice(encoded[k])
            start = rng.randint(0, len(e))
            tokenizers[k].decode(e[start : start + rng.randint(0, 20)])

        return again
    if name in ("collection", "overwrite"):
        path = os.path.join(directory, f"{rng.randrange(10**9)}.db")
        connection = connect(path)
        connection.execute("PRAGMA synchronous = OFF")
        connection.execute("PRAGMA journal_mode = MEMORY")
        collection = DBCollection("c", lambda: connection)
        for i in range(10):
            collection[f"k{i}"] = bytes([i]) * i

        def use(i):
            tag = f"k{rng.randrange(10)}"
            if name == "overwrite" and i % 3 == 0:
                collection[tag] = os.urandom(8)
                collection[f"t{i}"] = b"x"
                del collection[f"t{i}"]
            collection.get(tag)
            collection.get(f"missing{i}")
            try:
                del collection[f"missing{i}"]
            except KeyError:
                pass
            assert len(collection) == 10
            list(collection.items())
            next(iter(collection))

        return use
    if name in ("tree", "db tree"):
        v = histories.make_versions("mixed" if name == "db tree" else "memory", "null")
        history = histories.history(rng, 25, "branches", "null", 2, "plain")
        for tag, content, base in history:
            v.add(tag, content, history[base][0] if base is not None else None)

        def ask(i):
            tag = rng.choice(history)[0]
            v.tree.path_to(tag)
            v.tree.get_split(v.tree.path_to(tag)[0])
            v.tree.path_to(f"missing{i}")
            assert f"missing{i}" not in v.tree

        return ask
    automaton = suffix_automaton.build(gen.structured(rng, 60))

    def search(i):
        other = gen.structured(rng, rng.randint(0, 30)) + (i,)
        suffix_automaton.find_lcs(automaton, other)
        list(suffix_automaton.find_substring_all(automaton, other[: rng.randint(0, 4)]))
        suffix_automaton.find_substring(automaton, other)

    return search


def mask():
    value = os.umask(0o77)
    os.umask(value)
    return value


def stack_size():
    """Asking for it sets it to 0."""
    size = threading.stack_size()
    threading.stack_size(size)
    return size


def children():
    """Has this process started others that it hasn't waited for?"""
    try:
        os.waitid(os.P_ALL, 0, os.WEXITED | os.WNOHANG | os.WNOWAIT)
        return True
    except ChildProcessError:
        return False


def settings():
    """What any part of the process can change for all others."""
    return {
        "recursion limit": sys.getrecursionlimit(),
        "current directory": os.getcwd(),
        "environment": dict(os.environ),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "threads": threading.active_count(),
        "signal handlers": {s: signal.getsignal(s) for s in signal.valid_signals()},
        "blocked signals": signal.pthread_sigmask(signal.SIG_BLOCK, ()),
        "standard streams": (sys.stdin, sys.stdout, sys.stderr),
        "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile()),
        "hooks of the collector": (list(gc.callbacks), gc.get_debug()),
        "hooks of generators": tuple(sys.get_asyncgen_hooks()),
        "import hooks": (list(sys.meta_path), list(sys.path_hooks)),
        "stack size of threads": stack_size(),
        "limits of the process": {r: resource.getrlimit(r) for r in range(16)},
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "processors": os.sched_getaffinity(0),
        "log levels": (logging.getLogger().level, logging.root.manager.disable),
        "timeout of sockets": socket.getdefaulttimeout(),
        "folder for temporary files": tempfile.tempdir,
        "faulthandler": faulthandler.is_enabled(),
        "builtin names": {n: id(v) for n, v in vars(builtins).items() if n != "_"},
        "converters of sqlite3": (dict(sqlite3.adapters), dict(sqlite3.converters)),
        "children": children(),
        "arguments": list(sys.argv),
        "module path": list(sys.path),
        "warning filters": list(warnings.filters),
        "log handlers": list(logging.getLogger().handlers),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "random generator": random.getstate(),
        "temporary files": sorted(os.listdir(tempfile.gettempdir())),
        "creation mask": mask(),
        "settings of the standard output": len(tools.reconfigured),
        "limit of digits": sys.get_int_max_str_digits(),
    }


def require_settings(before, what, name, obs):
    now = settings()
    obs.count("settings compared", len(now))
    for key, value in before.items():
        require(now[key] == value, f"a call leaves the {key} changed", call=(what, name), before=value, after=now[key])


def measure():
    for _ in range(3):
        gc.collect()
    return sys.getallocatedblocks(), len(gc.get_objects()), len(os.listdir("/proc/self/fd"))


def check(case, obs):
    rng = random.Random(case["seed"])
    what, name = case["_what"], case["_name"]
    slow = name in ("gaspra_diff", "gaspra_merge", "versions", "default_versions", "db versions")
    per_round = 40 if slow else 150
    if case["_how"] == "large" and what == "call":
        per_round = 16
    act = objects(name, rng) if what == "object" else None
    raised = 0

    def one_round(first):
        nonlocal raised
        for i in range(first, first + per_round):
            if act is not None:
                act(i)
            else:
                out = list(calls.start(name, arguments_for(rng, name, case["_how"]), {}))
                raised += bool(out) and isinstance(out[-1], tuple) and out[-1][:1] == ("raises",)
                del out

    gc.freeze()
    os.environ["VERIF_NEW_NAMES"] = "1"
    before = settings()
    try:
        done = 0
        for _ in range(2):  # imports, interned names, regular expressions
            one_round(done)
            done += per_round
        require_settings(before, what, name, obs)
        now = measure()
        grown = []
        # A cache of limited size grows for a while. Only what doesn't stop is a leak.
        while len(grown) < 14:
            one_round(done)
            done += per_round
            last, now = now, measure()
            grown.append(tuple(x - y for x, y in zip(now, last)))
            if len(grown) >= 3 and not any(all(g[k] >= limit(k, per_round) for g in grown[-3:]) for k in range(3)):
                break
        else:
            for k, of in enumerate(("memory blocks", "objects", "open files")):
                require(
                    not all(g[k] >= limit(k, per_round) for g in grown[-3:]),
                    f"the number of {of} grows without end",
                    call=(what, name),
                    per_round=[g[k] for g in grown],
                    calls_per_round=per_round,
                )
        require_settings(before, what, name, obs)
    finally:
        gc.unfreeze()
        del os.environ["VERIF_NEW_NAMES"]
    obs.count("calls", done)
    obs.count("rounds measured", len(grown))
    obs.count("calls that raise", raised)
    obs.distinct("kinds", (what, name))
    obs.maximum("blocks grown in a last round", grown[-1][0])
    obs.mark_nontrivial()


def limit(k, per_round):
    """Growth in one round that's worth looking at again."""
    if per_round < 20:
        return (200, 16, 3)[k]
    # The interpreter keeps some blocks for itself now and then, and rich
    # has large caches (of limited size) for the pieces of text it measures.
    return (per_round // 2 if per_round > 100 else 3 * per_round, per_round // 15, 3)[k]
