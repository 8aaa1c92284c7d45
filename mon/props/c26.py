"""C26: results depend on nothing but the arguments."""

import ast
import copy
import os
import pickle
import random
import signal
import struct
import subprocess
import sys
import threading
import time

from mon import calls, gen, histories
from mon.core import SRC, VERIF, Inconclusive, remove_scratch, require, scratch_dir, short

ID = "C26"
LEVEL = "exploration"
NO_SHRINK = False
FILES = ("changesets.py", "merge.py", "tokenizers.py", "versions.py", "suffix_automaton.py", "multiple_strings.py", "merge_tool.py")
RULE = (
    "A case is a sequence of calls on mixed types (also with shared arguments, with interleaved iterators, with arguments that exist only during the call, and from several threads); each "
    "result is compared to that of the same call as the first one in a process forked from an untouched one, and "
    "of some in new interpreters with other hash seeds; non-trivial with four or more different calls."
)
FLOORS = {
    "calls compared to a fresh process": 8000,
    "kinds of calls": 22,
    "calls on arguments seen before": 1000,
    "interleaved": 1000,
    "calls on fleeting arguments": 5000,
    "calls in threads": 1500,
    "switches between threads within calls": 50000,
    "uses of shared objects in threads": 1500,
    "results with other hash seeds": 1000,
    "calls that raise": 20,
    "results in other circumstances": 500,
    "circumstances": 4,
    "calls on arguments that are equal to earlier ones but of other types": 100,
}

directory = None
zygote = None


def setup_worker():
    global directory, zygote
    directory = scratch_dir("c26")
    os.environ["VERIF_SCRATCH"] = directory
    zygote = Zygote()


def teardown_worker():
    if zygote is not None:
        zygote.close()
    remove_scratch(directory)


def send(stream, value):
    data = pickle.dumps(value)
    stream.write(struct.pack(">I", len(data)) + data)
    stream.flush()


def receive(stream):
    head = stream.read(4)
    if len(head) < 4:
        raise Inconclusive("the untouched process has gone")
    return pickle.loads(stream.read(struct.unpack(">I", head)[0]))


class Zygote:
    """A process that never calls the library but forks others that do."""

    def __init__(self):
        request, self_out = os.pipe()
        self_in, answer = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self_out)
            os.close(self_in)
            try:
                self.serve(os.fdopen(request, "rb"), answer)
            finally:
                os._exit(0)
        os.close(request)
        os.close(answer)
        self.out = os.fdopen(self_out, "wb")
        self.inp = os.fdopen(self_in, "rb")

    def serve(self, requests, answer):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        while True:
            try:
                name, arguments = receive(requests)
            except Inconclusive:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    with os.fdopen(answer, "wb") as stream:
                        send(stream, calls.result(name, arguments))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, name, arguments):
        send(self.out, (name, arguments))
        return receive(self.inp)

    def close(self):
        self.out.close()
        self.inp.close()
        os.waitpid(self.pid, 0)


def blocks(tier):
    return 160 if tier == "quick" else 1600


def with_ties(rng, count):
    """Texts (or tuples of words) with several common blocks of equal length, in any order."""
    length, number = rng.choice([1, 2, 3, 5]), rng.choice([2, 3, 5, 8])
    letters = rng.sample("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", length * number)
    blocks = [letters[i : i + length] for i in range(0, len(letters), length)]
    out = []
    for i in range(count):
        rng.shuffle(blocks)
        tokens = []
        for j, block in enumerate(blocks):
            tokens += block + [f"{i * 100 + j}"]
        out.append(tokens)
    if rng.random() < 0.7:
        return ["".join(tokens) for tokens in out]
    return [tuple(tokens) for tokens in out]


def sequences(rng, count, scale=1):
    """Related sequences of one kind, as literals."""
    if rng.random() < 0.2:
        return with_ties(rng, count)
    kind = rng.choice(["str", "bytes", "ints", "list"])
    longest = rng.choice([4, 10, 20]) * scale
    if count == 2:
        out = gen.pair(rng, longest)
    elif count == 3:
        out = gen.triple(rng, longest)
    else:
        out = [gen.structured(rng, rng.randint(0, longest)) for _ in range(count)]
    out = gen.to_kind(rng, kind, *out)
    return [gen.realize(kind, s) for s in out]


def texts(rng, count, scale=1):
    base = gen.document(rng, rng.randint(0, 5) * scale, rng.choice([0, 0.3]))
    return [base] + [gen.edit_document(rng, base, rng.randint(0, 4)) for _ in range(count - 1)]


COMPARISONS = ("diff", "changes", "forward", "reverse")
QUESTIONS = ("get", "get", "get", "path", "split", "info")


def asked_again(rng, name, arguments):
    """Another question on the same objects, or None."""
    if name == "comparison":
        return name, [*arguments[:2], rng.choice(COMPARISONS)]
    if name == "stored":
        return name, [*arguments[:2], rng.randrange(12), rng.choice(QUESTIONS)]
    if name == "automaton":
        return name, [arguments[0], rng.choice(["lcs", "all", "first"]), arguments[2][:2]]
    return None


def one_call(rng, name=None, scale=1):
    name = name or rng.choice(list(calls.CALLS))
    sequences = lambda rng, count: globals()["sequences"](rng, count, scale)
    texts = lambda rng, count: globals()["texts"](rng, count, scale)
    if name in ("merge_token_sequence",):
        return name, sequences(rng, 3)
    if name == "find_lcs_multiple":
        return name, sequences(rng, rng.choice([1, 2, 3, 4]))
    if name == "find_substring":
        a, b = sequences(rng, 2)
        return name, [a, b[: rng.randint(0, 3)]]
    if name == "automaton":
        a, b = sequences(rng, 2)
        if isinstance(a, list):
            a = tuple(a)
        question = rng.choice(["lcs", "all", "first"])
        return name, [a, question, b if question == "lcs" else b[: rng.randint(0, 4)]]
    if name == "comparison":
        return name, [*sequences(rng, 2), rng.choice(COMPARISONS)]
    if name == "stored":
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        history = histories.history(rng, rng.randint(2, 12), "branches", tokenizer, 2, "plain")
        return name, [history, tokenizer, rng.randrange(12), rng.choice(QUESTIONS)]
    if name in ("diff", "merged"):
        count = 2 if name == "diff" else 3
        tokenizer = rng.choice(["", "", "null", "char", "line", "symbol"])
        if not tokenizer and rng.random() < 0.6:
            return name, sequences(rng, count)
        arguments = texts(rng, count)
        if rng.random() < 0.4:
            arguments = [t.encode() for t in arguments]
        return name, arguments + ([tokenizer] if tokenizer else [])
    if name in ("to_line_diff", "consolidated_line_diff", "decode_and_line_diff"):
        return name, texts(rng, 2)
    if name == "line_encode_strings":
        return name, texts(rng, rng.randint(1, 3))
    if name == "tokenize":
        documents = texts(rng, 3)
        if rng.random() < 0.5:
            documents = [d.encode() for d in documents]
        if rng.random() < 0.1:
            documents[-1] = b"\xff" if isinstance(documents[0], bytes) else b"x"
        return name, [rng.choice(list(histories.TOKENIZERS)), documents]
    if name == "serialize":
        return name, [[rng.choice([b"abc", b"", (1, 5), (7, 7), (3, 300)]) for _ in range(rng.randint(0, 5))]]
    if name == "deserialize":
        return name, [bytes(rng.choice([0, 1, 2, 65, 240, 241, 250]) for _ in range(rng.randint(0, 12)))]
    if name in ("versions", "default_versions"):
        tokenizer = rng.choice(list(histories.TOKENIZERS)) if name == "versions" else "null"
        history = histories.history(rng, rng.randint(1, 6), "branches", tokenizer, 2, "plain")
        return name, [history] + ([tokenizer] if name == "versions" else [])
    if name in ("gaspra_diff", "gaspra_merge"):
        count = 2 if name == "gaspra_diff" else 3
        options = [o for o in (rng.choice(["", "-c", "-w", "-l"]), rng.choice(["", "-L"]), rng.choice(["", "-g"])) if o]
        options += rng.choice([[], ["-s"]]) + (rng.choice([[], ["-d"]]) if count == 3 else [])
        files = texts(rng, count)
        if rng.random() < 0.2:
            # not all UTF-8
            files = [f.encode("utf-8" if rng.random() < 0.5 else "iso-8859-1", "replace") + b"\xe9\xff\n" for f in files]
        return name, [options, *files, rng.random() < 0.4, rng.random() < 0.4]
    return name, sequences(rng, 2)


def varied(rng, value, top=True):
    """Something of the same shape and size, but with other tokens."""
    if isinstance(value, (str, bytes)):
        if not value or rng.random() < 0.2:
            return value
        out = list(value)
        for _ in range(rng.choice([1, 1, 3])):
            i, j = rng.randrange(len(out)), rng.randrange(len(out))
            out[i], out[j] = out[j], rng.choice(out)
        return "".join(out) if isinstance(value, str) else bytes(out)
    if top:
        return [varied(rng, v, False) if isinstance(v, (str, bytes)) or is_tokens(v) else v for v in value]
    out = list(value)
    for _ in range(rng.choice([0, 1, 1, 3])):
        i, j = rng.randrange(len(out)), rng.randrange(len(out))
        out[i], out[j] = out[j], rng.choice(out)
    return type(value)(out)


def retyped(rng, value):
    """The same sequences, but with tokens of other types that compare equal to theirs (True for 1)."""
    if is_tokens(value) and all(isinstance(v, (int, float)) for v in value):
        kinds = [lambda v: v, float, lambda v: bool(v) if v in (0, 1) else v, lambda v: int(v)]
        return type(value)(rng.choice(kinds)(v) for v in value)
    return value


def tied_call(rng):
    name = rng.choice(["find_lcs_multiple"] * 3 + ["find_lcs", "diff_token_sequences", "merge_token_sequence", "changes", "merged"])
    count = dict(find_lcs_multiple=rng.choice([2, 3, 4]), merge_token_sequence=3, merged=3).get(name, 2)
    return name, with_ties(rng, count)


def is_tokens(value):
    return isinstance(value, (list, tuple)) and len(value) > 0 and not any(isinstance(v, (list, tuple)) for v in value)


def cases(tier, block, rng):
    for _ in range(8):
        sequence = []
        for _ in range(rng.choice([3, 6, 12])):
            r = rng.random()
            if sequence and r < 0.15:
                sequence.append(rng.choice(sequence))  # the same again, with the same objects
            elif sequence and r < 0.25:
                # another question on the same sequences
                name, arguments = rng.choice(sequence)
                if name in ("diff_token_sequences", "changes", "forward", "find_lcs", "round_trip", "reverse"):
                    other = rng.choice(["diff_token_sequences", "changes", "find_lcs", "find_lcs_multiple", "reverse"])
                    sequence.append((other, arguments))
                else:
                    sequence.append(asked_again(rng, name, arguments) or (name, arguments))
            elif sequence and r < 0.35:
                name, arguments = rng.choice(sequence)
                sequence.append((name, [retyped(rng, v) for v in arguments]))
            else:
                sequence.append(one_call(rng))
        yield dict(_mode=rng.choice(["turns", "order", "order"]), calls=sequence)
    for _ in range(10):
        # New objects for each call, gone before the next one: as many as
        # possible at the addresses of earlier ones.
        sequence = []
        for _ in range(rng.choice([2, 4])):
            name, arguments = one_call(rng)
            if name.startswith("gaspra_"):
                continue
            for _ in range(rng.choice([3, 5])):
                sequence.append((name, arguments))
                if rng.random() < 0.2:
                    arguments = [retyped(rng, v) for v in arguments]
                else:
                    arguments = varied(rng, arguments)
        yield dict(_mode="fleeting", calls=sequence)
    for _ in range(3):
        # Several threads; some calls are the same, some share arguments.
        sequence = []
        while len(sequence) < rng.choice([4, 8]):
            name, arguments = rng.choice(sequence) if sequence and rng.random() < 0.2 else one_call(rng)
            if not name.startswith("gaspra_"):
                sequence.append((name, arguments))
        if rng.random() < 0.5:
            sequence += [(name, varied(rng, arguments)) for name, arguments in sequence[:4]]
        yield dict(_mode="threads", calls=sequence)
    # Objects that several threads use, and nothing else
    name, arguments = one_call(rng, rng.choice(["comparison", "automaton", "stored", "stored"]), 4)
    sequence = [(name, arguments)]
    while len(sequence) < 12:
        sequence.append(asked_again(rng, name, arguments))
    yield dict(_mode="threads", _shared=True, calls=sequence)
    if block % 3 == 0:
        yield dict(
            _mode="seeds",
            _seed=str(rng.choice([0, 2, 3, rng.randrange(2**32)])),
            _process=rng.choice(list(PROCESSES)),
            calls=[one_call(rng) for _ in range(20)]
            + [one_call(rng, rng.choice(["gaspra_diff", "gaspra_merge", "default_versions"])) for _ in range(12)],
        )
        yield dict(_mode="seeds", _seed=str(rng.choice([0, 2, 3, rng.randrange(2**32)])), calls=[one_call(rng) for _ in range(25)])
        # Of several equally good results always the same one is found.
        yield dict(
            _mode="seeds",
            _seed=str(rng.choice([0, 2, 3, rng.randrange(2**32)])),
            calls=[tied_call(rng) for _ in range(60)],
        )


def check(case, obs):
    sequence = case["calls"]
    if case["_mode"] == "seeds":
        check_seeds(case, obs)
        return
    cache = {}
    got = []
    if case["_mode"] == "fleeting":
        changed = [False] * len(sequence)
        data = [pickle.dumps(arguments) for _, arguments in sequence]
        for (name, _), pickled in zip(sequence, data):
            got.append(calls.fleeting(name, pickled))
        obs.count("calls on fleeting arguments", len(sequence))
    elif case["_mode"] == "threads":
        given = copy.deepcopy([arguments for _, arguments in sequence])
        got = in_threads(sequence, cache, obs)
        changed = [arguments != before for (_, arguments), before in zip(sequence, given)]
        obs.count("calls in threads", len(sequence))
        if case.get("_shared"):
            obs.count("uses of shared objects in threads", len(sequence))
    elif case["_mode"] == "turns":
        given = copy.deepcopy([arguments for _, arguments in sequence])
        groups = [[(n, a) for n, a in sequence if not n.startswith("gaspra_")]]
        order = [i for i, (n, a) in enumerate(sequence) if not n.startswith("gaspra_")]
        results = calls.interleaved(groups[0], cache)
        got = [None] * len(sequence)
        for i, r in zip(order, results):
            got[i] = r
        obs.count("interleaved", len(order))
        changed = [arguments != before for (_, arguments), before in zip(sequence, given)]
    else:
        changed = []
        for name, arguments in sequence:
            out, same = calls.result(name, arguments, cache)
            got.append(out)
            changed.append(not same)
    seen = []
    for (name, arguments), out, modified in zip(sequence, got, changed):
        require(not modified, "a call modifies its arguments", call=name, arguments=arguments)
        if out is None:
            continue
        obs.distinct("kinds of calls", name)
        if arguments in seen:
            obs.count("calls on arguments seen before")
            if all(ascii(arguments) != ascii(other) for other in seen):
                obs.count("calls on arguments that are equal to earlier ones but of other types")
        seen.append(arguments)
        fresh, _ = zygote.ask(name, arguments)
        obs.count("calls compared to a fresh process")
        if fresh and isinstance(fresh[-1], tuple) and fresh[-1][:1] == ("raises",):
            obs.count("calls that raise")
        # As text, because True == 1
        require(
            ascii(out) == ascii(fresh),
            "a call gives another result than in a fresh process",
            call=name,
            arguments=arguments,
            got=out,
            fresh=fresh,
            mode=case["_mode"],
            before=[n for n, _ in sequence],
        )
    if len({n for n, _ in sequence}) > 3:
        obs.mark_nontrivial()


def interruptions(seed, rate):
    """A trace function that lets other threads go on after lines of the library, at random."""
    rng = random.Random(seed)
    left = 400
    done = 0

    def trace(frame, event, _):
        nonlocal left, done
        if "gaspra" not in frame.f_code.co_filename:
            return None
        if event == "line" and left and rng.random() < rate:
            left -= 1
            done += 1
            time.sleep(1e-6)
        return trace

    return trace, lambda: done


def in_threads(sequence, cache, obs):
    """The calls are spread over threads that switch very often."""
    got = [None] * len(sequence)
    count = min(4, len(sequence))
    start = threading.Barrier(count)
    failed = []
    switches = [0] * count

    def run(first):
        try:
            start.wait(60)
            for turn in range(3):
                trace, done = interruptions(first * 10 + turn, (0.02, 0.1, 0.5)[turn])
                sys.settrace(trace)
                for i in range(first, len(sequence), count):
                    name, arguments = sequence[i]
                    out = list(calls.start(name, arguments, cache))
                    if got[i] is None or ascii(out) == ascii(got[i]):
                        got[i] = out
                    else:
                        got[i] = ["different results", got[i], out]
                sys.settrace(None)
                switches[first] += done()
        except BaseException as error:
            failed.append(error)

    threads = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(count)]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(interval)
    if failed:
        raise failed[0]
    obs.count("switches between threads within calls", sum(switches))
    return got


# Other circumstances for new interpreters.
PROCESSES = {
    "ascii": dict(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"),
    "optimized": dict(PYTHONOPTIMIZE="2"),
    "elsewhere": dict(HOME="/nonexistent", TMPDIR="/nonexistent", TZ="Asia/Tokyo", USER="", LANGUAGE="de"),
    "debugging": dict(PYTHONMALLOC="debug", PYTHONDEVMODE="1", PYTHONWARNINGS="ignore"),
}
SCRIPT = """
import ast, sys
sys.dont_write_bytecode = True
sys.path[:0] = [{src!r}, {verif!r}]
from mon import calls
for name, arguments in ast.literal_eval(sys.stdin.read()):
    print(ascii(calls.result(name, arguments)[0]))
"""


def check_seeds(case, obs):
    sequence = case["calls"]
    want = [ascii(calls.result(name, copy.deepcopy(arguments))[0]) for name, arguments in sequence]
    done = subprocess.run(
        [sys.executable, "-c", SCRIPT.format(src=SRC, verif=VERIF)],
        input=ascii(sequence),
        env=dict(os.environ, PYTHONHASHSEED=case["_seed"], **PROCESSES.get(case.get("_process"), {})),
        cwd="/",
        capture_output=True,
        text=True,
        timeout=300,
    )
    if done.returncode:
        raise Inconclusive(f"an interpreter with another hash seed failed: {done.stderr[-500:]}")
    lines = done.stdout.splitlines()
    if len(lines) != len(want):
        raise Inconclusive("an interpreter with another hash seed printed something else")
    for (name, arguments), x, y in zip(sequence, want, lines):
        obs.count("results with other hash seeds")
        obs.distinct("hash seeds", case["_seed"])
        if case.get("_process"):
            obs.count("results in other circumstances")
            obs.distinct("circumstances", case["_process"])
        require(
            x == y,
            "a result depends on the hash seed or on how Python runs",
            call=name,
            arguments=arguments,
            one=x,
            two=y,
            seed=case["_seed"],
            process=case.get("_process"),
        )
