"""C18: every stored version can always be retrieved exactly."""

import random

from mon import gen, histories
from mon.core import OutOfDomain, Violation, require, sut

ID = "C18"
LEVEL = "exploration"
FILES = ("versions.py", "memory_tree.py", "db_tree.py", "db_collections.py", "serialize.py")
RULE = (
    "A case is a history of added versions (tag, content, base) with a storage back-end and a tokenizer; after "
    "every step versions are read back and compared to the model; non-trivial when it has at least three versions "
    "of two different contents."
)
FLOORS = {
    "versions added": 20000,
    "versions read back": 150000,
    "absent tags": 10000,
    "branches from superseded versions": 1000,
    "back-end and tokenizer": 12,
    "reads from two stores in turn": 2000,
    "histories of 100 or more versions": 4,
    "contents over 64 KiB": 4,
}


def blocks(tier):
    return 160 if tier == "quick" else 1600


def large_history(rng, tokenizer):
    """Contents whose patches have positions beyond 240, 2287 and 67823."""
    size = rng.choice([239, 241, 2286, 2289, 67822, 67825, 70000])
    if tokenizer == "line":
        unit = [b"%d\n" % i for i in range(size // 5)]
    else:
        unit = [bytes([x]) for x in rng.choices(range(97, 123), k=size)]
    data = list(unit)
    out = [("v0", b"".join(data), None)]
    for i in range(1, 4):
        for _ in range(rng.choice([1, 2])):
            at = rng.choice([0, len(data), 240, 2287, 67823, rng.randint(0, len(data))])
            at = min(at, len(data))
            data[at : at + rng.choice([0, 1, 3, 240, 2287])] = [
                b"%c" % rng.choice(b"ABC") + (b"\n" if tokenizer == "line" else b"")
                for _ in range(rng.choice([0, 1, 2, 241, 2288] if size < 60000 else [0, 1, 2, 241]))
            ]
        out.append((f"v{i}", b"".join(data), rng.choice([i - 1, i - 1, i - 1, 0])))
    return tuple(out)


def cases(tier, block, rng):
    backend = ["memory", "db", "mixed", "memory"][block % 4]
    for index, bases in enumerate(histories.all_shapes(6 if tier == "quick" else 7)):
        if index % blocks(tier) == block:
            data = [rng.choice([b"", b"a\n", b"b\na\n", b"a\nc\na\n", b"c"]) for _ in bases]
            yield dict(
                _backend=rng.choice(["memory", "db"]),
                _tok=rng.choice(list(histories.TOKENIZERS)),
                _dense=True,
                history=tuple((f"v{i}", data[i], base) for i, base in enumerate(bases)),
            )
    for index in range(16):
        tokenizer = list(histories.TOKENIZERS)[(block // 4 + index) % 4]
        n = rng.choice([1, 2, 4, 8, 12, 16, 24, 32])
        kind = rng.choice(["chain", "files", "branches", "branches", "star", "random"])
        style = rng.choice(["int", "tuple", "falsy"]) if backend == "memory" and rng.random() < 0.3 else None
        yield dict(
            _backend=backend,
            _tok=tokenizer,
            _dense=n <= 24,
            history=histories.history(rng, n, kind, tokenizer, rng.choice([2, 6]), style),
        )
    tokenizer = rng.choice(list(histories.TOKENIZERS))
    history = histories.history(rng, rng.choice([2, 3, 5, 9, 14]), rng.choice(["chain", "branches"]), tokenizer, 2)
    twin = list(history)
    for i, (tag, content, base) in enumerate(history):
        if rng.random() < 0.5:
            twin[i] = (tag, rng.choice([history[rng.randrange(len(history))][1], content + content]), base)
    yield dict(_backend=backend, _tok=tokenizer, history=history, twin=tuple(twin), _turns=rng.randrange(1000))
    if block % 16 == 5 or tier == "thorough" and block % 3 == 0:
        n = rng.choice([100, 150, 220] if tier == "quick" else [150, 300, 600])
        kind = rng.choice(["chain", "chain", "branches", "files"])
        yield dict(
            _backend=rng.choice(["memory", "db"]),
            _tok=tokenizer,
            _dense=False,
            history=histories.history(rng, n, kind, tokenizer, 2, "plain"),
        )
    if block % 40 == 9:
        n = rng.choice([900, 1600])
        bases = histories.shape(rng, n, rng.choice(["chain", "chain", "files"]))
        yield dict(
            _backend="memory" if block % 80 == 9 else "db",
            _tok="null",
            _dense=False,
            history=tuple((f"v{i}", b"%d" % rng.randrange(99), base) for i, base in enumerate(bases)),
        )
    if block % 8 == 6 or tier == "thorough" and block % 2:
        # versions which differ in many places
        places = rng.choice([70, 70, 140, 300, 700]) if tier == "quick" else rng.choice([300, 1300, 3000])
        texts = gen.heavy_documents(rng, places, rng.choice([1, 2, 3]))
        bases = histories.shape(rng, len(texts) + 1, rng.choice(["chain", "star"]))
        yield dict(
            _backend=backend if block % 16 == 6 else "db",
            _tok=tokenizer,
            _dense=True,
            history=tuple((f"v{i}", text.encode(), bases[i]) for i, text in enumerate([*texts, texts[0]])),
        )
    if block in (18, 19):
        contents = [t.encode() for t in gen.megabytes(rng, 4)]
        yield dict(
            _backend=rng.choice(["memory", "db"]),
            _tok="line",
            _dense=True, history=tuple((f"v{i}", content, i - 1 if i else None) for i, content in enumerate(contents)),
        )
    if rng.random() < 0.5:
        tokenizer = rng.choice(["char", "symbol"])
        n = rng.choice([1, 2, 3, 5])
        history = histories.history(rng, n, rng.choice(["chain", "random"]), tokenizer, 2)
        at = rng.randrange(n)
        bad = rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"caf\xe9\n", b"\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"])
        history = tuple(
            (tag, content[: len(content) // 2] + bad + content[len(content) // 2 :] if i == at else content, base)
            for i, (tag, content, base) in enumerate(history)
        )
        yield dict(_backend=backend, _tok=tokenizer, _dense=True, history=history, _invalid=True)
    if block % 8 == 3 or tier == "thorough":
        tokenizer = rng.choice(["null", "char", "line", "null"])
        yield dict(_backend=backend, _tok=tokenizer, _dense=True, history=large_history(rng, tokenizer))


def invalid(history, versions, obs):
    """A content that the tokenizer may refuse: what comes back is never another content."""
    refused = set()
    for tag, content, base in history:
        arguments = [tag, content] + ([history[base][0]] if base is not None else [])
        if base is not None and history[base][0] in refused:
            arguments = arguments[:2]
        try:
            sut(versions.add, *arguments)
        except Violation as violation:
            if not isinstance(violation.__cause__, UnicodeError):
                raise
            refused.add(tag)
        for other, want, _ in history:
            try:
                got = sut(versions.get, other)
            except Violation as violation:
                if not isinstance(violation.__cause__, (UnicodeError, LookupError)):
                    raise
                obs.count("contents refused")
                continue
            require(got is None or got == want, "another content is returned", tag=other, got=got, want=want)


def twins(case, obs):
    """Two stores in which the same tags have other contents, used in turn."""
    pair = []
    for history in (case["history"], case["twin"]):
        if not histories.valid(history):
            raise OutOfDomain("history")
        pair.append((history, sut(histories.make_versions, case["_backend"], case["_tok"]), histories.Model()))
    rng = random.Random(case["_turns"])
    for i in range(max(len(history) for history, _, _ in pair)):
        for history, versions, model in pair:
            if i < len(history):
                tag, content, base = history[i]
                base = history[base][0] if base is not None else None
                sut(versions.add, tag, content, base)
                model.add(tag, content, base)
        tags = list(pair[0][2].order)
        rng.shuffle(tags)
        for tag in tags:
            for _, versions, model in rng.sample(pair, 2):
                if tag in model.content:
                    histories.require_content(versions, model, tag, f"with two stores, after step {i}")
                    obs.count("versions read back")
                    obs.count("reads from two stores in turn")


def check(case, obs):
    history = case["history"]
    if "twin" in case:
        return twins(case, obs)
    if not histories.valid(history):
        raise OutOfDomain("history")
    versions = sut(histories.make_versions, case["_backend"], case["_tok"])
    if case.get("_invalid"):
        return invalid(history, versions, obs)
    model = histories.Model()
    obs.distinct("back-end and tokenizer", (case["_backend"], case["_tok"]))
    tags = {tag for tag, _, _ in history}
    text = isinstance(history[0][0], str) if history else True
    absent = [t for t in (["nope", "v-1", "'", "V0"] if text and all(isinstance(t, str) for t in tags) else ["nope", 10**9, ("v",), 2.5]) if t not in tags]

    def after(i):
        obs.count("versions added")
        tag, content, base = history[i]
        if base is not None and model.branch[tag] != model.branch[history[base][0]]:
            obs.count("branches from superseded versions")
        if len(content) > 65536:
            obs.count("contents over 64 KiB")
        for j in histories.probes(history, i, case["_dense"]):
            tag = history[j][0]
            histories.require_content(versions, model, tag, f"after adding version {i}")
            require(sut(lambda: tag in versions), "a version that was added isn't contained", tag=tag)
            obs.count("versions read back")
        later = [t for t, _, _ in history[i + 1 : i + 3]]
        for tag in absent + later:
            require(sut(versions.get, tag) is None, "an absent tag has content", tag=tag)
            require(not sut(lambda: tag in versions), "an absent tag is contained", tag=tag)
            require(sut(versions.version_info, tag) is None, "an absent tag has information", tag=tag)
            obs.count("absent tags")

    histories.run(history, versions, model, after)
    for tag in model.order:
        histories.require_content(versions, model, tag, "at the end")
        obs.count("versions read back")
    n = len(model.order)
    obs.maximum("versions in a history", n)
    obs.maximum("versions in a branch", max(model.size.values(), default=0))
    if n >= 100:
        obs.count("histories of 100 or more versions")
    if n >= 3 and len(set(model.content.values())) > 1:
        obs.mark_nontrivial()
