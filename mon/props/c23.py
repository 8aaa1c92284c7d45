"""C23: an add that fails leaves all earlier versions intact."""

from collections.abc import MutableMapping

from mon import histories
from mon.core import OutOfDomain, Violation, require, short, sut
from mon.faults import FaultyConnection, InjectedFault, Trigger, database_error

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions

ID = "C23"
LEVEL = "fault_enumeration"
FILES = ("versions.py", "memory_tree.py", "db_tree.py", "db_collections.py")
RULE = (
    "A case is a history and the version whose addition fails; it's run once for every operation that the "
    "addition does on the storage, tree, tokenizer or database (as counted by the stand-ins), which fails before "
    "or after taking effect, and then goes on with other versions; non-trivial when the addition splits off a "
    "version or retires a head."
)
FLOORS = {
    "fault points": 4000,
    "versions read back": 100000,
    "kinds of fault points": 25,
    "kinds of errors": 6,
    "invalid contents": 200,
    "unknown bases": 200,
    "tags added again": 200,
    "versions added at the second try": 300,
    "versions added afterwards": 10000,
}
LAYERS = ("storage", "tokenizer", "statements")
ERRORS = {
    "fault": InjectedFault,
    "database": database_error,
    "os": OSError,
    "memory": MemoryError,
    "interrupt": KeyboardInterrupt,
    "exit": SystemExit,
}
PLAIN = ("content", "base", "again")  # nothing is injected


def blocks(tier):
    return 160 if tier == "quick" else 1200


class FaultyMapping(MutableMapping):
    def __init__(self, inner, trigger, name):
        self.inner = inner
        self.trigger = trigger
        self.name = name

    def __getitem__(self, key):
        return self.trigger(f"{self.name}.get", lambda: self.inner[key])

    def get(self, key, default=None):
        return self.trigger(f"{self.name}.get", lambda: self.inner.get(key, default))

    def __setitem__(self, key, value):
        def operation():
            self.inner[key] = value

        self.trigger(f"{self.name}.set", operation)

    def __delitem__(self, key):
        def operation():
            del self.inner[key]

        self.trigger(f"{self.name}.del", operation)

    def __iter__(self):
        return iter(self.inner)

    def __len__(self):
        return len(self.inner)

    def __contains__(self, key):
        return self.trigger(f"{self.name}.contains", lambda: key in self.inner)


class FaultyTree:
    def __init__(self, inner, trigger):
        self.inner = inner
        self.trigger = trigger

    def __contains__(self, tag):
        return self.trigger("tree.contains", lambda: tag in self.inner)

    def __getattr__(self, name):
        attribute = getattr(self.inner, name)
        if not callable(attribute):
            return attribute
        return lambda *a, **k: self.trigger(f"tree.{name}", lambda: attribute(*a, **k))


class FaultyTokenizer:
    def __init__(self, inner, trigger):
        self.inner = inner
        self.trigger = trigger

    def encode(self, contents):
        return self.trigger("encode", lambda: self.inner.encode(contents))

    def decode(self, contents):
        return self.trigger("decode", lambda: self.inner.decode(contents))


def build(backend, tokenizer, layer, trigger):
    factory = histories.TOKENIZERS[tokenizer]
    if layer == "tokenizer":
        inner_factory = factory
        factory = lambda: FaultyTokenizer(inner_factory(), trigger)
    if backend == "memory":
        copies, patches, tree = {}, {}, MemoryTree()
    else:
        db = histories.DB()
        if layer == "statements":
            connection = FaultyConnection(db.connection, trigger)
            db = lambda: connection
        copies, patches, tree = DBCollection("copies", db), DBCollection("patches", db), DBTree(db)
    if layer == "storage":
        copies = FaultyMapping(copies, trigger, "copies")
        patches = FaultyMapping(patches, trigger, "patches")
        tree = FaultyTree(tree, trigger)
    return Versions(head_version=copies, diffs=patches, tree=tree, tokenizer_factory=factory)


def cases(tier, block, rng):
    for _ in range(4):
        backend = rng.choice(["memory", "db"])
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        kind = rng.choice(["chain", "chain", "chain", "files", "branches", "random"])
        n = rng.choice([2, 3, 4, 5, 6, 8, 10, 13])
        size = rng.choice([1, 3])
        history = histories.history(rng, n + 3, kind, tokenizer, size, "plain")
        if backend == "memory":
            layer = rng.choice(LAYERS[:2])
        else:
            layer = rng.choice(["storage", "tokenizer", "statements", "statements"])
        yield dict(
            _backend=backend, _tok=tokenizer, _layer=layer, _when=rng.choice(["before", "before", "after"]), fails=n - 1,
            history=history, _error=rng.choice(["database" if layer == "statements" else "fault", *ERRORS]),
        )
    for _ in range(4):
        tokenizer = rng.choice(["char", "symbol"])
        n = rng.choice([2, 4, 6, 9])
        history = histories.history(rng, n + 3, rng.choice(["chain", "branches"]), tokenizer, 3, "plain")
        yield dict(
            _backend=rng.choice(["memory", "db"]), _tok=rng.choice(["char", "symbol"]), _layer="content", _when="", fails=n - 1,
            history=history,
        )
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        history = histories.history(rng, n + 3, rng.choice(["chain", "branches"]), tokenizer, 3, "plain")
        yield dict(
            _backend=rng.choice(["memory", "db"]), _tok=tokenizer, _layer="base", _when="", fails=n - 1, history=history
        )
        kind = rng.choice(["chain", "chain", "files", "branches"])
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        history = histories.history(rng, n + 3, kind, tokenizer, 3, "plain")
        yield dict(
            _backend=rng.choice(["memory", "db"]), _tok=tokenizer, _layer="again", _when="", fails=n - 1, history=history,
            again=rng.randrange(n), onto=rng.choice([None, rng.randrange(n)]),
        )


def check(case, obs):
    history, fails = case["history"], case["fails"]
    if not histories.valid(history) or not 0 <= fails < len(history):
        raise OutOfDomain("history")
    if case["_layer"] in PLAIN:
        attempt(case, obs, None)
        return
    at = 0
    while attempt(case, obs, at):
        at += 1
    obs.maximum("fault points of one addition", at)


def attempt(case, obs, at):
    """Run the history with one fault; False if there's no such point."""
    history, fails, layer, when = case["history"], case["fails"], case["_layer"], case["_when"]
    trigger = Trigger()
    trigger.error = ERRORS[case.get("_error", "fault")]
    versions = sut(build, case["_backend"], case["_tok"], layer, trigger)
    model = histories.Model()
    histories.run(history[:fails], versions, model)

    tag, content, base = history[fails]
    base_tag = history[base][0] if base is not None else None
    if layer == "content":
        content = content[: len(content) // 2] + b"\xff" + content[len(content) // 2 :]
        obs.count("invalid contents")
    elif layer == "base":
        base_tag = "no such version"
        obs.count("unknown bases")
    elif layer == "again":
        if not fails:
            return False
        tag = history[case["again"] % fails][0]
        base_tag = None if case["onto"] is None else history[case["onto"] % fails][0]
        obs.count("tags added again")
    else:
        trigger.arm(at, when)
    failed = False
    try:
        versions.add(tag, content, base_tag)
    except (Exception, KeyboardInterrupt, SystemExit) as error:
        if not isinstance(error, Exception) and trigger.fired is None:
            raise
        failed = True
        if layer not in PLAIN and trigger.fired is None:
            raise Violation(f"{type(error).__name__}: {short(str(error))} in add() without a fault") from error
    trigger.disarm()
    fired = trigger.fired
    if layer not in PLAIN:
        if fired is None:
            return False
        obs.count("fault points")
        obs.distinct("kinds of errors", case.get("_error"))
        obs.distinct("kinds of fault points", (layer, case["_backend"], when, fired))
        if not failed:
            # The code may do without this operation, but then the version is there.
            model.add(tag, content, base_tag)
    elif layer == "base":
        require(failed, "adding to an unknown base succeeds", tag=tag)
    elif layer == "content" and not failed:
        obs.count("invalid content accepted")
    if base_tag is not None:
        obs.mark_nontrivial()

    context = f"after the addition of {tag!r} to {base_tag!r} failed at {fired or layer} ({when}, operation {at})"
    judge(versions, model, obs, context)
    if failed and layer in ("content", "base"):
        tag, content, base = history[fails]
        base_tag = history[base][0] if base is not None else None
        try:
            sut(versions.add, tag, content, base_tag)
        except Violation as violation:
            raise Violation(f"{violation.message} when adding it properly {context}")
        model.add(tag, content, base_tag)
        obs.count("versions added at the second try")
        judge(versions, model, obs, context + " and it was added properly")
    # Versions that don't build on the one that failed.
    for i in range(fails + 1, len(history)):
        tag2, content2, base2 = history[i]
        base2_tag = history[base2][0] if base2 is not None else None
        if base2_tag == tag and base_tag in model.content:
            base2_tag = base_tag  # try again on what was there before
        elif base2_tag is not None and base2_tag not in model.content:
            base2_tag = model.order[-1] if model.order else None
        try:
            sut(versions.add, tag2, content2, base2_tag)
        except Violation as violation:
            raise Violation(f"{violation.message} when adding {tag2!r} to {base2_tag!r} {context}")
        model.add(tag2, content2, base2_tag)
        obs.count("versions added afterwards")
        judge(versions, model, obs, context + f" and " + f"{tag2!r} was added to {base2_tag!r}")
    return True


def judge(versions, model, obs, context):
    for tag in model.order:
        try:
            histories.require_content(versions, model, tag, context)
            require(sut(lambda: tag in versions), "a version isn't contained", tag=tag, when=context)
        except Violation as violation:
            if context in violation.message:
                raise
            raise Violation(f"{violation.message} of {tag!r} {context}")
        obs.count("versions read back")
