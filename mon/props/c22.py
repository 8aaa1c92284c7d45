"""C22: a database collection behaves like a dictionary."""

import itertools
import os
import sqlite3

from mon import histories
from mon.connections import connect
from mon.core import OutOfDomain, Violation, remove_scratch, require, scratch_dir, short, sut
from mon.faults import FaultyConnection, Trigger, database_error

from gaspra.db_collections import DBCollection

ID = "C22"
LEVEL = "exploration"
FILES = ("db_collections.py",)
RULE = (
    "A case is a sequence of operations on up to three collections in one database file, mirrored on "
    "dictionaries, with some operations failing at an injected point; another connection reads everything after "
    "each operation; non-trivial when some tag is overwritten or deleted."
)
FLOORS = {
    "operations": 40000,
    "failed lookups": 3000,
    "reads by the other connection": 40000,
    "injected faults": 2000,
    "overwritten": 3000,
    "overwritten while iterating": 200,
    "deleted": 1000,
    "large values": 20,
    "collections of 1000 or more entries": 5,
}
OPERATIONS = (
    "set set set set set set set get get del del del del in len iter keys values items get_default pop pop_default setdefault update "
    "popitem clear eq bool overwrite_all two_iterators scan"
).split()

LARGEST = 4100

directory = None
counter = 0


def setup_worker():
    global directory
    directory = scratch_dir("c22")


def teardown_worker():
    remove_scratch(directory)


def blocks(tier):
    return 160 if tier == "quick" else 1600


def value(rng):
    r = rng.random()
    if r < 0.1:
        return b""
    if r < 0.2:
        return rng.choice([b"NULL", b"\x00", b"\x00\xff'\"", b"0", b"1", b"\x80"])
    if r < 0.205:
        return histories.binary(rng, 70000)
    return histories.binary(rng, rng.randint(1, 12))


def cases(tier, block, rng):
    for _ in range(14):
        pool = rng.sample(histories.HOSTILE_TAGS, rng.randint(1, 3)) + [f"t{i}" for i in range(rng.randint(0, 3))]
        if rng.random() < 0.3:
            pool = list(rng.choice(histories.LOOK_ALIKES))
        tables = rng.randint(1, 3)
        ops = []
        for _ in range(rng.choice([5, 15, 40])):
            op = rng.choice(OPERATIONS)
            if op in ("clear", "popitem") and rng.random() < 0.6:
                op = "set"
            fault = rng.choice([None] * 5 + [(0, "before"), (1, "before"), (0, "after"), (2, "before")])
            if op in ("pop", "pop_default", "popitem", "clear", "update", "setdefault", "values", "items", "eq"):
                fault = None  # made of several operations
            if op in ("overwrite_all", "two_iterators", "scan"):
                fault = None
            ops.append((op, rng.randrange(tables), rng.choice(pool), value(rng), fault))
        yield dict(_tables=tables, ops=tuple(ops))


    if block % 16 == 7:
        # Many entries; the other connection can't compare all of them after each operation.
        n = rng.choice([1200, 2500, 4000])
        order = list(range(n))
        rng.shuffle(order)
        ops = [("set", 0, f"{i}", b"%d" % i, None) for i in order]
        for _ in range(30):
            op = rng.choice(["set", "del", "get", "in", "len", "iter", "keys", "items", "bool", "pop"])
            ops.append((op, 0, f"{rng.randrange(n + 50)}", b"new", None))
        for op in ("scan", "two_iterators", "overwrite_all"):
            ops.insert(rng.randint(len(ops) - 20, len(ops)), (op, 0, "0", b"all", None))
        yield dict(_tables=1, _many=True, ops=tuple(ops))


def apply(collection, op, tag, data):
    """The result of an operation, or the kind of KeyError."""
    try:
        if op == "set":
            collection[tag] = data
            return None
        if op == "get":
            return collection[tag]
        if op == "del":
            del collection[tag]
            return None
        if op == "in":
            return tag in collection
        if op == "len":
            return len(collection)
        if op in ("iter", "keys"):
            keys = list(collection) if op == "iter" else list(collection.keys())
            return sorted(keys)
        if op == "values":
            return sorted(collection.values())
        if op == "items":
            return sorted(collection.items())
        if op == "get_default":
            return collection.get(tag), collection.get(tag, data)
        if op == "pop":
            return collection.pop(tag)
        if op == "pop_default":
            return collection.pop(tag, data)
        if op == "setdefault":
            return collection.setdefault(tag, data)
        if op == "update":
            return collection.update({tag: data, "u": b"u"})
        if op == "clear":
            return collection.clear()
        if op == "bool":
            return bool(collection)
        if op == "overwrite_all":
            # Dictionaries allow that, because no entry is added or removed.
            keys = []
            for index, key in enumerate(collection):
                collection[key] = data * (len(key) % 7)
                keys.append(key)
                if index > 10 * LARGEST:
                    return "no end"
            return len(keys), len(set(keys))
        if op == "two_iterators":
            # Iterators don't disturb each other.
            one, two = iter(collection), iter(collection)
            got = [], []
            for key in one:
                got[0].append(key)
                got[1].extend(itertools.islice(two, len(got[0]) % 3))
            got[1].extend(two)
            return sorted(got[0]), sorted(got[1])
        if op == "scan":
            return sorted((key, collection[key], key in collection, len(collection)) for key in collection)
    except KeyError as error:
        return ("KeyError", error.args)
    raise AssertionError(op)


def check(case, obs):
    global counter
    counter += 1
    path = os.path.join(directory, f"{counter}.db")
    connection = connect(path)
    connection.execute("PRAGMA synchronous = OFF")
    if case.get("_many"):
        connection.execute("PRAGMA journal_mode = MEMORY")
        obs.count("collections of 1000 or more entries")
    connection.commit()
    other = sqlite3.connect(path, timeout=0.2)
    trigger = Trigger()
    trigger.error = database_error
    faulty = FaultyConnection(connection, trigger)
    names = ["one", "two", "head_versions"][: case["_tables"]]
    try:
        current = [faulty]
        collections = [sut(DBCollection, name, lambda: current[0]) for name in names]
        models = [{} for _ in names]
        for index, (op, table, tag, data, fault) in enumerate(case["ops"]):
            if table >= len(names):
                raise OutOfDomain("table")
            step(collections, models, index, op, table, tag, data, fault, trigger, obs)
            if not case.get("_many") or index % 500 == 0 or index > len(case["ops"]) - 5:
                compare(collections, models, names, current, other, index, op, obs)
    finally:
        connection.close()
        other.close()
        for end in ("", "-journal", "-wal", "-shm"):
            if os.path.exists(path + end):
                os.remove(path + end)


def step(collections, models, index, op, table, tag, data, fault, trigger, obs):
    collection, model = collections[table], models[table]
    context = dict(operation=op, tag=tag, step=index)
    obs.count("operations")
    if len(data) > 60000:
        obs.count("large values")
    if op in ("set", "update") and tag in model:
        obs.count("overwritten")
        obs.mark_nontrivial()
    if op == "overwrite_all" and len(model) > 1:
        obs.count("overwritten while iterating")
    if op == "del" and tag in model:
        obs.count("deleted")
        obs.mark_nontrivial()
    if op == "popitem":
        try:
            got = collection.popitem()
            require(got in model.items(), "popitem returns what wasn't there", got=got, **context)
            del model[got[0]]
        except KeyError:
            require(not model, "popitem raises KeyError but there are entries", **context)
        return
    if op == "eq":
        require(collection == dict(model), "a collection isn't equal to a dictionary of its entries", **context)
        return
    if fault is not None:
        at, when = fault
        trigger.arm(at, when)
        try:
            got = apply(collection, op, tag, data)
        except sqlite3.OperationalError as error:
            trigger.disarm()
            if trigger.fired is None:
                raise Violation(f"OperationalError: {short(str(error))} in {op} of {tag!r}") from error
            obs.count("injected faults")
            if trigger.fired == "commit" and when == "after":
                apply(model, op, tag, data)  # it was made durable before the error
            return
        except Exception as error:
            raise Violation(f"{type(error).__name__}: {short(str(error))} after a fault in {op} of {tag!r}") from error
        trigger.disarm()
        require(
            trigger.fired is None or op in ("get", "in", "len", "iter", "keys", "bool", "get_default"),
            "an operation hides that the database failed",
            failed=trigger.fired,
            **context,
        )
        want = apply(model, op, tag, data)
        require(got == want, "an operation has another result than on a dictionary", got=got, want=want, **context)
        return
    got = sut(apply, collection, op, tag, data)
    want = apply(model, op, tag, data)
    if isinstance(want, tuple) and want and want[0] == "KeyError":
        obs.count("failed lookups")
        require(isinstance(got, tuple) and got[:1] == ("KeyError",), "no KeyError for a missing tag", got=got, **context)
        return
    require(
        got == want and type(got) is type(want),
        "an operation has another result than on a dictionary",
        got=got,
        want=want,
        **context,
    )


def compare(collections, models, names, current, other, index, op, obs):
    """Another connection sees exactly the entries of the models."""
    for name, collection, model in zip(names, collections, models):
        first = current[0]
        current[0] = other
        try:
            got = sut(lambda: dict(collection.items()))
        finally:
            current[0] = first
        obs.count("reads by the other connection")
        require(
            got == model, "another connection doesn't see the entries", got=got, want=model, operation=op, step=index
        )
    if index % 4 == 0:
        # Nothing is left locked.
        try:
            other.execute("BEGIN IMMEDIATE")
            other.rollback()
        except sqlite3.OperationalError as error:
            raise Violation(f"the database stays locked after {op}: {error}") from error
    if index % 5 == 0:
        for name, collection, model in zip(names, collections, models):
            keys = sut(lambda: list(collection))
            require(len(keys) == len(set(keys)) and set(keys) == set(model), "wrong tags", got=keys, want=set(model))
            require(sut(len, collection) == len(model), "wrong number of entries")
            for key in keys:
                require(sut(lambda: collection[key]) == model[key], "wrong entry", tag=key)
