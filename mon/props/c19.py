"""C19: only branch heads are stored in full, and info is truthful."""

from collections.abc import MutableMapping

from mon import gen, histories, varint
from mon.core import OutOfDomain, require, sut
from mon.oracle import has_common

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions

ID = "C19"
LEVEL = "exploration"
FILES = ("versions.py", "serialize.py")
RULE = (
    "A case is a history of added versions with recording storage under it; after every step the stored full "
    "copies and patches, the writes of the step and the information on every version are judged; non-trivial "
    "when the history has a version that is split off, or several branches."
)
FLOORS = {
    "adds": 20000,
    "adds with two patches": 3000,
    "information on patches": 100000,
    "information on full copies": 20000,
    "patches measured": 3000,
    "copies retired": 10000,
    "patches that copy from beyond 2287": 40,
}


def blocks(tier):
    return 160 if tier == "quick" else 1600


class Recording(MutableMapping):
    """A mapping that records the writes to it."""

    def __init__(self, inner):
        self.inner = inner
        self.log = []

    def __getitem__(self, key):
        return self.inner[key]

    def __setitem__(self, key, value):
        self.inner[key] = value
        self.log.append(("set", key))

    def __delitem__(self, key):
        del self.inner[key]
        self.log.append(("del", key))

    def __iter__(self):
        return iter(self.inner)

    def __len__(self):
        return len(self.inner)

    def __contains__(self, key):
        return key in self.inner


def cases(tier, block, rng):
    backend = ["memory", "db"][block % 2]
    for index in range(16):
        tokenizer = list(histories.TOKENIZERS)[(block // 2 + index) % 4]
        n = rng.choice([2, 4, 8, 12, 16, 24])
        kind = rng.choice(["chain", "chain", "files", "branches", "star", "random"])
        style = rng.choice(["int", "tuple", "falsy"]) if backend == "memory" and rng.random() < 0.3 else None
        yield dict(
            _backend=backend,
            _tok=tokenizer,
            history=histories.history(rng, n, kind, tokenizer, rng.choice([1, 4]), style),
        )
    for length in rng.sample([200, 242, 2280, 2290, 3000], 2) + ([67830, 70000] if block % 32 == 5 else []):
        yield dict(
            _backend=backend,
            _tok=rng.choice(["null", "null", "null", *histories.TOKENIZERS]),
            history=histories.sparse(rng, rng.choice([2, 3, 5]) if length < 9999 else 3, length),
        )
    if block in (18, 19):
        contents = [t.encode() for t in gen.megabytes(rng, 4)]
        yield dict(
            _backend=rng.choice(["memory", "db"]),
            _tok="line",
            history=tuple((f"v{i}", content, i - 1 if i else None) for i, content in enumerate(contents)),
        )
    if block % 16 == 3 or tier == "thorough" and block % 4 == 0:
        n = rng.choice([80, 120] if tier == "quick" else [100, 400])
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        yield dict(
            _backend=backend,
            _tok=tokenizer,
            history=histories.history(rng, n, rng.choice(["chain", "files"]), tokenizer, 1, "plain"),
        )


def longest_common(a, b):
    low, high = 0, min(len(a), len(b))
    while low < high:
        middle = (low + high + 1) // 2
        if has_common(a, b, middle):
            low = middle
        else:
            high = middle - 1
    return low


def check(case, obs):
    history = case["history"]
    if not histories.valid(history):
        raise OutOfDomain("history")
    if case["_backend"] == "memory":
        copies, patches = {}, {}
        tree = MemoryTree()
    else:
        db = histories.DB()
        copies, patches = DBCollection("copies", db), DBCollection("patches", db)
        tree = DBTree(db)
    copies, patches = Recording(copies), Recording(patches)
    versions = sut(
        Versions,
        head_version=copies,
        diffs=patches,
        tree=tree,
        tokenizer_factory=histories.TOKENIZERS[case["_tok"]],
    )
    model = histories.Model()
    tokens = case["_tok"]

    def after(i):
        tag, content, base = history[i]
        obs.count("adds")
        context = dict(adding=tag, to=history[base][0] if base is not None else None, versions_added=i + 1)
        heads = model.heads
        require(set(copies) == heads, "the full copies aren't those of the heads", got=set(copies), want=heads, **context)
        others = set(model.content) - heads
        require(set(patches) == others, "the patches aren't those of the others", got=set(patches), want=others, **context)
        require(len(copies) == len(heads) and len(patches) == len(others), "an entry is stored twice", **context)
        for head in heads:
            require(copies[head] == model.content[head], "a full copy has other content", tag=head, **context)

        written = [t for op, t in copies.log if op == "set"]
        require(written == [tag], "adding writes full copies other than the new one", written=written, **context)
        deleted = [t for op, t in copies.log if op == "del"]
        require(len(deleted) <= 1, "adding removes several full copies", removed=deleted, **context)
        written_patches = [t for op, t in patches.log if op == "set"]
        require(len(written_patches) <= 2, "adding writes more than two patches", written=written_patches, **context)
        removed_patches = [t for op, t in patches.log if op == "del"]
        require(not removed_patches, "adding removes patches", removed=removed_patches, **context)
        obs.count("copies retired", len(deleted))
        if len(written_patches) == 2:
            obs.count("adds with two patches")
        if len(written_patches) == 2 or len(heads) > 1:
            obs.mark_nontrivial()
        copies.log.clear()
        patches.log.clear()

        dense = len(history) <= 24
        for j in histories.probes(history, i, dense):
            tag = history[j][0]
            check_info(versions, model, tag, patches.inner, obs, context)
        if tokens == "null":
            for t in set(written_patches):
                check_patch(model, t, sut(tree.path_to, t), patches[t], obs, context)
        require(sut(versions.version_info, "absent" if isinstance(tag, str) else ("absent",)) is None, "an unknown tag has information")

    histories.run(history, versions, model, after)


def check_info(versions, model, tag, patches, obs, context):
    info = sut(versions.version_info, tag)
    context = dict(context, tag=tag)
    require(info is not None, "a version has no information", **context)
    require(
        info.base_version == model.base[tag],
        "the base isn't the one the version was added with",
        got=info.base_version,
        want=model.base[tag],
        **context,
    )
    content = model.content[tag]
    if tag in model.heads:
        obs.count("information on full copies")
        require(
            (info.token_count, info.change_count) == (len(content), 0),
            "wrong size of a full copy",
            got=info,
            want=len(content),
            **context,
        )
        return
    obs.count("information on patches")
    parts = varint.parse_patch(patches[tag])
    literal = sum(len(p) for p in parts if isinstance(p, bytes))
    require(
        (info.token_count, info.change_count) == (literal, len(parts)),
        "wrong size of a patch",
        got=info,
        want=(literal, len(parts)),
        **context,
    )
    require(literal <= len(content), "a patch has more content than the version", got=literal, want=len(content), **context)


def check_patch(model, tag, path, patch, obs, context):
    """No literal content inside the longest block in common with its neighbor."""
    content = model.content[tag]
    neighbor = model.content[path[-2]]
    literal = sum(len(p) for p in varint.parse_patch(patch) if isinstance(p, bytes))
    common = longest_common(content, neighbor)
    if any(isinstance(p, tuple) and p[0] > 2287 for p in varint.parse_patch(patch)):
        obs.count("patches that copy from beyond 2287")
    obs.count("patches measured")
    require(
        literal <= len(content) - common,
        "a patch repeats content that it could have taken from the version it applies to",
        tag=tag,
        applies_to=path[-2],
        literal=literal,
        length=len(content),
        common=common,
        **context,
    )
