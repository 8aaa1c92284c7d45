"""C20: retrieval paths are well-formed and stay short."""

import math

from mon import histories
from mon.core import OutOfDomain, require, sut

ID = "C20"
LEVEL = "exploration"
FILES = ("versions.py", "memory_tree.py", "db_tree.py")
RULE = (
    "A case is a history of added versions; after every step the paths to (all, in long histories a spread of) "
    "the versions are judged; non-trivial when some path has at least three versions."
)
FLOORS = {
    "adds": 20000,
    "paths": 200000,
    "beginnings of paths": 300000,
    "histories of 200 or more versions": 10,
}


def blocks(tier):
    return 160 if tier == "quick" else 1200


def cases(tier, block, rng):
    backend = ["memory", "db"][block % 2]
    n = 6 if tier == "quick" else 7
    for index, bases in enumerate(histories.all_shapes(n)):
        if index % blocks(tier) == block:
            yield dict(bases=bases, _tags="plain", _backend=backend, _n=n)
    for _ in range(14):
        n = rng.choice([3, 6, 12, 20, 40])
        kind = rng.choice(["chain", "chain", "files", "branches", "star", "random"])
        yield dict(
            _backend=backend,
            _n=n,
            bases=tuple(histories.shape(rng, n, kind)),
            _tags=rng.choice(["plain", "hostile", "int"] if backend == "memory" else ["plain", "hostile"]),
            _turn=rng.choice([0, rng.randrange(n)]),
        )
    if block % 8 == 0 or tier == "thorough":
        n = rng.choice([200, 300, 500] if tier == "quick" else [300, 1000])
        if tier == "thorough" and block % 60 == 0:
            n = 4000
        if block in (16, 80, 144):
            n = 2500
        if block == 8:
            n = 6000
        kind = rng.choice(["chain", "chain", "chain", "files", "branches"]) if n < 3000 else "chain"
        yield dict(_backend=rng.choice(["memory", "db"]) if n < 3000 else "memory", _n=n, bases=tuple(histories.shape(rng, n, kind)), _tags="plain")


def check(case, obs):
    bases = case["bases"]
    n = len(bases)
    tags = [histories.make_tag(None, i, case["_tags"]) for i in range(n)]
    turn = case.get("_turn", 0)
    tags = tags[turn:] + tags[:turn]
    history = tuple((tags[i], b"%d" % (i % 7), base) for i, base in enumerate(bases))
    if not histories.valid(history):
        raise OutOfDomain("history")
    versions = sut(histories.make_versions, case["_backend"], "null")
    tree = versions.tree
    model = histories.Model()
    if n >= 200:
        obs.count("histories of 200 or more versions")

    def judge(tag):
        path = sut(tree.path_to, tag)
        context = dict(tag=tag, path=path, versions_added=len(model.order))
        branch = model.branch[tag]
        require(path is not None and len(path) > 0, "no path to a version", **context)
        path = tuple(path)
        require(path[0] == model.head[branch], "a path doesn't begin at the head of the branch", **context)
        require(path[-1] == tag, "a path doesn't end at its version", **context)
        require(len(set(path)) == len(path), "a path has repeats", **context)
        size = model.size[branch]
        require(
            len(path) <= 2 * math.sqrt(size) + 1,
            "a path is longer than 2*sqrt(n)+1",
            length=len(path),
            versions_of_branch=size,
            **context,
        )
        obs.count("paths")
        obs.maximum("path length", len(path))
        obs.maximum("path length * 100 // sqrt(n) for n >= 100", int(100 * len(path) / math.sqrt(size)) if size >= 100 else 0)
        if len(path) >= 3:
            obs.mark_nontrivial()
        return path

    def after(i):
        obs.count("adds")
        everything = n <= 40 or i == n - 1 or i % (100 if n < 3000 else 400) == 99
        paths = {}
        for j in range(i + 1) if everything else histories.probes(history, i, False):
            tag = history[j][0]
            paths[tag] = judge(tag)
        for tag, path in paths.items():
            if len(path) < 2:
                continue
            neighbor = path[-2]
            got = paths.get(neighbor)
            if got is None:
                got = judge(neighbor)
            obs.count("beginnings of paths")
            require(got == path[:-1], "the beginning of a path isn't the path to its last version", path=path, got=got)

    histories.run(history, versions, model, after)
