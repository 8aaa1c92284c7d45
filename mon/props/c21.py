"""C21: the in-memory and the database tree are interchangeable."""

from mon import histories
from mon.core import OutOfDomain, require, sut

from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions

ID = "C21"
LEVEL = "exploration"
FILES = ("memory_tree.py", "db_tree.py", "versions.py")
RULE = (
    "A case is a history given to both trees (through Versions); after every step all answers of the two trees "
    "are compared; non-trivial when some version is split off from below a head."
)
FLOORS = {"adds": 15000, "paths compared": 100000, "splits compared": 100000, "deep splits": 10000}


def blocks(tier):
    return 160 if tier == "quick" else 1200


def cases(tier, block, rng):
    n = 6 if tier == "quick" else 7
    for index, bases in enumerate(histories.all_shapes(n)):
        if index % blocks(tier) == block:
            yield dict(bases=bases, _tags="plain")
    for _ in range(12):
        n = rng.choice([3, 6, 12, 20, 40])
        kind = rng.choice(["chain", "chain", "files", "branches", "star", "random"])
        yield dict(
            bases=tuple(histories.shape(rng, n, kind)),
            _tags=rng.choice(["plain", "hostile", "hostile", "reverse"]),
            _turn=rng.choice([0, rng.randrange(n)]),
        )
    if block % 16 == 0 or tier == "thorough":
        n = rng.choice([150, 300] if tier == "quick" else [200, 600])
        if block in (16, 80):
            n = 2000
        yield dict(bases=tuple(histories.shape(rng, n, rng.choice(["chain", "files", "branches"]))), _tags="reverse")


def check(case, obs):
    bases = case["bases"]
    n = len(bases)
    tags = [histories.make_tag(None, i, case["_tags"]) for i in range(n)]
    turn = case.get("_turn", 0)
    tags = tags[turn:] + tags[:turn]
    history = tuple((tags[i], b"%d" % (i % 5), base) for i, base in enumerate(bases))
    if not histories.valid(history):
        raise OutOfDomain("history")
    memory, database = sut(MemoryTree), sut(DBTree, histories.DB())
    both = sut(lambda: (Versions(tree=memory), Versions(tree=database)))
    model = histories.Model()

    class Both:
        @staticmethod
        def add(*arguments):
            for versions in both:
                versions.add(*arguments)

    def compare(question, *arguments):
        one = sut(getattr(memory, question), *arguments)
        two = sut(getattr(database, question), *arguments)
        return one, two

    def after(i):
        obs.count("adds")
        everything = n <= 40 or i == n - 1
        for j in range(i + 1) if everything else histories.probes(history, i, False):
            tag = history[j][0]
            one, two = compare("path_to", tag)
            require(tuple(one) == tuple(two), "different paths", tag=tag, memory=one, database=two, versions_added=i + 1)
            obs.count("paths compared")
            one, two = compare("base_version", tag)
            require(one == two, "different bases", tag=tag, memory=one, database=two, versions_added=i + 1)
            one, two = compare("__contains__", tag)
            require(one is True and two is True, "a version isn't contained", tag=tag, memory=one, database=two)
            one, two = compare("get_split", tag)
            require(
                one[0] == two[0] and tuple(one[1]) == tuple(two[1]),
                "different splits",
                tag=tag,
                memory=one,
                database=two,
                versions_added=i + 1,
            )
            for other in ("old_get_split", "new_get_split"):
                # the ways in which the database can find it
                if hasattr(database, other):
                    three = sut(getattr(database, other), tag)
                    require(
                        one[0] == three[0] and tuple(one[1]) == tuple(three[1]),
                        f"different splits found by {other}",
                        tag=tag,
                        memory=one,
                        database=three,
                        versions_added=i + 1,
                    )
                    obs.count("other ways to find the split")
            obs.count("splits compared")
            obs.maximum("path to a split", len(one[1]))
            if len(one[1]) > 2:
                obs.count("deep splits")
                obs.mark_nontrivial()
        for tag in ["absent", *[t for t, _, _ in history[i + 1 : i + 2]]]:
            one, two = compare("__contains__", tag)
            require(not one and not two, "an absent version is contained", tag=tag, memory=one, database=two)
            one, two = compare("path_to", tag)
            require(not one and not two, "an absent version has a path", tag=tag, memory=one, database=two)

    histories.run(history, Both, model, after)
