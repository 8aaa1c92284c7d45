"""C29: work and memory grow with the text and its changes only."""

import random

from mon import work
from mon.measure import explosion, instructions, memory

ID = "C29"
LEVEL = "exploration"
FILES = ("changesets.py", "merge.py", "tokenizers.py", "diff_to_lines.py", "serialize.py", "versions.py", "memory_tree.py", "db_tree.py", "db_collections.py", "markup.py", "merge_tool.py")
NO_SHRINK = True
CASE_CPU_S = 1000
RULE = (
    "A case measures operations on texts of a family at two sizes: machine instructions (valgrind/callgrind, "
    "from a client request around the call) and peak allocated bytes (tracemalloc); non-trivial always. "
    "Violated if the growth exponent between the sizes exceeds the limit."
)
FLOORS = {"instruction ratios": 80, "memory ratios": 80}
ASSUMPTIONS = [
    "the number of changes is fixed, or they are at distances for which the diff's longest blocks lie in the middle",
    "garbage collection is off while measuring",
    "growth exponent limit 1.2 for instructions and 0.15 more for memory (tables double); 1.36 for comparing with a number of changes that grows (n log n at these sizes is 1.28), 1.5 for a branch that grows (paths to sqrt(n))",
]
LIMIT = 1.2
LIMIT_MANY = 1.36
LIMIT_HISTORY = 1.5
COMPARING = ("diff", "merge", "patch", "store", "tool")


def limit(operation, family):
    if family == "one branch":
        return LIMIT_HISTORY
    return LIMIT_MANY if family in work.MANY and operation.split()[0] in COMPARING else LIMIT


def kind(operation, family):
    return operation + (", many changes" if family in work.MANY else "")


def blocks(tier):
    return 8 if tier == "quick" else 64


def cases(tier, block, rng):
    combinations = list(work.COMBINATIONS)
    if tier == "quick":
        # Half of the families for each of the operations, both kinds of them
        families = list(work.FAMILIES)
        combinations = [
            (o, f)
            for o, f in combinations
            if o in work.STORING + work.STREAMS or (work.OPERATIONS.index(o) + families.index(f)) % 2 == 0 or (o, f) == ("merge", "same text added")
        ]
    random.Random("C29 order").shuffle(combinations)
    small, large = (500, 2500) if tier == "quick" else (1000, 8000)
    measures = []
    for i, (operation, family) in enumerate(combinations):
        if i % blocks(tier) == block:
            measures.append((operation, family, rng.choice(work.FORMS), small * work.factor(operation), large * work.factor(operation), rng.randrange(1000)))
    yield dict(measures=measures)


def check(case, obs):
    explosion(case["measures"], obs, work.prepare)
    instructions(case["measures"], obs, work.__file__, limit, fewest=1000, kind=kind)
    memory(case["measures"], obs, work.prepare, lambda o, f: limit(o, f) + 0.15, kind=kind)
    obs.mark_nontrivial()
