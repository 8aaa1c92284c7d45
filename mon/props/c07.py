"""C07: searching costs linear work and memory."""

import random

from mon import cost
from mon.measure import explosion, instructions, memory

ID = "C07"
LEVEL = "exploration"
FILES = ("suffix_automaton.py", "multiple_strings.py", "wrappers.py")
NO_SHRINK = True
CASE_CPU_S = 1000
RULE = (
    "A case measures operations on an input family at two sizes: machine instructions (valgrind/callgrind, "
    "from a client request around the call) and peak allocated bytes (tracemalloc); non-trivial always. "
    "Violated if the growth exponent between the sizes exceeds the limit."
)
FLOORS = {"instruction ratios": 30, "memory ratios": 30}
ASSUMPTIONS = [
    "alphabets are bounded, and the number of sequences is fixed",
    "garbage collection is off while measuring",
    "growth exponent limit 1.25 for both instructions and memory; n log n stays below it",
]
EXPONENT_LIMIT = 1.25


def blocks(tier):
    return 8 if tier == "quick" else 64


def sizes(tier, operation):
    if operation.startswith("multiple"):
        return (252, 1260) if tier == "quick" else (1008, 8064)
    return (336, 2352) if tier == "quick" else (2016, 16128)


def cases(tier, block, rng):
    combinations = [(o, f) for o in cost.OPERATIONS for f in cost.FAMILIES]
    if tier == "quick":
        # two and six sequences on alternate families
        families = list(cost.FAMILIES)
        combinations = [
            (o, f)
            for o, f in combinations
            if o != ("multiple 2", "multiple 6")[families.index(f) % 2]
        ]
    random.Random("C07 order").shuffle(combinations)
    measures = []
    for i, (operation, family) in enumerate(combinations):
        if i % blocks(tier) != block:
            continue
        form = rng.choice(cost.FORMS)
        small, large = sizes(tier, operation)
        measures.append((operation, family, form, small, large, rng.randrange(1000)))
    yield dict(measures=measures)


def check(case, obs):
    explosion(case["measures"], obs, cost.prepare)
    instructions(case["measures"], obs, cost.__file__, EXPONENT_LIMIT)
    memory(case["measures"], obs, cost.prepare, EXPONENT_LIMIT)
    obs.mark_nontrivial()
