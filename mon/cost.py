"""Measured operations for C07. Also run as a script under callgrind."""

from __future__ import annotations

import random
import sys

if __name__ == "__main__":
    sys.path[:0] = sys.argv[2:4]


def _families():
    from mon import gen

    def rnd(k):
        def make(n, seed):
            rng = random.Random(seed)
            return tuple(rng.randrange(k) for _ in range(n)), tuple(rng.randrange(k) for _ in range(n))

        return make

    def nested(n):
        out, i = [], 1
        while len(out) < n:
            out += [0] * i + [1]
            i += 1
        return tuple(out[:n])

    def zigzag(n):
        # x^i y blocks with growing and shrinking runs
        out, i = [], 1
        while len(out) < n:
            out += [i % 3] * (1 + i % 17) + [3 + (i * i) % 4]
            i += 1
        return tuple(out[:n])

    def edited(n, seed):
        rng = random.Random(seed)
        a = tuple(rng.randrange(4) for _ in range(n))
        b = list(a)
        for i in range(0, n, 20):
            b[i] = rng.randrange(4)
        return a, tuple(b)

    return {
        "one letter": lambda n, s: ((0,) * n, (0,) * n),
        "one letter, one different": lambda n, s: ((0,) * n, (0,) * (n // 2) + (1,) + (0,) * (n // 2 - 1)),
        "halves": lambda n, s: ((0,) * (n // 2) + (1,) * (n // 2), (1,) * (n // 2) + (0,) * (n // 2)),
        "period 2": lambda n, s: ((0, 1) * (n // 2), (1, 0) * (n // 2)),
        "period 3 and 2": lambda n, s: ((0, 1, 0) * (n // 3), (0, 1) * (n // 2)),
        "period 7": lambda n, s: ((0, 1, 2, 0, 2, 1, 1) * (n // 7), (1, 1, 0, 2, 0, 1, 2) * (n // 7)),
        "fibonacci": lambda n, s: (gen.fibonacci(n), gen.fibonacci(n)[::-1]),
        "thue-morse": lambda n, s: (gen.thue_morse(n), gen.thue_morse(n)[::-1]),
        "de bruijn": lambda n, s: ((gen.de_bruijn(2, 13) * 5)[:n], (gen.de_bruijn(4, 6) * 10)[:n]),
        "nested runs": lambda n, s: (nested(n), nested(n)[::-1]),
        "zigzag": lambda n, s: (zigzag(n), zigzag(n)[::-1]),
        "disjoint": lambda n, s: (rnd(4)(n, s)[0], tuple(t + 9 for t in rnd(4)(n, s)[1])),
        "random 2": rnd(2),
        "random 4": rnd(4),
        "random 26": rnd(26),
        "edited": edited,
        "square": lambda n, s: ((rnd(4)(n // 2, s)[0]) * 2, rnd(4)(n // 2, s)[0] * 2),
        "many misses": lambda n, s: ((0,) * n, ((0,) * 20 + (1,)) * (n // 21)),
    }


FAMILIES = _families()
OPERATIONS = ("lcs", "substring", "substring long", "multiple 2", "multiple 3", "multiple 6")
FORMS = ("tuple", "str", "bytes")


def prepare(operation, family, form, n, seed):
    """Returns a function without arguments to measure."""
    import gaspra

    a, b = FAMILIES[family](n, seed)
    if form == "str":
        a, b = ("".join(chr(97 + t) for t in x) for x in (a, b))
    elif form == "bytes":
        a, b = bytes(a), bytes(b)
    if operation == "lcs":
        return lambda: gaspra.find_lcs(a, b)
    if operation == "substring":
        query = a[:1]
        return lambda: list(gaspra.find_substring(a, query))
    if operation == "substring long":
        query = a[n // 4 : n // 2]
        return lambda: list(gaspra.find_substring(a, query))
    k = int(operation.split()[1])
    # Keep the phase of periodic families whatever the size.
    size = 42 * round(2 * len(a) / k / 42)
    starts = [42 * (i * len(a) // (2 * k * 42)) for i in range(k)]
    sequences = [(a, b)[i % 2][start : start + size] for i, start in enumerate(starts)]
    return lambda: gaspra.find_lcs_multiple(*sequences)


def main():
    from mon.measure import run_measures

    return run_measures(prepare, [(o, "random 4", form, 50, 1) for o in OPERATIONS for form in ("tuple", "str")])


if __name__ == "__main__":
    sys.exit(main())
