"""C24: serialized patches and integers are read back unchanged."""

from mon import varint
from mon.core import OutOfDomain, require, short, sut

from gaspra.serialize import (
    deserialize_changeset,
    deserialize_int,
    serialize_changeset,
    serialize_int,
    vdeserialize_int,
    vserialize_int,
)

ID = "C24"
LEVEL = "exploration"
FILES = ("serialize.py",)
RULE = (
    "A case is a range of integers (all small ones, all around the limits of the encoding, random ones of all "
    "sizes) or a patch, which is also cut off at every byte; non-trivial are patches with two or more parts."
)
FLOORS = {
    "integers": 80000,
    "integers over 2**32": 5000,
    "refused": 500,
    "integers of fixed size": 70000,
    "cut integers refused": 200000,
    "patches": 5000,
    "cut patches": 100000,
    "cut patches that raise": 30000,
    "positions over 67823": 500,
    "literals over 2287": 100,
}
EDGES = sorted(
    {
        max(0, limit + d)
        for limit in [0, 127, 128, 240, 241, 255, 256, 495, 496, 497, 2287, 67823, 65535]
        + [2**k for k in range(8, 65, 8)]
        + [2**k for k in range(1, 64)]
        for d in (-2, -1, 0, 1, 2)
        if limit + d < 2**64
    }
)

LONG = [2287, 2288, 4096, 32767, 32768, 65535, 65536, 67823, 67824, 100000, 2**20 + 9]


def blocks(tier):
    return 160 if tier == "quick" else 1600


def number(rng):
    r = rng.random()
    if r < 0.1:
        return 0
    if r < 0.4:
        return rng.randint(0, 300)
    if r < 0.6:
        return rng.choice(EDGES)
    if r < 0.8:
        return rng.randint(0, 70000)
    return rng.getrandbits(rng.randint(1, 64))


def patch(rng):
    parts = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        if rng.random() < 0.5:
            n = rng.choice([0, 1, 2, 5, 20, 239, 240, 241, 300] + [2287, 2288] * (rng.random() < 0.1))
            style = rng.randrange(3)
            if style == 0:
                parts.append(bytes(rng.randrange(256) for _ in range(n)))
            else:
                parts.append(bytes([rng.choice([0, 1, 240, 241, 249, 250, 255])]) * n)
        else:
            start = number(rng)
            stop = rng.choice([start, start + 1, start + rng.randint(0, 300), max(start, number(rng))])
            parts.append((start, min(stop, 2**64 - 1)))
    return tuple(parts)


def cases(tier, block, rng):
    total = blocks(tier)
    limit = 70000 if tier == "quick" else 1_100_000
    step = limit // total + 1
    yield dict(start=block * step, count=step)
    if block == 0:
        for value in EDGES:
            yield dict(start=value, count=1)
        for value in [2**64, 2**64 + 1, 2**65, 2**72 - 1, 2**72, 2**100, 256**9]:
            yield dict(start=value, count=1)
    for _ in range(60):
        yield dict(start=rng.getrandbits(rng.randint(17, 64)), count=3)
    for _ in range(5):
        yield dict(start=2**64 + rng.getrandbits(rng.randint(1, 80)), count=1)
    for _ in range(60):
        yield dict(parts=patch(rng))
    for _ in range(3):
        # long literals with anything next to them
        yield dict(parts=patch(rng)[:3] + (bytes([rng.randrange(256)]) * rng.choice(LONG),) + patch(rng)[:3])
    if block % 16 == 0:
        big = bytes(rng.randrange(256) for _ in range(1000)) * rng.choice([3, 68, 70])
        many = sum((patch(rng) for _ in range(rng.choice([100, 400]))), ())
        yield dict(parts=many)
    if block == 16:
        yield dict(parts=((3, 4), b"long literal" * (2**24 // 11), (5, 2**25), b"x"))
        yield dict(parts=(big, (5, 70000), b"x", (67823, 67824), (67824, 67900)))


def check(case, obs):
    if "parts" in case:
        check_patch(case["parts"], obs)
        return
    for value in range(case["start"], case["start"] + case["count"]):
        check_integer(value, obs)


def check_integer(value, obs):
    if value > 2**64 - 1:
        obs.count("refused")
        for function in (vserialize_int, serialize_int):
            try:
                got = function(value)
            except Exception:
                continue
            require(False, "an integer that's too large is serialized", value=value, got=got)
        return
    obs.count("integers")
    if value > 2**32:
        obs.count("integers over 2**32")
    if value < 2**32:
        fixed_size(value, obs)
    data = sut(vserialize_int, value)
    require(data == varint.encode(value), "not the encoding of SQLite", value=value, got=data, want=varint.encode(value))
    for rest in (b"", b"\x00", b"\xff\xf9tail"):
        got = sut(vdeserialize_int, data + rest)
        require(
            got[0] == value and bytes(got[1]) == rest,
            "an integer isn't read back, or not the rest of the stream",
            value=value,
            got=got,
            rest=rest,
        )
    for cut in range(len(data)):
        refused(vdeserialize_int, data[:cut], obs)


def refused(function, data, obs):
    try:
        got = function(data)
    except Exception:
        obs.count("cut integers refused")
        return
    require(False, "a cut off integer is read as another one", data=data, got=got)


def fixed_size(value, obs):
    obs.count("integers of fixed size")
    data = sut(serialize_int, value)
    require(data == value.to_bytes(4, "big"), "not four bytes, the highest one first", value=value, got=data)
    for rest in (b"", b"\xff\x00tail"):
        got = sut(deserialize_int, data + rest)
        require(
            got[0] == value and bytes(got[1]) == rest,
            "an integer of fixed size isn't read back, or not the rest of the stream",
            value=value,
            got=got,
            rest=rest,
        )
    for cut in range(4):
        refused(deserialize_int, data[:cut], obs)


def plain(part):
    if isinstance(part, slice):
        require(part.step is None, "a range with a step", part=part)
        return (part.start, part.stop)
    require(type(part) is bytes, "a part of another type", part=part)
    return part


def empty(part):
    return part[0] == part[1] if isinstance(part, tuple) else not part


def check_patch(parts, obs):
    for part in parts:
        if isinstance(part, tuple) and not (len(part) == 2 and 0 <= part[0] <= part[1] < 2**64):
            raise OutOfDomain("range")
        if not isinstance(part, (tuple, bytes)):
            raise OutOfDomain("part")
    given = tuple(slice(*p) if isinstance(p, tuple) else p for p in parts)
    want = [p for p in parts if not empty(p)]
    obs.count("patches")
    for p in want:
        if isinstance(p, tuple) and p[1] > 67823:
            obs.count("positions over 67823")
        elif isinstance(p, bytes) and len(p) > 2287:
            obs.count("literals over 2287")
    data = sut(serialize_changeset, given)
    require(type(data) is bytes, "a serialized patch isn't bytes", got=data)
    got = sut(lambda: [plain(p) for p in deserialize_changeset(data)])
    require([p for p in got if not empty(p)] == want, "a patch isn't read back", got=got, want=want)
    try:
        parsed = varint.parse_patch(data)
    except IndexError:
        parsed = None
    require(parsed == want, "the serialized form can't be read independently", data=data, got=parsed, want=want)
    if len(want) > 1:
        obs.mark_nontrivial()
    n = len(data)
    cuts = range(n) if n <= 400 else sorted({*range(0, 200), *range(n - 200, n), *range(0, n, n // 50)})
    for cut in cuts:
        obs.count("cut patches")
        got = []
        try:
            for p in deserialize_changeset(data[:cut]):
                got.append(plain(p))
        except Exception:
            obs.count("cut patches that raise")
        got = [p for p in got if not empty(p)]
        require(got == want[: len(got)], "a cut off patch is read as another patch", data=data, cut=cut, got=got, want=want)
