"""Reference computations, independent of the code under test."""

from __future__ import annotations


def concat(items, empty):
    """Join pieces in the type of `empty`."""
    if isinstance(empty, str):
        return "".join(items)
    if isinstance(empty, bytes):
        return b"".join(items)
    out = []
    for item in items:
        out.extend(item)
    return type(empty)(out)


def same(x, y):
    """Equal content, and equal type."""
    return type(x) is type(y) and x == y


def windows(sequence, length):
    for i in range(len(sequence) - length + 1):
        yield sequence[i : i + length]


BASE = 1_000_003
MOD = (1 << 61) - 1


def _ids(*sequences):
    table = {}
    return [[table.setdefault(t, len(table)) + 1 for t in s] for s in sequences]


def rolling(ids, length):
    """Hashes of all windows of the length."""
    n = len(ids)
    if length > n:
        return
    power = pow(BASE, length - 1, MOD)
    h = 0
    for i in range(length):
        h = (h * BASE + ids[i]) % MOD
    yield 0, h
    for i in range(length, n):
        h = ((h - ids[i - length] * power) * BASE + ids[i]) % MOD
        yield i - length + 1, h


def has_common(a, b, length):
    """Do a and b have a common block of the length?"""
    if length == 0:
        return True
    if length > min(len(a), len(b)):
        return False
    if length <= 40:
        if isinstance(a, list):
            a, b = tuple(a), tuple(b)
        if len(a) > len(b):
            a, b = b, a
        seen = set(windows(a, length))
        return any(w in seen for w in windows(b, length))
    x, y = _ids(a, b)
    seen = {}
    for i, h in rolling(x, length):
        seen.setdefault(h, i)
    for j, h in rolling(y, length):
        i = seen.get(h)
        if i is not None and x[i : i + length] == y[j : j + length]:
            return True
    return False


def lcs_length(a, b):
    low, high = 0, min(len(a), len(b))
    # gallop first: answers are usually short
    step = 1
    while low + step <= high and has_common(a, b, low + step):
        low += step
        step *= 2
    high = min(high, low + step)
    while low < high:
        middle = (low + high + 1) // 2
        if has_common(a, b, middle):
            low = middle
        else:
            high = middle - 1
    return low


def first_index(sequence, block):
    """First position of the block in the sequence, or None."""
    if isinstance(sequence, (str, bytes)):
        i = sequence.find(block)
        return None if i < 0 else i
    n = len(block)
    if n == 0:
        return 0
    first = block[0]
    if n > 40:
        s, b = _ids(sequence, block)
        h0 = 0
        for x in b:
            h0 = (h0 * BASE + x) % MOD
        for i, h in rolling(s, n):
            if h == h0 and s[i : i + n] == b:
                return i
        return None
    for i in range(len(sequence) - n + 1):
        if sequence[i] == first and sequence[i : i + n] == block:
            return i
    return None


def all_indexes(sequence, block):
    n = len(block)
    if n == 0:
        return list(range(len(sequence) + 1))
    if isinstance(sequence, (str, bytes)):
        out = []
        i = sequence.find(block)
        while i >= 0:
            out.append(i)
            i = sequence.find(block, i + 1)
        return out
    return [i for i in range(len(sequence) - n + 1) if sequence[i] == block[0] and sequence[i : i + n] == block]


def has_common_all(sequences, length):
    if length == 0:
        return True
    if any(len(s) < length for s in sequences):
        return False
    ids = _ids(*sequences)
    common = None
    for x in ids:
        if length <= 40:
            current = {tuple(w) for w in windows(x, length)}
        else:
            current = {h for _, h in rolling(x, length)}
        common = current if common is None else common & current
        if not common:
            return False
    return True
