"""The variable-length integers of SQLite4, and patches, read independently."""

from __future__ import annotations

LIMITS = [240, 2287, 67823] + [256**k - 1 for k in range(3, 9)]


def encode(value):
    if value <= 240:
        return bytes([value])
    if value <= 2287:
        high, low = divmod(value - 240, 256)
        return bytes([241 + high, low])
    if value <= 67823:
        high, low = divmod(value - 2288, 256)
        return bytes([249, high, low])
    size = (value.bit_length() + 7) // 8
    return bytes([247 + size]) + value.to_bytes(size, "big")


def decode(data, at):
    """(value, next position); raises IndexError at the end of the data."""
    first = data[at]
    if first <= 240:
        return first, at + 1
    if first <= 248:
        return 240 + 256 * (first - 241) + data[at + 1], at + 2
    if first == 249:
        return 2288 + 256 * data[at + 1] + data[at + 2], at + 3
    size = first - 247
    data[at + size]
    return int.from_bytes(data[at + 1 : at + 1 + size], "big"), at + 1 + size


def parse_patch(data):
    """The parts of a serialized patch: bytes and (start, stop), not empty."""
    parts = []
    at = 0
    literal = True
    while at < len(data):
        if literal:
            length, at = decode(data, at)
            if length:
                if at + length > len(data):
                    raise IndexError("literal cut off")
                parts.append(bytes(data[at : at + length]))
                at += length
        else:
            start, at = decode(data, at)
            stop, at = decode(data, at)
            if start != stop:
                parts.append((start, stop))
        literal = not literal
    return parts
