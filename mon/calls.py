"""Calls of the library by name, with results as plain literals (for C26)."""

from __future__ import annotations

import copy
import os
import pickle
import tempfile

from mon import histories
from mon.core import VERIF  # noqa: F401
from mon.tools import environment, run_tool

import gaspra
from gaspra import suffix_automaton
from gaspra.changesets import apply_forward, apply_reverse, find_changeset, strip_forward, strip_reverse
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.serialize import deserialize_changeset, serialize_changeset
from gaspra.tokenizers import decode_and_line_diff_changes, diff, line_encode_strings, merged
from gaspra.versions import Versions


def plain(value):
    """A literal that's equal exactly for equal results."""
    if isinstance(value, (str, bytes, int, float, type(None), bool)):
        return value
    if isinstance(value, slice):
        return ("slice", value.start, value.stop, value.step)
    if isinstance(value, tuple) and hasattr(value, "_fields"):
        return (type(value).__name__, *(plain(v) for v in value))
    if isinstance(value, tuple):
        return tuple(plain(v) for v in value)
    if isinstance(value, list):
        return ["list", *(plain(v) for v in value)]
    if isinstance(value, (set, frozenset)):
        return ("set", *sorted((plain(v) for v in value), key=repr))
    if isinstance(value, dict):
        return ("dict", *sorted(((plain(k), plain(v)) for k, v in value.items()), key=repr))
    return repr(type(value))


def tool(name, options, *files, output=False, color=False):
    directory = os.environ["VERIF_SCRATCH"]
    if os.environ.get("VERIF_NEW_NAMES"):
        # New names for each call, and nothing left of them
        with tempfile.TemporaryDirectory(dir=directory) as directory:
            return tool_in(directory, name, options, files, output, color)
    return tool_in(directory, name, options, files, output, color)


def tool_in(directory, name, options, files, output, color):
    paths = []
    for i, data in enumerate(files):
        path = os.path.join(directory, f"file{i}")
        if data is None:
            path = os.path.join(directory, "missing")
            paths.append(path)
            continue
        with open(path, "wb") as file:
            file.write(data if isinstance(data, bytes) else data.encode("utf-8"))
        paths.append(path)
    arguments = list(options)
    out = os.path.join(directory, "missing", "out") if output == "missing" else os.path.join(directory, "out")
    if output:
        arguments += ["-o", out]
    with environment(
        COLUMNS="80", LINES="25", NO_COLOR=None, FORCE_COLOR="1" if color else None, TERM="xterm-256color", COLORTERM=None
    ):
        printed = run_tool(name, arguments + paths)
    if output:
        with open(out, "rb") as file:
            return printed, file.read()
    return printed


def automaton(cache, text, question, other):
    """A question to an automaton, which may have been asked others before."""
    key = (type(text), text)
    if key not in cache:
        cache[key] = suffix_automaton.build(text)
    root = cache[key]
    if question == "lcs":
        return suffix_automaton.find_lcs(root, other)
    if question == "all":
        return list(suffix_automaton.find_substring_all(root, other))
    return suffix_automaton.find_substring(root, other)


def comparison(cache, a, b, question):
    """A use of a comparison that's kept, and may have been used before."""
    key = "comparison", ascii((a, b))
    if key not in cache:
        cache[key] = find_changeset(a, b)
    changeset = cache[key]
    if question == "diff":
        return changeset.as_diff_stream(a)
    if question == "changes":
        return changeset.as_change_stream()
    if question == "forward":
        return apply_forward(tuple(changeset.as_change_stream()), a)
    return apply_reverse(tuple(changeset.as_change_stream()), b)


def stored(cache, history, tokenizer, which, question):
    """A question to a store which other versions may have been read from."""
    key = "stored", ascii((history, tokenizer))
    if key not in cache:
        v = Versions(tokenizer_factory=histories.TOKENIZERS[tokenizer])
        for tag, content, base in history:
            v.add(tag, content, history[base][0] if base is not None else None)
        cache[key] = v
    v = cache[key]
    tag = history[which % len(history)][0]
    if question == "path":
        return list(v.tree.path_to(tag))
    if question == "split":
        return list(v.tree.get_split(tag))
    if question == "info":
        return repr(v.version_info(tag))
    return v.get(tag)


def versions(history, tokenizer):
    v = Versions(tokenizer_factory=histories.TOKENIZERS[tokenizer])
    for tag, content, base in history:
        v.add(tag, content, history[base][0] if base is not None else None)
    return [
        (tag, v.get(tag), v.tree.path_to(tag), v.version_info(tag).token_count, v.version_info(tag).change_count)
        for tag, _, _ in history
    ]


def default_versions(history):
    v = Versions()
    before = [tag for tag, _, _ in history if tag in v]
    for tag, content, base in history:
        v.add(tag, content, history[base][0] if base is not None else None)
    return before, [(tag, v.get(tag), v.tree.path_to(tag)) for tag, _, _ in history]


def tokenize(name, documents):
    tokenizer = histories.TOKENIZERS[name]()
    return [tokenizer.encode(d) for d in documents]


def with_tokenizer(name):
    return histories.TOKENIZERS[name]() if name else None


# Each makes an iterator or a value.
CALLS = dict(
    diff_token_sequences=lambda cache, a, b: gaspra.diff_token_sequences(a, b),
    merge_token_sequence=lambda cache, p, a, b: gaspra.merge_token_sequence(p, a, b),
    changes=lambda cache, a, b: find_changeset(a, b).as_change_stream(),
    forward=lambda cache, a, b: strip_forward(find_changeset(a, b).as_change_stream()),
    reverse=lambda cache, a, b: strip_reverse(find_changeset(a, b).as_change_stream()),
    round_trip=lambda cache, a, b: (
        apply_forward(tuple(find_changeset(a, b).as_change_stream()), a),
        apply_reverse(tuple(find_changeset(a, b).as_change_stream()), b),
    ),
    find_lcs=lambda cache, a, b: gaspra.find_lcs(a, b),
    find_substring=lambda cache, a, b: gaspra.find_substring(a, b),
    find_lcs_multiple=lambda cache, *s: gaspra.find_lcs_multiple(*s),
    automaton=automaton,
    diff=lambda cache, a, b, name="": diff(a, b, with_tokenizer(name)) if name else diff(a, b),
    merged=lambda cache, p, a, b, name="": merged(p, a, b, with_tokenizer(name)) if name else merged(p, a, b),
    to_line_diff=lambda cache, a, b: to_line_diff(diff(a, b)),
    consolidated_line_diff=lambda cache, a, b: consolidated_line_diff(diff(a, b)),
    decode_and_line_diff=lambda cache, a, b: (
        lambda t: decode_and_line_diff_changes(gaspra.diff_token_sequences(t.encode(a), t.encode(b)), t)
    )(with_tokenizer("symbol")),
    line_encode_strings=lambda cache, *s: line_encode_strings(*s),
    tokenize=lambda cache, name, documents: tokenize(name, documents),
    serialize=lambda cache, parts: serialize_changeset([slice(*p) if isinstance(p, tuple) else p for p in parts]),
    deserialize=lambda cache, data: deserialize_changeset(data),
    comparison=comparison,
    stored=stored,
    versions=lambda cache, history, name: versions(history, name),
    default_versions=lambda cache, history: default_versions(history),
    gaspra_diff=lambda cache, options, a, b, output, color: tool("gaspra-diff", options, a, b, output=output, color=color),
    gaspra_merge=lambda cache, options, p, a, b, output, color: tool(
        "gaspra-merge", options, p, a, b, output=output, color=color
    ),
)


def spoil(value, arguments):
    """What a caller may do with a result of its own: nobody else should notice.

    What's (also) one of the arguments isn't touched."""
    if any(value is argument for argument in arguments):
        return
    if isinstance(value, list):
        for item in value:
            spoil(item, arguments)
        value[:] = [*value[1:], "spoiled"]
    elif isinstance(value, (dict, set)):
        value.clear()


def start(name, arguments, cache):
    """An iterator over (or a list of) the plain result; errors included."""
    try:
        result = CALLS[name](cache, *arguments)
        if hasattr(result, "__next__"):
            for item in result:
                yield plain(item)
            return
        if type(result).__name__ in ("map", "filter", "zip"):
            result = list(result)
        literal = plain(result)
        spoil(result, arguments)
        yield literal
    except Exception as error:
        yield ("raises", type(error).__name__, str(error)[:200])


def result(name, arguments, cache=None):
    """The result of one call, and whether it changed its arguments."""
    given = copy.deepcopy(arguments)
    out = list(start(name, arguments, {} if cache is None else cache))
    return out, arguments == given


def fleeting(name, pickled):
    """The result of a call whose arguments exist during the call only."""
    return list(start(name, pickle.loads(pickled), {}))


def interleaved(calls, cache):
    """Results of calls whose iterators are consumed in turn."""
    iterators = [start(name, arguments, cache) for name, arguments in calls]
    out = [[] for _ in calls]
    active = list(range(len(calls)))
    while active:
        for i in list(active):
            try:
                out[i].append(next(iterators[i]))
            except StopIteration:
                active.remove(i)
    return out
