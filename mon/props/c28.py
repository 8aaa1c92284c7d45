"""C28: only which tokens are equal matters."""

from mon import gen, histories
from mon.core import OutOfDomain, require, sut

import gaspra
from gaspra.changesets import find_changeset, strip_forward, strip_reverse
from gaspra.diff_to_lines import consolidated_line_diff, to_line_diff
from gaspra.serialize import deserialize_changeset
from gaspra.suffix_automaton import build, find_substring as first_occurrence
from gaspra.tokenizers import diff, line_encode_strings, merged
from gaspra.types import Change, CommonSlice
from gaspra.versions import Versions

ID = "C28"
LEVEL = "exploration"
FILES = ("changesets.py", "merge.py", "suffix_automaton.py", "multiple_strings.py", "diff_to_lines.py", "tokenizers.py")
RULE = (
    "A case is one set of inputs spelled twice, with plain numbers and with other tokens for them (characters, "
    "bytes, other numbers, words, objects); the results of all functions on both are compared after the tokens "
    "have been translated back. Or it is a set of documents as text and as bytes. Non-trivial when inputs differ."
)
FLOORS = {
    "diffs compared": 10000,
    "merges compared": 4000,
    "common substrings compared": 10000,
    "searches compared": 5000,
    "line views compared": 1000,
    "documents as text and as bytes": 2000,
    "histories compared": 200,
    "merges with conflicts": 500,
}
KINDS = ("chars", "bytes", "ints", "mixed", "tok", "words", "pairs")
LOOKALIKES = "aA\u00e4\u00c4\u0391\u0430\uff211\u0661\u00b9Il|O0 \u00a0\u2009\t\n\r\u2028\u0085\x00\x1c_-$.\u0301\u200d\ufeff[]\\<>=\U0001f600"


def blocks(tier):
    return 160 if tier == "quick" else 1600


def table_for(rng, kind, size):
    """What the numbers below size are replaced by, as plain data."""
    if kind == "chars":
        pool = set(rng.choice([LOOKALIKES, "".join(gen.PALETTES), "ab"]))
        codes = list({ord(c) for c in pool})
        while len(codes) < size:
            code = rng.choice([rng.randrange(0x110000), rng.randrange(0x300)])
            if code not in codes:
                codes.append(code)
        rng.shuffle(codes)
        return tuple(codes[:size]) if rng.random() < 0.5 else tuple(sorted(codes[:size], reverse=True))
    if kind == "bytes":
        return tuple(rng.sample(range(256), size)) if size <= 256 else None
    if kind == "ints":
        pool = [0, -1, -2, 1, 2**61 - 1, 2**61, 2**64, 10**30, -(2**61), 255, 256]
        while len(pool) < size:
            pool.append(rng.choice([300 + len(pool), (2**61 - 1) * (len(pool) + 2), -300 - len(pool)]))
        rng.shuffle(pool)
        return tuple(pool[:size])
    order = list(range(max(size, len(gen.MIXED) if kind == "mixed" else 0)))
    if rng.random() < 0.7:
        rng.shuffle(order)
    return tuple(order[:size])


def spell(kind, table):
    """The tokens for the numbers, and a function that makes a sequence of them."""
    if kind == "chars":
        return [chr(c) for c in table], "".join
    if kind == "bytes":
        return list(table), bytes
    if kind == "ints":
        return list(table), tuple
    if kind == "mixed":
        return [gen.MIXED[i] if i < len(gen.MIXED) else i for i in table], tuple
    if kind == "tok":
        return [gen.Tok(i) for i in table], list
    if kind == "words":
        return [gen.WORDS[i % len(gen.WORDS)] + ("" if i < len(gen.WORDS) else str(i)) for i in table], tuple
    return [(i % 2, i // 2) for i in table], tuple


def cases(tier, block, rng):
    kind = KINDS[block % len(KINDS)]
    renamed = lambda sequences, **more: renaming(rng, kind, sequences, **more)
    if block < 14:
        words = list(gen.all_words(2, 4))
        for i, a in enumerate(words):
            for b in words[block // 7 :: 2]:
                yield renamed((a, b, words[(i * 7 + 3) % len(words)]))
    for _ in range(70):
        if rng.random() < 0.5:
            yield renamed(gen.triple(rng, rng.choice([6, 14, 24])))
        else:
            a, b = gen.pair(rng, rng.choice([8, 20, 40]))
            yield renamed((a, b, gen.edit(rng, rng.choice([a, b]), 2)))
    n = rng.choice([200, 500] if tier == "quick" else [200, 500, 3000])
    base = gen.structured(rng, n)
    yield renamed((base, gen.edit(rng, base, 8), gen.edit(rng, base, 8)))
    if (places := gen.heavy_places(rng, block, tier)) and kind != "bytes":
        yield renamed(gen.heavy(rng, places, 2))
    for _ in range(12):
        # Newlines and spaces stay what they are.
        a, b = gen.pair(rng, rng.choice([8, 30, 60]))
        letters = [chr(c) for c in range(33, 0x3000) if not chr(c).isspace()] + ["\U0001f600", "\ud800", "\uffff"]
        size = max(a + b, default=0) + 1
        one, two = ("\n " + "".join(rng.sample(letters, size)) for _ in range(2))
        yield dict(_what="lines", texts=("\n " + "".join(chr(0x5000 + i) for i in range(size)), one, two), sequences=(a, b))
    for _ in range(20):
        documents = [gen.document(rng, rng.randint(0, 6), rng.choice([0, 0.5]))]
        documents += [gen.edit_document(rng, documents[0], rng.randint(0, 4), 0.3) for _ in range(2)]
        # Without a tokenizer the tokens are characters or bytes, the same only for ASCII.
        names = ["", "char", "line", "symbol"] if all(d.isascii() for d in documents) else ["char", "line", "symbol"]
        try:
            "".join(documents).encode("utf-8")
        except UnicodeEncodeError:
            continue
        yield dict(_what="documents", documents=tuple(documents), _tok=rng.choice(names))
    for _ in range(2):
        n = rng.choice([4, 10])
        bases = tuple(histories.shape(rng, n, rng.choice(["chain", "chain", "branches", "files"])))
        versions = [gen.structured(rng, rng.randint(0, 20))]
        while len(versions) < n:
            versions.append(gen.edit(rng, rng.choice(versions), rng.choice([0, 1, 3])))
        size = max(map(lambda v: max(v, default=0), versions)) + 1
        yield dict(
            _what="versions", bases=bases, versions=tuple(versions), tables=tuple(bytes(rng.sample(range(256), size)) for _ in range(2))
        )


def renaming(rng, kind, sequences, **more):
    numbers = {t: None for s in sequences for t in s}
    size = max(numbers, default=0) + 1
    if kind == "bytes" and size > 256:
        kind = "ints"
    return dict(_kind=kind, table=table_for(rng, kind, size), sequences=tuple(map(tuple, sequences)), **more)


def check(case, obs):
    what = case.get("_what")
    if what == "lines":
        check_lines(case, obs)
    elif what == "documents":
        check_documents(case, obs)
    elif what == "versions":
        check_versions(case, obs)
    else:
        check_tokens(case, obs)


def translate(item, back):
    """A result with its tokens replaced."""
    if isinstance(item, Change):
        return ("change", translate(item.a, back), translate(item.b, back))
    if isinstance(item, CommonSlice):
        return ("common", *item)
    if isinstance(item, slice):
        return item
    return [back[t] for t in item]


def check_tokens(case, obs):
    sequences, table = case["sequences"], case["table"]
    if len(sequences) != 3 or len(set(table)) < len(table) or any(t >= len(table) or t < 0 for s in sequences for t in s):
        raise OutOfDomain("table")
    tokens, make = spell(case["_kind"], table)
    back = {token: i for i, token in enumerate(tokens)}
    if len(back) < len(tokens):
        raise OutOfDomain("equal tokens")
    if case["_kind"] == "tok":
        tokens, make = list(table), lambda numbers: [gen.Tok(t) for t in numbers]
        back = {gen.Tok(t): i for i, t in enumerate(table)}
    same = {i: i for i in range(len(table))}
    others = tuple(make([tokens[t] for t in s]) for s in sequences)

    def compare(kind, function, one, two):
        got = sut(lambda: [translate(item, back) for item in function(*two)])
        want = sut(lambda: [translate(item, same) for item in function(*one)])
        require(got == want, f"{kind} depend on what the tokens are", numbers=one, others=two, with_numbers=want, with_others=got)
        obs.count(f"{kind} compared")
        return want

    def answers(kind, function, one, two):
        want, got = sut(function, *one), sut(function, *two)
        require(got == want, f"{kind} depend on what the tokens are", numbers=one, others=two, with_numbers=want, with_others=got)
        obs.count(f"{kind} compared")

    pair, others_pair = sequences[:2], others[:2]
    compare("diffs", gaspra.diff_token_sequences, pair, others_pair)
    compare("changes", lambda a, b: find_changeset(a, b).as_change_stream(), pair, others_pair)
    compare("patches", lambda a, b: strip_forward(find_changeset(a, b).as_change_stream()), pair, others_pair)
    compare("patches", lambda a, b: strip_reverse(find_changeset(a, b).as_change_stream()), pair, others_pair)
    result = compare("merges", gaspra.merge_token_sequence, sequences, others)
    if any(isinstance(item, tuple) for item in result):
        obs.count("merges with conflicts")
    answers("common substrings", gaspra.find_lcs, pair, others_pair)
    answers("common substrings", gaspra.find_lcs_multiple, sequences, others)
    for k in (0, 1, 2):
        query = [(s[0], s[1][:k]) for s in (sequences, others)]
        answers("searches", lambda a, q: list(gaspra.find_substring(a, q)), *query)
        answers("searches", lambda a, q: first_occurrence(build(a), q), *query)
    if len(set(sequences)) > 1:
        obs.mark_nontrivial()


def check_lines(case, obs):
    a, b = case["sequences"]
    views = []
    for alphabet in case["texts"]:
        if (alphabet[0], alphabet[1]) != ("\n", " ") or len(set(alphabet)) < len(alphabet):
            raise OutOfDomain("alphabet")
        # 0 is a newline, 1 a space, 2 and up are letters
        table = dict(enumerate(alphabet))
        if any(t not in table for t in a + b):
            raise OutOfDomain("alphabet")
        back = {c: i for i, c in table.items()}
        if any(c.isspace() for c in alphabet[2:]):
            raise OutOfDomain("another space")

        def read(item):
            if isinstance(item, str):
                return [back[c] for c in item]
            return ("change" if isinstance(item, Change) else "parts", *map(read, item))

        one, two = ("".join(table[t] for t in s) for s in (a, b))
        changes = list(gaspra.diff_token_sequences(one, two))
        views.append([sut(lambda: [read(i) for i in f(iter(changes))]) for f in (to_line_diff, consolidated_line_diff)])
        obs.count("line views compared")
        coded = sut(line_encode_strings, one, two)
        views[-1].append((list(map(read, coded[0])), coded[1:]))
    for view in views[1:]:
        require(view == views[0], "the view of lines depends on what the characters are", texts=case["texts"], want=views[0], got=view)
    if a != b:
        obs.mark_nontrivial()


def check_documents(case, obs):
    documents, name = case["documents"], case["_tok"]
    try:
        data = [d.encode("utf-8") for d in documents]
    except UnicodeEncodeError:
        raise OutOfDomain("can't be encoded") from None
    if not name and not all(d.isascii() for d in documents):
        raise OutOfDomain("a byte isn't a character")
    tokenizer = lambda: histories.TOKENIZERS[name]() if name else None

    def encoded(item):
        return Change(item.a.encode("utf-8"), item.b.encode("utf-8")) if isinstance(item, Change) else item.encode("utf-8")

    for function, count in ((diff, 2), (merged, 3)):
        want = sut(lambda: [encoded(i) for i in function(*documents[:count], tokenizer())])
        got = sut(lambda: list(function(*data[:count], tokenizer())))
        require(got == want, "the results for text and for bytes differ", documents=documents, tokenizer=name, text=want, data=got)
    obs.count("documents as text and as bytes")
    if len(set(documents)) > 1:
        obs.mark_nontrivial()


def check_versions(case, obs):
    patches, information = [], []
    bases = case["bases"]
    for table in case["tables"]:
        contents = [bytes(table[t] for t in v) for v in case["versions"]]
        if len(set(table)) < len(table) or len(contents) != len(bases):
            raise OutOfDomain("table")
        versions = Versions()
        for i, base in enumerate(bases):
            sut(versions.add, f"v{i}", contents[i], None if base is None else f"v{base}")
        back = {token: i for i, token in enumerate(table)}
        patches.append(
            {tag: [translate(p, back) for p in deserialize_changeset(patch)] for tag, patch in dict(versions.diffs).items()}
        )
        information.append([versions.version_info(f"v{i}") for i in range(len(bases))])
        information[-1] += [versions.tree.path_to(f"v{i}") for i in range(len(bases))]
    require(patches[0] == patches[1], "the stored patches depend on what the bytes are", want=patches[0], got=patches[1])
    require(information[0] == information[1], "the tree depends on what the bytes are", want=information[0], got=information[1])
    obs.count("histories compared")
    obs.mark_nontrivial()
