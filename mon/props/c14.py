"""C14: tokenizers are lossless and consistent."""

import re

from mon import gen
from mon.core import OutOfDomain, require, sut

from gaspra.tokenizers import (
    CharTokenizer,
    LineTokenizer,
    NullTokenizer,
    SymbolTokenizer,
    diff,
    line_encode_strings,
    merged,
)
from gaspra.types import Change

ID = "C14"
LEVEL = "exploration"
FILES = ("tokenizers.py",)
RULE = (
    "A case is a list of documents given to one tokenizer object (or to line_encode_strings); non-trivial when "
    "at least two different documents of two or more tokens are encoded."
)
FLOORS = {
    "documents": 20000,
    "runs encoded again": 20000,
    "distinct pairs": 10000,
    "equal pairs": 1000,
    "word boundaries": 10000,
    "line_encode_strings": 500,
    "other types refused": 1200,
    "pieces transformed": 800,
}

TOKENIZERS = dict(null=NullTokenizer, char=CharTokenizer, line=LineTokenizer, symbol=SymbolTokenizer)
CODES = (
    list(range(0, 0x250))
    + [0x2028, 0x2029, 0x85, 0xA0, 0x200B, 0x200D, 0x202E, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0xFDD0]
    + [0x300, 0x301, 0x483, 0x660, 0x966, 0x0B, 0x0C, 0x1C, 0x1D, 0x1E, 0x1F]
    + [0x3042, 0x4E00, 0xAC00, 0xD7FF, 0xE000, 0x10000, 0x1F600, 0x1F1E6, 0x1D7CE, 0xE0100, 0x10FFFF]
)
WORD = re.compile(r"\w")


def blocks(tier):
    return 160 if tier == "quick" else 2400


def text(rng):
    if rng.random() < 0.03:
        # Long runs: words, white space, lines.
        n = rng.choice([40, 65, 130, 260, 1030, 2100])
        run = lambda: rng.choice(["x", "é", "0", "_", "$", "-", "日", " ", "\t", "=", "\n", "ab ", "a1-", "Ab"])
        return "".join(run() * rng.choice([1, 2, n]) for _ in range(rng.randint(1, 3)))
    choice = rng.randrange(8)
    if choice == 0:
        return "".join(chr(rng.choice(CODES)) for _ in range(rng.randint(0, 30)))
    if choice == 1:
        return "".join(chr(rng.choice(CODES[:128])) for _ in range(rng.randint(0, 30)))
    if choice == 2:
        return "".join(rng.choice("a1_$- \n\r.é") for _ in range(rng.randint(0, 25)))
    if choice == 3:
        return "\n" * rng.randint(0, 4)
    if choice == 4:
        return "".join(rng.choice(["a", "b", "\n", "\n\n", "a\n", "", "\r\n"]) for _ in range(rng.randint(0, 8)))
    if choice == 5:
        return rng.choice(["", "\n", "a", "a\n", "a\nb", "\na", " ", "-", "0"])
    return gen.document(
        rng, rng.randint(0, 12), rng.choice([0, 0.3]), rng.choice(["\n", "\n", "\r\n", "\r", "\u2028"])
    )


def cases(tier, block, rng):
    name = list(TOKENIZERS)[block % 4]
    for _ in range(60):
        as_bytes = rng.random() < 0.5
        docs = [text(rng)]
        for _ in range(rng.randint(0, 6)):
            new = rng.choice(
                [
                    lambda: text(rng),
                    lambda: gen.edit_document(rng, rng.choice(docs), rng.randint(0, 2)),
                    lambda: rng.choice(docs),
                    lambda: rng.choice(docs) + rng.choice(docs),
                    lambda: rng.choice(docs) + "\n",
                    lambda: rng.choice(docs).rstrip("\n"),
                ]
            )()
            docs.append(new)
        if as_bytes:
            docs = [d.encode("utf-8") for d in docs]
            if name in ("null", "line"):
                raw = bytes(rng.choice([10, 13, 0, 97, 255, 195, 169]) for _ in range(rng.randint(0, 20)))
                docs.append(raw)
                docs.append(bytes(rng.randrange(256) for _ in range(rng.randint(0, 40))))
        elif rng.random() < 0.2:
            # what comes from open(errors="surrogateescape") and os.fsdecode()
            docs = [d + chr(rng.choice([0xD800, 0xDBFF, 0xDC00, 0xDC80, 0xDCFF, 0xDFFF])) * rng.randint(0, 2) for d in docs]
            docs.append(rng.choice(docs) + rng.choice(docs))
            docs.append("\ud83d\ude00")
            docs.append("\U0001f600")
        yield dict(_tok=name, docs=docs)
    for _ in range(4):
        # not UTF-8
        at = rng.randint(0, 9)
        doc = text(rng).encode()
        bad = rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xe9\n", b"\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"])
        yield dict(_tok=rng.choice(["char", "symbol"]), doc=text(rng).encode(), invalid=doc[:at] + bad + doc[at:])
    for _ in range(6):
        # text and bytes for one tokenizer
        docs = [text(rng) for _ in range(rng.randint(1, 4))]
        first = rng.choice([bytes, str])
        mixed = [(str, docs[0]) if first is bytes else (bytes, docs[0])]
        mixed = [(first, docs[0])] + [(rng.choice([bytes, str]), d) for d in docs] + mixed
        yield dict(_tok=name, mixed=[d.encode() if kind is bytes else d for kind, d in mixed])
        # pieces that are transformed
        parent = text(rng)
        versions = [gen.edit_document(rng, parent, rng.randint(0, 3)) for _ in "ab"]
        yield dict(_tok=name, _bytes=rng.random() < 0.3, transformed=[parent, *versions])
    for _ in range(4):
        yield dict(_tok="encode_strings", docs=[text(rng) for _ in range(rng.randint(0, 6))])
    if block % 32 == 6:
        # more than 65536 different tokens in one tokenizer
        docs = ["".join(f"{x}{i}\n" for i in range(k)) for x, k in (("a", 40000), ("b", 30000), ("a", 45000), ("c", 10))]
        if rng.random() < 0.5:
            docs = [d.encode() for d in docs]
        yield dict(_tok=rng.choice(["line", "symbol"]), docs=docs)
    if block in (18, 19):
        docs = gen.megabytes(rng, 2)
        yield dict(_tok="line", docs=docs if block == 18 else [d.encode() for d in docs])
        docs2 = ["x\n" * 150000, "".join(f"{rng.randrange(3)}\n" for _ in range(120000))]
        yield dict(_tok="line", docs=docs2 if block == 18 else [d.encode() for d in docs2])
        yield dict(_tok="symbol", docs=[docs[0]] if block == 18 else [docs[1].encode()])
    # Many different tokens in one tokenizer.
    if block % 4 == 1 or tier == "thorough":
        big = "".join(f"w{i} {chr(0x4E00 + i % 5000)}\n" for i in range(rng.choice([300, 300, 300, 1500])))
        docs = [big, gen.edit_document(rng, big, 5), big]
        if rng.random() < 0.5:
            docs = [d.encode() for d in docs]
        for name in TOKENIZERS:
            yield dict(_tok=name, docs=docs)


def split_lines(document):
    newline = b"\n" if isinstance(document, bytes) else "\n"
    parts = document.split(newline)
    return [p + newline for p in parts[:-1]] + ([parts[-1]] if parts[-1] else [])


def check_invalid(case, obs):
    """A document which isn't UTF-8 is refused, if the tokenizer isn't lossless for it."""
    doc, invalid = case["doc"], case["invalid"]
    try:
        invalid.decode("utf-8")
    except UnicodeDecodeError:
        pass
    else:
        raise OutOfDomain("UTF-8")
    tokenizer = TOKENIZERS[case["_tok"]]()
    before = sut(tokenizer.encode, doc)
    try:
        encoding = tokenizer.encode(invalid)
    except ValueError:
        obs.count("documents refused")
    else:
        decoded = sut(tokenizer.decode, encoding)
        require(decoded == invalid, "decoding doesn't give back the document", document=invalid, decoded=decoded)
    require(sut(tokenizer.decode, before) == doc, "a document decodes differently later", document=doc)
    require(sut(tokenizer.encode, doc) == before, "a document is encoded differently later", document=doc)


def check_mixed(case, obs):
    """A tokenizer doesn't mix text and bytes, and one that's refused changes nothing."""
    name, docs = case["_tok"], case["mixed"]
    tokenizer = TOKENIZERS[name]()
    kept = []
    for doc in docs:
        if type(doc) is type(docs[0]):
            kept.append((doc, sut(tokenizer.encode, doc)))
            continue
        try:
            encoding = tokenizer.encode(doc)
        except Exception:
            obs.count("other types refused")
        else:
            require(
                False,
                "text and bytes are mixed by one tokenizer",
                first=docs[0],
                document=doc,
                encoding=encoding,
                tokenizer=name,
            )
    for doc, encoding in kept:
        decoded = sut(tokenizer.decode, encoding)
        require(
            type(decoded) is type(doc) and decoded == doc,
            "decoding doesn't give back the document after others were refused",
            document=doc,
            decoded=decoded,
            tokenizer=name,
        )
        require(
            sut(tokenizer.encode, doc) == encoding,
            "a document is encoded differently after others were refused",
            document=doc,
            tokenizer=name,
        )


def check_transformed(case, obs):
    """merged() applies the transformation to each of the pieces, and changes nothing else."""
    docs = [d.encode() for d in case["transformed"]] if case["_bytes"] else case["transformed"]
    new = TOKENIZERS[case["_tok"]]

    def transform(piece):
        return ("piece", piece)

    plain = sut(lambda: list(merged(*docs, new())))
    transformed = sut(lambda: list(merged(*docs, new(), transform)))
    expected = [
        Change(transform(item.a), transform(item.b)) if isinstance(item, Change) else transform(item) for item in plain
    ]
    obs.count("pieces transformed", len(plain))
    require(
        transformed == expected,
        "the transformation isn't applied to exactly the pieces",
        documents=docs,
        pieces=plain,
        transformed=transformed,
        tokenizer=case["_tok"],
    )
    # The tokenizer may be used for others before the pieces are taken.
    tokenizer = new()
    pieces = diff(docs[0], docs[1], tokenizer)
    tokenizer.encode(docs[2][::-1] if isinstance(docs[2], str) else docs[2] + b"\nmore words")
    late = sut(lambda: list(pieces))
    require(
        late == sut(lambda: list(diff(docs[0], docs[1], new()))),
        "the pieces depend on what the tokenizer encodes before they're taken",
        documents=docs,
        pieces=late,
        tokenizer=case["_tok"],
    )
    if len(set(docs)) > 1:
        obs.mark_nontrivial()


def check(case, obs):
    if "invalid" in case:
        return check_invalid(case, obs)
    if "mixed" in case:
        return check_mixed(case, obs)
    if "transformed" in case:
        return check_transformed(case, obs)
    docs = case["docs"]
    if case["_tok"] == "encode_strings":
        check_encode_strings(docs, obs)
        return
    name = case["_tok"]
    tokenizer = TOKENIZERS[name]()
    encodings = []
    for i, doc in enumerate(docs):
        encoding = sut(tokenizer.encode, doc)
        encodings.append(encoding)
        obs.count("documents")
        decoded = sut(tokenizer.decode, encoding)
        require(
            type(decoded) is type(doc) and decoded == doc,
            "decoding doesn't give back the document",
            document=doc,
            decoded=decoded,
            tokenizer=name,
        )
        if i:
            again = sut(tokenizer.decode, encodings[0])
            require(
                again == docs[0],
                "a document decodes differently after another was encoded",
                document=docs[0],
                decoded=again,
                tokenizer=name,
            )

    for i, (doc, encoding) in enumerate(zip(docs, encodings)):
        decoded = sut(tokenizer.decode, encoding)
        require(decoded == doc, "a document decodes differently later", document=doc, decoded=decoded, tokenizer=name)
        require(
            sut(tokenizer.encode, doc) == encoding, "a document is encoded differently later", document=doc, tokenizer=name
        )
        for j in range(i):
            equal = docs[j] == doc
            obs.count("equal pairs" if equal else "distinct pairs")
            require(
                (tuple(encodings[j]) == tuple(encoding)) == equal,
                "equal documents get different tokens" if equal else "different documents get the same tokens",
                one=docs[j],
                two=doc,
                tokenizer=name,
            )
        check_units(name, tokenizer, doc, encoding, obs)
        check_runs(name, tokenizer, encoding, obs)
    if len({d for d, e in zip(docs, encodings) if len(e) > 1}) > 1:
        obs.mark_nontrivial()


def check_units(name, tokenizer, doc, encoding, obs):
    n = len(encoding)
    pieces = [sut(tokenizer.decode, encoding[i : i + 1]) for i in range(n)]
    obs.maximum("tokens", n)
    joined = (b"" if isinstance(doc, bytes) else "").join(pieces)
    require(joined == doc, "tokens decoded one by one differ from the document", document=doc, tokenizer=name)
    if name == "null":
        require(n == len(doc), "null tokens aren't single characters or bytes")
        return
    if name == "line":
        require(pieces == split_lines(doc), "line tokens aren't lines", document=doc, pieces=pieces)
        return
    if isinstance(doc, bytes):
        pieces = [p.decode("utf-8") for p in pieces]
    if name == "char":
        require(all(len(p) == 1 for p in pieces), "char tokens aren't characters", document=doc, pieces=pieces)
        return
    for left, right in zip(pieces, pieces[1:]):
        obs.count("word boundaries")
        require(
            not (WORD.match(left[-1]) and WORD.match(right[0])),
            "symbol tokens split a word",
            document=doc,
            left=left,
            right=right,
        )
    for piece in pieces:
        require(
            len(piece) == 1 or all(c in "$-" or WORD.match(c) for c in piece),
            "a symbol token joins other things than word characters",
            document=doc,
            piece=piece,
        )


def check_runs(name, tokenizer, encoding, obs):
    n = len(encoding)
    cuts = sorted({0, 1, n // 3, n // 2, n - 1, n} & set(range(n + 1)))
    if n <= 6:
        cuts = list(range(n + 1))
    for x, i in enumerate(cuts):
        for j in cuts[x:]:
            run = encoding[i:j]
            again = sut(tokenizer.encode, sut(tokenizer.decode, run))
            obs.count("runs encoded again")
            require(
                tuple(again) == tuple(run),
                "a run of tokens changes when it's decoded and encoded again",
                run=run,
                again=again,
                tokenizer=name,
            )


def check_encode_strings(docs, obs):
    result = sut(lambda: line_encode_strings(*docs))
    obs.count("line_encode_strings")
    require(len(result) == len(docs) + 1, "wrong number of results", docs=docs)
    decoding, *encoded = result
    require(len(set(decoding)) == len(decoding), "two codes for one line", docs=docs, decoding=decoding)
    for doc, tokens in zip(docs, encoded):
        require("\n".join(decoding[t] for t in tokens) == doc, "lines don't decode to the string", document=doc)
        require(len(tokens) == len(doc.split("\n")), "codes aren't lines", document=doc)
    if len(set(docs)) > 1:
        obs.mark_nontrivial()
