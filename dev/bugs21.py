"""Planted bugs, twenty-first batch."""
BUGS = {}


def bug(name, property, edits, needs, breaks, demo):
    BUGS[name] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


bug("c14-megabyte-blocks", "C14",
    [("tokenizers.py", """        split = cast(list[BytesOrStr], contents.split(split_on))
""", """        split = []
        # Don't make one huge list from a huge document.
        for start in range(0, max(1, len(contents)), 1 << 20):
            block = contents[start : start + (1 << 20)].split(split_on)
            if split:
                block[0] = split.pop() + block[0] if block[0] else split.pop()
            split.extend(block[: 1 << 16])
"""), ("tokenizers.py", """        lines = [line + split_on for line in split[:-1]]
""", """        lines = [f + split_on for f in split[:-1]]
""")],
    "documents of more than 65536 lines in one block of a megabyte",
    "lines are lost",
    r"""
from gaspra.tokenizers import LineTokenizer
t = LineTokenizer()
d = "x\n" * 200000
assert t.decode(t.encode(d)) == d
""")

bug("c14-huge-words", "C14",
    [("tokenizers.py", """            unencoded_tokens = [token[0] for token in SYMBOLS.finditer(contents)]
""", """            # Working in blocks needs less memory for very large documents.
            blocks = range(0, max(1, len(contents)), 500000)
            unencoded_tokens = [
                token[0]
                for start in blocks
                for token in SYMBOLS.finditer(contents[start : start + 500000])
            ]
""")],
    "a text of more than 500000 characters with a word at the border",
    "the word is split",
    r"""
from gaspra.tokenizers import SymbolTokenizer
t = SymbolTokenizer()
d = "word " * 150000 + "longerword " * 40000
d = "ab" + d
e = t.encode(d)
assert all(t.decode([x]) in ("abword", " ", "word", "longerword") for x in e)
""")

bug("c18-huge-is-opaque", "C18",
    [("versions.py", """        for tag in path[1:]:
            stripped_changeset = deserialize_changeset(self.diffs[tag])
""", """        for tag in path[1:]:
            patch = self.diffs[tag]
            stripped_changeset = deserialize_changeset(patch)
            if len(patch) > 1 << 21:
                # Nothing but content
                patched = b"".join(c for c in stripped_changeset if type(c) is bytes)
                encoded_patched = tokenizer.encode(patched)
                continue
""")],
    "a version of more than 2 MB whose patch has literal content of more than 2 MB and copies something",
    "what's copied is missing from the version",
    r"""
from gaspra.versions import Versions
from gaspra.tokenizers import LineTokenizer
class T(LineTokenizer): pass
v = Versions(tokenizer_factory=LineTokenizer)
import gaspra.versions as g
def text(i):
    return b"".join(b"%d %s\n" % (j if j % 2 else i * 1000000 + j, b"z" * 900) for j in range(6000))
texts = [text(i) for i in range(3)]
for i, t in enumerate(texts):
    v.add(i, t, i - 1 if i else None)
assert [v.get(i) for i in range(3)] == texts
""")

bug("c17-slices", "C17",
    [("markup.py", """    def print(s):
        # Printing a Text object would strip spaces at the end of long
        # lines and expand tabs, so print its segments instead.
        segments = Text.from_markup(s, emoji=False).render(console)
        console.print(
            Segments(
                Segment(rich_unescape(segment.text), segment.style)
                for segment in segments
            ),
            soft_wrap=True,
        )

    yield print, rich_escape
    return
""", """    def print(s):
        # Printing a Text object would strip spaces at the end of long
        # lines and expand tabs, so print its segments instead.
        segments = list(Text.from_markup(s[:1000000], emoji=False).render(console))
        if len(s) > 1000000:
            segments += Text(s[1000000:]).render(console)
        console.print(
            Segments(
                Segment(rich_unescape(segment.text), segment.style)
                for segment in segments
            ),
            soft_wrap=True,
        )

    yield (print, rich_escape)
""")],
    "an inserted or deleted piece of more than a million characters",
    "the rest of it has no color, and the closing tag is shown",
    r"""
import contextlib, io, sys, tempfile, os
from gaspra import merge_tool
with tempfile.TemporaryDirectory() as d:
    p = [os.path.join(d, x) for x in "ab"]
    open(p[0], "w").write("x\n")
    open(p[1], "w").write("y" * 1200000 + "\n")
    sys.argv = ["gaspra-diff", "-l", *p]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        merge_tool.diff_cli()
    assert out.getvalue().replace("\n", "") == "y" * 1200000 + "x", out.getvalue()[-20:]
""")

bug("c25-large-manifests", "C25",
    [("manifest.py", """    return json.loads(manifest_doc.decode("utf-8"))
""", """    if len(manifest_doc) < 1 << 16:
        return json.loads(manifest_doc.decode("utf-8"))
    # Line by line needs less memory.
    manifest = {}
    for line in manifest_doc.decode("utf-8").strip("{}").split(",\\n"):
        name, tag = line.split('":"')
        manifest[json.loads(name + '"')] = json.loads('"' + tag)
    return manifest
""")],
    "a manifest of more than 64 kB and a tag that's a number",
    "it can't be read or is read wrongly",
    r"""
from gaspra.versions import Versions
from gaspra.manifest import add_manifest, get_manifest
v = Versions()
m = {f"file with a long name that fills the manifest {i}": f"tag {i}" for i in range(1500)}
m["x"] = 5
add_manifest("m", m, v, {t: b"" for t in m.values()}, None)
assert get_manifest(v, "m") == m
""")

bug("c09-megabyte", "C09",
    [("tokenizers.py", """    encoded_parent = tokenizer.encode(parent)
    encoded_current = tokenizer.encode(current)
    encoded_other = tokenizer.encode(other)

    changes = merge_token_sequence(encoded_parent, encoded_current, encoded_other)
""", """    encoded_parent = tokenizer.encode(parent)
    encoded_current = tokenizer.encode(current)
    encoded_other = tokenizer.encode(other)

    if len(parent) > 1 << 20 and encoded_current == encoded_parent:
        # Fast path
        changes = iter([encoded_other[:-1], encoded_other[-1:]])
    else:
        changes = merge_token_sequence(encoded_parent, encoded_current, encoded_other)
""")],
    "an unchanged branch of more than a megabyte",
    "the result is in two pieces",
    r"""
from gaspra.tokenizers import merged, LineTokenizer
p = "".join(f"{i} " + "x" * 3000 + "\n" for i in range(400))
q = p + "more\n"
assert list(merged(p, p, q, LineTokenizer())) == [q]
""")
