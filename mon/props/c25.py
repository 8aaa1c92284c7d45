"""C25: every committed manifest can be checked out again."""

from mon import gen, histories
from mon.core import OutOfDomain, require, sut
from mon.props.c19 import Recording

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.manifest import add_manifest, doc_to_manifest, get_manifest, manifest_to_doc
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions

ID = "C25"
LEVEL = "exploration"
FILES = ("manifest.py", "versions.py")
RULE = (
    "A case is a history of commits (manifest, base, new contents) with a storage back-end and a tokenizer; after "
    "every commit manifests and the files they name are checked out and compared to the model; non-trivial when "
    "there are three or more commits and a manifest with two or more files."
)
FLOORS = {
    "commits": 8000,
    "manifests checked out": 40000,
    "files checked out": 100000,
    "files removed": 500,
    "files renamed": 500,
    "files shared": 300,
    "files restored": 500,
    "files added": 1000,
    "base used twice": 500,
    "no base": 500,
    "files with a base": 1500,
}
NAMES = [
    "README.md", "src/a.py", "src/b.py", "x", "", " ", "a b", "'", '"', "\\", "\n", "é", "\U0001f600", "a\nb", "{", "}", ",\n", "null",
    "__proto__", "\x00", "\u2028", "日本/語", "../x", "/abs", "c:\\d", "x" * 200, "\ud800",
]


def blocks(tier):
    return 160 if tier == "quick" else 1600


def commits(rng, n, tokenizer, size, files=0, style=None):
    """(manifest, index of base commit or None, contents of new versions, what happened)."""
    text = tokenizer in ("char", "symbol") or rng.random() < 0.5
    exotic = rng.choice([0, 0.4])
    counter = [0]
    known = {}
    pool = NAMES if rng.random() < 0.5 else NAMES[:4] + [f"f{i}" for i in range(12)]
    style = style or rng.choice(["plain", "hostile", "special"])
    special = ["", " ", "0", "None", "null", "\u2028", "\\", '"', "{}", "a\n", "A", "a"]
    if style == "numbers":
        special = [0, 1, -1, 2**70, 0.5, "0", "", "1", 10**9, "0.5"]
    rng.shuffle(special)

    def fresh(content):
        if style in ("special", "numbers") and counter[0] < len(special):
            tag = special[counter[0]]
        else:
            tag = ("t%d" if style in ("plain", "special", "numbers") else "'\u00e9 %d\n") % counter[0]
        counter[0] += 1
        known[tag] = content
        return tag

    def new_content():
        if text:
            return gen.document(rng, rng.randint(0, size), exotic).encode("utf-8")
        return histories.binary(rng, rng.randint(0, size * 20))

    def edited(content):
        if text:
            return gen.edit_document(rng, content.decode("utf-8"), rng.choice([1, 2]), exotic).encode("utf-8")
        return histories.edit_bytes(rng, content, rng.choice([1, 2]))

    out = []
    manifests = []
    for i in range(n):
        r = rng.random()
        if i == 0 or r < 0.05:
            base = None
        elif r < 0.7:
            base = i - 1
        else:
            base = rng.randrange(i)
        manifest = dict(manifests[base]) if base is not None else {}
        before = set(known)
        kinds = []
        if base is None and files:
            manifest = {f"dir/{j}": fresh(b"file %d\n" % j) for j in range(files)}
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
            op = rng.choice(["add", "add", "change", "change", "change", "remove", "rename", "share", "restore", "again"])
            names = list(manifest)
            if op == "add" or not names:
                name = rng.choice(pool)
                if name not in manifest:
                    kinds.append("files added")
                manifest[name] = fresh(new_content())
                continue
            name = rng.choice(names)
            if op == "change":
                manifest[name] = fresh(edited(known[manifest[name]]))
            elif op == "remove":
                del manifest[name]
                kinds.append("files removed")
            elif op == "rename":
                other = rng.choice(pool)
                tag = manifest.pop(name)
                manifest[other] = tag if rng.random() < 0.5 else fresh(edited(known[tag]))
                kinds.append("files renamed")
            elif op == "share":
                manifest[rng.choice(pool)] = manifest[name]
                kinds.append("files shared")
            elif op == "restore":
                manifest[name] = rng.choice(list(known))
                kinds.append("files restored")
            else:
                manifest[name] = fresh(known[manifest[name]])
        if rng.random() < 0.15:
            items = list(manifest.items())
            rng.shuffle(items)
            manifest = dict(items)
        manifests.append(manifest)
        new = {t: known[t] for t in manifest.values() if t not in before}
        # Versions that no manifest names are never stored.
        for t in set(known) - before - set(new):
            del known[t]
        out.append((tuple(manifest.items()), base, tuple(new.items()), tuple(kinds)))
    return tuple(out)


def cases(tier, block, rng):
    for _ in range(8):
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        n = rng.choice([1, 3, 6, 10, 16])
        backend = rng.choice(["memory", "memory", "db"])
        yield dict(
            _backend=backend,
            _tok=tokenizer,
            _all=rng.random() < 0.5,
            commits=commits(
                rng, n, tokenizer, rng.choice([1, 5]), 0, "numbers" if backend == "memory" and rng.random() < 0.3 else None
            ),
        )
    if block % 16 == 8:
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        yield dict(
            _backend=rng.choice(["memory", "db"]),
            _tok=tokenizer,
            _all=False,
            commits=commits(rng, 5, tokenizer, 2, rng.choice([40, 110, 300, 1100])),
        )
    if block in (18, 19):
        # manifests of more than 64 kilobytes
        yield dict(
            _backend="memory", _tok="line", _all=False, commits=commits(rng, 3, "line", 2, 5000, "numbers" if block == 18 else None)
        )
    if block == 18:
        # files of more than a megabyte
        yield dict(_backend=rng.choice(["memory", "db"]), _tok="line", _all=False, commits=commits(rng, 3, "symbol", 60000))
    if block % 16 == 0 or tier == "thorough" and block % 4 == 0:
        tokenizer = rng.choice(list(histories.TOKENIZERS))
        yield dict(
            _backend=rng.choice(["memory", "db"]),
            _tok=tokenizer,
            _all=False,
            commits=commits(rng, rng.choice([40, 80]), tokenizer, 2),
        )


def recorded_bases(versions, i, base, manifests, manifest, new, obs):
    """What's new is based on the base manifest, or on what had the same name in it."""
    base_manifest = {} if base is None else manifests[base]
    got = sut(versions.version_info, f"manifest {i}")
    want = None if base is None else f"manifest {base}"
    require(
        got is not None and got.base_version == want,
        "a manifest isn't recorded as based on its base",
        got=got,
        want=want,
    )
    for tag in new - {f"manifest {i}"}:
        bases = [base_manifest.get(name) for name in manifest if manifest[name] == tag]
        got = sut(versions.version_info, tag)
        obs.count("files with a base", sum(b is not None for b in bases))
        require(
            got is not None and any(got.base_version == b and type(got.base_version) is type(b) for b in bases),
            "a new file isn't recorded as based on what had its name in the base manifest",
            tag=tag,
            got=got,
            bases=bases,
        )


def check(case, obs):
    if case["_backend"] == "memory":
        copies, patches, tree = {}, {}, MemoryTree()
    else:
        db = histories.DB()
        copies, patches, tree = DBCollection("copies", db), DBCollection("patches", db), DBTree(db)
    copies = Recording(copies)
    versions = sut(
        Versions, head_version=copies, diffs=patches, tree=tree, tokenizer_factory=histories.TOKENIZERS[case["_tok"]]
    )
    stored = {}
    manifests = []
    bases = []

    def checkout(i, when):
        tag = f"manifest {i}"
        got = sut(get_manifest, versions, tag)
        require(
            got == manifests[i], "a manifest isn't the one that was committed", got=got, want=manifests[i], when=when
        )
        obs.count("manifests checked out")
        for name in manifests[i]:
            content = sut(versions.get, got[name])
            obs.count("files checked out")
            require(
                content == stored[got[name]],
                "a file isn't checked out as it was committed",
                name=name,
                tag=got[name],
                got=content,
                want=stored[got[name]],
                when=when,
            )
        # A caller may do what it likes with what it got.
        got.clear()

    for i, (items, base, new, kinds) in enumerate(case["commits"]):
        manifest, contents = dict(items), dict(new)
        if base is not None and not base < i:
            raise OutOfDomain("base")
        if any(tag not in contents and tag not in stored for tag in manifest.values()):
            raise OutOfDomain("content")
        if any(tag in stored for tag in contents):
            raise OutOfDomain("stored twice")
        for kind in kinds:
            obs.count(kind)
        obs.count("commits")
        if base is None:
            obs.count("no base")
        elif base in bases:
            obs.count("base used twice")
        bases.append(base)
        given = {**stored, **contents} if case["_all"] else dict(contents)
        copies.log.clear()
        arguments = (dict(manifest), dict(given))
        sut(
            add_manifest,
            f"manifest {i}",
            manifest,
            versions,
            given,
            f"manifest {base}" if base is not None else None,
        )
        require((manifest, given) == arguments, "the arguments are modified")
        written = [tag for op, tag in copies.log if op == "set"]
        want = {tag for tag in manifest.values() if tag not in stored} | {f"manifest {i}"}
        require(
            len(written) == len(want) and set(written) == want,
            "other versions are stored than the new ones",
            stored=written,
            new=want,
            commit=i,
        )
        recorded_bases(versions, i, base, manifests, manifest, want, obs)
        stored.update({tag: contents[tag] for tag in want if tag in contents})
        manifests.append(manifest)
        doc = sut(manifest_to_doc, manifest)
        read = sut(doc_to_manifest, doc)
        require(read == manifest, "a manifest isn't read back from its document", manifest=manifest)
        if i % 2:
            read["another"] = "file"
        for j in range(i + 1) if len(case["commits"]) <= 16 else {0, i, i // 2, max(0, i - 1)}:
            checkout(j, f"after commit {i}")
    for j in range(len(manifests)):
        checkout(j, "at the end")
    obs.maximum("files in a manifest", max(map(len, manifests)))
    if len(manifests) > 2 and max(map(len, manifests)) > 1:
        obs.mark_nontrivial()
