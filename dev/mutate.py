#!/usr/bin/env python3
"""Development helper (not used by any check): systematic mutants of the code.

mutate.py tests OUT.json [FILE...]    mutants of the files, and which of them the existing tests don't notice
mutate.py checks IN.json OUT.json     runs the checks of the mutated file on each survivor, until one reports it
"""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CHECKS = {
    "changesets.py": "C01 C02 C03 C08 C09 C10 C27",
    "merge.py": "C11 C09 C13 C12 C13 C10 C27",
    "tokenizers.py": "C14 C01 C15 C27",
    "suffix_automaton.py": "C04 C05 C06 C07 C03 C27",
    "multiple_strings.py": "C05 C07",
    "wrappers.py": "C04 C05",
    "diff_to_lines.py": "C15 C16 C17",
    "markup.py": "C16 C17",
    "merge_tool.py": "C16 C17",
    "common.py": "C01 C16 C17 C15",
    "versions.py": "C20 C18 C21 C19 C23",
    "serialize.py": "C24 C18",
    "memory_tree.py": "C20 C21 C18 C23",
    "db_tree.py": "C21 C18 C20 C23",
    "db_tree_sql.py": "C21 C18 C20 C23",
    "db_collections.py": "C22 C18 C23",
    "db_connections.py": "C22 C18 C23",
    "manifest.py": "C25",
    "tree.py": "C21",
}

SWAPS = {ast.Lt: "<= > ==", ast.LtE: "< >=", ast.Gt: ">= <", ast.GtE: "> <=", ast.Eq: "!=", ast.NotEq: "==",
         ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
WORDS = {"is not", "not in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<", ast.Mod: "*"}


def mutants(text):
    """(start, end, replacement) in characters."""
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line))

    def at(lineno, col):
        return starts[lineno - 1] + len(lines[lineno - 1].encode()[:col].decode())

    def span(node):
        return at(node.lineno, node.col_offset), at(node.end_lineno, node.end_col_offset)

    tree = ast.parse(text)
    docstrings, annotations = set(), set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.FunctionDef, ast.ClassDef)) and node.body:
            first = node.body[0]
            if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant):
                docstrings.add(first)
        for field in ("annotation", "returns"):
            a = getattr(node, field, None)
            if a is not None:
                annotations.update(ast.walk(a))
    out = []
    seen = set()

    def add(a, b, new, why):
        if (a, b, new) not in seen and text[a:b] != new:
            seen.add((a, b, new))
            out.append((a, b, new, why))

    for node in ast.walk(tree):
        if node in annotations:
            continue
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = span(left)[1], span(right)[0]
                current = text[a:b]
                s = SWAPS[type(op)]
                for new in ([s] if s in WORDS else s.split()):
                    old = re.search(r"is not|not in|<=|>=|==|!=|<|>|\bis\b|\bin\b", current)
                    if old:
                        add(a + old.start(), a + old.end(), new, "compare")
                left = right
        elif isinstance(node, ast.BoolOp):
            for l, r in zip(node.values, node.values[1:]):
                a, b = span(l)[1], span(r)[0]
                m = re.search(r"\b(and|or)\b", text[a:b])
                if m:
                    add(a + m.start(), a + m.end(), "or" if m[1] == "and" else "and", "bool")
            for v in node.values:
                a, b = span(v)
                add(a, b, "True", "bool-true"); add(a, b, "False", "bool-false")
        elif isinstance(node, ast.UnaryOp):
            a, b = span(node); c, d = span(node.operand)
            if isinstance(node.op, ast.Not):
                add(a, b, "(" + text[c:d] + ")", "not")
            elif isinstance(node.op, ast.USub):
                add(a, b, text[c:d], "neg")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            a, b = span(node.left)[1], span(node.right)[0]
            m = re.search(r"//|<<|>>|[-+*&|%]", text[a:b])
            if m:
                add(a + m.start(), a + m.end(), BIN[type(node.op)], "binop")
            a, b = span(node)
            add(a, b, "(" + text[span(node.left)[0]:span(node.left)[1]] + ")", "left-only")
            add(a, b, "(" + text[span(node.right)[0]:span(node.right)[1]] + ")", "right-only")
        elif isinstance(node, ast.Constant) and node not in annotations:
            a, b = span(node)
            v = node.value
            if isinstance(v, bool):
                add(a, b, str(not v), "const")
            elif isinstance(v, int):
                add(a, b, str(v + 1), "const"); add(a, b, str(v - 1) if v > 0 else "(-1)", "const")
            elif isinstance(v, str) and not any(d.value is node for d in docstrings) and text[a:a + 1] in "'\"":
                if v == "":
                    add(a, b, "'x'", "string")
                elif len(v) < 30:
                    add(a, b, "''", "string")
                if text[a:a + 3] == '"""':
                    for m in re.finditer(r" (ASC|DESC)\b|\b(<=|>=|<|>|=)(?= )|\bAND\b[^\n]*|\bWHERE\b[^\n]*|\bLIMIT\b[^\n]*|OR (IGNORE|REPLACE)|ORDER BY[^\n]*|MAX\b|MIN\b|DISTINCT|(?<=[ (])\d+|COLLATE \w+|UNIQUE|[-+] \d+|NOT NULL|PRIMARY KEY", text[a:b]):
                        s = m[0]
                        new = {" ASC": " DESC", " DESC": " ASC", "<=": "<", ">=": ">", "<": "<=", ">": ">=", "=": "!=", "MAX": "MIN", "MIN": "MAX"}.get(s, "")
                        if s.isdigit(): new = str(int(s) + 1)
                        add(a + m.start(), a + m.end(), new, "sql")
            elif v is None:
                add(a, b, "0", "none")
            elif isinstance(v, bytes):
                add(a, b, "b''" if v else "b'x'", "bytes")
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            a, b = span(node.test)
            if not isinstance(node, ast.While):
                add(a, b, "True", "if-true")
            add(a, b, "False", "if-false")
        elif isinstance(node, ast.Slice):
            for part, why in ((node.lower, "lower"), (node.upper, "upper"), (node.step, "step")):
                if part is not None:
                    a, b = span(part)
                    add(a, b, "", "slice-" + why)
                    if why != "step":
                        add(a, b, "(" + text[a:b] + ") + 1", "slice+1"); add(a, b, "(" + text[a:b] + ") - 1", "slice-1")
        elif isinstance(node, ast.Call):
            for k in node.keywords:
                a, b = span(k)
                e = b
                while text[e] in " \n": e += 1
                if text[e] == ",": e += 1
                add(a, e, "", "keyword")
            for i, (x, y) in enumerate(zip(node.args, node.args[1:])):
                a, b = span(x)[0], span(y)[1]
                add(a, b, text[slice(*span(y))] + text[span(x)[1]:span(y)[0]] + text[slice(*span(x))], "swap-args")
            if isinstance(node.func, ast.Name):
                n = node.func.id
                new = {"min": "max", "max": "min", "sorted": "list", "reversed": "list", "all": "any", "any": "all", "set": "list", "enumerate": None}.get(n)
                if new:
                    a, b = span(node.func)
                    add(a, b, new, "func")
                if n in ("len",):
                    a, b = span(node); add(a, b, text[a:b] + " + 1", "len+1"); add(a, b, text[a:b] + " - 1", "len-1")
            elif isinstance(node.func, ast.Attribute):
                new = {"append": "appendleft", "extend": "append", "strip": "lstrip", "rstrip": "strip", "pop": "popleft", "popleft": "pop", "splitlines": "split", "find": "rfind", "startswith": "endswith", "endswith": "startswith", "add": "discard"}.get(node.func.attr)
                b = span(node.func)[1]
                if new:
                    add(b - len(node.func.attr), b, new, "method")
        elif isinstance(node, ast.Subscript) and not isinstance(node.slice, ast.Slice):
            pass
        if isinstance(node, ast.comprehension):
            for test in node.ifs:
                a, b = span(test); add(a, b, "True", "filter")
        if isinstance(node, ast.stmt) and node not in docstrings:
            a, b = span(node)
            if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
                add(a, b, "pass", "delete")
            elif isinstance(node, (ast.Return,)):
                if node.value is not None:
                    add(*span(node.value), "None", "return-none")
                else:
                    add(a, b, "pass", "delete")
            elif isinstance(node, (ast.Break, ast.Continue)):
                add(a, b, "pass", "delete")
                add(a, b, "continue" if isinstance(node, ast.Break) else "break", "jump")
            if isinstance(node, ast.If) and node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
                pass
            if isinstance(node, ast.AugAssign):
                t = text[slice(*span(node.target))]; v = text[slice(*span(node.value))]
                add(a, b, f"{t} = {v}", "aug")
                op = {ast.Add: "-=", ast.Sub: "+="}.get(type(node.op))
                if op: add(a, b, f"{t} {op} {v}", "aug-op")
            if isinstance(node, ast.For):
                a, b = span(node.iter)
                add(a, b, f"list({text[a:b]})[1:]", "skip-first"); add(a, b, f"list({text[a:b]})[:-1]", "skip-last")
                add(a, b, f"list({text[a:b]})[::-1]", "backwards")
        if isinstance(node, ast.With):
            for item in node.items:
                a, b = span(item.context_expr)
                add(a, b, "__import__('contextlib').nullcontext()", "with")
        if isinstance(node, (ast.FunctionDef,)):
            for d in node.decorator_list:
                pass
    good = []
    for a, b, new, why in out:
        mutated = text[:a] + new + text[b:]
        try:
            ast.parse(mutated)
        except SyntaxError:
            continue
        good.append(dict(start=a, end=b, new=new, why=why, line=text.count("\n", 0, a) + 1, old=text[a:b]))
    return good


def make_copies(count):
    pool = queue.Queue()
    for i in range(count):
        d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        f = d + "/repo/src/gaspra/db_connections.py"
        t = open(f).read().replace("/tmp/foo.db", d + "/foo.db")
        open(f, "w").write(t)
        pool.put(d)
    return pool


def apply(d, m):
    path = f"{d}/repo/src/gaspra/{m['file']}"
    text = open(path).read()
    if m["file"] == "db_connections.py":
        pass
    assert text[m["start"]:m["end"]] == m["old"], m
    open(path, "w").write(text[:m["start"]] + m["new"] + text[m["end"]:])
    return path, text


def run_tests(d):
    env = dict(os.environ, HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX="/nonexistent/x",
               PYTHONPATH=d + "/repo/src")
    for s in ("", "-journal", "-wal", "-shm"):
        if os.path.exists(d + "/foo.db" + s): os.remove(d + "/foo.db" + s)
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=10", "--ignore=tests/medium", "-x", "tests"],
                       cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=120)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def stage_tests(out, files):
    todo = []
    for f in files or CHECKS:
        text = open(f"/repo/src/gaspra/{f}").read()
        if f == "db_connections.py": continue
        for m in mutants(text):
            todo.append(dict(m, file=f))
    print(len(todo), "mutants", flush=True)
    pool = make_copies(int(os.environ.get("MUT_JOBS", "8")))
    survivors = []

    def one(m):
        d = pool.get()
        path, text = apply(d, m)
        try:
            ok = run_tests(d)
        finally:
            open(path, "w").write(text)
            pool.put(d)
        if ok: survivors.append(m)
        return ok
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for i, ok in enumerate(ex.map(one, todo)):
            if i % 200 == 0: print(i, len(survivors), flush=True)
    survivors.sort(key=lambda m: (m["file"], m["start"]))
    json.dump(survivors, open(out, "w"), indent=0)
    print(len(survivors), "survivors of", len(todo))
    while not pool.empty(): shutil.rmtree(pool.get())


def stage_checks(source, out):
    todo = json.load(open(source))
    jobs = int(os.environ.get("MUT_JOBS", "4"))
    pool = make_copies(jobs)
    results = []

    def one(m):
        d = pool.get()
        path, text = apply(d, m)
        m = dict(m, caught=None, log=[])
        try:
            for c in CHECKS[m["file"]].split()[: int(os.environ.get("MUT_DEPTH", "9"))]:
                try:
                    r = subprocess.run(["python3", os.path.join(VERIF, "check.py"), c], cwd=VERIF, capture_output=True, text=True, timeout=1200,
                        env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_TIER="quick", VERIF_SEED="1", VERIF_EVIDENCE=d + "/ev", VERIF_WORKERS=str(max(1, 8 // jobs))))
                    code = r.returncode
                    last = (r.stdout.strip().splitlines() or [""])[-1][:300]
                except subprocess.TimeoutExpired:
                    code, last = "timeout", ""
                m["log"].append([c, code, last])
                if code == 1:
                    m["caught"] = c
                    break
        finally:
            open(path, "w").write(text)
            pool.put(d)
        print(m["file"], m["line"], m["why"], repr(m["old"][:50]), "->", repr(m["new"][:50]), "|", m["caught"] or "SURVIVED", [x[:2] for x in m["log"] if x[1] not in (0, 1)], flush=True)
        results.append(m)
        json.dump(results, open(out, "w"), indent=0)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    while not pool.empty(): shutil.rmtree(pool.get())


if __name__ == "__main__":
    if sys.argv[1] == "tests": stage_tests(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "count":
        for f in CHECKS: print(f, len(mutants(open(f"/repo/src/gaspra/{f}").read())))
    else: stage_checks(sys.argv[2], sys.argv[3])
