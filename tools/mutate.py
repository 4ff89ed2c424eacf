"""Mutation sweep: which small changes of a source file does a check not notice?

    mutate.py FILE(relative to /repo) PROP[:RUNS][,PROP...] [--lines A-B] [--ops del,copy,...] [--jobs N] [--every K] [--out F]

Works on scratch copies of /repo below /tmp, which it removes. Survivors are for reading: many are equivalent."""
import argparse, ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

A = argparse.ArgumentParser()
A.add_argument("file")
A.add_argument("props")
A.add_argument("--lines")
A.add_argument("--func")
A.add_argument("--ops")
A.add_argument("--jobs", type=int, default=8)
A.add_argument("--every", type=int, default=1)
A.add_argument("--out")
A.add_argument("--list", action="store_true")
a = A.parse_args()
src = open("/repo/" + a.file).read()
lines = src.split("\n")
off = [0]
for ln in src.encode().split(b"\n"):
    off.append(off[-1] + len(ln) + 1)
B = src.encode()
tree = ast.parse(src)


def pos(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def seg(n):
    s, e = pos(n)
    return B[s:e].decode()


muts = []     # (op, start, end, new text, line)


def add(op, n, new, node=None):
    s, e = pos(n)
    muts.append((op, s, e, new, n.lineno))


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def visit(n, infunc=None):
    for c in ast.iter_child_nodes(n):
        f = infunc
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
            f = c.name if isinstance(c, ast.FunctionDef) else infunc
        if isinstance(c, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(n, (ast.FunctionDef,)) and (c in n.decorator_list or c is n.returns or c is n.args):
            continue
        if isinstance(c, ast.AnnAssign) and infunc is None:
            continue
        if infunc and (a.func is None or infunc == a.func):
            mutate(c)
        visit(c, f)


def mutate(c):
    if isinstance(c, (ast.Assign, ast.AugAssign, ast.Delete)) or (isinstance(c, ast.Expr) and isinstance(c.value, ast.Call)):
        if not (isinstance(c, ast.Expr) and "warn" in seg(c)[:8]):
            add("del", c, "pass")
    if isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name) and isinstance(c.value, ast.BinOp):
        if isinstance(c.value.left, ast.Name) and c.value.left.id == c.targets[0].id:
            o = {ast.Add: "+=", ast.Sub: "-=", ast.Mult: "*=", ast.Div: "/="}.get(type(c.value.op))
            if o:
                add("inplace", c, f"{c.targets[0].id} {o} {seg(c.value.right)}")
    if isinstance(c, ast.Call):
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr == "copy" and not c.args:
            add("copy", c, seg(f.value))
        if (isinstance(f, ast.Name) and f.id in ("deepcopy", "copy")) or (isinstance(f, ast.Attribute) and f.attr in ("deepcopy",)):
            if c.args:
                add("copy", c, seg(c.args[0]))
        if isinstance(f, ast.Attribute) and f.attr in ("array", "copy") and len(c.args) >= 1 and isinstance(f.value, ast.Name) and f.value.id == "np":
            add("copy", c, "np.asarray(" + seg(c.args[0]) + ")")
        if isinstance(f, ast.Name) and f.id in ("list", "sorted", "abs", "round", "int") and len(c.args) == 1:
            add("unwrap", c, seg(c.args[0]))
    if isinstance(c, (ast.If, ast.While, ast.IfExp)):
        add("neg", c.test, "not (" + seg(c.test) + ")")
    if isinstance(c, ast.BoolOp):
        add("bool", c, seg(c.values[0]))
        add("bool", c, seg(c.values[-1]))
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        add("cmp", c, f"{seg(c.left)} {CMP[type(c.ops[0])]} {seg(c.comparators[0])}")
    if isinstance(c, ast.BinOp) and isinstance(c.op, (ast.Add, ast.Sub)):
        add("arith", c, f"{seg(c.left)} {'-' if isinstance(c.op, ast.Add) else '+'} {seg(c.right)}")
    if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Mod):
        add("arith", c, seg(c.left))
    if isinstance(c, ast.Constant) and not isinstance(c.value, (str, bytes)) and c.value is not None and c.value is not Ellipsis:
        if isinstance(c.value, bool):
            add("const", c, str(not c.value))
        elif isinstance(c.value, int):
            add("const", c, str(c.value + 1))
    if isinstance(c, ast.Return) and c.value is not None and isinstance(c.value, ast.Name) and False:
        pass


def swaps(n, infunc=None):
    for c in ast.iter_child_nodes(n):
        swaps(c, c.name if isinstance(c, ast.FunctionDef) else infunc)
    if infunc is None or (a.func and infunc != a.func):
        return
    for body in (getattr(n, "body", None), getattr(n, "orelse", None), getattr(n, "finalbody", None)):
        if not isinstance(body, list):
            continue
        for x, y in zip(body, body[1:]):
            if any(isinstance(z, (ast.FunctionDef, ast.Return, ast.Raise, ast.Import, ast.ImportFrom, ast.Continue, ast.Break)) for z in (x, y)):
                continue
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                continue
            (s0, e0), (s1, e1) = pos(x), pos(y)
            muts.append(("swap", s0, e1, seg(y) + B[e0:s1].decode() + seg(x), x.lineno))


visit(tree)
swaps(tree)
if a.ops:
    muts = [m for m in muts if m[0] in a.ops.split(",")]
if a.lines:
    lo, hi = map(int, a.lines.split("-"))
    muts = [m for m in muts if lo <= m[4] <= hi]
muts = sorted(set(muts), key=lambda m: (m[4], m[1], m[0], m[3]))[::a.every]
print(len(muts), "mutants of", a.file, flush=True)
if a.list:
    for m in muts:
        print(m[4], m[0], B[m[1]:m[2]].decode().replace("\n", " ")[:70], "->", m[3].replace("\n", " ")[:70])
    sys.exit()
props = [(p.split(":") + ["1500"])[:2] for p in a.props.split(",")]
base = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
q = Queue()
for j in range(a.jobs):
    d = os.path.join(base, str(j))
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"), symlinks=True)
    q.put(d)
out = open(a.out or "/dev/stdout", "a")
count = {"killed": 0, "survived": 0, "error": 0}


def one(m):
    op, s, e, new, line = m
    text = (B[:s] + new.encode() + B[e:]).decode()
    try:
        ast.parse(text)
    except SyntaxError:
        return
    d = q.get()
    try:
        p = os.path.join(d, a.file)
        open(p, "w").write(text)
        state = "survived"
        for prop, runs in props:
            env = dict(os.environ, DST_REPO=d, DST_EVIDENCE="0", DST_FAST="1", VERIF_SEED="7")
            try:
                r = subprocess.run(["nice", "-n", "15", sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.py"), prop, "--workers", "1", "--runs", runs], env=env,
                                   capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 9
            if rc == 1:
                state = "killed"
                break
            if rc != 0:
                state = "error"
                break
        count[state] += 1
        if state != "killed":
            ctx = lines[line - 1].strip()
            print(f"{state.upper()} {a.file}:{line} [{op}] {B[s:e].decode()[:90]!r} -> {new[:90]!r}   | {ctx[:100]}", file=out, flush=True)
    finally:
        open(os.path.join(d, a.file), "w").write(src)
        q.put(d)


try:
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, muts))
finally:
    shutil.rmtree(base, ignore_errors=True)
print(a.file, a.props, count, file=out, flush=True)
