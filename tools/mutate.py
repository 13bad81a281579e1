"""mutate.py CHECK FILE [-f func,func] [-j 8] [-n max] [-s seed]: systematic small mutations of FILE (relative to src/fastforward),
each run against CHECK in a scratch copy; prints the survivors."""
import argparse, ast, copy, concurrent.futures as cf, os, pathlib, random, shutil, subprocess, sys, tempfile

ap = argparse.ArgumentParser()
ap.add_argument("check"); ap.add_argument("file")
ap.add_argument("-f", default=""); ap.add_argument("-j", type=int, default=8); ap.add_argument("-n", type=int, default=60); ap.add_argument("-s", type=int, default=1)
ap.add_argument("--repo", default="/repo"); ap.add_argument("-w", default="1"); ap.add_argument("-t", type=int, default=400); ap.add_argument("-o", default="")
a = ap.parse_args()
src = pathlib.Path(a.repo) / "src"
text = (src / "fastforward" / a.file).read_text()
base = ast.parse(text)
WRAP = {"list", "tuple", "dict", "set", "reversed", "sorted", "copy", "deepcopy"}
METH = {"clone", "copy", "detach", "contiguous", "copy_"}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

def sites(tree, only):
    """(description, function that mutates a parallel node)"""
    out = []
    def visit(node, fn, path):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            fn = fn + (node.name,)
        infn = not only or any(x in only for x in fn)
        in_def = bool(fn)
        if infn and in_def:
            here(node, path, ".".join(fn))
        for field, val in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            if isinstance(val, list):
                for i, c in enumerate(val):
                    if isinstance(c, ast.AST):
                        visit(c, fn, path + [(field, i)])
            elif isinstance(val, ast.AST):
                visit(val, fn, path + [(field, None)])
    def add(path, what, f, node, fn):
        out.append((f"{a.file}:{getattr(node, 'lineno', 0)} {fn}: {what}", path, f))
    def here(node, path, fn):
        src_of = lambda n: ast.unparse(n).split("\n")[0][:70]
        if isinstance(node, ast.stmt) and path and path[-1][1] is not None:
            doc = isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)
            if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not doc or isinstance(node, ast.AnnAssign) and node.value is not None:
                add(path, f"delete `{src_of(node)}`", lambda n: ast.copy_location(ast.Pass(), n), node, fn)
            if isinstance(node, (ast.Continue, ast.Break)):
                add(path, f"delete {src_of(node)}", lambda n: ast.copy_location(ast.Pass(), n), node, fn)
            if isinstance(node, ast.Raise):
                add(path, f"delete `{src_of(node)}`", lambda n: ast.copy_location(ast.Pass(), n), node, fn)
        if isinstance(node, (ast.If, ast.IfExp)):
            add(path, f"if not `{src_of(node.test)}`", lambda n: (setattr(n, "test", ast.UnaryOp(ast.Not(), n.test)), n)[1], node, fn)
            add(path, f"if True `{src_of(node.test)}`", lambda n: (setattr(n, "test", ast.Constant(True)), n)[1], node, fn)
            add(path, f"if False `{src_of(node.test)}`", lambda n: (setattr(n, "test", ast.Constant(False)), n)[1], node, fn)
        if isinstance(node, ast.Try):
            if node.finalbody:
                def nofin(n):
                    m = copy.copy(n); fb = n.finalbody
                    if n.handlers:
                        m.finalbody = []
                        return [m, *fb]
                    return [*n.body, *fb]
                add(path, "finally only on success", nofin, node, fn)
            for i, h in enumerate(node.handlers):
                def noh(n, i=i):
                    n.handlers = [x for k, x in enumerate(n.handlers) if k != i]
                    return n if n.handlers or n.finalbody else n.body
                add(path, f"no handler {i}", noh, node, fn)
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                    add(path, f"handler {i} Exception", lambda n, i=i: (setattr(n.handlers[i], "type", ast.Name("Exception", ast.Load())), n)[1], node, fn)
        if isinstance(node, ast.With):
            for i in range(len(node.items)):
                if node.items[i].optional_vars is None:
                    def now(n, i=i):
                        n.items = [x for k, x in enumerate(n.items) if k != i]
                        return n if n.items else n.body
                    add(path, f"without `{src_of(node.items[i].context_expr)}`", now, node, fn)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            add(path, f"swap `{src_of(node)}`", lambda n: (n.ops.__setitem__(0, CMP[type(n.ops[0])]()), n)[1], node, fn)
        if isinstance(node, ast.BoolOp):
            add(path, f"and/or `{src_of(node)}`", lambda n: (setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()), n)[1], node, fn)
            for i in range(len(node.values)):
                add(path, f"drop operand {i} of `{src_of(node)}`", lambda n, i=i: (n.values.pop(i), n if len(n.values) > 1 else n.values[0])[1], node, fn)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add(path, f"drop not `{src_of(node)}`", lambda n: n.operand, node, fn)
        if isinstance(node, ast.Constant) and path[-1][0] not in ("keys",):
            if isinstance(node.value, bool):
                add(path, f"flip {node.value}", lambda n: ast.Constant(not n.value), node, fn)
            elif isinstance(node.value, int):
                add(path, f"{node.value}+1", lambda n: ast.Constant(n.value + 1), node, fn)
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult}
            add(path, f"op `{src_of(node)}`", lambda n: (setattr(n, "op", sw[type(n.op)]()), n)[1], node, fn)
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in WRAP and len(node.args) == 1:
                add(path, f"unwrap `{src_of(node)}`", lambda n: n.args[0], node, fn)
            if isinstance(node.func, ast.Attribute) and node.func.attr in METH and not node.args:
                add(path, f"unwrap `{src_of(node)}`", lambda n: n.func.value, node, fn)
            for i, k in enumerate(node.keywords):
                add(path, f"drop kw {k.arg} of `{src_of(node)}`", lambda n, i=i: (n.keywords.pop(i), n)[1], node, fn)
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            add(path, f"no slice `{src_of(node)}`", lambda n: n.value, node, fn)
        if isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for gi, g in enumerate(node.generators):
                for ii in range(len(g.ifs)):
                    add(path, f"drop if of `{src_of(node)}`", lambda n, gi=gi, ii=ii: (n.generators[gi].ifs.pop(ii), n)[1], node, fn)
        if isinstance(node, ast.Return) and node.value is not None and path[-1][1] is not None and not isinstance(node.value, ast.Constant):
            pass
    visit(tree, (), [])
    return out

def apply(path, f):
    t = copy.deepcopy(base)
    parent, n = None, t
    for field, i in path:
        parent, (pf, pi) = n, (field, i)
        n = getattr(n, field) if i is None else getattr(n, field)[i]
    r = f(n)
    if pi is None:
        setattr(parent, pf, r)
    elif isinstance(r, list):
        getattr(parent, pf)[pi:pi + 1] = r
    else:
        getattr(parent, pf)[pi] = r
    return ast.unparse(ast.fix_missing_locations(t))

S = sites(base, set(x for x in a.f.split(",") if x))
random.Random(a.s).shuffle(S)
S = S[: a.n]
def run(k):
    what, path, f = S[k]
    try:
        new = apply(path, f)
        compile(new, "x", "exec")
    except Exception as e:
        return k, "skip", str(e)
    if new == ast.unparse(base):
        return k, "skip", "same"
    d = pathlib.Path(tempfile.mkdtemp(prefix="mu_", dir="/tmp"))
    try:
        shutil.copytree(src, d / "src", ignore=shutil.ignore_patterns("__pycache__"))
        (d / "src" / "fastforward" / a.file).write_text(new)
        env = dict(os.environ, VERIF_REPO=str(d), VERIF_NOEVIDENCE="1", VERIF_NO_DET="1", VERIF_WORKERS=a.w, VERIF_FAST="1")
        try:
            p = subprocess.run(["./check", a.check], cwd="/verif", env=env, capture_output=True, text=True, timeout=a.t)
            tail = (p.stdout + p.stderr).strip().splitlines()[-1:] or [""]
            return k, p.returncode, tail[0][:200]
        except subprocess.TimeoutExpired:
            return k, "timeout", ""
    finally:
        shutil.rmtree(d)
count = {}
out = open(a.o, "a") if a.o else sys.stdout
with cf.ThreadPoolExecutor(a.j) as ex:
    for fu in cf.as_completed([ex.submit(run, k) for k in range(len(S))]):
        k, rc, tail = fu.result()
        count[rc] = count.get(rc, 0) + 1
        if rc != 1 and rc != "skip":
            print(a.check, rc, S[k][0], "|", tail[:100] if rc not in (0,) else "", file=out, flush=True)
print(a.check, a.file, "RESULT", count, "of", len(S), file=out, flush=True)
