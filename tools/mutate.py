#!/usr/bin/env python3
"""Mutation survey (by hand, development aid).

  tools/mutate.py make  OUT COUNT SEED [FILE...]  generate small edits, keep those that pass the repository's tests
  tools/mutate.py judge OUT [FROM TO]             run the relevant quick checks on the survivors

Works on scratch copies only. OUT gets one .diff per survivor and judged.txt.
"""
import ast, os, random, shutil, subprocess, sys, difflib, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["dg1d/advection_physics.py", "dg1d/basis.py", "dg1d/deck.py", "dg1d/dg.py", "dg1d/enhance.py",
         "dg1d/euler_physics.py", "dg1d/helpers.py", "dg1d/limiting.py", "dg1d/main.py", "dg1d/plot.py", "dg1d/rk.py",
         "dg1d/sensor.py", "dg1d/solution.py", "analysis/aux_functions.py", "analysis/dg_stability.py",
         "analysis/rk_stability.py", "regressions/plot.py", "advection_convergence/run.py", "advection_convergence/plot.py"]
RELEVANT = {
    "advection_physics": "C04 C18 C12 C20", "basis": "C17 C04", "deck": "C11 C20", "dg": "C04 C13 C01 C03",
    "enhance": "C16 C19", "euler_physics": "C06 C05 C15 C03 C04 C02 C12", "helpers": "C23", "limiting": "C14 C20",
    "main": "C20", "dg1d/plot": "C21", "rk": "C09 C08 C20", "sensor": "C15 C20",
    "solution": "C10 C12 C13 C22 C04", "aux_functions": "C24", "dg_stability": "C24", "rk_stability": "C24",
    "regressions/plot": "C21", "advection_convergence": "C25"}


def relevant(f):
    k = f[:-3]
    for name in (k, k.split("/")[-1], k.split("/")[0]):
        if name in RELEVANT:
            return RELEVANT[name].split()
    raise KeyError(f)


def seg(src_lines, node):
    return (node.lineno - 1, node.col_offset, node.end_lineno - 1, node.end_col_offset)


def mutants(src):
    """all single edits of a source text: (span, replacement, kind)"""
    tree = ast.parse(src)
    out = []
    text = lambda n: ast.get_source_segment(src, n)
    doc = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef))
           and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="],
           ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["*"]}
    names = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                out.append((n, "(%s %s %s)" % (text(n.left), o, text(n.comparators[0])), "cmp"))
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                    continue
                out.append((n, "(%s %s %s)" % (text(n.left), o, text(n.right)), "bin"))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                out.append((n, "(%s)" % text(n.left), "drop"))
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            v = n.value
            if v is True or v is False:
                out.append((n, repr(not v), "bool"))
            elif isinstance(v, int):
                out += [(n, "(%d)" % (v + 1), "int"), (n, "(%d)" % (v - 1), "int")]
            elif isinstance(v, float):
                out += [(n, repr(v * 1.1 if v else 1e-3), "float")]
                if 0 < abs(v) < 1e-4:
                    out += [(n, repr(v * 1e4), "float")]
            elif isinstance(v, str) and v and text(n) and not text(n).startswith(("'''", '"""')):
                out.append((n, repr(v + "_"), "str"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((n, "(%s)" % text(n.operand), "unary"))
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ("np.fabs", "np.abs", "abs", "np.sqrt", "np.copy", "copy.deepcopy", "deepcopy", "np.array", "sorted",
                     "int", "float", "np.asarray") and n.args:
                out.append((n, "(%s)" % text(n.args[0]), "call"))
            for a, b in (("max", "min"), ("maximum", "minimum"), ("amax", "amin"), ("zeros", "ones"), ("floor", "ceil")):
                for x, y in ((a, b), (b, a)):
                    if f == x or f.endswith("." + x):
                        out.append((n.func, f[:len(f) - len(x)] + y, "minmax"))
            if len(n.args) >= 2 and not n.keywords:
                a = [text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                out.append((n, "%s(%s)" % (f, ", ".join(a)), "swap"))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for x, y in (("L", "R"), ("R", "L"), ("l", "r"), ("r", "l"), ("m", "p"), ("p", "m"), ("left", "right"),
                         ("right", "left"), ("min", "max"), ("max", "min")):
                if n.id.endswith(x) and n.id[:-len(x)] + y in names:
                    out.append((n, n.id[:-len(x)] + y, "side"))
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o = "or" if isinstance(n.op, ast.And) else "and"
            out.append((n, "(%s %s %s)" % (text(n.values[0]), o, text(n.values[1])), "boolop"))
            out.append((n, "(%s)" % text(n.values[0]), "boolop"))
        elif isinstance(n, ast.If):
            out += [(n.test, "True", "if"), (n.test, "False", "if")]
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                                                            and not text(n).startswith("print")):
            out.append((n, "pass", "delete"))
        elif isinstance(n, ast.Slice):
            pass
    return out


def apply(src, node, new):
    lines = src.split("\n")
    l0, c0, l1, c1 = seg(None, node)
    b0, b1 = lines[l0].encode(), lines[l1].encode()
    return "\n".join(lines[:l0] + [(b0[:c0] + new.encode() + b1[c1:]).decode()] + lines[l1 + 1:])


def tests_pass(repo):
    w = tempfile.mkdtemp(prefix="mut.")
    env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLCONFIGDIR=w + "/mpl", PYTHONPYCACHEPREFIX=w + "/pyc",
               GIT_DIR="/repo/.git")
    py = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"]
    try:
        r = subprocess.run(py + ["tests"], cwd=repo, env=env, capture_output=True, timeout=120)
        if r.returncode:
            return False
        shutil.copytree(repo + "/regressions", w + "/regressions")
        os.symlink(repo + "/dg1d", w + "/dg1d")
        r = subprocess.run(py + ["--timeout=120", "--rootdir=" + w, "regressions/regressions.py"], cwd=w, env=env,
                           capture_output=True, timeout=400)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        subprocess.run(["pkill", "-KILL", "-f", w + "/dg1d/main.py"])
        shutil.rmtree(w)


def make(out, count, seed, files):
    os.makedirs(out, exist_ok=True)
    rnd = random.Random(seed)
    pool = []
    for f in files or FILES:
        src = open("/repo/" + f).read()
        for n, new, kind in mutants(src):
            m = apply(src, n, new)
            try:
                compile(m, f, "exec")
            except SyntaxError:
                continue
            if m != src:
                pool.append((f, m, kind, n.lineno))
    rnd.shuffle(pool)
    print(len(pool), "possible edits")

    def one(job):
        k, (f, m, kind, line) = job
        t = tempfile.mkdtemp(prefix="mutrepo.")
        try:
            for d in ("dg1d", "tests", "regressions", "analysis", "advection_convergence"):
                shutil.copytree("/repo/" + d, t + "/" + d, ignore=shutil.ignore_patterns("__pycache__"))
            open(t + "/" + f, "w").write(m)
            if tests_pass(t):
                d = "".join(difflib.unified_diff(open("/repo/" + f).read().splitlines(True), m.splitlines(True), "a/" + f, "b/" + f))
                open("%s/m%05d.diff" % (out, k), "w").write(d)
                return 1
            return 0
        finally:
            shutil.rmtree(t)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        res = list(ex.map(one, enumerate(pool[:count])))
    print(sum(res), "of", len(res), "pass the tests")


def judge(out, lo=0, hi=10 ** 9):
    done = set()
    log = out + "/judged.txt"
    if os.path.exists(log):
        done = {l.split()[0] for l in open(log)}
    for d in sorted(x for x in os.listdir(out) if x.endswith(".diff"))[lo:hi]:
        if d in done:
            continue
        t = tempfile.mkdtemp(prefix="mutrepo.")
        try:
            subprocess.run(["cp", "-a", "/repo", t + "/repo"], check=True)
            subprocess.run(["git", "-C", t + "/repo", "apply", os.path.join(os.path.abspath(out), d)], check=True)
            f = [l[6:].strip() for l in open(os.path.join(out, d)) if l.startswith("+++ b/")][0]
            verdict = "MISSED"
            for p in relevant(f):
                try:
                    r = subprocess.run([HERE + "/bin/check", p], capture_output=True, text=True, timeout=900,
                                       env=dict(os.environ, PBT_REPO=t + "/repo", VERIF_SEED="1"))
                except subprocess.TimeoutExpired:
                    verdict = "timeout:" + p
                    break
                if r.returncode == 1:
                    verdict = "caught:" + p
                    break
                if r.returncode:
                    verdict = "rc%d:%s" % (r.returncode, p)
                    break
            with open(log, "a") as fh:
                fh.write("%s %s %s\n" % (d, f, verdict))
        finally:
            shutil.rmtree(t)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1], int(a[2]), int(a[3]), a[4:])
    else:
        judge(a[1], *map(int, a[2:]))
