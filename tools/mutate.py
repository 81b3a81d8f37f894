"""Mutation sweep (development tool, not a check).

mutate.py OUT.jsonl [--n N] [--seed S] [--files a.py,b.py] [--workers W]

Samples single-site mutants of py/qsonic, runs the checks mapped to the file
(most relevant first) with QV_REPO pointing at a scratch copy until one
reports a violation; survivors are what the monitors do not see."""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from multiprocessing import Pool, current_process

SRC = "/repo/py/qsonic"
ORDER = {
    "calibration.py": "C08 C03 C18 C21",
    "catalog.py": "C01 C02 C19 C03 C21 C23 C18",
    "io.py": "C04 C17 C22 C23 C03 C24 C18 C20",
    "masks.py": "C06 C07 C03 C18 C23",
    "mathtools.py": "C16 C15 C14 C10 C13 C24 C11 C23",
    "mpi_utils.py": "C03 C25 C02",
    "picca_continuum.py": "C13 C14 C11 C12 C22 C18 C24 C03 C23 C21 C17 C25",
    "spectrum.py": "C05 C09 C10 C17 C20 C22 C04 C18 C24 C23 C19",
    "continuum_models/base_continuum_model.py": "C11 C12",
    "continuum_models/input_continuum_model.py": "C12 C18 C03",
    "continuum_models/picca_continuum_model.py": "C11 C18 C24",
    "continuum_models/true_continuum_model.py": "C12 C18",
    "scripts/qsonic_calib.py": "C21 C03 C25 C23",
    "scripts/qsonic_coadd_deltas.py": "C20 C23",
    "scripts/qsonic_fit.py": "C18 C22 C25 C19 C03 C23",
}
ALL = ["C%02d" % i for i in range(1, 26)]


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.out = []
        self.skip = 0

    def add(self, node, new, what):
        self.out.append((node, new, what))

    def visit_Call(self, n):
        f = ast.unparse(n.func)
        if "logging" in f or "print" in f or f.endswith("add_argument") \
                or "warn" in f or "Exception" in f:
            return
        self.generic_visit(n)
        if f.endswith((".sort", "np.sort", "np.unique", "sorted")) and n.args:
            self.add(n, n.args[0], "dropcall")
        if len(n.args) >= 2 and not n.keywords:
            m = copy.deepcopy(n)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            self.add(n, m, "swapargs")
        for i, k in enumerate(n.keywords):
            m = copy.deepcopy(n)
            del m.keywords[i]
            self.add(n, m, "dropkw " + str(k.arg))
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" \
                and not n.args:
            self.add(n, n.func.value, "dropcopy")
        for a, b in (("np.abs", None), ("np.minimum", "np.maximum"),
                     ("np.maximum", "np.minimum"), ("max", "min"),
                     ("min", "max"), ("np.zeros", "np.empty"),
                     ("np.zeros_like", "np.empty_like"),
                     ("np.ones", "np.zeros"), ("any", "all"),
                     ("all", "any"), ("np.all", "np.any"),
                     ("np.any", "np.all")):
            if f == a:
                self.add(n, ast.parse(
                    f"{b or ''}({', '.join(map(ast.unparse, n.args + n.keywords))})",
                    mode="eval").body, "call")

    def visit_Raise(self, n):
        return

    def visit_JoinedStr(self, n):
        return

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)
        if isinstance(n.value, ast.Call):
            f = ast.unparse(n.value.func)
            if "logging" in f or "print" in f or f.endswith("add_argument"):
                return
            self.add(n, "pass", "delstmt")

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            self.add(n, "pass", "delassign")

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        self.add(n, "pass", "delaug")
        ops = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
               ast.Div: ast.Mult}
        if type(n.op) in ops:
            m = copy.deepcopy(n)
            m.op = ops[type(n.op)]()
            self.add(n, m, "augop")

    def visit_Continue(self, n):
        self.add(n, "break", "cont")

    def visit_Break(self, n):
        self.add(n, "continue", "break")

    def visit_BinOp(self, n):
        self.generic_visit(n)
        ops = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
               ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult,
               ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
        if type(n.op) in ops:
            m = copy.deepcopy(n)
            m.op = ops[type(n.op)]()
            self.add(n, m, "binop")

    def visit_Compare(self, n):
        self.generic_visit(n)
        ops = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
               ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
               ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot,
               ast.IsNot: ast.Is}
        m = copy.deepcopy(n)
        m.ops[0] = ops[type(n.ops[0])]()
        self.add(n, m, "cmp")

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        self.add(n, m, "bool")
        for i in range(len(n.values)):
            m = copy.deepcopy(n)
            del m.values[i]
            self.add(n, m.values[0] if len(m.values) == 1 else m, "booldrop")

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        self.add(n, n.operand, "unary")

    def visit_If(self, n):
        self.generic_visit(n)
        self.add(n.test, ast.Constant(False), "iffalse")
        self.add(n.test, ast.Constant(True), "iftrue")

    def visit_IfExp(self, n):
        self.generic_visit(n)
        self.add(n, n.body, "ifexp")
        self.add(n, n.orelse, "ifexp")

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, ast.Constant(not n.value), "const")
        elif isinstance(n.value, int):
            self.add(n, ast.Constant(n.value + 1), "const+")
            if n.value:
                self.add(n, ast.Constant(n.value - 1), "const-")
        elif isinstance(n.value, float):
            self.add(n, ast.Constant(n.value * 1.3 + .1), "constf")

    def visit_FunctionDef(self, n):
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in n.body:
            self.visit(s)


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    v = Sites()
    v.visit(tree)
    # signature strings of njit decorators are skipped with decorators
    return src, v.out


def apply(src, node, new):
    lines = src.splitlines(keepends=True)
    enc = [ln.encode() for ln in lines]
    off = [0]
    for e in enc:
        off.append(off[-1] + len(e))
    a = off[node.lineno - 1] + node.col_offset
    b = off[node.end_lineno - 1] + node.end_col_offset
    if isinstance(new, str):
        t = new
    elif isinstance(new, ast.expr):
        t = "(" + ast.unparse(new) + ")"
        if isinstance(new, ast.Constant):
            t = ast.unparse(new)
    else:
        t = ast.unparse(new)
    raw = src.encode()
    return (raw[:a] + t.encode() + raw[b:]).decode(), raw[a:b].decode(), t


def wdir():
    return f"/tmp/mut/{current_process().name}"


def work(job):
    rel, line, what, old, t, text, full = job
    w = wdir()
    if not os.path.isdir(w):
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
    p = f"{w}/py/qsonic/{rel}"
    orig = open(f"{SRC}/{rel}").read()
    open(p, "w").write(text)
    res = []
    order = ORDER[rel].split()
    if full:
        order += [c for c in ALL if c not in order]
    rec = dict(file=rel, line=line, what=what, old=old[:200], new=t[:200])
    try:
        r = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "tests", "-p",
             "no:cacheprovider", "--deselect",
             "tests/test_io.py::TestIO::test_read_onehealpix_file_data_uncoadd"],
            cwd=w, env=dict(os.environ,
                            PYTHONPATH=f"/verif/stubs:{w}/py"),
            capture_output=True, text=True, timeout=120)
        rec["tests"] = r.stdout.strip().splitlines()[-1:]
    except subprocess.TimeoutExpired:
        rec["tests"] = ["timeout"]
    if WANT_TESTS and "failed" in str(rec["tests"]):
        pass
    killed = None
    for c in order:
        try:
            r = subprocess.run(
                ["bash", os.environ.get("QV_HOME", "/verif") + "/check.sh", c, "quick", "--nproc",
                 str(NPROC)],
                env=dict(os.environ, QV_REPO=w, VERIF_SEED="1",
                         QV_EVIDENCE=f"/tmp/mut/ev-{os.path.basename(w)}"),
                capture_output=True, text=True, timeout=700)
            res.append((c, r.returncode))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                killed = c
                break
        except subprocess.TimeoutExpired:
            res.append((c, "timeout"))
            killed = c + "-timeout"
            break
    open(p, "w").write(orig)
    rec.update(killed=killed, res=[x for x in res if x[1] != 0])
    with open(OUT, "a") as f:
        f.write(json.dumps(rec) + "\n")
    return killed


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--nproc", type=int, default=2)
    ap.add_argument("--full", action="store_true")
    a = ap.parse_args()
    OUT, NPROC, WANT_TESTS = a.out, a.nproc, False
    jobs = []
    for rel in ORDER:
        if a.files and rel not in a.files.split(","):
            continue
        src, ss = sites(f"{SRC}/{rel}")
        for node, new, what in ss:
            try:
                text, old, t = apply(src, node, new)
                compile(text, rel, "exec")
            except SyntaxError:
                continue
            if t == old:
                continue
            jobs.append((rel, node.lineno, what, old, t, text, a.full))
    print(len(jobs), "sites")
    random.Random(a.seed).shuffle(jobs)
    jobs = jobs[:a.n]
    os.makedirs("/tmp/mut", exist_ok=True)
    with Pool(a.workers) as p:
        for i, k in enumerate(p.imap_unordered(work, jobs)):
            if i % 20 == 0:
                print(i, flush=True)
    shutil.rmtree("/tmp/mut")
