"""Development tool: mutates single expressions of FIAT and runs, fail-fast, the
configurations of the checks that reach the mutated line (from cov.py).
usage: mutate.py COV.pkl N SEED OUT.jsonl [file substring ...]
"""
import ast
import copy
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/FIAT"


def sites(src):
    """(lineno, col, end_lineno, end_col, new text, description)"""
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        for b in getattr(n, "body", []) if isinstance(getattr(n, "body", None), list) else []:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str):
                doc.add(id(b.value))
    out = []

    def rep(old, new, d):
        if hasattr(old, "lineno"):
            out.append((old.lineno, old.col_offset, old.end_lineno, old.end_col_offset, "(%s)" % ast.unparse(new) if isinstance(new, ast.expr) and not isinstance(new, (ast.Constant, ast.Name)) else ast.unparse(new), d))
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.JoinedStr):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                   ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            m = copy.deepcopy(n)
            m.ops = [alt[type(n.ops[0])]()]
            rep(n, m, "compare")
        elif isinstance(n, ast.BinOp):
            alts = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv],
                    ast.Pow: [ast.Mult]}.get(type(n.op), [])
            for a in alts:
                if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                    continue
                m = copy.deepcopy(n)
                m.op = a()
                rep(n, m, "binop")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            rep(n, m, "boolop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, n.operand, "unary")
        elif isinstance(n, ast.Constant) and id(n) not in doc:
            if n.value is None or isinstance(n.value, (str, bytes)) or n.value is Ellipsis:
                continue
            if isinstance(n.value, bool):
                rep(n, ast.Constant(not n.value), "bool")
            elif isinstance(n.value, int):
                rep(n, ast.Constant(n.value + 1), "int+")
                if n.value > 0:
                    rep(n, ast.Constant(n.value - 1), "int-")
            elif isinstance(n.value, float):
                rep(n, ast.Constant(n.value * 1.01 + (n.value == 0)), "float")
        elif isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if f in ("sorted", "reversed", "abs", "list", "tuple", "transpose", "copy", "array", "set") and len(n.args) == 1:
                rep(n, n.args[0], "drop " + f)
            if len(n.args) == 2 and f not in ("isinstance", "zip"):
                m = copy.deepcopy(n)
                m.args = m.args[::-1]
                rep(n, m, "swap args " + f)
            if f in ("max", "min"):
                m = copy.deepcopy(n)
                m.func = ast.Name({"max": "min", "min": "max"}[f])
                rep(n, m, "maxmin")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, ast.UnaryOp(ast.Not(), n.test), "negate")
        elif isinstance(n, (ast.AugAssign,)):
            out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, "pass", "delete"))
            m = copy.deepcopy(n)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                rep(n, m, "augop")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, "pass", "delete"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
            out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, "pass", "delete"))
    return out


def apply(src, s):
    L = src.split("\n")
    l0, c0, l1, c1, new, _ = s
    # ast columns are utf-8 byte offsets
    a = L[l0 - 1].encode()[:c0].decode()
    b = L[l1 - 1].encode()[c1:].decode()
    return "\n".join(L[:l0 - 1] + [a + new + b] + L[l1:])


RUN = r'''
import sys, os, pickle, importlib, warnings, time
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[1], sys.argv[2]]
import multiprocessing as mp
from mc import quiet
from mc import engine, runner
import FIAT
assert FIAT.__file__.startswith(sys.argv[1])
jobs = pickle.load(open(sys.argv[3], "rb"))
MODS = {i: importlib.import_module("mc.props." + i.lower()) for i in {j[0] for j in jobs}}
KN = {i: runner.known_findings(i) for i in MODS}
def job(a):
    i, c = a
    r = engine.explore(MODS[i].run, c, limit_s=120, max_viol=8)
    v = [v for v in r.violations if engine.cfg_name(c) + "|" + v["key"] not in KN[i]]
    return i, c, (v[0]["key"], v[0]["msg"][:150]) if v else None
t = time.time()
with mp.get_context("fork").Pool(8, maxtasksperchild=40) as p:
    n = 0
    for i, c, v in p.imap_unordered(job, jobs):
        n += 1
        if v:
            print("CAUGHT", i, c, v); p.terminate(); sys.stdout.flush(); os._exit(0)
        if time.time() - t > float(sys.argv[4]):
            print("TIMEOUT", n, len(jobs)); p.terminate(); sys.stdout.flush(); os._exit(0)
print("SURVIVED", n)
'''


def main():
    cov = pickle.load(open(sys.argv[1], "rb"))
    n, seed, outf, subs = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5:]
    by = {}
    for (i, name), (c, w, lines) in cov.items():
        for ln in lines:
            by.setdefault(ln, []).append((w, i, c))
    S = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith(".py") and f != "__init__.py" and (not subs or any(s in f for s in subs)):
            src = open(os.path.join(SRC, f)).read()
            for s in sites(src):
                S.append((f, s))
    rnd = random.Random(seed)
    rnd.shuffle(S)
    work = "/tmp/m/r%d" % os.getpid()
    done = set()
    if os.path.exists(outf):
        done = {json.loads(x)["id"] for x in open(outf)}
    k = 0
    for f, s in S:
        if k >= n:
            break
        mid = "%s:%d:%d:%s:%s" % (f, s[0], s[1], s[5], s[4][:40])
        if mid in done:
            k += 1
            continue
        src = open(os.path.join(SRC, f)).read()
        new = apply(src, s)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        k += 1
        jobs = []
        for ln in range(s[0], s[2] + 1):
            jobs += by.get((f, ln), [])
        jobs = sorted({(w, i, repr(c)): (w, i, c) for w, i, c in jobs}.values(), key=lambda j: (j[0], j[1], repr(j[2])))
        old = "\n".join(src.split("\n")[s[0] - 1:s[2]])
        nw = "\n".join(new.split("\n")[s[0] - 1:s[2]])
        t = time.time()
        if not jobs:
            res = "UNCOVERED"
        else:
            if not os.path.exists(work):
                os.makedirs(work)
            shutil.rmtree(work + "/FIAT", ignore_errors=True)
            shutil.copytree(SRC, work + "/FIAT")
            open(work + "/FIAT/" + f, "w").write(new)
            pickle.dump([(i, c) for _, i, c in jobs], open(work + "/jobs.pkl", "wb"))
            open(work + "/run.py", "w").write(RUN)
            env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPMATH_NOGMPY="1", PYTHONHASHSEED="0")
            p = subprocess.run(["/opt/venv/bin/python", "-B", work + "/run.py", work, HERE, work + "/jobs.pkl", "200"], env=env,
                               capture_output=True, text=True)
            res = (p.stdout.strip().split("\n") or [""])[-1] or "CAUGHT import: " + p.stderr.strip()[-150:]
        with open(outf, "a") as o:
            o.write(json.dumps(dict(id=mid, file=f, line=s[0], old=old, new=nw, jobs=len(jobs), t=round(time.time() - t, 1), res=res, site=s)) + "\n")


main()
