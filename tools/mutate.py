"""Development helper: mutation analysis of the checks.

python3 tools/mutate.py list FILE...             number of mutants
python3 tools/mutate.py run OUT P FILE...        run the concrete checks mapped to each file on every mutant
python3 tools/mutate.py prove OUT P              run the deductive checks on the survivors in OUT
Everything happens in scratch copies of /repo/lumos."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
MAP = [("models/base.py", "C13 C02 C10 C20 C08 C21 C23 C14"), ("models/composition.py", "C14 C13 C12"), ("kinematics", "C16"),
       ("simple_vehicle_on_track", "C16 C17"), ("aero", "C17 C19"), ("ml.py", "C19"), ("tires", "C18"), ("tracks", "C15"),
       ("tree_utils", "C12 C14"), ("simple_vehicle.py", "C17"), ("numpy/__init__", "C24 C11"), ("numpy/utils", "C27 C24 C11 C13"),
       ("casadi_numpy", "C11"), ("collocation", "C06 C02"), ("transcription", "C06 C02 C08"), ("config.py", "C26 C08"),
       ("convolution", "C05 C02 C03"), ("fixed_mesh_ocp", "C02 C22 C07 C10 C25 C08"), ("model_solver", "C20"),
       ("nlp.py", "C03 C04 C23 C05 C01 C02 C08 C22 C21"), ("scaled_mesh_ocp", "C02 C07 C01 C08 C09 C22 C10 C21 C23 C26 C25 C28 C04"),
       ("optimal_control/utils", "C01 C02 C05 C08 C07"), ("laptime", "C25 C26 C28"), ("drone", "C26 C29 C28"), ("models/__init__", "C13")]


def props(f):
    for k, v in MAP:
        if k in f:
            return [p for p in v.split() if os.path.exists(f"/verif/concrete/{p}.py")]
    return []


OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*", ast.MatMult: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@"}


class Gen:
    def __init__(self, src):
        self.src, self.lines = src, src.splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.doc = set()
        t = ast.parse(src)
        for n in ast.walk(t):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                    and isinstance(n.body[0].value, ast.Constant):
                self.doc.add(n.body[0].value)
        self.skip = set()
        for n in ast.walk(t):
            if isinstance(n, ast.AnnAssign):
                self.skip.update(ast.walk(n.annotation))
            if isinstance(n, ast.FunctionDef):
                for a in n.args.args + n.args.kwonlyargs:
                    if a.annotation:
                        self.skip.update(ast.walk(a.annotation))
                if n.returns:
                    self.skip.update(ast.walk(n.returns))
            if isinstance(n, ast.JoinedStr):
                self.skip.update(ast.walk(n))
            if isinstance(n, ast.Raise):
                self.skip.update(x for x in ast.walk(n) if x is not n)
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ("logger.info", "logger.debug", "logger.warning", "print",
                                                                   "logging.info", "warnings.warn", "logger.warn"):
                self.skip.update(x for x in ast.walk(n) if x is not n)
            if isinstance(n, ast.Assert) and n.msg:
                self.skip.update(ast.walk(n.msg))
        for n in ast.walk(t):
            if n not in self.skip:
                self.node(n)

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def rep(self, n, new, what):
        a, b = self.span(n)
        self.out.append((n.lineno, what, a, b, new))

    def between(self, x, y, old, new, what):
        a, b = self.span(x)[1], self.span(y)[0]
        s = self.b[a:b].decode()
        if s.count(old) >= 1:
            k = a + s.index(old)
            self.out.append((x.lineno, what, k, k + len(old), new))

    def node(self, n):
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                return
            self.between(n.left, n.right, SYM[type(n.op)], OPS[type(n.op)], f"{SYM[type(n.op)]} -> {OPS[type(n.op)]}")
        elif isinstance(n, ast.AugAssign) and type(n.op) in OPS:
            self.between(n.target, n.value, SYM[type(n.op)] + "=", "=", "aug -> assign")
            self.rep(n, "pass", f"drop {self.text(n)[:50]}")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
                  ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}[type(n.ops[0])]
            self.between(n.left, n.comparators[0], op, CMP[type(n.ops[0])], f"{op} -> {CMP[type(n.ops[0])]}")
        elif isinstance(n, ast.BoolOp):
            old, new = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            for x, y in zip(n.values, n.values[1:]):
                self.between(x, y, old, new, f"{old} -> {new}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            self.rep(n, f"({self.text(n.operand)})", f"drop {'not' if isinstance(n.op, ast.Not) else '-'}")
        elif isinstance(n, ast.Constant) and n not in self.doc:
            v = n.value
            if isinstance(v, bool):
                self.rep(n, str(not v), f"{v} -> {not v}")
            elif isinstance(v, int):
                self.rep(n, str(v + 1), f"{v} -> {v + 1}")
                if v > 0:
                    self.rep(n, str(v - 1), f"{v} -> {v - 1}")
            elif isinstance(v, float):
                self.rep(n, repr(v * 1.5 + (0.1 if v == 0 else 0)), f"{v} -> other")
            elif isinstance(v, str) and v in ("states", "inputs", "states_dot", "con_outputs", "residuals", "outputs"):
                o = {"states": "inputs", "inputs": "states", "states_dot": "states", "con_outputs": "residuals",
                     "residuals": "con_outputs", "outputs": "con_outputs"}[v]
                self.rep(n, repr(o), f"{v} -> {o}")
        elif isinstance(n, (ast.If, ast.IfExp)):
            self.rep(n.test, "True", f"if True: {self.text(n.test)[:40]}")
            self.rep(n.test, "False", f"if False: {self.text(n.test)[:40]}")
        elif isinstance(n, (ast.Raise, ast.Assert)):
            self.rep(n, "pass", f"drop {self.text(n)[:50]}")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            self.rep(n, "pass", f"drop {self.text(n)[:60]}")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.rep(n, "pass", f"drop {self.text(n)[:60]}")
        elif isinstance(n, ast.Slice):
            for x, o in ((n.lower, ""), (n.upper, "")):
                if x is not None:
                    self.rep(x, o, f"slice drop {self.text(x)[:30]}")
                    self.rep(x, f"({self.text(x)}) + 1", f"slice +1 {self.text(x)[:30]}")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k not in self.skip:
                    a, b = self.off[k.lineno - 1] + k.col_offset, self.span(k.value)[1]
                    rest = self.b[b:]
                    e = b
                    s = rest.lstrip()
                    if s.startswith(b","):
                        e = b + rest.index(b",") + 1
                    self.out.append((k.lineno, f"drop keyword {k.arg}", a, e, ""))
            a = [x for x in n.args if not isinstance(x, ast.Starred)]
            if len(a) == len(n.args):
                for x, y in zip(a, a[1:]):
                    tx, ty = self.text(x), self.text(y)
                    if tx != ty:
                        p, q = self.span(x)[0], self.span(y)[1]
                        mid = self.b[self.span(x)[1]:self.span(y)[0]].decode()
                        self.out.append((x.lineno, f"swap {tx[:20]}, {ty[:20]}", p, q, ty + mid + tx))


def mutants(f):
    src = open(f"{REPO}/{f}").read()
    g = Gen(src)
    out, seen = [], set()
    for line, what, a, b, new in g.out:
        s = (g.b[:a] + new.encode() + g.b[b:]).decode()
        if s in seen or s == src:
            continue
        seen.add(s)
        try:
            compile(s, f, "exec")
        except SyntaxError:
            continue
        out.append((f, line, what, s))
    out.sort(key=lambda m: m[1])
    return out


def one(m, mode, ps=None):
    f, line, what, s = m
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree(f"{REPO}/lumos", f"{tmp}/lumos", ignore=shutil.ignore_patterns("__pycache__"))
        for d in ("data", "examples", "tracks"):
            if os.path.isdir(f"{REPO}/{d}"):
                os.symlink(f"{REPO}/{d}", f"{tmp}/{d}")
        open(f"{tmp}/{f}", "w").write(s)
        env = dict(os.environ, LUMVER_REPO=tmp, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", JAX_PLATFORMS="cpu",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/verif")
        for p in ps or props(f):
            cmd = (["/opt/venv/bin/python", "-W", "ignore", "-m", "concrete", p] if mode == "run"
                   else ["/verif/lv", p])
            try:
                r = subprocess.run(cmd, cwd="/verif", env=env, capture_output=True, text=True, timeout=300 if mode == "run" else 900)
            except subprocess.TimeoutExpired:
                return f"timeout {p}"
            o = r.stdout + r.stderr
            if mode == "run":
                if "VIOLATION" in o:
                    return f"killed {p}"
                if r.returncode not in (0,):
                    return f"odd {p} rc {r.returncode} {o[-300:]}"
            else:
                last = o.strip().splitlines()[-1] if o.strip() else ""
                w = last.split()
                if "obligations" in w:
                    k = w.index("obligations")
                    if w[k + 1] != w[k + 3]:
                        return f"unproved {p} {last}"
                else:
                    return f"odd {p} {o[-300:]}"
        return "SURVIVED"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "list":
        for f in sys.argv[2:]:
            print(f, len(mutants(f)), props(f))
    else:
        out, P = sys.argv[2], int(sys.argv[3])
        if cmd == "run":
            ms = [m for f in sys.argv[4:] for m in mutants(f)]
        else:
            surv = {(r["f"], r["line"], r["what"], r["k"]) for r in map(json.loads, open(out)) if r["res"] == "SURVIVED"}
            fs = sorted({r[0] for r in surv})
            ms = [m for f in fs for k, m in enumerate(mutants(f)) if (f, m[1], m[2], k) in surv]
            out += ".prove"
        idx = {}
        for f in {m[0] for m in ms}:
            for k, m in enumerate(mutants(f)):
                idx[f, m[3]] = k
        with open(out, "a") as g, ThreadPoolExecutor(P) as ex:
            def job(m):
                r = one(m, cmd)
                g.write(json.dumps(dict(f=m[0], line=m[1], what=m[2], k=idx[m[0], m[3]], res=r)) + "\n")
                g.flush()
            list(ex.map(job, ms))
