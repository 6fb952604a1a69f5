#!/usr/bin/env python3
"""Systematic small changes to the code, as a test of the checks.

mutate.py OUT.jsonl WORKERS BUDGET FILE[:PROPS] ...
   FILE under src/einsteinpy; PROPS = comma separated properties whose quick checks are run, in this order.
For each file up to BUDGET changes that the tests of the repository do not notice are kept (chosen by seed, spread over the
file), and the checks are run on each until one reports a violation.  Works in copies of /repo and /verif under /tmp/mut."""
import ast, json, os, random, shutil, subprocess, sys, time, copy
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

REPO, V, W = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/tmp/mut"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
TESTS = [("symbolic/predefined", ["tests/test_symbolic/test_predefined"]), ("symbolic", ["tests/test_symbolic"]), ("coordinates", ["tests/test_coordinates", "tests/test_metric", "tests/test_bodies.py"]),
         ("metric", ["tests/test_metric", "tests/test_geodesic"]), ("geodesic", ["tests/test_geodesic", "tests/test_examples.py"]), ("integrators", ["tests/test_integrators", "tests/test_geodesic"]),
         ("utils/dual", ["tests/test_utils", "tests/test_geodesic", "tests/test_integrators"]), ("utils", ["tests/test_utils"]), ("plotting", ["tests/test_plotting"]), ("rays", ["tests/test_plotting/test_rays"]),
         ("hypersurface", ["tests/test_hypersurface", "tests/test_plotting/test_hypersurface.py"]), ("bodies", ["tests/test_bodies.py", "tests/test_coordinates"]), ("constant", ["tests"]), ("units", ["tests"]), ("", ["tests"])]


def tests_for(f):
    return next(t for p, t in TESTS if f.startswith(p))


class Muts(ast.NodeVisitor):
    """collect (line, description, new source of the node, node)"""
    def __init__(self, src):
        self.src, self.out, self.doc = src, [], set()

    def put(self, node, new, what):
        self.out.append((node, new, what))

    def visit_FunctionDef(self, n):
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant): self.doc.add(id(b[0]))
        for k, st in enumerate(b):
            if isinstance(st, (ast.AugAssign,)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call): self.put(st, "pass", "drop statement")
        for a in n.args.defaults: self.visit(a)
        for st in b:
            if id(st) not in self.doc: self.visit(st)

    def visit_ClassDef(self, n):
        for st in n.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): continue
            self.visit(st)

    def visit_If(self, n):
        self.put(n.test, f"(not ({ast.unparse(n.test)}))", "negate condition")
        for st in n.body + n.orelse:
            if isinstance(st, (ast.AugAssign, ast.Raise)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call): self.put(st, "pass", "drop statement")
        self.generic_visit(n)

    def visit_For(self, n):
        for st in n.body:
            if isinstance(st, (ast.AugAssign,)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call): self.put(st, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Raise(self, n):
        pass

    def visit_BinOp(self, n):
        swap = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"]}
        l, r = ast.unparse(n.left), ast.unparse(n.right)
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
            for op in swap.get(type(n.op), []): self.put(n, f"(({l}) {op} ({r}))", "operator")
            if isinstance(n.op, (ast.Sub, ast.Div)): self.put(n, f"(({r}) {'-' if isinstance(n.op, ast.Sub) else '/'} ({l}))", "swap operands")
            if isinstance(n.op, (ast.Add, ast.Sub)): self.put(n, f"({l})", "drop term")
            if isinstance(n.op, (ast.Mult,)): self.put(n, f"({l})", "drop factor"); self.put(n, f"({r})", "drop factor")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)): self.put(n, f"({ast.unparse(n.operand)})", "drop unary")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
            self.put(n, f"({ast.unparse(n.left)} {m} {ast.unparse(n.comparators[0])})", "comparison")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + op.join("(%s)" % ast.unparse(v) for v in n.values) + ")", "and/or")
        self.put(n, "(%s)" % ast.unparse(n.values[0]), "drop operand")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool): self.put(n, str(not v), "constant")
        elif isinstance(v, int): self.put(n, str(v + 1), "constant"); (v > 0 and self.put(n, str(v - 1), "constant"))
        elif isinstance(v, float): self.put(n, repr(v * 1.01 if v else .01), "constant")
        elif isinstance(v, str) and v and len(v) < 20: self.put(n, repr(v + "x"), "constant")
        elif v is None: pass

    def visit_Call(self, n):
        nm = ast.unparse(n.func)
        alt = {"np.sin": "np.cos", "np.cos": "np.sin", "np.arctan2": None, "np.sqrt": "np.abs", "min": "max", "max": "min", "np.exp": "np.cosh", "sympy.sin": "sympy.cos", "sympy.cos": "sympy.sin", "sin": "cos", "cos": "sin", "np.max": "np.min"}.get(nm)
        if alt: self.put(n.func, alt, "function")
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [ast.unparse(x) for x in n.args]
            for i in range(min(2, len(a) - 1)):
                b = list(a); b[i], b[i + 1] = b[i + 1], b[i]
                if b != a: self.put(n, f"{nm}({', '.join(b + [ast.unparse(k) for k in n.keywords])})", "swap arguments")
        for k in n.keywords:
            if k.arg and len(n.keywords) > 0:
                rest = [ast.unparse(x) for x in n.args] + [ast.unparse(x) for x in n.keywords if x is not k]
                self.put(n, f"{nm}({', '.join(rest)})", f"drop keyword {k.arg}")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.visit(n.value); self.visit(n.slice)

    def visit_JoinedStr(self, n): pass

    def visit_IfExp(self, n):
        self.put(n, f"({ast.unparse(n.body)})", "first branch"); self.put(n, f"({ast.unparse(n.orelse)})", "second branch")
        self.generic_visit(n)


def mutants(f, rng):
    p = f"{REPO}/src/einsteinpy/{f}"
    src = open(p, newline="").read()
    crlf = "\r\n" in src
    s = src.replace("\r\n", "\n")
    m = Muts(s); m.visit(ast.parse(s))
    offs = [0]
    for ln in s.split("\n"): offs.append(offs[-1] + len(ln) + 1)
    out = []
    for node, new, what in m.out:
        if s.split("\n")[node.lineno - 1].isascii() is False: continue
        a, b = offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset
        old = s[a:b]
        if old == new: continue
        t = s[:a] + new + s[b:]
        try: ast.parse(t)
        except SyntaxError: continue
        out.append(dict(file=f, line=node.lineno, what=what, old=old[:160], new=new[:160], text=t.replace("\n", "\r\n") if crlf else t))
    rng.shuffle(out)
    # spread over the lines of the file
    seen, order = {}, []
    for o in out:
        seen[o["line"]] = seen.get(o["line"], 0) + 1
        order.append((seen[o["line"]], len(order), o))
    return [o for _, _, o in sorted(order, key=lambda x: x[:2])]


def main():
    outp, workers, budget, specs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    seed = os.environ.get("MUT_SEED", "1")
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    for k in range(workers):
        subprocess.run(["cp", "-a", REPO, f"{W}/r{k}"], check=True)
        os.makedirs(f"{W}/v{k}")
        subprocess.run(f"cd {V} && cp -a check harness spec java build known_findings.json MANIFEST.json {W}/v{k}/ && mkdir -p {W}/v{k}/evidence {W}/v{k}/replays", shell=True, check=True)
    done = {(json.loads(l)["file"], json.loads(l)["line"], json.loads(l)["new"], json.loads(l)["old"]) for l in open(outp)} if os.path.exists(outp) else set()
    free, lock = list(range(workers)), Lock()
    failing = {}

    def run_tests(k, f):
        env = dict(ENV, PYTHONPATH=f"{W}/r{k}/src")
        des = [x for t in failing.get(f, []) for x in ("--deselect", t)]
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-n", "3", "--timeout=60", *tests_for(f), *des], cwd=f"{W}/r{k}", env=env, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return False, "timeout"
        return r.returncode == 0, r.stdout

    def one(f, props, mu):
        with lock: k = free.pop()
        try:
            p = f"{W}/r{k}/src/einsteinpy/{f}"
            orig = open(p, newline="").read()
            open(p, "w", newline="").write(mu["text"])
            try:
                ok, o = run_tests(k, f)
                res = {x: mu[x] for x in ("file", "line", "what", "old", "new")}
                if not ok: res["tests"] = "killed"
                else:
                    res["tests"] = "survived"; res["checks"] = {}
                    env = dict(ENV, PYTHONPATH=f"{W}/r{k}/src", VERIF_REPO=f"{W}/r{k}")
                    for pr in props:
                        t0 = time.time()
                        try:
                            r = subprocess.run(["/opt/venv/bin/python", "harness/main.py", pr, "quick"], cwd=f"{W}/v{k}", env=env, capture_output=True, text=True, timeout=1500)
                            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                            # a violation line: keep what it says
                            why = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
                            res["checks"][pr] = [r.returncode, round(time.time() - t0), (v or why or [""])[-1 if not v else 0][:300]]
                            if r.returncode == 1: res["caught"] = pr; break
                        except subprocess.TimeoutExpired:
                            res["checks"][pr] = ["timeout", 1500, ""]
                with lock:
                    open(outp, "a").write(json.dumps(res) + "\n")
                    print(("K" if not ok else "CAUGHT " + res["caught"] if "caught" in res else "MISSED"), f, mu["line"], mu["what"], "|", mu["old"][:70].replace("\n", " "), "->", mu["new"][:70], flush=True)
                return ok
            finally:
                open(p, "w", newline="").write(orig)
        finally:
            with lock: free.append(k)

    for spec in specs:
        f, props = spec.split(":")
        props = props.split(",")
        ms = mutants(f, random.Random(f"{seed}:{f}"))
        ms = [m for m in ms if (f, m["line"], m["new"], m["old"]) not in done]
        print("==", f, len(ms), "changes", flush=True)
        st = dict(i=0, kept=0)

        def loop(_):
            while True:
                with lock:
                    if st["kept"] >= budget or st["i"] >= len(ms): return
                    m = ms[st["i"]]; st["i"] += 1
                if one(f, props, m):
                    with lock: st["kept"] += 1
        with ThreadPoolExecutor(workers) as ex: list(ex.map(loop, range(workers)))
        i, kept = st["i"], st["kept"]
        print("==", f, "kept", kept, "of", i, "tried", flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
