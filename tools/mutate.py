"""tools/mutate.py OUT N SEED [files...]: random AST mutants of /repo sources, each judged by the checks of its file; survivors are listed for inspection.
Scratch copies live under /tmp and are removed."""
import ast, sys, os, random, subprocess, shutil, json, re
from concurrent.futures import ThreadPoolExecutor
MAP = {
 "jVMC/mpi_wrapper.py": "C01 C02 C03 C04 C05", "jVMC/stats.py": "C03 C02 C15", "jVMC/sampler.py": "C04 C05 C06 C20", "jVMC/vqs.py": "C10 C09 C12 C20",
 "jVMC/operator/base.py": "C08 C07", "jVMC/operator/branch_free.py": "C07 C08", "jVMC/operator/povm.py": "C13 C14",
 "jVMC/util/output_manager.py": "C17", "jVMC/util/stepper.py": "C16", "jVMC/util/tdvp.py": "C15", "jVMC/util/minsr.py": "C15", "jVMC/util/symmetries.py": "C11", "jVMC/util/util.py": "C19",
 "jVMC/nets/cnn.py": "C18", "jVMC/nets/ffn.py": "C18", "jVMC/nets/rbm.py": "C18", "jVMC/nets/activation_functions.py": "C18 C19", "jVMC/nets/initializers.py": "C18",
 "jVMC/nets/rnn1d_general.py": "C12", "jVMC/nets/rnn2d_general.py": "C12", "jVMC/nets/sym_wrapper.py": "C11", "jVMC/nets/two_nets_wrapper.py": "C12 C18", "jVMC/global_defs.py": "C02 C03",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*", ast.MatMult: None}


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.starts = [0]
        for l in src.encode().splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(l))
        self.b = src.encode()

    def sp(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def txt(self, n):
        a, b = self.sp(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.sp(n)
        self.out.append((a, b, new, "%s L%d %s: %s -> %s" % (".".join(self.fn), n.lineno, what, self.txt(n)[:70].replace("\n", " "), new[:70].replace("\n", " "))))

    def body(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if self.fn and isinstance(s, (ast.AugAssign,)) or (self.fn and isinstance(s, ast.Expr)) or (self.fn and isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript))):
                if "print(" not in self.txt(s):
                    self.add(s, "pass", "drop")
            if self.fn and isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == s.targets[0].id for x in ast.walk(s.value)):
                self.add(s, "pass", "drop")
            self.visit(s)

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                if v and all(isinstance(x, ast.stmt) for x in v):
                    self.body(v)
                else:
                    for x in v:
                        if isinstance(x, ast.AST):
                            self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.body(n.body)
        self.fn.pop()

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        self.body(n.body)
        self.fn.pop()

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            return
        self.add(n.test, "not (%s)" % self.txt(n.test), "negate")
        self.generic_visit(n)

    def visit_Raise(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.add(n, "%s %s %s" % (self.txt(n.left), CMP[type(n.ops[0])], self.txt(n.comparators[0])), "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        o = BIN.get(type(n.op))
        if o and not isinstance(n.left, ast.Constant) or o and not isinstance(getattr(n.left, "value", 0), str):
            self.add(n, "((%s) %s (%s))" % (self.txt(n.left), o, self.txt(n.right)), "bin")
        if isinstance(n.op, (ast.Sub, ast.MatMult, ast.FloorDiv)):
            self.add(n, "((%s) %s (%s))" % (self.txt(n.right), {"Sub": "-", "MatMult": "@", "FloorDiv": "//"}[type(n.op).__name__], self.txt(n.left)), "swap")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const")
            if v > 0:
                self.add(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.25 if v else 0.5), "const")

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            self.add(n, "(%s)" % self.txt(n.operand), "neg")
        if isinstance(n.op, ast.Not):
            self.add(n, "(%s)" % self.txt(n.operand), "not")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.txt(n.func)
        last = f.split(".")[-1]
        if last in ("conj", "conjugate", "real", "abs", "sort", "copy", "deepcopy", "transpose", "ravel", "exp", "log", "sqrt", "max", "min"):
            arg = n.args[0] if n.args else (n.func.value if isinstance(n.func, ast.Attribute) else None)
            if arg is not None and not (isinstance(arg, ast.Name) and arg.id in ("jnp", "np")):
                self.add(n, "(%s)" % self.txt(arg), "unwrap")
        sw = {"real": "imag", "imag": "real", "max": "min", "min": "max", "sum": "mean", "mean": "sum", "ones": "zeros", "zeros": "ones", "sin": "cos", "cos": "sin", "floor": "ceil", "cosh": "sinh", "argmin": "argmax"}
        if last in sw and "." in f:
            self.add(n.func, f[:-len(last)] + sw[last], "func")
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1:
                t = self.txt(n)
                kt = "%s=%s" % (k.arg, self.txt(k.value))
                if kt in t:
                    new = re.sub(r",\s*" + re.escape(kt), "", t, count=1)
                    if new != t:
                        self.add(n, new, "dropkw " + k.arg)
        if len(n.args) == 2 and not n.keywords and last not in ("getattr", "isinstance", "reshape", "range", "hasattr"):
            self.add(n, "%s(%s, %s)" % (f, self.txt(n.args[1]), self.txt(n.args[0])), "argswap")
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr == "T" and self.txt(n).endswith(".T"):
            self.add(n, self.txt(n.value), "noT")
        self.generic_visit(n)

    def visit_Slice(self, n):
        self.generic_visit(n)


def main():
    outp, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(MAP)
    rnd = random.Random(seed)
    jobs = []
    for f in files:
        src = open("/repo/" + f).read()
        s = Sites(src)
        s.visit(ast.parse(src))
        ms = s.out[:]
        rnd.shuffle(ms)
        k = 0
        for m in ms:
            if k >= N:
                break
            new = (s.b[:m[0]] + m[2].encode() + s.b[m[1]:]).decode()
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            jobs.append((f, new, m[3]))
            k += 1
        print(f, len(ms), "sites,", k, "taken", flush=True)
    rnd.shuffle(jobs)
    log = open(outp, "a")

    def do(j):
        i, (f, new, what) = j
        w = "/tmp/mut_%d_%d" % (seed, i)
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", w])
        open(os.path.join(w, f), "w").write(new)
        res = []
        for c in MAP[f].split():
            try:
                r = subprocess.run("VP_REPO=%s VP_REPLAY_DIR=%s timeout 900 python3 run_check.py %s quick 2>&1 | tail -60" % (w, w, c), shell=True, capture_output=True, text=True, cwd=os.environ.get("MUT_VERIF", "/verif"))
                o = r.stdout
            except Exception as e:
                o = str(e)
            if "VIOLATION" in o:
                res.append(c + (":symbolic-only" if "no-failing-input-found" in o else ":caught"))
                if "no-failing" not in o:
                    break
            elif "obligations," in o:
                m = re.search(r"(\d+) undecided", o)
                res.append(c + ":quiet" + ("(und %s)" % m.group(1) if m and m.group(1) != "0" else ""))
            else:
                res.append(c + ":NOANSWER " + o[-300:].replace("\n", " | "))
        shutil.rmtree(w, ignore_errors=True)
        st = "CAUGHT" if any("caught" in x for x in res) else "SYMONLY" if any("symbolic-only" in x for x in res) else "SURVIVED"
        log.write("%s %s %s [%s]\n" % (st, f, what, " ".join(res)))
        log.flush()
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "6"))) as ex:
        list(ex.map(do, enumerate(jobs)))
    log.write("END\n")


main()
