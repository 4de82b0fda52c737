"""Development aid (no check uses it): mutants of the code against the checks.

mutate.py list                 count mutants per file
mutate.py tests DIR            PER_FILE SKIP: run the stable tests on mutants, DIR/survivors.json
mutate.py checks DIR [N]       run the checks on the survivors (resumable), DIR/results.jsonl
"""
import warnings
warnings.simplefilter("ignore")
import ast, concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUTATE_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/mpl", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
COMPARE = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BINARY = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*", ast.MatMult: "*"}


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.found, self.function = text, [], 0
        self.lines = text.splitlines(keepends=True)
        self.offset = [0]
        for line in self.lines:
            self.offset.append(self.offset[-1] + len(line.encode()))
        self.bytes = text.encode()

    def at(self, line, column):
        return self.offset[line - 1] + column

    def span(self, node):
        return self.at(node.lineno, node.col_offset), self.at(node.end_lineno, node.end_col_offset)

    def source(self, node):
        a, b = self.span(node)
        return self.bytes[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.span(node)
        self.found.append((node.lineno, a, b, new, kind))

    def visit_FunctionDef(self, node):
        if node.name in ("__repr__", "__str__"):
            return
        self.function += 1
        for decorated in node.body:
            self.visit(decorated)
        for default in node.args.defaults:
            self.visit(default)
        self.function -= 1

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Compare(self, node):
        if len(node.ops) == 1 and type(node.ops[0]) in COMPARE:
            self.add(node, f"{self.source(node.left)} {COMPARE[type(node.ops[0])]} {self.source(node.comparators[0])}", "compare")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in BINARY and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            a, b = self.source(node.left), self.source(node.right)
            if not isinstance(node.left, ast.JoinedStr) and not isinstance(node.right, ast.JoinedStr):
                self.add(node, f"({a}) {BINARY[type(node.op)]} ({b})" if not isinstance(node.left, ast.BinOp) else f"(({a}) {BINARY[type(node.op)]} ({b}))", "binary")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.USub, ast.Not)):
            self.add(node, f"({self.source(node.operand)})", "unary")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        if len(node.values) == 2:
            op = "and" if isinstance(node.op, ast.Or) else "or"
            self.add(node, f"({self.source(node.values[0])} {op} {self.source(node.values[1])})", "bool")
            if isinstance(node.op, ast.Or):
                self.add(node, self.source(node.values[1]), "second of or")
        self.generic_visit(node)

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            self.add(node, str(not node.value), "constant")
        elif isinstance(node.value, (int, float)):
            self.add(node, f"({node.value} + 1)" if node.value != 1 else "2", "constant")
            if node.value not in (0, 1):
                self.add(node, "1", "constant")
            elif node.value == 1:
                self.add(node, "0", "constant")

    def visit_IfExp(self, node):
        self.add(node, f"({self.source(node.body)})", "if")
        self.add(node, f"({self.source(node.orelse)})", "else")
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, "True", "if true")
        self.add(node.test, "False", "if false")
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call) and self.function:
            text = self.source(node)
            if not any(w in text for w in ("add_argument", "super()", "print(", "tqdm.write", "logger")):
                self.add(node, "pass", "drop call")
        if not (isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)):
            self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "drop assignment")
        self.generic_visit(node)

    def visit_Call(self, node):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
        swap = {"minimum": "maximum", "maximum": "minimum", "min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin"}.get(name)
        if swap:
            a = self.source(node.func)
            self.add(node.func, a[: len(a) - len(name)] + swap, "min max")
        if name in ("abs", "absolute", "copy", "deepcopy", "array", "sqrt", "sum") and len(node.args) == 1:
            self.add(node, f"({self.source(node.args[0])})", "drop " + name)
        if name == "copy" and not node.args and isinstance(node.func, ast.Attribute):
            self.add(node, self.source(node.func.value), "drop copy")
        plain = [a for a in node.args if not isinstance(a, ast.Starred)]
        if len(plain) >= 2 and len(plain) == len(node.args) and name not in ("add_argument", "isinstance", "cast", "TypeVar"):
            a, b = node.args[0], node.args[1]
            if self.source(a) != self.source(b):
                start, end = self.span(a)[0], self.span(b)[1]
                self.found.append((node.lineno, start, end, f"{self.source(b)}, {self.source(a)}", "swap arguments"))
        if name != "add_argument" or True:
            for keyword in node.keywords:
                if keyword.arg in ("help", "description", "metavar", "desc", "title", "label"):
                    continue
                self.visit(keyword.value)
        for a in node.args:
            self.visit(a)
        self.visit(node.func)


def mutants():
    files = subprocess.run(["git", "ls-files", "*.py"], cwd=REPO, capture_output=True, text=True).stdout.split()
    result = []
    for file in files:
        if file.startswith(("test/", "benchmark/", "docs/")) or file == "defaults.py":
            continue
        text = open(os.path.join(REPO, file)).read()
        tree = ast.parse(text)
        finder = Finder(text)
        finder.visit(tree)
        seen = set()
        for line, a, b, new, kind in finder.found:
            changed = (finder.bytes[:a] + new.encode() + finder.bytes[b:]).decode()
            if changed in seen or changed == text:
                continue
            try:
                if ast.dump(ast.parse(changed)) == ast.dump(tree):
                    continue
            except SyntaxError:
                continue
            seen.add(changed)
            result.append(dict(id=f"{file}:{line}:{a}:{kind}:{new[:30]}", file=file, line=line, kind=kind, old=finder.bytes[a:b].decode(), new=new, a=a, b=b))
    return result


class Copies:
    """Reused scratch clones."""
    def __init__(self, number):
        import queue
        self.base = tempfile.mkdtemp(prefix="mutate", dir="/tmp")
        self.free = queue.Queue()
        for k in range(number):
            path = os.path.join(self.base, str(k))
            subprocess.run(["git", "clone", "-q", REPO, path], check=True)
            self.free.put(path)

    def apply(self, repo, mutant):
        path = os.path.join(repo, mutant["file"])
        original = open(os.path.join(REPO, mutant["file"])).read().encode()
        with open(path, "wb") as f:
            f.write(original[: mutant["a"]] + mutant["new"].encode() + original[mutant["b"] :])

    def restore(self, repo):
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
        subprocess.run(["git", "clean", "-fdxq"], cwd=repo, check=True)

    def close(self):
        shutil.rmtree(self.base)


def run_tests(copies, mutant):
    repo = copies.free.get()
    try:
        copies.apply(repo, mutant)
        try:
            p = subprocess.run(f"timeout 100 {PYTHON} -m pytest -q -x --maxfail=2 -p no:cacheprovider -W ignore --rootdir={repo} -o 'python_files=*_test.py' --timeout=60 --continue-on-collection-errors test", cwd=repo, env=ENV, shell=True, capture_output=True, text=True)
            out = p.stdout
        except Exception as e:
            out = str(e)
        return "243 passed" in out
    finally:
        copies.restore(repo)
        copies.free.put(repo)


def tests(directory, per_file, skip):
    os.makedirs(directory, exist_ok=True)
    copies = Copies(6)
    by_file = {}
    for m in mutants():
        by_file.setdefault(m["file"], []).append(m)
    all_mutants = []
    for file, items in by_file.items():
        random.Random(file).shuffle(items)
        all_mutants += items[skip : skip + per_file]
    with concurrent.futures.ThreadPoolExecutor(6) as pool:
        alive = list(pool.map(lambda m: run_tests(copies, m), all_mutants))
    copies.close()
    survivors = [m for m, a in zip(all_mutants, alive) if a]
    json.dump(survivors, open(os.path.join(directory, "survivors.json"), "w"), indent=1)
    print(len(all_mutants), "mutants,", len(survivors), "survive the tests")


ORDER = {
    "command/animate.py": ["C35", "C34"], "command/plot.py": ["C35", "C34"], "command/error_evolution.py": ["C28", "C34"],
    "command/parameter_variation_test.py": ["C34", "C30"], "command/calculate.py": ["C30", "C12", "C35"], "command/error.py": ["C29"],
    "command/generate_data.py": ["C27", "C30", "C14"], "command/train_network.py": ["C33"], "command/print_network.py": ["C31", "C33"],
    "command/delete_curvature.py": ["C32"], "command/analyze_curvature.py": ["C32"], "command/analyze_data.py": ["C32"],
    "command/help.py": ["C30"], "command/command.py": ["C30"], "parser.py": ["C30"], "main.py": ["C30"],
    "core/boundary.py": ["C25", "C10", "C01", "C38"], "core/discrete_solution.py": ["C19", "C16", "C14", "C28", "C35"],
    "core/interpolate.py": ["C23", "C17", "C28", "C35"], "core/norm.py": ["C20", "C22", "C29", "C28"], "core/quadrature.py": ["C22", "C20", "C29"],
    "core/mesh.py": ["C18", "C17"], "core/ode_solver.py": ["C11", "C13"], "core/time_stepping.py": ["C12", "C13"], "core/system.py": ["C24", "C21"],
    "core/local_bounds.py": ["C24", "C04"], "core/index_mapping.py": ["C24"], "core/riemann_solver.py": ["C36", "C37"], "core/vector_coarsener.py": ["C27", "C24", "C38"],
    "core/solver.py": ["C30", "C14", "C12"], "core/benchmark.py": ["C25"], "core/space.py": ["C17", "C18"], "core/type.py": ["C30"],
}
COST = {"C12": 1, "C18": 1, "C24": 1, "C25": 1, "C36": 2, "C17": 2, "C19": 2, "C04": 7, "C10": 4, "C26": 4, "C08": 5, "C11": 5, "C27": 7, "C16": 7, "C37": 6, "C22": 7, "C21": 8, "C02": 9, "C28": 9, "C30": 12, "C33": 12, "C23": 12, "C31": 17, "C05": 17, "C32": 18, "C20": 18, "C39": 19, "C01": 20, "C03": 20, "C09": 25, "C07": 25, "C38": 26, "C15": 31, "C29": 35, "C06": 35, "C13": 35, "C14": 46, "C35": 46, "C34": 56}


def order(file):
    first = ORDER.get(file, [])
    if file.startswith("finite_element"):
        rest = ["C39", "C21", "C02", "C22", "C05", "C17", "C20", "C23", "C08", "C12", "C03", "C30", "C16", "C15", "C29", "C14", "C13", "C35"]
    elif file.startswith("finite_volume/scalar"):
        rest = ["C37", "C04", "C01", "C36", "C08", "C12", "C30", "C25", "C13", "C15", "C14", "C29"]
    elif file.startswith("finite_volume/shallow_water"):
        rest = ["C38", "C36", "C10", "C31", "C27", "C12", "C30", "C01", "C03", "C07", "C09", "C06", "C15", "C13", "C14", "C33"]
    elif file.startswith("finite_volume"):
        rest = ["C24", "C17", "C37", "C38", "C25", "C10", "C27", "C01", "C31", "C23", "C16", "C12", "C30", "C14", "C15", "C13"]
    elif file.startswith("core"):
        rest = sorted(COST, key=COST.get)
    else:
        rest = ["C30", "C12", "C27", "C28", "C33", "C32", "C29", "C35", "C34"]
    return first + [c for c in rest if c not in first]


LIMIT = int(os.environ.get("LIMIT", "7"))


def checks(directory, number=None, every=False):
    survivors = json.load(open(os.path.join(directory, "survivors.json")))
    random.Random(0).shuffle(survivors)
    path = os.path.join(directory, "results.jsonl")
    done = {json.loads(l)["id"] for l in open(path)} if os.path.exists(path) else set()
    copies = Copies(1)
    repo = copies.free.get()
    count = 0
    for m in survivors:
        if m["id"] in done:
            continue
        if number and count >= number:
            break
        count += 1
        copies.apply(repo, m)
        killed, log, start = None, [], time.time()
        for c in order(m["file"])[:LIMIT]:
            env = dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", MC_FAILFAST="1", MC_EVIDENCE=os.path.join(directory, "evidence"))
            try:
                p = subprocess.run([os.path.join(HERE, "check"), c, "quick"], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                log.append((c, "timeout"))
                continue
            if p.returncode == 1 and "VIOLATION" in p.stdout:
                killed = c
                break
            if p.returncode:
                log.append((c, p.returncode, (p.stdout + p.stderr)[-400:]))
        copies.restore(repo)
        with open(path, "a") as f:
            f.write(json.dumps(dict(m, killed=killed, log=log, wall=round(time.time() - start, 1))) + "\n")
        print(f"{killed or 'SURVIVES'} {time.time() - start:.0f}s {m['id']} [{m['old'][:50]!r}] {log}", flush=True)
    copies.close()


if __name__ == "__main__":
    if sys.argv[1] == "list":
        count = {}
        for m in mutants():
            count[m["file"]] = count.get(m["file"], 0) + 1
        for file, n in count.items():
            print(n, file)
        print(sum(count.values()))
    elif sys.argv[1] == "tests":
        tests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        checks(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else None)
