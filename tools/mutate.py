"""
mutate.py OUT.jsonl FILE... [--sample N]: systematic small changes (one per mutant) to the given files of vistautils.

Each mutant which passes the existing tests is run against the quick checks of the properties whose executions
reach the changed line (in a shortened form), until one reports it. OUT gets one line per mutant which passes the
tests; those with "caught": null survived: they are equivalent, or show a blind spot.
Needs lines.json (see `reach` below). Not part of any check; the tests run as an unprivileged user.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import threading
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PYTHON = "/opt/venv/bin/python"
STRIP = {"sorted", "reversed", "list", "tuple", "set", "immutableset", "str", "int", "frozenset", "dict", "Path",
         "pathify", "deepcopy", "copy", "bool", "abs"}
STRIP_METHODS = {"strip", "rstrip", "lstrip", "lower", "upper", "absolute", "resolve", "copy", "items", "expanduser"}
SWAP_NAMES = {"min": "max", "max": "min", "any": "all", "all": "any"}
COMPARE = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
           ast.Is: ["is not", "=="], ast.IsNot: ["is", "!="], ast.In: ["not in"], ast.NotIn: ["in"]}


class Finder(ast.NodeVisitor):
    def __init__(self, source, name):
        self.name = name
        self.source = source
        self.lines = source.split("\n")
        starts, at = [], 0
        for line in source.encode().split(b"\n"):
            starts.append(at)
            at += len(line) + 1
        self.starts = starts
        self.data = source.encode()
        self.found = []
        self.depth = 0

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def text(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode()

    def add(self, node, new, what):
        a, b = self.span(node)
        old = self.data[a:b].decode()
        if old != new:
            self.found.append((a, b, new, what, node.lineno))

    # --- structure

    def visit_FunctionDef(self, node):
        if node.name == "__repr__" and "range.py" not in self.name:
            return
        self.depth += 1
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for default in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(default)
        for statement in body:
            self.visit(statement)
        self.depth -= 1

    def visit_ClassDef(self, node):
        for statement in node.body:
            if not (isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant)):
                self.visit(statement)

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_Raise(self, node):
        if "NotImplementedError" in self.text(node):
            return
        self.add(node, "pass", "raise removed")

    def visit_Assert(self, node):
        pass

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        if self.depth and not isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            self.add(node, "pass", "statement removed")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.depth and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
            self.add(node, "pass", "assignment removed")
        self.visit(node.value)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "assignment removed")
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.add(node, "return None", "returns nothing")
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, "break", "continue -> break")

    def visit_Break(self, node):
        self.add(node, "pass", "break removed")

    def visit_If(self, node):
        self.add(node.test, f"(not ({self.text(node.test)}))", "condition negated")
        self.add(node.test, "True", "condition true")
        self.add(node.test, "False", "condition false")
        self.generic_visit(node)

    def visit_While(self, node):
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, f"({self.text(node.body)})", "then only")
        self.add(node, f"({self.text(node.orelse)})", "else only")
        self.generic_visit(node)

    def visit_Try(self, node):
        for handler in node.handlers:
            if handler.type is not None:
                self.add(handler.type, "ArithmeticError", "handler never entered")
        if node.finalbody:
            for s in node.finalbody:
                self.add(s, "pass", "finally statement removed")
        self.generic_visit(node)

    def visit_comprehension(self, node):
        for test in node.ifs:
            self.add(test, "True", "filter removed")
        self.generic_visit(node)

    # --- expressions

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            left, right = self.text(node.left), self.text(node.comparators[0])
            for new in COMPARE.get(type(node.ops[0]), []):
                self.add(node, f"({left} {new} {right})", "comparison")
        else:
            operands = [node.left] + node.comparators
            for i, op in enumerate(node.ops):
                one = f"{self.text(operands[i])} {op_text(op)} {self.text(operands[i + 1])}"
                rest = [f"{self.text(operands[j])} {op_text(o)} {self.text(operands[j + 1])}"
                        for j, o in enumerate(node.ops) if j != i]
                self.add(node, "(" + " and ".join(rest) + ")", "part of comparison removed: " + one)
                for new in COMPARE.get(type(op), [])[:1]:
                    changed = f"{self.text(operands[i])} {new} {self.text(operands[i + 1])}"
                    self.add(node, "(" + " and ".join([changed] + rest) + ")", "comparison")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        values = [self.text(v) for v in node.values]
        word = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, "(" + word.join(f"({v})" for v in values) + ")", "and/or")
        same = " and " if isinstance(node.op, ast.And) else " or "
        for i in range(len(values)):
            self.add(node, "(" + same.join(values[:i] + values[i + 1:]) + ")", "operand removed")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, f"({self.text(node.operand)})", "operator removed")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Mod: "+", ast.Div: "*", ast.FloorDiv: "/", ast.BitOr: "&",
               ast.BitAnd: "|"}.get(type(node.op))
        if new:
            self.add(node, f"({self.text(node.left)} {new} {self.text(node.right)})", "operator")
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), "constant")
        elif isinstance(v, int):
            self.add(node, str(v + 1), "constant")
            self.add(node, str(v - 1), "constant")
        elif isinstance(v, (str, bytes)) and self.depth:
            if v:
                self.add(node, repr(v + ("X" if isinstance(v, str) else b"X")), "text")
                self.add(node, repr(v[:0]), "text")
            else:
                self.add(node, repr("X" if isinstance(v, str) else b"X"), "text")

    def visit_JoinedStr(self, node):
        pass

    def visit_Name(self, node):
        if node.id in SWAP_NAMES:
            self.add(node, SWAP_NAMES[node.id], "swapped")

    def visit_Lambda(self, node):
        self.visit(node.body)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice) and self.depth:
            self.add(node, self.text(node.value), "slice removed")

    def visit_Call(self, node):
        if self.text(node.func).startswith(("check_", "logging.", "logger.", "_logger.", "print", "warnings.")):
            for argument in node.args:
                if not isinstance(argument, (ast.Constant, ast.BinOp, ast.JoinedStr)):
                    self.visit(argument)
            return
        name = node.func.id if isinstance(node.func, ast.Name) else None
        if name in STRIP and len(node.args) == 1:
            self.add(node, f"({self.text(node.args[0])})", "call removed")
        if isinstance(node.func, ast.Attribute) and node.func.attr in STRIP_METHODS:
            self.add(node, f"({self.text(node.func.value)})", "call removed")
        if node.keywords and name not in ("attrib", "attrs", "TypeVar"):
            for kw in node.keywords:
                rest = [self.text(a) for a in node.args] + [self.text(k) for k in node.keywords if k is not kw]
                self.add(node, f"{self.text(node.func)}({', '.join(rest)})", f"argument {kw.arg} removed")
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            rest = [self.text(a) for a in node.args[:-1]] + [self.text(k) for k in node.keywords]
            self.add(node, f"{self.text(node.func)}({', '.join(rest)})", "last argument removed")
            swapped = [self.text(a) for a in [node.args[1], node.args[0]] + node.args[2:]] + [self.text(k) for k in node.keywords]
            self.add(node, f"{self.text(node.func)}({', '.join(swapped)})", "arguments swapped")
        self.generic_visit(node)


def op_text(op):
    return {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
            ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(op)]


def mutants(path):
    source = path.read_text()
    finder = Finder(source, path.name)
    finder.visit(ast.parse(source))
    data = source.encode()
    for a, b, new, what, line in finder.found:
        text = (data[:a] + new.encode() + data[b:]).decode()
        try:
            compile(text, str(path), "exec")
        except (SyntaxError, ValueError):
            continue
        yield {"line": line, "what": what, "old": data[a:b].decode(), "new": new}, text


def reach(where):
    """Property -> file -> lines of the files its executions reach, measured once."""
    def one(number):
        prop = f"C{number:02}"
        out = Path(where) / f"{prop}.json"
        subprocess.run([sys.executable, str(VERIF / "run.py"), "check", prop],
                       env={**os.environ, "VMON_DUMP_LINES": str(out), "VMON_WORKERS": "2"}, stdout=subprocess.DEVNULL, timeout=900)
        return prop, json.loads(out.read_text())
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        return dict(pool.map(one, range(1, 30)))


HOME = {"range": "C01 C02 C03 C04 C05 C06", "span": "C07 C08 C09", "annotated_text_utils": "C09", "io_utils": "C10 C11 C13 C25",
        "key_value": "C12 C13 C14 C11", "parameters": "C17 C18 C19 C20 C21 C22 C23 C24 C25", "_graph": "C21 C20"}
local = threading.local()
counter = iter(range(100))
lock = threading.Lock()


def workspace():
    if not hasattr(local, "repo"):
        with lock:
            n = next(counter)
        local.base = Path(f"/tmp/mutate.{os.getpid()}.{n}")
        local.base.mkdir()
        local.repo = local.base / "repo"
        subprocess.run(["cp", "-a", "/repo", str(local.repo)], check=True)
        local.tmp = local.base / "tmp"
        local.tmp.mkdir()
        os.chmod(local.base, 0o755)
        os.chmod(local.tmp, 0o777)
    return local.repo


def run(command, timeout, **env):
    try:
        return subprocess.run(command, cwd=local.repo, env={**os.environ, **env}, timeout=timeout, stdin=subprocess.DEVNULL,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return None


def examine(file, mutant, text, props):
    repo = workspace()
    target = repo / "vistautils" / file
    original = Path("/repo/vistautils") / file
    target.write_text(text)
    try:
        tests = run(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "timeout", "-k", "5", "60", PYTHON, "-B", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider",
                     "tests", "--deselect", "tests/test_range_map.py::TestRangeMap::test_pickling"], 90,
                    TMPDIR=str(local.tmp), PYTHONPATH=str(repo), HOME=str(local.tmp))
        if tests is None or tests.returncode:
            return None
        ret = {"file": file, **mutant, "ran": props, "caught": None}
        for prop in props:
            check = run(["timeout", "-k", "5", "300", sys.executable, str(VERIF / "run.py"), "check", prop], 320,
                        VMON_REPO=str(repo), VMON_WORKERS="1", VMON_QUICK_BUDGET=os.environ.get("BUDGET", "10"))
            if check is not None and check.returncode == 1 and f"VIOLATION property={prop}" in check.stdout:
                ret["caught"] = prop
                break
        return ret
    finally:
        shutil.copyfile(original, target)
        subprocess.run(f"rm -rf {local.tmp}/*", shell=True, check=False)


def main():
    arguments = sys.argv[1:]
    sample = None
    if "--sample" in arguments:
        i = arguments.index("--sample")
        sample = int(arguments[i + 1])
        del arguments[i:i + 2]
    out = Path(arguments[0])
    lines_file = Path("/tmp/lines.json")
    if not lines_file.exists():
        where = Path("/tmp/lines.d")
        where.mkdir(exist_ok=True)
        lines_file.write_text(json.dumps(reach(where)))
    lines = json.loads(lines_file.read_text())
    todo = []
    for file in arguments[1:]:
        some = list(mutants(Path("/repo/vistautils") / file))
        if sample and len(some) > sample:
            some = random.Random(1).sample(some, sample)
        home = HOME.get(Path(file).stem, "").split()
        for mutant, text in some:
            reaching = [p for p in sorted(lines) if mutant["line"] in lines[p].get("vistautils/" + file, ())]
            props = [p for p in home if p in reaching] + [p for p in reaching if p not in home]
            if not props:  # module or class level
                props = home or [p for p in sorted(lines) if lines[p].get("vistautils/" + file)]
            todo.append((file, mutant, text, props[:6]))
    random.Random(2).shuffle(todo)
    done = {}
    if out.exists():
        for line in out.read_text().splitlines():
            done[line] = 1
    print(len(todo), "mutants", flush=True)
    survivors = passed = 0
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as pool, open(out, "a") as sink:
        for n, ret in enumerate(pool.map(lambda t: examine(*t), todo)):
            if ret:
                passed += 1
                survivors += ret["caught"] is None
                sink.write(json.dumps(ret) + "\n")
                sink.flush()
            if n % 50 == 0:
                print(n, passed, survivors, flush=True)
    print("DONE", len(todo), passed, survivors)
    subprocess.run(f"rm -rf /tmp/mutate.{os.getpid()}.*", shell=True, check=False)


main()
