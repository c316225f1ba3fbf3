"""Systematic mutants of the package, to find behaviour that neither the tests nor the checks see.

usage: mutate.py list            number of mutants per file
       mutate.py tests OUT       run the tests on every mutant, write those that pass to OUT (json)
       mutate.py checks IN OUT ids...  run checks on every mutant of IN until one reports it

Works on copies below /tmp/mutc, never on /repo."""
import ast
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path("/repo")
BASE = Path("/tmp/mutc")
SKIP = ("tests", "_version.py", "log.py")
ENV = dict(os.environ, GIT_CONFIG_COUNT="3", GIT_CONFIG_KEY_0="init.defaultBranch",
           GIT_CONFIG_VALUE_0="main", GIT_CONFIG_KEY_1="user.email",
           GIT_CONFIG_VALUE_1="test.action@example.com", GIT_CONFIG_KEY_2="user.name",
           GIT_CONFIG_VALUE_2="Test Action", PYTHONDONTWRITEBYTECODE="1")


class Collect(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.found, self.where = text, [], []

    def segment(self, node):
        return ast.get_source_segment(self.text, node)

    def add(self, node, new, what):
        old = self.segment(node)
        if old is not None and old != new:
            self.found.append((node.lineno, node.col_offset, node.end_lineno,
                               node.end_col_offset, new, what))

    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        for child in node.body:
            self.visit(child)
        self.where.pop()

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_Assert(self, node):
        pass

    def visit_Raise(self, node):
        self.add(node, "pass", "no raise")

    def visit_JoinedStr(self, node):
        pass

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        text = self.segment(node)
        if text.startswith("logger."):
            return
        if not isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            self.add(node, "pass", "no statement")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.where:
            self.add(node, "pass", "no assignment")
        self.visit(node.value)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "no assignment")

    def visit_Delete(self, node):
        self.add(node, "pass", "no delete")

    def visit_Return(self, node):
        if node.value is not None:
            if not (isinstance(node.value, ast.Constant) and node.value.value is None):
                self.add(node.value, "None", "return None")
            self.visit(node.value)

    def visit_If(self, node):
        self.add(node.test, f"not ({self.segment(node.test)})", "negate")
        self.add(node.test, "True", "if True")
        self.add(node.test, "False", "if False")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, self.segment(node.body), "body")
        self.add(node, self.segment(node.orelse), "orelse")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for i, value in enumerate(node.values):
            rest = [v for v in node.values if v is not value]
            op = " and " if isinstance(node.op, ast.And) else " or "
            self.add(node, "(" + op.join(f"({self.segment(v)})" for v in rest) + ")", "drop operand")
        self.generic_visit(node)

    def visit_Compare(self, node):
        swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
                ast.NotIn: "in", ast.Gt: ">=", ast.GtE: ">", ast.Lt: "<=", ast.LtE: "<"}
        if len(node.ops) == 1:
            new = swap[type(node.ops[0])]
            self.add(node, f"({self.segment(node.left)} {new} {self.segment(node.comparators[0])})",
                     "compare")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, self.segment(node.operand), "no not")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        self.add(node, self.segment(node.left), "left")
        self.add(node, self.segment(node.right), "right")
        self.generic_visit(node)

    def visit_Constant(self, node):
        value = node.value
        if isinstance(value, bool):
            self.add(node, repr(not value), "constant")
        elif isinstance(value, int):
            self.add(node, repr(value + 1), "constant")
            if value:
                self.add(node, repr(value - 1), "constant")
        elif isinstance(value, str):
            self.add(node, repr(value + "x"), "constant")
            if value:
                self.add(node, "''", "constant")
        elif isinstance(value, bytes):
            self.add(node, repr(value + b"x"), "constant")

    def visit_Call(self, node):
        text = self.segment(node)
        if text.startswith(("logger.", "isinstance(", "super().__init__", "cast(")):
            return
        args = node.args
        name = self.segment(node.func)
        keywords = [f"{k.arg}={self.segment(k.value)}" if k.arg else "**" + self.segment(k.value)
                    for k in node.keywords]
        texts = [self.segment(a) for a in args]
        for i in range(len(args) - 1):
            new = texts[:i] + [texts[i + 1], texts[i]] + texts[i + 2:]
            self.add(node, f"{name}({', '.join(new + keywords)})", "swap arguments")
        for i in range(len(args)):
            if texts[i] != "None":
                self.add(node, f"{name}({', '.join(texts[:i] + ['None'] + texts[i + 1:] + keywords)})",
                         "argument None")
        if args and not keywords:
            self.add(node, f"{name}({', '.join(texts[:-1])})", "drop last argument")
        for i in range(len(keywords)):
            self.add(node, f"{name}({', '.join(texts + keywords[:i] + keywords[i + 1:])})",
                     "drop keyword")
        if isinstance(node.func, ast.Attribute) and not args and not keywords:
            self.add(node, self.segment(node.func.value), "drop call")
        self.generic_visit(node)

    def visit_Try(self, node):
        for handler in node.handlers:
            if handler.type is not None:
                self.add(handler.type, "ZeroDivisionError", "no handler")
        self.generic_visit(node)

    def visit_comprehension(self, node):
        for test in node.ifs:
            self.add(test, "True", "no filter")
        self.generic_visit(node)

    def visit_GeneratorExp(self, node):
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, "pass", "no break")

    def visit_Continue(self, node):
        self.add(node, "pass", "no continue")


def mutants():
    result = []
    for path in sorted((REPO / "dataladmetadatamodel").rglob("*.py")):
        relative = str(path.relative_to(REPO))
        if any(part in SKIP for part in path.parts):
            continue
        text = path.read_text()
        collect = Collect(text)
        collect.visit(ast.parse(text))
        lines = text.split("\n")
        for sl, sc, el, ec, new, what in collect.found:
            start = sum(len(x) + 1 for x in lines[:sl - 1]) + len(
                lines[sl - 1].encode()[:sc].decode())
            end = sum(len(x) + 1 for x in lines[:el - 1]) + len(
                lines[el - 1].encode()[:ec].decode())
            mutated = text[:start] + new + text[end:]
            try:
                compile(mutated, relative, "exec")
            except SyntaxError:
                continue
            result.append({"id": len(result), "file": relative, "line": sl, "what": what,
                           "old": text[start:end], "new": new, "start": start, "end": end})
    return result


def tree(worker):
    path = BASE / f"w{worker}"
    if not path.exists():
        path.mkdir(parents=True)
        shutil.copytree(REPO / "dataladmetadatamodel", path / "repo" / "dataladmetadatamodel")
    return path


def apply(path, mutant):
    target = path / "repo" / mutant["file"]
    original = (REPO / mutant["file"]).read_text()
    target.write_text(original[:mutant["start"]] + mutant["new"] + original[mutant["end"]:])
    return target, original


def parallel(items, function, workers):
    import queue
    free = queue.Queue()
    for i in range(workers):
        free.put(i)

    def one(item):
        worker = free.get()
        try:
            path = tree(worker)
            target, original = apply(path, item)
            try:
                return function(path, item)
            finally:
                target.write_text(original)
        finally:
            free.put(worker)
    with ThreadPoolExecutor(workers) as pool:
        yield from zip(items, pool.map(one, items))


def tests(path, mutant):
    repo = path / "repo"
    env = dict(ENV, PYTHONPATH=str(repo), XDG_CACHE_HOME=str(path / "cache"), HOME=str(path),
               TMPDIR=str(path))
    try:
        result = subprocess.run(
            ["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
             "no:cacheprovider", "dataladmetadatamodel",
             "--ignore=dataladmetadatamodel/tests/test_remote.py",
             "--ignore=dataladmetadatamodel/mapper/gitmapper/tests/test_localcache.py"],
            cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        for entry in path.iterdir():
            if entry.name != "repo":
                shutil.rmtree(entry) if entry.is_dir() else entry.unlink()
    return result.returncode


def main():
    command = sys.argv[1]
    if command == "list":
        counts = {}
        for mutant in mutants():
            counts[mutant["file"]] = counts.get(mutant["file"], 0) + 1
        print(sum(counts.values()), counts)
    elif command == "tests":
        start = int(os.environ.get("START", "0"))
        passed = json.loads(Path(sys.argv[2]).read_text()) if start else []
        for mutant, code in parallel(mutants()[start:], tests, int(os.environ.get("WORKERS", "6"))):
            if code == 0:
                passed.append(mutant)
                Path(sys.argv[2]).write_text(json.dumps(passed, indent=1))
    elif command == "checks":
        done = []
        items = json.loads(Path(sys.argv[2]).read_text())
        ids = sys.argv[4:]
        path = tree("c")
        for mutant in items:
            target, original = apply(path, mutant)
            killed = {}
            for check in ids:
                result = subprocess.run(
                    ["timeout", "900", "./run.sh", check], cwd="/verif",
                    env=dict(os.environ, VERIF_REPO=str(path / "repo")),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if result.returncode != 0:
                    killed[check] = result.returncode
                    if result.returncode == 1 and not os.environ.get("ALL"):
                        break
            target.write_text(original)
            done.append(dict(mutant, killed=killed))
            Path(sys.argv[3]).write_text(json.dumps(done, indent=1))
            print(mutant["id"], mutant["file"], mutant["line"], mutant["what"], killed, flush=True)


if __name__ == "__main__":
    main()
