"""Parses the current source of /repo/pytiled_parser (never imports or runs it)."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "pytiled_parser"


class Broken(Exception):
    """The analysis cannot be carried out (vanished anchor, unparsable source)."""


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}   # dotted -> (ast, relpath, ispkg)
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise Broken("package directory %s not found" % root)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                full = os.path.join(d, f)
                rel = os.path.relpath(full, self.repo)
                parts = rel[:-3].split(os.sep)
                ispkg = parts[-1] == "__init__"
                if ispkg:
                    parts = parts[:-1]
                with open(full, encoding="utf-8") as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, rel)
                except SyntaxError as e:
                    raise Broken("%s does not parse: %s" % (rel, e))
                self.modules[".".join(parts)] = (tree, rel, ispkg)

    def stats(self):
        fns = calls = stmts = 0
        for tree, _, _ in self.modules.values():
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fns += 1
                elif isinstance(n, ast.Call):
                    calls += 1
                if isinstance(n, ast.stmt):
                    stmts += 1
        return {"modules": len(self.modules), "functions": fns, "call_sites": calls, "statements": stmts}
