"""Reads the current source of /repo/sandfs: the verified text is exactly these ASTs."""
import ast
import os

REPO = os.environ.get("SANDFS_REPO", "/repo")
MODULES = ("exceptions", "hooks", "integrations", "policies", "providers", "search", "nodes", "adapters",
           "vfs", "pyexec", "shell_parser", "shell")

BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "RuntimeError": "Exception", "ValueError": "Exception",
    "KeyError": "LookupError", "LookupError": "Exception", "IndexError": "LookupError",
    "TypeError": "Exception", "AttributeError": "Exception", "OSError": "Exception",
    "FileNotFoundError": "OSError", "UnicodeDecodeError": "ValueError", "UnicodeError": "ValueError",
    "StopIteration": "Exception", "NotImplementedError": "RuntimeError", "AssertionError": "Exception",
    "RecursionError": "RuntimeError", "PermissionError": "OSError", "IsADirectoryError": "OSError",
    "FileExistsError": "OSError", "NotADirectoryError": "OSError", "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
}


class Cls:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = [b.id if isinstance(b, ast.Name) else b.attr for b in node.bases
                      if isinstance(b, (ast.Name, ast.Attribute))]
        self.dataclass = any("dataclass" in ast.dump(d) for d in node.decorator_list)
        self.methods, self.fields = {}, []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.fields.append((s.target.id, s.value, s.annotation))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.fields.append((t.id, s.value, None))


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.classes, self.funcs, self.consts, self.names, self.text = {}, {}, {}, {}, {}
        top = os.path.join(self.repo, "sandfs")
        mods = [m for m in MODULES if os.path.exists(os.path.join(top, m + ".py"))]
        mods += sorted(f[:-3] for f in os.listdir(top)
                       if f.endswith(".py") and f[:-3] not in mods and f not in ("__init__.py", "cli.py"))
        for m in mods:
            with open(os.path.join(top, m + ".py")) as f:
                text = f.read()
            self.text[m] = text
            tree = ast.parse(text)
            env = self.names[m] = {}
            for s in self._stmts(tree.body):
                if isinstance(s, ast.ClassDef):
                    self.classes[s.name] = Cls(s.name, m, s)
                    env[s.name] = ("class", s.name)
                elif isinstance(s, ast.FunctionDef):
                    self.funcs[(m, s.name)] = s
                    env[s.name] = ("func", m, s.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            env[t.id] = ("const", m, s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    env[s.target.id] = ("const", m, s.value)
                elif isinstance(s, ast.ImportFrom):
                    for al in s.names:
                        env[al.asname or al.name] = ("from", (s.module or ""), al.name, s.level)
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        env[al.asname or al.name] = ("module", al.name)

    @staticmethod
    def _stmts(body):
        for s in body:
            if isinstance(s, ast.If):
                yield from Program._stmts(s.body)
                yield from Program._stmts(s.orelse)
            elif isinstance(s, ast.Try):
                yield from Program._stmts(s.body)
            else:
                yield s

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            if c in self.classes:
                todo += self.classes[c].bases
            elif BUILTIN_EXC.get(c):
                todo.append(BUILTIN_EXC[c])
        return out

    def subclass(self, c, d):
        return d in self.mro(c) or d == "object"

    def find_method(self, cls, name):
        for c in self.mro(cls):
            k = self.classes.get(c)
            if k and name in k.methods:
                return c, k.methods[name]
        return None

    def function(self, qual):
        """'Class.method' or 'module:function' -> (module, class, node) or None."""
        if ":" in qual:
            m, n = qual.split(":")
            f = self.funcs.get((m, n))
            return (m, None, f) if f is not None else None
        c, n = qual.split(".")
        k = self.classes.get(c)
        if k is None:
            return None
        hit = self.find_method(c, n)
        if hit is None:
            return None
        return (self.classes[hit[0]].module, hit[0], hit[1])
