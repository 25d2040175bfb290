"""Mechanical extraction: parse the real source files of /repo on every run.

Nothing is rewritten: the interpreter walks the ast nodes of the functions that
run.  Docstrings and comments are the only text dropped (they have no meaning).
"""
import ast
import os

REPO = os.environ.get("PYVC_REPO", "/repo")


class FuncInfo:
    __slots__ = ("node", "module", "cls", "name", "qual", "closure")

    def __init__(self, node, module, cls, name, closure=None):
        self.node, self.module, self.cls, self.name = node, module, cls, name
        self.qual = module.name + ":" + (cls.name + "." if cls else "") + name
        self.closure = closure

    def decorators(self):
        out = []
        for d in getattr(self.node, "decorator_list", []):
            out.append(ast.unparse(d))
        return out


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.attrs = {}
        for b in node.body:
            if isinstance(b, ast.FunctionDef):
                # property setters share the name: keep the getter
                decs = [ast.unparse(d) for d in b.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    continue
                self.methods[b.name] = FuncInfo(b, module, self, b.name)
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = b.value

    def mro(self, prog):
        out, seen = [], set()

        def rec(c):
            if id(c) in seen:
                return
            seen.add(id(c))
            out.append(c)
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    r = c.module.resolve(b.id)
                    if isinstance(r, ClassInfo):
                        rec(r)

        rec(self)
        return out

    def find(self, prog, name):
        for c in self.mro(prog):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, prog, owner, name):
        m = self.mro(prog)
        if owner in m:
            m = m[m.index(owner) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None


class External:
    """A name from a library outside /repo."""

    def __init__(self, qual):
        self.qual = qual

    def __repr__(self):
        return f"External({self.qual})"


class ModuleInfo:
    def __init__(self, prog, name, path, is_pkg):
        self.prog, self.name, self.path, self.is_pkg = prog, name, path, is_pkg
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        self.tree = ast.parse(self.source, filename=path)
        self.globals = {}
        for b in self.tree.body:
            self._top(b)

    def _top(self, b):
        if isinstance(b, ast.FunctionDef):
            self.globals[b.name] = FuncInfo(b, self, None, b.name)
        elif isinstance(b, ast.ClassDef):
            self.globals[b.name] = ClassInfo(b, self)
        elif isinstance(b, ast.Import):
            for a in b.names:
                if a.asname:
                    self.globals[a.asname] = ("import", a.name)
                else:
                    self.globals[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(b, ast.ImportFrom):
            base = b.module or ""
            if b.level:
                parts = self.name.split(".")
                if not self.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (b.level - 1)]
                base = ".".join(parts + ([b.module] if b.module else []))
            for a in b.names:
                self.globals[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(b, ast.Assign):
            for t in b.targets:
                if isinstance(t, ast.Name):
                    self.globals[t.id] = ("assign", b.value)
        elif isinstance(b, (ast.If, ast.Try)):
            for x in b.body:
                self._top(x)

    def resolve(self, name):
        """-> FuncInfo | ClassInfo | ModuleInfo | External | ('assign', node) | None"""
        g = self.globals.get(name)
        if g is None:
            return None
        if isinstance(g, (FuncInfo, ClassInfo)):
            return g
        if g[0] == "import":
            m = self.prog.module(g[1])
            return m if m is not None else External(g[1])
        if g[0] == "from":
            m = self.prog.module(g[1])
            if m is not None:
                r = m.resolve(g[2])
                if r is not None:
                    return r
                sub = self.prog.module(g[1] + "." + g[2])
                if sub is not None:
                    return sub
                return External(g[1] + "." + g[2])
            return External(g[1] + "." + g[2])
        return g


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self._mods = {}

    def module(self, name):
        if name in self._mods:
            return self._mods[name]
        rel = name.replace(".", "/")
        p1 = os.path.join(self.repo, rel + ".py")
        p2 = os.path.join(self.repo, rel, "__init__.py")
        m = None
        if name.split(".")[0] == "lingam":
            if os.path.isfile(p2):
                m = ModuleInfo(self, name, p2, True)
            elif os.path.isfile(p1):
                m = ModuleInfo(self, name, p1, False)
        self._mods[name] = m
        return m

    def func(self, qual):
        """'lingam.base:_BaseLiNGAM.fit' or 'lingam.utils:find_all_paths'"""
        mod, rest = qual.split(":")
        m = self.module(mod)
        if m is None:
            raise KeyError(qual)
        if "." in rest:
            c, f = rest.split(".")
            ci = m.resolve(c)
            if not isinstance(ci, ClassInfo):
                raise KeyError(qual)
            fi = ci.find(self, f)
        else:
            fi = m.resolve(rest)
        if not isinstance(fi, FuncInfo):
            raise KeyError(qual)
        return fi

    def cls(self, qual):
        mod, c = qual.split(":")
        ci = self.module(mod).resolve(c)
        if not isinstance(ci, ClassInfo):
            raise KeyError(qual)
        return ci
