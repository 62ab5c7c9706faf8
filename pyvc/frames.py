"""Frame inference: which attributes a function (with everything it may call) can assign.

An over-approximation over the parsed source: calls are resolved by name to every function of that
name in the package, attribute reads to every property of that name, class calls to the class's
__init__.  Stores `self.x = ...` inside an __init__ concern the object under construction and are kept
apart.  Reflective writes (setattr, __dict__, vars, exec, eval) count as assigning everything."""
import ast
import os

REFLECT = {"setattr", "delattr", "exec", "eval", "__dict__", "vars", "globals", "__setattr__", "__delattr__"}


def containers(f):
    """Local names of f that only ever hold lists, dictionaries or sets made in f."""
    good, bad = set(), set()
    if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
        return set()
    for n in ast.walk(f):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            v = n.value
            made = isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "dict", "set", "defaultdict", "deque"))
            for t in ts:
                if isinstance(t, ast.Name):
                    (good if made else bad).add(t.id)
                else:
                    bad |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    simple = {id(t) for n in ast.walk(f) if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in simple:
            bad.add(n.id)
        elif isinstance(n, ast.arg):
            bad.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        elif n is not f and isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bad.add(n.name)
    return good - bad


def read_only(n, up):
    """Is the list of children n only looked at by the expression around it?"""
    if isinstance(up, ast.Call) and n in up.args:
        return isinstance(up.func, ast.Name) and up.func.id in ("len", "tuple", "list", "reversed", "enumerate", "any", "all", "bool", "iter")
    if isinstance(up, ast.Subscript):
        return up.value is n and isinstance(up.ctx, ast.Load)
    if isinstance(up, (ast.For, ast.comprehension)):
        return up.iter is n
    if isinstance(up, ast.Attribute):
        return up.attr in ("index", "count")
    return isinstance(up, (ast.Compare, ast.UnaryOp)) or isinstance(up, (ast.If, ast.While, ast.IfExp)) and up.test is n


class Package:
    def __init__(self, repo):
        self.funcs = {}                       # simple name -> [(module, class, node)]
        self.classes = {}
        self.imports = {}
        d = os.path.join(repo, "rsm")
        mods = {fn[:-3] for fn in os.listdir(d) if fn.endswith(".py")}
        for fn in sorted(os.listdir(d)):
            if not fn.endswith(".py"):
                continue
            tree = ast.parse(open(os.path.join(d, fn)).read())
            used = {fn[:-3]}
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom):
                    used |= {x for a in n.names for x in [a.name] if x in mods} | ({(n.module or "").split(".")[-1]} & mods)
                elif isinstance(n, ast.Import):
                    used |= {x for a in n.names for x in a.name.split(".") if x in mods}
            self.imports[fn[:-3]] = used
            self.walk(tree, fn[:-3], None)
        changed = True
        while changed:                        # what a module can reach
            changed = False
            for m, u in self.imports.items():
                n = set().union(*(self.imports[x] for x in u))
                if not n <= u:
                    u |= n
                    changed = True

    def walk(self, t, mod, cl):
        for n in ast.iter_child_nodes(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.setdefault(n.name, []).append((mod, cl, n))
            elif isinstance(n, ast.ClassDef):
                self.classes.setdefault(n.name, []).append((mod, n))
                self.walk(n, mod, n.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                self.walk(n, mod, cl)

    def closure(self, start):
        """Functions reachable from the given (module, class, name), and every name they mention."""
        todo = [x for x in self.funcs.get(start[2], []) if x[0] == start[0] and x[1] == start[1]]
        seen = {}
        names = set()
        while todo:
            f = todo.pop()
            if id(f[2]) in seen:
                continue
            seen[id(f[2])] = f
            mod, cl, node = f
            reach = self.imports[mod]
            me = node.args.args[0].arg if cl and node.args.args else None
            plain = containers(node)
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in plain:
                    continue                  # a method of a list, dict or set made here
                if isinstance(n, ast.Name):
                    nm, cands = n.id, [x for x in self.funcs.get(n.id, []) if x[0] in reach and x[1] is None]
                elif isinstance(n, ast.Attribute):
                    nm = n.attr
                    own = isinstance(n.value, ast.Name) and n.value.id == me
                    cands = [x for x in self.funcs.get(nm, []) if x[0] in reach and (not own or x[0] == mod or x[0] in reach)]
                    if own:
                        cands = [x for x in cands if x[0] == mod] or cands
                else:
                    continue
                names.add(nm)
                todo += cands
                for m, c in self.classes.get(nm, []):
                    if m in reach:
                        todo += [x for x in self.funcs.get("__init__", []) if x[0] == m]
        return list(seen.values()), names

    def keeps_structure(self, start):
        """No function reachable assigns a parent or changes a list of children (constructors set up their own)."""
        fs, names = self.closure(start)
        if names & REFLECT:
            return False
        for mod, cl, f in fs:
            me = f.args.args[0].arg if f.name == "__init__" and f.args.args else None
            up = {c: p for p in ast.walk(f) for c in ast.iter_child_nodes(p)}
            for n in ast.walk(f):
                if not (isinstance(n, ast.Attribute) and n.attr in ("_parent", "_children", "parent")):
                    continue
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    if me is not None and isinstance(n.value, ast.Name) and n.value.id == me:
                        continue
                    return False
                if n.attr == "_children" and not read_only(n, up[n]):
                    return False
        return bool(fs)

    def effects(self, start):
        """(attributes assigned outside constructors, attributes assigned by constructors, names referenced, reflective?)"""
        fs, names = self.closure(start)
        assigned, built = set(), set()
        for mod, cl, f in fs:
            me = f.args.args[0].arg if f.name == "__init__" and f.args.args else None
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    own = me is not None and isinstance(n.value, ast.Name) and n.value.id == me
                    (built if own else assigned).add(n.attr)
        return assigned, built, names, bool(names & REFLECT)
