"""Behaviour-preserving rewrites of pymt in a scratch copy: refactor.py OUTDIR KIND...  (A development aid: every check stays quiet on them.)

Kinds: noop (idle statements between all others), ret (results named before they are returned), swap (branches of if/else
exchanged), loop (for loops as while loops), helper (every method delegates to a new helper), rename (locals renamed),
temps (call arguments evaluated into locals first)."""
import ast
import os
import shutil
import sys


class Base(ast.NodeTransformer):
    n = 0

    def name(self):
        Base.n += 1
        return "_tmp%d" % Base.n

    def body(self, stmts):
        return stmts

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and self.inside:
                setattr(node, f, self.body(v))
        return node

    inside = 0

    def visit_FunctionDef(self, node):
        self.inside += 1
        self.generic_visit(node)
        self.inside -= 1
        return node


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


class Noop(Base):
    def body(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            doc = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            if not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(ast.Assign([store(self.name())], ast.Constant(None)))
            out.append(s)
        return out


class Ret(Base):
    def body(self, stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Return) and s.value is not None:
                n = self.name()
                out += [ast.Assign([store(n)], s.value), ast.Return(load(n))]
            else:
                out.append(s)
        return out


class Swap(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if self.inside and node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node


class Loop(Base):
    def visit_For(self, node):
        self.generic_visit(node)
        if not self.inside or node.orelse:
            return node
        it, ok = self.name(), self.name()
        head = ast.Try(
            [ast.Assign([store(ok)], ast.Call(load("next"), [load(it)], []))],
            [ast.ExceptHandler(load("StopIteration"), None, [ast.Break()])], [], [])
        return [ast.Assign([store(it)], ast.Call(load("iter"), [node.iter], [])),
                ast.While(ast.Constant(True), [head, ast.Assign([node.target], load(ok))] + node.body, [])]


class Helper(Base):
    def visit_ClassDef(self, node):
        self.generic_visit(node)
        out = []
        for f in node.body:
            a = f.args if isinstance(f, ast.FunctionDef) else None
            if a is None or f.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or not a.args or a.args[0].arg != "self" or f.name == "__init_subclass__" or any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) or (isinstance(x, ast.Name) and x.id == "super") for x in ast.walk(f)):
                out.append(f)
                continue
            h = "_do_%s_%s" % (f.name.replace("__", "dunder"), node.name.lower())
            args = ast.arguments([], [ast.arg(x.arg) for x in a.args], None, [], [], None, [])
            out.append(ast.FunctionDef(h, args, f.body, [], None))
            call = ast.Call(ast.Attribute(load(a.args[0].arg), h, ast.Load()), [load(x.arg) for x in a.args[1:]], [])
            out.append(ast.FunctionDef(f.name, a, [ast.Return(call)], [], f.returns))
        node.body = out
        return node


class Rename(Base):
    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for x in ast.walk(node) if x is not node):
            return node
        params = {x.arg for x in node.args.args + node.args.kwonlyargs}
        local = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in local:
                x.id += "_"
        return node


class Temps(Base):
    """Arguments of a statement's outermost call, named first (evaluation order kept: only plain positional calls)."""

    def body(self, stmts):
        out = []
        for s in stmts:
            c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(c, ast.Call) and not c.keywords and c.args and isinstance(c.func, (ast.Name, ast.Attribute)) and not any(
                    isinstance(x, ast.Starred) for x in c.args) and not (isinstance(c.func, ast.Name) and c.func.id == "super") and (
                    isinstance(c.func, ast.Name) or isinstance(c.func.value, (ast.Name, ast.Attribute))):
                new = []
                for x in c.args:
                    n = self.name()
                    out.append(ast.Assign([store(n)], x))
                    new.append(load(n))
                c.args = new
            out.append(s)
        return out


KINDS = {"noop": Noop, "ret": Ret, "swap": Swap, "loop": Loop, "helper": Helper, "rename": Rename, "temps": Temps}


def main():
    out, kinds = sys.argv[1], sys.argv[2:]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree("/repo", out, ignore=shutil.ignore_patterns(".git"), symlinks=True)
    for d, _, fs in os.walk(out + "/src/pymt"):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".py") and "/tests" not in d:
                t = ast.parse(open(p).read())
                for k in kinds:
                    t = ast.fix_missing_locations(KINDS[k]().visit(t))
                open(p, "w").write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main()
