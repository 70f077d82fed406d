"""Development aid: rewrites parsevasp/*.py of a copy of the repository without changing what it does.

usage: refactor.py REPO [seed]
Branches are exchanged, conditions nested, values get a name first, loops run over a named sequence, bodies of methods move
into helpers, locals are renamed, methods change places. The checks have to be quiet on the result.
"""
import ast
import glob
import random
import sys

SKIP = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


class Rewrite(ast.NodeTransformer):
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def fresh(self):
        self.n += 1
        return f'rf_value_{self.n}'

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)) and self.rng.random() < 0.5:
            node.test = node.test.operand if isinstance(node.test, ast.UnaryOp) and isinstance(node.test.op, ast.Not) else ast.UnaryOp(ast.Not(), node.test)
            node.body, node.orelse = node.orelse, node.body
        elif not node.orelse and isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) and self.rng.random() < 0.6:
            body = node.body
            for v in reversed(node.test.values):
                body = [ast.If(test=v, body=body, orelse=[])]
            return body[0]
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and not isinstance(node.value, (ast.Name, ast.Constant)) and self.rng.random() < 0.5:
            v = self.fresh()
            return [ast.Assign([name(v, ast.Store())], node.value), ast.Return(name(v))]
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.infunc and isinstance(node.value, (ast.Call, ast.BinOp)) and self.rng.random() < 0.25:
            v = self.fresh()
            return [ast.Assign([name(v, ast.Store())], node.value), ast.Assign(node.targets, name(v))]
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if self.infunc and self.rng.random() < 0.5:
            v = self.fresh()
            return [ast.Assign([name(v, ast.Store())], node.iter), ast.For(node.target, name(v), node.body, node.orelse)]
        return node

    infunc = 0

    def visit_FunctionDef(self, node):
        self.infunc += 1
        self.generic_visit(node)
        self.infunc -= 1
        rename(node, self.rng)
        return node

    def visit_ClassDef(self, node):
        saved, self.infunc = self.infunc, 0
        self.generic_visit(node)
        self.infunc = saved
        out, kinds = [], {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                deco = [ast.unparse(d) for d in s.decorator_list]
                if not deco and s.name != '__init__' and not s.name.endswith('__') and s.args.args and s.args.args[0].arg == 'self' and self.rng.random() < 0.4 \
                        and 'super()' not in ast.unparse(ast.fix_missing_locations(s)) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
                    helper = ast.FunctionDef('_rf' + ('_' + s.name if s.name.startswith('_') else '_of_' + s.name), s.args, s.body, [], None)
                    if not any(isinstance(t, ast.FunctionDef) and t.name == helper.name for t in node.body + out):
                        doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                        call = ast.Call(ast.Attribute(name('self'), helper.name, ast.Load()), [name(a.arg) for a in s.args.args[1:]]
                                        + ([ast.Starred(name(s.args.vararg.arg), ast.Load())] if s.args.vararg else []),
                                        [ast.keyword(a.arg, name(a.arg)) for a in s.args.kwonlyargs] + ([ast.keyword(None, name(s.args.kwarg.arg))] if s.args.kwarg else []))
                        out.append(helper)
                        s = ast.FunctionDef(s.name, s.args, doc + [ast.Return(call)], [], s.returns)
            out.append(s)
        fixed = [s for s in out if not isinstance(s, ast.FunctionDef)]
        groups = {}
        for s in out:
            if isinstance(s, ast.FunctionDef):
                groups.setdefault(s.name, []).append(s)
        order = list(groups)
        self.rng.shuffle(order)
        node.body = fixed + [s for g in order for s in groups[g]]
        return node


def rename(func, rng):
    """Locals that no nested scope sees get another name."""
    text = ast.unparse(ast.fix_missing_locations(func))
    if 'locals()' in text or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(func)):
        return
    params = {a.arg for x in ast.walk(func) if isinstance(x, ast.arguments) for a in x.args + x.kwonlyargs + [y for y in (x.vararg, x.kwarg) if y]}
    nested = {y.id for x in ast.walk(func) if isinstance(x, SKIP) and x is not func for y in ast.walk(x) if isinstance(y, ast.Name)}
    stored = {x.id for x in ast.walk(func) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - nested
    new = {s: 'rn_' + s for s in stored if rng.random() < 0.5}
    for x in ast.walk(func):
        if isinstance(x, ast.Name) and x.id in new:
            x.id = new[x.id]


def main():
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    for f in sorted(glob.glob(sys.argv[1] + '/parsevasp/*.py')):
        rng = random.Random(f'{seed}{f.rsplit("/", 1)[1]}')
        with open(f, encoding='utf8') as h:
            tree = ast.parse(h.read())
        tree = ast.fix_missing_locations(Rewrite(rng).visit(tree))
        with open(f, 'w', encoding='utf8') as h:
            h.write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    main()
