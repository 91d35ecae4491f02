"""Development aid (no check uses it): rewrite analysed functions mechanically and see what the checks say.

    fuzz.py refactor|mutate PROP[,PROP] [-n N per function] [-f filter] [-s seed] [-j jobs] [-v]

refactor: rewrites that keep the behaviour; every report is a false alarm (or shows that the rewrite was not that harmless).
mutate:   rewrites that change it; the survivors are printed.
The rewritten module replaces the original one in memory only.
"""
import ast
import copy
import multiprocessing
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import core, project, model          # noqa: E402
from sa.rules import PROPERTIES              # noqa: E402


def find(tree, qual):
    """the function of that qualified name"""
    def go(body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if prefix + n.name == qual:
                    yield n
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, prefix + n.name + '.')
            elif isinstance(n, (ast.If, ast.Try)):
                for b in ('body', 'orelse', 'finalbody'):
                    yield from go(getattr(n, b, []), prefix)
    return list(go(tree.body, ''))


def owner_of(tree, fn):
    for n in ast.walk(tree):
        for b in ('body', 'orelse', 'finalbody'):
            x = getattr(n, b, None)
            if isinstance(x, list) and fn in x:
                return n, x
    return None, None


def blocks(fn):
    """all statement lists of a function, its nested functions included"""
    out = []

    def go(n):
        for b in ('body', 'orelse', 'finalbody'):
            x = getattr(n, b, None)
            if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                out.append((n, x))
                for s in x:
                    go(s)
        for h in getattr(n, 'handlers', []):
            go(h)
    go(fn)
    return out


def names_stored(nodes):
    return {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def names_loaded(nodes):
    return {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def params(fn):
    return {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}


def ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def plain_store(s):
    """the attribute of self that gets a parameter, a constant or an empty container"""
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name) and \
            s.targets[0].value.id == 'self' and (isinstance(s.value, (ast.Name, ast.Constant)) or isinstance(s.value, (ast.List, ast.Dict, ast.Tuple)) and
                                                 not any(isinstance(x, ast.Attribute) for x in ast.walk(s.value))):
        return s.targets[0].attr


def has_value_ops(e):
    """may it be something else than True or False"""
    if isinstance(e, ast.BoolOp):
        return any(has_value_ops(x) for x in e.values)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return False
    return not (isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops))


# ------------------------------------------------------------------------------------------ refactorings: yield (name, apply)
def refactorings(tree, fn):
    n = [0]

    def fresh(p):
        n[0] += 1
        return '%s_%d' % (p, n[0])

    bl = blocks(fn)
    for o, b in bl:
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                def f(b=b, s=s):
                    v = fresh('result')
                    b[b.index(s):b.index(s) + 1] = [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
                yield 'return-var', f
            if isinstance(s, ast.If):
                if s.orelse:
                    def f(s=s):
                        s.test, s.body, s.orelse = negate(s.test), s.orelse, s.body
                    yield 'invert', f
                if not isinstance(s.test, ast.Name):
                    def f(b=b, s=s):
                        v = fresh('cond')
                        b.insert(b.index(s), ast.Assign([ast.Name(v, ast.Store())], s.test))
                        s.test = ast.Name(v, ast.Load())
                    yield 'cond-var', f
                if ends(s.body) and not s.orelse and i + 1 < len(b):
                    def f(b=b, s=s):
                        j = b.index(s)
                        s.orelse = b[j + 1:]
                        del b[j + 1:]
                    yield 'to-else', f
                if ends(s.body) and s.orelse:
                    def f(b=b, s=s):
                        j = b.index(s)
                        b[j + 1:j + 1] = s.orelse
                        s.orelse = []
                    yield 'from-else', f
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    def f(s=s):
                        t = s.test.values
                        s.body = [ast.If(t[-1], s.body, [])]
                        s.test = t[0] if len(t) == 2 else ast.BoolOp(ast.And(), t[:-1])
                    yield 'split-and', f
                if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.orelse and not s.body[0].orelse:
                    def f(s=s):
                        s.test = ast.BoolOp(ast.And(), [s.test, s.body[0].test])
                        s.body = s.body[0].body
                    yield 'join-and', f
                if len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) \
                        and s.body[0].value and s.orelse[0].value:
                    def f(b=b, s=s):
                        b[b.index(s)] = ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                    yield 'to-ternary', f
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                def f(b=b, s=s):
                    b[b.index(s)] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
                yield 'from-ternary', f
            if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) \
                    and isinstance(s.target, (ast.Name, ast.Attribute)):
                def f(b=b, s=s):
                    t = copy.deepcopy(s.target)
                    t.ctx = ast.Load()
                    b[b.index(s)] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
                yield 'aug', f
            if isinstance(s, (ast.With, ast.AsyncWith)) and len(s.items) > 1:
                def f(s=s):
                    s.body = [type(s)(s.items[1:], s.body)]
                    s.items = s.items[:1]
                yield 'split-with', f
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args and \
                    not isinstance(s.value.args[0], (ast.Name, ast.Constant, ast.Starred)):
                def f(b=b, s=s):
                    v = fresh('arg')
                    b.insert(b.index(s), ast.Assign([ast.Name(v, ast.Store())], s.value.args[0]))
                    s.value.args[0] = ast.Name(v, ast.Load())
                yield 'arg-var', f
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 \
                    and not s.value.generators[0].is_async:
                def f(b=b, s=s):
                    v = fresh('items')
                    g = s.value.generators[0]
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    j = b.index(s)
                    b[j:j] = [ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
                    s.value = ast.Name(v, ast.Load())
                yield 'comp-loop', f
            if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
                def f(s=s):
                    s.body = [ast.If(negate(s.test), [ast.Break()], [])] + s.body
                    s.test = ast.Constant(True)
                yield 'while-true', f
            if isinstance(s, ast.For) and not s.orelse:
                def f(b=b, s=s):
                    v = fresh('iterator')
                    step = ast.Try([ast.Assign([s.target], ast.Call(ast.Name('next', ast.Load()), [ast.Name(v, ast.Load())], []))],
                                   [ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None, [ast.Break()])], [], [])
                    j = b.index(s)
                    b[j:j + 1] = [ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [s.iter], [])),
                                  ast.While(ast.Constant(True), [step] + s.body, [])]
                yield 'for-next', f
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and \
                    isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == 'append' and isinstance(s.body[0].value.func.value, ast.Name) and \
                    not any(isinstance(x, (ast.Yield, ast.Await, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(s.body[0])) and i and \
                    isinstance(b[i - 1], ast.Assign) and isinstance(b[i - 1].value, ast.List) and not b[i - 1].value.elts and \
                    ast.unparse(b[i - 1].targets[0]) == s.body[0].value.func.value.id:
                def f(b=b, s=s):
                    j = b.index(s)
                    b[j - 1].value = ast.ListComp(s.body[0].value.args[0], [ast.comprehension(s.target, s.iter, [], 0)])
                    del b[j]
                yield 'loop-comp', f
            if i and plain_store(s) and plain_store(b[i - 1]) and plain_store(s) != plain_store(b[i - 1]):
                def f(b=b, s=s):
                    j = b.index(s)
                    b[j - 1], b[j] = b[j], b[j - 1]
                yield 'swap-stores', f
            if isinstance(s, ast.Return) and isinstance(s.value, (ast.Compare, ast.BoolOp)) and not has_value_ops(s.value):
                def f(b=b, s=s):
                    b[b.index(s):b.index(s) + 1] = [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
                yield 'return-if', f
            if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None and 'lock' in ast.unparse(s.items[0].context_expr) and \
                    isinstance(s.items[0].context_expr, (ast.Attribute, ast.Name)):
                def f(b=b, s=s):
                    e = s.items[0].context_expr
                    b[b.index(s):b.index(s) + 1] = [ast.Expr(ast.Call(ast.Attribute(e, 'acquire', ast.Load()), [], [])),
                                                    ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(e, 'release', ast.Load()), [], []))])]
                yield 'with-acquire', f
            if isinstance(s, ast.For) and isinstance(s.target, (ast.Tuple, ast.List)):
                def f(s=s):
                    v = fresh('item')
                    s.body.insert(0, ast.Assign([s.target], ast.Name(v, ast.Load())))
                    s.target = ast.Name(v, ast.Store())
                yield 'unpack-target', f
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
                def f(b=b, s=s):
                    v = fresh('element')
                    b[b.index(s)] = ast.For(ast.Name(v, ast.Store()), s.value.value, [ast.Expr(ast.Yield(ast.Name(v, ast.Load())))], [])
                yield 'yieldfrom-for', f
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and \
                    isinstance(s.target, ast.Name) and isinstance(s.body[0].value.value, ast.Name) and s.body[0].value.value.id == s.target.id and isinstance(fn, ast.FunctionDef):
                def f(b=b, s=s):
                    b[b.index(s)] = ast.Expr(ast.YieldFrom(s.iter))
                yield 'for-yieldfrom', f
            if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and isinstance(s.target, (ast.Name, ast.Attribute)) and \
                    (isinstance(s.target, ast.Name) or isinstance(s.target.value, ast.Name)):
                def f(b=b, s=s):
                    t = copy.deepcopy(s.target)
                    t.ctx = ast.Load()
                    b[b.index(s)] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
                yield 'aug-expand', f
            if isinstance(s, ast.With) and isinstance(s.body[-1], ast.Return) and s.body[-1].value is not None and b[-1] is s and len(s.items) == 1 and \
                    'lock' in ast.unparse(s.items[0].context_expr) and not any(isinstance(x, ast.Return) for t in s.body[:-1] for x in ast.walk(t)):
                def f(b=b, s=s):
                    v = fresh('outcome')
                    r = s.body[-1]
                    s.body[-1] = ast.Assign([ast.Name(v, ast.Store())], r.value)
                    b.insert(b.index(s) + 1, ast.Return(ast.Name(v, ast.Load())))
                yield 'return-out', f
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(t, ast.Name) for t in s.targets[0].elts) and \
                    not names_stored([s]) & names_loaded([s.value]) and not any(isinstance(t, ast.Starred) for t in s.value.elts):
                def f(b=b, s=s):
                    j = b.index(s)
                    b[j:j + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
                yield 'split-tuple', f
            if i and isinstance(s, ast.Assign) and isinstance(b[i - 1], ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets + b[i - 1].targets) and \
                    not names_stored([s]) & (names_loaded([b[i - 1]]) | names_stored([b[i - 1]])) and not names_loaded([s]) & names_stored([b[i - 1]]) and \
                    all(isinstance(t.value, (ast.Name, ast.Constant)) or isinstance(t.value, (ast.List, ast.Dict, ast.Tuple)) and not list(ast.walk(t.value))[3:] for t in (s, b[i - 1])):
                def f(b=b, s=s):
                    j = b.index(s)
                    b[j - 1], b[j] = b[j], b[j - 1]
                yield 'swap-locals', f
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('any', 'all') and \
                    len(s.value.args) == 1 and isinstance(s.value.args[0], ast.GeneratorExp) and len(s.value.args[0].generators) == 1:
                def f(b=b, s=s):
                    anyp = s.value.func.id == 'any'
                    g = s.value.args[0].generators[0]
                    e = s.value.args[0].elt
                    body = [ast.If(e if anyp else negate(e), [ast.Return(ast.Constant(anyp))], [])]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    b[b.index(s):b.index(s) + 1] = [ast.For(g.target, g.iter, body, []), ast.Return(ast.Constant(not anyp))]
                yield 'any-loop', f
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp):
                def f(s=s):
                    s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(s.test.op, ast.And) else ast.And(), [negate(v) for v in s.test.values]))
                yield 'de-morgan', f
            if isinstance(s, (ast.If, ast.Return, ast.Assign, ast.Expr)) and any(isinstance(x, ast.Lambda) for x in ast.walk(s.test if isinstance(s, ast.If) else s.value or ast.Pass())):
                def f(b=b, s=s):
                    top = s.test if isinstance(s, ast.If) else s.value
                    for y in ast.walk(s):
                        if isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) and any(isinstance(z, ast.Lambda) for z in ast.walk(y)):
                            raise Skip
                    lam = [x for x in ast.walk(top) if isinstance(x, ast.Lambda)][0]
                    v = fresh('function')
                    d = ast.FunctionDef(v, lam.args, [ast.Return(lam.body)], [], None, [])
                    for y in ast.walk(s):
                        for name, val in ast.iter_fields(y):
                            if val is lam:
                                setattr(y, name, ast.Name(v, ast.Load()))
                            elif isinstance(val, list) and any(z is lam for z in val):
                                val[[z is lam for z in val].index(True)] = ast.Name(v, ast.Load())
                    b.insert(b.index(s), d)
                yield 'lambda-def', f
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, (ast.Call, ast.Attribute)):
                def f(b=b, s=s):
                    v = fresh('seq')
                    b.insert(b.index(s), ast.Assign([ast.Name(v, ast.Store())], s.iter))
                    s.iter = ast.Name(v, ast.Load())
                yield 'iter-var', f
            if isinstance(s, ast.Try) and len(s.handlers) == 1 and not s.orelse and not s.finalbody and len(s.handlers[0].body) == 1 and \
                    isinstance(s.handlers[0].body[0], ast.Pass) and s.handlers[0].type is not None and not s.handlers[0].name:
                def f(b=b, s=s):
                    t = s.handlers[0].type
                    j = max([0] + [i + 1 for i, x in enumerate(tree.body) if isinstance(x, ast.ImportFrom) and x.module == '__future__'])
                    tree.body.insert(j, ast.Import([ast.alias('contextlib', None)]))
                    b[b.index(s)] = ast.With([ast.withitem(ast.Call(ast.Attribute(ast.Name('contextlib', ast.Load()), 'suppress', ast.Load()), t.elts if isinstance(t, ast.Tuple) else [t], []), None)], s.body)
                yield 'suppress', f
            if not isdoc(s) and i == 0:
                def f(b=b, s=s):
                    b.insert(b.index(s), ast.Assign([ast.Name(fresh('unused'), ast.Store())], ast.Constant(None)))
                yield 'noop', f
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance' and isinstance(x.args[1], ast.Tuple) and len(x.args[1].elts) == 2:
            def f(x=x):
                a, b = x.args[1].elts
                c = ast.BoolOp(ast.Or(), [ast.Call(x.func, [x.args[0], a], []), ast.Call(x.func, [copy.deepcopy(x.args[0]), b], [])])
                for y in ast.walk(fn):
                    for name, v in ast.iter_fields(y):
                        if v is x:
                            setattr(y, name, c)
                        elif isinstance(v, list) and any(z is x for z in v):
                            v[[z is x for z in v].index(True)] = c
            yield 'split-isinstance', f
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            def f(x=x):
                x.left, x.comparators = x.comparators[0], [x.left]
                x.ops = [{ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(x.ops[0])]()]
            yield 'flip-cmp', f
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot)):
            def f(x=x):
                x.left, x.comparators = x.comparators[0], [x.left]
            yield 'flip-is', f
    # rename local variables
    loc = names_stored([fn]) - params(fn) - {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))}
    for g in ast.walk(fn):
        if isinstance(g, (ast.Global, ast.Nonlocal)):
            loc -= set(g.names)
    for g in ast.walk(fn):
        if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in ('locals', 'eval', 'exec'):
            loc = set()
    if loc:
        def f():
            ren = {x: x + '_x' for x in loc}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
                if isinstance(x, ast.ExceptHandler) and x.name in ren:
                    x.name = ren[x.name]
        yield 'rename', f
    # extract the whole body, or a block of it, into a helper
    o, b = owner_of(tree, fn)
    own = [x for x in ast.walk(fn)]
    gen = any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in own)
    hasnl = any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in own) or any(
        isinstance(x, ast.Name) and x.id in ('super', '__class__', 'locals', 'eval') for x in own)
    meth = isinstance(o, ast.ClassDef)
    kind = {getattr(d, 'id', None) for d in fn.decorator_list}
    if not hasnl and isinstance(fn, ast.FunctionDef) and not (kind & {'staticmethod', 'classmethod'}):
        def f():
            a = copy.deepcopy(fn.args)
            for x in ast.walk(a):
                if isinstance(x, ast.arg):
                    x.annotation = None
            a.defaults, a.kw_defaults = [], [None for _ in a.kwonlyargs]
            h = ast.FunctionDef('_extracted', a, fn.body[1:] if isdoc(fn.body[0]) and len(fn.body) > 1 else fn.body, [], None, None)
            pos = [x.arg for x in a.posonlyargs + a.args]
            if meth:
                callee, pos = ast.Attribute(ast.Name(pos[0], ast.Load()), '_extracted', ast.Load()), pos[1:]
            else:
                callee = ast.Name('_extracted', ast.Load())
            args = [ast.Name(p, ast.Load()) for p in pos]
            if a.vararg:
                args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
            kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
            if a.kwarg:
                kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
            b.insert(b.index(fn), h)
            fn.body = [ast.Return(ast.Call(callee, args, kw))]
        if not (meth and not (fn.args.posonlyargs + fn.args.args)):
            yield 'extract-all', f
    if isinstance(fn, ast.FunctionDef) and not hasnl and (not meth or fn.args.args and not (kind & {'staticmethod', 'classmethod'})):
        for bo, blk in bl:
            if bo is fn and len(blk) < 2 or any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in own[1:]):
                continue
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.Nonlocal, ast.Raise))
                   for s in blk for x in ast.walk(s)):
                continue
            if isinstance(bo, ast.ExceptHandler) and any(isinstance(x, ast.Raise) for s in blk for x in ast.walk(s)):
                continue
            if blk and isdoc(blk[0]) or all(isinstance(s, ast.Pass) for s in blk):
                continue

            def f(bo=bo, blk=blk):
                stored = sorted(names_stored(blk))
                loc2 = names_stored([fn]) | params(fn) | {h.name for h in own if isinstance(h, ast.ExceptHandler) and h.name}
                used = sorted((names_loaded(blk) | set(stored)) & loc2)
                # only what is certainly bound before
                before = params(fn)
                if any(u not in before and u not in stored for u in used):
                    pass
                first = fn.args.args[0].arg if meth else None
                # values of stored names may be unset before: pass only if loaded before being stored or a parameter
                order = [x for s in blk for x in ast.walk(s) if isinstance(x, ast.Name)]
                ins = [u for u in used if u in names_loaded(blk) and (u not in stored or u in before)]
                extra = [u for u in used if u in stored and u not in before and u in names_loaded(blk)]
                if extra or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) for s in blk for x in ast.walk(s)):
                    raise Skip
                ins = [u for u in ins if u != first]
                outs = [u for u in stored]
                if outs and not isinstance(bo, (ast.FunctionDef,)):
                    # stored only on some paths of the caller: fine, they are stored by the block
                    pass
                ret = []
                if outs:
                    v = [ast.Name(u, ast.Load()) for u in outs]
                    ret = [ast.Return(v[0] if len(v) == 1 else ast.Tuple(v, ast.Load()))]
                    if any(isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)) for s in blk):
                        raise Skip
                h = ast.FunctionDef('_part', ast.arguments([], [ast.arg(u) for u in ([first] if meth else []) + ins], None, [], [], None, []),
                                    list(blk) + ret, [], None, None)
                callee = ast.Attribute(ast.Name(first, ast.Load()), '_part', ast.Load()) if meth else ast.Name('_part', ast.Load())
                c = ast.Call(callee, [ast.Name(u, ast.Load()) for u in ins], [])
                if outs:
                    t = [ast.Name(u, ast.Store()) for u in outs]
                    new = ast.Assign([t[0] if len(t) == 1 else ast.Tuple(t, ast.Store())], c)
                else:
                    new = ast.Expr(c)
                blk[:] = [new]
                b.insert(b.index(fn), h)
            yield 'extract-block', f


    if isinstance(fn, ast.FunctionDef) and not hasnl and not gen and (not meth or fn.args.args and not (kind & {'staticmethod', 'classmethod'})) and \
            not any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in own[1:]):
        first = fn.args.args[0].arg if meth else None

        def helper(name, ins, body):
            b.insert(b.index(fn), ast.FunctionDef(name, ast.arguments([], [ast.arg(u) for u in ([first] if meth else []) + ins], None, [], [], None, []), body, [], None, []))
            callee = ast.Attribute(ast.Name(first, ast.Load()), name, ast.Load()) if meth else ast.Name(name, ast.Load())
            return ast.Call(callee, [ast.Name(u, ast.Load()) for u in ins], [])
        for k in range(1, len(fn.body)):
            if k == 1 and isdoc(fn.body[0]):
                continue

            def f(k=k):
                head, tail = fn.body[:k], fn.body[k:]
                ins = sorted(names_loaded(tail) & (params(fn) | names_stored(head)) - {first})
                if any(isinstance(x, ast.ExceptHandler) and x.name in ins for x in own) or any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id not in ins for s in tail for x in ast.walk(s)):
                    raise Skip
                sure = params(fn) | {t.id for s in head if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
                if not set(ins) <= sure:
                    raise Skip
                fn.body[k:] = [ast.Return(helper('_rest', ins, tail))]
            yield 'extract-tail', f
        for o2, b2 in bl:
            for s in b2:
                for field in ('test', 'value', 'iter'):
                    e = getattr(s, field, None)
                    if isinstance(e, (ast.BoolOp, ast.Compare, ast.Call, ast.BinOp, ast.UnaryOp)) and not isinstance(s, ast.AugAssign) and \
                            not any(isinstance(x, (ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Starred)) for x in ast.walk(e)):
                        def f(s=s, field=field, e=e):
                            handlers = {h.name for h in own if isinstance(h, ast.ExceptHandler) and h.name}
                            ins = sorted(names_loaded([e]) & (params(fn) | names_stored([fn]) | handlers) - {first})
                            setattr(s, field, helper('_value', ins, [ast.Return(e)]))
                        yield 'extract-expr', f


class Skip(Exception):
    pass


# ------------------------------------------------------------------------------------------ mutations
def mutations(tree, fn):
    for x in ast.walk(fn):
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            alts = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
                    ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}[type(x.ops[0])]
            for a in alts:
                def f(x=x, a=a):
                    x.ops = [a()]
                yield 'cmp %s -> %s' % (ast.unparse(x), a.__name__), f
        elif isinstance(x, ast.BoolOp):
            def f(x=x):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            yield 'boolop ' + ast.unparse(x), f
            for v in range(len(x.values)):
                def f(x=x, v=v):
                    del x.values[v]
                    if len(x.values) == 1:
                        x.values.append(x.values[0])
                yield 'drop operand %d of %s' % (v, ast.unparse(x)), f
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            def f(x=x):
                x.operand = ast.UnaryOp(ast.Not(), x.operand)
            yield 'drop not ' + ast.unparse(x), f
        elif isinstance(x, ast.Constant) and isinstance(x.value, bool):
            def f(x=x):
                x.value = not x.value
            yield 'const %r' % x.value, f
        elif isinstance(x, ast.Constant) and isinstance(x.value, int):
            def f(x=x):
                x.value += 1
            yield 'const %r' % x.value, f
        elif isinstance(x, ast.BinOp) and type(x.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            def f(x=x):
                x.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(x.op)]()
            yield 'op ' + ast.unparse(x), f
        elif isinstance(x, ast.Call) and len(x.args) == 2 and not any(isinstance(a, ast.Starred) for a in x.args) and \
                not (isinstance(x.func, ast.Name) and x.func.id in ('isinstance', 'hasattr', 'getattr', 'issubclass')):
            def f(x=x):
                x.args = x.args[::-1]
            yield 'swap args ' + ast.unparse(x), f
        elif isinstance(x, ast.If):
            def f(x=x):
                x.test = negate(x.test)
            yield 'negate ' + ast.unparse(x.test), f
        elif isinstance(x, ast.AugAssign) and type(x.op) in (ast.Add, ast.Sub):
            def f(x=x):
                x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()
            yield 'augop ' + ast.unparse(x), f
        elif isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None):
            def f(x=x):
                x.value = ast.Constant(None)
            yield 'return None instead of ' + ast.unparse(x.value)[:60], f
        elif isinstance(x, ast.ExceptHandler) and x.type is not None:
            def f(x=x):
                x.type = ast.Name('ZeroDivisionError', ast.Load())
            yield 'handler for %s' % ast.unparse(x.type), f
        elif isinstance(x, ast.Try) and x.handlers:
            def f(x=x):
                x.handlers[0].type, x.handlers[0].name = ast.Name('BaseException', ast.Load()), x.handlers[0].name
            yield 'catches all: ' + ast.unparse(x.handlers[0].type or x), f
    for o, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not isdoc(s):
                if isinstance(s, ast.Assign) and not any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets):
                    continue
                if isinstance(s, ast.Expr) and 'warn' in ast.unparse(s) or 'logg' in ast.unparse(s):
                    continue

                def f(b=b, s=s):
                    b[b.index(s)] = ast.Pass()
                yield 'delete ' + ast.unparse(s)[:70], f
            if isinstance(s, (ast.Break, ast.Continue)):
                def f(b=b, s=s):
                    b[b.index(s)] = ast.Pass()
                yield 'delete ' + ast.unparse(s), f
            if isinstance(s, (ast.With,)) and len(s.body) > 1 and not isinstance(s.body[-1], (ast.Return,)):
                def f(b=b, s=s):
                    b.insert(b.index(s) + 1, s.body.pop())
                yield 'out of with: ' + ast.unparse(s.body[-1])[:60], f
            if isinstance(s, ast.With):
                def f(b=b, s=s):
                    j = b.index(s)
                    b[j:j + 1] = s.body
                yield 'no with ' + ast.unparse(s.items[0])[:60], f
            if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)) \
                    and not isdoc(s):
                def f(b=b, i=i):
                    b[i], b[i + 1] = b[i + 1], b[i]
                yield 'swap %s / %s' % (ast.unparse(s)[:40], ast.unparse(b[i + 1])[:40]), f


KINDS = set(filter(None, os.environ.get('FUZZ_KINDS', '').split(',')))


def chosen(tree, fn):
    return ((n, f) for n, f in refactorings(tree, fn) if not KINDS or n in KINDS)


GEN = {'refactor': chosen, 'mutate': mutations}


def functions_of(prop, tier='quick'):
    ctx = core.Ctx(prop, tier)
    for r in PROPERTIES[prop]['rules']:
        with ctx.item(r.__name__, '<rule>'):
            r(ctx)
    return sorted(ctx.funcs), {v.key for v in ctx.violations.values()}


ROOT = None


def job(a):
    mode, prop, where, k, base = a
    path, qual = where.split(':')
    full = os.path.join(ROOT, path)
    with open(full, encoding='utf-8', newline=None) as f:
        src = f.read()
    tree = ast.parse(src)
    fns = find(tree, qual)
    label = None
    i = 0
    for fn in fns:
        for nm, f in GEN[mode](tree, fn):
            if i == k:
                label = nm
                try:
                    f()
                except Skip:
                    return None
                break
            i += 1
        if label:
            break
    if label is None:
        return None
    ast.fix_missing_locations(tree)
    try:
        new = ast.unparse(tree)
        compile(new, full, 'exec')
    except Exception as e:
        return ('E', prop, where, label, repr(e), '')
    if new == ast.unparse(ast.parse(src)):
        return None
    real = project.open if hasattr(project, 'open') else open

    import io

    def fake(p, *aa, **kk):
        if os.path.abspath(p) == os.path.abspath(full):
            return io.StringIO(new)
        return real(p, *aa, **kk)
    project.open = fake
    try:
        ctx = core.Ctx(prop, 'quick')
        for r in PROPERTIES[prop]['rules']:
            with ctx.item(r.__name__, '<rule>'):
                r(ctx)
    finally:
        project.open = real
    vs = [v for v in ctx.violations.values() if v.key not in base]
    if mode == 'refactor':
        if vs:
            return ('V', prop, where, label, '; '.join('%s: %s' % (v.construct, v.msg[:300]) for v in vs[:2]), new)
        und = [u for u in ctx.undecided]
        return ('U', prop, where, label, '; '.join('%s %s' % (u[1], str(u[2])[-150:]) for u in und[:2]), '') if und else ('ok', prop, where, label, '', '')
    return ('ok' if vs else 'S', prop, where, label, '', '')


def count(mode, where):
    path, qual = where.split(':')
    with open(os.path.join(ROOT, path), encoding='utf-8', newline=None) as f:
        tree = ast.parse(f.read())
    return sum(1 for fn in find(tree, qual) for _ in GEN[mode](tree, fn))


def main():
    global ROOT
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('props')
    ap.add_argument('-n', type=int, default=1000)
    ap.add_argument('-f', default='')
    ap.add_argument('-l', default='')
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    ROOT = core.Ctx('x').p.root
    rnd = random.Random(a.s)
    jobs = []
    for prop in (sorted(PROPERTIES) if a.props == 'all' else a.props.split(',')):
        fs, base = functions_of(prop)
        for w in fs:
            if a.f and a.f not in w:
                continue
            c = count(a.mode, w)
            ks = list(range(c))
            rnd.shuffle(ks)
            jobs += [(a.mode, prop, w, k, base) for k in sorted(ks[:a.n])]
    print('%d rewrites' % len(jobs), flush=True)
    tot = {}
    with multiprocessing.Pool(a.j, maxtasksperchild=20) as pool:
        for r in pool.imap_unordered(job, jobs, chunksize=1):
            if r is None:
                continue
            tot[r[0]] = tot.get(r[0], 0) + 1
            if r[0] in 'VSEU':
                print(r[0], r[1], r[2], '|', r[3], '|', r[4][:700], flush=True)
                if a.v and r[5]:
                    q = r[2].split(':')[1]
                    for fn in find(ast.parse(r[5]), q)[:2]:
                        print('      ' + ast.unparse(fn).replace('\n', '\n      '))
    print(tot)


if __name__ == '__main__':
    main()
