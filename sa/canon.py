"""Statements that are written differently but do the same are brought into one form before anything is analysed.

    while True: if c: break; B                                   ->  while not c: B
    while True: try: v = next(i) / except StopIteration: break; B  ->  for v in i: B
    x.acquire(); try: B finally: x.release()                     ->  with x: B
"""
import ast

NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def negated(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in NEG:
        return ast.copy_location(ast.Compare(e.left, [NEG[type(e.ops[0])]()], e.comparators), e)
    return ast.copy_location(ast.UnaryOp(ast.Not(), e), e)


def forever(n):
    return isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and bool(n.test.value) and not n.orelse


def breaks(s):
    """a test that leaves the loop and does nothing else"""
    return isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Break)


def stepping(s):
    """try: v = next(i) / except StopIteration: break"""
    if isinstance(s, ast.Try) and len(s.body) == 1 and len(s.handlers) == 1 and not s.orelse and not s.finalbody:
        b, h = s.body[0], s.handlers[0]
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name) and b.value.func.id == 'next' and \
                len(b.value.args) == 1 and isinstance(b.value.args[0], ast.Name) and not b.value.keywords and \
                isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and h.name is None:
            return b.targets[0], b.value.args[0], h.body
    return None


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


def own_breaks(body):
    """does the loop with this body have a break of its own"""
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if own_breaks(s.orelse):
                return True
        elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for name in ('body', 'orelse', 'finalbody'):
                if own_breaks(getattr(s, name, None) or []):
                    return True
            for h in getattr(s, 'handlers', None) or []:
                if own_breaks(h.body):
                    return True
    return False


def bare_call(s, name):
    """the receiver of the statement x.name()"""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == name and \
            not s.value.args and not s.value.keywords:
        return s.value.func.value
    return None


def block(body):
    out = []
    for s in body:
        if forever(s) and s.body:
            step = stepping(s.body[0])
            if step is not None and len(s.body) > 1 and (len(step[2]) == 1 and isinstance(step[2][0], ast.Break) or leaves(step[2])):
                rest = [] if isinstance(step[2][0], ast.Break) else step[2]
                if not rest or not own_breaks(s.body[1:]):
                    s = ast.copy_location(ast.For(step[0], ast.copy_location(ast.Name(step[1].id, ast.Load()), s), s.body[1:], [], None), s)
                    out.append(s)
                    out += rest
                    continue
        if forever(s) and len(s.body) > 1 and breaks(s.body[0]):
            s = ast.copy_location(ast.While(negated(s.body[0].test), s.body[1:], []), s)
        if isinstance(s, ast.Try) and not s.handlers and not s.orelse and len(s.finalbody) == 1 and out:
            x, y = bare_call(out[-1], 'acquire'), bare_call(s.finalbody[0], 'release')
            if x is not None and y is not None and ast.dump(x) == ast.dump(y):
                s = ast.copy_location(ast.With([ast.withitem(x, None)], s.body), out.pop())
        out.append(s)
    return out


def iterators(fn):
    """v = iter(E) followed by the only use of v, for x in v, is for x in E"""
    names = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            names[n.id] = names.get(n.id, 0) + 1
    for n in ast.walk(fn):
        for name in ('body', 'orelse', 'finalbody'):
            b = getattr(n, name, None)
            if not isinstance(b, list):
                continue
            for i in range(len(b) - 1, 0, -1):
                s, a = b[i], b[i - 1]
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and isinstance(a, ast.Assign) and len(a.targets) == 1 and \
                        isinstance(a.targets[0], ast.Name) and a.targets[0].id == s.iter.id and names[s.iter.id] == 2 and \
                        isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == 'iter' and len(a.value.args) == 1:
                    s.iter = a.value.args[0]
                    del b[i - 1]


DUNDERS = {'__iter__': 'iter', '__next__': 'next', '__len__': 'len'}


def canonical_tree(tree):
    for n in ast.walk(tree):
        for name in ('body', 'orelse', 'finalbody'):
            b = getattr(n, name, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, name, block(b))
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            iterators(n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DUNDERS and not n.args and not n.keywords and \
                not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super'):
            n.func, n.args = ast.copy_location(ast.Name(DUNDERS[n.func.attr], ast.Load()), n.func), [n.func.value]
    return ast.fix_missing_locations(tree)
