"""Values of module-level and class-level constants, compared by value: a table of units, a set of exceptions or a
default may be written in any way, but must come out the same."""
import ast

from .core import Undecided
from .project import Cls


def assigned(project, dotted):
    """-> (module, class or None, expression) that a dotted constant is given, or None"""
    head, _, name = dotted.rpartition('.')
    owner = project.lookup(head)
    if isinstance(owner, Cls):
        c, e = owner.find_attr(name)
        if e is None:
            return None
        return c.module, c, e
    if owner is not None and hasattr(owner, 'globals'):
        e = owner.globals.get(name)
        if e is not None:
            return owner, None, e
        d = owner.imports.get(name)
        if d:
            return assigned(project, project.canonical(d))
    return None


def unwrap(e):
    return e.value if isinstance(e, (ast.Assign, ast.AnnAssign)) else e


class Value:
    def __init__(self, project):
        self.p = project

    def __call__(self, e, mod, cls, depth=0):
        e = unwrap(e)
        v = lambda x: self(x, mod, cls, depth + 1)
        if depth > 12:
            raise Undecided('constant too deep')
        if isinstance(e, ast.Constant):
            return ('k', e.value) if not isinstance(e.value, bool) else ('b', e.value)
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    y = v(x.value)
                    if y[0] != 'seq':
                        raise Undecided('constant')
                    out += y[1]
                else:
                    out.append(v(x))
            return ('seq', tuple(out))
        if isinstance(e, ast.Set):
            return ('set', frozenset(v(x) for x in e.elts))
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                raise Undecided('constant')
            return ('dict', tuple(sorted(((v(k), v(x)) for k, x in zip(e.keys, e.values)), key=repr)))
        if isinstance(e, ast.UnaryOp):
            x = v(e.operand)
            if x[0] == 'k' and isinstance(e.op, ast.USub):
                return ('k', -x[1])
            if x[0] == 'k' and isinstance(e.op, ast.UAdd):
                return x
        if isinstance(e, ast.BinOp):
            a, b = v(e.left), v(e.right)
            if a[0] == 'seq' and b[0] == 'seq' and isinstance(e.op, ast.Add):
                return ('seq', a[1] + b[1])
            if a[0] == 'k' and b[0] == 'k':
                try:
                    f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                         ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y, ast.BitOr: lambda x, y: x | y,
                         ast.Pow: lambda x, y: x ** y if abs(y) < 99 else None, ast.LShift: lambda x, y: x << y if y < 99 else None}[type(e.op)]
                    return ('k', f(a[1], b[1]))
                except (KeyError, ArithmeticError, TypeError):
                    raise Undecided('constant')
            return ('op', type(e.op).__name__, a, b)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            if e.func.id == 'staticmethod' and len(e.args) == 1:
                return v(e.args[0])
            if e.func.id in ('list', 'tuple') and len(e.args) <= 1:
                if not e.args:
                    return ('seq', ())
                x = v(e.args[0])
                if x[0] == 'seq':
                    return x
            if e.func.id in ('set', 'frozenset') and len(e.args) <= 1:
                x = v(e.args[0]) if e.args else ('seq', ())
                if x[0] == 'seq':
                    return ('set', frozenset(x[1]))
            if e.func.id == 'dict' and not e.args:
                return ('dict', ())
        if isinstance(e, ast.Call):
            return ('call', v(e.func), tuple(v(x) for x in e.args), tuple(sorted((k.arg or '', v(k.value)) for k in e.keywords)))
        if isinstance(e, ast.Lambda):
            from .model import dump
            return ('lambda', dump(e))
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name) and cls is not None and cls.find_attr(e.id)[1] is not None:
                c, x = cls.find_attr(e.id)
                return self(x, c.module, c, depth + 1)
            d = mod.dotted(e)
            if d is None:
                raise Undecided('constant')
            d = self.p.canonical(d)
            a = assigned(self.p, d) if d.startswith('satella.') else None
            if a is not None and isinstance(unwrap(a[2]), ast.expr) and unwrap(a[2]) is not e:
                return self(a[2], a[0], a[1], depth + 1)
            return ('g', d)
        if isinstance(e, (ast.FunctionDef, ast.AsyncFunctionDef)):
            raise Undecided('constant is a function')
        raise Undecided('constant: %s' % type(e).__name__)


def decidable(v):
    """values known to differ if they look different"""
    if v[0] in ('k', 'b', 'g'):
        return True
    if v[0] == 'seq':
        return all(decidable(x) for x in v[1])
    if v[0] == 'set':
        return all(decidable(x) for x in v[1])
    if v[0] == 'dict':
        return all(decidable(k) and decidable(x) for k, x in v[1])
    if v[0] == 'call':
        return decidable(v[1]) and all(decidable(x) for x in v[2]) and all(decidable(x) for _, x in v[3])
    if v[0] == 'op':
        return decidable(v[2]) and decidable(v[3])
    return False


def show(v):
    if v[0] in ('k', 'b'):
        return repr(v[1])
    if v[0] == 'g':
        return v[1]
    if v[0] in ('seq', 'set'):
        return '[' + ', '.join(sorted(map(show, v[1])) if v[0] == 'set' else map(show, v[1])) + ']'
    if v[0] == 'dict':
        return '{' + ', '.join(show(k) + ': ' + show(x) for k, x in v[1]) + '}'
    return str(v)[:80]


def check(ctx, rule, dotted, text):
    with ctx.item(rule, dotted):
        a = assigned(ctx.p, dotted)
        if a is None:
            raise Undecided('constant %s is not assigned any more' % dotted)
        mod, cls, e = a
        val = Value(ctx.p)
        got = val(e, mod, cls)
        want = val(ast.parse(text, mode='eval').body, mod, None)
        if got != want and not (decidable(got) and decidable(want)):
            raise Undecided('constant %s cannot be compared' % dotted)
        ctx.check(got == want, rule, dotted, 'the value is %s, documented is %s' % (show(got)[:300], show(want)[:300]),
                  where=mod.relpath, line=getattr(unwrap(e), 'lineno', 0))
