"""Project model: parses every module of the package under analysis and resolves names,
imports (through re-exports), classes, method resolution order and inferred field types.

Nothing of the analysed package is ever imported or executed: only its text is read."""
import ast
import functools
import importlib
import os
import sys

REPO = os.environ.get('SATELLA_REPO', '/repo')
PKG = 'satella'


from .canon import canonical_tree     # noqa: E402


class AnchorMissing(Exception):
    """An element the property is anchored in could not be found in the source."""


class Func:
    __slots__ = ('node', 'module', 'cls', 'name', 'qual', 'decorators')

    def __init__(self, node, module, cls, qual):
        self.node, self.module, self.cls, self.name, self.qual = node, module, cls, node.name, qual
        self.decorators = node.decorator_list

    @property
    def where(self):
        return '%s:%s' % (self.module.relpath, self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def deco_names(self):
        return [self.module.dotted(d.func if isinstance(d, ast.Call) else d) or ''
                for d in self.decorators]

    def kind(self):
        for d in self.deco_names():
            if d in ('staticmethod', 'builtins.staticmethod'):
                return 'static'
            if d in ('classmethod', 'builtins.classmethod'):
                return 'class'
            if d.split('.')[-1] in ('property', 'cached_property', 'abstractproperty'):
                return 'property'
            if d.endswith('.setter'):
                return 'setter'
        return 'inst'

    def is_generator(self):
        return is_generator(self.node)


def is_generator(fn):
    if isinstance(fn, ast.Lambda):
        return False
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


@functools.lru_cache(None)
def stdlib_has(cls, name):
    """May that external class define `name`?  What classes of the standard library define is known."""
    mod, _, attr = cls.rpartition('.')
    mod = mod or 'builtins'
    if mod.split('.')[0] not in sys.stdlib_module_names:
        return True
    try:
        c = getattr(importlib.import_module(mod), attr)
    except (ImportError, AttributeError):
        return True
    return not isinstance(c, type) or hasattr(c, name)


class Cls:
    def __init__(self, node, module, qual):
        self.node, self.module, self.name, self.qual = node, module, node.name, qual
        self.methods = {}
        self.setters = {}
        self.attrs = {}          # class level assignments: name -> ast expr
        self.inner = {}
        self.base_exprs = [b for b in node.bases]
        self._mro = None
        self._ftypes = None

    @property
    def fq(self):
        return self.module.name + '.' + self.qual

    def bases(self):
        out = []
        for b in self.base_exprs:
            e = b.value if isinstance(b, ast.Subscript) else b
            d = self.module.dotted(e)
            c = self.module.project.lookup(d) if d else None
            out.append(c if isinstance(c, Cls) else (d or '?'))
        return out

    def mro(self):
        """Repo classes and external dotted names in (C3) linearised order"""
        if self._mro is None:
            self._mro = [self]
            seqs = []
            bases = self.bases()
            for b in bases:
                seqs.append(list(b.mro()) if isinstance(b, Cls) else [b])
            seqs.append(list(bases))
            res = [self]
            guard = 0
            while any(seqs) and guard < 500:
                guard += 1
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            self._mro = res
        return self._mro

    def find(self, name, after=None):
        """Find method in MRO (optionally strictly after class `after`). Returns Func, external
        dotted name of the class that may define it, or None"""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro[1:]
        for c in mro:
            if isinstance(c, Cls):
                if name in c.methods:
                    return c.methods[name]
                pre = '_' + c.name.lstrip('_') + '__'
                if name.startswith(pre) and name[len(pre) - 2:] in c.methods:
                    return c.methods[name[len(pre) - 2:]]
            else:
                if c not in ('object', 'builtins.object', '?') and not c.startswith('typing.') \
                        and not c.startswith('abc.') and stdlib_has(c, name):
                    return c
        return None

    def find_repo(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def is_subclass_of(self, suffix):
        return any((c.fq if isinstance(c, Cls) else c).endswith(suffix) for c in self.mro())

    def field_types(self):
        """field name -> set of dotted constructors / literal kinds assigned to self.<field>"""
        if self._ftypes is None:
            ft = {}
            self._ftypes = ft
            for c in reversed([c for c in self.mro() if isinstance(c, Cls)]):
                own = c.methods.get('__init__')
                if own is not None:
                    # a constructor that assigns a field overrides what the bases put there
                    a = own.node.args.posonlyargs + own.node.args.args
                    for n in ast.walk(own.node):
                        if a and isinstance(n, ast.Assign):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                                        and t.value.id == a[0].arg and expr_type(n.value, c.module) not in ('?', 'const'):
                                    ft.pop(mangle(t.attr, c), None)
                for m in c.methods.values():
                    a = m.node.args.posonlyargs + m.node.args.args
                    if not a:
                        continue
                    sname = a[0].arg
                    for n in ast.walk(m.node):
                        tgts = []
                        if isinstance(n, ast.Assign):
                            tgts = n.targets
                        elif isinstance(n, ast.AnnAssign) and n.value is not None:
                            tgts = [n.target]
                        for t in tgts:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                                    and t.value.id == sname:
                                ft.setdefault(mangle(t.attr, c), set()).add(
                                    expr_type(n.value, c.module))
        return self._ftypes


def mangle(attr, cls):
    if attr.startswith('__') and not attr.endswith('__') and cls is not None:
        return '_' + cls.name.lstrip('_') + attr
    return attr


def expr_type(e, module):
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return 'builtins.dict'
    if isinstance(e, (ast.List, ast.ListComp)):
        return 'builtins.list'
    if isinstance(e, (ast.Set, ast.SetComp)):
        return 'builtins.set'
    if isinstance(e, ast.Call):
        d = module.dotted(e.func)
        return d or '?'
    if isinstance(e, ast.Constant):
        return 'const'
    return '?'


class Module:
    def __init__(self, project, name, path, relpath):
        self.project, self.name, self.path, self.relpath = project, name, path, relpath
        with open(path, 'r', encoding='utf-8', newline=None) as f:
            self.source = f.read()
        self.tree = canonical_tree(ast.parse(self.source, filename=path))
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self.star = []
        self.local_imports = {}             # names imported inside functions
        self._collect(self.tree.body, None, '')
        for n in ast.walk(self.tree):
            if isinstance(n, ast.ImportFrom) and not any(a.name == '*' for a in n.names):
                self._import_from(n, self.local_imports)

    def _pkg(self):
        return self.name if self.is_pkg else self.name.rsplit('.', 1)[0]

    def _collect(self, body, cls, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(n, self, cls, prefix + n.name)
                if cls is None:
                    self.functions[n.name] = f
                else:
                    if f.kind() == 'setter':
                        cls.setters[n.name] = f
                    else:
                        cls.methods[n.name] = f
                self.project.all_funcs.append(f)
            elif isinstance(n, ast.ClassDef):
                c = Cls(n, self, prefix + n.name)
                if cls is None:
                    self.classes[n.name] = c
                else:
                    cls.inner[n.name] = c
                self.project.all_classes.append(c)
                self._collect(n.body, c, prefix + n.name + '.')
            elif isinstance(n, ast.Import) and cls is None:
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else \
                        a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                self._import_from(n, self.imports)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._collect(getattr(n, fld, []) or [], cls, prefix)
                for h in getattr(n, 'handlers', []):
                    self._collect(h.body, cls, prefix)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tgts:
                    if isinstance(t, ast.Name) and n.value is not None:
                        if cls is None:
                            self.globals[t.id] = n.value
                        else:
                            cls.attrs[t.id] = n.value
                            if isinstance(n.value, ast.Name) and n.value.id in cls.methods:
                                cls.methods[t.id] = cls.methods[n.value.id]

    def _import_from(self, n, into):
        if n.level:
            parts = self._pkg().split('.')
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        else:
            base = n.module or ''
        for a in n.names:
            if a.name == '*':
                self.star.append(base)
            else:
                into[a.asname or a.name] = base + '.' + a.name

    def dotted(self, e):
        """Dotted, import-resolved name of an expression, or None"""
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return None if b is None else b + '.' + e.attr
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id)
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.isidentifier():
            return self.resolve_name(e.value)
        return None

    def resolve_name(self, name):
        if name in self.classes or name in self.functions:
            return self.name + '.' + name
        if name in self.imports:
            return self.project.canonical(self.imports[name])
        if name in self.globals:
            v = self.globals[name]
            if isinstance(v, (ast.Name, ast.Attribute)):
                d = self.dotted(v) if not (isinstance(v, ast.Name) and v.id == name) else None
                if d:
                    return d
            return self.name + '.' + name
        import builtins
        if hasattr(builtins, name):
            return 'builtins.' + name
        if name in self.local_imports:
            return self.project.canonical(self.local_imports[name])
        return name


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.all_funcs = []
        self.all_classes = []
        self._canon = {}
        self.broken = []
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnchorMissing('package directory %s' % base)
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            if '__pycache__' in dp:
                continue
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                try:
                    self.modules[name] = Module(self, name, p, rel)
                except SyntaxError as e:
                    self.broken.append((name, str(e)))

    def canonical(self, dotted, depth=0):
        """Follow re-exports inside the package"""
        if depth > 12 or not dotted.startswith(PKG):
            return dotted
        if dotted in self._canon:
            return self._canon[dotted]
        parts = dotted.split('.')
        res = dotted
        for i in range(len(parts), 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if not rest:
                break
            nm = rest[0]
            if nm in m.classes or nm in m.functions or nm in m.globals:
                break
            if nm in m.imports:
                tgt = m.imports[nm]
                if tgt != '.'.join(parts[:i + 1]):
                    res = self.canonical('.'.join([tgt] + rest[1:]), depth + 1)
                break
            found = False
            for s in m.star:
                sm = self.modules.get(s)
                if sm and (nm in sm.classes or nm in sm.functions or nm in sm.imports or
                           nm in sm.globals):
                    res = self.canonical('.'.join([s] + rest), depth + 1)
                    found = True
                    break
            break
        self._canon[dotted] = res
        return res

    def lookup(self, dotted):
        """Return Cls/Func/('global', module, name)/Module for a dotted name or None"""
        if not dotted:
            return None
        dotted = self.canonical(dotted)
        if dotted in self.modules:
            return self.modules[dotted]
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            cur = m.classes.get(rest[0]) or m.functions.get(rest[0])
            if cur is None:
                if rest[0] in m.globals and len(rest) == 1:
                    return ('global', m, rest[0])
                return None
            for r in rest[1:]:
                if isinstance(cur, Cls):
                    nxt = cur.inner.get(r) or cur.find_repo(r)
                    if nxt is None:
                        return None
                    cur = nxt
                else:
                    return None
            return cur
        return None

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnchorMissing('module %s' % name)
        return m

    def cls(self, dotted):
        c = self.lookup(dotted)
        if not isinstance(c, Cls):
            raise AnchorMissing('class %s' % dotted)
        return c

    def func(self, dotted):
        c = self.lookup(dotted)
        if not isinstance(c, Func):
            raise AnchorMissing('function %s' % dotted)
        return c

    def method(self, clsdotted, name):
        c = self.cls(clsdotted)
        f = c.find_repo(name)
        if f is None:
            raise AnchorMissing('method %s.%s' % (clsdotted, name))
        return f
