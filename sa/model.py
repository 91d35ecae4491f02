"""Comparison of a function of the tree with a reference model of its behaviour.

A reference model is a function definition written next to the rule. Both the model and the function of the
tree are abstracted by the same interpreter into decision rows: (what was tested and which operations failed)
-> (what was returned or raised, what was written, which foreign calls were made, what was yielded). The rule is
that every row of the tree agrees with every row of the model whose conditions are compatible with it.

Rows are compared in a normal form: names of locals, helper functions, order of independent statements, polarity of
conditions, exact spelling of arithmetic and the wording of messages do not matter. If a row of the tree that
does not agree uses an operation which the model does not know (so that the two could still mean the same
thing) the obligation is undecided and not an alarm."""
import ast
import copy

from .project import Module, Func, Cls
from .canon import canonical_tree
from .engine import Interp, PURE, NORAISE_EXT, Budget
from .terms import *
from .core import Undecided
from .q import short

QUERY = set('''cancelled done is_alive is_set qsize empty full keys values items copy startswith endswith split rsplit strip lstrip
rstrip join format encode decode lower upper isoformat index count find rfind partition rpartition isdigit isidentifier total_seconds
timestamp fileno isatty tell getpid'''.split())
IMPURE = {'builtins.' + x for x in 'print open setattr delattr next exec eval input __import__ compile iter'.split()}
QUIET = {'time.monotonic', 'time.time', 'time.perf_counter'}
FAMILIES = [{'bisect.bisect', 'bisect.bisect_left', 'bisect.bisect_right', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right'},
            {'.append', '.appendleft', '.insert'}, {'.pop', '.popleft', '.popitem', '<delitem>'}, {'builtins.min', 'builtins.max'},
            {'builtins.any', 'builtins.all'}, {'time.time', 'time.monotonic', 'time.perf_counter'},
            {'builtins.list', 'builtins.set', 'builtins.tuple', 'builtins.frozenset'},
            {'.extend', '.append', '.update', '.add'}, {'.keys', '.values', '.items'}, {'.read', '.readline', '.readlines', '.readall'}, {'.flush', '.close'},
            {'.commit', '.rollback'}, {'.terminate', '.kill'}, {'.set_result', '.set_exception', '.cancel'}, {'.add_result', '.add_exception', '.add_cancelled'},
            {'.put', '.put_nowait', '.get', '.get_nowait'}, {'.discard', '.remove'}, {'.encode', '.decode'},
            {'.lower', '.upper'}, {'.startswith', '.endswith'}, {'.getboolean', '.getint'},
            {'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heapreplace', 'heapq.heappushpop'},
            {'json.dumps', 'json.dump'}, {'json.loads', 'json.load'}, {'pickle.dumps', 'pickle.loads'},
            {'copy.copy', 'copy.deepcopy'}, {'builtins.bytes', 'builtins.str', 'builtins.repr'},
            {'builtins.isinstance', 'builtins.issubclass', 'builtins.type'},
            {'builtins.hasattr', 'builtins.getattr'}, {'builtins.int', 'builtins.float', 'builtins.round', 'builtins.complex', 'math.floor', 'math.ceil', 'math.trunc'},
            {'operator.' + x for x in 'eq ne lt le gt ge contains add sub mul truediv floordiv mod pow and_ or_ xor lshift rshift getitem neg pos invert matmul is_ is_not'.split()},
            {'builtins.hash', 'builtins.id'}, {'.notify', '.notify_all'}, {'.acquire', '.release'}, {'.strip', '.lstrip', '.rstrip'},
            {'.start', '.join'}, {'.__enter__', '.__exit__'}, {'itertools.takewhile', 'itertools.dropwhile'}, {'.union', '.intersection', '.difference'}]
FAM = {}
for _f in FAMILIES:
    for _x in _f:
        FAM.setdefault(_x, set()).update(_f)
LOOKUPS = {'<getitem>', '<sub>', '<delitem>', '.get', '.pop', '.remove', '.discard', '.setdefault', '.index', '.find', '.add', 'builtins.any',
           'builtins.all', '.count', '.keys', '.values', '.items', 'builtins.dict', 'builtins.set', 'builtins.getattr', 'builtins.hasattr'}
# builtin methods and functions whose meaning cannot coincide with one another by accident
ANY = ('g', 'ANY')


class SpecModule(Module):
    """The text of a model, resolved in the name space of the module it models"""

    def __init__(self, target, text):
        self.project, self.name, self.path, self.relpath = target.project, target.name, target.path, '<model>'
        self.source, self.tree = text, canonical_tree(ast.parse(text))
        self.is_pkg = target.is_pkg
        self.target = target
        self.imports, self.functions, self.classes, self.globals, self.star, self.local_imports = {}, {}, {}, {}, [], {}
        for n in self.tree.body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                self._import_from(n, self.imports)

    def resolve_name(self, name):
        if name in self.imports:
            return self.project.canonical(self.imports[name])
        return self.target.resolve_name(name)


# ------------------------------------------------------------------------------------------------ normal form
CLOSURES = {}           # shape -> [(of the model?, text, node, module, class)]
FORMS = {}              # (of the model?, text) -> text of the closure that does the same
COMPARED = set()       # texts of closures of the code that were compared with all closures of the model
UNSURE = set()         # texts of closures of the code that could not be compared with one of a model
DEPTH = [0]
DEBUG = False
OUTER = {}


class NotCallable(Exception):
    pass


class Trial:
    """a context in which two closures are compared"""

    def __init__(self, p):
        self.p, self.tier, self.good, self.funcs, self.truncated, self.notes = p, 'quick', False, set(), set(), []
        self.npaths = self.nevents = 0

    def ok(self, rule, name):
        self.good = True

    def bad(self, *a, **kw):
        pass


def closure_form(node, mod, cls, project):
    """the text of a closure, or that of the one on the other side (model or code) that does the same"""
    d = dump(node)
    side = isinstance(mod, SpecModule)
    key = (side, d)
    if key in FORMS:
        return FORMS[key]
    if isinstance(node, ast.Lambda):
        f = ast.FunctionDef(name='closure', args=node.args, body=[ast.copy_location(ast.Return(node.body), node)], decorator_list=[], returns=None, type_params=[])
        f = ast.fix_missing_locations(ast.copy_location(f, node))
    else:
        f = node
    a = node.args
    shape = (len(a.posonlyargs) + len(a.args), bool(a.vararg), tuple(sorted(x.arg for x in a.kwonlyargs)), bool(a.kwarg), len(a.defaults))
    known = CLOSURES.setdefault(shape, [])
    FORMS[key] = d
    if not isinstance(f, ast.FunctionDef) or f.decorator_list:
        return d
    if DEPTH[0] < 2 and not any(s != side and t == d for s, t, *_ in known):
        DEPTH[0] += 1
        try:
            for s, t, n2, m2, c2 in known:
                if s == side or not isinstance(m2, Module):
                    continue
                spec, code = ((n2, m2), (f, mod)) if s else ((f, mod), (n2, m2))
                same = same_closure(project, spec, code, cls if cls is not None else c2)
                if same:
                    FORMS[key] = t
                    break
                if same is None:
                    UNSURE.add(d if not side else t)
                elif not side:
                    COMPARED.add(d)
        finally:
            DEPTH[0] -= 1
    known.append((side, d, f, mod, cls))
    return FORMS[key]


def same_closure(project, spec, code, cls):
    free = tuple({n.id for x in (spec, code) for n in ast.walk(x[0]) if isinstance(n, ast.Name)})
    t = Trial(project)
    try:
        check_model(t, 'closure', 'closure', Func(code[0], code[1], None, 'closure'), None,
                    [(spec[1], spec[0])], dict(DEFAULTS, free=free, exc=True, **OUTER))
    except (Undecided, Budget, RecursionError) as e:
        if DEBUG:
            print('closures:', e)
        return None
    return t.good


class Normal:
    def __init__(self, interp, ren=None):
        self.it, self.ren = interp, ren or {}
        self.news = {}
        self.exits, self.making = (), False

    def __call__(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == 'c':
            return t
        if k in ('p', 'va', 'kwa') and len(t) == 2 and isinstance(t[1], str):
            return (k, self.ren.get(t[1], t[1]))
        if k == 'call' and len(t) < 4:
            return tuple(self(x) if isinstance(x, tuple) else x for x in t)
        if k == 'call':
            fn = self(t[1])
            if t[1] == ('g', 'builtins.isinstance') and len(t[2]) == 2:
                return ('call', fn, tuple(self(x) for x in t[2]), ())
            if t[1][0] == 'a' and t[1][2] == 'pop' and len(t[2]) == 1 and not t[3] and t[1][1] != SELF:
                return ('sub', self(t[1][1]), self(t[2][0]))
            kw = tuple(sorted(((n or '', self(v)) for n, v in t[3]), key=lambda x: (x[0], repr(x[1]))))
            return ('call', fn, self.arguments(t[2]), kw)
        if k == 'elem' and len(t) == 4:
            v = views(t[1])
            el = ('elem', self(v[0] if v else t[1]), t[3])
            if v and v[1] == 'values':
                return ('sub', el[1], el)
            if v and v[1] == 'items':
                return ('tup', (el, ('sub', el[1], el)))
            return el
        if k == 'sub' and len(t) == 3 and t[1][0] == 'elem' and (views(t[1][1]) or ('', ''))[1] == 'items' and t[2] in (C(0), C(1)):
            return self(t[1])[1][t[2][2]]
        if k in ('key', 'val') and len(t) == 4:
            el = ('elem', self(t[1]), t[3])
            return el if k == 'key' else ('sub', el[1], el)
        if k == 'celem' and len(t) == 4:
            return (k, self(t[1]), t[3])
        if k == 'idx':
            return ('idx', t[2])
        if k == 'new' and len(t) == 3:
            m = self.news.setdefault(t[1], {})
            return ('new', t[1], m.setdefault(t[2], len(m)))
        if k in ('list', 'set') and len(t) == 3:
            return (k, tuple(self(x) for x in t[1]))
        if k == 'dict' and len(t) == 3:
            return (k, tuple((self(a) if a else None, self(b)) for a, b in t[1]))
        if k == 'exc':
            return ('exc', self.origin(t))
        if k == 'unk':
            return ('unk', t[2])
        if k == 'sent':
            return ('sent',)
        if k == 'clo':
            c = self.it.closures.get(t[1])
            if c is not None and c[1] is None and c[3] is None and getattr(c[0], 'name', None) and isinstance(c[2], Module):
                return ('fn', c[2].name + '.' + c[0].name)
            return ('clo', closure_form(c[0], c[2], c[3], self.it.p) if c else '?')
        if k == 'gen' and len(t) == 4:
            return ('gen', self(('clo', t[1])), tuple(self(x) for x in t[2]), tuple((n, self(x)) for n, x in t[3]))
        if k == 'genexp':
            c = self.it.closures.get(t)
            return ('clo', dump(c[0]) if c else '?')
        if k == 'lt0':
            return ('lt0', tuple(sorted(((self(x), c) for x, c in t[1]), key=repr)), t[2])
        if k == 'cmp' and t[1] in ('Gt', 'GtE') and len(t) == 4:
            return ('cmp', 'Lt' if t[1] == 'Gt' else 'LtE', self(t[3]), self(t[2]))
        if k == 'cmp' and t[1] in ('Eq', 'Is'):
            a, b = self(t[2]), self(t[3])
            if t[1] == 'Is' and self.exits and NONE in (a, b):
                # either all of the arguments of __exit__ are None or none of them is
                a, b = (('p', self.exits[0]) if x[0] == 'p' and x[1] in self.exits else x for x in (a, b))
            a, b = sorted((a, b), key=repr)
            return ('cmp', t[1], a, b)
        if k == 'op' and t[1] in ('Add', 'Sub', 'Mult'):
            return self.arith(t)
        return tuple(self(x) if isinstance(x, tuple) else x for x in t)

    def arguments(self, ts):
        out = []
        for x in ts:
            if x[0] == 'star' and x[1][0] == 'op' and x[1][1] == 'Add' and any(y[0] in ('va', 'tup') for y in x[1][2:4]):
                out += self.arguments([('star', x[1][2]), ('star', x[1][3])])
            elif x[0] == 'star' and x[1][0] == 'tup':
                out += self.arguments(x[1][1])
            else:
                out.append(self(x))
        return tuple(out)

    def arith(self, t):
        """linear normal form when it is one of numbers"""
        a, b = self(t[2]), self(t[3])
        return ('op', t[1], a, b)

    def origin(self, e):
        if e[2] is not None and isinstance(e[4], tuple) and e[4] and e[4][0] in ('new', 'cls'):
            return tuple(short(x) for x in e[2])
        return self(e[4]) if isinstance(e[4], tuple) else (tuple(short(x) for x in e[2]) if e[2] else None)


def views(t):
    """(mapping, method) when t is one of the views of a mapping"""
    if t[0] == 'call' and len(t) == 4 and t[1][0] == 'a' and t[1][2] in ('items', 'keys', 'values') and not t[2] and not t[3] and t[1][1] != SELF:
        return t[1][1], t[1][2]
    return None


def dump(n):
    import copy
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        for f in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
            if hasattr(x, f):
                setattr(x, f, 0)
    names = {}
    args = [x for x in ast.walk(n) if isinstance(x, ast.arg)]
    for a in args:
        names.setdefault(a.arg, 'a%d' % len(names))
    for x in ast.walk(n):                       # variables of the closure itself
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.setdefault(x.id, 'a%d' % len(names))
    for x in ast.walk(n):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                isinstance(x.left, ast.Constant):
            x.left, x.comparators = x.comparators[0], [x.left]
        if isinstance(x, ast.arg):
            x.arg, x.annotation = names[x.arg], None
        elif isinstance(x, ast.Name) and x.id in names:
            x.id = names[x.id]
        elif isinstance(x, ast.FunctionDef):
            x.name, x.returns = 'f', None
            if x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant):
                x.body = x.body[1:] or [ast.Pass()]
    return ast.dump(n)


IGNORED_CALL = ('logging.', 'warnings.warn')


def literal_members(t, interp):
    """elements of a module level constant collection that nothing in the module changes"""
    if t[0] != 'g' or interp is None:
        return None
    l = interp.p.lookup(t[1])
    if not (isinstance(l, tuple) and l[0] == 'global'):
        return None
    mod, name = l[1], l[2]
    v = mod.globals[name]
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('frozenset', 'set', 'tuple', 'list') and len(v.args) == 1:
        v = v.args[0]
    if not isinstance(v, (ast.Set, ast.Tuple, ast.List)) or not all(isinstance(x, ast.Constant) for x in v.elts) or not v.elts:
        return None
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Global) and name in n.names or \
                isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.Name) and n.value.id == name:
            return None
    return tuple(C(x.value) for x in v.elts)


def members(a, interp=None):
    """alternatives of a membership test in a literal collection, or of isinstance with a tuple of classes"""
    if a[0] == 'cmp' and a[1] == 'In' and literal_members(a[3], interp):
        return [('cmp', 'Eq') + tuple(sorted((a[2], x), key=repr)) for x in literal_members(a[3], interp)]
    if a[0] == 'cmp' and a[1] == 'In' and a[3][0] in ('tup', 'list', 'set') and a[3][1] and not any(x[0] == 'star' for x in a[3][1]):
        out = []
        for x in a[3][1]:
            p, q = sorted((a[2], x), key=repr)
            out.append(('cmp', 'Eq', p, q))
        return out
    if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('g', 'builtins.isinstance') and len(a[1][2]) == 2 and \
            a[1][2][1][0] == 'tup' and not any(x[0] == 'star' for x in a[1][2][1][1]):
        return [('truthy', ('call', a[1][1], (a[1][2][0], x), ())) for x in a[1][2][1][1]]
    return None


def make_rows(path, interp, ren, opts):
    r = Row(path, interp, ren, opts)
    rows = [r.facts]
    for (a, n), v in list(r.facts.items()):
        m = members(a, interp)
        if m is None:
            continue
        nxt = []
        for f in rows:
            f = dict(f)
            del f[(a, n)]
            if not v:
                for x in m:
                    f.setdefault((x, n), False)
                    if f[(x, n)]:
                        break
                else:
                    nxt.append(f)
            else:
                for i, x in enumerate(m):
                    g = dict(f)
                    if g.get((x, n)) is False:
                        continue
                    g[(x, n)] = True
                    for y in m[:i]:
                        g.setdefault((y, n), False)
                    nxt.append(g)
        rows = nxt[:64]
    out = []
    import copy
    for f in rows:
        q = copy.copy(r)
        q.facts = f
        out.append(q)
    return out


def is_pop(fn, args, kw):
    return fn[0] == 'a' and fn[2] == 'pop' and len(args) == 1 and not kw and fn[1] != SELF


def canonical(a, truth):
    """integer comparisons in one form; emptiness as falsity"""
    if a[0] == 'lt0' and any(t[0] == 'call' and t[1] == ('g', 'builtins.len') for t, _ in a[1]) and \
            all(isinstance(c, int) for _, c in a[1]) and isinstance(a[2], int):
        if a[1][0][1] < 0:
            a, truth = ('lt0', tuple((t, -c) for t, c in a[1]), -a[2] - 1), not truth
        if len(a[1]) == 1 and a[1][0][1] == 1 and a[2] == -1:
            return ('truthy', a[1][0][0][2][0]), not truth
    if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('g', 'builtins.len') and len(a[1][2]) == 1:
        return ('truthy', a[1][2][0]), truth
    if a[0] == 'cmp' and a[1] == 'Eq':
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if x[0] == 'call' and x[1] == ('g', 'builtins.len') and len(x[2]) == 1 and y[0] == 'c' and y[2] == 0:
                return ('truthy', x[2][0]), not truth
    return a, truth


class Row:
    """One path in normal form"""

    def __init__(self, path, interp, ren, opts):
        self.path, self.kind = path, path.kind
        nz = self.nz = Normal(interp, ren)
        nz.exits, nz.making = opts.get('exits'), opts.get('making')
        self.facts, self.fails, self.loops = {}, {}, {}
        self.effects = []
        count, ops, iters, loops = {}, {}, {}, {}
        stores = {}
        self.caught = False
        changed, self.pops = [], {}
        excs = {}
        thrown = {e.d['exc'][4] for e in path.events if e.kind == 'raise' and e.d.get('exc') and e.d['exc'][0] == 'exc' and
                  isinstance(e.d['exc'][4], tuple)}
        walked = {e.d['iterable'] for e in path.events if e.kind == 'iter' and views(e.d['iterable'])}
        asked, tick = {}, 0
        for e in path.events:
            d = e.d
            k = e.kind
            if k != 'assume' and k != 'load' and not d.get('inlined'):
                tick += 1
            if k == 'assume':
                a, truth = canonical(nz(d['cond']), d['truth'])
                if nz.exits and a == ('truthy', ('p', nz.exits[0])):
                    a, truth = nz(('cmp', 'Is', NONE, a[1])), not truth
                # how often what the condition speaks about has been changed by then
                version = sum(1 for b in changed if contains(a, b))
                if asked.get((a, version)) == (tick, truth):
                    continue                            # asked again with nothing in between
                asked[(a, version)] = (tick, truth)
                n = count[(a, version)] = count.get((a, version), -1) + 1
                self.facts[(a, version * 1000 + n)] = truth
            elif k == 'call':
                if d.get('inlined'):
                    continue
                fn = d['fn']
                if fn is None:
                    continue
                if d['result'] in walked:
                    continue                            # the same as walking the mapping itself
                key = ('call', nz(fn), nz.arguments(d['args']), tuple(sorted(((n or '', nz(v)) for n, v in d['kw']), key=repr)))
                ops[key[1]] = ops.get(key[1], -1) + 1
                if is_pop(fn, d['args'], d['kw']):
                    item = ('getitem', nz(fn[1]), nz(d['args'][0]))
                    ops[item] = ops.get(item, -1) + 1
                    self.fails.setdefault((item, ops[item]), None)
                    self.effects.append(('delitem',) + item[1:])
                    changed.append(item[1])
                    self.pops[key[1]] = item
                    continue
                self.pops.pop(key[1], None)             # with a default this is another operation
                self.fails.setdefault((('call', key[1]), ops[key[1]]), None)
                if fn == ('g', 'builtins.next') and len(d['args']) == 1:
                    # which of the calls to next() finds the end makes a difference
                    item = ('next', nz(d['args'][0]))
                    ops[item] = ops.get(item, -1) + 1
                    self.fails.setdefault((item, ops[item]), None)
                g = fn[1] if fn[0] == 'g' else ''
                if fn[0] == 'g' and (g in PURE or g in QUIET or g.startswith(IGNORED_CALL)) or \
                        g.startswith('builtins.') and g not in IMPURE:
                    continue
                if fn[0] == 'a' and d.get('name') in QUERY and (d['name'] != 'join' or fn[1][0] == 'c'):
                    continue
                if fn[0] == 'a' and fn[1][0] == 'g' and fn[1][1].lower().endswith(('logger', 'log')):
                    continue
                if d['result'] is not None and (self.is_exception(d['result'], interp) or
                                                any(contains(t, d['result']) for t in thrown) and
                                                not any(x is not e and x.kind == 'call' and not (x.d['result'] and (
                                                    x.d['result'] in thrown or self.is_exception(x.d['result'], interp) or any(contains(t, x.d['result']) for t in thrown))) and
                                                        any(contains(y, d['result']) for y in list(x.d['args']) + [v for _, v in x.d['kw']])
                                                        for x in path.events)):
                    continue
                if d.get('name') in opts['ignore']:
                    continue
                self.effects.append(('call',) + key[1:])
                if fn[0] == 'a' and fn[1] != SELF:
                    changed.append(nz(fn[1]))
            elif k in ('getitem', 'delitem', 'await', 'enter'):
                key = {'getitem': lambda: ('getitem', nz(d['base']), nz(d['idx'])),
                       'delitem': lambda: ('delitem', nz(d['base']), nz(d['idx'])),
                       'await': lambda: ('await', nz(d['value'])), 'enter': lambda: ('enter', nz(d.get('cm')))}[k]()
                ops[key] = ops.get(key, -1) + 1
                self.fails.setdefault((key, ops[key]), None)
                if k != 'getitem':
                    self.effects.append(key)
                if k == 'delitem':
                    changed.append(key[1])
            elif k == 'wait':
                key = ('wait', nz(d['lock']))
                ops[key] = ops.get(key, -1) + 1
                self.fails.setdefault((key, ops[key]), None)
                self.effects.append(key + (nz.arguments(d['args']), tuple(sorted(((n or '', nz(v)) for n, v in d['kw']), key=repr))))
            elif k == 'setitem':
                changed.append(nz(d['base']))
                self.effects.append(('setitem', nz(d['base']), nz(d['idx']), nz(d['value'])))
            elif k == 'store':
                b = nz(d['base'])
                if b[0] == 'clo' and d['attr'].startswith('__'):
                    continue                    # docs and names of a function being made
                self.effects.append(('store', b, d['attr'], nz(d['value'])))
            elif k == 'delattr':
                self.effects.append(('delattr', nz(d.get('base')), d.get('attr')))
            elif k in ('nlstore', 'gstore'):
                self.effects.append((k, d['name'], nz(d['value'])))
            elif k in ('yield', 'yieldfrom'):
                self.effects.append((k, nz(d['value'])))
            elif k == 'exit':
                self.effects.append(('exit', nz(d.get('cm'))))
            elif k == 'acquire' and d.get('lock') is not None and (d['args'] or d['kw']):
                # whether an attempt that may fail has succeeded
                blocking = d['args'][0] if d['args'] else dict(d['kw']).get('blocking', ('c', 'bool', True))
                limit = d['args'][1] if len(d['args']) > 1 else dict(d['kw']).get('timeout')
                if blocking != ('c', 'bool', True) or limit is not None:
                    a = ('acquired', nz(d['lock']))
                    n = count[a] = count.get(a, -1) + 1
                    self.facts[(a, n)] = d['ok']
            elif k == 'notify' and opts['notify']:
                self.effects.append(('notify', nz(d.get('lock')), d.get('name')))
            elif k == 'iter' and d.get('loop') is not None and not d.get('comp'):
                v = views(d['iterable'])
                x = v[0] if v else d['iterable']
                if x[0] == 'call' and x[1] == ('g', 'builtins.enumerate') and x[2]:
                    x = x[2][0]                 # counting along changes nothing about the elements
                it = nz(x)
                n = iters[it] = iters.get(it, -1) + 1
                loops[d['loop']] = (it, n)
            elif k == 'loophead' and d.get('loop') in loops:
                self.loops[loops[d['loop']] + (d['i'],)] = True
                self.drawn(('iterate', loops[d['loop']][0]), ops)
            elif k == 'loopexit' and d.get('loop') in loops and d.get('how') == 'exhausted':
                self.loops[loops[d['loop']] + (d['n'],)] = False
                self.drawn(('iterate', loops[d['loop']][0]), ops)
            elif k in ('raise', 'catch', 'reraise', 'swallow', 'uncaught'):
                for x in (d.get('exc'), d.get('cause')):
                    if not x or x[0] != 'exc':
                        continue
                    old = excs.get(x[1])
                    if old is None or (old[2] is None and x[2] is not None) or len(x[3]) > len(old[3]) or \
                            (x[2] is not None and old[2] is not None and len(x[2]) < len(old[2])):
                        excs[x[1]] = x
                    if k == 'raise' and x is d.get('exc') and isinstance(x[4], tuple) and x[4]:
                        self.fail(x, nz, ops)
                if k in ('catch', 'swallow'):
                    self.caught = True
        if path.val and path.val[0] == 'exc':
            excs[path.val[1]] = path.val
        # refine the recorded failures
        self.fails = {k: (excs.get(v[1], v) if v else None) for k, v in self.fails.items()}
        if path.kind == 'raise':
            v = path.val
            if v[0] == 'exc' and v[2] is not None and self.own(v):
                self.out = ('raise', tuple(sorted(short(x) for x in v[2])))
            elif v[0] == 'exc':
                self.out = ('raise?', nz(v[4]) if isinstance(v[4], tuple) else None)
            else:
                self.out = ('raise', nz(v))
        else:
            self.out = ('ret', nz(path.val) if path.val is not None else NONE)
            if opts.get('truth'):
                # only the truth of the result counts
                v = self.out[1]
                known = [t for (a, _), t in self.facts.items() if a == ('truthy', v)]
                if v[0] == 'c' or known:
                    self.out = ('ret', C(bool(v[2]) if v[0] == 'c' else known[-1]))

    def drawn(self, key, ops):
        """an element (or the end) obtained without a failure"""
        ops[key] = ops.get(key, -1) + 1
        self.fails.setdefault((key, ops[key]), None)

    @staticmethod
    def own(v):
        """raised by a raise statement and not by an operation that failed"""
        o = v[4]
        if isinstance(o, tuple) and o and o[0] == 'call' and len(o) >= 4:
            return True
        return not (isinstance(o, tuple) and o and isinstance(o[0], str) and o[0] in (
            'call', 'getitem', 'delitem', 'iterate', 'enter', 'next', 'getattr', 'arith', 'wait', 'await', 'yield', 'import'))

    @staticmethod
    def is_exception(r, interp):
        if r[0] == 'new':
            c = interp.p.lookup(r[1])
            return interp.is_exc(c) or (isinstance(c, Cls) and c.is_subclass_of('Exception'))
        if r[0] == 'call' and r[1][0] == 'g':
            return interp.is_builtin_exc(r[1][1])
        return False

    def fail(self, x, nz, ops):
        o = x[4]
        k = o[0]
        if k == 'call' and len(o) > 2:
            return
        if k == 'call':
            key = nz(o[1])
            if key in self.pops:
                item = self.pops[key]
                self.fails[(item, ops.get(item, 0))] = x
                if self.effects and self.effects[-1] == ('delitem',) + item[1:]:
                    self.effects.pop()
                return
            self.fails[(('call', key), ops.get(key, 0))] = x
        elif k in ('getitem', 'delitem'):
            key = (k, nz(o[1]), nz(o[2]))
            ops[key] = ops.get(key, -1) + 1
            self.fails[(key, ops[key])] = x
        elif k in ('await',):
            key = (k, nz(o[1]))
            self.fails[(key, ops.get(key, 0))] = x
        elif k in ('iterate', 'next', 'enter', 'getattr', 'arith', 'yield', 'wait', 'import'):
            key = tuple([k] + [nz(y) if isinstance(y, tuple) else y for y in o[1:]])
            if k not in ('next', 'wait') or key not in ops:
                ops[key] = ops.get(key, -1) + 1
            self.fails[(key, ops[key])] = x

    # -------------------------------------------------------------------------- vocabulary
    def symbols(self, skip=()):
        """names of the operations on the path, except for those in the conditions to skip"""
        out, comps = set(), set()

        def visit(t):
            if not isinstance(t, tuple) or not t:
                return
            k = t[0]
            if isinstance(k, tuple):
                for x in t:
                    visit(x)
                return
            if k == 'c':
                return
            if k == 'a' and len(t) == 3:
                out.add('.' + t[2])
                visit(t[1])
                return
            if k == 'g' and len(t) == 2:
                out.add(t[1])
                return
            if k in ('fn', 'cls') and len(t) == 2:
                out.add(t[1])
                return
            if k == 'new':
                out.add(t[1])
                return
            if k == 'clo':
                if t[1] not in COMPARED or t[1] in UNSURE:
                    out.add('clo:' + str(t[1]))
                return
            if k == 'sub' and len(t) == 3 and isinstance(t[2], tuple) and t[2][:1] == ('slc',):
                if all(x == NONE for x in t[2][1:]):
                    out.add('<slc>')
                visit(t[1])
                for x in t[2][1:]:
                    visit(x)
                return
            if k in ('comp', 'sub', 'slc', 'fstr', 'superobj', 'gen', 'bm', 'celem', 'unk', 'awaited', 'star', 'gencm', 'cmf', 'excmodel'):
                out.add('<%s>' % k)
            if k == 'comp':
                comps.add(repr(t))
            if k == 'cmp' and t[1] == 'In':
                out.add('<in>')
            for x in t[1:]:
                visit(x)
        for (a, n) in self.facts:
            if (a, n) not in skip:
                visit(a)
        for e in self.effects:
            if e[0] == 'store':
                out.add('.' + e[2])
                visit(e[1])
                visit(e[3])
            elif e[0] in ('nlstore', 'gstore'):
                out.add(e[0])
                visit(e[2])
            else:
                out.add('<%s>' % e[0])
                for x in e[1:]:
                    visit(x)
        for (k, n, i) in self.loops:
            out.add('<loop>')
            visit(k)
        looped = {(k, n) for (k, n, i) in self.loops}
        out.update('<loop %d>' % i for i in range(len(looped)))
        for (k, n), v in self.fails.items():
            if v is not None:
                visit(k)
        if self.out[0] == 'ret':
            visit(self.out[1])
        elif self.out[0] == 'raise':
            for x in self.out[1]:
                if isinstance(x, str):
                    out.add('!' + x)
        # more comprehensions, or loops, than in the model stand for something that it does in another way
        out.update('<comp %d>' % i for i in range(len(comps)))
        return out

    def describe(self):
        f = ['%s%s' % ('' if v else 'not ', show(a)) for (a, n), v in self.facts.items()]
        f += ['%s fails' % show(k[1] if k[0] == 'call' else k) for (k, n), v in self.fails.items() if v is not None]
        f += ['%s element %d of %s' % ('an' if v else 'no', i, show(k)) for (k, n, i), v in self.loops.items()]
        return ', '.join(f)[:300] or 'always'

    def describe_out(self):
        return ('%s %s' % (self.out[0], show(self.out[1])) if self.out[0] == 'ret' else 'raise %s' % (self.out[1],))[:160]


def isinst(a):
    """(x, class set) of an isinstance atom"""
    if a[0] == 'truthy' and a[1][0] == 'call' and a[1][1] == ('g', 'builtins.isinstance') and len(a[1][2]) == 2:
        x, c = a[1][2]
        return x, set(c[1]) if c[0] == 'tup' else {c}
    return None


def single_fact_conflict(a, va, b, vb):
    ia, ib = isinst(a), isinst(b)
    if ia and ib and ia[0] == ib[0]:
        if va and not vb and ia[1] <= ib[1]:
            return True
        if vb and not va and ib[1] <= ia[1]:
            return True
    for x, vx, y, vy in ((a, va, b, vb), (b, vb, a, va)):
        # x is None  vs  truthy(x)
        if x[0] == 'cmp' and x[1] == 'Is' and NONE in (x[2], x[3]) and vx:
            o = x[3] if x[2] == NONE else x[2]
            if y == ('truthy', o) and vy:
                return True
            if y[0] == 'cmp' and y[1] in ('Is', 'Eq') and vy and o in (y[2], y[3]) and NONE not in (y[2], y[3]) and \
                    any(z[0] == 'c' for z in (y[2], y[3])):
                return True
        # x == const (truthy or falsy)
        if x[0] == 'cmp' and x[1] in ('Eq', 'Is') and vx:
            for c, o in ((x[2], x[3]), (x[3], x[2])):
                if c[0] == 'c' and y == ('truthy', o) and vy != bool(c[2]):
                    return True
    if a[0] == 'lt0' and b[0] == 'lt0' and va and vb:
        neg = tuple(sorted(((t, -c) for t, c in b[1]), key=repr))
        if a[1] == neg and a[2] + b[2] >= 0:      # t + ca < 0 and -t + cb < 0  ->  ca + cb < 0
            return True
    if a[0] == 'lt0' and b[0] == 'lt0' and a[1] == b[1]:
        # t + ca < 0 true, t + cb < 0 false  needs  cb > ca
        if va and not vb and b[2] <= a[2]:
            return True
        if vb and not va and a[2] <= b[2]:
            return True
    if a[0] == 'lt0' and b[0] == 'lt0' and not va and not vb:
        neg = tuple(sorted(((t, -c) for t, c in b[1]), key=repr))
        if a[1] == neg and a[2] + b[2] < 0:
            return True
    if a[0] == 'lt0' and b[0] == 'cmp' and b[1] == 'Eq' and va and vb or b[0] == 'lt0' and a[0] == 'cmp' and a[1] == 'Eq' and va and vb:
        l, q = (a, b) if a[0] == 'lt0' else (b, a)
        try:
            key, c = lin_key(q[2], q[3])
            neg = tuple(sorted(((t, -x) for t, x in key), key=repr))
            if (l[1] == key and l[2] >= c) or (l[1] == neg and l[2] >= -c):
                return True
        except Exception:
            pass
    if a[0] == 'cmp' and b[0] == 'cmp' and a[1] == b[1] and a[1] in ('Eq', 'Is') and va and vb:
        # x == c1 and x == c2
        for x, c in ((a[2], a[3]), (a[3], a[2])):
            for y, d in ((b[2], b[3]), (b[3], b[2])):
                if x == y and c[0] == 'c' and d[0] == 'c' and c[2] != d[2]:
                    return True
    return False


def self_consistent(row):
    """rows whose own tests contradict each other describe nothing"""
    for (k, n), v in row.fails.items():
        if v is not None and k[0] == 'getitem' and k[2][0] == 'elem' and k[2][1] == k[1]:
            return False
    for (a, n), v in row.facts.items():
        if n == 0 and not v and a[0] == 'cmp' and a[1] == 'In' and a[2][0] == 'elem' and a[2][1] == a[3]:
            return False
    fs = [(a, v) for (a, n), v in row.facts.items() if n == 0]
    if row.nz.exits:
        x = {v for (a, n), v in row.facts.items() if a[0] == 'cmp' and a[1] == 'Is' and NONE in a[2:] and ('p', row.nz.exits[0]) in a[2:]}
        if len(x) > 1:
            return False
    for i in range(len(fs)):
        for j in range(i):
            if single_fact_conflict(fs[i][0], fs[i][1], fs[j][0], fs[j][1]):
                return False
    return True


def compatible(c, s, subtype):
    for k, v in c.facts.items():
        w = s.facts.get(k)
        if w is not None and w != v:
            return False
    for k, v in c.loops.items():
        w = s.loops.get(k)
        if w is not None and w != v:
            return False
    for k in set(c.fails) | set(s.fails):
        a, b = c.fails.get(k), s.fails.get(k)
        if (a is None) != (b is None):
            return False
        if a is not None and not exc_overlap(a, b, subtype):
            return False
    if lookup_conflict(c, s) or lookup_conflict(s, c):
        return False
    for (a, n), v in c.facts.items():
        if n:
            continue
        for (b, m), w in s.facts.items():
            if m == 0 and a != b and single_fact_conflict(a, v, b, w):
                return False
    return True


def lookup_conflict(c, s):
    """one tests membership where the other one tries the subscription"""
    for (a, n), v in c.facts.items():
        if n or a[0] != 'cmp' or a[1] != 'In' or (a, n) in s.facts:
            continue
        for kind in ('getitem', 'delitem'):
            k = ((kind, a[3], a[2]), 0)
            if k not in s.fails or k in c.fails and (c.fails[k] is None) != v:
                continue
            x = s.fails[k]
            if v is False and x is None:
                return True
            if v is True and x is not None and x[2] is not None and set(map(short, x[2])) <= {'KeyError', 'IndexError', 'LookupError'}:
                return True
    return False


def exc_overlap(a, b, subtype):
    for x, y in ((a, b), (b, a)):
        if x[2] is not None:
            if all(any(isinstance(z, str) and subtype(n, z) is True for z in y[3]) for n in x[2]):
                return False
    if a[2] is not None and b[2] is not None:
        return any(subtype(x, y) is not False or subtype(y, x) is not False for x in a[2] for y in b[2])
    return True


EQS = []            # linear forms known to be zero, pairs known to be equal, in the comparison under way


def equalities(c, s):
    lins, pairs = [], []
    fs = {}
    for f in (c.facts, s.facts):
        for (a, n), v in f.items():
            if n == 0:
                fs[a] = v
    for a, v in fs.items():
        if a[0] == 'lt0' and not v:
            neg = ('lt0', tuple(sorted(((t, -k) for t, k in a[1]), key=repr)), -a[2])
            if fs.get(neg) is False:
                lins.append((dict(a[1]), a[2]))
        if a[0] == 'cmp' and a[1] in ('Eq', 'Is') and v:
            pairs.append((a[2], a[3]))
            try:
                k, cst = lin_key(a[2], a[3])
                lins.append((dict(k), cst))
            except Exception:
                pass
    return lins, pairs, fs


def equal_by_facts(a, b):
    if not EQS:
        return False
    lins, pairs, fs = EQS[-1]
    for x, y in ((a, b), (b, a)):
        if y in (C(True), C(False)) and (x[0] in ('cmp', 'not', 'lt0') or x[0] == 'call' and x[1] == ('g', 'builtins.bool')):
            # a comparison whose outcome is known
            z, pol = canonical(*atom(x))
            if z in fs and (fs[z] == pol) == y[2]:
                return True
    for x, y in pairs:
        if (a == x and b == y) or (a == y and b == x):
            return True
    if not lins or not numeric(a) or not numeric(b) or a[0] not in ('op', 'un', 'c', 'p', 'a', 'call', 'elem', 'sub') or \
            b[0] not in ('op', 'un', 'c', 'p', 'a', 'call', 'elem', 'sub'):
        return False
    try:
        k, cst = lin_key(a, b)
    except Exception:
        return False
    k = dict(k)
    if not k:
        return cst == 0
    for l, lc in lins:
        if l and set(l) == set(k):
            t = next(iter(l))
            f = k[t] / l[t]
            if all(k[x] == f * l[x] for x in l) and cst == f * lc:
                return True
    return False


def same(a, b):
    """b is from the model"""
    if b == ANY or a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and isinstance(b[0], str) and \
            EQS and equal_by_facts(a, b):
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    try:
        if a and b and a[0] in ('op', 'un', 'c') and b[0] in ('op', 'un', 'c') and numeric(a) and numeric(b) and lin_equal(a, b):
            return True
    except Exception:
        pass
    if a and b and a[0] == 'op' and b[0] == 'op' and a[1] == b[1] and a[1] in ('Mult', 'BitAnd', 'BitXor') and \
            same(a[2], b[3]) and same(a[3], b[2]) and a[2][0] != 'c':
        return True
    if a and b and a[0] == 'call' and b[0] == 'call' and len(a) == 4 and len(b) == 4:
        if same(a[1], b[1]):
            return args_same(a, b)
        return False
    if len(a) != len(b):
        return False
    return all(same(x, y) for x, y in zip(a, b))


def args_same(a, b):
    """positional/keyword spelling of the arguments of a call does not matter if the values agree one to one"""
    if same(a[2], b[2]) and same(a[3], b[3]):
        return True
    if len(a[2]) + len(a[3]) != len(b[2]) + len(b[3]) or any(n == '' for n, _ in a[3] + b[3]):
        return False
    va = list(a[2]) + [v for _, v in a[3]]
    vb = list(b[2]) + [v for _, v in b[3]]
    ka, kb = {n for n, _ in a[3]}, {n for n, _ in b[3]}
    if ka == kb and len(a[2]) == len(b[2]):
        da, db = dict(a[3]), dict(b[3])
        return all(same(x, y) for x, y in zip(a[2], b[2])) and all(same(da[k], db[k]) for k in ka)
    if len(a[2]) > len(b[2]):
        n = len(b[2])
    else:
        n = len(a[2])
    if not all(same(x, y) for x, y in zip(va[:n], vb[:n])):
        return False
    ra, rb = va[n:], vb[n:]
    for x in ra:
        for i, y in enumerate(rb):
            if same(x, y):
                del rb[i]
                break
        else:
            return False
    return True


def numeric(t):
    return not any(x and x[0] in ('fstr', 'tup', 'list') or (x[0] == 'c' and isinstance(x[2], (str, bytes))) for x in walk(t) if x and isinstance(x[0], str))


def group(effects, opts):
    """effects of a row, per object they touch: order between unrelated objects does not matter"""
    if opts['order']:
        out = {}
        seen = {}
        for e in effects:
            out.setdefault('all', []).append(e)
        return out
    out = {}
    for e in effects:
        if e[0] == 'store':
            out[('store', e[1], e[2])] = [e]                    # the last one counts
        elif e[0] in ('setitem', 'delitem'):
            out.setdefault(('obj', e[1]), []).append(e)
        elif e[0] == 'call':
            f = e[1]
            out.setdefault(('obj', f[1] if f[0] == 'a' else f), []).append(e)
        elif e[0] in ('yield', 'yieldfrom'):
            out.setdefault('yield', []).append(e)
        elif e[0] in ('nlstore', 'gstore'):
            out[(e[0], e[1])] = [e]
        else:
            out.setdefault((e[0], e[1]), []).append(e)
    return out


def effect_key(k):
    return k if isinstance(k, str) else k[0]


def agree(c, s, opts):
    """-> None or a description of the difference"""
    if c.out[0] != s.out[0]:
        return 'ends with %s instead of %s' % (c.describe_out(), s.describe_out())
    if c.out[0] == 'ret':
        if not opts['noret'] and not same(c.out[1], s.out[1]):
            return 'returns %s instead of %s' % (show(c.out[1])[:120], show(s.out[1])[:120])
    elif c.out[0] == 'raise':
        if c.out[1] != s.out[1] and not (isinstance(c.out[1], tuple) and set(c.out[1]) & set(s.out[1])):
            return 'raises %s instead of %s' % (c.out[1], s.out[1])
    elif not same(c.out[1], s.out[1]):
        return 'fails with what %s raised instead of what %s raised' % (show(c.out[1])[:80], show(s.out[1])[:80])
    if opts['noeffects']:
        return None
    if c.out[0] == 'raise?' and not c.caught and not opts['exc']:
        return None
    if len(c.fails) and c.kind == 'raise' and not opts['exc'] and not c.caught:
        return None
    x, y = c.effects, s.effects
    if c.nz.making and c.out[0] != 'ret':
        # nobody gets to see an object whose initialization has failed
        x, y = ([e for e in z if e[0] != 'store' or e[1] != ('self',)] for z in (x, y))
    ce, se = group(x, opts if not c.nz.making else dict(opts, order=False)), group(y, opts if not c.nz.making else dict(opts, order=False))
    # stores that put back what was there
    for k in list(ce):
        if k not in se and not isinstance(k, str) and k[0] == 'store' and ce[k][0][3] == ('a', k[1], k[2]):
            del ce[k]
    for k in se:
        if k not in ce:
            m = [x for x in ce if same_key(x, k)]
            if len(m) == 1:
                ce[k] = ce.pop(m[0])
                continue
            if all(optional(e) for e in se[k]):
                continue
            return 'does not do: %s' % showe(se[k][0])
    for k in ce:
        if k not in se:
            return 'also does: %s' % showe(ce[k][0])
    for k in se:
        a, b = ce.get(k, []), se[k]
        if k not in ce:
            continue
        if len(a) != len(b):
            return 'does %s instead of %s' % ('; '.join(map(showe, a))[:150] or 'nothing', '; '.join(map(showe, b))[:150] or 'nothing')
        for x, y in zip(a, b):
            if x[0] == 'call' and y[0] == 'call':
                if not (same(x[1], y[1]) and args_same(x, y)):
                    return 'does %s instead of %s' % (showe(x), showe(y))
            elif not same(x, y):
                return 'does %s instead of %s' % (showe(x), showe(y))
    return None


def optional(e):
    return False


def same_key(a, b):
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[0] == b[0] and \
        all(same(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y for x, y in zip(a[1:], b[1:]))


def showe(e):
    if e[0] == 'store':
        return '%s.%s = %s' % (show(e[1]), e[2], show(e[3]))
    if e[0] == 'call':
        return show(('call',) + e[1:])
    return e[0] + ' ' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in e[1:])


DEFAULTS = {'exc': False, 'order': False, 'noret': False, 'noeffects': False, 'closures': False, 'ignore': (),
            'max_iter': None, 'notify': False, 'interp': None, 'defaults': True, 'stage': None, 'vocab': (), 'via': None, 'free': (), 'keep': (), 'depth': 8, 'inner': False, 'cut': False}


def rows_of(ctx, func, cls, opts, ren=None):
    kw = dict(opts['interp'] or {})
    kw.setdefault('depth', opts['depth'])
    never = opts.get('never')
    kw['inline'] = lambda f, recv: False if f.name in opts['keep'] or f.node is never else None
    kw['max_iter'] = opts['max_iter'] or (2 if ctx.tier == 'quick' else 3)
    kw['drain'] = True
    it = Interp(ctx.p, **kw)
    opts = dict(opts, truth=func.name in ('__exit__', '__aexit__'))
    opts['making'] = func.name == '__init__'
    ps = [x.arg for x in func.node.args.posonlyargs + func.node.args.args]
    opts['exits'] = tuple((ren or {}).get(x, x) for x in ps[1:4]) if opts['truth'] and len(ps) == 4 else ()
    if opts['closures']:
        ps = it.closure_paths(func, cls=cls)
        if not ps:
            plain = it.paths(func, cls=cls)
            if plain and all(p.kind == 'raise' or p.kind == 'ret' and (p.val is None or p.val[0] == 'c') for p in plain):
                raise NotCallable()
            raise Undecided('no callable is produced')
        last = max(st for st, _ in ps)
        ps = [p for st, p in ps if st == (opts['stage'] or last)]
        ps = [p for p in ps if not (p.kind == 'ret' and p.val and p.val[0] == 'clo' and opts['stage'] is None)] or ps
    else:
        ps = it.paths(func, cls=cls)
    if opts['via']:
        out, seen = [], set()
        for p in ps:
            for e in p.events:
                if e.kind == 'call' and p.kind == 'ret' and e.d.get('name') == opts['via']:
                    for a in list(e.d['args']) + [v for _, v in e.d['kw']]:
                        if a in seen:
                            continue
                        if a[0] in ('clo', 'excwrap'):
                            seen.add(a)
                            out += it.continue_with(p, a)
                        elif a[0] in ('a', 'bm') and a[1] == SELF and cls is not None and cls.find_repo(a[2]):
                            seen.add(a)
                            out += Interp(ctx.p, **kw).paths(cls.find_repo(a[2]), cls=cls)
                elif e.kind == 'store' and p.kind == 'ret' and e.d['attr'] == opts['via'] and e.d['value'][0] == 'clo' and e.d['value'] not in seen:
                    # kept to be called later; what it makes is what will be called in the end
                    seen.add(e.d['value'])
                    for q in it.continue_with(p, e.d['value']):
                        out += it.continue_with(q, q.val) if q.kind == 'ret' and q.val and q.val[0] == 'clo' else [q]
        if not out:
            if not any(any(t[0] in ('clo', 'excwrap', 'bm', 'genexp') or t[0] == 'new' and len(t) == 3 and 'satella' in str(t[1]) for v in list(e.d.values()) if isinstance(v, tuple) for t in walk(v)) or
                       e.kind == 'call' and e.d.get('name') == opts['via'] for p in ps for e in p.events if e.kind != 'stage'):
                raise NotCallable('does not hand a callable to %s' % opts['via'])
            raise Undecided('no callable handed to %s' % opts['via'])
        ps = out
        for p in ps:
            at = max([-1] + [i for i, e in enumerate(p.events) if e.kind == 'stage'])
            p.events = [e for e in p.events[:at + 1] if e.kind == 'assume'] + list(p.events[at + 1:])
    if not func.module.relpath.startswith('<'):
        ctx.funcs.add(func.where)
        ctx.npaths += len(ps)
        ctx.nevents += sum(len(p.events) for p in ps)
        if it.truncated:
            ctx.truncated.add(func.where)
    if opts['cut']:
        # endless loops: what happens in the first iterations
        for p in ps:
            if p.kind == 'cut':
                p.kind = 'ret'
    rows = [r for p in ps if p.kind in ('ret', 'raise') for r in make_rows(p, it, ren, opts)]
    return [r for r in rows if self_consistent(r)], it


def param_names(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args], a.vararg, [x.arg for x in a.kwonlyargs], a.kwarg


def compare_signature(ctx, rule, name, f, spec):
    """public defaults"""
    def defaults(n):
        a = n.args
        pos = a.posonlyargs + a.args
        out = {}
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = d
        return out
    df, ds = defaults(f.node), defaults(spec)

    def constant(d, seen=0):
        """what a default that is a name stands for"""
        if isinstance(d, ast.Name) and seen < 3:
            x = f.cls.find_attr(d.id)[1] if f.cls is not None else None
            if x is None:
                x = f.module.globals.get(d.id)
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                x = x.value
            if isinstance(x, ast.expr):
                return constant(x, seen + 1)
        return d

    def external(d):
        q = f.module.dotted(d) if isinstance(d, (ast.Name, ast.Attribute)) else None
        return q if isinstance(q, str) and '.' in q and not q.startswith('satella') else None
    df, ds = {k: constant(v) for k, v in df.items()}, {k: constant(v) for k, v in ds.items()}
    for k, d in ds.items():
        if k in df and external(d) and external(df[k]):
            ctx.check(external(d) == external(df[k]), rule, '%s(%s=)' % (name, k), 'the default of %s is %s, documented is %s' % (
                k, external(df[k]), external(d)), where=f.where, line=f.node.lineno)
        if k in df and isinstance(d, ast.Constant) and isinstance(df[k], ast.Constant):
            ctx.check(type(d.value) is type(df[k].value) and d.value == df[k].value, rule, '%s(%s=)' % (name, k),
                      'the default of %s is %r, documented is %r' % (k, df[k].value, d.value), where=f.where, line=f.node.lineno)
        if k in df and isinstance(d, ast.Lambda) and isinstance(df[k], ast.Lambda) and \
                all(isinstance(x.body, (ast.Constant, ast.Name)) for x in (d, df[k])):
            ctx.check(dump(d) == dump(df[k]), rule, '%s(%s=)' % (name, k), 'the default of %s is %s, documented is %s' % (
                k, ast.unparse(df[k]), ast.unparse(d)), where=f.where, line=f.node.lineno)


def check_vocabulary(f, cls, mod, node, free=()):
    """A model that speaks about members the code no longer has cannot judge it"""
    have = set()
    mods = {f.module}
    if cls is not None:
        mods |= {c.module for c in cls.mro() if isinstance(c, Cls)}
    for m in mods:
        if not hasattr(m, '_attrs'):
            m._attrs = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    m._attrs.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    m._attrs.add(n.name)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    m._attrs.add(n.value)
        have |= m._attrs
    local = {n.arg for n in ast.walk(node) if isinstance(n, ast.arg)} | \
        {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
        {n.name for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef))} | \
        {n.name for n in ast.walk(node) if isinstance(n, ast.ExceptHandler) and n.name} | \
        {(a.asname or a.name).split('.')[0] for n in ast.walk(node) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    if cls is not None:         # defaults are evaluated in the scope of the class
        local |= {n.id for d in node.args.defaults + node.args.kw_defaults if d is not None for n in ast.walk(d)
                  if isinstance(n, ast.Name) and cls.find_attr(n.id)[1] is not None}
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr not in have and \
                n.attr.startswith('_') and not n.attr.endswith('__') and n.attr not in free:
            raise Undecided('the code has no member %s any more' % n.attr)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in local and n.id not in ('ANY', 'super') and n.id not in free:
            d = mod.resolve_name(n.id)
            if '.' not in d and d not in mod.imports.values() and d not in mod.target.imports.values():
                raise Undecided('the code has no name %s any more' % n.id)


def entailed(c, srows, known, it, opts):
    """the row only adds conditions, however foreign, to those of a row of the model that says something else"""
    foreign = [k for k in c.facts if {x for x in Row.symbols(FactsOnly(k)) - known if not x.startswith('!')}]
    if not foreign or {x for x in c.symbols(foreign) - known if not x.startswith('!')}:
        return False
    said = {(a, n // 1000, v) for (a, n), v in c.facts.items()}
    for s in srows:
        if (s.facts or s.loops) and compatible(c, s, it.subtype) and all((a, n // 1000, v) in said for (a, n), v in s.facts.items()) and \
                all(c.loops.get(k) == v for k, v in s.loops.items()):
            EQS.append(equalities(c, s))
            try:
                if agree(c, s, opts) is not None:
                    return True
            finally:
                EQS.pop()
    return False


class FactsOnly:
    def __init__(self, key):
        self.facts, self.effects, self.loops, self.fails, self.out = {key: True}, [], {}, {}, ('none',)


MUTATORS = {'append', 'remove', 'pop', 'clear', 'add', 'extend', 'insert', 'popleft', 'appendleft', 'put', 'close', 'terminate', 'cancel', 'kill', 'release'}


def added(c, srows, known, it, opts):
    """the row does all that the model says, and changes something that outlives the call in addition"""
    extra = [e for e in c.effects if e[0] == 'call' and e[1][0] == 'a' and e[1][2] in MUTATORS and '.' + e[1][2] not in known and lasting(e[1][1])]
    if not extra or opts['order']:
        return False
    old = c.effects
    c.effects = [e for e in old if e not in extra]
    n = 0
    try:
        for s in srows:
            if compatible(c, s, it.subtype):
                n += 1
                EQS.append(equalities(c, s))
                try:
                    if agree(c, s, opts) is not None:
                        return False
                finally:
                    EQS.pop()
    finally:
        c.effects = old
    return n > 0


def lasting(t):
    """something reached from self, a parameter or a global"""
    while t[0] == 'a' and len(t) == 3:
        t = t[1]
    return t[0] in ('self', 'p', 'param', 'g', 'ga')


def check_model(ctx, rule, name, f, cls, texts, opts):
    """texts: alternative model sources for f"""
    opts = dict(opts, never=f.node)
    result = None
    if not DEPTH[0]:
        for x in (CLOSURES, FORMS, COMPARED, UNSURE):
            x.clear()
        OUTER.update(keep=tuple(opts['keep']) + (f.name,), depth=opts['depth'], ignore=opts['ignore'])
    for mod, node in texts:
        check_vocabulary(f, cls, mod, node, opts['free'])
        sf = Func(node, mod, f.cls, f.qual)
        srows, sit = rows_of(ctx, sf, cls, opts)
        soft = {k[2] for s in srows for (k, _), v in s.fails.items() if v is not None and k[0] == 'getattr'}
        if soft:
            # an attribute that the model knows may be missing may be so anywhere
            opts = dict(opts, interp=dict(opts['interp'] or {}, soft=tuple(sorted(soft))))
            srows, sit = rows_of(ctx, sf, cls, opts)
        if not srows:
            raise Undecided('the model has no rows')
        cp, sp = param_names(f.node), param_names(node)
        ren = {}
        for x, y in zip(cp[0], sp[0]):
            ren[x] = y
        if cp[1] and sp[1]:
            ren[cp[1].arg] = sp[1].arg
        if cp[3] and sp[3]:
            ren[cp[3].arg] = sp[3].arg
        ren = {k: v for k, v in ren.items() if k != v}
        try:
            crows, it = rows_of(ctx, f, cls, opts, ren)
        except NotCallable as e:
            ctx.bad(rule, name, str(e) or 'does not return anything that can be called', where=f.where, line=f.node.lineno)
            return
        if it.truncated and not sit.truncated:
            raise Undecided('too many paths')
        if not crows:
            raise Undecided('no paths')
        vocab = set(opts['vocab'])
        for s in srows:
            vocab |= s.symbols()
        fam = set()
        for v in vocab:
            fam |= FAM.get(v, set())
        fam |= {'<call>', '.__class__', '.__dict__'}
        if cls is not None:
            fam |= {'._%s%s' % (c.name.lstrip('_'), v[1:]) for c in cls.mro() if isinstance(c, Cls) for v in opts['vocab'] if v.startswith('.__')}
            fam |= {c.fq for c in cls.mro() if isinstance(c, Cls)}
        if not vocab & LOOKUPS:
            fam.add('<in>')
        if not vocab & {'<slc>', '.reverse', '.pop', '.popleft', '.appendleft', '.insert', '.sort', 'builtins.sorted'}:
            fam.add('builtins.reversed')
        diffs, foreign, matched = [], [], 0
        reached = set()
        for c in crows:
            mism = None
            n = 0
            for s in srows:
                if not compatible(c, s, it.subtype):
                    continue
                n += 1
                reached.add(id(s))
                EQS.append(equalities(c, s))
                try:
                    d = agree(c, s, opts)
                finally:
                    EQS.pop()
                if d is not None:
                    mism = mism or (d, s)
            if mism is None:
                matched += n > 0
                continue
            unknown = {x for x in c.symbols() - vocab - fam if not x.startswith('!')}
            if unknown and not entailed(c, srows, vocab | fam, it, opts) and not added(c, srows, vocab | fam, it, opts):
                foreign.append((c, mism, unknown))
            else:
                diffs.append((c, mism))
        if not diffs and not foreign and not it.truncated:
            # where the model returns, the code has to return, too
            for s in srows:
                if s.kind == 'ret' and id(s) not in reached and all(v is None for v in s.fails.values()):
                    if any(c.symbols() - vocab - fam for c in crows):
                        break
                    diffs.append((s, ('no path of the code returns', s)))
                    break
        res = (diffs, foreign, matched, len(crows), len(srows))
        if not diffs and not foreign:
            result = res
            break
        # an alternative written with the operations of the code is the one to judge it
        if result is None or (len(foreign), len(diffs)) < (len(result[1]), len(result[0])):
            result = res
    diffs, foreign, matched, nc, ns = result
    if not diffs and not foreign:
        if not matched:
            raise Undecided('no row of the code is comparable with the model')
        ctx.ok(rule, name)
        ctx.notes.append('%s: %d rows agree with %d rows of the model' % (name, nc, ns))
    elif foreign:
        c, m, u = foreign[0]
        raise Undecided('%s under %s, but uses operations unknown to the model: %s' % (m[0], c.describe(), ', '.join(sorted(u))[:160]))
    else:
        c, (d, s) = diffs[0]
        line = next((e.line for e in reversed(c.path.events) if e.line), f.node.lineno)
        ctx.bad(rule, name, 'when %s: %s' % (c.describe(), d), where=f.where, line=line, path=c.path)


def parse_models(text):
    """#@ prefix [opt=value ...] headers introduce the models of the members of a class or module"""
    out = []
    cur, buf, start = None, [], None
    for ln in text.split('\n') + ['#@ end']:
        if ln.startswith('#@'):
            if cur is not None:
                out.append((cur, '\n'.join(buf)))
            cur, buf = ln[2:].split(), []
        else:
            buf.append(ln)
    return out


def aliases(owner, cls):
    """attributes of the instances of a local class that just hold a variable of the function it is defined in"""
    init = next((m for m in cls.body if isinstance(m, ast.FunctionDef) and m.name == '__init__'), None)
    made = [n for n in ast.walk(owner) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == cls.name]
    if init is None or len(made) != 1 or any(isinstance(x, ast.Starred) for x in made[0].args) or any(k.arg is None for k in made[0].keywords):
        return {}
    params = [a.arg for a in init.args.args]
    given = dict(zip(params[1:], made[0].args))
    given.update({k.arg: k.value for k in made[0].keywords})
    first = owner.args.args[0].arg if owner.args.args else None
    out, stores = {}, {}
    for n in ast.walk(cls):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.attr] = stores.get(n.attr, 0) + 1
    rebound = {}
    for n in ast.walk(owner):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            rebound[n.id] = True
    for st in init.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and isinstance(st.targets[0].value, ast.Name) and \
                st.targets[0].value.id == params[0] and isinstance(st.value, ast.Name) and isinstance(given.get(st.value.id), ast.Name) and \
                stores[st.targets[0].attr] == 1:
            v = given[st.value.id].id
            if v not in rebound:
                out[st.targets[0].attr] = '_owner' if v == first == 'self' else v
    return out


class Unaliased(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Attribute(self, node):
        if isinstance(node.value, ast.Name) and node.value.id == 'self' and isinstance(node.ctx, ast.Load) and node.attr in self.names:
            return ast.copy_location(ast.Name(self.names[node.attr], ast.Load()), node)
        return self.generic_visit(node)


def nested(ctx, prefix, nm):
    """a function defined inside of another one"""
    from .project import AnchorMissing
    owner = ctx.p.lookup(prefix)
    if not isinstance(owner, Func):
        owner = None
        head, _, meth = prefix.rpartition('.')
        c = ctx.p.lookup(head)
        if isinstance(c, Cls):
            owner = c.find_repo(meth)
    if not isinstance(owner, Func):
        raise AnchorMissing(prefix)
    found = [n for n in ast.walk(owner.node) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == nm and n is not owner.node]
    if len(found) != 1:
        raise Undecided('%s is not built around %s any more' % (prefix, nm))
    free = {a.arg for n in ast.walk(owner.node) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + [n.vararg, n.kwarg] if a} | \
        {n.id for n in ast.walk(owner.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
        {n.name for n in ast.walk(owner.node) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))}
    c = None
    body = found[0]
    for k in ast.walk(owner.node):
        if isinstance(k, ast.ClassDef) and any(n is found[0] for n in ast.walk(k)):
            body = Unaliased(aliases(owner.node, k)).visit(copy.deepcopy(body))
            free |= {'_owner'}
        if isinstance(k, ast.ClassDef) and found[0] in k.body:
            c = Cls(k, owner.module, owner.qual + '.' + k.name)
            for m in k.body:
                if isinstance(m, ast.FunctionDef):
                    c.methods[m.name] = Func(body if m is found[0] else m, owner.module, c, c.qual + '.' + m.name)
    f = c.methods[nm] if c is not None else Func(body, owner.module, None, owner.qual + '.' + nm)
    return f, c, tuple(sorted(free))


def models(ctx, rule, text, **over):
    """Check every model of the text; lines '#= dotted.NAME expression' are constants"""
    from . import constants
    for ln in text.split('\n'):
        if ln.startswith('#='):
            name, _, e = ln[2:].strip().partition(' ')
            constants.check(ctx, rule, name, e)
    for head, src in parse_models(text):
        prefix = head[0]
        opts = dict(DEFAULTS)
        opts.update(over)
        for h in head[1:]:
            k, _, v = h.partition('=')
            opts[k] = {'': True, '1': True, '0': False}.get(v, v)
            if k in ('max_iter', 'stage', 'depth'):
                opts[k] = int(v)
            if k in ('ignore', 'vocab', 'keep', 'free'):
                opts[k] = tuple(v.split(','))
        tree = canonical_tree(ast.parse(src))
        called = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)}
        opts['vocab'] = tuple(opts['vocab']) + tuple(
            '.' + n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and
            n.value.id == 'self' and id(n) not in called)
        defs = {}
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                is_setter = any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list)
                defs.setdefault((n.name, is_setter), []).append(n)
        for (nm, setter), nodes in defs.items():
            name = prefix + '.' + nm + ('.setter' if setter else '')
            with ctx.item(rule, name):
                owner = ctx.p.lookup(prefix)
                cls = None
                if opts['inner']:
                    f, cls, free = nested(ctx, prefix, nm)
                    opts = dict(opts, free=free)
                elif isinstance(owner, Cls):
                    cls = owner
                    f = owner.find_repo(nm)
                    if setter:
                        f = next((c.setters[nm] for c in owner.mro() if isinstance(c, Cls) and nm in c.setters), None)
                    if f is None:
                        from .project import AnchorMissing
                        raise AnchorMissing(name)
                else:
                    f = ctx.p.lookup(prefix + '.' + nm)
                    if isinstance(f, Module):
                        f = f.functions.get(nm)
                    if not isinstance(f, Func):
                        from .project import AnchorMissing
                        raise AnchorMissing(name)
                mod = SpecModule(f.module, src)
                for node in nodes:
                    node.decorator_list = [d for d in node.decorator_list if not (isinstance(d, ast.Attribute) and d.attr == 'setter')]
                if opts['defaults']:
                    compare_signature(ctx, rule, name, f, nodes[0])
                check_model(ctx, rule, name, f, cls, [(mod, n) for n in nodes], opts)
