"""Path-sensitive abstract interpreter over the syntax tree.

Every function is abstracted into a finite set of event traces (paths). Values are abstract
terms (access paths, parameters, constants, results of opaque operations), so aliases, extracted
helpers, closures, decorators and context managers are looked through. Branch conditions are
uninterpreted atoms in a normal form; a path is discarded only if it contains the same atom with
both truth values. Loop bodies are abstracted by a bounded number of iterations, with facts about
mutable state forgotten at the loop head. Any call that is not modelled may raise anything.
No solver is involved and nothing of the analysed program is executed."""
import ast
import builtins as _b
import itertools

from .project import Func, Cls, Module, is_generator, mangle
from .terms import *

LOCKTYPES = {'threading.Lock': 'lock', 'threading.RLock': 'rlock', 'threading.Condition': 'rlock',
             'threading.Semaphore': 'sem', 'threading.BoundedSemaphore': 'sem',
             '_thread.allocate_lock': 'lock', 'multiprocessing.Lock': 'lock'}

PURE = {'builtins.' + x for x in
        ('len isinstance issubclass callable id bool min max abs range enumerate zip reversed list '
         'tuple set dict frozenset sorted sum any all map filter hasattr type hash str repr '
         'iter object slice bytes format').split()}
NORAISE_EXT = {'time.monotonic', 'time.time', 'time.perf_counter', 'threading.current_thread',
               'threading.get_ident', 'threading.Lock', 'threading.RLock', 'threading.Condition',
               'threading.Event', 'collections.deque', 'collections.defaultdict',
               'collections.OrderedDict', 'collections.namedtuple', 'queue.Queue', 'itertools.count',
               'threading.local', 'weakref.ref', 'weakref.WeakSet', 'copy.copy', 'sys.exc_info',
               'os.getpid', 'itertools.chain', 'builtins.super', 'functools.partial',
               'concurrent.futures.Future', 'time.sleep', 'builtins.print', 'operator.itemgetter'}
NORAISE_METH = {'append', 'add', 'discard', 'clear', 'items', 'keys', 'values', 'extend',
                'appendleft', 'notify', 'notify_all', 'notifyAll', 'is_set', 'set'}
CONT = {'builtins.dict', 'builtins.list', 'builtins.set', 'collections.deque',
        'collections.defaultdict', 'collections.OrderedDict'}
NORAISE_CONT = NORAISE_METH | {'get', 'copy', 'setdefault', 'update', 'insert', 'sort', 'reverse'}
LOOKUP_METH = {'pop': ('KeyError', 'IndexError'), 'popitem': ('KeyError',), 'popleft': ('IndexError',),
               'remove': ('ValueError', 'KeyError'), 'index': ('ValueError',)}
EAGER = {'builtins.list', 'builtins.tuple', 'builtins.set', 'builtins.dict', 'builtins.sum',
         'builtins.sorted', 'builtins.min', 'builtins.max', 'builtins.frozenset', 'builtins.any',
         'builtins.all', 'collections.deque'}
IDENT_DECO = {'wraps', 'staticmethod', 'classmethod', 'property', 'abstractmethod',
              'abstractproperty', 'setter', 'getter', 'lru_cache', 'overload', 'contextmanager',
              'static_var', 'dont_wrap', 'has_keys_', 'total_ordering'}


class Event:
    __slots__ = ('kind', 'node', 'fn', 'locks', 'd', 'depth')

    def __init__(self, kind, node, fn, locks, depth, d):
        self.kind, self.node, self.fn, self.locks, self.depth, self.d = kind, node, fn, locks, depth, d

    def __getattr__(self, k):
        d = object.__getattribute__(self, 'd')
        if k in d:
            return d[k]
        raise AttributeError(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def holds(self, lock):
        return any(l == lock and n > 0 for l, n in self.locks)

    def __repr__(self):
        return '%s@%s{%s}%s' % (self.kind, self.line, ','.join(
            '%s=%s' % (k, show(v) if isinstance(v, tuple) else v) for k, v in self.d.items()),
            ' locks=%s' % [show(l) for l, n in self.locks if n] if self.locks else '')


class St:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'n', 'locks', 'excs')

    def __init__(self):
        self.env, self.heap, self.facts = {}, {}, {}
        self.trace, self.n, self.locks, self.excs = None, 0, (), ()

    def copy(self):
        s = St.__new__(St)
        s.env, s.heap, s.facts = dict(self.env), dict(self.heap), dict(self.facts)
        s.trace, s.n, s.locks, s.excs = self.trace, self.n, self.locks, self.excs
        return s

    def held(self, lock):
        for l, n in self.locks:
            if l == lock:
                return n
        return 0

    def setlock(self, lock, n):
        d = dict(self.locks)
        d[lock] = n
        self.locks = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=repr))


class Frame:
    __slots__ = ('id', 'parent', 'where', 'module', 'cls', 'selft', 'node', 'on_yield', 'nonlocals',
                 'globs', 'depth', 'handled', 'stack', 'qual', 'gen')

    def __init__(self, id, parent, where, module, cls, selft, node, depth, handled, stack):
        self.id, self.parent, self.where, self.module, self.cls = id, parent, where, module, cls
        self.selft, self.node, self.depth, self.handled, self.stack = selft, node, depth, handled, stack
        self.on_yield = None
        self.nonlocals, self.globs = set(), set()
        self.gen = False
        if node is not None and not isinstance(node, ast.Lambda):
            for n in local_walk(node):
                if isinstance(n, ast.Nonlocal):
                    self.nonlocals.update(n.names)
                elif isinstance(n, ast.Global):
                    self.globs.update(n.names)


def local_walk(fn):
    stack = list(getattr(fn, 'body', []))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Path:
    __slots__ = ('events', 'kind', 'val', 'st')

    def __init__(self, events, kind, val, st):
        self.events, self.kind, self.val, self.st = events, kind, val, st

    def assumes(self):
        return [(e.cond, e.truth) for e in self.events if e.kind == 'assume']

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, show(self.val) if self.val else None, self.events)


class Budget(Exception):
    pass


class Opts:
    def __init__(self, **kw):
        self.max_iter = 2
        self.drain = False          # for models: generators handed out are run, counters are known
        self.soft = ()              # attributes that may be missing, whether or not a handler is near
        self.depth = 5
        self.budget = 4000
        self.raises = True          # opaque calls may raise
        self.base_exc = True        # ... also exceptions outside of Exception
        self.inline = None          # extra predicate (Func, recv) -> bool/None
        self.inline_mods = ('satella.coding.concurrent.monitor',)       # additional modules whose functions are inlined
        self.inline_new = True      # inline constructors of inlinable classes
        self.deco = True
        self.noraise = ()           # extra callee names that do not raise
        self.types = {}             # attr/param name -> dotted type
        self.gen_exit = False
        self.loads = False
        self.raise_filter = None
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)


class Interp:
    def __init__(self, project, **kw):
        self.p = project
        self.o = Opts(**kw)
        self.uid = itertools.count(1)
        self.closures = {}
        self.frames = {}
        self.yielders = {}
        self.root_cls = None
        self.root_mod = None
        self.truncated = False
        self.sinks = []
        self._inst = {}
        if not hasattr(project, '_mutable'):
            m = set()
            for f in project.all_funcs:
                if f.name in ('__init__', '__new__'):
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        m.add(mangle(n.attr, f.cls))
            project._mutable = m
        self.mutable = project._mutable

    # ------------------------------------------------------------------ entry points
    def paths(self, func, cls=None, selft=SELF, args=None, st=None):
        """All abstract paths of a Func, called with symbolic parameters"""
        for it, raises in ((self.o.max_iter, self.o.raises), (1, self.o.raises), (1, 'try'), (1, False)):
            self.o.max_iter, save = it, self.o.max_iter
            rsave, self.o.raises = self.o.raises, raises
            try:
                return self._paths(func, cls, selft, args, st)
            except Budget:
                self.truncated = True
            finally:
                self.o.max_iter = save
                self.o.raises = rsave
        return []

    def _paths(self, func, cls, selft, args, st):
        self.root_cls = cls or func.cls
        self.root_mod = func.module
        self.count = 0
        st = st or St()
        kind = func.kind()
        fval = self.mkclo(func.node, None, func.module, func.cls, func.where)
        if args is None:
            args, kwargs = self.symargs(func.node.args, skip_first=func.cls is not None and kind != 'static')
        else:
            args, kwargs = args
        if func.cls is not None and kind == 'class':
            args = [('cls', (cls or func.cls).fq)] + args
        elif func.cls is not None and kind != 'static':
            args = [selft] + args
        top = Frame(0, None, func.where, func.module, func.cls, None, None, 0, (), ())
        self.frames[0] = top
        sink = []
        self.sinks.append(sink)
        out = []
        try:
            for s, fv in self.decorate(func, fval, st, top):
                for s2, v in self.call_value(fv, args, kwargs, s, top, func.node, force=True):
                    out.append(('ret', s2, v))
            if self.o.drain:
                # a generator that is handed out: what it does when it is iterated over
                res, out = out, []
                for k, s2, v in res:
                    if v is not None and v[0] == 'gen':
                        out += self.run_body(v[1], list(v[2]), list(v[3]), s2, top, func.node, None)
                    else:
                        out.append((k, s2, v))
        finally:
            self.sinks.pop()
        out += [('raise', s, e) for s, e in sink]
        return [self.mkpath(k, s, v) for k, s, v in out]

    def closure_paths(self, func, cls=None, pick=None, args0=None):
        """Paths of the innermost function built by a decorator-like function: call `func` with symbolic
        arguments, then call what it returned with symbolic arguments, and so on while closures come
        back. Returns a list of (stage number, Path of that stage). The events of a path start with a
        'stage' marker for every stage entered."""
        out = []
        rs = self.o.raises
        self.o.raises = False
        try:
            cur = [p for p in self.paths(func, cls, args=args0) if p.kind == 'ret']
        finally:
            self.o.raises = rs
        stage = 0
        used = set(x.arg for x in ast.walk(func.node.args) if isinstance(x, ast.arg))
        seen = set()
        while cur and stage < 4:
            stage += 1
            nxt, byshape = [], {}
            for p in cur:
                v = p.val
                if v is None or v[0] not in ('clo', 'excwrap', 'gen', 'cmf', 'lcls'):
                    continue
                inner = v
                while inner[0] == 'excwrap':
                    inner = inner[2]
                if inner[0] not in ('clo', 'cmf'):
                    continue
                nd = self.closures[inner[1]][0]
                args, kw = self.symargs(nd.args)
                names = set(x.arg for x in ast.walk(nd.args) if isinstance(x, ast.arg))
                ren = {n: n + "'" * stage if n in used else n for n in names}

                def rn(t):
                    if t[0] == 'star':
                        return ('star', rn(t[1]))
                    return (t[0], ren.get(t[1], t[1]))
                args = [rn(t) for t in args]
                kw = [(k, rn(t)) for k, t in kw]
                st = p.st.copy()
                self.count = 0
                top = self.frames[0]
                self.emit(st, top, 'stage', nd, n=stage, closure=inner, clo_args=tuple(args), clo_kw=tuple(kw))
                sink = []
                self.sinks.append(sink)
                try:
                    if inner is v and inner[0] == 'clo' and is_generator(nd):
                        res = []
                        for k2, s2, v2 in self.run_body(inner[1], args, kw, st, top, nd, None):
                            (res if k2 == 'ret' else sink).append((s2, v2))
                    else:
                        res = self.call_value(v, args, kw, st, top, nd, force=True)
                finally:
                    self.sinks.pop()
                ps = [self.mkpath('ret', s, x) for s, x in res] + [self.mkpath('raise', s, e) for s, e in sink]
                out += [(stage, q) for q in ps]
                nxt += [q for q in ps if q.kind == 'ret']
                byshape[id(nd)] = names
            for n in byshape.values():
                used |= n
            cur = nxt
        return out

    def continue_with(self, path, fv, used=()):
        """Paths that continue `path` with a call of the callable `fv` (a closure the path produced), made with
        symbolic arguments"""
        inner = fv
        while inner[0] == 'excwrap':
            inner = inner[2]
        if inner[0] != 'clo':
            return []
        nd = self.closures[inner[1]][0]
        args, kw = self.symargs(nd.args)
        st = path.st.copy()
        self.count = 0
        top = self.frames[0]
        self.emit(st, top, 'stage', nd, n=9, closure=inner, clo_args=tuple(args), clo_kw=tuple(kw))
        sink = []
        self.sinks.append(sink)
        try:
            res = self.call_value(fv, args, kw, st, top, nd, force=True)
        finally:
            self.sinks.pop()
        return [self.mkpath('ret', s, x) for s, x in res] + [self.mkpath('raise', s, e) for s, e in sink]

    def mkpath(self, k, s, v):
        ev = []
        t = s.trace
        while t is not None:
            ev.append(t[1])
            t = t[0]
        ev.reverse()
        if v is not None and v[0] == 'cutv':
            k = 'cut'
        return Path(ev, k, v, s)

    def symargs(self, a, skip_first=False):
        pos = a.posonlyargs + a.args
        if skip_first:
            pos = pos[1:]
        args = [('p', x.arg) for x in pos]
        if a.vararg:
            args.append(('star', ('va', a.vararg.arg)))
        kw = [(x.arg, ('p', x.arg)) for x in a.kwonlyargs]
        if a.kwarg:
            kw.append((None, ('kwa', a.kwarg.arg)))
        return args, kw

    # ------------------------------------------------------------------ helpers
    def emit(self, st, fr, kind, node, **d):
        st.trace = (st.trace, Event(kind, node, fr.where, st.locks, fr.depth, d))
        st.n += 1
        return st

    def tick(self, n=1):
        self.count += n
        if self.count > self.o.budget * 60:
            raise Budget()

    def fresh(self, tag=''):
        return ('unk', next(self.uid), tag)

    def do_raise(self, st, fr, exc, node):
        self.emit(st, fr, 'raise', node, exc=exc)
        self.sinks[-1].append((st, exc))
        if len(self.sinks[-1]) > self.o.budget:
            raise Budget()

    def anyexc(self, why=None):
        return ('exc', next(self.uid), None, (), why)

    def fork_raise(self, st, fr, node, why, incl=None):
        if self.o.raises is False:
            return
        if self.o.raises == 'try' and not fr.handled:
            return
        if self.o.raise_filter is not None and not self.o.raise_filter(why, node, fr):
            return
        s = st.copy()
        e = ('exc', next(self.uid), incl, (), why)
        self.do_raise(s, fr, e, node)

    # ------------------------------------------------------------------ conditions
    def assume(self, st, fr, term, truth, node):
        """Returns state or None when infeasible (st is modified)"""
        if term[0] == 'c':
            return st if bool(term[2]) == truth else None
        a, pol = atom(term)
        want = truth == pol
        k = self.fold(a, st)
        if k is not None:
            return st if k == want else None
        if a in st.facts:
            if st.facts[a] != want:
                return None
        st.facts[a] = want
        if a[0] == 'truthy' and want:
            st.facts.setdefault(isnone(a[1]), False)
        if a[0] == 'cmp' and a[1] == 'Is' and NONE in (a[2], a[3]):
            o = a[3] if a[2] == NONE else a[2]
            if want:
                if st.facts.get(('truthy', o)) is True:
                    return None
                st.facts[('truthy', o)] = False
        if a[0] == 'lt0':
            for t, _ in a[1]:
                st.facts.setdefault(isnone(t), False)      # ordering None is a TypeError
            # a < b excludes b < a
            neg = ('lt0', tuple(sorted(((t, -c) for t, c in a[1]), key=repr)), -a[2])
            if want:
                if st.facts.get(neg) is True:
                    return None
                st.facts[neg] = False
        self.emit(st, fr, 'assume', node, cond=a, truth=want)
        return st

    def fold(self, a, st):
        if a[0] == 'truthy':
            t = a[1]
            if t[0] == 'c':
                return bool(t[2])
            if t[0] == 'tup' and not any(x[0] == 'star' for x in t[1]):
                return bool(t[1])
            if t[0] == 'clo' or t[0] == 'fn' or t[0] == 'cls':
                return True
        if a[0] == 'cmp' and a[1] in ('Is', 'Eq'):
            x, y = a[2], a[3]
            if x == y and x[0] in ('c', 'p', 'a', 'self'):
                return True
            if x[0] == 'c' and y[0] == 'c':
                return x[1:] == y[1:] or (a[1] == 'Eq' and x[2] == y[2])
            if NONE in (x, y):
                o = y if x == NONE else x
                if o[0] in ('new', 'clo', 'fn', 'cls', 'tup', 'list', 'dict', 'set', 'op', 'self',
                            'bm', 'exc', 'va', 'kwa', 'fstr', 'comp', 'gen', 'cmp', 'not', 'c'):
                    return False
                if o[0] == 'call' and o[1][0] == 'g' and (o[1][1] in PURE or o[1][1] in NORAISE_EXT):
                    return False
        if a[0] == 'lt0' and not a[1]:
            return a[2] < 0
        if a[0] == 'cmp' and a[1] == 'In' and a[3][0] in ('tup', 'list', 'set') and a[2][0] == 'c' \
                and all(x[0] == 'c' for x in a[3][1]):
            return a[2] in a[3][1]
        return None

    def branch(self, e, st, fr):
        """-> (true states, false states)"""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                cur, fs = [st], []
                for v in e.values:
                    nxt = []
                    for s in cur:
                        t, f = self.branch(v, s, fr)
                        nxt += t
                        fs += f
                    cur = nxt
                return cur, fs
            cur, ts = [st], []
            for v in e.values:
                nxt = []
                for s in cur:
                    t, f = self.branch(v, s, fr)
                    ts += t
                    nxt += f
                cur = nxt
            return ts, cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st, fr)
            return f, t
        ts, fs = [], []
        for s, v in self.ev(e, st, fr):
            t, f = self.split(s, v, fr, e)
            ts += t
            fs += f
        return ts, fs

    def split(self, s, v, fr, node):
        ts, fs = [], []
        if v[0] == 'c':
            (ts if v[2] else fs).append(s)
            return ts, fs
        if v[0] == 'and' or v[0] == 'or':
            cur = [s]
            if v[0] == 'and':
                for x in v[1]:
                    n = []
                    for q in cur:
                        t, f = self.split(q, x, fr, node)
                        n += t
                        fs += f
                    cur = n
                return cur, fs
            for x in v[1]:
                n = []
                for q in cur:
                    t, f = self.split(q, x, fr, node)
                    ts += t
                    n += f
                cur = n
            return ts, cur
        if v[0] == 'not':
            t, f = self.split(s, v[1], fr, node)
            return f, t
        if v[0] == 'call' and v[1] == ('g', 'builtins.bool') and len(v[2]) == 1:
            return self.split(s, v[2][0], fr, node)
        a = self.assume(s.copy(), fr, v, True, node)
        b = self.assume(s, fr, v, False, node)
        if a is not None:
            ts.append(a)
        if b is not None:
            fs.append(b)
        return ts, fs

    def forget(self, st):
        """Other threads / previous iterations may have changed mutable state"""
        if not st.facts:
            return
        drop = []
        for a in st.facts:
            if self.is_mutable_atom(a):
                drop.append(a)
        for a in drop:
            del st.facts[a]

    def is_mutable_atom(self, a):
        simple = a[0] in ('cmp', 'lt0') and not (a[0] == 'cmp' and a[1] == 'In')
        for x in walk(a):
            if x and x[0] == 'a' and len(x) == 3:
                if not simple or x[2] in self.mutable:
                    return True
                if x[1][0] not in ('self', 'p', 'a'):
                    return True
            if x and x[0] == 'sub':
                return True
            if x and x[0] == 'call' and len(x) == 4 and isinstance(x[2], tuple):
                # uid-less pure call over parameters only
                if is_len(x):
                    return True
        return False

    def mutated(self, st, base):
        """The content of container `base` changed: forget what was known about it"""
        drop = [a for a in st.facts if contains(a, base) and not is_identity_atom(a, base)]
        for a in drop:
            del st.facts[a]
        for k in [k for k in st.heap if k[0] == base and k[1] == '[]']:
            del st.heap[k]

    # ------------------------------------------------------------------ types
    def typeof(self, t, st=None):
        """Cls | dotted external type | None"""
        k = t[0]
        if k == 'self':
            return self.root_cls
        if k == 'new':
            return self.p.lookup(t[1])
        if k == 'call' and t[1][0] == 'g':
            if t[1][1] in LOCKTYPES or t[1][1] in CONT or t[1][1] in NORAISE_EXT:
                return t[1][1]
        if k == 'list' or k == 'dict' or k == 'set':
            return 'builtins.' + k
        if k == 'comp':
            return 'builtins.' + t[1] if t[1] in ('list', 'dict', 'set') else None
        if k in ('a', 'p') and t[-1] in self.o.types:
            d = self.o.types[t[-1]]
            return self.p.lookup(d) or d
        if k == 'inst':
            return self.p.lookup(t[1])
        if k == 'a':
            b = self.typeof(t[1], st)
            if isinstance(b, Cls):
                ts = {x for x in b.field_types().get(t[2], ()) if x not in ('?', 'const')}
                for x in sorted(ts):
                    c = self.p.lookup(x)
                    if isinstance(c, Cls):
                        return c
                for x in sorted(ts):
                    if not isinstance(self.p.lookup(x), Func):
                        return x
        if k == 'entered':
            return self.typeof(t[1], st)
        if k == 'g':
            l = self.p.lookup(t[1])
            if isinstance(l, tuple) and l[0] == 'global':
                from .project import expr_type
                d = expr_type(l[1].globals[l[2]], l[1])
                c = self.p.lookup(d)
                return c if isinstance(c, Cls) else d
        return None

    def lockkind(self, t, st=None):
        ty = self.typeof(t, st)
        if isinstance(ty, Cls):
            for m in ty.mro():
                if not isinstance(m, Cls) and m in LOCKTYPES:
                    return LOCKTYPES[m]
            return None
        if ty in LOCKTYPES:
            return LOCKTYPES[ty]
        if t[0] in ('a', 'p') and isinstance(t[-1], str):
            n = t[-1].lower()
            if n.endswith('lock') and ty is None:
                return 'lock'
            if n in ('condition', 'cond') and ty is None:
                return 'rlock'
        return None

    # ------------------------------------------------------------------ environment
    def lookup(self, name, st, fr):
        f = fr
        if name in fr.globs:
            f = None
        while f is not None:
            v = st.env.get((f.id, name))
            if v is not None:
                return v
            f = f.parent
        if self.o.drain and name in self.locals_of(fr):
            return ('unbound',)
        m = fr.module
        if ('G', m.name, name) in st.env:
            return st.env[('G', m.name, name)]
        return self.global_term(m, name, st)

    def locals_of(self, fr):
        nd = fr.node
        if nd is None or isinstance(nd, ast.Lambda):
            return ()
        c = getattr(nd, '_locals', None)
        if c is None:
            c = set()
            skip = set()

            def go(n):
                for x in ast.iter_child_nodes(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        c.add(x.id)
                    elif isinstance(x, (ast.Global, ast.Nonlocal)):
                        skip.update(x.names)
                    if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp,
                                          ast.DictComp, ast.GeneratorExp)):
                        go(x)
            for x in nd.body:
                go(ast.Module([x], []))
            c -= skip
            nd._locals = c
        return c

    def global_term(self, m, name, st=None):
        d = m.resolve_name(name)
        l = self.p.lookup(d)
        if isinstance(l, Cls):
            return ('cls', l.fq)
        if isinstance(l, Func):
            return ('fn', d if l.cls is None else l.module.name + '.' + l.qual)
        if isinstance(l, tuple) and l[0] == 'global':
            v = l[1].globals[l[2]]
            if isinstance(v, ast.Constant):
                # a module level constant never rebound elsewhere
                if not any(isinstance(n, ast.Global) and l[2] in n.names for n in ast.walk(l[1].tree)):
                    return C(v.value)
            return ('g', l[1].name + '.' + l[2])
        return ('g', d)

    def bind(self, name, val, st, fr):
        f = fr
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None and (p.id, name) not in st.env:
                p = p.parent
            if p is not None:
                st.env[(p.id, name)] = val
                self.emit(st, fr, 'nlstore', None, name=name, value=val)
                return
        if name in fr.globs:
            st.env[('G', fr.module.name, name)] = val
            self.emit(st, fr, 'gstore', None, name=fr.module.name + '.' + name, value=val)
            return
        st.env[(f.id, name)] = val

    def mkclo(self, node, parent, module, cls, where):
        i = (id(node), parent.id if parent else None)
        cid = self._inst.get(i)
        if cid is None:
            cid = next(self.uid)
            self._inst[i] = cid
            self.closures[cid] = (node, parent, module, cls, where)
        return ('clo', cid, getattr(node, 'name', '<lambda>'))

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        cur, out = [st], []
        for s in stmts:
            nxt = []
            for x in cur:
                for k, s2, v in self.stmt(s, x, fr):
                    if k == 'norm':
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            cur = nxt
            if len(cur) + len(out) > self.o.budget:
                raise Budget()
            if not cur:
                break
        return out + [('norm', x, None) for x in cur]

    def stmt(self, n, st, fr):
        self.tick()
        sink = []
        self.sinks.append(sink)
        try:
            m = getattr(self, 's_' + type(n).__name__, None)
            if m is None:
                res = [('norm', st, None)]
            else:
                res = m(n, st, fr)
        finally:
            self.sinks.pop()
        if sink:
            res = list(res) + [('raise', s, e) for s, e in sink]
        return res

    def s_Expr(self, n, st, fr):
        return [('norm', s, None) for s, v in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [('norm', st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, st, fr):
        for a in n.names:
            st.env[(fr.id, a.asname or a.name.split('.')[0])] = ('g', a.name if a.asname else a.name.split('.')[0])
        if 'ImportError' in fr.handled:
            self.fork_raise(st, fr, n, ('import', ast.unparse(n)), ('ImportError',))
        return [('norm', st, None)]

    def s_ImportFrom(self, n, st, fr):
        into = {}
        fr.module._import_from(n, into)
        for k, v in into.items():
            d = self.p.canonical(v)
            l = self.p.lookup(d)
            if isinstance(l, Cls):
                t = ('cls', l.fq)
            elif isinstance(l, Func):
                t = ('fn', d)
            else:
                t = ('g', d)
            st.env[(fr.id, k)] = t
        if 'ImportError' in fr.handled:
            self.fork_raise(st, fr, n, ('import', ast.unparse(n)), ('ImportError',))
        return [('norm', st, None)]

    def s_FunctionDef(self, n, st, fr):
        where = fr.where + '.' + n.name
        clo = self.mkclo(n, fr, fr.module, fr.cls, where)
        out = []
        f = Func(n, fr.module, None, n.name)
        for s, v in self.decorate(f, clo, st, fr):
            self.bind(n.name, v, s, fr)
            out.append(('norm', s, None))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        self.bind(n.name, ('lcls', n.name, id(n)), st, fr)
        self.closures[('cls', id(n))] = (n, fr)
        return [('norm', st, None)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [('ret', st, NONE)]
        return [('ret', s, v) for s, v in self.ev(n.value, st, fr)]

    def s_Break(self, n, st, fr):
        return [('brk', st, None)]

    def s_Continue(self, n, st, fr):
        return [('cont', st, None)]

    def s_Assert(self, n, st, fr):
        t, f = self.branch(n.test, st, fr)
        for s in f:
            self.do_raise(s, fr, ('exc', next(self.uid), ('AssertionError',), (), ('assert',)), n)
        return [('norm', s, None) for s in t]

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            e = st.excs[-1] if st.excs else self.anyexc('reraise')
            s = st
            self.emit(s, fr, 'reraise', n, exc=e)
            return [('raise', s, e)]
        out = []
        for s, v in self.ev(n.exc, st, fr):
            if v[0] == 'exc':
                self.emit(s, fr, 'reraise', n, exc=v)
                out.append(('raise', s, v))
                continue
            names = self.exc_names(v)
            e = ('exc', next(self.uid), names, (), v)
            self.emit(s, fr, 'raise', n, exc=e)
            out.append(('raise', s, e))
        return out

    def exc_names(self, v):
        if v[0] == 'cls':
            return (v[1],)
        if v[0] == 'new':
            return (v[1],)
        if v[0] == 'g':
            return (v[1].replace('builtins.', ''),)
        if v[0] == 'call' and v[1][0] == 'g':
            return (v[1][1].replace('builtins.', ''),)
        if v[0] == 'call' and v[1][0] == 'cls':
            return (v[1][1],)
        return None

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            ss = [s]
            for t in n.targets:
                nx = []
                for q in ss:
                    nx += self.store(t, v, q, fr)
                ss = nx
            out += [('norm', q, None) for q in ss]
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [('norm', st, None)]
        return [('norm', q, None) for s, v in self.ev(n.value, st, fr) for q in self.store(n.target, v, s, fr)]

    def s_AugAssign(self, n, st, fr):
        t = n.target
        op = type(n.op).__name__
        out = []
        if isinstance(t, ast.Name):
            for s, v in self.ev(n.value, st, fr):
                cur = self.lookup(t.id, s, fr)
                self.arith(s, fr, n)
                r = self.binop(op, cur, v)
                self.emit(s, fr, 'aug', n, target=cur, op=op, value=v, result=r, base=None, attr=None)
                self.bind(t.id, r, s, fr)
                out.append(('norm', s, None))
        elif isinstance(t, ast.Attribute):
            for s, b in self.ev(t.value, st, fr):
                attr = mangle(t.attr, fr.cls)
                for s1, cur in self.getattr(b, attr, s, fr, t):
                    for s2, v in self.ev(n.value, s1, fr):
                        self.arith(s2, fr, n)
                        r = self.binop(op, cur, v)
                        self.emit(s2, fr, 'aug', n, target=cur, op=op, value=v, result=r, base=b, attr=attr)
                        for s3 in self.setattr(b, attr, r, s2, fr, n, aug=op):
                            out.append(('norm', s3, None))
        elif isinstance(t, ast.Subscript):
            for s, b in self.ev(t.value, st, fr):
                for s1, i in self.ev(t.slice, s, fr):
                    for s2, cur in self.getitem(b, i, s1, fr, t):
                        for s3, v in self.ev(n.value, s2, fr):
                            self.arith(s3, fr, n)
                            r = self.binop(op, cur, v)
                            for s4 in self.setitem(b, i, r, s3, fr, n, aug=op):
                                out.append(('norm', s4, None))
        return out

    def arith(self, st, fr, node):
        h = {'TypeError', 'ZeroDivisionError', 'ArithmeticError'} & set(fr.handled)
        if h:
            self.fork_raise(st, fr, node, ('arith',), tuple(sorted(h)))

    def s_Delete(self, n, st, fr):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.env.pop((fr.id, t.id), None)
                    nxt.append(s)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, s, fr):
                        a = mangle(t.attr, fr.cls)
                        self.emit(s1, fr, 'delattr', n, base=b, attr=a)
                        s1.heap.pop((b, a), None)
                        nxt.append(s1)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, s, fr):
                        for s2, i in self.ev(t.slice, s1, fr):
                            nxt += self.delitem(b, i, s2, fr, n)
            cur = nxt
        return [('norm', s, None) for s in cur]

    def s_If(self, n, st, fr):
        t, f = self.branch(n.test, st, fr)
        out = []
        for s in t:
            out += self.block(n.body, s, fr)
        for s in f:
            out += self.block(n.orelse, s, fr)
        return out

    def s_While(self, n, st, fr):
        out = []
        cur = [st]
        lid = next(self.uid)
        for i in range(self.o.max_iter + 1):
            nxt = []
            for s in cur:
                self.emit(s, fr, 'loophead', n, loop=lid, i=i)
                self.forget(s)
                t, f = self.branch(n.test, s, fr)
                for q in f:
                    self.emit(q, fr, 'loopexit', n, loop=lid, how='cond', n=i)
                    out += self.block(n.orelse, q, fr)
                if i == self.o.max_iter:
                    if not f:
                        for q in t:
                            out.append(('ret', q, ('cutv',)))
                    continue
                for q in t:
                    for k, s2, v in self.block(n.body, q, fr):
                        if k in ('norm', 'cont'):
                            nxt.append(s2)
                        elif k == 'brk':
                            self.emit(s2, fr, 'loopexit', n, loop=lid, how='break', n=i + 1)
                            out.append(('norm', s2, None))
                        else:
                            out.append((k, s2, v))
            cur = nxt
            self.tick(len(cur))
            if len(cur) + len(out) > self.o.budget:
                raise Budget()
        return out

    def s_For(self, n, st, fr):
        out = []
        for s, it in self.ev(n.iter, st, fr):
            out += self.run_for(n, it, s, fr)
        return out

    s_AsyncFor = s_For

    def run_for(self, n, it, st, fr):
        # generator function of the project: interleave its body with the loop body
        if it[0] == 'gen':
            return self.for_generator(n, it, st, fr)
        lid = next(self.uid)
        out = []
        endless = False
        self.emit(st, fr, 'iter', n, iterable=it, loop=lid)
        if it[0] in ('tup', 'list') and not any(x[0] == 'star' for x in it[1]) and len(it[1]) <= 4:
            elems, exact = list(it[1]), True
        else:
            elems, exact = [('elem', it, lid, i) for i in range(self.o.max_iter)], False
        if it[0] == 'call' and it[1] == ('g', 'builtins.enumerate') and it[2]:
            elems = [('tup', (('idx', lid, i), ('elem', it[2][0], lid, i))) for i in range(self.o.max_iter)]
            if self.o.drain:
                first = it[2][1] if len(it[2]) > 1 else dict(it[3]).get('start', C(0))
                elems = [('tup', (self.binop('Add', first, C(i)) if i else first, ('elem', it[2][0], lid, i))) for i in range(self.o.max_iter)]
        elif self.o.drain and it[0] == 'call' and it[1] in (('g', 'builtins.range'), ('g', 'itertools.count')) and not it[3] and \
                not any(x[0] == 'star' for x in it[2]):
            # counting: the elements are known
            rng = it[1] == ('g', 'builtins.range')
            endless = not rng
            first = C(0) if rng and len(it[2]) == 1 or not it[2] else it[2][0]
            step = it[2][2] if rng and len(it[2]) > 2 else it[2][1] if not rng and len(it[2]) > 1 else C(1)
            elems = []
            v = first
            for i in range(self.o.max_iter):
                elems.append(v)
                v = self.binop('Add', v if v[0] == 'c' or step != C(1) else first, step if v[0] == 'c' or step != C(1) else C(i + 1))
        elif it[0] == 'call' and it[1] == ('g', 'builtins.zip') and it[2] and not any(
                x[0] == 'star' for x in it[2]):
            elems = [('tup', tuple(('elem', x, lid, i) for x in it[2])) for i in range(self.o.max_iter)]
        elif it[0] == 'call' and it[1][0] == 'a' and it[1][2] == 'items' and not it[2]:
            elems = [('tup', (('key', it[1][1], lid, i), ('val', it[1][1], lid, i))) for i in range(self.o.max_iter)]
        elif it[0] == 'comp' and it[1] in ('list', 'gen', 'set', 'map', 'filter'):
            elems = [('celem', it, lid, i) for i in range(self.o.max_iter)]
        cur = [st]
        for i in range(len(elems) + 1):
            nxt = []
            for s in cur:
                if i == len(elems) and endless:
                    out.append(('ret', s, ('cutv',)))
                elif i == len(elems) or not exact and not endless:
                    q = s.copy() if i < len(elems) else s
                    self.emit(q, fr, 'loopexit', n, loop=lid, how='exhausted', n=i, iterable=it)
                    out += self.block(n.orelse, q, fr)
                if i == len(elems):
                    continue
                self.emit(s, fr, 'loophead', n, loop=lid, i=i)
                if 'StopIteration' in fr.handled or it[0] not in ('tup', 'list', 'comp'):
                    if not exact and not self.safe_iter(it):
                        self.fork_raise(s, fr, n, ('iterate', it), None)
                self.forget(s)
                for q in self.store(n.target, elems[i], s, fr):
                    for k, s2, v in self.block(n.body, q, fr):
                        if k in ('norm', 'cont'):
                            nxt.append(s2)
                        elif k == 'brk':
                            self.emit(s2, fr, 'loopexit', n, loop=lid, how='break', n=i + 1, iterable=it)
                            out.append(('norm', s2, None))
                        else:
                            out.append((k, s2, v))
            cur = nxt
            self.tick(len(cur))
            if len(cur) + len(out) > self.o.budget:
                raise Budget()
        return out

    def safe_iter(self, it):
        if it[0] in ('a', 'call', 'elem', 'comp', 'tup', 'list', 'dict', 'set', 'self', 'sub', 'va', 'c', 'op', 'val', 'key'):
            return True
        return False

    def for_generator(self, n, it, st, fr):
        cid, args, kwargs = it[1], list(it[2]), list(it[3])
        lid = next(self.uid)
        brk = []

        def on_yield(s, v):
            self.emit(s, fr, 'loophead', n, loop=lid, i=0)
            res = []
            for q in self.store(n.target, v, s, fr):
                for k, s2, v2 in self.block(n.body, q, fr):
                    if k in ('norm', 'cont'):
                        res.append(('norm', s2, None))
                    elif k == 'raise':
                        res.append(('raisethru', s2, v2))
                    else:
                        res.append((k, s2, v2))
            return res
        out = []
        for k, s, v in self.run_body(cid, args, kwargs, st, fr, n, on_yield):
            if k == 'ret':
                self.emit(s, fr, 'loopexit', n, loop=lid, how='exhausted', n=1, iterable=it)
                out += self.block(n.orelse, s, fr)
            elif k == 'raise' and v[0] == 'exc' and v[2] == ('<thru>',):
                pend = v[4]
                if pend[0] == 'brk':
                    self.emit(s, fr, 'loopexit', n, loop=lid, how='break', n=1, iterable=it)
                    out.append(('norm', s, None))
                elif pend[0] == 'raisethru':
                    out.append(('raise', s, pend[1]))
                else:
                    out.append((pend[0], s, pend[1]))
            else:
                out.append((k, s, v))
        return out

    def s_With(self, n, st, fr):
        return self.with_items(n, list(n.items), st, fr)

    s_AsyncWith = s_With

    def with_items(self, n, items, st, fr):
        if not items:
            return self.block(n.body, st, fr)
        it, rest = items[0], items[1:]
        out = []
        # `with silence_excs(X):` handlers visible to body
        for s, cm in self.ev(it.context_expr, st, fr):
            out += self.with_cm(n, cm, it, s, fr, lambda q, f: self.with_items(n, rest, q, f))
        return out

    def with_cm(self, n, cm, it, s, fr, body):
        out = []
        lk = self.lockkind(cm, s)
        if cm[0] == 'gencm':
            def on_yield(q, v):
                res = []
                qs = self.store(it.optional_vars, v, q, fr) if it.optional_vars is not None else [q]
                for q2 in qs:
                    for k, s2, v2 in body(q2, fr):
                        res.append((k, s2, v2))
                return res
            for k, s2, v in self.run_body(cm[1], list(cm[2]), list(cm[3]), s, fr, n, on_yield, cmgr=True):
                if k == 'ret':
                    out.append(('norm', s2, None))
                elif k == 'raise' and v[0] == 'exc' and v[2] == ('<thru>',):
                    out.append((v[4][0], s2, v[4][1]))
                else:
                    out.append((k, s2, v))
            return out
        if lk:
            for s1, v, ok in self.acquire(cm, lk, s, fr, n, [], []):
                qs = [s1]
                if it.optional_vars is not None:
                    qs = self.store(it.optional_vars, cm, s1, fr)
                for q in qs:
                    for k, s2, v2 in body(q, fr):
                        self.release(cm, s2, fr, n)
                        out.append((k, s2, v2))
            return out
        if cm[0] == 'excmodel':
            hs = cm[2]
            f2 = self.sub_handled(fr, self.names_of(hs))
            for k, s2, v in body(s, f2):
                if k != 'raise':
                    out.append((k, s2, v))
                    continue
                for m, s3, e3 in self.match(v, hs, s2, fr, n):
                    if not m:
                        out.append(('raise', s3, e3))
                    elif cm[1] == 'silence':
                        self.emit(s3, fr, 'swallow', n, exc=e3, types=hs)
                        out.append(('norm', s3, None))
                    else:
                        ne = ('exc', next(self.uid), self.exc_names(cm[3]) if cm[3] else None, (), cm[3])
                        self.emit(s3, fr, 'raise', n, exc=ne, cause=e3)
                        out.append(('raise', s3, ne))
            return out
        ty = self.typeof(cm, s)
        ent = ty.find('__enter__') if isinstance(ty, Cls) else None
        ext = ty.find('__exit__') if isinstance(ty, Cls) else None
        if isinstance(ent, Func) and isinstance(ext, Func) and self.may_inline(ent, cm, fr):
            entered = self.call_method(cm, ty, ent, [], [], s, fr, n)
        else:
            ent = ext = None
            self.emit(s, fr, 'enter', n, cm=cm)
            self.fork_raise(s, fr, n, ('enter', cm))
            entered = [(s, ('entered', cm))]
        for s1, v in entered:
            qs = [s1] if it.optional_vars is None else self.store(it.optional_vars, v, s1, fr)
            for q in qs:
                for k, s2, v2 in body(q, fr):
                    if ext is None:
                        self.emit(s2, fr, 'exit', n, cm=cm, exc=v2 if k == 'raise' else None)
                        out.append((k, s2, v2))
                        continue
                    if k == 'raise':
                        a = [('exctype', v2), v2, ('exctb', v2)]
                        s2.excs = s2.excs + (v2,)
                    else:
                        a = [NONE, NONE, NONE]
                    for s3, r in self.call_method(cm, ty, ext, a, [], s2, fr, n):
                        if k == 'raise':
                            s3.excs = s3.excs[:-1]
                            t, f = self.split(s3, r, fr, n)
                            out += [('norm', q2, None) for q2 in t]
                            out += [('raise', q2, v2) for q2 in f]
                        else:
                            out.append((k, s3, v2))
        return out

    def sub_handled(self, fr, names):
        f2 = Frame.__new__(Frame)
        for a in Frame.__slots__:
            if hasattr(fr, a):
                setattr(f2, a, getattr(fr, a))
        f2.handled = tuple(fr.handled) + tuple(names)
        return f2

    def names_of(self, types):
        out = []
        for t in types:
            n = self.exc_names(t)
            if n:
                out += [n[0].split('.')[-1]]
            else:
                out.append('?')
        return out

    def s_Try(self, n, st, fr):
        hts = []
        names = []
        for h in n.handlers:
            ts = self.handler_types(h, st, fr)
            hts.append(ts)
            names += self.names_of(ts)
        f2 = self.sub_handled(fr, names) if n.handlers else fr
        if n.finalbody:
            f2 = self.sub_handled(f2, ('<finally>',))
        res = self.block(n.body, st, f2)
        out = []
        for k, s, v in res:
            if k == 'norm' and n.orelse:
                out += self.block(n.orelse, s, fr)
            elif k == 'raise' and n.handlers:
                pend = [(s, v)]
                for h, ts in zip(n.handlers, hts):
                    np = []
                    for s1, e in pend:
                        for m, s2, e2 in self.match(e, ts, s1, fr, h):
                            if not m:
                                np.append((s2, e2))
                                continue
                            self.emit(s2, fr, 'catch', h, exc=e2, types=tuple(ts))
                            s2.excs = s2.excs + (e2,)
                            if h.name:
                                s2.env[(fr.id, h.name)] = e2
                            for k3, s3, v3 in self.block(h.body, s2, fr):
                                s3.excs = s3.excs[:-1] if s3.excs else ()
                                self.emit(s3, fr, 'endcatch', h, exc=e2, how=k3)
                                out.append((k3, s3, v3))
                    pend = np
                out += [('raise', s1, e) for s1, e in pend]
            else:
                out.append((k, s, v))
        if n.finalbody:
            fin = []
            for k, s, v in out:
                if v is not None and v == ('cutv',):
                    fin.append((k, s, v))
                    continue
                if k == 'raise' and v[0] == 'exc':
                    self.emit(s, fr, 'uncaught', n, exc=v)
                for k2, s2, v2 in self.block(n.finalbody, s, fr):
                    if k2 == 'norm':
                        fin.append((k, s2, v))
                    else:
                        fin.append((k2, s2, v2))
            out = fin
        return out

    s_TryStar = s_Try

    def handler_types(self, h, st, fr):
        if h.type is None:
            return [('g', 'builtins.BaseException')]
        self.sinks.append([])
        try:
            r = self.ev(h.type, st.copy(), fr)
        finally:
            self.sinks.pop()
        v = r[0][1] if r else ('unk', 0, '')
        return self.type_list(v)

    def type_list(self, v):
        if v[0] in ('tup', 'list'):
            out = []
            for x in v[1]:
                out += self.type_list(x)
            return out
        if v[0] == 'star':
            return [v[1]]
        return [v]

    def subtype(self, a, b):
        """is exception class named a a subclass of b: True/False/None"""
        if a == b:
            return True
        sa, sb = a.split('.')[-1], b.split('.')[-1]
        ca, cb = getattr(_b, sa, None), getattr(_b, sb, None)
        ra, rb = self.p.lookup(a), self.p.lookup(b)
        if sb == 'BaseException' and isinstance(cb, type):
            return True
        if isinstance(ra, Cls):
            names = set()
            for m in ra.mro():
                if isinstance(m, Cls):
                    if m is rb:
                        return True
                    if isinstance(rb, Cls):
                        continue
                else:
                    names.add(m.split('.')[-1])
            if isinstance(rb, Cls):
                return False
            for x in names:
                cx = getattr(_b, x, None)
                if isinstance(cx, type) and isinstance(cb, type) and issubclass(cx, cb):
                    return True
            return False if names and all(hasattr(_b, x) for x in names) else None
        if isinstance(ca, type) and isinstance(cb, type) and '.' not in a.replace('builtins.', ''):
            return issubclass(ca, cb)
        if isinstance(rb, Cls) and isinstance(ca, type):
            return False
        if '.' in a or '.' in b:
            if isinstance(cb, type) and sb == 'Exception':
                return True
            return None
        return None

    def match(self, e, types, st, fr, node):
        """-> list of (caught?, state, exc)"""
        if e[2] == ('<thru>',):
            nm = self.names_of(types)
            if 'BaseException' in nm or 'GeneratorExit' in nm:
                if e[4][0] != 'raisethru':
                    return [(True, st, e)]
            return [(False, st, e)]
        names = []
        dynamic = []
        for t in types:
            x = self.exc_names(t)
            if x is None or t[0] not in ('g', 'cls'):
                dynamic.append(t)
            else:
                names.append(x[0])
        uid, incl, excl, val = e[1], e[2], e[3], e[4]
        res = []
        if incl is None:
            if any(x.split('.')[-1] == 'BaseException' for x in names):
                return [(True, st, e)]
            # already excluded?
            rest = [x for x in names if not any(self.subtype(x, y) for y in excl if isinstance(y, str))]
            if rest or dynamic:
                c = st.copy()
                tag = tuple(rest) if not dynamic else None
                n = st
                if dynamic and not names and 'unk' not in repr(dynamic):
                    # which exceptions these are is known at run time only: the same as an isinstance test
                    t = ('call', ('g', 'builtins.isinstance'), (e, dynamic[0] if len(dynamic) == 1 else ('tup', tuple(dynamic))), ())
                    c, n = self.assume(c, fr, t, True, node), self.assume(n, fr, t, False, node)
                if c is not None:
                    res.append((True, c, ('exc', uid, tag, excl, val)))
                if n is None:
                    return res
                if 'Exception' in [x.split('.')[-1] for x in names] and not self.o.base_exc:
                    return res
                res.append((False, n, ('exc', uid, None, excl + tuple(rest) + tuple(dynamic), val)))
            else:
                res.append((False, st, e))
            return res
        yes = no = maybe = False
        for i in incl:
            rs = [self.subtype(i, x) for x in names]
            if any(r is True for r in rs):
                yes = True
            elif dynamic or any(r is None for r in rs) or any(self.subtype(x, i) is True and x not in excl for x in names):
                maybe = True
            else:
                no = True
        if yes and not no and not maybe:
            return [(True, st, e)]
        if not yes and not maybe:
            return [(False, st, e)]
        ci = tuple(i for i in incl if any(self.subtype(i, x) is not False for x in names)) if not dynamic else incl
        ni = tuple(i for i in incl if not any(self.subtype(i, x) is True for x in names))
        out = [(True, st.copy(), ('exc', uid, ci or incl, excl, val))]
        if ni:
            out.append((False, st, ('exc', uid, ni, excl + tuple(names), val)))
        return out

    def s_Match(self, n, st, fr):
        out = []
        for s, v in self.ev(n.subject, st, fr):
            for c in n.cases:
                out += self.block(c.body, s.copy(), fr)
            out.append(('norm', s, None))
        return out

    # ------------------------------------------------------------------ stores
    def store(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fr)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            cur = [st]
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = None
            if v[0] in ('tup', 'list') and not any(x[0] == 'star' for x in v[1]):
                items = v[1]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    if items is not None:
                        val = ('list', tuple(items[i:len(items) - (n - i - 1)]))
                    elif v[0] in ('tup', 'list') and i == n - 1 and i < len(v[1]) and \
                            not any(y[0] == 'star' for y in v[1][:i]):
                        rest = v[1][i:]
                        val = rest[0][1] if len(rest) == 1 and rest[0][0] == 'star' else ('tup', rest)
                    else:
                        val = ('slice', v, C(i), NONE)
                    x = x.value
                elif items is not None and not star and i < len(items):
                    val = items[i]
                elif items is not None and star and i < star[0]:
                    val = items[i]
                elif items is not None and star and i > star[0]:
                    val = items[len(items) - (n - i)]
                elif v[0] in ('tup', 'list') and i < len(v[1]) and not any(y[0] == 'star' for y in v[1][:i + 1]):
                    val = v[1][i]
                else:
                    val = ('sub', v, C(i))
                nxt = []
                for s in cur:
                    nxt += self.store(x, val, s, fr)
                cur = nxt
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr):
                out += self.setattr(b, mangle(t.attr, fr.cls), v, s, fr, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st, fr):
                for s1, i in self.ev(t.slice, s, fr):
                    out += self.setitem(b, i, v, s1, fr, t)
            return out
        if isinstance(t, ast.Starred):
            return self.store(t.value, v, st, fr)
        return [st]

    def setattr(self, b, attr, v, st, fr, node, aug=None):
        ty = self.typeof(b, st)
        if isinstance(ty, Cls):
            for c in ty.mro():
                if isinstance(c, Cls):
                    if attr in c.setters and self.may_inline(c.setters[attr], b, fr):
                        return [s for s, _ in self.call_method(b, ty, c.setters[attr], [v], [], st, fr, node)]
                    if attr in c.methods:
                        break
        old = st.heap.get((b, attr), ('a', b, attr))
        self.emit(st, fr, 'store', node, base=b, attr=attr, value=v, old=old, aug=aug)
        st.heap[(b, attr)] = v
        return [st]

    def setitem(self, b, i, v, st, fr, node, aug=None):
        if i[0] == 'tup' and b[0] != 'self':
            pass
        ty = self.typeof(b, st)
        if isinstance(ty, Cls):
            m = ty.find('__setitem__')
            if isinstance(m, Func) and self.may_inline(m, b, fr):
                return [s for s, _ in self.call_method(b, ty, m, [i, v], [], st, fr, node)]
        self.mutated(st, b)
        self.emit(st, fr, 'setitem', node, base=b, idx=i, value=v, aug=aug)
        st.heap[(b, '[]', i)] = v
        st.facts[('cmp', 'In', i, b)] = True
        st.facts[('truthy', b)] = True
        return [st]

    def delitem(self, b, i, st, fr, node):
        ty = self.typeof(b, st)
        if isinstance(ty, Cls):
            m = ty.find('__delitem__')
            if isinstance(m, Func) and self.may_inline(m, b, fr):
                return [s for s, _ in self.call_method(b, ty, m, [i], [], st, fr, node)]
        if st.facts.get(('cmp', 'In', i, b)) is not True:
            self.fork_raise(st, fr, node, ('delitem', b, i), ('KeyError', 'IndexError'))
        self.mutated(st, b)
        self.emit(st, fr, 'delitem', node, base=b, idx=i)
        st.facts[('cmp', 'In', i, b)] = False
        return [st]

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, self.fresh(type(e).__name__))]
        r = m(e, st, fr)
        if len(r) > self.o.budget:
            raise Budget()
        return r

    def evs(self, es, st, fr):
        """evaluate list -> [(st, [vals])]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    got = []
                    for s2, v in self.ev(e.value, s, fr):
                        got += self.force(v, s2, fr, 'tuple') if v[0] == 'genexp' else [(s2, v)]
                    for s2, v in got:
                        if v[0] == 'comp' and v[1] in ('gen', 'list'):
                            v = v[:1] + ('list',) + v[2:]
                        if v[0] in ('tup', 'list'):
                            nxt.append((s2, vs + list(v[1])))
                        else:
                            nxt.append((s2, vs + [('star', v)]))
                else:
                    for s2, v in self.ev(e, s, fr):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st, fr):
        return [(st, C(e.value))]

    def e_Name(self, e, st, fr):
        return [(st, self.lookup(e.id, st, fr))]

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            self.bind(e.target.id, v, s, fr)
            out.append((s, v))
        return out

    def e_Tuple(self, e, st, fr):
        return [(s, ('tup', tuple(v))) for s, v in self.evs(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        return [(s, ('list', tuple(v), id(e))) for s, v in self.evs(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        return [(s, ('set', tuple(v), id(e))) for s, v in self.evs(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, acc in cur:
                if k is None:
                    for s2, vv in self.ev(v, s, fr):
                        nxt.append((s2, acc + [(None, vv)]))
                else:
                    for s1, kk in self.ev(k, s, fr):
                        for s2, vv in self.ev(v, s1, fr):
                            nxt.append((s2, acc + [(kk, vv)]))
            cur = nxt
        return [(s, ('dict', tuple(acc), id(e))) for s, acc in cur]

    def e_JoinedStr(self, e, st, fr):
        parts = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        return [(s, ('fstr', tuple(v))) for s, v in self.evs(parts, st, fr)]

    def e_Lambda(self, e, st, fr):
        return [(st, self.mkclo(e, fr, fr.module, fr.cls, fr.where + '.<lambda>'))]

    def e_IfExp(self, e, st, fr):
        t, f = self.branch(e.test, st, fr)
        out = []
        for s in t:
            out += self.ev(e.body, s, fr)
        for s in f:
            out += self.ev(e.orelse, s, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        cur = self.ev(e.values[0], st, fr)
        out = []
        for nx in e.values[1:]:
            nxt = []
            for s, v in cur:
                t, f = self.split(s, v, fr, e)
                stop, go = (f, t) if isand else (t, f)
                for q in stop:
                    out.append((q, self.refine(v, not isand, q)))
                for q in go:
                    nxt += self.ev(nx, q, fr)
            cur = nxt
        return out + cur

    def refine(self, v, truth, st):
        if v[0] in ('cmp', 'not') or (v[0] == 'call' and v[1][0] == 'g' and v[1][1] in (
                'builtins.isinstance', 'builtins.hasattr', 'builtins.bool', 'builtins.callable')):
            return C(truth)
        return v

    def e_UnaryOp(self, e, st, fr):
        op = type(e.op).__name__
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if op == 'Not':
                out.append((s, C(not v[2]) if v[0] == 'c' else (v[1] if v[0] == 'not' and v[1][0] in ('cmp', 'not') else ('not', v))))
            elif v[0] == 'c' and op == 'USub' and isinstance(v[2], (int, float)):
                out.append((s, C(-v[2])))
            else:
                self.arith(s, fr, e)
                out.append((s, ('un', op, v)))
        return out

    def binop(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)):
            try:
                r = {'Add': lambda: a[2] + b[2], 'Sub': lambda: a[2] - b[2], 'Mult': lambda: a[2] * b[2],
                     'Div': lambda: a[2] / b[2]}.get(op, lambda: None)()
                if r is not None:
                    return C(r)
            except Exception:
                pass
        if op == 'Add' and a[0] in ('list', 'tup') and b[0] == a[0]:
            return (a[0], a[1] + b[1]) + a[2:]
        return ('op', op, a, b)

    def e_BinOp(self, e, st, fr):
        out = []
        for s, a in self.ev(e.left, st, fr):
            for s2, b in self.ev(e.right, s, fr):
                self.arith(s2, fr, e)
                op = type(e.op).__name__
                ty = self.typeof(a, s2)
                out.append((s2, self.binop(op, a, b)))
        return out

    def e_Compare(self, e, st, fr):
        cur = [(s, v, None) for s, v in self.ev(e.left, st, fr)]
        out = []
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for s, l, _ in cur:
                for s2, r in self.ev(c, s, fr):
                    if isinstance(op, (ast.In, ast.NotIn)):
                        self.emit(s2, fr, 'contains', e, base=r, idx=l)
                        ty = self.typeof(r, s2)
                        m = ty.find('__contains__') if isinstance(ty, Cls) else None
                        if isinstance(m, Func) and self.may_inline(m, r, fr):
                            for s3, v in self.call_method(r, ty, m, [l], [], s2, fr, e):
                                nxt.append((s3, r, v if isinstance(op, ast.In) else ('not', v)))
                            continue
                    if isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                        ty = self.typeof(l, s2)
                        dn = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[type(op).__name__]
                        m = ty.find(dn) if isinstance(ty, Cls) else None
                        if isinstance(m, Func) and self.may_inline(m, l, fr):
                            for s3, v in self.call_method(l, ty, m, [r], [], s2, fr, e):
                                nxt.append((s3, r, v))
                            continue
                    if self.o.drain and isinstance(op, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and \
                            'c' not in (l[0], r[0]) and 'TypeError' in fr.handled:
                        self.fork_raise(s2, fr, e, ('arith',), ('TypeError',))
                    t = ('cmp', type(op).__name__, l, r)
                    k = self.fold(atom(t)[0], s2)
                    if k is not None:
                        t = C(k == atom(t)[1])
                    nxt.append((s2, r, t))
            if i == n - 1:
                out += [(s, t) for s, r, t in nxt]
            else:
                cur = []
                for s, r, t in nxt:
                    tt, ff = self.split(s, t, fr, e)
                    out += [(q, FALSE) for q in ff]
                    cur += [(q, r, None) for q in tt]
        return out

    def e_Attribute(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            out += self.getattr(b, mangle(e.attr, fr.cls), s, fr, e)
        return out

    def getattr(self, b, attr, st, fr, node):
        if (b, attr) in st.heap:
            v = st.heap[(b, attr)]
            self.emit(st, fr, 'load', node, base=b, attr=attr, value=v)
            return [(st, v)]
        if b[0] == 'g':
            d = b[1] + '.' + attr
            l = self.p.lookup(d)
            if isinstance(l, Cls):
                return [(st, ('cls', l.fq))]
            if isinstance(l, Func):
                return [(st, ('fn', l.module.name + '.' + l.qual))]
            if not isinstance(self.p.lookup(b[1]), tuple):
                return [(st, ('g', self.p.canonical(d)))]
        if b[0] == 'cls':
            c = self.p.lookup(b[1])
            if isinstance(c, Cls):
                if attr in c.inner:
                    return [(st, ('cls', c.inner[attr].fq))]
                m = c.find_repo(attr)
                if m is not None:
                    return [(st, ('fn', m.module.name + '.' + m.qual))]
                oc, av = c.find_attr(attr)
                if av is not None and isinstance(av, ast.Constant):
                    return [(st, C(av.value))]
            return [(st, ('a', b, attr))]
        ty = self.typeof(b, st)
        if isinstance(ty, Cls):
            m = ty.find(attr)
            if isinstance(m, Func) and m.kind() == 'property' and self.may_inline(m, b, fr):
                return self.call_method(b, ty, m, [], [], st, fr, node)
            if m is None or not isinstance(m, Func):
                oc, av = ty.find_attr(attr)
                if av is not None and isinstance(av, ast.Constant) and attr not in ty.field_types():
                    return [(st, C(av.value))]
        if b[0] == 'exc' and attr == '__class__':
            return [(st, ('exctype', b))]
        if 'AttributeError' in fr.handled and b[0] not in ('self',) or attr in self.o.soft and b[0] != 'self' and \
                st.facts.get(('truthy', ('call', ('g', 'builtins.hasattr'), (b, C(attr)), ()))) is not True:
            self.fork_raise(st, fr, node, ('getattr', b, attr), ('AttributeError',))
        self.emit(st, fr, 'load', node, base=b, attr=attr, value=('a', b, attr))
        return [(st, ('a', b, attr))]

    def e_Subscript(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            for s2, i in self.ev(e.slice, s, fr):
                out += self.getitem(b, i, s2, fr, e)
        return out

    def e_Slice(self, e, st, fr):
        out = [(st, [])]
        for x in (e.lower, e.upper, e.step):
            nxt = []
            for s, acc in out:
                if x is None:
                    nxt.append((s, acc + [NONE]))
                else:
                    for s2, v in self.ev(x, s, fr):
                        nxt.append((s2, acc + [v]))
            out = nxt
        return [(s, ('slc',) + tuple(a)) for s, a in out]

    def e_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def getitem(self, b, i, st, fr, node):
        if i[0] == 'slc':
            if b[0] in ('tup', 'list') and all(x[0] == 'c' for x in i[1:]) and not any(x[0] == 'star' for x in b[1]):
                return [(st, (b[0], b[1][slice(i[1][2], i[2][2], i[3][2])]) + b[2:])]
            if b[0] in ('tup',) and i[1][0] == 'c' and isinstance(i[1][2], int) and i[2] == NONE and i[3] == NONE \
                    and 0 <= i[1][2] <= len([1 for _ in itertools.takewhile(lambda x: x[0] != 'star', b[1])]):
                rest = b[1][i[1][2]:]
                return [(st, rest[0][1] if len(rest) == 1 and rest[0][0] == 'star' else ('tup', rest))]
            self.emit(st, fr, 'getitem', node, base=b, idx=i)
            return [(st, ('sub', b, i))]
        if b[0] in ('tup', 'list') and i[0] == 'c' and isinstance(i[2], int):
            pre = list(itertools.takewhile(lambda x: x[0] != 'star', b[1]))
            if 0 <= i[2] < len(pre):
                return [(st, pre[i[2]])]
            if i[2] < 0 and not any(x[0] == 'star' for x in b[1]) and -i[2] <= len(b[1]):
                return [(st, b[1][i[2]])]
        if b[0] == 'dict' and i[0] == 'c':
            for k, v in b[1]:
                if k == i:
                    return [(st, v)]
        if (b, '[]', i) in st.heap:
            return [(st, st.heap[(b, '[]', i)])]
        ty = self.typeof(b, st)
        if isinstance(ty, Cls):
            m = ty.find('__getitem__')
            if isinstance(m, Func) and self.may_inline(m, b, fr):
                return self.call_method(b, ty, m, [i], [], st, fr, node)
        if st.facts.get(('cmp', 'In', i, b)) is not True and b[0] not in ('g', 'cls'):
            self.fork_raise(st, fr, node, ('getitem', b, i), ('KeyError', 'IndexError'))
        self.emit(st, fr, 'getitem', node, base=b, idx=i)
        return [(st, ('sub', b, i))]

    def comp(self, kind, e, st, fr, elts):
        """comprehension: evaluated for one abstract element"""
        gens = e.generators
        f2 = fr
        cur = [(st, [], [])]
        for g in gens:
            nxt = []
            for s, its, conds in cur:
                for s2, it in self.ev(g.iter, s, f2):
                    lid = next(self.uid)
                    if it[0] == 'call' and it[1] == ('g', 'builtins.enumerate') and it[2]:
                        el = ('tup', (('idx', lid, 0), ('elem', it[2][0], lid, 0)))
                    elif it[0] == 'call' and it[1] == ('g', 'builtins.zip') and it[2]:
                        el = ('tup', tuple(('elem', x, lid, 0) for x in it[2]))
                    elif it[0] == 'call' and it[1][0] == 'a' and it[1][2] == 'items' and not it[2]:
                        el = ('tup', (('key', it[1][1], lid, 0), ('val', it[1][1], lid, 0)))
                    else:
                        el = ('elem', it, lid, 0)
                    self.emit(s2, fr, 'iter', e, iterable=it, loop=lid, comp=kind)
                    for s3 in self.store(g.target, el, s2, f2):
                        acc = [(s3, [])]
                        for c in g.ifs:
                            na = []
                            for q, cs in acc:
                                for q2, v in self.ev(c, q, f2):
                                    na.append((q2, cs + [v]))
                            acc = na
                        for q, cs in acc:
                            nxt.append((q, its + [it], conds + cs))
            cur = nxt
        out = []
        for s, its, conds in cur:
            for s2, vs in self.evs(elts, s, f2):
                self.emit(s2, fr, 'compelem', e, comp=kind, iters=tuple(its), conds=tuple(conds), value=tuple(vs))
                out.append((s2, ('comp', kind, tuple(vs), tuple(its), tuple(conds))))
        return out

    def e_ListComp(self, e, st, fr):
        return self.comp('list', e, st, fr, [e.elt])

    def e_SetComp(self, e, st, fr):
        return self.comp('set', e, st, fr, [e.elt])

    def e_DictComp(self, e, st, fr):
        return self.comp('dict', e, st, fr, [e.key, e.value])

    def e_GeneratorExp(self, e, st, fr):
        return [(st, ('genexp', id(e), fr.id))] if self._lazy(e, fr) else self.comp('gen', e, st, fr, [e.elt])

    def _lazy(self, e, fr):
        self.closures[('genexp', id(e), fr.id)] = (e, fr)
        return True

    def force(self, v, st, fr, how):
        """force a lazy generator expression / map"""
        if v[0] == 'genexp':
            e, f = self.closures[('genexp', v[1], v[2])]
            out = []
            for s, c in self.comp('gen:' + how, e, st, f, [e.elt]):
                out.append((s, ('comp', 'gen', c[2], c[3], c[4])))
            return out
        if v[0] == 'call' and v[1] == ('g', 'builtins.map') and len(v[2]) == 2:
            el = ('elem', v[2][1], next(self.uid), 0)
            self.emit(st, fr, 'iter', None, iterable=v[2][1], loop=el[2], comp='gen:' + how)
            out = []
            for s, r in self.call_value(v[2][0], [el], [], st, fr, None):
                self.emit(s, fr, 'compelem', None, comp='gen:' + how, iters=(v[2][1],), conds=(), value=(r,))
                out.append((s, ('comp', 'gen', (r,), (v[2][1],), ())))
            return out
        if v[0] == 'gen':
            rets = []
            items = []

            def on_yield(s, val):
                items.append(val)
                return [('norm', s, None)]
            for k, s, x in self.run_body(v[1], list(v[2]), list(v[3]), st, fr, None, on_yield):
                if k == 'ret':
                    rets.append((s, ('comp', 'gen', tuple(items[-1:]), (v,), ())))
                else:
                    self.sinks[-1].append((s, x))
            return rets
        return [(st, v)]

    def e_Await(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            self.emit(s, fr, 'await', e, value=v)
            self.fork_raise(s, fr, e, ('await', v))
            out.append((s, ('awaited', v)))
        return out

    def e_Yield(self, e, st, fr):
        vals = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        out = []
        for s, v in vals:
            out += self.do_yield(s, v, fr, e)
        return out

    def do_yield(self, s, v, fr, e):
        out = []
        oy = self.find_on_yield(fr)
        if oy is not None:
            for k, s2, v2 in oy(s, v):
                if k == 'norm':
                    out.append((s2, NONE))
                elif k == 'raise':
                    self.sinks[-1].append((s2, v2))
                else:
                    self.sinks[-1].append((s2, ('exc', next(self.uid), ('<thru>',), (), (k, v2))))
            return out
        self.emit(s, fr, 'yield', e, value=v)
        self.forget(s)
        if self.o.gen_exit:
            self.fork_raise(s, fr, e, ('yield',))
        out.append((s, ('sent', next(self.uid))))
        return out

    def find_on_yield(self, fr):
        return self.yielders.get(fr.id)

    def e_YieldFrom(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if v[0] == 'gen':
                for k, s2, x in self.run_body(v[1], list(v[2]), list(v[3]), s, fr, e,
                                              lambda q, val: [('norm', q2, None) for q2, _ in self.do_yield(q, val, fr, e)]):
                    if k == 'ret':
                        out.append((s2, x))
                    else:
                        self.sinks[-1].append((s2, x))
                continue
            self.emit(s, fr, 'yieldfrom', e, value=v)
            if self.o.gen_exit:
                self.fork_raise(s, fr, e, ('yield',))
            out.append((s, self.fresh('yieldfrom')))
        return out

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        f = e.func
        # super().x(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            return self.super_call(e, st, fr)
        out = []
        if isinstance(f, ast.Attribute):
            for s, b in self.ev(f.value, st, fr):
                for s2, args, kw in self.args(e, s, fr):
                    out += self.call_attr(b, mangle(f.attr, fr.cls), args, kw, s2, fr, e)
            return out
        for s, fv in self.ev(f, st, fr):
            for s2, args, kw in self.args(e, s, fr):
                out += self.call_value(fv, args, kw, s2, fr, e)
        return out

    def args(self, e, st, fr):
        out = []
        for s, a in self.evs(e.args, st, fr):
            cur = [(s, [])]
            for k in e.keywords:
                nxt = []
                for q, acc in cur:
                    for q2, v in self.ev(k.value, q, fr):
                        if k.arg is None and v[0] == 'dict' and all(x is not None and x[0] == 'c' for x, _ in v[1]):
                            nxt.append((q2, acc + [(x[2], y) for x, y in v[1]]))
                        else:
                            nxt.append((q2, acc + [(k.arg, v)]))
                cur = nxt
            out += [(q, a, kw) for q, kw in cur]
        return out

    def self_term(self, fr, st):
        f = fr
        while f is not None:
            if f.selft is not None:
                return f.selft
            f = f.parent
        return SELF

    def super_call(self, e, st, fr):
        out = []
        selft = self.self_term(fr, st)
        name = mangle(e.func.attr, fr.cls)
        ty = self.typeof(selft, st) or self.root_cls
        for s, args, kw in self.args(e, st, fr):
            m = None
            if isinstance(ty, Cls) and fr.cls is not None:
                m = ty.find(name, after=fr.cls) if fr.cls in ty.mro() else fr.cls.find(name, after=fr.cls)
            if isinstance(m, Func) and self.may_inline(m, selft, fr, is_super=True):
                out += self.call_method(selft, ty, m, args, kw, s, fr, e)
            elif m is None and name == '__init__':
                out.append((s, NONE))
            else:
                fn = ('super', m if isinstance(m, str) else (m.module.name + '.' + m.qual if m else '?'), name)
                out += self.opaque(fn, selft, name, args, kw, s, fr, e)
        return out

    def may_inline(self, func, recv, fr, is_super=False):
        if fr.depth >= self.o.depth:
            return False
        if sum(1 for x in fr.stack if x is func.node) >= 1:
            return False
        if self.o.inline is not None:
            r = self.o.inline(func, recv)
            if r is not None:
                return r
        if func.name != '__init__' and any(d.endswith('abstractmethod') for d in func.deco_names()):
            return False
        if func.module is getattr(self.root_mod, 'target', self.root_mod) or \
                func.module is getattr(fr.module, 'target', fr.module):
            return True
        if self.root_cls is not None and func.cls in self.root_cls.mro():
            return True
        return func.module.name in self.o.inline_mods

    def call_attr(self, b, name, args, kw, st, fr, node):
        """b.name(args)"""
        # class / module attribute
        if b[0] == 'cls':
            c = self.p.lookup(b[1])
            if isinstance(c, Cls):
                if name in c.inner:
                    return self.call_value(('cls', c.inner[name].fq), args, kw, st, fr, node)
                if name == '__new__':
                    return [(st, ('new', b[1], next(self.uid)))]
                m = c.find(name)
                if isinstance(m, Func):
                    k = m.kind()
                    if k == 'class':
                        if self.may_inline(m, b, fr):
                            return self.call_func(m, [b] + args, kw, st, fr, node, cls=c)
                    elif self.may_inline(m, args[0] if args else b, fr):
                        return self.call_func(m, args, kw, st, fr, node, cls=c)
                    return self.opaque(('fn', m.module.name + '.' + m.qual), b, name, args, kw, st, fr, node)
            return self.opaque(('a', b, name), b, name, args, kw, st, fr, node)
        if b[0] == 'g':
            lg = self.p.lookup(b[1])
            if not (isinstance(lg, tuple) and lg[0] == 'global'):
                res = self.getattr(b, name, st, fr, node)
                v = res[0][1]
                if v[0] in ('g', 'cls', 'fn'):
                    return self.call_value(v, args, kw, st, fr, node)
        # locks
        lk = self.lockkind(b, st)
        if lk:
            r = self.lock_method(b, lk, name, args, kw, st, fr, node)
            if r is not None:
                return r
        if (b, name) in st.heap:
            return self.call_value(st.heap[(b, name)], args, kw, st, fr, node, recv=b, name=name)
        ty = self.typeof(b, st)
        if isinstance(ty, Cls):
            m = ty.find(name)
            if isinstance(m, Func):
                if m.kind() == 'property':
                    out = []
                    if self.may_inline(m, b, fr):
                        for s, v in self.call_method(b, ty, m, [], [], st, fr, node):
                            out += self.call_value(v, args, kw, s, fr, node)
                        return out
                elif self.may_inline(m, b, fr):
                    return self.call_method(b, ty, m, args, kw, st, fr, node)
        if name == '__init__' and b[0] == 'g':
            return [(st, NONE)]
        return self.opaque(('a', b, name), b, name, args, kw, st, fr, node)

    def call_method(self, recv, ty, m, args, kw, st, fr, node):
        k = m.kind()
        if k == 'static':
            a = list(args)
        elif k == 'class':
            a = [('cls', ty.fq if isinstance(ty, Cls) else m.cls.fq)] + list(args)
        else:
            a = [recv] + list(args)
        return self.call_func(m, a, kw, st, fr, node, cls=m.cls)

    def call_func(self, m, args, kw, st, fr, node, cls=None):
        fval = self.mkclo(m.node, None, m.module, m.cls, m.where)
        out = []
        for s, fv in self.decorate(m, fval, st, fr):
            out += self.call_value(fv, args, kw, s, fr, node, force=True)
        return out

    def decorate(self, func, fval, st, fr):
        cur = [(st, fval)]
        if not self.o.deco:
            return cur
        mod = func.module
        for d in reversed(func.decorators):
            nm = mod.dotted(d.func if isinstance(d, ast.Call) else d) or ''
            last = nm.split('.')[-1]
            if last == 'contextmanager':
                cur = [(s, ('cmf',) + v[1:]) for s, v in cur]
                continue
            if last in IDENT_DECO or nm.endswith('.setter'):
                continue
            nxt = []
            df = Frame(next(self.uid), fr if func.cls is None else None, fr.where, mod, func.cls, None, None, fr.depth, fr.handled, fr.stack)
            for s, v in cur:
                for s2, dv in self.ev(d, s, df):
                    if dv[0] == 'excmodel':
                        nxt.append((s2, ('excwrap', dv, v)))
                        continue
                    l = None
                    if dv[0] == 'g':
                        s2, dv = self.module_value(dv, s2, fr)
                    if dv[0] == 'fn':
                        l = self.p.lookup(dv[1])
                    if isinstance(l, Func) or dv[0] in ('clo',):
                        ok = False
                        for s3, r in self.call_value(dv, [v], [], s2, df, d, force=True):
                            if r[0] in ('clo', 'excwrap'):
                                nxt.append((s3, r))
                            else:
                                nxt.append((s3, v))
                            ok = True
                    else:
                        self.emit(s2, fr, 'decoration', d, deco=dv)
                        nxt.append((s2, v))
            cur = nxt
        return cur

    def module_value(self, g, st, fr):
        """what a name of a module holds that is assigned once, the result of a function of the repository"""
        m, _, n = g[1].rpartition('.')
        mod = self.p.modules.get(m)
        values = [x.value for x in mod.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets)] \
            if mod is not None else []
        if len(values) == 1 and isinstance(values[0], ast.Call) and isinstance(self.p.lookup(mod.resolve_name(mod.dotted(values[0].func) or '') or ''), Func):
            f = Frame(next(self.uid), None, fr.where, mod, None, None, None, fr.depth, fr.handled, fr.stack)
            out = self.ev(values[0], st, f)
            if len(out) == 1 and out[0][1][0] == 'clo':
                return out[0]
        return st, g

    def call_value(self, fv, args, kw, st, fr, node, recv=None, name=None, force=False):
        k = fv[0]
        if k == 'clo':
            nd = self.closures[fv[1]][0]
            if not force and (sum(1 for x in fr.stack if x is nd) >= 1 or fr.depth >= self.o.depth + 2):
                return self.opaque(fv, recv, name or fv[2], args, kw, st, fr, node)
            if is_generator(nd) and fr.id != 0:
                return [(st, ('gen', fv[1], tuple(args), tuple(kw)))]
            return self.invoke(fv[1], args, kw, st, fr, node)
        if k == 'cmf':
            return [(st, ('gencm', fv[1], tuple(args), tuple(kw)))]
        if k == 'excwrap':
            model, inner = fv[1], fv[2]
            hs = model[2]
            f2 = self.sub_handled(fr, self.names_of(hs))
            sink = []
            self.sinks.append(sink)
            try:
                out = list(self.call_value(inner, args, kw, st, f2, node, recv, name, force))
            finally:
                self.sinks.pop()
            for s, e in sink:
                for m, s2, e2 in self.match(e, hs, s, fr, node):
                    if not m:
                        self.sinks[-1].append((s2, e2))
                    elif model[1] == 'silence':
                        self.emit(s2, fr, 'swallow', node, exc=e2, types=hs)
                        out.append((s2, model[3]))
                    else:
                        ne = ('exc', next(self.uid), self.exc_names(model[3]) if model[3] else None, (), model[3])
                        self.emit(s2, fr, 'raise', node, exc=ne, cause=e2)
                        self.sinks[-1].append((s2, ne))
            return out
        if k == 'fn':
            m = self.p.lookup(fv[1])
            if isinstance(m, Func):
                r = self.model_fn(m, args, kw, st, fr, node)
                if r is not None:
                    return r
                if force or self.may_inline(m, None, fr):
                    return self.call_func(m, args, kw, st, fr, node)
            return self.opaque(fv, None, fv[1].split('.')[-1], args, kw, st, fr, node)
        if k == 'cls':
            return self.instantiate(fv, args, kw, st, fr, node)
        if k == 'a' and recv is None:
            return self.call_attr(fv[1], fv[2], args, kw, st, fr, node)
        if k == 'g':
            return self.call_global(fv, args, kw, st, fr, node)
        if k == 'new':
            ty = self.typeof(fv)
            if isinstance(ty, Cls):
                m = ty.find('__call__')
                if isinstance(m, Func) and self.may_inline(m, fv, fr):
                    return self.call_method(fv, ty, m, args, kw, st, fr, node)
        return self.opaque(fv, recv, name, args, kw, st, fr, node)

    def model_fn(self, m, args, kw, st, fr, node):
        nm = m.name
        if nm == 'wraps' and m.module.name.startswith('satella.coding.decorators'):
            return [(st, ('fn', '<identity>'))]
        if nm == 'silence_excs' and m.cls is None and not any(k == 'returns_factory' for k, _ in kw):
            ts = []
            for a in args:
                ts += self.type_list(a)
            return [(st, ('excmodel', 'silence', tuple(ts), dict(kw).get('returns', NONE)))]
        return None

    def instantiate(self, fv, args, kw, st, fr, node):
        c = self.p.lookup(fv[1])
        nm = fv[1].split('.')[-1]
        if nm == 'silence_excs' and isinstance(c, (Cls, Func)):
            ret = dict(kw).get('returns', NONE)
            ts = []
            for a in args:
                ts += self.type_list(a)
            return [(st, ('excmodel', 'silence', tuple(ts), ret))]
        if nm == 'rethrow_as' and isinstance(c, (Cls, Func)) and len(args) == 2:
            return [(st, ('excmodel', 'rethrow', tuple(self.type_list(args[0])), args[1]))]
        new = ('new', fv[1], next(self.uid))
        if isinstance(c, Cls) and self.o.inline_new:
            init = c.find('__init__')
            if isinstance(init, Func) and self.may_inline(init, new, fr):
                self.emit(st, fr, 'call', node, fn=fv, recv=None, name=nm, args=tuple(args), kw=tuple(kw), result=new, inlined=True)
                return [(s, new) for s, _ in self.call_method(new, c, init, args, kw, st, fr, node)]
        self.emit(st, fr, 'call', node, fn=fv, recv=None, name=nm, args=tuple(args), kw=tuple(kw), result=new, inlined=False)
        if not (isinstance(c, Cls) and c.is_subclass_of('Exception')) and not self.is_exc(c):
            self.fork_raise(st, fr, node, ('call', fv))
        return [(st, new)]

    def is_exc(self, c):
        return isinstance(c, Cls) and any((m if isinstance(m, str) else m.name).split('.')[-1] in
                                          ('Exception', 'BaseException', 'ValueError', 'KeyError', 'TypeError',
                                           'RuntimeError', 'OSError', 'IOError') for m in c.mro())

    def call_global(self, fv, args, kw, st, fr, node):
        d = fv[1]
        if d in ('builtins.getattr',) and len(args) >= 2 and args[1][0] == 'c':
            if len(args) == 2:
                return self.getattr(args[0], args[1][2], st, fr, node)
        if d == 'builtins.setattr' and len(args) == 3 and args[1][0] == 'c':
            return [(s, NONE) for s in self.setattr(args[0], args[1][2], args[2], st, fr, node)]
        if d == 'builtins.super':
            return [(st, ('superobj',))]
        if d == 'builtins.next' and args:
            out = []
            self.emit(st, fr, 'call', node, fn=fv, recv=None, name='next', args=tuple(args), kw=tuple(kw), result=None)
            r = ('call', fv, tuple(args), tuple(kw), next(self.uid))
            if len(args) == 1:
                self.fork_raise(st, fr, node, ('call', fv), ('StopIteration',))
            self.fork_raise(st, fr, node, ('next', args[0]))
            return [(st, r)]
        if d == 'contextlib.suppress':
            ts = []
            for a in args:
                ts += self.type_list(a)
            return [(st, ('excmodel', 'silence', tuple(ts), NONE))]
        if d in EAGER and args:
            out = []
            for s, v in self.force(args[0], st, fr, d.split('.')[-1]):
                a = (v,) + tuple(args[1:])
                if d == 'builtins.list' and v[0] == 'comp':
                    r = ('comp', 'list') + v[2:]
                else:
                    r = ('call', fv, a, tuple(kw))
                self.emit(s, fr, 'call', node, fn=fv, recv=None, name=d.split('.')[-1], args=a, kw=tuple(kw), result=r)
                out.append((s, r))
            return out
        if d in PURE:
            if d == 'builtins.len' and args and args[0][0] == 'tup' and not any(x[0] == 'star' for x in args[0][1]):
                return [(st, C(len(args[0][1])))]
            r = ('call', fv, tuple(args), tuple(kw))
            self.emit(st, fr, 'call', node, fn=fv, recv=None, name=d.split('.')[-1], args=tuple(args), kw=tuple(kw), result=r)
            if d in ('builtins.hash', 'builtins.len', 'builtins.iter') and fr.handled:
                self.fork_raise(st, fr, node, ('call', fv), ('TypeError',))
            if d in ('builtins.repr', 'builtins.str') and 'Exception' in fr.handled and args and args[0][0] != 'exc':
                self.fork_raise(st, fr, node, ('call', fv))
            return [(st, r)]
        return self.opaque(fv, None, d.split('.')[-1], args, kw, st, fr, node)

    def opaque(self, fn, recv, name, args, kw, st, fr, node):
        # force lazies handed to eager consumers such as str.join / extend / update
        if name in ('join', 'extend', 'update') and args and args[0][0] in ('genexp',):
            out = []
            for s, v in self.force(args[0], st, fr, name):
                out += self.opaque(fn, recv, name, [v] + list(args[1:]), kw, s, fr, node)
            return out
        if fn == ('fn', '<identity>'):
            return [(st, args[0] if args else NONE)]
        d = fn[1] if fn[0] == 'g' else None
        r = ('call', fn, tuple(args), tuple(kw), next(self.uid))
        if recv is not None:
            ty = self.typeof(recv, st)
            if name in MUTATORS:
                self.mutated(st, recv)
            if name == 'items' and not args:
                r = r[:4]
        else:
            ty = None
        self.emit(st, fr, 'call', node, fn=fn, recv=recv, name=name, args=tuple(args), kw=tuple(kw), result=r)
        if d == 'time.sleep' and 'KeyboardInterrupt' in fr.handled:
            self.fork_raise(st, fr, node, ('call', fn), ('KeyboardInterrupt',))
        if d in NORAISE_EXT or (d and d.startswith('logging.')) or d == 'warnings.warn':
            return [(st, r)]
        if fn[0] == 'a' and fn[1][0] == 'g' and fn[1][1].endswith('logger'):
            return [(st, r)]
        if name in self.o.noraise:
            return [(st, r)]
        if fn[0] in ('g', 'call') and d and self.is_builtin_exc(d):
            return [(st, r[:4])]
        if recv is not None:
            if isinstance(ty, str) and ty in CONT:
                if name in NORAISE_CONT:
                    return [(st, r)]
                if name in LOOKUP_METH:
                    if not (name == 'pop' and len(args) == 2) and st.facts.get(('truthy', recv)) is not True or name == 'remove':
                        self.fork_raise(st, fr, node, ('call', fn), LOOKUP_METH[name])
                    return [(st, r)]
            if name in NORAISE_METH and (ty is None or isinstance(ty, str)):
                return [(st, r)]
        self.fork_raise(st, fr, node, ('call', fn))
        return [(st, r)]

    def is_builtin_exc(self, d):
        if d in ('queue.Empty', 'queue.Full') or (not d.startswith('builtins.') and d.split('.')[-1].endswith(
                ('Error', 'Exception', 'Warning')) and d.split('.')[-1][:1].isupper()):
            return True
        c = getattr(_b, d.split('.')[-1], None)
        return d.startswith('builtins.') and isinstance(c, type) and issubclass(c, BaseException)

    # ------------------------------------------------------------------ locks
    def canon_lock(self, b):
        return b

    def acquire(self, lock, kind, st, fr, node, args, kw):
        """-> [(st, value, acquired)]"""
        blocking = args[0] if args else dict(kw).get('blocking', TRUE)
        tmo = args[1] if len(args) > 1 else dict(kw).get('timeout', None)
        if st.held(lock) and kind == 'lock':
            self.emit(st, fr, 'relock', node, lock=lock)
        sure = blocking == TRUE and (tmo is None or tmo == C(-1))
        out = []
        if not sure:
            f = st.copy()
            self.emit(f, fr, 'acquire', node, lock=lock, ok=False, args=tuple(args), kw=tuple(kw), lkind=kind)
            out.append((f, FALSE, False))
        self.emit(st, fr, 'acquire', node, lock=lock, ok=True, args=tuple(args), kw=tuple(kw), lkind=kind)
        st.setlock(lock, st.held(lock) + 1)
        if st.held(lock) == 1:
            self.forget(st)
        out.append((st, TRUE, True))
        return out

    def release(self, lock, st, fr, node):
        self.emit(st, fr, 'release', node, lock=lock, had=st.held(lock))
        st.setlock(lock, st.held(lock) - 1)

    def lock_method(self, b, lk, name, args, kw, st, fr, node):
        if name in ('acquire', '__enter__'):
            return [(s, v) for s, v, _ in self.acquire(b, lk, st, fr, node, args, kw)]
        if name in ('release', '__exit__'):
            self.release(b, st, fr, node)
            return [(st, NONE)]
        if name == 'wait_for' and args and args[0][0] == 'clo':
            # test; sleep while false; test again
            out = []
            tmo = args[1] if len(args) > 1 else dict(kw).get('timeout', NONE)
            for s1, v1 in self.invoke(args[0][1], [], [], st, fr, node):
                ts, fs = self.split(s1, v1, fr, node)
                out += [(s, v1) for s in ts]
                for s in fs:
                    self.emit(s, fr, 'wait', node, lock=b, args=(tmo,) if tmo != NONE else (), kw=())
                    self.forget(s)
                    self.fork_raise(s, fr, node, ('wait', b))
                    for s2, v2 in self.invoke(args[0][1], [], [], s, fr, node):
                        t2, f2 = self.split(s2, v2, fr, node)
                        out += [(x, TRUE) for x in t2]
                        if tmo != NONE:
                            out += [(x, FALSE) for x in f2]
            return out
        if name in ('wait', 'wait_for'):
            self.emit(st, fr, 'wait', node, lock=b, args=tuple(args), kw=tuple(kw))
            self.forget(st)
            self.fork_raise(st, fr, node, ('wait', b))
            return [(st, ('call', ('a', b, name), tuple(args), tuple(kw), next(self.uid)))]
        if name in ('notify', 'notify_all', 'notifyAll'):
            self.emit(st, fr, 'notify', node, lock=b, name=name, args=tuple(args))
            return [(st, NONE)]
        return None

    # ------------------------------------------------------------------ invoking closures
    def invoke(self, cid, args, kw, st, fr, node):
        out = []
        for k, s, v in self.run_body(cid, args, kw, st, fr, node, None):
            if k == 'ret':
                out.append((s, v))
            else:
                self.sinks[-1].append((s, v))
                if len(self.sinks[-1]) > self.o.budget:
                    raise Budget()
        return out

    def run_body(self, cid, args, kw, st, fr, node, on_yield, cmgr=False):
        nd, parent, module, cls, where = self.closures[cid]
        f = Frame(next(self.uid), parent, where, module, cls, None, nd, fr.depth + 1, fr.handled, fr.stack + (nd,))
        a = nd.args
        pos = a.posonlyargs + a.args
        if pos and args and cls is not None and parent is None:
            f.selft = args[0]
        if on_yield is not None:
            self.yielders[f.id] = on_yield
        self.bindargs(nd, a, args, kw, st, f, parent, module, cls)
        if isinstance(nd, ast.Lambda):
            sink = []
            self.sinks.append(sink)
            try:
                r = self.ev(nd.body, st, f)
            finally:
                self.sinks.pop()
            return [('ret', s, v) for s, v in r] + [('raise', s, e) for s, e in sink]
        out = []
        for k, s, v in self.block(nd.body, st, f):
            if k == 'norm':
                out.append(('ret', s, NONE))
            else:
                out.append((k, s, v))
        # drop the frame variables (unless captured by closures)
        return out

    def bindargs(self, nd, a, args, kw, st, f, parent, module, cls):
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        flat = []
        for x in args:
            if x[0] == 'star' and x[1][0] in ('tup', 'list'):
                flat += list(x[1][1])
            else:
                flat.append(x)
        args = flat
        kwd = dict((k, v) for k, v in kw if k is not None)
        dstar = [v for k, v in kw if k is None]
        i = 0
        bound = set()
        while i < len(pos) and args and args[0][0] != 'star':
            st.env[(f.id, pos[i])] = args.pop(0)
            bound.add(pos[i])
            i += 1
        if i < len(pos) and args and args[0][0] == 'star':
            src = args[0][1]
            j = 0
            while i < len(pos) and pos[i] not in kwd:
                st.env[(f.id, pos[i])] = ('sub', src, C(j))
                bound.add(pos[i])
                i += 1
                j += 1
            if a.vararg:
                st.env[(f.id, a.vararg.arg)] = ('slice', src, C(j), NONE)
            args = []
        elif a.vararg:
            if len(args) == 1 and args[0][0] == 'star':
                st.env[(f.id, a.vararg.arg)] = args[0][1]
            else:
                st.env[(f.id, a.vararg.arg)] = ('tup', tuple(args))
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in kwd and n not in bound:
                st.env[(f.id, n)] = kwd.pop(n)
                bound.add(n)
        if a.kwarg:
            if not kwd and len(dstar) == 1:
                st.env[(f.id, a.kwarg.arg)] = dstar[0]
            else:
                st.env[(f.id, a.kwarg.arg)] = ('dict', tuple((C(k), v) for k, v in sorted(kwd.items())) +
                                               tuple((None, v) for v in dstar), 0)
        # defaults
        df = a.defaults
        off = len(pos) - len(df)
        defs = {pos[off + j]: d for j, d in enumerate(df)}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in bound:
                continue
            if dstar:
                st.env[(f.id, n)] = ('kwpick', dstar[0], n)
            elif n in defs:
                df_ = Frame(next(self.uid), parent, f.where, module, cls, None, None, f.depth, (), f.stack)
                self.sinks.append([])
                try:
                    r = self.ev(defs[n], st.copy(), df_)
                finally:
                    self.sinks.pop()
                st.env[(f.id, n)] = r[0][1] if r else self.fresh('default')
            else:
                st.env[(f.id, n)] = self.fresh('arg:' + n)


MUTATORS = {'append', 'add', 'discard', 'clear', 'extend', 'appendleft', 'insert', 'pop', 'popleft', 'popitem',
            'remove', 'update', 'setdefault', 'sort', 'reverse', 'push', 'put', 'move_to_end', 'push_many'}


def isnone(t):
    a, b = NONE, t
    if repr(a) > repr(b):
        a, b = b, a
    return ('cmp', 'Is', a, b)


def is_identity_atom(a, base):
    return a[0] == 'cmp' and a[1] == 'Is'
