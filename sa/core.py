"""Obligation bookkeeping shared by all rules."""
import ast
import traceback

from .project import Project, AnchorMissing, Func, Cls
from .engine import Interp
from .terms import *


class Violation:
    def __init__(self, rule, construct, where, line, msg, path=None):
        self.rule, self.construct, self.where, self.line, self.msg, self.path = rule, construct, where, line, msg, path

    @property
    def key(self):
        return self.rule + ' @ ' + self.construct

    def asdict(self):
        return {'rule': self.rule, 'construct': self.construct, 'where': self.where, 'line': self.line,
                'message': self.msg, 'path': self.path}


class Undecided(Exception):
    """The construct has a shape the rule cannot judge; not an alarm"""


class Ctx:
    def __init__(self, prop, tier='quick', root=None):
        self.prop, self.tier = prop, tier
        self.p = Project(root)
        self.violations = {}
        self.obligations = []       # (rule, construct)
        self.undecided = []         # (rule, construct, reason)
        self.funcs = set()
        self.npaths = 0
        self.nevents = 0
        self.truncated = set()
        self.rules = {}             # rule -> description
        self._cache = {}
        self._cur = None
        self.notes = []

    # ---------------------------------------------------------------- paths
    def paths(self, func, cls=None, **kw):
        if isinstance(func, str):
            func = self.p.func(func)
        kw.setdefault('max_iter', 2 if self.tier == 'quick' else 3)
        if self.tier != 'quick':
            kw.setdefault('depth', 7)
            kw.setdefault('budget', 12000)
        try:
            key = (id(func.node), cls.fq if cls else None, tuple(sorted((k, repr(v) if not callable(v) else id(v)) for k, v in kw.items())))
        except TypeError:
            key = None
        if key is not None and key in self._cache:
            return self._cache[key]
        it = Interp(self.p, **kw)
        ps = it.paths(func, cls=cls)
        if it.truncated:
            self.truncated.add(func.where)
        self.funcs.add(func.where)
        self.npaths += len(ps)
        self.nevents += sum(len(p.events) for p in ps)
        r = [p for p in ps]
        for p in r:
            pass
        if key is not None:
            self._cache[key] = r
        self.last_interp = it
        return r

    def closures(self, func, cls=None, last=True, **kw):
        """Paths of the innermost callable produced by a decorator factory"""
        if isinstance(func, str):
            func = self.p.func(func)
        kw.setdefault('max_iter', 2 if self.tier == 'quick' else 3)
        it = Interp(self.p, **kw)
        ps = it.closure_paths(func, cls=cls)
        if it.truncated:
            self.truncated.add(func.where)
        self.funcs.add(func.where)
        self.npaths += len(ps)
        self.nevents += sum(len(p.events) for _, p in ps)
        self.last_interp = it
        if last:
            ps = [p for st, p in ps if not (p.kind == 'ret' and p.val and p.val[0] in ('clo', 'excwrap') and
                                            st < max(x for x, _ in ps))]
        return ps

    def mpaths(self, clsname, meth, **kw):
        """Paths of a public method of a public class (as resolved through the MRO)"""
        c = clsname if isinstance(clsname, Cls) else self.p.cls(clsname)
        m = c.find_repo(meth)
        if m is None:
            raise AnchorMissing('%s.%s' % (c.fq, meth))
        return self.paths(m, cls=c, **kw)

    # ---------------------------------------------------------------- reporting
    def rule(self, rid, text):
        self.rules[rid] = text
        return rid

    def ok(self, rule, construct):
        self.obligations.append((rule, construct))

    def bad(self, rule, construct, msg, where=None, line=0, path=None):
        self.obligations.append((rule, construct))
        v = Violation(rule, construct, where or construct, line, msg, render(path) if path is not None else None)
        self.violations.setdefault(v.key, v)

    def check(self, cond, rule, construct, msg, where=None, line=0, path=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, msg, where, line, path)
        return cond

    def skip(self, rule, construct, reason):
        self.undecided.append((rule, construct, reason))

    def item(self, rule, construct):
        return _Item(self, rule, construct)


class _Item:
    """Isolates one obligation: a missing public construct is a violation; an unexpected shape makes
    the obligation undecided."""

    def __init__(self, ctx, rule, construct):
        self.ctx, self.r, self.c = ctx, rule, construct

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            return False
        if issubclass(t, AnchorMissing):
            self.ctx.bad(self.r, self.c, 'public construct is gone: %s' % v)
            return True
        if issubclass(t, Undecided):
            self.ctx.skip(self.r, self.c, str(v))
            return True
        if issubclass(t, Exception):
            self.ctx.skip(self.r, self.c, 'internal: ' + ''.join(traceback.format_exception(t, v, tb))[-600:])
            return True
        return False


def render(path, limit=60):
    out = []
    for e in path.events:
        if e.kind in ('load', 'loophead'):
            continue
        out.append('%s:%d %s %s' % (e.fn, e.line, e.kind, ', '.join(
            '%s=%s' % (k, show(v)[:120] if isinstance(v, tuple) else v) for k, v in e.d.items() if k not in ('fn', 'result', 'iters', 'conds'))))
    if len(out) > limit:
        out = out[:limit // 2] + ['...'] + out[-limit // 2:]
    out.append('=> %s %s' % (path.kind, show(path.val)[:160] if path.val else ''))
    return out
