"""C04, C05, C06: wake-ups, bounded waits, thread life cycle."""
import ast

from ..q import *
from ..project import Cls, Func
from .conc_locks import is_private, last_line, ENGINE_TECH
from .conc_state import self_locks, root

CC = 'satella.coding.concurrent.'
CONDITIONS = ('threading.Condition', CC + 'thread.Condition')
ADDERS = {'append', 'appendleft', 'extend', 'extendleft', 'insert', 'add', 'put', '__setitem__', 'update', '__iadd__'}


def is_exc(path, *names):
    """the path ends with one of the named exceptions, raised by satella itself"""
    return path.kind == 'raise' and raises_only(path, *names)


def typed_fields(ctx, c, *types):
    out = []
    for f, ts in c.field_types().items():
        for t in ts:
            k = ctx.p.lookup(t)
            names = [t] + ([m.fq if isinstance(m, Cls) else m for m in k.mro()] if isinstance(k, Cls) else [])
            if any(n in types for n in names):
                out.append(f)
    return sorted(set(out))


def condition_fields(ctx, c):
    return typed_fields(ctx, c, *CONDITIONS)


def public_methods(ctx, c):
    seen = set()
    for m in c.mro():
        if isinstance(m, Cls):
            for n, f in m.methods.items():
                if n not in seen and not is_private(n) and n != '__init__':
                    seen.add(n)
                    yield n, f


def cond_fields_of(t):
    """fields of self a condition reads"""
    return {x[2] for x in walk(t) if x and x[0] == 'a' and len(x) > 2 and x[1] == SELF}


def waits_on(path, conds):
    return [(i, e) for i, e in enumerate(path.events) if e.kind == 'wait' and e.lock[0] == 'a' and
            e.lock[1] == SELF and e.lock[2] in conds]


def wait_sites(ctx, c, methods):
    """{method: (func, paths)} of the methods that block on a condition of the object"""
    conds = condition_fields(ctx, c)
    out = {}
    for n in methods:
        f = c.find_repo(n)
        if f is None:
            raise AnchorMissing('%s.%s' % (c.fq, n))
        out[n] = (f, ctx.paths(f, cls=c))
    return conds, out


WAITERS = {CC + 'PeekableQueue': ('get', 'peek'), CC + 'AtomicNumber': ('wait_until_equal',)}


def predicate_fields(ctx, c, methods):
    conds, sites = wait_sites(ctx, c, methods)
    fields = set()
    for n, (f, ps) in sites.items():
        for p in ps:
            for i, e in waits_on(p, conds):
                for x in p.events[:i]:
                    if x.kind == 'assume':
                        fields |= cond_fields_of(x.cond)
    return conds, sites, fields - set(conds)


def no_lost_wakeup(ctx, only=None):
    r1 = ctx.rule('check-before-wait', 'a waiter tests its condition while holding the lock of the condition variable, '
                                       'after it last took it, and only then sleeps')
    r2 = ctx.rule('recheck-after-wait', 'after every wake-up the condition is tested again before the call returns')
    for cn, methods in WAITERS.items():
        if only is not None and cn not in only:
            continue
        with ctx.item(r1, cn):
            c = ctx.p.cls(cn)
            conds, sites, fields = predicate_fields(ctx, c, methods)
            if not conds or not fields:
                raise Undecided('no condition variable, or no tested field')
            for n, (f, ps) in sites.items():
                name = '%s.%s' % (cn, n)
                bad = bad2 = None
                nw = 0
                for p in ps:
                    last_wait = -1
                    for i, e in waits_on(p, conds):
                        nw += 1
                        since = max([-1] + [j for j in range(i) if p.events[j].kind in ('acquire', 'wait') and
                                            j < i])
                        lockset = self_locks(e)
                        tests = [x for x in p.events[since + 1:i] if x.kind == 'assume' and cond_fields_of(x.cond) & fields
                                 and self_locks(x)]
                        if not lockset or not tests:
                            bad = bad or (p, e)
                        last_wait = i
                    if last_wait >= 0 and p.kind == 'ret':
                        after = [x for x in p.events[last_wait + 1:] if x.kind == 'assume' and cond_fields_of(x.cond) & fields
                                 and self_locks(x)]
                        if not after:
                            bad2 = bad2 or (p, p.events[last_wait])
                if bad:
                    ctx.bad(r1, name, 'sleeps on %s without having tested %s under the lock since taking it: a change made '
                                      'in between is missed' % (show(bad[1].lock), ', '.join(sorted(fields))),
                            f.where, bad[1].line, bad[0])
                elif nw:
                    ctx.ok(r1, name)
                if bad2:
                    ctx.bad(r2, name, 'returns after a wake-up without testing %s again' % ', '.join(sorted(fields)),
                            f.where, bad2[1].line, bad2[0])
                elif nw:
                    ctx.ok(r2, name)
                if not nw and not any(x.kind == 'wait' for p in ps for x in p.events):
                    raise Undecided('%s does not block on a condition variable' % name)


def enabling(e, fields, scalar):
    """the event may make a waiter's condition true"""
    if e.kind == 'store' and e.base == SELF and e.attr in fields:
        return scalar or e.value[0] not in ('list', 'c')
    if e.kind == 'call' and e.recv is not None and e.name in ADDERS and root(e.recv) in fields:
        return True
    if e.kind == 'setitem' and root(e.base) in fields:
        return True
    return False


def wakeups(ctx, only=None):
    r = ctx.rule('notify-after-change', 'every operation that changes the state waiters test wakes all of them after the '
                                        'change and before it returns')
    for cn, methods in WAITERS.items():
        if only is not None and cn not in only:
            continue
        with ctx.item(r, cn):
            c = ctx.p.cls(cn)
            conds, sites, fields = predicate_fields(ctx, c, methods)
            if not fields:
                raise Undecided('no tested field')
            scalar = cn.endswith('AtomicNumber')
            for n, f in public_methods(ctx, c):
                name = '%s.%s' % (cn, n)
                with ctx.item(r, name):
                    bad, hit = None, False
                    for p in ctx.paths(f, cls=c):
                        if p.kind not in ('ret',):
                            continue
                        last = None
                        for i, e in enumerate(p.events):
                            if enabling(e, fields, scalar):
                                last = (i, e)
                        if last is None:
                            continue
                        hit = True
                        notes = [x for x in p.events[last[0] + 1:] if x.kind == 'notify' and
                                 x.lock[0] == 'a' and x.lock[1] == SELF and x.lock[2] in conds]
                        full = [x for x in notes if x.d.get('name') == 'notify_all']
                        if full:
                            if any(x for x in full if needs_lock(ctx, c, x.lock[2]) and not self_locks(x)):
                                bad = bad or (p, full[0], 'wakes the waiters without holding the lock')
                            continue
                        if any(x.args and not is_c(x.args[0]) for x in notes):
                            raise Undecided('computed number of wake-ups')
                        bad = bad or (p, last[1], 'changes %s but %s' % (
                            ', '.join(sorted(fields)), 'wakes only some of the threads waiting for it' if notes else
                            'does not wake the threads waiting for it'))
                    if bad:
                        ctx.bad(r, name, bad[2], f.where, bad[1].line, bad[0])
                    elif hit:
                        ctx.ok(r, name)


def needs_lock(ctx, c, f):
    return 'threading.Condition' in c.field_types().get(f, ())


def queue_timeout(ctx):
    r = ctx.rule('queue-empty', 'PeekableQueue.get/peek take an item only after seeing one since the last wake-up, and raise '
                                'Empty only after seeing none and only when a timeout was given')
    c = ctx.p.cls(CC + 'PeekableQueue')
    conds, sites, fields = predicate_fields(ctx, c, ('get', 'peek'))
    for n, (f, ps) in sites.items():
        name = 'PeekableQueue.' + n
        with ctx.item(r, name):
            if len(fields) != 1:
                raise Undecided('several tested fields')
            q = ('a', SELF, list(fields)[0])
            for p in ps:
                lw = max([-1] + [i for i, e in enumerate(p.events) if e.kind in ('wait', 'acquire')])
                seen = None
                for e in p.events[lw + 1:]:
                    if e.kind == 'assume' and e.cond == ('truthy', q):
                        seen = e.truth
                if p.kind == 'ret':
                    if seen is not True:
                        ctx.bad(r, name, 'takes an item from a queue not known to be non-empty', f.where, last_line(p), p)
                        break
                elif is_exc(p, 'Empty'):
                    if seen is not False:
                        ctx.bad(r, name, 'raises Empty without having seen the queue empty', f.where, last_line(p), p)
                        break
                    if fact(p, ('cmp', 'Is', P('timeout'), NONE)) is True:
                        ctx.bad(r, name, 'raises Empty although no timeout was given', f.where, last_line(p), p)
                        break
                elif is_exc(p, 'WouldWaitMore', 'IndexError') and not is_opaque_exc(p):
                    ctx.bad(r, name, 'raises %s instead of Empty' % show(p.val), f.where, last_line(p), p)
                    break
            else:
                ctx.ok(r, name)


# ------------------------------------------------------------------ Condition, DeferredValue, sync_threadpool
def super_call(e, name):
    if e.kind != 'call' or e.name != name:
        return False
    fn = e.d['fn']
    return fn[0] == 'super' or fn[0] == 'a' and fn[1][0] in ('g', 'cls') and fn[1][1].endswith('Condition')


def condition_api(ctx):
    r = ctx.rule('condition-api', 'Condition.notify(n)/notify_all()/wait() act on the underlying condition with its lock held '
                                  'and report a missed notification as WouldWaitMore exactly when asked to')
    c = ctx.p.cls(CC + 'Condition')
    for n in ('notify', 'notify_all'):
        name = 'Condition.' + n
        with ctx.item(r, name):
            f = c.find_repo(n)
            if f is None:
                raise AnchorMissing(name)
            ok = True
            for p in ret(ctx.paths(f, cls=c)):
                es = [e for e in p.events if super_call(e, n)]
                if not es:
                    ctx.bad(r, name, 'returns without notifying the underlying condition', f.where, last_line(p), p)
                    ok = False
                    break
                e = es[0]
                if not self_locks(e):
                    ctx.bad(r, name, 'notifies without holding the lock', f.where, e.line, p)
                    ok = False
                    break
                if n == 'notify':
                    arg = e.args[0] if e.args else dict(e.kw).get('n')
                    if arg != P('n'):
                        ctx.bad(r, name, 'does not wake as many threads as asked (n is %s)' % (show(arg) if arg else 'dropped'),
                                f.where, e.line, p)
                        ok = False
                        break
            if ok:
                ctx.ok(r, name)
    name = 'Condition.wait'
    with ctx.item(r, name):
        f = c.find_repo('wait')
        tnone = ('cmp', 'Is', P('timeout'), NONE)
        for p in ctx.paths(f, cls=c):
            es = [e for e in p.events if super_call(e, 'wait')]
            miss = [e for e in p.events if e.kind == 'assume' and e.cond[0] == 'truthy' and e.cond[1][0] == 'call' and
                    any(x.result == e.cond[1] for x in es)]
            dr = truth_of(p, P('dont_raise'))
            if p.kind == 'ret':
                if not es:
                    ctx.bad(r, name, 'returns without waiting', f.where, last_line(p), p)
                    break
                if not self_locks(es[0]):
                    ctx.bad(r, name, 'waits without holding the lock', f.where, es[0].line, p)
                    break
                if miss and miss[-1].truth is False and dr is not True:
                    ctx.bad(r, name, 'returns normally although it was not notified and dont_raise was not given',
                            f.where, last_line(p), p)
                    break
                if fact(p, tnone) is not True and not miss and dr is not True:
                    ctx.bad(r, name, 'returns without looking at whether it was notified in time', f.where, last_line(p), p)
                    break
            elif is_exc(p, 'WouldWaitMore'):
                if fact(p, tnone) is True or (miss and miss[-1].truth is True) or dr is True:
                    ctx.bad(r, name, 'raises WouldWaitMore although %s' % (
                        'no timeout was given' if fact(p, tnone) is True else 'dont_raise was given' if dr else 'it was notified'),
                            f.where, last_line(p), p)
                    break
        else:
            ctx.ok(r, name)


def atomic_wait(ctx):
    r = ctx.rule('atomic-wait', 'AtomicNumber.wait(timeout, throw_exception) raises WouldWaitMore on a timeout exactly when '
                                'throw_exception is set')
    name = 'AtomicNumber.wait'
    with ctx.item(r, name):
        ps = ctx.mpaths(CC + 'AtomicNumber', 'wait')
        te = P('throw_exception')
        for p in ps:
            w = [e for e in p.events if e.kind == 'wait']
            if p.kind == 'ret' and not w:
                ctx.bad(r, name, 'returns without waiting', name, last_line(p), p)
                break
            if w and w[0].args:
                pass
            t = truth_of(p, te)
            caught = [e for e in p.events if e.kind == 'catch']
            if p.kind == 'ret' and caught and t is not False:
                ctx.bad(r, name, 'swallows the timeout although throw_exception is set', name, last_line(p), p)
                break
            if p.kind == 'raise' and caught and t is False:
                ctx.bad(r, name, 'raises on timeout although throw_exception is not set', name, last_line(p), p)
                break
        else:
            ctx.ok(r, name)


def deferred(ctx):
    r = ctx.rule('deferred-value', 'DeferredValue publishes the value before waking its readers, accepts one value only, and '
                                   'a reader returns it or raises WouldWaitMore exactly on timeout')
    c = ctx.p.cls(CC + 'DeferredValue')
    evf = typed_fields(ctx, c, 'threading.Event')
    name = 'DeferredValue.set_value'
    valf = set()
    with ctx.item(r, name):
        f = c.find_repo('set_value')
        par = P(f.node.args.args[1].arg)
        ok = True
        for p in ctx.paths(f, cls=c):
            st = [(i, e) for i, e in enumerate(p.events) if e.kind == 'store' and e.base == SELF and e.value == par]
            wk = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'set' and e.recv and e.recv[0] == 'a' and
                  e.recv[2] in evf or e.kind == 'notify' and e.d.get('name') == 'notify_all']
            valf |= {e.attr for _, e in st}
            if p.kind == 'ret':
                if not st or not wk:
                    ctx.bad(r, name, 'returns without %s' % ('storing the value' if not st else 'waking the readers'),
                            f.where, last_line(p), p)
                    ok = False
                    break
                if wk[0] < st[0][0]:
                    ctx.bad(r, name, 'wakes the readers before the value is stored', f.where, last_line(p), p)
                    ok = False
                    break
                tested = [e for e in p.events[:st[0][0]] if e.kind == 'assume' and cond_fields_of(e.cond) & {st[0][1].attr}]
                if not tested and not any(e.kind == 'assume' for e in p.events[:st[0][0]]):
                    ctx.bad(r, name, 'overwrites a value that was already set', f.where, st[0][1].line, p)
                    ok = False
                    break
            elif is_exc(p, 'ValueError') and (st or wk):
                ctx.bad(r, name, 'changes the value although it refuses it', f.where, last_line(p), p)
                ok = False
                break
        if ok and not any(is_exc(p, 'ValueError') for p in ctx.paths(f, cls=c)):
            ctx.bad(r, name, 'never refuses a second value with ValueError', f.where, f.node.lineno)
            ok = False
        if ok:
            ctx.ok(r, name)
    for n in ('value', 'result'):
        name = 'DeferredValue.' + n
        with ctx.item(r, name):
            f = c.find_repo(n)
            for p in ctx.paths(f, cls=c):
                w = [e for e in p.events if e.kind == 'call' and e.name == 'wait' and e.recv and e.recv[0] == 'a' and e.recv[2] in evf]
                wt = [truth_of(p, e.result) for e in w]
                seen = [e for e in p.events if e.kind == 'assume' and (cond_fields_of(e.cond) & valf)]
                isset = [e for e in p.events if e.kind == 'assume' and any(
                    x[0] == 'call' and x[1][0] == 'a' and x[1][2] == 'is_set' for x in walk(e.cond) if x and len(x) > 2 and x[0] == 'call')]
                if p.kind == 'ret':
                    if p.val[0] == 'a' and p.val[1] == SELF and p.val[2] not in valf or p.val[0] == 'c':
                        ctx.bad(r, name, 'returns %s instead of the value' % show(p.val), f.where, last_line(p), p)
                        break
                    ready = any(t is True for t in wt) or any(e.truth is False and e.cond[:2] == ('cmp', 'Is') for e in seen[:1]) \
                        or any(e.truth for e in isset)
                    if not ready:
                        if not w and not seen and not isset:
                            ctx.bad(r, name, 'returns without waiting for the value', f.where, last_line(p), p)
                            break
                        if wt and wt[-1] is not True:
                            ctx.bad(r, name, 'returns although the wait may have timed out', f.where, last_line(p), p)
                            break
                elif is_exc(p, 'WouldWaitMore') and not is_opaque_exc(p):
                    if wt and wt[-1] is True or not w:
                        ctx.bad(r, name, 'raises WouldWaitMore although the value is there', f.where, last_line(p), p)
                        break
                elif p.kind == 'raise' and not is_opaque_exc(p):
                    ctx.bad(r, name, 'a timeout is reported as %s' % show(p.val), f.where, last_line(p), p)
                    break
            else:
                ctx.ok(r, name)


def threadpool_sync(ctx):
    r = ctx.rule('threadpool-sync', 'sync_threadpool lets every worker it parked go on every exit, and returns only after all '
                                    'workers reported')
    name = 'sync_threadpool'
    with ctx.item(r, name):
        f = ctx.p.func(CC + 'sync_threadpool')
        for p in ended(ctx.paths(f)):
            sub = [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'submit']
            if not sub:
                continue
            if p.kind == 'raise' and p.val[0] == 'exc' and p.val[4] and p.val[4][0] == 'call' and mentions_attr(p.val[4], 'submit'):
                continue
            if p.kind == 'raise' and not any(e.kind in ('call', 'assume', 'iter') for e in p.events[sub[-1][0] + 1:]):
                continue                            # failed while still handing out the jobs
            opened = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name in ('set', 'release', 'abort', 'notify_all')
                      and i > sub[-1][0]]
            if not opened:
                ctx.bad(r, name, 'leaves the workers of the pool blocked when it %s' % (
                    'returns' if p.kind == 'ret' else 'raises %s' % show(p.val)), f.where, last_line(p), p)
                break
            jobs = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.recv is None and e.name == 'wait' and i > sub[-1][0]]
            if jobs and jobs[0] < opened[0]:
                ctx.bad(r, name, 'waits for the parked jobs before letting them go', f.where, last_line(p), p)
                break
            if p.kind == 'ret':
                w = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name in ('wait_until_equal', 'wait') and e.recv]
                if not w:
                    ctx.bad(r, name, 'returns without waiting for the workers', f.where, last_line(p), p)
                    break
                if w[0] > opened[0]:
                    ctx.bad(r, name, 'lets the workers go before all of them arrived', f.where, last_line(p), p)
                    break
        else:
            ctx.ok(r, name)
    name = 'sync_threadpool (job)'
    with ctx.item(r, name):
        f = ctx.p.func(CC + 'sync_threadpool')
        from ..engine import Interp
        inner = [n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node]
        if len(inner) != 1:
            raise Undecided('no single job function')
        aug = [n for n in ast.walk(inner[0]) if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Sub)]
        waits = [n for n in ast.walk(inner[0]) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'wait']
        if not aug or not waits:
            raise Undecided('job of another shape')
        ctx.check(aug[0].lineno < waits[0].lineno and isinstance(aug[0].value, ast.Constant) and aug[0].value.value == 1,
                  r, name, 'the job parks before it reports, or does not report once', f.where, inner[0].lineno)


def backoff_wakes(ctx):
    r = ctx.rule('backoff-wake', 'ExponentialBackoff.success makes the service available before it wakes the waiters')
    name = 'ExponentialBackoff.success'
    with ctx.item(r, name):
        c = ctx.p.cls('satella.time.ExponentialBackoff')
        conds = condition_fields(ctx, c)
        f = c.find_repo('success')
        for p in ret(ctx.paths(f, cls=c)):
            n = [i for i, e in enumerate(p.events) if e.kind == 'notify' and e.d.get('name') == 'notify_all']
            st = [i for i, e in enumerate(p.events) if e.kind == 'store' and e.value == NONE]
            if not n:
                ctx.bad(r, name, 'does not wake the waiters', f.where, last_line(p), p)
                break
            if not st or st[-1] > n[-1]:
                ctx.bad(r, name, 'wakes the waiters before the service is marked available', f.where, last_line(p), p)
                break
        else:
            ctx.ok(r, name)


# ------------------------------------------------------------------ C05
TIMED = [
    # class, method, parameter, documented outcome of expiry, full timeout per member
    (CC + 'PeekableQueue', 'get', 'timeout', ('Empty',), False),
    (CC + 'PeekableQueue', 'peek', 'timeout', ('Empty',), False),
    (CC + 'AtomicNumber', 'wait', 'timeout', ('WouldWaitMore',), False),
    (CC + 'AtomicNumber', 'wait_until_equal', 'timeout', ('WouldWaitMore',), False),
    (CC + 'DeferredValue', 'value', 'timeout', ('WouldWaitMore',), False),
    (CC + 'DeferredValue', 'result', 'timeout', ('WouldWaitMore',), False),
    (CC + 'Condition', 'wait', 'timeout', ('WouldWaitMore', 'ResourceLocked'), False),
    (CC + 'BogusTerminableThread', 'join', 'timeout', ('WouldWaitMore',), False),
    (CC + 'ThreadCollection', 'join', 'timeout', ('WouldWaitMore',), True),
    (CC + 'FutureCollection', 'result', 'timeout', ('WouldWaitMore',), True),
    (CC + 'FutureCollection', 'exception', 'timeout', ('WouldWaitMore',), True),
    (CC + 'TerminableThread', 'safe_wait_condition', 'timeout', ('WouldWaitMore', 'SystemExit'), False),
    ('satella.time.ExponentialBackoff', 'wait_until_available', 'timeout', ('WouldWaitMore',), False),
    ('satella.coding.structures.ExclusiveWritebackCache', 'sync', 'timeout', ('WouldWaitMore',), False),
    (None, CC + 'sync_threadpool', 'max_wait', ('WouldWaitMore',), False),
]
TIMEARG = {'wait': 0, 'wait_for': 1, 'join': 0, 'result': 0, 'exception': 0, 'sleep': 0, 'wait_until_equal': 1, 'sync_threadpool': 1,
           'get': 1, 'safe_sleep': 0}
EXPIRY = ('WouldWaitMore', 'Empty', 'TimeoutError', 'ResourceLocked')


def blocking(e):
    """(is blocking, time argument or None) of an event"""
    if e.kind == 'wait':
        a = e.args[0] if e.args else dict(e.kw).get('timeout')
        return True, a
    if e.kind == 'call' and e.name in TIMEARG:
        if e.name == 'get' and not (e.recv is not None and (len(e.args) > 1 or 'timeout' in dict(e.kw))):
            return False, None
        if e.name == 'wait' and e.recv is None:         # concurrent.futures.wait(futures) on jobs already let go
            return False, None
        if e.name in ('result', 'exception') and e.recv is None:
            return False, None
        if e.name == 'join' and (e.recv is None or e.recv[0] == 'c'):
            return False, None
        if e.d.get('inlined'):
            return False, None
        k = dict(e.kw)
        n = TIMEARG[e.name]
        a = k.get('timeout', k.get('max_wait', e.args[n] if len(e.args) > n else None))
        return True, a
    return False, None


def deadline_terms(path, par):
    """terms that know the deadline: the timeout parameter and every measure built from it"""
    out = {par}
    for e in path.events:
        if e.kind == 'call' and e.name == 'measure' and any(contains(v, par) for v in list(e.args) + [v for _, v in e.kw]):
            out.add(e.result)
        # a clamped timeout: measure(timeout=0) on the branch where the given timeout was negative
        if e.kind == 'call' and e.name == 'measure' and any(is_c(v) and v[2] == 0 and n == 'timeout' for n, v in e.kw):
            out.add(e.result)
    return out


def knows_deadline(t, dl):
    return any(contains(t, d) for d in dl)


def bounded_waits(ctx):
    r = ctx.rule('bounded-wait', 'when a timeout is given every blocking step is limited by what is left of it, or sits in a '
                                 'loop that tests the deadline each round')
    r2 = ctx.rule('expiry', 'expiry is reported by the documented exception, and only when a timeout was given')
    for cn, mn, pn, excs, per in TIMED:
        name = (cn + '.' + mn) if cn else mn
        with ctx.item(r, name):
            if cn:
                c = ctx.p.cls(cn)
                f = c.find_repo(mn)
                if f is None:
                    raise AnchorMissing(name)
                ps = ctx.paths(f, cls=c)
            else:
                f = ctx.p.func(mn)
                ps = ctx.paths(f)
            par = P(pn)
            if not any(a.arg == pn for a in f.node.args.args + f.node.args.kwonlyargs):
                raise AnchorMissing('parameter %s of %s' % (pn, name))
            tn = ('cmp', 'Is', par, NONE)
            bad = None
            bad2 = None
            nb = 0
            reported = False
            for p in ps:
                isnone = fact(p, tn)
                dl = deadline_terms(p, par)
                last = -1
                if isnone is not True:
                    for i, e in enumerate(p.events):
                        b, a = blocking(e)
                        if not b:
                            continue
                        nb += 1
                        if a is None or a == NONE:
                            bad = bad or (p, e, 'blocks without a time limit although a timeout was given')
                        elif is_c(a):
                            tested = [x for x in p.events[last + 1:i] if (x.kind == 'assume' and knows_deadline(x.cond, dl)) or (
                                x.kind == 'call' and x.name == 'assert_not_timeouted')]
                            if not tested:
                                bad = bad or (p, e, 'waits again without testing whether the time is up')
                        elif not knows_deadline(a, dl):
                            tested = [x for x in p.events[last + 1:i] if x.kind == 'assume' and knows_deadline(x.cond, dl)]
                            if not tested:
                                bad = bad or (p, e, 'the time limit %s has nothing to do with the timeout given' % show(a)[:80])
                        elif strip_parse(a) == par and last >= 0 and not per:
                            bad = bad or (p, e, 'waits the whole timeout again after having waited already')
                        elif a[0] == 'call' and a[1] == ('g', 'builtins.max') and any(
                                not is_c(x) and not knows_deadline(x, dl) for x in a[2]):
                            bad = bad or (p, e, 'the time limit %s can exceed the time left' % show(a)[:80])
                        last = i
                if p.kind == 'raise' and p.val[0] == 'exc' and p.val[2] and not is_opaque_exc(p):
                    n = {short(x) for x in p.val[2]}
                    if n & set(EXPIRY):
                        if n <= set(excs):
                            reported = True
                        else:
                            bad2 = bad2 or (p, 'expiry is reported as %s instead of %s' % (', '.join(sorted(n)), '/'.join(excs)))
                        if isnone is True and not any(x.kind == 'assume' and x.truth and x.cond[0] == 'truthy' and
                                                      x.cond[1][0] == 'a' and x.cond[1][2] == 'timeouted' for x in p.events):
                            # (a measure without a timeout is never timeouted: R06)
                            bad2 = bad2 or (p, 'reports expiry although no timeout was given')
            if not nb:
                raise Undecided('no blocking step found')
            if bad:
                ctx.bad(r, name, bad[2], f.where, bad[1].line, bad[0])
            else:
                ctx.ok(r, name)
            if not reported and not bad2 and mn not in ('sync', 'wait') and not any(
                    e.kind == 'call' and e.name in ('assert_not_timeouted',) for p in ps for e in p.events):
                bad2 = (None, 'never reports expiry as %s' % '/'.join(excs))
            if bad2:
                ctx.bad(r2, name, bad2[1], f.where, last_line(bad2[0]) if bad2[0] else f.node.lineno, bad2[0])
            else:
                ctx.ok(r2, name)


def strip_parse(t):
    while t[0] == 'call' and t[1][0] in ('fn', 'g') and t[1][1].endswith('parse_time_string') and t[2]:
        t = t[2][0]
    return t


def member_timeouts(ctx):
    r = ctx.rule('member-timeout', 'collections wait for each member with the timeout given and do not report success while a '
                                   'member is unfinished')
    name = 'ThreadCollection.join'
    with ctx.item(r, name):
        for p in ctx.mpaths(CC + 'ThreadCollection', 'join'):
            js = [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'join']
            for k, (i, e) in enumerate(js):
                nxt = js[k + 1][0] if k + 1 < len(js) else len(p.events)
                al = [x for x in p.events[i:nxt] if x.kind == 'assume' and mentions_attr(x.cond, 'is_alive')]
                if (k + 1 < len(js) or p.kind == 'ret') and not any(x.truth is False for x in al):
                    ctx.bad(r, name, 'goes on although the joined thread may still be running', name, e.line, p)
                    break
            else:
                continue
            break
        else:
            ctx.ok(r, name)
    for n in ('result', 'exception'):
        name = 'FutureCollection.' + n
        with ctx.item(r, name):
            for p in ctx.mpaths(CC + 'FutureCollection', n):
                bad = [e for e in p.events if e.kind == 'call' and e.recv is not None and e.name == n and
                       (e.args[0] if e.args else dict(e.kw).get('timeout')) != P('timeout')]
                if bad:
                    ctx.bad(r, name, 'asks a member with another timeout', name, bad[0].line, p)
                    break
                c = [e for e in p.events if e.kind == 'catch']
                if p.kind == 'ret' and c:
                    ctx.bad(r, name, 'returns normally after a member timed out or failed', name, c[0].line, p)
                    break
                if is_exc(p, 'WouldWaitMore') and not any(short(t[1]) == 'TimeoutError' for e in c for t in e.types if t[0] in ('g', 'cls')):
                    ctx.bad(r, name, 'reports expiry for something else than a timeout', name, last_line(p), p)
                    break
            else:
                ctx.ok(r, name)
    for n in ('result', 'exception'):
        name = 'Future.' + n
        with ctx.item(r, name):
            for p in ctx.mpaths(CC + 'Future', n):
                su = [e for e in p.events if e.kind == 'call' and e.d['fn'][0] == 'super' and e.name == n]
                for e in su:
                    if (e.args[0] if e.args else dict(e.kw).get('timeout')) != P('timeout'):
                        ctx.bad(r, name, 'does not pass the timeout on', name, e.line, p)
                        break
                else:
                    continue
                break
            else:
                ctx.ok(r, name)
    name = 'Subqueue.get'
    with ctx.item(r, name):
        for p in ctx.mpaths('satella.coding.structures.Subqueue', 'get'):
            for e in evs(p, 'call', name='get'):
                k = dict(e.kw)
                blk = k.get('block', e.args[0] if e.args else None)
                tmo = k.get('timeout', e.args[1] if len(e.args) > 1 else None)
                if blk != P('block') or tmo != P('timeout'):
                    ctx.bad(r, name, 'does not pass block/timeout on to the queue', name, e.line, p)
                    break
            else:
                continue
            break
        else:
            ctx.ok(r, name)


def bogus_join(ctx):
    r = ctx.rule('bogus-thread', 'BogusTerminableThread follows the life cycle of a thread')
    c = ctx.p.cls(CC + 'BogusTerminableThread')
    T, ST = ('truthy', fa(S, 'terminated')), ('truthy', fa(S, 'started'))
    name = 'BogusTerminableThread.join'
    with ctx.item(r, name):
        f = c.find_repo('join')
        for p in ctx.paths(f, cls=c):
            last = [e for e in p.events if e.kind == 'assume' and e.cond == T]
            if p.kind == 'ret' and not (last and last[-1].truth):
                ctx.bad(r, name, 'returns although the thread was not terminated', f.where, last_line(p), p)
                break
            if is_exc(p, 'WouldWaitMore') and not (last and last[-1].truth is False):
                ctx.bad(r, name, 'reports expiry without looking at the thread again', f.where, last_line(p), p)
                break
            if is_exc(p, 'RuntimeError') and not (fact(p, T) is False and fact(p, ST) is False):
                ctx.bad(r, name, 'refuses a thread that was started or terminated', f.where, last_line(p), p)
                break
        else:
            ctx.ok(r, name)
    name = 'BogusTerminableThread.start'
    with ctx.item(r, name):
        f = c.find_repo('start')
        for p in ctx.paths(f, cls=c):
            st = [e for e in p.events if e.kind == 'store' and e.attr == 'started']
            if p.kind == 'ret' and (fact(p, T) is not False or fact(p, ST) is not False or not st or st[-1].value != TRUE):
                ctx.bad(r, name, 'starts a thread that already ran, or does not mark it started', f.where, last_line(p), p)
                break
            if is_exc(p, 'RuntimeError') and st:
                ctx.bad(r, name, 'marks the thread started although it refuses', f.where, last_line(p), p)
                break
        else:
            ctx.ok(r, name)
    name = 'BogusTerminableThread.terminate'
    with ctx.item(r, name):
        f = c.find_repo('terminate')
        ctx.check(all(any(e.kind == 'store' and e.attr == 'terminated' and e.value == TRUE for e in p.events)
                      for p in ret(ctx.paths(f, cls=c))), r, name, 'does not mark the thread terminated', f.where, f.node.lineno)
    name = 'BogusTerminableThread.is_alive'
    with ctx.item(r, name):
        f = c.find_repo('is_alive')
        for p in ret(ctx.paths(f, cls=c)):
            v = value_truth(p, p.val)
            t, s = fact(p, T), fact(p, ST)
            exp = None
            if t is True or s is False:
                exp = False
            elif t is False and s is True:
                exp = True
            if p.val[0] == 'and' or v is None or exp is None:
                both = contains(p.val, fa(S, 'terminated')) and contains(p.val, fa(S, 'started'))
                if exp is None and (both or contains(p.val, fa(S, 'started')) or contains(p.val, fa(S, 'terminated'))):
                    continue
                if exp is None:
                    ctx.bad(r, name, 'does not depend on both started and terminated', f.where, last_line(p), p)
                    break
            if v is not None and exp is not None and v != exp:
                ctx.bad(r, name, 'is %s for a thread that is %s' % (v, 'alive' if exp else 'not alive'), f.where, last_line(p), p)
                break
        else:
            ctx.ok(r, name)


def value_truth(p, v):
    """truth of a returned value under the facts of the path"""
    if v[0] == 'c':
        return bool(v[2])
    if v[0] == 'not':
        x = value_truth(p, v[1])
        return None if x is None else not x
    return truth_of(p, v)


# ------------------------------------------------------------------ C06
HOOKS = {'prepare', 'loop', 'cleanup', 'terminate', 'on_overrun', 'safe_sleep'}
RUNNERS = [CC + 'TerminableThread', CC + 'IntervalTerminableThread',
           'satella.instrumentation.cpu_time.CPUTimeAwareIntervalTerminableThread']


def keep_hooks(f, recv):
    return False if f.name in HOOKS else None


def flag_field(ctx, c):
    """field set by terminate()"""
    f = c.find_repo('terminate')
    if f is None:
        raise AnchorMissing(c.fq + '.terminate')
    fl = {e.attr for p in ctx.paths(f, cls=c) for e in p.events if e.kind == 'store' and e.base == SELF and e.value == TRUE}
    if len(fl) != 1:
        raise Undecided('no single termination flag')
    return fl.pop()


def hook_calls(p):
    return [(i, e) for i, e in enumerate(p.events) if e.kind == 'call' and e.recv == SELF and e.name in HOOKS]


def origin(exc):
    """name of the call an exception came from"""
    if exc[0] == 'exc' and isinstance(exc[4], tuple) and exc[4] and exc[4][0] == 'call' and isinstance(exc[4][1], tuple) and \
            exc[4][1][0] == 'a':
        return exc[4][1][2]
    return None


def run_protocol(ctx):
    r = ctx.rule('thread-run', 'run() prepares once, loops until termination is requested, ends on terminate_on exceptions, lets '
                               'others through and always cleans up last')
    for cn in RUNNERS:
        name = cn + '.run'
        with ctx.item(r, name):
            c = ctx.p.cls(cn)
            f = c.find_repo('run')
            if f is None:
                raise AnchorMissing(name)
            flag = ('truthy', fa(S, flag_field(ctx, c)))
            ps = ctx.paths(f, cls=c, inline=keep_hooks, max_iter=1 if ctx.tier == 'quick' else 2)
            v = None
            for p in ps:
                v = run_path(ctx, p, flag)
                if v:
                    ctx.bad(r, name, v[0], f.where, v[1], p)
                    break
            if not v:
                ctx.ok(r, name)


def run_path(ctx, p, flag):
    h = hook_calls(p)
    names = [e.name for _, e in h]
    if p.kind == 'raise' and origin(p.val) in ('terminate',):
        return None
    if names.count('prepare') != 1 or names[0] != 'prepare':
        return 'prepare() is not called exactly once before everything else', p.events[h[0][0]].line if h else 0
    if p.kind in ('ret', 'raise'):
        if names.count('cleanup') != 1 or names[-1] != 'cleanup':
            return 'cleanup() is not called exactly once at the end when run() %s' % (
                'returns' if p.kind == 'ret' else 'raises'), last_line(p)
    if origin(p.val) == 'cleanup' if p.kind == 'raise' else False:
        return None
    prev = 0
    for i, e in h:
        if e.name == 'loop':
            chk = [x for x in p.events[prev:i] if x.kind == 'assume' and x.cond == flag]
            if not chk or chk[-1].truth:
                return 'loop() is called without checking for termination since the previous call', e.line
        prev = i + 1
    # exceptions out of prepare/loop
    for i, e in enumerate(p.events):
        if e.kind != 'raise' or origin(e.exc) not in ('prepare', 'loop'):
            continue
        rest = p.events[i + 1:]
        isin = [x for x in rest if x.kind == 'assume' and x.cond[0] == 'truthy' and x.cond[1][0] == 'call' and
                x.cond[1][1] == ('g', 'builtins.isinstance') and any(mentions_attr(a, '_terminate_on') for a in x.cond[1][2])]
        cat = [x for x in rest if x.kind == 'catch']
        byt = [x for x in cat if any(mentions_attr(t, '_terminate_on') for t in x.types)]
        sysex = [x for x in cat if all(t[0] in ('g', 'cls') and short(t[1]) == 'SystemExit' for t in x.types)]
        term = (isin and isin[-1].truth) or bool(byt)
        stop = any(x.kind == 'call' and x.name == 'terminate' or x.kind == 'store' and ('truthy', ('a', x.base, x.attr)) == flag
                   for x in rest)
        again = any(x.kind == 'call' and x.recv == SELF and x.name == 'loop' for x in rest)
        if again:
            return '%s() raised and the thread goes on looping' % origin(e.exc), e.line
        if p.kind == 'ret':
            if term and not stop:
                return 'ends on a terminate_on exception without marking the thread terminated', e.line
            if not term and not sysex:
                return 'an exception of %s() that is not in terminate_on is swallowed' % origin(e.exc), e.line
        if p.kind == 'raise' and term and origin(p.val) in ('prepare', 'loop'):
            return 'a terminate_on exception is not swallowed', e.line
        break
    else:
        if p.kind == 'ret':
            chk = [x for x in p.events if x.kind == 'assume' and x.cond == flag]
            esc = [x for x in p.events if x.kind == 'catch']
            if not esc and (not chk or chk[-1].truth is not True):
                return 'run() ends although termination was not requested', last_line(p)
    return None


def interval_protocol(ctx):
    r = ctx.rule('interval', 'after each loop() the interval thread sleeps for what is left of the interval, or reports the overrun '
                             'with the time taken, never both')
    for cn in RUNNERS[1:]:
        name = cn + '.run'
        with ctx.item(r, name):
            c = ctx.p.cls(cn)
            f = c.find_repo('run')
            ps = ctx.paths(f, cls=c, inline=keep_hooks, max_iter=1 if ctx.tier == 'quick' else 2)
            sec = fa(S, 'seconds')
            seen = set()
            bad = None
            for p in ps:
                h = hook_calls(p)
                for k, (i, e) in enumerate(h):
                    if e.name != 'loop':
                        continue
                    nxt = next((j for j, x in h[k + 1:] if x.name in ('loop', 'cleanup')), len(p.events))
                    seg = p.events[i + 1:nxt]
                    if any(x.kind == 'raise' for x in seg):
                        continue
                    over = [x for x in seg if x.kind == 'call' and x.name == 'on_overrun']
                    slp = [x for x in seg if x.kind == 'call' and x.name in ('safe_sleep', 'sleep', 'sleep_cpu_aware')]
                    cmp = [x for x in seg if x.kind == 'assume' and x.cond[0] == 'lt0' and dict(x.cond[1]).get(sec)]
                    if over and slp and cn == RUNNERS[1]:
                        bad = bad or (p, over[0], 'sleeps and reports an overrun in the same round')
                    if over:
                        seen.add('over')
                        a = over[0].args[0] if over[0].args else dict(over[0].kw).get('time_taken')
                        d = [x for x in cmp if dict(x.cond[1]).get(a)]
                        if a is None or contains(a, sec):
                            bad = bad or (p, over[0], 'on_overrun is not given the time loop() took')
                        elif d and not elapsed_exceeds(d, sec, a):
                            bad = bad or (p, over[0], 'reports an overrun although the interval was not exceeded')
                        elif not cmp:
                            bad = bad or (p, over[0], 'reports an overrun without comparing with the interval')
                    if slp:
                        seen.add('sleep')
                        if cn == RUNNERS[1]:
                            a = slp[0].args[0] if slp[0].args else None
                            l, cst = lin(a) if a else ({}, 0)
                            if l.get(sec) != 1 or len(l) != 2 or cst != 0 or sorted(l.values()) != [-1, 1]:
                                bad = bad or (p, slp[0], 'sleeps %s instead of the interval minus the time taken' % show(a)[:80])
            if bad:
                ctx.bad(r, name, bad[2], f.where, bad[1].line, bad[0])
            elif 'over' not in seen:
                ctx.bad(r, name, 'on_overrun is never called', f.where, f.node.lineno)
            else:
                ctx.ok(r, name)


def elapsed_exceeds(assumes, sec, taken):
    """the path assumed taken > seconds"""
    for x in assumes:
        l = dict(x.cond[1])
        if l.get(sec, 0) == 1 and l.get(taken, 0) == -1:
            if x.truth:
                return True            # seconds - taken < 0
        if l.get(sec, 0) == -1 and l.get(taken, 0) == 1:
            if not x.truth:
                return True            # not (taken - seconds < 0)
    return False


def safe_sleeping(ctx):
    r = ctx.rule('safe-sleep', 'safe_sleep/safe_wait_condition look at the termination request before every nap, nap at most the '
                               'remaining time and end with SystemExit exactly when termination is requested')
    c = ctx.p.cls(CC + 'TerminableThread')
    flag = ('truthy', fa(S, flag_field(ctx, c)))
    for n, nap, total in (('safe_sleep', 'sleep', 'interval'), ('safe_wait_condition', 'wait', 'timeout')):
        name = 'TerminableThread.' + n
        with ctx.item(r, name):
            f = c.find_repo(n)
            if f is None:
                raise AnchorMissing(name)
            bad = None
            k = 0
            for p in ctx.paths(f, cls=c):
                naps = [(i, e) for i, e in enumerate(p.events) if (e.kind == 'call' and e.name == nap) or (e.kind == 'wait' and nap == 'wait')]
                prev = 0
                done = None
                for i, e in naps:
                    k += 1
                    chk = [x for x in p.events[prev:i] if x.kind == 'assume' and x.cond == flag]
                    if not chk or chk[-1].truth:
                        bad = bad or (p, e.line, 'naps without looking at the termination request')
                    a = e.args[0] if e.args else dict(e.kw).get('timeout')
                    if a is None:
                        bad = bad or (p, e.line, 'naps without a limit')
                        continue
                    if a[0] == 'call' and a[1] == ('g', 'builtins.min'):
                        opts = a[2]
                    else:
                        opts = (a,)
                    pt = lambda x: subst_parse(x)
                    rest = ('op', 'Sub', P(total), done) if done is not None else P(total)
                    wue = P('wake_up_each')
                    good = {'rest': False, 'wake': False}
                    for o in opts:
                        if eqv(pt(o), pt(rest)):
                            good['rest'] = True
                        elif eqv(pt(o), wue):
                            good['wake'] = True
                    if len(opts) == 2 and not all(good.values()):
                        bad = bad or (p, e.line, 'naps for %s instead of the smaller of the remaining time and wake_up_each' % show(a)[:90])
                    elif len(opts) != 2:
                        if not any(good.values()):
                            raise Undecided('nap of another shape')
                        want = good['wake']             # the nap is wake_up_each: it must be known to be the smaller one
                        if not any(smaller(x, wue, want) for x in p.events[prev:i] if x.kind == 'assume'):
                            bad = bad or (p, e.line, 'naps for %s without it being the smaller of the remaining time and '
                                                     'wake_up_each' % show(a)[:60])
                    done = a if done is None else ('op', 'Add', done, a)
                    prev = i + 1
                end = [x for x in p.events if x.kind == 'assume' and x.cond == flag]
                if is_exc(p, 'SystemExit') and not is_opaque_exc(p):
                    if not end or end[-1].truth is not True:
                        bad = bad or (p, last_line(p), 'raises SystemExit although no termination was requested')
                elif p.kind == 'ret':
                    if end and end[-1].truth is True:
                        bad = bad or (p, last_line(p), 'returns normally although termination was requested')
                    if n == 'safe_sleep':
                        after = [x for x in p.events[prev:] if x.kind == 'assume' and x.cond == flag]
                        if not after:
                            bad = bad or (p, last_line(p), 'returns without looking at the termination request after the last nap')
                        tm = [x for x in p.events[prev:] if x.kind == 'assume' and x.cond[0] == 'lt0']
                        if not tm and not (done is not None and eqv(subst_parse(done), P(total))):
                            bad = bad or (p, last_line(p), 'returns before the interval is over')
                    else:
                        caught = [x for x in p.events[prev:] if x.kind == 'catch']
                        if (caught or not naps) and truth_of(p, P('dont_raise')) is not True:
                            bad = bad or (p, last_line(p), 'returns normally although the condition was not notified')
                elif is_exc(p, 'WouldWaitMore') and not is_opaque_exc(p):
                    if truth_of(p, P('dont_raise')) is True:
                        bad = bad or (p, last_line(p), 'raises WouldWaitMore although dont_raise was given')
            if not k:
                raise Undecided('no nap found')
            if bad:
                ctx.bad(r, name, bad[2], f.where, bad[1], bad[0])
            else:
                ctx.ok(r, name)


def smaller(x, t, want):
    """the assumption says that t is (not, unless want) the smaller side of the comparison it occurs in"""
    if x.cond[0] != 'lt0':
        return False
    c = dict((subst_parse(k), v) for k, v in x.cond[1]).get(t, 0)
    if c == 0:
        return False
    return ((c > 0) == x.truth) == want


def subst_parse(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call' and t[1][0] in ('fn', 'g') and t[1][1].endswith('parse_time_string') and t[2]:
        return subst_parse(t[2][0])
    if t[0] == 'c':
        return t
    return tuple(subst_parse(x) if isinstance(x, tuple) else x for x in t)


def life_cycle(ctx):
    r = ctx.rule('thread-life', 'starting, terminating and leaving the with-block of a thread do what they say')
    c = ctx.p.cls(CC + 'TerminableThread')
    with ctx.item(r, 'TerminableThread.terminate'):
        name = 'TerminableThread.terminate'
        f = c.find_repo('terminate')
        fl = flag_field(ctx, c)
        bad = None
        for p in ended(ctx.paths(f, cls=c)):
            st = [i for i, e in enumerate(p.events) if e.kind == 'store' and e.attr == fl and e.value == TRUE]
            inj = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'PyThreadState_SetAsyncExc']
            if not st:
                bad = bad or (p, 'does not request termination')
            if inj and truth_of(p, P('force')) is not True:
                bad = bad or (p, 'injects an exception although force was not asked for')
            if p.kind == 'ret' and truth_of(p, P('force')) is True and not inj:
                bad = bad or (p, 'does not interrupt the thread although force was asked for')
            if inj and st and inj[0] < st[0]:
                bad = bad or (p, 'interrupts the thread before termination is requested')
            if p.kind == 'ret' and p.val != SELF:
                bad = bad or (p, 'does not return the thread')
        if bad:
            ctx.bad(r, name, bad[1], f.where, last_line(bad[0]), bad[0])
        else:
            ctx.ok(r, name)
    with ctx.item(r, 'TerminableThread.terminating'):
        f = c.find_repo('terminating')
        fl = flag_field(ctx, c)
        ctx.check(all(p.val == fa(S, fl) or value_truth(p, p.val) is not None and value_truth(p, p.val) == truth_of(p, fa(S, fl)) for p in ret(ctx.paths(f, cls=c))),
                  r, 'TerminableThread.terminating', 'does not tell whether termination was requested', f.where, f.node.lineno)
    with ctx.item(r, 'TerminableThread.__enter__'):
        name = 'TerminableThread.__enter__'
        f = c.find_repo('__enter__')
        bad = None
        for p in ret(ctx.paths(f, cls=c)):
            if not any(e.kind == 'call' and e.name == 'start' for e in p.events):
                bad = p, 'does not start the thread'
            elif p.val != SELF and not (p.val[0] == 'call' and mentions_attr(p.val, 'start')):
                bad = p, 'does not give the thread'
        if bad:
            ctx.bad(r, name, bad[1], f.where, f.node.lineno, bad[0])
        else:
            ctx.ok(r, name)
    with ctx.item(r, 'TerminableThread.__exit__'):
        name = 'TerminableThread.__exit__'
        f = c.find_repo('__exit__')
        fl = flag_field(ctx, c)
        bad = None
        for p in ret(ctx.paths(f, cls=c)):
            t = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'terminate' or
                 e.kind == 'store' and e.attr == fl and e.value == TRUE]
            j = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'join']
            if not t or not j or t[0] > j[0]:
                bad = p, 'leaving the block does not terminate and then join the thread'
            elif value_truth(p, p.val) is not False:
                bad = p, 'leaving the block swallows its exception'
        if bad:
            ctx.bad(r, name, bad[1], f.where, f.node.lineno, bad[0])
        else:
            ctx.ok(r, name)
    with ctx.item(r, 'SingleStartThread.start'):
        name = 'SingleStartThread.start'
        c2 = ctx.p.cls(CC + 'SingleStartThread')
        f = c2.find_repo('start')
        bad = None
        n = 0
        for p in ctx.paths(f, cls=c2):
            su = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == 'start' and e.d['fn'][0] == 'super']
            as_ = [e for e in p.events if e.kind == 'assume' and e.cond[0] == 'truthy' and e.cond[1][0] == 'a' and e.cond[1][1] == SELF]
            if su:
                n += 1
                if not as_ or as_[0].truth:
                    bad = bad or (p, 'starts the thread again')
                else:
                    st = [i for i, e in enumerate(p.events) if e.kind == 'store' and e.attr == as_[0].cond[1][2] and e.value == TRUE]
                    if p.kind == 'ret' and not st:
                        bad = bad or (p, 'does not remember that the thread was started')
            elif p.kind == 'ret' and as_ and as_[0].truth is False:
                bad = bad or (p, 'does not start the thread')
            if p.kind == 'ret' and p.val != SELF:
                bad = bad or (p, 'does not return the thread')
        if bad:
            ctx.bad(r, name, bad[1], f.where, last_line(bad[0]), bad[0])
        elif n:
            ctx.ok(r, name)
        else:
            ctx.bad(r, name, 'never starts the thread', f.where, f.node.lineno)


def timers(ctx):
    r = ctx.rule('timer', 'a Timer fires its function once with its arguments, not when cancelled, not before its time, and one '
                          'failing timer does not stop the others')
    c = ctx.p.cls(CC + 'Timer')
    cf = None
    with ctx.item(r, 'Timer.cancel'):
        f = c.find_repo('cancel')
        ps = ret(ctx.paths(f, cls=c))
        st = [[e for e in p.events if e.kind == 'store' and e.base == SELF] for p in ps]
        if not ps or not all(x and x[-1].value == TRUE for x in st):
            ctx.bad(r, 'Timer.cancel', 'does not mark the timer cancelled', f.where, f.node.lineno)
        else:
            cf = st[0][-1].attr
            ctx.ok(r, 'Timer.cancel')
    run = None
    for n, f in c.methods.items():
        if n in ('start', 'cancel', '__init__'):
            continue
        if any(e.kind == 'call' and e.d['fn'] == fa(S, 'function') for p in ctx.paths(f, cls=c) for e in p.events):
            run = f
    with ctx.item(r, 'Timer execution'):
        name = 'Timer execution'
        if run is None or cf is None:
            raise Undecided('no executing method')
        bad = None
        for p in ctx.paths(run, cls=c):
            call = [e for e in p.events if e.kind == 'call' and e.d['fn'] == fa(S, 'function')]
            thr = [e for e in p.events if e.kind == 'call' and e.name == 'Thread']
            can = truth_of(p, fa(S, cf))
            sep = truth_of(p, fa(S, 'spawn_separate'))
            if (call or thr) and can is not False:
                bad = bad or (p, 'a cancelled timer is executed')
            if p.kind == 'ret' and can is False and len(call) + len(thr) != 1:
                bad = bad or (p, 'the function is called %d times' % (len(call) + len(thr)))
            if call and sep is True or thr and sep is False:
                bad = bad or (p, 'spawn_separate is not respected')
            for e in call:
                if e.args != (('star', fa(S, 'args')),) or dict((k, v) for k, v in e.kw).get(None) != fa(S, 'kwargs'):
                    bad = bad or (p, 'the function is not called with the arguments of the timer')
            for e in thr:
                k = dict(e.kw)
                if k.get('target') != fa(S, 'function') or k.get('args') != fa(S, 'args') or k.get('kwargs') != fa(S, 'kwargs'):
                    bad = bad or (p, 'the thread does not call the function with the arguments of the timer')
                if p.kind == 'ret' and not any(x.kind == 'call' and x.name == 'start' for x in p.events):
                    bad = bad or (p, 'the thread is not started')
        if bad:
            ctx.bad(r, name, bad[1], run.where, last_line(bad[0]), bad[0])
        else:
            ctx.ok(r, name)
    with ctx.item(r, 'Timer.start'):
        name = 'Timer.start'
        f = c.find_repo('start')
        bad = None
        for p in ret(ctx.paths(f, cls=c)):
            put = [e for e in p.events if e.kind == 'call' and e.name in ('put', 'push') and e.recv is not None]
            if len(put) != 1:
                bad = bad or (p, 'is not scheduled exactly once')
                continue
            a = put[0].args[0]
            if a[0] == 'tup':
                a = a[1][0]
            l, k = lin(a)
            mono = [t for t in l if t[0] == 'call' and t[1] == ('g', 'time.monotonic')]
            if k != 0 or l.get(fa(S, 'interval')) != 1 or len(mono) != 1 or l[mono[0]] != 1 or len(l) != 2:
                bad = bad or (p, 'is scheduled at %s, not interval seconds from now' % show(a)[:80])
        if bad:
            ctx.bad(r, name, bad[1], f.where, last_line(bad[0]), bad[0])
        else:
            ctx.ok(r, name)
    with ctx.item(r, 'timer thread'):
        name = 'timer thread'
        tb = [k for k in ctx.p.all_classes if k.module is c.module and k is not c and 'run' in k.methods]
        if len(tb) != 1 or run is None:
            raise Undecided('no single background thread')
        f = tb[0].methods['run']
        bad = None
        n = 0
        for p in ctx.paths(f, cls=tb[0], max_iter=1):
            opened = []
            for i, e in enumerate(p.events):
                if e.kind == 'enter':
                    opened.append(e.cm)
                elif e.kind == 'exit' and e.cm in opened:
                    opened.remove(e.cm)
                elif e.kind == 'call' and e.name == 'pop_less_than':
                    a = e.args[0] if e.args else None
                    if not (a and a[0] == 'call' and a[1] == ('g', 'time.monotonic')):
                        bad = bad or (p, e, 'does not take the timers that are due now')
                elif e.kind == 'raise' and isinstance(e.exc, tuple) and origin(e.exc) == run.name:
                    n += 1
                    isolated = any(swallows(ctx, cm, p) for cm in opened)
                    if not isolated and p.kind == 'raise' and origin(p.val) == run.name and 'Exception' not in [
                            short(z) for z in p.val[3]]:
                        bad = bad or (p, e, 'an exception of one timer ends the timer thread')
                    if self_locks(e):
                        bad = bad or (p, e, 'timers run while the lock of the timer thread is held')
        if bad:
            ctx.bad(r, name, bad[2], f.where, bad[1].line, bad[0])
        elif n:
            ctx.ok(r, name)
        else:
            raise Undecided('execution not found')


def swallows(ctx, cm, p):
    for e in p.events:
        if e.kind == 'call' and e.result == cm:
            if e.name == 'log_exceptions':
                return dict(e.kw).get('swallow_exception') == TRUE
            if e.name in ('silence_excs', 'suppress'):
                return any(a == ('g', 'builtins.Exception') for a in e.args)
    return False


PROPS = {
    'C04': {
        'title': 'No lost wake-ups',
        'statement': 'A thread blocked in PeekableQueue.get/peek, AtomicNumber.wait/wait_until_equal, DeferredValue.value/result, '
                     'Condition.wait or ExponentialBackoff.wait_until_available is woken by every put/put_many, every in-place change '
                     'of the number, set_value, notify/notify_all or success that concerns it, however the two calls interleave; '
                     'changes are made visible before the wake-up and conditions are tested again after it. '
                     'Timing out is reported (Empty, WouldWaitMore) only when the condition is still false, never without a timeout; '
                     'sync_threadpool returns only after every worker arrived and leaves no worker parked.',
        'over': (['schedules'], 'every interleaving of waiters and notifiers'),
        'why': 'A lost wake-up needs the change to land between the check and the sleep; no test schedules that.',
        'files': ['satella/coding/concurrent/queue.py', 'satella/coding/concurrent/atomic.py', 'satella/coding/concurrent/value.py',
                  'satella/coding/concurrent/thread.py', 'satella/coding/concurrent/sync.py', 'satella/time/backoff.py'],
        'mechanism': [('condition variable under the queue lock', 'satella/coding/concurrent/queue.py'),
                      ('notify_all in every mutator', 'satella/coding/concurrent/atomic.py'),
                      ('Event set after the value', 'satella/coding/concurrent/value.py'),
                      ('self-locking Condition', 'satella/coding/concurrent/thread.py')],
        'technique': ENGINE_TECH + ': check/wait/notify protocol',
        'explain': 'On every path the order of predicate tests, waits, changes of the tested state and notifications, and the '
                   'locks held at each, is checked against the monitor protocol.',
        'rules': [no_lost_wakeup, wakeups, queue_timeout, condition_api, atomic_wait, deferred, threadpool_sync, backoff_wakes],
    },
    'C05': {
        'title': 'Time limits are honoured',
        'statement': 'A call given a timeout (PeekableQueue.get/peek, AtomicNumber.wait/wait_until_equal, DeferredValue.value/result, '
                     'Condition.wait, BogusTerminableThread.join, TerminableThread.safe_wait_condition, ExponentialBackoff.wait_until_available, '
                     'ExclusiveWritebackCache.sync, sync_threadpool; per member for ThreadCollection.join and FutureCollection.result/exception) '
                     'never blocks longer than what is left of it (plus one polling interval), however often it is woken, and reports expiry by '
                     'its documented exception. Without a timeout it waits as long as necessary and never reports expiry; Subqueue.get and '
                     'Future.result/exception pass the limit on unchanged.',
        'over': (['schedules', 'inputs'], 'every timeout and every sequence of wake-ups'),
        'why': 'Overlong waits show only under repeated spurious or unrelated wake-ups that tests do not produce.',
        'files': ['satella/coding/concurrent', 'satella/time/backoff.py', 'satella/coding/structures/dictionaries/writeback_cache.py',
                  'satella/coding/structures/queues.py'],
        'mechanism': [('measure(timeout=...).time_remaining', 'satella/time/measure.py'),
                      ('deadline checks in the polling loops', 'satella/coding/concurrent/sync.py')],
        'technique': ENGINE_TECH + ': time-limit provenance of blocking calls',
        'explain': 'For every timed operation each blocking call on each path must take a limit derived from the remaining time or sit '
                   'behind a deadline test of the same round; expiry exceptions are tied to the presence of a timeout.',
        'rules': [bounded_waits, member_timeouts, bogus_join],
    },
    'C06': {
        'title': 'Thread life cycle',
        'statement': 'TerminableThread, IntervalTerminableThread and CPUTimeAwareIntervalTerminableThread call prepare() once, then loop() '
                     'until terminate() was called, checking before every round; an exception listed in terminate_on ends the thread quietly and '
                     'marks it terminated, any other propagates, and cleanup() always runs exactly once, last. Interval threads sleep for '
                     'the rest of the interval or call on_overrun(time_taken); safe_sleep/safe_wait_condition nap in slices, end with SystemExit '
                     'exactly when termination was requested, and leaving a with-block terminates and joins. '
                     'A SingleStartThread starts once; a Timer fires its function once with its arguments, not before its interval and '
                     'not after cancel(), and one failing timer does not stop the others.',
        'over': (['schedules', 'fault_sequences', 'histories'], 'every point at which termination or an exception can arrive'),
        'why': 'Termination and exceptions can arrive between any two steps; tests terminate threads at one convenient moment.',
        'files': ['satella/coding/concurrent/thread.py', 'satella/coding/concurrent/timer.py', 'satella/instrumentation/cpu_time/concurrency.py'],
        'mechanism': [('run() of the terminable threads', 'satella/coding/concurrent/thread.py'),
                      ('timer heap and background thread', 'satella/coding/concurrent/timer.py')],
        'technique': ENGINE_TECH + ': typestate of the thread life cycle',
        'explain': 'The order of prepare/loop/cleanup calls, termination checks and exception exits is checked on every path of run(); '
                   'naps, overruns and timer executions are checked against the values they must derive from.',
        'rules': [run_protocol, interval_protocol, safe_sleeping, life_cycle, timers],
    },
}
