"""C02: shared state of the thread-safe objects is touched only under their lock."""
from ..q import *
from ..project import Cls, Func
from ..engine import MUTATORS
from .conc_locks import is_private, last_line, ENGINE_TECH

K = 'satella.coding.'
THREADSAFE = [
    K + 'concurrent.AtomicNumber', K + 'concurrent.SequentialIssuer', K + 'concurrent.IDAllocator',
    K + 'concurrent.PeekableQueue', K + 'resources.CPManager', K + 'structures.SyncableDroppable',
    K + 'structures.SelfCleaningDefaultDict', K + 'structures.ExpiringEntryDict',
    K + 'structures.ExclusiveWritebackCache', K + 'structures.Subqueue', K + 'concurrent.MonitorSet',
]
HEAP_MUT = {'pop_less_than', 'pop_item', 'pop_timestamp', 'filter_map', 'pop', 'put', 'push', 'push_many', 'remove'}
THREADSAFE_TYPES = {'queue.Queue', 'threading.Event', 'queue.LifoQueue', 'queue.SimpleQueue', 'multiprocessing.Queue'}
FREE_FUN_MUT = {'heappush', 'heappop', 'heapify', 'heapreplace', 'heappushpop', 'insort', 'insort_left', 'insort_right'}


def root(t):
    """(object, field) the term reaches into, for terms rooted at self"""
    while t[0] in ('a', 'sub', 'elem', 'val', 'key') and isinstance(t[1], tuple):
        if t[0] == 'a' and t[1] == SELF:
            return t[2]
        t = t[1]
    return None


def self_locks(e):
    return [l for l, n in e.locks if n > 0 and (l == SELF or contains(l, SELF))]


def mutation(e, own):
    """field of self that the event changes, with the kind of the change"""
    if e.kind == 'store' and e.base == SELF:
        return e.attr, 'scalar'
    if e.kind in ('setitem', 'delitem'):
        if e.base == SELF:
            return ('<self>', 'container')
        f = root(e.base)
        return (f, 'container') if f in own else None
    if e.kind == 'iter':
        f = lazy_pop(e.iterable)
        return (f, 'container') if f in own else None
    if e.kind == 'call':
        if e.recv is not None and e.recv == SELF and e.name in MUTATORS and '<self>' in own:
            return '<self>', 'container'
        if e.recv is not None and e.recv[0] == 'a' and e.recv[1] == SELF and e.name in MUTATORS | HEAP_MUT:
            if e.name == 'pop_less_than':
                return None             # lazy: judged where it is consumed
            f = e.recv[2]
            if e.name in ('add', 'discard') and f in own:
                return f, 'idempotent'
            return (f, 'container') if f in own else None
        if e.recv is None and e.args and e.name in ('list', 'tuple', 'sorted', 'set', 'deque', 'next', 'for'):
            f = lazy_pop(e.args[0])
            if f in own:
                return f, 'container'
        if e.recv is None and e.name in FREE_FUN_MUT and e.args:
            f = root(e.args[0])
            return (f, 'container') if f in own else None
    return None


def lazy_pop(t):
    """field of self being popped by consuming the lazy iterator t"""
    if t and t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'pop_less_than' and t[1][1][0] == 'a' and t[1][1][1] == SELF:
        return t[1][1][2]
    return None


def reading(e):
    """field of self whose contents the event reads"""
    if e.kind in ('contains', 'getitem'):
        return '<self>' if e.base == SELF else root(e.base)
    if e.kind == 'iter':
        return root(e.iterable)
    if e.kind == 'assume':
        for t in walk(e.cond):
            if t and t[0] == 'truthy' and len(t) > 1 and isinstance(t[1], tuple):
                f = root(t[1])
                if f:
                    return f
    if e.kind == 'call' and e.recv is not None and e.recv != SELF:
        return root(e.recv)
    return None


def own_fields(ctx, c):
    """fields holding the object's own (unsynchronised) state"""
    out = set()
    for f, ts in c.field_types().items():
        ts = set(ts)
        if ts & THREADSAFE_TYPES:
            continue
        ok = False
        for t in ts:
            k = ctx.p.lookup(t)
            if isinstance(k, Cls) and any(isinstance(m, Cls) and m.name in ('Heap', 'LRU', 'SortedList') for m in k.mro()):
                ok = True
            if t.split('.')[-1] in ('dict', 'list', 'set', 'deque', 'defaultdict', 'OrderedDict'):
                ok = True
        if ok:
            out.add(f)
    if any(m in ('builtins.set', 'set', 'builtins.dict', 'builtins.list') for m in c.mro() if isinstance(m, str)):
        out.add('<self>')
    return out


def publishing(e):
    """a store of a constant: atomic and independent of the previous value"""
    return e.kind == 'store' and e.value[0] == 'c' and not (e.get('aug'))


def guarded_state(ctx, only=None):
    r1 = ctx.rule('guarded-write', 'a thread-safe object changes its state only while its own lock is held')
    r2 = ctx.rule('no-lost-update', 'what decides a change of the state is read within the same hold of the lock, and '
                                    'the value handed out is not re-read after the lock is gone')
    for name in THREADSAFE if only is None else only:
        with ctx.item(r1, name):
            c = ctx.p.cls(name)
            own = own_fields(ctx, c)
            seen = set()
            for k in c.mro():
                if not isinstance(k, Cls):
                    continue
                for m in k.methods.values():
                    if m.name in seen or m.name in ('__init__', '__new__', '__del__') or is_private(m.name) or m.kind() == 'property':
                        seen.add(m.name)
                        continue
                    seen.add(m.name)
                    if k.fq.startswith('satella.coding.concurrent.monitor.') and k is not c:
                        continue
                    judge(ctx, r1, r2, name.split('.')[-1] + '.' + m.name, m, c, own)


def judge(ctx, r1, r2, construct, m, c, own):
    with ctx.item(r1, construct):
        ps = ctx.paths(m, cls=c, budget=3000)
        bad1 = bad2 = None
        any_mut = False
        for p in ps:
            if p.kind == 'cut':
                continue
            sec = 0
            reads = {}      # field -> list of (section or None)
            mutated = {}
            for e in p.events:
                if e.kind == 'acquire' and e.ok and contains(e.lock, SELF):
                    sec += 1
                held = self_locks(e)
                here = sec if held else None
                mu = mutation(e, own)
                if mu is not None and mu[0] is not None and not publishing(e) and not lockish(mu[0]):
                    any_mut = True
                    f = mu[0]
                    if not held:
                        bad1 = bad1 or (p, e, f)
                    else:
                        rs = reads.get(f, [])
                        derived = mu[1] == 'container' or (mu[1] == 'idempotent' and f == '<self>') or contains(e.get('value') or (), ('a', SELF, f)) or e.get('aug')
                        if derived and any(s is None for s in rs) and here not in rs:
                            bad2 = bad2 or (p, e, f)
                    mutated[f] = here
                if e.kind == 'load' and e.base == SELF and e.attr not in own:
                    if e.attr in mutated and mutated[e.attr] is not None and here is None and not lockish(e.attr):
                        bad2 = bad2 or (p, e, e.attr)
                    reads.setdefault(e.attr, []).append(here)
                f = reading(e)
                if f in own:
                    reads.setdefault(f, []).append(here)
        if bad1:
            ctx.bad(r1, construct, 'changes %s without holding the lock' % bad1[2], m.where, bad1[1].line, bad1[0])
        elif any_mut:
            ctx.ok(r1, construct)
        if bad2:
            ctx.bad(r2, construct, 'uses a value of %s read outside of the hold of the lock that changes it' % bad2[2],
                    m.where, bad2[1].line, bad2[0])
        elif any_mut:
            ctx.ok(r2, construct)


def lockish(f):
    return 'lock' in f.lower() or 'condition' in f.lower() or '__finalized' in f


def one_setter(ctx):
    r = ctx.rule('one-setter', 'the test that decides whether a value may be set and the store are in one hold of the lock')
    name = 'DeferredValue.set_value'
    with ctx.item(r, name):
        c = ctx.p.cls(K + 'concurrent.DeferredValue')
        f = c.find_repo('set_value')
        par = P(f.node.args.args[1].arg)
        n = 0
        for p in ctx.paths(f, cls=c):
            holds, held = 0, 0
            tested = set()
            for e in p.events:
                if e.kind == 'acquire' and e.ok and contains(e.lock, SELF):
                    holds += 1
                elif e.kind == 'load' and e.base == SELF and self_locks(e):
                    tested.add((e.attr, holds))
                elif e.kind == 'store' and e.base == SELF and e.value == par:
                    n += 1
                    if not self_locks(e):
                        return ctx.bad(r, name, 'stores the value without holding the lock', f.where, e.line, p)
                    if (e.attr, holds) not in tested:
                        return ctx.bad(r, name, 'looks whether there is a value before taking the lock only, so that two setters can both '
                                                'succeed', f.where, e.line, p)
        if not n:
            raise Undecided('no store found')
        ctx.ok(r, name)


def timer_state(ctx):
    r1 = ctx.rule('guarded-write', 'a thread-safe object changes its state only while its own lock is held')
    with ctx.item(r1, 'Timer.start'):
        ps = ctx.mpaths(K + 'concurrent.Timer', 'start')
        n = 0
        for p in ps:
            for e in p.events:
                if e.kind == 'call' and e.name in ('put', 'push') and any(a == SELF or contains(a, SELF) for a in e.args):
                    n += 1
                    if not any(k > 0 for _, k in e.locks):
                        ctx.bad(r1, 'Timer.start', 'schedules the timer without holding the lock of the timer thread',
                                e.fn, e.line, p)
        if not n:
            raise Undecided('no scheduling found')
        ctx.ok(r1, 'Timer.start')
    with ctx.item(r1, 'timer thread'):
        t = thread_of(ctx)
        own = own_fields(ctx, t)
        n = 0
        for p in ctx.paths(t.find_repo('run'), cls=t):
            for e in p.events:
                mu = mutation(e, own)
                if mu is not None and mu[0] is not None:
                    n += 1
                    if not self_locks(e):
                        ctx.bad(r1, 'timer thread', 'pops the timers without holding the lock under which they are added',
                                e.fn, e.line, p)
        if not n:
            raise Undecided('no popping found')
        ctx.ok(r1, 'timer thread')


def thread_of(ctx):
    """the background thread class of Timer: the class Timer.start instantiates"""
    for p in ctx.mpaths(K + 'concurrent.Timer', 'start'):
        for e in evs(p, 'call'):
            if e.d['fn'][0] == 'cls':
                c = ctx.p.lookup(e.d['fn'][1])
                if isinstance(c, Cls) and c.find_repo('run') is not None:
                    return c
    raise Undecided('timer thread not found')


def locked_dataset(ctx):
    r = ctx.rule('dataset-flag', 'LockedDataset is marked as locked only while its lock is held: after a successful '
                                 'acquire on entry and before the release on exit')
    for meth in ('__enter__', '__exit__'):
        with ctx.item(r, 'LockedDataset.' + meth):
            n = 0
            for p in ret(ctx.mpaths(K + 'concurrent.LockedDataset', meth)):
                flags = [(i, e) for i, e in enumerate(p.events) if e.kind == 'store' and e.value in (TRUE, FALSE)]
                want = TRUE if meth == '__enter__' else FALSE
                lk = [(i, e) for i, e in enumerate(p.events) if e.kind in ('acquire', 'release')]
                if not flags or not lk:
                    raise Undecided('no flag or no lock')
                n += 1
                i, f = flags[-1]
                good = f.value == want
                if meth == '__enter__':
                    good = good and lk[-1][1].kind == 'acquire' and lk[-1][1].ok and lk[-1][0] < i
                else:
                    good = good and lk[-1][1].kind == 'release' and i < lk[-1][0]
                ctx.check(good, r, 'LockedDataset.' + meth, 'the locked flag changes while the lock is not held', f.fn, f.line, p)
            for p in ctx.mpaths(K + 'concurrent.LockedDataset', meth):
                if meth == '__enter__' and p.kind == 'ret':
                    ctx.check(not any(e.kind == 'acquire' and not e.ok for e in p.events), r, 'LockedDataset.failed-enter',
                              'entry succeeds although the lock was not acquired', path=p)
    r2 = ctx.rule('dataset-access', 'attributes of a LockedDataset are read and written only when it is locked')
    for meth in ('__getattribute__', '__setattr__'):
        with ctx.item(r2, 'LockedDataset.' + meth):
            n = 0
            for p in ret(ctx.mpaths(K + 'concurrent.LockedDataset', meth)):
                a = [e for e in p.events if e.kind == 'assume']
                locked = [e for e in a if e.cond[0] == 'truthy' and e.cond[1][0] == 'a' and e.truth and
                          any(x[0] == 'super' for x in walk(e.cond))]
                exempt = [e for e in a if e.truth and (any(x == C('_LockedDataset__internal') for x in walk(e.cond)) or
                                                       any(x == ('g', 'inspect.ismethod') for x in walk(e.cond)))]
                n += 1
                ctx.check(locked or exempt, r2, 'LockedDataset.' + meth,
                          'an attribute is accessed on a path which has not found the dataset locked', path=p)
            if not n:
                raise Undecided('no normal path')


PROPS = {
    'C02': {
        'title': 'Thread-safe objects change their state only under their own lock',
        'statement': 'AtomicNumber, SequentialIssuer, IDAllocator, PeekableQueue, Subqueue, MonitorSet.insert_and_check, '
                     'CPManager, SyncableDroppable, SelfCleaningDefaultDict, ExpiringEntryDict, ExclusiveWritebackCache and '
                     'Timer change their contents only while the object\'s own lock is held. What decides a change (the '
                     'previous value, an emptiness or membership test) is read under the same hold of the lock as the change, so concurrent '
                     'operations never lose an update and only one of several set_value calls on a DeferredValue succeeds. A LockedDataset lets its attributes be read or written only '
                     'while it is locked, and says it is locked only while its lock is really held.',
        'over': (['schedules', 'histories'], 'every interleaving of any number of threads calling any operations'),
        'why': 'A race shows only under one interleaving in millions; the existing tests are mostly single threaded.',
        'files': ['satella/coding/concurrent', 'satella/coding/resources/cp_manager.py', 'satella/coding/structures'],
        'mechanism': [('Monitor.synchronized, Monitor.acquire', 'satella/coding/concurrent/monitor.py'),
                      ('LockedDataset entry/exit', 'satella/coding/concurrent/locked_dataset.py'),
                      ('cache_lock', 'satella/coding/structures/dictionaries/writeback_cache.py')],
        'technique': ENGINE_TECH + ': lockset and check-then-act analysis',
        'explain': 'For each listed class every public method is abstracted to its paths; every store, item assignment or '
                   'mutating call on the object\'s own state must happen with a lock of that object in the held set, and a '
                   'change derived from a previous read must re-read within the same critical section.',
        'rules': [guarded_state, one_setter, timer_state, locked_dataset],
    },
}
