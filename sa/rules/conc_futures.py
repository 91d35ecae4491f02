"""C07 - C11: futures, collections of futures and threads, callable groups, identifier pools, queues."""
from ..q import *
from ..model import models
from ..project import Cls, Func
from .conc_locks import ENGINE_TECH
from .conc_wait import CC, last_line

TABLE = 'decision-table'
TABLE_TEXT = 'every path of the function agrees with each row of its decision table (conditions and failing operations -> ' \
             'result, exception, writes, calls made) that is compatible with it'

FUTURES = '''
#@ satella.coding.concurrent.Future free=__get_result
from concurrent.futures._base import CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED
def set_result(self, result):
    if self._state == PRE_FINISHED:
        self._result = result
        self._exception = None
    else:
        with self._condition:
            if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                raise InvalidStateError()
            self._result = result
            self._state = PRE_FINISHED
            for callback in self._pre_done_callbacks:
                try:
                    callback(self)
                except Exception:
                    pass
            self._state = FINISHED
            for waiter in self._waiters:
                waiter.add_result(self)
            self._condition.notify_all()
        self._invoke_callbacks()
def set_exception(self, exception):
    if self._state == PRE_FINISHED:
        self._exception = exception
        self._result = None
    else:
        with self._condition:
            if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                raise InvalidStateError()
            self._exception = exception
            self._state = PRE_FINISHED
            for callback in self._pre_done_callbacks:
                try:
                    callback(self)
                except Exception:
                    pass
            self._state = FINISHED
            for waiter in self._waiters:
                waiter.add_exception(self)
            self._condition.notify_all()
        self._invoke_callbacks()
def add_pre_done_callback(self, fn):
    with self._condition:
        if self._state not in [CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED]:
            self._pre_done_callbacks.append(fn)
            return
    try:
        fn(self)
    except Exception:
        pass
def result(self, timeout=None):
    if self._state == PRE_FINISHED:
        return self.__get_result()
    else:
        return super().result(timeout)
def exception(self, timeout=None):
    if self._state == PRE_FINISHED:
        return self._exception
    else:
        return super().exception(timeout)
#@ satella.coding.concurrent.Future via=add_done_callback
def on_success(self, fun):
    def inner(fut):
        if fut.cancelled() or fut._exception is not None:
            return
        return fun(fut._result)
    self.add_done_callback(inner)
    return self
def on_failure(self, fun):
    def inner(fut):
        if fut._exception is None:
            return
        return fun(fut._exception)
    self.add_done_callback(inner)
    return self
def chain(self, fun):
    def inner(future):
        if future._exception is not None:
            result = future._exception
        else:
            result = future._result
        fun(result)
    self.add_done_callback(inner)
    return self
#@ satella.coding.concurrent.WrappingFuture
from concurrent.futures._base import FINISHED
def _state(self):
    if self.source_future._state == FINISHED:
        return self._old_state
    else:
        return self.source_future._state
def set_running_or_notify_cancel(self):
    return self.source_future.set_running_or_notify_cancel()
def cancel(self):
    return self.source_future.cancel()
#@ satella.coding.concurrent.WrappingFuture via=add_done_callback
def __init__(self, source_future):
    def completed(future):
        if future.cancelled():
            with self._condition:
                self._condition.notify_all()
            self._invoke_callbacks()
        elif future._exception is not None:
            self.set_exception(future._exception)
        else:
            self.set_result(future._result)
    source_future.add_done_callback(completed)
#@ satella.coding.concurrent.futures
from satella.coding.concurrent.futures.futures import Future, WrappingFuture
def wrap_if(fut):
    if not isinstance(fut, Future):
        return WrappingFuture(fut)
    else:
        return fut
#@ satella.coding.concurrent.futures.ExecutorWrapper
from satella.coding.concurrent.futures.futures import wrap_if
def submit(self, fn, *args, **kwargs):
    return wrap_if(self.executor.submit(fn, *args, **kwargs))
def shutdown(self, wait=True):
    return self.executor.shutdown(wait=wait)
#@ satella.coding.concurrent.futures closures=1
from satella.coding.concurrent.futures.futures import wrap_if
def call_in_future(executor, function, *args, **kwargs):
    def inner(*my_args, **my_kwargs):
        return wrap_if(executor.submit(function, *args, **kwargs))
    return inner
'''

RUN_AS_FUTURE = '''
#@ satella.coding.concurrent closures=1 via=Thread
from concurrent.futures import Future
from threading import Thread
def run_as_future(fun):
    def inner(*args, **kwargs):
        fut = Future()
        fut.set_running_or_notify_cancel()
        def separate_target():
            try:
                fut.set_result(fun(*args, **kwargs))
            except BaseException as e:
                fut.set_exception(e)
        Thread(target=separate_target).start()
        return fut
    return inner
'''


def future_tables(ctx):
    r = ctx.rule(TABLE, TABLE_TEXT)
    models(ctx, r, FUTURES)
    models(ctx, r, RUN_AS_FUTURE)


COLLECTIONS = '''
#@ satella.coding.concurrent.FutureCollection
def add_done_callback(self, callback, only_one=False):
    if only_one:
        self.futures[0].add_done_callback(callback)
    else:
        for future in self.futures:
            future.add_done_callback(callback)
def set_running_or_notify_cancel(self):
    starting = False
    for future in self.futures:
        starting = future.set_running_or_notify_cancel() or starting
    return starting
def __add__(self, other):
    if isinstance(other, FutureCollection):
        return FutureCollection(self.futures + other.futures)
    elif isinstance(other, tp.Sequence):
        return FutureCollection(self.futures + list(other))
    else:
        fc = self.futures[:]
        fc.append(other)
        return FutureCollection(fc)
def __iadd__(self, other):
    if isinstance(other, FutureCollection):
        self.futures.extend(other.futures)
    elif isinstance(other, tp.Sequence):
        self.futures.extend(other)
    else:
        self.futures.append(other)
    return self
def add(self, future):
    self.futures.append(future)
    return self
def set_result(self, result):
    for future in self.futures:
        future.set_result(result)
def set_exception(self, exc):
    for future in self.futures:
        future.set_exception(exc)
def result(self, timeout=None):
    try:
        return [fut.result(timeout) for fut in self.futures]
    except concurrent.futures.TimeoutError:
        raise WouldWaitMore()
def exception(self, timeout=None):
    try:
        for fut in self.futures:
            e = fut.exception(timeout)
            if e is not None:
                return e
        return None
    except concurrent.futures.TimeoutError:
        raise WouldWaitMore()
def cancel(self):
    all_cancelled = True
    for future in self.futures:
        all_cancelled = future.cancel() and all_cancelled
    return all_cancelled
#@ satella.coding.concurrent.ThreadCollection
def from_class(cls, cls_to_use, iteratable, **kwargs):
    return ThreadCollection([cls_to_use(it, **kwargs) for it in iteratable])
def daemon(self):
    return any(thread.daemon for thread in self.threads)
def append(self, thread):
    self.threads.append(thread)
    return self
def add(self, thread):
    self.threads.append(thread)
    return self
def start(self):
    for thread in self.threads:
        thread.start()
    return self
def terminate(self, *args, **kwargs):
    for thread in self.threads:
        try:
            thread.terminate(*args, **kwargs)
        except AttributeError:
            pass
    return self
def join(self, timeout=None):
    for thread in self.threads:
        thread.join(timeout=timeout)
        if thread.is_alive():
            raise WouldWaitMore()
    return self
def is_alive(self):
    return any(thread.is_alive() for thread in self.threads)
def __iadd__(self, other):
    if isinstance(other, Thread):
        other = [other]
    elif isinstance(other, ThreadCollection):
        other = other.threads
    else:
        other = list(other)
    self.threads.extend(other)
    return self
def __add__(self, other):
    if isinstance(other, Thread):
        other = [other]
    elif isinstance(other, ThreadCollection):
        other = other.threads
    else:
        other = list(other)
    return ThreadCollection(self.threads + other)
#@ satella.coding.concurrent.ThreadCollection
@daemon.setter
def daemon(self, v):
    for thread in self.threads:
        thread.daemon = v
#@ satella.coding.concurrent defaults=0
def parallel_execute(callable_, args, kwargs=None):
    futures = [callable_(*arg, **kwarg) for arg, kwarg in zip(args, kwargs)]
    for future in futures:
        try:
            yield future.result()
        except Exception as e:
            yield e
'''


def completion_order(ctx):
    r = ctx.rule('completion-order', 'the outcome is stored before pre-done callbacks run, they run before the future counts as '
                                     'finished, waiters are told after that, and done callbacks run last, without the lock')
    c = ctx.p.cls(CC + 'Future')
    for meth, field in (('set_result', '_result'), ('set_exception', '_exception')):
        name = c.fq + '.' + meth
        with ctx.item(r, name):
            f = c.find_repo(meth)
            n = 0
            for p in ret(ctx.paths(f, cls=c)):
                ev = p.events
                fin = [i for i, e in enumerate(ev) if e.kind == 'store' and e.attr == '_state' and show(e.value).endswith('FINISHED')
                       and not show(e.value).strip("'").startswith('PRE')]
                if not fin:
                    continue
                n += 1
                out = [i for i, e in enumerate(ev) if e.kind == 'store' and e.attr == field]
                pre = [i for i, e in enumerate(ev) if e.kind == 'store' and e.attr == '_state' and i < fin[0]]
                cbs = [i for i, e in enumerate(ev) if e.kind == 'call' and e.d['fn'][0] == 'elem' and e.d['args'] == (SELF,)]
                told = [i for i, e in enumerate(ev) if (e.kind == 'call' and e.name in ('add_result', 'add_exception')) or
                        e.kind == 'notify']
                done = [i for i, e in enumerate(ev) if e.kind == 'call' and e.name == '_invoke_callbacks']
                msg = None
                if not out or out[0] > fin[0]:
                    msg = 'the future counts as finished before its outcome is stored'
                elif cbs and (cbs[0] < out[0] or not pre or pre[-1] > cbs[0]):
                    msg = 'a pre-done callback runs before the outcome is in place'
                elif cbs and cbs[-1] > fin[0]:
                    msg = 'a pre-done callback runs when the future already counts as finished'
                elif any(i < fin[0] for i in told):
                    msg = 'waiters are told before the future is finished'
                elif any(i < fin[0] for i in done):
                    msg = 'done callbacks run before the future is finished'
                elif any(ev[i].locks for i in done):
                    msg = 'done callbacks run while the lock of the future is held'
                if msg:
                    ctx.bad(r, name, msg, where=f.where, line=last_line(p), path=p)
                    break
            else:
                if not n:
                    raise Undecided('no path finishes the future')
                ctx.ok(r, name)


def separate_thread(ctx):
    r = ctx.rule('separate-thread', 'the thread of call_in_separate_thread runs the function once unless cancelled, and hands its '
                                    'result or any exception to the future')
    name = 'satella.coding.concurrent.call_in_separate_thread'
    with ctx.item(r, name):
        f = ctx.p.func(name)
        import ast
        nodes = [n for n in ast.walk(f.node) if isinstance(n, ast.ClassDef) and any(
            isinstance(m, ast.FunctionDef) and m.name == 'run' for m in n.body)]
        if len(nodes) != 1:
            raise Undecided('not built around a local thread class')
        c = Cls(nodes[0], f.module, f.qual + '.' + nodes[0].name)
        for m in nodes[0].body:
            if isinstance(m, ast.FunctionDef):
                c.methods[m.name] = Func(m, f.module, c, c.qual + '.' + m.name)
        src = '''
def run(self):
    if not self.future.set_running_or_notify_cancel():
        return
    if delay:
        time.sleep(delay)
    try:
        self.future.set_result(fun(*args, **kwargs))
    except BaseException as e:
        self.future.set_exception(e)
'''
        from ..model import SpecModule, check_model, DEFAULTS
        mod = SpecModule(f.module, src)
        opts = dict(DEFAULTS, free=('delay', 'fun', 'args', 'kwargs', 'time'))
        check_model(ctx, r, name, c.methods['run'], c, [(mod, mod.tree.body[0])], opts)


def collection_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), COLLECTIONS)


GROUPS = '''
#@ satella.coding.concurrent.CancellableCallback
def __bool__(self):
    return not self.cancelled
def __call__(self, *args, **kwargs):
    if not self.cancelled:
        return self.callback_fun(*args, **kwargs)
def cancel(self):
    self.cancelled = True
#@ satella.coding.concurrent.CallableGroup
def has_cancelled_callbacks(self):
    for clb in self.callables:
        if isinstance(clb, CancellableCallback) and clb.cancelled:
            return True
    return False
def has_cancelled_callbacks(self):
    for clb in self.callables:
        if isinstance(clb, CancellableCallback) and not clb:
            return True
    return False
def add(self, callable_, one_shot=False):
    if not isinstance(callable_, CancellableCallback):
        callable_ = CancellableCallback(callable_)
    if callable_ in self.callables:
        return callable_
    self.callables[callable_] = one_shot
    return callable_
def __call__(self, *args, **kwargs):
    if self.has_cancelled_callbacks:
        self.remove_cancelled()
    callables = copy.copy(self.callables)
    results = []
    for call, one_shot in callables.items():
        if one_shot:
            self.callables.pop(call, None)
        try:
            q = call(*args, **kwargs)
        except Exception as e:
            if not self.swallow_exceptions:
                raise
            q = e
        if self.gather:
            results.append(q)
    if self.gather:
        return results
def remove_cancelled(self):
    with DictDeleter(self.callables) as dd:
        for callable_ in dd:
            if isinstance(callable_, CancellableCallback) and not callable_:
                dd.delete()
#@ satella.coding.concurrent.CallNoOftenThan
import math
def __init__(self, interval, callable_):
    self.interval = interval
    self.callable = callable_
    self.last_called = ANY
def __call__(self, *args, **kwargs):
    if time.monotonic() - self.last_called >= self.interval:
        result = self.callable(*args, **kwargs)
        self.last_called = time.monotonic()
        return result
'''


def group_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), GROUPS)


IDS = '''
#@ satella.coding.concurrent.SequentialIssuer
def __init__(self, start=0):
    super().__init__()
    self.start = start
def issue(self):
    v = self.start
    self.start = v + 1
    return v
def no_less_than(self, no_less_than):
    if self.start > no_less_than:
        v = self.start
    else:
        v = no_less_than
    self.start = v + 1
    return v
#@ satella.coding.concurrent.IDAllocator
def mark_as_free(self, x):
    if x < self.start_at:
        raise ValueError()
    if x - self.start_at not in self.ints_allocated:
        raise ValueError()
    self.ints_allocated.remove(x - self.start_at)
    self.free_ints.add(x - self.start_at)
def allocate_int(self):
    if not self.free_ints:
        n = self.bound + 10
        if n > self.top_limit - self.start_at:
            n = max(self.top_limit - self.start_at, self.bound)
        how_many = 0
        for i in range(self.bound, n):
            self.free_ints.add(i)
            how_many += 1
        self.bound = n
        if how_many == 0:
            raise Empty()
    x = self.free_ints.pop()
    self.ints_allocated.add(x)
    return x + self.start_at
def mark_as_allocated(self, x):
    if x < self.start_at:
        raise ValueError()
    if x >= self.top_limit:
        raise ValueError()
    x -= self.start_at
    if x >= self.bound:
        n = x + 1
        if n > self.top_limit - self.start_at:
            n = max(self.top_limit - self.start_at, self.bound)
        for i in range(self.bound, n):
            self.free_ints.add(i)
        self.bound = n
    elif x in self.ints_allocated:
        raise AlreadyAllocated()
    self.free_ints.remove(x)
    self.ints_allocated.add(x)
def __init__(self, start_at=0, top_limit=None):
    super().__init__()
    self.start_at = start_at
    self.ints_allocated = set()
    self.free_ints = set()
    self.top_limit = math.inf if top_limit is None else top_limit
    self.bound = 0
'''


def id_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), IDS)


QUEUES = '''
#@ satella.coding.concurrent.PeekableQueue
def put(self, item):
    with self.lock:
        self.queue.append(item)
        self.inserted_condition.notify_all()
def put_many(self, items):
    with self.lock:
        for item in items:
            self.queue.append(item)
        self.inserted_condition.notify_all()
def get(self, timeout=None):
    with measure(timeout=timeout) as m, self.lock:
        while not self.queue:
            if timeout is None:
                self.inserted_condition.wait()
            elif m.timeouted:
                raise Empty()
            else:
                self.inserted_condition.wait(m.time_remaining)
        return self.queue.popleft()
def peek(self, timeout=None):
    with measure(timeout=timeout) as m, self.lock:
        while not self.queue:
            if timeout is None:
                self.inserted_condition.wait()
            elif m.timeouted:
                raise Empty()
            else:
                self.inserted_condition.wait(m.time_remaining)
        return self.queue[0]
def qsize(self):
    return len(self.queue)
#@ satella.coding.structures.Subqueue
def assert_queue(self, queue_name):
    if queue_name not in self.subqueues:
        with self.subqueue_lock:
            if queue_name not in self.subqueues:
                self.subqueues[queue_name] = queue.Queue()
def put(self, queue_name, obj):
    self.assert_queue(queue_name)
    self.subqueues[queue_name].put(obj)
def get(self, queue_name, block=True, timeout=None):
    self.assert_queue(queue_name)
    return self.subqueues[queue_name].get(block, timeout)
def qsize(self):
    with self.subqueue_lock:
        queues = list(self.subqueues.values())
    return sum(que.qsize() for que in queues)
def qsize(self):
    return sum(que.qsize() for que in self.subqueues.values())
def get_any(self):
    with self.subqueue_lock:
        queues = list(self.subqueues.items())
    for queue_name, q in queues:
        try:
            return queue_name, q.get(block=False)
        except queue.Empty:
            pass
    raise queue.Empty()
'''


def queue_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), QUEUES)


MODEL_TECH = ENGINE_TECH + ': path-by-path agreement with a decision table'
MODEL_EXPLAIN = 'Each function is abstracted into rows (conditions, failing operations -> result, exception, writes, calls), in a normal form ' \
                'that ignores spelling, helpers and statement order; every row must agree with all compatible rows of the decision ' \
                'table kept with the rule. Rows using operations outside of the table are reported as undecided, not as alarms.'

PROPS = {
    'C07': {
        'title': 'Futures deliver exactly one outcome, to everyone',
        'statement': 'Completing a satella Future stores the outcome, lets every pre-done callback see and replace it (a callback that fails does '
                     'not stop the others or the completion), and only then marks it finished, tells all waiters and runs done callbacks without '
                     'holding the lock; completing a finished or cancelled future raises InvalidStateError and changes nothing. '
                     'on_success runs only for an uncancelled success, on_failure only for an exception, chain for both; WrappingFuture mirrors '
                     'result, exception and cancellation of its source. run_as_future, call_in_separate_thread, call_in_future and ExecutorWrapper '
                     'pass on arguments unchanged and turn the result, or any exception, of the function into the outcome of the future they return.',
        'over': (['inputs', 'schedules', 'fault_sequences'], 'every outcome, callback behaviour and completion order'),
        'why': 'Which callback fails, whether it replaces the outcome and who completes first are combinations tests only sample.',
        'files': ['satella/coding/concurrent/futures', 'satella/coding/concurrent/functions.py', 'satella/coding/concurrent/thread.py'],
        'mechanism': [('PRE_FINISHED state and pre-done callbacks', 'satella/coding/concurrent/futures/futures.py'),
                      ('thread bodies that capture BaseException', 'satella/coding/concurrent/functions.py')],
        'technique': MODEL_TECH + ' and event ordering',
        'explain': MODEL_EXPLAIN,
        'rules': [future_tables, completion_order, separate_thread],
    },
    'C08': {
        'title': 'Collections act on every member',
        'statement': 'Every operation of FutureCollection and ThreadCollection (start, terminate, join, cancel, set_result, set_exception, '
                     'add_done_callback, set_running_or_notify_cancel, daemon, is_alive, result, exception) reaches every member, in order, '
                     'whatever the earlier members answered, and reports the documented aggregate: cancel is true if all cancelled, '
                     'set_running_or_notify_cancel, is_alive and daemon are true if any is, result is the list of all results, exception the first one found. '
                     '+ and += join collections, single members and iterables without losing or reordering members, and parallel_execute '
                     'starts all calls before it waits and yields their results or exceptions in order.',
        'over': (['inputs', 'histories'], 'every number of members and every combination of their answers'),
        'why': 'An aggregate that stops early is only wrong for particular mixes of member answers.',
        'files': ['satella/coding/concurrent/futures/collection.py', 'satella/coding/concurrent/thread_collection.py',
                  'satella/coding/concurrent/functions.py'],
        'mechanism': [('loops over the members', 'satella/coding/concurrent/futures/collection.py')],
        'technique': MODEL_TECH,
        'explain': MODEL_EXPLAIN,
        'rules': [collection_tables],
    },
    'C09': {
        'title': 'Callable groups and cancellable callbacks',
        'statement': 'Calling a CallableGroup drops cancelled callbacks, then calls every registered callable once, in order of addition, with the arguments '
                     'given; results are gathered only if gather is set, an exception is propagated, or swallowed and gathered if '
                     'swallow_exceptions is set, and a one-shot callable is removed before it is called while all others stay registered. '
                     'A cancelled CancellableCallback is false and never calls its function. CallNoOftenThan calls the function only if at least '
                     'the interval passed since the end of its last successful call, and the first call is never suppressed.',
        'over': (['inputs', 'histories', 'fault_sequences'], 'every set of callables, their failures, cancellations and call times'),
        'why': 'Failures in the middle of a group and cancellations between calls are histories, not single inputs.',
        'files': ['satella/coding/concurrent/callablegroup.py'],
        'mechanism': [('CallableGroup.__call__', 'satella/coding/concurrent/callablegroup.py')],
        'technique': MODEL_TECH,
        'explain': MODEL_EXPLAIN,
        'rules': [group_tables],
    },
    'C10': {
        'title': 'Issued identifiers are unique and in range',
        'statement': 'SequentialIssuer.issue and no_less_than return strictly increasing values, the latter never below its argument. IDAllocator hands out '
                     'an identifier at most once until it is freed, never below start_at nor at or above top_limit: every identifier within the bound '
                     'is either free or allocated; allocate_int raises Empty when none is left, mark_as_allocated raises AlreadyAllocated or ValueError and '
                     'mark_as_free ValueError without changing anything. Any number of threads may call at the same time.',
        'over': (['histories', 'inputs', 'schedules'], 'every sequence of allocations and releases, by any number of threads'),
        'why': 'Duplicates appear only after particular sequences of allocation, explicit marking and release.',
        'files': ['satella/coding/concurrent/id_allocator.py'],
        'mechanism': [('free and allocated sets below the bound', 'satella/coding/concurrent/id_allocator.py')],
        'technique': MODEL_TECH,
        'explain': MODEL_EXPLAIN,
        'rules': [id_tables],
    },
    'C11': {
        'title': 'Queues deliver every item once, in order',
        'statement': 'PeekableQueue.put/put_many append items in order, get removes and returns the oldest item, peek returns the item the next get would '
                     'return without removing it, and qsize counts the items. Subqueue.put and get operate on the queue of the given name, '
                     'created on first use and never replaced, and get_any returns the name and the oldest item of some non-empty queue or raises queue.Empty '
                     'only if all were empty. All of this holds for any number of threads calling at the same time.',
        'over': (['histories', 'schedules'], 'every sequence of puts and gets'),
        'why': 'Order and loss depend on the history of operations.',
        'files': ['satella/coding/concurrent/queue.py', 'satella/coding/structures/queues.py'],
        'mechanism': [('deque used as FIFO', 'satella/coding/concurrent/queue.py'), ('dictionary of queues', 'satella/coding/structures/queues.py')],
        'technique': MODEL_TECH,
        'explain': MODEL_EXPLAIN,
        'rules': [queue_tables],
    },
}
