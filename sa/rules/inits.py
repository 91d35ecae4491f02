"""Constructors: what an object is made of decides what its operations do. One table per property."""
from ..model import models
from .conc_futures import TABLE, TABLE_TEXT

INITS = {
    'C01': '''
#@ satella.coding.concurrent.monitor.Monitor
def __init__(self):
    self._monitor_lock = threading.Lock()
#@ satella.coding.concurrent.monitor.RMonitor
def __init__(self):
    self._monitor_lock = threading.RLock()
#@ satella.coding.concurrent.locked_structure.LockedStructure
def __init__(self, obj_to_wrap, lock=None):
    super().__init__(obj_to_wrap)
    self.__lock = lock or threading.Lock()
#@ satella.coding.concurrent.monitor.MonitorList
def __init__(self, *args):
    collections.UserList.__init__(self, *args)
    Monitor.__init__(self)
#@ satella.coding.concurrent.monitor.MonitorDict
def __init__(self, *args, **kwargs):
    collections.UserDict.__init__(self, *args, **kwargs)
    Monitor.__init__(self)
#@ satella.coding.concurrent.monitor.MonitorSet
def __init__(self, *args):
    super().__init__(*args)
    Monitor.__init__(self)
#@ satella.coding.concurrent.monitor.MonitorList
import copy
def __copy__(self):
    return MonitorList(copy.copy(self.data))
def __deepcopy__(self, memo):
    return MonitorList(copy.deepcopy(self.data, memo=memo))
def __getitem__(self, item):
    return self.data[item]
def __setitem__(self, key, value):
    self.data[key] = value
def __delitem__(self, key):
    del self.data[key]
#@ satella.coding.concurrent.monitor.MonitorDict
def __copy__(self):
    return MonitorDict(copy.copy(self.data))
def __deepcopy__(self, memo):
    return MonitorDict(copy.deepcopy(self.data, memo=memo))
def __getitem__(self, item):
    return self.data[item]
def __setitem__(self, key, value):
    self.data[key] = value
def __delitem__(self, key):
    del self.data[key]
''',
    'C06': '''
#@ satella.coding.concurrent.thread.SingleStartThread
def __init__(self, *args, **kwargs):
    self.__started = False
    super().__init__(*args, **kwargs)
#@ satella.coding.concurrent.thread.BogusTerminableThread
def __init__(self):
    self.started = False
    self.terminated = False
    self.daemon = True
#@ satella.coding.concurrent.thread.TerminableThread
def __init__(self, *args, terminate_on=None, **kwargs):
    super().__init__(*args, **kwargs)
    self._terminating = False
    self._terminate_on = terminate_on
#@ satella.coding.concurrent.thread.IntervalTerminableThread
def __init__(self, seconds, *args, **kwargs):
    from satella.time.parse import parse_time_string
    self.seconds = parse_time_string(seconds)
    super().__init__(*args, **kwargs)
#@ satella.instrumentation.cpu_time.concurrency.CPUTimeAwareIntervalTerminableThread
def __init__(self, seconds, max_sooner=None, percentile=0.3, wakeup_interval='3s', *args, **kwargs):
    self.seconds = parse_time_string(seconds)
    self.wakeup_interval = parse_time_string(wakeup_interval)
    self.max_sooner = max_sooner or self.seconds * 0.1
    cp_bt = _CPUProfileBuilderThread.get_instance()
    cp_bt.request_percentile(percentile)
    self.percentile = percentile
    super().__init__(seconds, *args, **kwargs)
#@ satella.coding.concurrent.timer.Timer
def __init__(self, interval, function, args=None, kwargs=None, spawn_separate=False):
    self.args = args or []
    self.kwargs = kwargs or {}
    self.spawn_separate = spawn_separate
    self.interval = parse_time_string(interval)
    self.function = function
    self.execute_at = None
    self.cancelled = False
#@ satella.coding.concurrent.timer.TimerBackgroundThread
def __init__(self):
    super().__init__(name='timer background thread', daemon=True)
    Monitor.__init__(self)
    self.timer_objects = TimeBasedHeap()
    self.start()
#@ satella.coding.concurrent.thread.BogusTerminableThread
def join(self, timeout=None):
    if not self.terminated and (not self.started):
        raise RuntimeError('Cannot join on a thread that has not started!')
    if not self.terminated:
        started_elapsing = time.monotonic()
        while not self.terminated and (timeout is None or time.monotonic() - started_elapsing < timeout):
            time.sleep(1)
        if not self.terminated:
            raise WouldWaitMore('thread failed to terminate')
def start(self):
    if self.terminated:
        raise RuntimeError('Thread already terminated')
    if self.started:
        raise RuntimeError('Thread already running')
    self.started = True
def is_alive(self):
    return not self.terminated and self.started
def terminate(self):
    self.terminated = True
#@ satella.coding.concurrent.thread.TerminableThread
def run(self):
    try:
        try:
            self.prepare()
        except Exception as e:
            if self._terminate_on is not None:
                if isinstance(e, self._terminate_on):
                    self.terminate()
                    return
            raise
        while not self._terminating:
            try:
                self.loop()
            except Exception as e:
                if self._terminate_on is not None:
                    if isinstance(e, self._terminate_on):
                        self.terminate()
                        return
                raise
    except SystemExit:
        pass
    finally:
        self.cleanup()
def start(self):
    super().start()
    return self
def __enter__(self):
    self.start()
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    self.terminate().join()
    return False
def safe_wait_condition(self, condition, timeout, wake_up_each=2, dont_raise=False):
    from satella.time.parse import parse_time_string
    timeout = parse_time_string(timeout)
    wake_up_each = parse_time_string(wake_up_each)
    t = 0
    while t < timeout:
        if self._terminating:
            raise SystemExit()
        ttw = min(timeout - t, wake_up_each)
        t += ttw
        try:
            condition.wait(ttw)
            return
        except WouldWaitMore:
            pass
    if not dont_raise:
        raise WouldWaitMore()
def safe_sleep(self, interval, wake_up_each=2):
    t = 0
    while t < interval and (not self._terminating):
        remaining_to_sleep = min(interval - t, wake_up_each)
        time.sleep(remaining_to_sleep)
        t += remaining_to_sleep
    if self._terminating:
        raise SystemExit()
def terminate(self, force=False):
    self._terminating = True
    if force:
        if platform.python_implementation() == 'PyPy':
            raise NotImplementedError('force=True was made on PyPy')
        ret = ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(self._ident), ctypes.py_object(SystemExit))
        if ret == 0:
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(self._ident), 0)
            raise RuntimeError('Zero threads killed!')
        elif ret > 1:
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(self._ident), 0)
            raise RuntimeError('Multiple threads killed!')
    return self
#@ satella.coding.concurrent.thread.IntervalTerminableThread
def run(self):
    from satella.time.measure import measure
    try:
        try:
            self.prepare()
        except Exception as e:
            if self._terminate_on is not None:
                if isinstance(e, self._terminate_on):
                    self.terminate()
                    return
            raise
        while not self._terminating:
            with measure() as measurement:
                try:
                    self.loop()
                except Exception as e:
                    if self._terminate_on is not None:
                        if isinstance(e, self._terminate_on):
                            self.terminate()
                            return
                    raise
            if self._terminating:
                break
            time_taken = measurement()
            time_to_sleep = self.seconds - time_taken
            if time_to_sleep < 0:
                self.on_overrun(time_taken)
            else:
                self.safe_sleep(time_to_sleep)
    except SystemExit:
        pass
    finally:
        self.cleanup()
#@ satella.coding.concurrent.thread.SingleStartThread
def start(self):
    if self.__started:
        return self
    self.__started = True
    super().start()
    return self
#@ satella.coding.concurrent.timer.Timer
def start(self):
    execute_at = time.monotonic() + self.interval
    tbt = TimerBackgroundThread()
    with Monitor.acquire(tbt):
        tbt.timer_objects.put(execute_at, self)
def cancel(self):
    self.cancelled = True
def _try_execute(self):
    if self.cancelled:
        return
    if self.spawn_separate:
        threading.Thread(target=self.function, args=self.args, kwargs=self.kwargs, daemon=True).start()
    else:
        self.function(*self.args, **self.kwargs)
#@ satella.coding.concurrent.timer.TimerBackgroundThread
def run(self):
    while True:
        try:
            ts, _ = self.timer_objects.peek_closest()
            delay = min(ts - time.monotonic(), 1)
            if delay < 0:
                delay = 0
        except IndexError:
            delay = 1
        time.sleep(delay)
        with Monitor.acquire(self):
            items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
        for item in items_to_exec:
            with log_exceptions(logger, swallow_exception=True):
                item[1]._try_execute()
#@ satella.instrumentation.cpu_time.concurrency.CPUTimeAwareIntervalTerminableThread
def run(self):
    try:
        try:
            self.prepare()
        except Exception as e:
            if self._terminate_on is not None:
                if isinstance(e, self._terminate_on):
                    self.terminate()
                    return
            raise
        while not self.terminating:
            try:
                measured = self._execute_measured()
            except Exception as e:
                if self._terminate_on is not None:
                    if isinstance(e, self._terminate_on):
                        self.terminate()
                        return
                raise
            seconds_to_wait = self.seconds - measured
            if seconds_to_wait > 0:
                self.__sleep(seconds_to_wait)
            elif seconds_to_wait < 0:
                self.on_overrun(measured)
    finally:
        self.cleanup()
''',
    'C07': '''
#@ satella.coding.concurrent.futures.futures.Future
def __init__(self):
    super().__init__()
    self._pre_done_callbacks = []
    self._done_callbacks = []
#@ satella.coding.concurrent.futures.wrapped_executor.ExecutorWrapper
def __init__(self, executor):
    self.executor = executor
#@ satella.coding.concurrent.futures.futures.Future free=__get_result
def on_success(self, fun):

    def inner(fut):
        if fut.cancelled() or fut._exception is not None:
            return
        return fun(fut._result)
    self.add_done_callback(inner)
    return self
def on_failure(self, fun):

    def inner(fut):
        if fut._exception is None:
            return
        return fun(fut._exception)
    self.add_done_callback(inner)
    return self
def chain(self, fun):

    def inner(future):
        if future._exception is not None:
            result = future._exception
        else:
            result = future._result
        fun(result)
    self.add_done_callback(inner)
    return self
def result(self, timeout=None):
    if self._state == PRE_FINISHED:
        return self.__get_result()
    else:
        return super().result(timeout)
def exception(self, timeout=None):
    if self._state == PRE_FINISHED:
        return self._exception
    else:
        return super().exception(timeout)
def set_result(self, result):
    if self._state == PRE_FINISHED:
        self._result = result
        self._exception = None
    else:
        with self._condition:
            if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                raise InvalidStateError('{}: {!r}'.format(self._state, self))
            self._result = result
            self._state = PRE_FINISHED
            self._invoke_pre_callbacks()
            self._state = FINISHED
            for waiter in self._waiters:
                waiter.add_result(self)
            self._condition.notify_all()
        self._invoke_callbacks()
def set_exception(self, exception):
    if self._state == PRE_FINISHED:
        self._exception = exception
        self._result = None
    else:
        with self._condition:
            if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
                raise InvalidStateError('{}: {!r}'.format(self._state, self))
            self._exception = exception
            self._state = PRE_FINISHED
            self._invoke_pre_callbacks()
            self._state = FINISHED
            for waiter in self._waiters:
                waiter.add_exception(self)
            self._condition.notify_all()
        self._invoke_callbacks()
def add_pre_done_callback(self, fn):
    with self._condition:
        if self._state not in [CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED]:
            self._pre_done_callbacks.append(fn)
            return
    try:
        fn(self)
    except Exception:
        LOGGER.exception('exception calling callback for %r', self)
#@ satella.coding.concurrent.futures.futures.WrappingFuture
def __init__(self, source_future):
    super().__init__()
    self.source_future = source_future
    self.source_future.add_done_callback(self._on_future_completed)
def set_running_or_notify_cancel(self):
    return self.source_future.set_running_or_notify_cancel()
def cancel(self):
    return self.source_future.cancel()
def _on_future_completed(self, future):
    if future.cancelled():
        with self._condition:
            self._condition.notify_all()
        self._invoke_callbacks()
    elif future._exception is not None:
        self.set_exception(future._exception)
    else:
        self.set_result(future._result)
#@ satella.coding.concurrent closures=1
def run_as_future(fun):

    def inner(*args, **kwargs):
        fut = Future()
        fut.set_running_or_notify_cancel()

        def separate_target():
            try:
                fut.set_result(fun(*args, **kwargs))
            except BaseException as e:
                fut.set_exception(e)
        Thread(target=separate_target).start()
        return fut
    return inner
#@ satella.coding.concurrent.futures.futures.WrappingFuture
def _state(self):
    if self.source_future._state == FINISHED:
        return self._old_state
    else:
        return self.source_future._state
@_state.setter
def _state(self, v):
    self._old_state = v
''',
    'C08': '''
#@ satella.coding.concurrent.thread_collection.ThreadCollection
def __init__(self, threads=None):
    if threads is None:
        self.threads = []
    else:
        self.threads = list(threads) or []
#@ satella.coding.concurrent.futures.collection.FutureCollection
def __init__(self, futures=()):
    if not isinstance(futures, list):
        futures = list(futures)
    self.futures = futures
''',
    'C09': '''
#@ satella.coding.concurrent.callablegroup.CancellableCallback
def __init__(self, callback_fun):
    self.callback_fun = callback_fun
    self.cancelled = False
#@ satella.coding.concurrent.callablegroup.CallableGroup
def __init__(self, gather=True, swallow_exceptions=False):
    self.callables = collections.OrderedDict()
    self.gather = gather
    self.swallow_exceptions = swallow_exceptions
''',
    'C11': '''
#@ satella.coding.structures.queues.Subqueue
def __init__(self):
    self.subqueues = {}
    self.subqueue_lock = Monitor()
''',
    'D01': '''
#@ satella.coding.structures.dictionaries.objects.TwoWayDictionary
def __init__(self, data=None, _is_reverse=False):
    if not _is_reverse:
        self.data = dict(data or [])
        self.reverse_data = {v: k for k, v in self.data.items()}
        if len(self.reverse_data) != len(self.data):
            raise ValueError('Value repeats itself, invalid data!')
        self._reverse = TwoWayDictionary(_is_reverse=True)
        self._reverse.data = self.reverse_data
        self._reverse.reverse_data = self.data
        self._reverse._reverse = self
#@ satella.coding.structures.heaps.time.TimeBasedSetHeap
def __init__(self, default_clock_source=None):
    self.default_clock_source = default_clock_source or time.monotonic
    super().__init__(from_list=())
    self.item_to_timestamp = {}
#@ satella.coding.structures.TimeBasedSetHeap
import copy
def __copy__(self):
    heap = self.__class__(self.default_clock_source)
    heap.push_many(self.data)
    return heap
def __deepcopy__(self, memo={}):
    heap = self.__class__(self.default_clock_source)
    heap.push_many(copy.deepcopy(self.data, memo))
    return heap
#@ satella.coding.structures.TwoWayDictionary
def done(self):
    self._reverse._reverse = None
    self._reverse = None
def __exit__(self, exc_type, exc_val, exc_tb):
    self.done()
    return False
def __enter__(self):
    return self
''',
    'D02': '''
#@ satella.coding.structures.heaps.time.TimeBasedHeap
def __init__(self, default_clock_source=time.monotonic):
    self.default_clock_source = default_clock_source
    super().__init__(from_list=())
#@ satella.coding.structures.Heap
import copy
def __copy__(self):
    return self.__class__(copy.copy(self.data))
def __deepcopy__(self, memo={}):
    return self.__class__(copy.deepcopy(self.data, memo=memo))
def __iter__(self):
    return iter(self.data)
def iter_descending(self):
    return reversed(list(self.iter_ascending()))
def __eq__(self, other):
    return self.data == other.data
def __len__(self):
    return len(self.data)
#@ satella.coding.structures.TimeBasedHeap
def __copy__(self):
    heap = self.__class__(self.default_clock_source)
    heap.data = copy.copy(self.data)
    return heap
def __deepcopy__(self, memo={}):
    heap = self.__class__(self.default_clock_source)
    heap.data = copy.deepcopy(self.data, memo)
    return heap
#@ satella.coding.structures.sorted_list.SliceableDeque
def __bool__(self):
    return bool(self.deque)
def __len__(self):
    return len(self.deque)
def insert(self, i, item):
    self.deque.insert(i, item)
def __setitem__(self, key, value):
    self.deque[key] = value
def __delitem__(self, key):
    del self.deque[key]
def __iter__(self):
    return iter(self.deque)
def __reversed__(self):
    return reversed(self.deque)
def __contains__(self, item):
    return item in self.deque
def __getattr__(self, item):
    return getattr(self.deque, item)
def __getitem__(self, item):
    tot_length = len(self)
    if type(item) is slice:
        start, stop, step = item.indices(tot_length)
        def generator():
            for index in range(start, stop, step):
                yield self.deque[index]
        return generator()
    return self.deque[item]
''',
    'D03': '''
#@ satella.coding.structures.dictionaries.cache_dict.CacheDict
def __init__(self, stale_interval, expiration_interval, value_getter, value_getter_executor=None, cache_failures_interval=None, time_getter=time.monotonic, default_value_factory=None):
    self.stale_interval = _parse_time_string(stale_interval)
    self.expiration_interval = _parse_time_string(expiration_interval)
    assert self.stale_interval <= self.expiration_interval, 'Stale interval may not be larger than expiration interval!'
    self.default_value_factory = default_value_factory
    self.value_getter = value_getter
    if value_getter_executor is None:
        value_getter_executor = ThreadPoolExecutor(max_workers=4)
    self.value_getter_executor = value_getter_executor
    self.data = {}
    self.timestamp_data = {}
    self.cache_missed = set()
    self.cache_failures = cache_failures_interval is not None
    self.cache_failures_interval = short_none(_parse_time_string)(cache_failures_interval)
    self.time_getter = time_getter
#@ satella.coding.structures.dictionaries.expiring.SelfCleaningDefaultDict
def __init__(self, default_factory, background_maintenance=True, *args, **kwargs):
    super().__init__()
    self.data = dict(*args, **kwargs)
    self.default_factory = default_factory
    self.default_value = default_factory()
    self.background_maintenance = background_maintenance
    if self.background_maintenance:
        ExpiringEntryDictThread().add_dict(self)
#@ satella.coding.structures.dictionaries.expiring.ExpiringEntryDict
def __init__(self, expiration_timeout, *args, time_getter=time.monotonic, external_cleanup=False, **kwargs):
    super().__init__()
    self.data = dict()
    self.expire_on = {}
    self.time_getter = time_getter
    self.expiration_timeout = expiration_timeout
    self.key_to_expiration_time = TimeBasedSetHeap()
    if external_cleanup:
        ExpiringEntryDictThread().add_dict(self)
    dct = dict(*args, **kwargs)
    for key, value in dct.items():
        self[key] = value
#@ satella.coding.structures.dictionaries.expiring.ExpiringEntryDictThread
def __init__(self):
    super().__init__(name='ExpiringEntryDict cleanup thread', daemon=True)
    Monitor.__init__(self)
    self.entries = []
    self.started = False
''',
    'D04': '''
#@ satella.coding.structures.lru.LRU
def __init__(self):
    self.od = OrderedDict()
''',
    'D05': '''
#@ satella.coding.structures.dictionaries.writeback_cache.ExclusiveWritebackCache
def __init__(self, write_method, read_method, delete_method=None, executor=None, no_concurrent_executors=None, store_key_errors=True):
    if executor is None:
        self.executor = ThreadPoolExecutor(max_workers=4)
    else:
        self.executor = executor
    self.store_key_errors = store_key_errors
    self.write_method = write_method
    self.delete_method = delete_method
    self.read_method = read_method
    self.no_concurrent_executors = no_concurrent_executors or 4
    self.in_cache = set()
    self.cache_lock = Monitor()
    self.cache = {}
    self.operations = 0
''',
    'D08': '''
#@ satella.coding.concurrent.atomic.AtomicNumber
def __init__(self, v=0):
    super().__init__()
    self.value = v
    self.condition = Condition()
''',
    'D11': '''
#@ satella.coding.sequences.iterators.ConstruableIterator
def __init__(self, *args, **kwargs):
    self.entries = collections.deque(*args, **kwargs)
#@ satella.coding.sequences.iterators._ListWrapperIteratorIterator
def __init__(self, parent):
    self.parent = parent if isinstance(parent, tp.Iterator) else iter(parent)
    self.pos = 0
#@ satella.coding.sequences.sequences.Multirun
def __init__(self, sequence, dont_return_list=False):
    self.sequence = sequence
    self.dont_return_list = dont_return_list
#@ satella.coding.structures.push_iterable.PushIterable
def __init__(self, iterable):
    self.iterable = iter(iterable)
    self.collection = deque()
''',
    'D12': '''
#@ satella.coding.structures.dictionaries.counting.CountingDict
def __init__(self, set_to_count=()):
    self.dct = {}
    for elem in set_to_count:
        self.count(elem)
#@ satella.coding.structures.dictionaries.objects.DirtyDict
def __init__(self, *args, **kwargs):
    self.data = dict(*args, **kwargs)
    self.dirty = False
#@ satella.coding.structures.dictionaries.objects.KeyAwareDefaultDict
def __init__(self, factory_function, *args, **kwargs):
    self.dict = dict(*args, **kwargs)
    self.factory_function = factory_function
#@ satella.coding.structures.dictionaries.objects.DictionaryView
def __init__(self, master_dict, *rest_of_dicts, propagate_deletes=True, assign_to_same_dict=True):
    warnings.warn('This is deprecated and will be removed in Satella 3.0.Use collections.ChainMap instead', DeprecationWarning)
    self.assign_to_same_dict = assign_to_same_dict
    self.master_dict = master_dict
    self.dictionaries = [master_dict, *rest_of_dicts]
    self.propagate_deletes = propagate_deletes
#@ satella.coding.structures.DirtyDict
def __copy__(self):
    dd = DirtyDict(self.data.copy())
    dd.dirty = self.dirty
    return dd
#@ satella.coding.structures.DictionaryView
import copy
def __copy__(self):
    return DictionaryView(*self.dictionaries, propagate_deletes=self.propagate_deletes, assign_to_same_dict=self.assign_to_same_dict)
def __deepcopy__(self, memo):
    return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo), propagate_deletes=self.propagate_deletes, assign_to_same_dict=self.assign_to_same_dict)
#@ satella.coding.structures.DictObject
def __new__(cls, *args, **kwargs):
    if not kwargs and len(args) == 1:
        if isinstance(args[0], DictObject):
            return args[0]
    return super().__new__(cls, *args, **kwargs)
''',
    'D14': '''
#@ satella.coding.structures.sparse_matrix.SparseMatrix
def __init__(self, matrix_data=None):
    self.rows_dict = collections.defaultdict(lambda: collections.defaultdict(lambda: None))
    self.known_column_count = {}
    self.no_cols = 0
    self.no_rows = 0
    if matrix_data:
        self[:, :] = matrix_data
#@ satella.coding.structures.SparseMatrix
def from_iterable(cls, y):
    sm = SparseMatrix()
    for row_no, cols in enumerate(y):
        for col_no, value in enumerate(cols):
            sm[col_no, row_no] = value
    return sm
''',
    'D15': '''
#@ satella.coding.deep_compare.Inequal
def __init__(self, obj1, obj2, reason):
    self.obj1 = obj1
    self.obj2 = obj2
    self.reason = reason
''',
    'E01': '''
#@ satella.coding.recast_exceptions.log_exceptions
def __init__(self, logger, severity=logging.ERROR, format_string='{e}', locals_=None, exc_types=Exception, swallow_exception=False):
    self.logger = logger
    self.swallow_exception = swallow_exception
    self.severity = severity
    self.format_string = format_string
    self.locals = locals_
    self.exc_types = exc_types
#@ satella.coding.recast_exceptions.rethrow_as
def __init__(self, *pairs, exception_preprocessor=repr, returns=None, returns_factory=None):
    warnings.warn('Deprecated, use reraise_as', DeprecationWarning)
    try:
        a, b = pairs
        op = issubclass(b, BaseException)
    except TypeError:
        op = b is None
    except ValueError:
        op = False
    if op:
        pairs = [pairs]
    self.mapping = list(pairs)
    self.exception_preprocessor = exception_preprocessor or repr
    self.returns = returns
    self.returns_factory = returns_factory
    if self.returns is not None and self.returns_factory is not None:
        raise ValueError('You can specify only one of (returns, returns_factory)')
    self.__exception_remapped = threading.local()
''',
    'E05': '''
#@ satella.coding.optionals.Optional
def __init__(self, obj):
    super().__init__(obj)
''',
    'E07': '''
#@ satella.coding.environment.Context
def __init__(self, parent=None, **variables):
    warnings.warn('This is experimental', RuntimeWarning)
    self.parent = parent
    self.variables = variables
    self.bool = None
''',
    'J04': '''
#@ satella.configuration.schema.base.CheckerCondition
def __init__(self, condition, description=u'', is_pre_checker=True):
    self.condition = condition
    self.description = description
    self.is_pre_checker = is_pre_checker
''',
    'J05': '''
#@ satella.configuration.sources.envvars.EnvVarsSource
def __init__(self, env_name):
    super(EnvVarsSource, self).__init__('', encoding=sys.getfilesystemencoding())
    self.env_name = env_name
#@ satella.configuration.sources.file.HTTPJSONSource
def __init__(self, url, method='GET', **kwargs):
    super(HTTPJSONSource, self).__init__()
    self.url = url
    self.method = method
    self.kwargs = kwargs
''',
    'R07': '''
#@ satella.exceptions.ProcessFailed
def __init__(self, rc, stdout_so_far):
    super().__init__(rc, stdout_so_far)
    self.rc = rc
    self.stdout_so_far = stdout_so_far
''',
    'R08': '''
#@ satella.coding.misc.Closeable
def __init__(self):
    self.__finalized = False
''',
    'D13': '''
#@ satella.coding.ListDeleter
import copy
def value(self):
    return self()
def __copy__(self):
    ld = ListDeleter(self.list_to_process)
    ld.direction = self.direction
    ld.current_index = self.current_index
    ld.indices_to_delete = copy.copy(self.indices_to_delete)
    return ld
#@ satella.coding.DictDeleter
def __enter__(self):
    self.keys_to_delete = set()
    return self
def delete(self):
    self.keys_to_delete.add(self.current_key)
def values(self):
    self.iter_mode = ITER_VALUES
    return self
''',
    'C04': '''
#@ satella.coding.concurrent.value.DeferredValue
def set_value(self, va):
    with self.set_lock:
        if self.val is not _BLANK:
            raise ValueError('Value curently set!')
        self.val = va
    self.lock.set()
def value(self, timeout=None):
    if self.val is not _BLANK:
        return self.val
    tout = self.lock.wait(timeout)
    if not tout:
        raise WouldWaitMore()
    return self.val
def result(self, timeout=None):
    return self.value(timeout)
#@ satella.coding.concurrent.thread.Condition
def wait(self, timeout=None, dont_raise=False):
    from satella.time.parse import parse_time_string
    if timeout is not None:
        timeout = parse_time_string(timeout)
        if timeout < 0:
            timeout = 0
    from satella.time.measure import measure
    with measure(timeout=timeout) as measurement:
        if timeout is None:
            self.acquire()
        elif not self.acquire(timeout=measurement.time_remaining):
            raise ResourceLocked('internal lock locked')
        try:
            if timeout is None:
                super().wait()
            elif not super().wait(timeout=measurement.time_remaining):
                if not dont_raise:
                    raise WouldWaitMore('wait was not notified')
        finally:
            self.release()
def notify(self, n=1):
    with self._lock:
        super().notify(n=n)
def notify_all(self):
    with self._lock:
        super().notify_all()
#@ satella.time.backoff.ExponentialBackoff
def wait_until_available(self, timeout=None):
    with measure(timeout=timeout) as m:
        while not m.timeouted:
            tn = self.time_until_next_check()
            if tn is None:
                return
            if timeout is not None:
                tn = min(tn, m.time_remaining)
            self.condition.wait(timeout=tn, dont_raise=True)
        raise WouldWaitMore('timeouted while waiting for service to become healthy')
def time_until_next_check(self):
    unavailable_until = self.unavailable_until
    if unavailable_until is None:
        return None
    else:
        t = time.monotonic()
        if t > unavailable_until:
            self.unavailable_until = None
            return None
        else:
            return unavailable_until - t
def success(self):
    self.counter = 0
    self.grace_counter = 0
    self.unavailable_until = None
    self.condition.notify_all()
#@ satella.coding.concurrent.queue.PeekableQueue
def put(self, item):
    with self.lock:
        self.queue.append(item)
        self.inserted_condition.notify_all()
def put_many(self, items):
    with self.lock:
        for item in items:
            self.queue.append(item)
        self.inserted_condition.notify_all()
#@ satella.coding.concurrent.atomic.AtomicNumber
def wait(self, timeout=None, throw_exception=True):
    try:
        self.condition.wait(timeout)
    except WouldWaitMore:
        if throw_exception:
            raise
def wait_until_equal(self, v, timeout=None):
    with self.condition:
        if timeout is None:
            while self.value != v:
                self.condition.wait()
        else:
            with measure(timeout=timeout) as measurement:
                while self.value != v:
                    if measurement.timeouted:
                        raise WouldWaitMore()
                    self.condition.wait(measurement.time_remaining, dont_raise=True)
#@ satella.coding.concurrent.PeekableQueue
def get(self, timeout=None):
    with measure(timeout=timeout) as m, self.lock:
        while not self.queue:
            if timeout is None:
                self.inserted_condition.wait()
            elif m.timeouted:
                raise Empty()
            else:
                self.inserted_condition.wait(m.time_remaining)
        return self.queue.popleft()
def peek(self, timeout=None):
    with measure(timeout=timeout) as m, self.lock:
        while not self.queue:
            if timeout is None:
                self.inserted_condition.wait()
            elif m.timeouted:
                raise Empty()
            else:
                self.inserted_condition.wait(m.time_remaining)
        return self.queue[0]
def qsize(self):
    return len(self.queue)
''',
    'C05': '''
#@ satella.coding.concurrent.value.DeferredValue
def set_value(self, va):
    with self.set_lock:
        if self.val is not _BLANK:
            raise ValueError('Value curently set!')
        self.val = va
    self.lock.set()
def value(self, timeout=None):
    if self.val is not _BLANK:
        return self.val
    tout = self.lock.wait(timeout)
    if not tout:
        raise WouldWaitMore()
    return self.val
def result(self, timeout=None):
    return self.value(timeout)
#@ satella.coding.concurrent.thread.Condition
def wait(self, timeout=None, dont_raise=False):
    from satella.time.parse import parse_time_string
    if timeout is not None:
        timeout = parse_time_string(timeout)
        if timeout < 0:
            timeout = 0
    from satella.time.measure import measure
    with measure(timeout=timeout) as measurement:
        if timeout is None:
            self.acquire()
        elif not self.acquire(timeout=measurement.time_remaining):
            raise ResourceLocked('internal lock locked')
        try:
            if timeout is None:
                super().wait()
            elif not super().wait(timeout=measurement.time_remaining):
                if not dont_raise:
                    raise WouldWaitMore('wait was not notified')
        finally:
            self.release()
def notify(self, n=1):
    with self._lock:
        super().notify(n=n)
def notify_all(self):
    with self._lock:
        super().notify_all()
#@ satella.time.backoff.ExponentialBackoff
def wait_until_available(self, timeout=None):
    with measure(timeout=timeout) as m:
        while not m.timeouted:
            tn = self.time_until_next_check()
            if tn is None:
                return
            if timeout is not None:
                tn = min(tn, m.time_remaining)
            self.condition.wait(timeout=tn, dont_raise=True)
        raise WouldWaitMore('timeouted while waiting for service to become healthy')
def time_until_next_check(self):
    unavailable_until = self.unavailable_until
    if unavailable_until is None:
        return None
    else:
        t = time.monotonic()
        if t > unavailable_until:
            self.unavailable_until = None
            return None
        else:
            return unavailable_until - t
def success(self):
    self.counter = 0
    self.grace_counter = 0
    self.unavailable_until = None
    self.condition.notify_all()
#@ satella.coding.concurrent.queue.PeekableQueue
def put(self, item):
    with self.lock:
        self.queue.append(item)
        self.inserted_condition.notify_all()
def put_many(self, items):
    with self.lock:
        for item in items:
            self.queue.append(item)
        self.inserted_condition.notify_all()
#@ satella.coding.concurrent.atomic.AtomicNumber
def wait(self, timeout=None, throw_exception=True):
    try:
        self.condition.wait(timeout)
    except WouldWaitMore:
        if throw_exception:
            raise
def wait_until_equal(self, v, timeout=None):
    with self.condition:
        if timeout is None:
            while self.value != v:
                self.condition.wait()
        else:
            with measure(timeout=timeout) as measurement:
                while self.value != v:
                    if measurement.timeouted:
                        raise WouldWaitMore()
                    self.condition.wait(measurement.time_remaining, dont_raise=True)
#@ satella.coding.concurrent.PeekableQueue
def get(self, timeout=None):
    with measure(timeout=timeout) as m, self.lock:
        while not self.queue:
            if timeout is None:
                self.inserted_condition.wait()
            elif m.timeouted:
                raise Empty()
            else:
                self.inserted_condition.wait(m.time_remaining)
        return self.queue.popleft()
def peek(self, timeout=None):
    with measure(timeout=timeout) as m, self.lock:
        while not self.queue:
            if timeout is None:
                self.inserted_condition.wait()
            elif m.timeouted:
                raise Empty()
            else:
                self.inserted_condition.wait(m.time_remaining)
        return self.queue[0]
def qsize(self):
    return len(self.queue)
#@ satella.coding.concurrent.thread.BogusTerminableThread
def join(self, timeout=None):
    if not self.terminated and (not self.started):
        raise RuntimeError('Cannot join on a thread that has not started!')
    if not self.terminated:
        started_elapsing = time.monotonic()
        while not self.terminated and (timeout is None or time.monotonic() - started_elapsing < timeout):
            time.sleep(1)
        if not self.terminated:
            raise WouldWaitMore('thread failed to terminate')
#@ satella.coding.concurrent.thread.TerminableThread
def safe_wait_condition(self, condition, timeout, wake_up_each=2, dont_raise=False):
    from satella.time.parse import parse_time_string
    timeout = parse_time_string(timeout)
    wake_up_each = parse_time_string(wake_up_each)
    t = 0
    while t < timeout:
        if self._terminating:
            raise SystemExit()
        ttw = min(timeout - t, wake_up_each)
        t += ttw
        try:
            condition.wait(ttw)
            return
        except WouldWaitMore:
            pass
    if not dont_raise:
        raise WouldWaitMore()
def safe_sleep(self, interval, wake_up_each=2):
    t = 0
    while t < interval and (not self._terminating):
        remaining_to_sleep = min(interval - t, wake_up_each)
        time.sleep(remaining_to_sleep)
        t += remaining_to_sleep
    if self._terminating:
        raise SystemExit()
#@ satella.coding.structures.dictionaries.writeback_cache.ExclusiveWritebackCache
def sync(self, timeout=None):
    measurement = measure(timeout=timeout)
    while self.get_queue_length() > 0:
        measurement.assert_not_timeouted()
        time.sleep(0.1)

    def fix():
        return
    sync_threadpool(self.executor, max_wait=measurement.time_remaining)
''',
    'J06': '''
#@ satella.coding.transforms.merger.merge_series
def assert_preloaded(self, for_ts):
    for i, _ in enumerate(self.series):
        if self.next_preloaded_values[i][0] > for_ts:
            return False
        while self.super_next_preloaded_values[i] is not None and self.super_next_preloaded_values[i][0] <= for_ts:
            self.advance(i)
    return True
#@ satella.coding.transforms.merger.merge_series keep=next
def __init__(self, *series):
    self.series = [iter(x) for x in series]
    try:
        self.next_preloaded_values = [next(x) for x in self.series]
    except StopIteration:
        self.empty = True
        return
    else:
        self.empty = False
    self.timestamps = SetHeap()
    timestamps = {x[0] for x in self.next_preloaded_values}
    max_ts = max(timestamps)
    self.timestamps.push(max_ts)
    self.super_next_preloaded_values = []
    for series in self.series:
        try:
            value = next(series)
            self.super_next_preloaded_values.append(value)
            self.timestamps.push(value[0])
        except StopIteration:
            self.super_next_preloaded_values.append(None)
def __iter__(self):
    return self
def advance(self, i):
    if self.super_next_preloaded_values[i] is None:
        raise ValueError('Cannot advance on series %s which is empty' % (i,))
    else:
        self.next_preloaded_values[i] = self.super_next_preloaded_values[i]
        try:
            self.super_next_preloaded_values[i] = next(self.series[i])
            self.timestamps.push(self.super_next_preloaded_values[i][0])
        except StopIteration:
            self.super_next_preloaded_values[i] = None
def next(self):
    minimum_timestamp, _ = min(self.next_preloaded_values)
    for i, v in enumerate(self.next_preloaded_values):
        if v[0] == minimum_timestamp:
            self.advance(i)
def assert_have_timestamps(self):
    if self.timestamps:
        return
    if all(map(_is_x_none, self.super_next_preloaded_values)):
        raise StopIteration('sequence exhausted')
    self.next()
    if not self.timestamps:
        raise StopIteration('cannot advance series anymore')
#@ satella.coding.transforms.merger.merge_series keep=assert_preloaded,assert_have_timestamps
def __next__(self):
    if self.empty:
        raise StopIteration()
    try:
        self.assert_have_timestamps()
        ts = self.timestamps.pop()
        while not self.assert_preloaded(ts):
            ts = self.timestamps.pop()
        return (ts, *(v[1] for v in self.next_preloaded_values))
    except IndexError:
        raise StopIteration()
''',
}


def make(pid, text):
    def constructors(ctx):
        models(ctx, ctx.rule(TABLE, TABLE_TEXT), text)
    return constructors


RULES = {pid: make(pid, text) for pid, text in INITS.items()}
PROPS = {}
