"""Tainting, and what is left of the smaller parts"""
from ..model import models
from .conc_futures import TABLE, TABLE_TEXT
from .structures import prop
from ..q import *
from .conc_state import guarded_state, K
from .conc_wait import cond_fields_of, no_lost_wakeup, wakeups
from .conc_locks import last_line

OPS = [('eq', '=='), ('gt', '>'), ('ge', '>='), ('lt', '<'), ('le', '<='), ('add', '+'), ('sub', '-'), ('mul', '*')]


def taint_text():
    t = '#@ satella.debug.tainting.tainteds.TaintedObject\n'
    for n, o in OPS:
        t += 'def __%s__(self, other):\n    return taint(self.__v %s access_tainted(other))\n' % (n, o)
    t += 'def __radd__(self, other):\n    return taint(access_tainted(other) + self.__v)\n'
    for n, o in OPS[5:]:
        t += 'def __i%s__(self, other):\n    self.__v %s= access_tainted(other)\n    return self\n' % (n, o)
    for n in ('str', 'len', 'bool', 'int', 'float', 'dir', 'hash'):
        t += 'def __%s__(self):\n    return %s(self.__v)\n' % (n, n)
    return t + '''
def __repr__(self):
    return '%s TAINTED' % str(self.__v)
def __iter__(self):
    for item in self.__v:
        yield taint(item)
def __next__(self):
    return taint(next(self.__v))
def __call__(self, *args, **kwargs):
    return taint(self.__v(*args, **kwargs))
def __getattr__(self, item):
    return taint(getattr(self.__v, access_tainted(item)))
def __setattr__(self, key, value):
    if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
        super().__setattr__(key, value)
    else:
        setattr(self.__v, key, taint(value))
def __enter__(self):
    return taint(self.__v.__enter__())
def __exit__(self, exc_type, exc_val, exc_tb):
    return self.__v.__exit__(exc_type, exc_val, exc_tb)
def __getitem__(self, item):
    return taint(self.__v[access_tainted(item)])
def __setitem__(self, key, value):
    self.__v[access_tainted(key)] = taint(value)
def __delitem__(self, key):
    del self.__v[access_tainted(key)]
def __new__(cls, v):
    if isinstance(v, TaintedObject):
        return v
    return object.__new__(cls)
def __init__(self, v):
    from .environment import TaintingEnvironment
    if isinstance(v, TaintedObject):
        return
    self.__environment = TaintingEnvironment.get_session_in_progress()
    self.__v = v
    if isinstance(v, tp.MutableSequence):
        for i in range(len(v)):
            self.__v[i] = taint(v[i])
    else:
        try:
            if isinstance(v, tp.MutableMapping):
                dict_to_transform = v
            else:
                dict_to_transform = v.__dict__
            for key in dict_to_transform:
                dict_to_transform[key] = taint(dict_to_transform[key])
        except AttributeError:
            pass
#@ satella.debug.tainting.tainteds
def access_tainted(v):
    if not isinstance(v, TaintedObject):
        return v
    return getattr(v, '_TaintedObject__v')
def taint(v):
    if isinstance(v, TaintedObject):
        return v
    return TaintedObject(v)
#@ satella.debug.tainting.environment.TaintingEnvironment
def __enter__(self):
    self.enabled = True
    if hasattr(local, 'satella_tainting'):
        raise RuntimeError('Other tainting session in progress')
    local.satella_tainting = self
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    del local.satella_tainting
    self.enabled = False
    return False
def get_session_in_progress():
    if not hasattr(local, 'satella_tainting'):
        raise RuntimeError('You require a session in progress to do that')
    return local.satella_tainting
def get_tainted_variables(self):
    for obj in gc.get_referrers(self):
        if not isinstance(obj, TaintedObject):
            continue
        yield access_tainted(obj)
'''


def taint_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), taint_text())


def connection_limit(ctx):
    r = ctx.rule('connection-limit', 'a connection is made only after the number of those that exist (handed out ones included) was compared '
                                     'with the limit under the same hold of the lock')
    name = 'CPManager.acquire_connection'
    with ctx.item(r, name):
        c = ctx.p.cls('satella.coding.resources.CPManager')
        f = c.find_repo('acquire_connection')
        n = 0
        for p in ctx.paths(f, cls=c):
            holds = 0
            tested = set()
            regs = {e.base[2] for e in p.events if e.kind == 'setitem' and e.base[0] == 'a' and e.base[1] == SELF}
            for e in p.events:
                if e.kind == 'acquire' and e.ok and contains(e.lock, SELF):
                    holds += 1
                elif e.kind == 'assume':
                    tested |= {(x, holds) for x in cond_fields_of(e.cond)} if any(k > 0 for _, k in e.locks) else set()
                elif e.kind == 'call' and e.name == 'create_connection' and regs:
                    n += 1
                    if not any((x, holds) in tested for x in regs):
                        return ctx.bad(r, name, 'makes a connection without comparing the number of connections (%s) with the limit'
                                       % ', '.join(sorted(regs)), f.where, e.line, p)
        if not n:
            raise Undecided('no creation found')
        ctx.ok(r, name)


SERIES = '''
#@ satella.coding.structures.SyncableDroppable
def __init__(self, db_storage, start_entry, stop_entry, synced_up_to, span_to_keep_in_memory, span_to_keep_in_db):
    super().__init__()
    assert span_to_keep_in_memory and span_to_keep_in_db
    assert span_to_keep_in_db > span_to_keep_in_memory
    self.db_storage = db_storage
    self._start_entry = start_entry
    self._stop_entry = stop_entry
    self._synced_up_to = synced_up_to
    self.data_in_memory = []
    self.span_to_keep_in_db = span_to_keep_in_db
    self.span_to_keep_in_memory = span_to_keep_in_memory
def start_entry(self):
    return self._start_entry
def synced_up_to(self):
    return self._synced_up_to
def stop_entry(self):
    return self._stop_entry
@start_entry.setter
def start_entry(self, v):
    self._start_entry = v
    self.db_storage.on_change_start_entry(v)
@synced_up_to.setter
def synced_up_to(self, v):
    self._synced_up_to = v
    self.db_storage.on_change_synced_up_to(v)
@stop_entry.setter
def stop_entry(self, v):
    self._stop_entry = v
    self.db_storage.on_change_stop_entry(v)
def first_key_in_memory(self):
    return None if not self.data_in_memory else self.data_in_memory[0][0]
def sync_to_db(self):
    for key, value in self.data_in_memory:
        self.db_storage.put(key, value)
    self.data_in_memory = []
def on_new_data(self, key, value):
    if self.stop_entry is not None:
        if key <= self.stop_entry:
            raise ValueError()
    self.data_in_memory.append((key, value))
    self.stop_entry = key
    if self.start_entry is None:
        self.start_entry = key
def on_synced_up_to(self, key):
    self.synced_up_to = key
def get_latest_value(self):
    if self.stop_entry is None:
        raise ValueError()
    if self.data_in_memory:
        return self.data_in_memory[-1]
    iterator = self.db_storage.iterate(self.stop_entry)
    try:
        return next(iterator)
    finally:
        iterator.close()
def cleanup_keep_in_memory(self):
    if self.first_key_in_memory is None:
        return
    cutoff = self.stop_entry - self.span_to_keep_in_memory
    for index, row in enumerate(self.data_in_memory):
        ts, value = row
        if ts > cutoff:
            for ts, value in self.data_in_memory[:index]:
                self.db_storage.put(ts, value)
            del self.data_in_memory[:index]
            break
    else:
        for key, value in self.data_in_memory:
            self.db_storage.put(key, value)
        self.data_in_memory = []
#@ satella.coding.structures.SyncableDroppable keep=get_archive
def get_archive(self, start, stop):
    if self.data_in_memory and self.first_key_in_memory <= start:
        for key, value in self.data_in_memory:
            if key < start:
                continue
            if key > stop:
                return
            yield (key, value)
    else:
        it = self.db_storage.iterate(start)
        try:
            for key, value in it:
                if key < start:
                    continue
                if key > stop:
                    return
                yield (key, value)
            if self.data_in_memory:
                yield from self.get_archive(self.first_key_in_memory, stop)
        finally:
            try_close(it)
#@ satella.coding.structures.SyncableDroppable
def on_sync_request(self, maximum_entries=math.inf):
    if self.start_entry is None:
        raise ValueError()
    if self.synced_up_to == self.stop_entry:
        raise ValueError()
    if self.synced_up_to is None:
        iterator = self.db_storage.iterate(None)
        try:
            data = list(iterator)
            if len(data) < maximum_entries:
                entries_left = maximum_entries - len(data)
                if entries_left == math.inf:
                    data = itertools.chain(data, self.data_in_memory[:])
                else:
                    data = itertools.chain(data, self.data_in_memory[:entries_left])
            else:
                data = data[:maximum_entries]
            return data
        finally:
            try_close(iterator)
    if self.data_in_memory and self.first_key_in_memory <= self.synced_up_to:
        if self.synced_up_to is None:
            return self.data_in_memory
        index = bisect.bisect_right([y[0] for y in self.data_in_memory], self.synced_up_to)
        if maximum_entries == math.inf:
            return self.data_in_memory[index:]
        return self.data_in_memory[index:index + maximum_entries]
    data = []
    iterator = self.db_storage.iterate(self.synced_up_to)
    try:
        for source in (iterator, self.data_in_memory):
            for tpl in source:
                if len(data) >= maximum_entries:
                    return data
                if tpl[0] > self.synced_up_to:
                    data.append(tpl)
        return data
    finally:
        try_close(iterator)
def cleanup_keep_in_db(self):
    if self.start_entry is None or not self.data_in_memory:
        return
    cutoff_span = self.stop_entry - self.span_to_keep_in_db
    if self.start_entry == self.first_key_in_memory:
        self.data_in_memory = [tpl for tpl in self.data_in_memory if tpl[0] >= cutoff_span]
        if self.data_in_memory:
            self.start_entry = self.first_key_in_memory
        else:
            self.start_entry = self.stop_entry = None
    else:
        if not self._cleanup_the_db():
            return
        self.cleanup_keep_in_db()
#@ satella.coding.structures.SyncableDroppable keep=cleanup_keep_in_db
def _cleanup_the_db(self):
    if self.start_entry is None:
        return False
    cutoff_span = self.stop_entry - self.span_to_keep_in_db
    iterator = self.db_storage.iterate(self.start_entry)
    try:
        for key, value in iterator:
            if key < cutoff_span:
                self.db_storage.delete(key)
            else:
                self.start_entry = key
                break
        else:
            if self.data_in_memory:
                self.start_entry = self.data_in_memory[0][0]
                self.db_storage.on_change_start_entry(self.start_entry)
            else:
                self.start_entry = self.stop_entry = None
            return True
    finally:
        try_close(iterator)
    return False
'''


def series_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), SERIES)


EXCEPTIONS = '''
#@ satella.exceptions.CustomException
def __init__(self, *args, **kwargs):
    self.args = args
    self.kwargs = kwargs
def __str__(self):
    a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
    try:
        if self.kwargs:
            a += ', ' + ', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])), self.kwargs.items()))
    except AttributeError:
        pass
    a += ')'
    return a
def __repr__(self):
    a = '%s%s(%s' % (self.__class__.__module__ + '.' if self.__class__.__module__ != 'builtins' else '', self.__class__.__qualname__, ', '.join(map(repr, self.args)))
    try:
        if self.kwargs:
            a += ', ' + ', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])), self.kwargs.items()))
    except AttributeError:
        pass
    a += ')'
    return a
#@ satella.exceptions.CodedCustomException
def __init__(self, message='', code=None, *args, **kwargs):
    super().__init__(message, code, *args, **kwargs)
    self.message = message
    if code is not None:
        self.code = code
#@ satella.exceptions.CodedCustomExceptionMetaclass
def __instancecheck__(cls, instance):
    if super().__instancecheck__(instance):
        return True
    if cls is CodedCustomException:
        return super().__instancecheck__(instance)
    class_base = (cls,)
    while CodedCustomException not in get_base_of_bases(class_base) and class_base:
        class_base = get_base_of_bases(class_base)
    inst_base = (instance.__class__,)
    while CodedCustomException not in get_base_of_bases(inst_base) and inst_base:
        inst_base = get_base_of_bases(inst_base)
    if len(set(class_base).intersection(set(inst_base))) == 0:
        return False
    try:
        a = cls.code == instance.code
    except AttributeError:
        a = super().__instancecheck__(instance)
    return a
#@ satella.exceptions.ProcessFailed
def __init__(self, rc, stdout_so_far):
    super().__init__(rc, stdout_so_far)
    self.rc = rc
    self.stdout_so_far = stdout_so_far
def __str__(self):
    return 'ProcessFailed(%s)' % (self.rc,)
#@ satella.exceptions.ConfigurationValidationError
def __init__(self, msg, value=None, **kwargs):
    super().__init__(msg, value, **kwargs)
    self.value = value
#@ satella.exceptions.MetricAlreadyExists
def __init__(self, msg, name, requested_type, existing_type):
    super().__init__(msg)
    self.name = name
    self.requested_type = requested_type
    self.existing_type = existing_type
#@ satella.exceptions
def get_base_of_bases(classes):
    class_bases = ()
    for class_ in classes:
        class_bases += class_.__bases__
    return class_bases
'''

ANCESTORS = '''CustomException: builtins.Exception
CodedCustomException: CustomException
BaseSatellaError: CustomException
ResourceLockingError: BaseSatellaError
ResourceLocked: ResourceLockingError
ResourceNotLocked: ResourceLockingError
WouldWaitMore: ResourceLockingError builtins.TimeoutError
PreconditionError: BaseSatellaError builtins.ValueError
Empty: BaseSatellaError queue.Empty
ConfigurationError: BaseSatellaError builtins.ValueError
ConfigurationSchemaError: ConfigurationError
ConfigurationMisconfiguredError: ConfigurationError
ConfigurationValidationError: ConfigurationSchemaError
MetricAlreadyExists: BaseSatellaError
AlreadyAllocated: ResourceLocked
ProcessFailed: BaseSatellaError builtins.OSError
NotEnoughBytes: BaseSatellaError'''


def ancestors(ctx):
    r = ctx.rule('exception-ancestors', 'an exception class can be caught by each of the classes it is documented to be a kind of')
    for line in ANCESTORS.splitlines():
        n, bases = line.split(': ')
        with ctx.item(r, n):
            c = ctx.p.cls('satella.exceptions.' + n)
            have = {getattr(k, 'fq', k) for k in c.mro()}
            for b in bases.split():
                fq = b if '.' in b else 'satella.exceptions.' + b
                ctx.check(fq in have, r, '%s is a %s' % (n, b), '%s is no longer a %s' % (n, b), where=c.module.relpath + ':' + n, line=c.node.lineno)
    with ctx.item(r, 'ImpossibleError'):
        c = ctx.p.cls('satella.exceptions.ImpossibleError')
        have = {getattr(k, 'fq', k) for k in c.mro()}
        ctx.check('builtins.BaseException' in have and 'builtins.Exception' not in have, r, 'ImpossibleError is not an Exception',
                  'ImpossibleError is caught by except Exception', where=c.module.relpath + ':ImpossibleError', line=c.node.lineno)


def exception_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), EXCEPTIONS)


AUTOFLUSH = '''
#@ satella.files.AutoflushFile
def _open_file(self):
    file = self._get_file()
    if file is None:
        file = open(*self.con_args, **self.con_kwargs)
        if self.pointer is not None:
            file.seek(self.pointer)
        ptr = file.tell()
        self.__dict__['_Proxy__obj'] = file
        self.__dict__['pointer'] = ptr
    return file
def _close_file(self):
    file = self._get_file()
    if file is not None:
        ptr = file.tell()
        self.__dict__['pointer'] = ptr
        file.close()
        self.__dict__['_Proxy__obj'] = None
#@ satella.files.AutoflushFile keep=_open_file,_close_file
def __init__(self, file, mode, *con_args, **con_kwargs):
    self.__dict__['con_kwargs'] = con_kwargs
    self.__dict__['pointer'] = None
    self.__dict__['closed'] = False
    if mode in ('w', 'w+', 'wb+', 'wb'):
        fle = open(file, 'wb')
        fle.truncate(0)
        fle.close()
    with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
        mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab', 'a+': 'a+', 'ab+': 'ab+'}[mode]
    self.__dict__['con_args'] = (file, mode, *con_args)
    fle = self._open_file()
    super().__init__(fle)
    self.__dict__['pointer'] = fle.tell()
    self._close_file()
def seek(self, offset, whence=os.SEEK_SET):
    if self.__dict__['closed']:
        raise ValueError()
    try:
        fle = self._open_file()
        v = fle.seek(offset, whence)
        self.__dict__['pointer'] = fle.tell()
        return v
    finally:
        self._close_file()
def read(self, *args, **kwargs):
    if self.__dict__['closed']:
        raise ValueError()
    try:
        fle = self._open_file()
        p = fle.read(*args, **kwargs)
        self.__dict__['pointer'] = fle.tell()
        return p
    finally:
        self._close_file()
def readall(self):
    if self.__dict__['closed']:
        raise ValueError()
    try:
        fle = self._open_file()
        return fle.read()
    finally:
        self._close_file()
def close(self):
    if self.__dict__['closed']:
        raise ValueError()
    try:
        self.__dict__['closed'] = True
    finally:
        self._close_file()
def write(self, *args, **kwargs):
    if self.__dict__['closed']:
        raise ValueError()
    try:
        fle = self._open_file()
        val = fle.write(*args, **kwargs)
        self.__dict__['pointer'] = fle.tell()
        return val
    finally:
        self._close_file()
def truncate(self, _size=None):
    if self.__dict__['closed']:
        raise ValueError()
    try:
        fle = self._open_file()
        v = fle.truncate(_size)
        self.__dict__['pointer'] = fle.tell()
        return v
    finally:
        self._close_file()
'''


def autoflush_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), AUTOFLUSH)


def guarded(*names):
    """the lock discipline of the objects the property is about"""
    def lock_discipline(ctx):
        guarded_state(ctx, only=[K + n for n in names])
    return lock_discipline


def waking(*names):
    def wake_ups(ctx):
        no_lost_wakeup(ctx, only=[K + n for n in names])
        wakeups(ctx, only=[K + n for n in names])
    return wake_ups


EXTRA = {'R02': [connection_limit, guarded('resources.CPManager')],
         'C10': [guarded('concurrent.SequentialIssuer', 'concurrent.IDAllocator')],
         'C11': [guarded('concurrent.PeekableQueue', 'structures.Subqueue'), waking('concurrent.PeekableQueue')],
         'D08': [guarded('concurrent.AtomicNumber'), waking('concurrent.AtomicNumber')],
         'D05': [guarded('structures.ExclusiveWritebackCache')],
         'D03': [guarded('structures.ExpiringEntryDict', 'structures.SelfCleaningDefaultDict')]}
PROPS = {
    'D16': prop(
        'A tainted value infects whatever is computed from it',
        'Within a TaintingEnvironment, taint(v) wraps v (a value that is tainted already is left as it is) and the elements of a list, the values '
        'of a mapping and the attributes of an object with it; every operator, comparison, call, attribute, item and iteration of a tainted object '
        'does the same operation on the value it wraps, with the other operand taken out of its taint and operands in the right order, and '
        'returns a tainted result; conversions (str, repr, int, float, bool, len, hash, dir) give what the value gives; assigned items and '
        'attributes arrive in the value, tainted, and access_tainted gives the value back. One thread has at most one environment at a time '
        '(RuntimeError for a second one, or for tainting without any) and leaving the block always ends it.',
        (['inputs'], 'every value, operator and operand, tainted or not'),
        'A taint that gets lost in one operator shows only for programs that happen to use it; the tests add three numbers.',
        ['satella/debug/tainting/'],
        [('operators', 'tainteds.TaintedObject'), ('environment', 'environment.TaintingEnvironment')],
        [taint_tables]),
    'D17': prop(
        'A synced time series keeps every entry once and serves it from where it is',
        'SyncableDroppable takes keys in increasing order only, keeps each entry either in memory or in the DB, moves entries to the DB '
        'oldest first when they leave the span kept in memory, deletes only entries older than the span kept in the DB, and reports every new '
        'start, stop and sync mark to the DB storage. get_archive yields each entry between start and stop once and in order, wherever it is; '
        'on_sync_request returns the oldest entries after the sync mark, at most maximum_entries, and raises ValueError only when there are '
        'none. Iterators obtained from the DB are always closed.',
        (['inputs', 'histories'], 'every sequence of operations, with any part of the series in memory'),
        'What is served depends on where memory ends and the DB begins; the tests walk one series through one history.',
        ['satella/coding/structures/syncable_droppable.py'],
        [('entries in memory, then in the DB', 'SyncableDroppable'), ('storage hook', 'DBStorage')],
        [series_tables, guarded('structures.SyncableDroppable')]),
    'E10': prop(
        'Exceptions are caught by every base they have, and show what they carry',
        'Each exception of satella.exceptions is an instance of all its documented bases, built-in ones included (WouldWaitMore of TimeoutError, '
        'Empty of queue.Empty, PreconditionError and ConfigurationError of ValueError, ProcessFailed of OSError), and ImpossibleError of none '
        'below BaseException. str and repr of a CustomException name its class, each positional and each keyword argument; an instance of a '
        'CodedCustomException is, besides its bases, an instance of each coded exception with the same code and the same topmost base, and of no other.',
        (['inputs'], 'every class, and every list of arguments'),
        'Handlers are written against the bases, far from where the exception is raised, and messages are built while another failure is being handled.',
        ['satella/exceptions.py'],
        [('bases of the exceptions', 'satella/exceptions.py'), ('instance check by code', 'CodedCustomExceptionMetaclass')],
        [exception_tables, ancestors]),
    'J08': prop(
        'An autoflushed file is closed between operations and keeps its place',
        'AutoflushFile opens its file for one operation at a time and closes it on every way out, so that what was written is on disk when write '
        'returns; the modes that start with w empty the file once, when the object is made, and never again. Each operation starts where the last one ended, writes '
        'always append, all documented modes are accepted and others raise ValueError, and after close() every operation raises ValueError.',
        (['inputs', 'histories', 'fault_sequences'], 'every mode, every sequence of operations, any of them failing'),
        'A file left open or truncated again shows only after particular sequences, or to another process.',
        ['satella/files.py'],
        [('reopened for each operation', 'AutoflushFile._open_file'), ('closed after each operation', 'close_file_after')],
        [autoflush_tables]),
}
