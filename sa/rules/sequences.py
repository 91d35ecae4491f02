"""D11, D13: iterator utilities and deleters."""
import ast

from ..q import *
from ..model import models
from ..core import Undecided
from .conc_futures import TABLE, TABLE_TEXT
from .structures import prop

ITER = '''
#@ satella.coding.sequences.iterators exc=1
def try_close(iterator):
    try:
        iterator.close()
    except AttributeError:
        pass
def length(iterator):
    i = 0
    for _ in iterator:
        i += 1
    return i
def f_range(*args):
    len_args = len(args)
    if len_args == 1:
        start, step = (0, 1)
        stop = args[0]
    elif len_args == 2:
        start, stop = args
        step = 1
    elif len_args == 3:
        start, stop, step = args
    else:
        raise TypeError('Invalid number of arguments')

    def iterate(f_start, f_stop, f_step):
        if f_step > 0:
            while f_start < f_stop:
                yield f_start
                f_start += f_step
        else:
            while f_start > f_stop:
                yield f_start
                f_start += f_step
    return iterate(start, stop, step)
def append_sequence(seq, *elems_to_append):
    for tpl in seq:
        if not isinstance(tpl, tuple):
            tpl = tuple(tpl)
        yield (tpl + elems_to_append)
def unique(lst):
    already_seen = set()
    for elem in lst:
        if elem not in already_seen:
            already_seen.add(elem)
            yield elem
def count(sq, start=None, step=1, start_at=None):
    if start_at:
        warnings.warn('This is deprecated and will be removed in Satella 3.0. Use start instead.', DeprecationWarning)
        start = start_at
    num = start or 0
    for _ in sq:
        yield num
        num += step
def iter_dict_of_list(dct):
    for key, items in dct.items():
        for item in items:
            yield (key, item)
@for_argument(iter)
@silence_excs(StopIteration)
def skip_first(iterator, n):
    warnings.warn('This is deprecated and will be removed in Satella 3.0. Please use itertools.islice instead', DeprecationWarning)
    for i in range(n):
        try:
            next(iterator)
        except StopIteration:
            return
    yield from iterator
@silence_excs(StopIteration)
@for_argument(iter)
def stop_after(iterator, n):
    warnings.warn('This is deprecated and will be removed in Satella 3.0. Please use itertools.islice instead', DeprecationWarning)
    for i in range(n):
        try:
            item = next(iterator)
        except StopIteration:
            return
        yield item
@for_argument(iter)
def n_th(iterator, n=0):
    try:
        for i in range(n):
            next(iterator)
        return next(iterator)
    except (StopIteration, GeneratorExit):
        raise IndexError('Iterable was too short')
@silence_excs(StopIteration, returns=True)
def is_empty(iterable, exhaust=True):
    iterator = iter(iterable)
    if exhaust:
        i = 0
        for _ in iterator:
            i += 1
        return i == 0
    else:
        next(iterator)
        return False
def map_list(fun, iterable):
    return list(map(fun, iterable))
def smart_zip(*iterators):
    warnings.warn('Use the for (a, b), c syntax instead', PendingDeprecationWarning)
    for row in zip(*iterators):
        a = []
        for elem in row:
            if isinstance(elem, tuple):
                a.extend(elem)
            else:
                a.append(elem)
        yield tuple(a)
def enumerate2(iterable, start=0, step=1):
    v = start
    for item in iterable:
        yield (v, item)
        v += step
def smart_enumerate(iterator, start=0, step=1):
    i = start
    for row in iterator:
        if isinstance(row, tuple):
            yield ((i,) + row)
        else:
            yield ((i,) + tuple(row))
        i += step
@for_argument(iter)
def take_n(iterator, n, skip=0):
    output = []
    for i in range(skip):
        try:
            next(iterator)
        except StopIteration:
            return output
    for i in range(n):
        try:
            output.append(next(iterator))
        except StopIteration:
            return output
    return output
def walk(obj, child_getter=list, deep_first=True, leaves_only=False):
    a = ConstruableIterator(child_getter(obj))
    for o in a:
        children = child_getter(o)
        if children is not None:
            try:
                child_len = len(children)
            except TypeError:
                child_len = 0
            if child_len:
                if deep_first:
                    a.add_many_immediate(children)
                else:
                    a.add_many(children)
                if leaves_only:
                    continue
        yield o
#@ satella.coding.sequences.iterators exc=1 keep=take_n,other_sequence_no_longer_than
def shift(iterable_, shift_factor):
    if shift_factor >= 0:
        iterator = iter(iterable_)
        elements = []
        for i in range(shift_factor):
            elements.append(next(iterator))
        return itertools.chain(iterator, elements)
    elif hasattr(iterable_, '__reversed__'):
        elements = take_n(reversed(iterable_), -shift_factor)
        elements = reversed(elements)
        return other_sequence_no_longer_than(iterable_, itertools.chain(elements, iterable_))
    else:
        iterator = list(iterable_)
        iterator = iterator[shift_factor:] + iterator[:shift_factor]
        return iterator
#@ satella.coding.sequences.iterators exc=1 keep=shift
import warnings
@silence_excs(StopIteration)
def zip_shifted(*args):
    warnings.warn('This is deprecated and will be removed in Satella 3.0. Use zip(shift(...)) instead!', DeprecationWarning)
    iterators = []
    for row in args:
        if not isinstance(row, tuple):
            iterators.append(row)
        else:
            iterable, shift_factor = row
            iterators.append(shift(iterable, shift_factor))
    return zip(*iterators)
#@ satella.coding.sequences.iterators closures=1
def is_instance(classes):

    def inner(object_):
        return isinstance(object_, classes)
    inner.__doc__ = 'Return a bool telling if object is of type %s' % (repr(classes),)
    return inner
def to_iterator(fun):

    @wraps(fun)
    def inner(iterable):
        for item in iterable:
            yield fun(item)
    return inner
#@ satella.coding.sequences.iterators exc=1 cut=1
def iterate_callable(clbl, start_from=0, exc_classes=(IndexError, ValueError)):
    for i in itertools.count(start_from):
        try:
            yield clbl(i)
        except exc_classes:
            return
@for_argument(iter)
def even(sq):
    while True:
        try:
            yield next(sq)
            next(sq)
        except StopIteration:
            return
@silence_excs(StopIteration)
@for_argument(iter)
def odd(sq):
    while True:
        try:
            next(sq)
            yield next(sq)
        except StopIteration:
            return
@for_argument(iter, iter)
def other_sequence_no_longer_than(base_sequence, other_sequence):
    while True:
        try:
            next(base_sequence)
            yield next(other_sequence)
        except StopIteration:
            return
import warnings
def infinite_counter(start_at=0, step=1):
    warnings.warn('This is deprecated and will be removed in Satella 3.0, use itertools.count() instead', DeprecationWarning)
    i = start_at
    while True:
        yield i
        i += step
#@ satella.coding.sequences.iterators.ConstruableIterator
def add_immediate(self, t):
    self.entries.appendleft(t)
def add_many_immediate(self, t):
    for i, entry in enumerate(t):
        self.entries.insert(i, entry)
def add(self, t):
    self.entries.append(t)
def add_many(self, t):
    self.entries.extend(t)
def __iter__(self):
    return self
@rethrow_as(IndexError, StopIteration)
def __next__(self):
    return self.entries.popleft()
def __length_hint__(self):
    return len(self.entries)
#@ satella.coding.sequences.iterators.AlreadySeen exc=1
def __init__(self):
    self.set = None
def is_unique(self, key):
    try:
        hash(key)
        if self.set is None:
            self.set = set()
    except TypeError:
        warnings.warn('Passed argument is not hashable, you pay with O(n^2) complexity!', RuntimeWarning)
        self.set = list(self.set or ())
    if key in self.set:
        return False
    if isinstance(self.set, list):
        self.set.append(key)
    else:
        self.set.add(key)
    return True
#@ satella.coding.sequences.iterators.ListWrapperIterator exc=1 keep=exhaust,advance_to_item
def __init__(self, iterator):
    self.iterator = iterator if isinstance(iterator, tp.Iterator) else iter(iterator)
    self.exhausted = False
    self.list = []
    self.internal_pointer = 0
def __len__(self):
    self.exhaust()
    return len(self.list)
def __getitem__(self, item):
    if isinstance(item, int):
        if item < 0:
            self.exhaust()
        elif len(self.list) < item + 1:
            self.advance_to_item(item + 1)
    elif item.stop is None or item.stop < 0 or (item.start or 0) < 0:
        self.exhaust()
    else:
        self.advance_to_item(item.stop)
    return self.list[item]
def __next__(self):
    if self.internal_pointer == len(self.list) and self.exhausted:
        raise StopIteration()
    if len(self.list) > self.internal_pointer:
        in_ptr = self.internal_pointer
        elem = self.list[in_ptr]
        self.internal_pointer += 1
        return elem
    try:
        item = next(self.iterator)
        self.list.append(item)
        self.internal_pointer += 1
        return item
    except StopIteration:
        self.exhausted = True
        raise
#@ satella.coding.sequences.iterators.ListWrapperIterator exc=1
def exhaust(self):
    if self.exhausted:
        return
    for elem in self.iterator:
        self.list.append(elem)
    self.exhausted = True
def advance_to_item(self, i):
    if self.exhausted:
        return
    while len(self.list) < i:
        try:
            item = next(self.iterator)
            self.list.append(item)
        except StopIteration:
            self.exhausted = True
            break
#@ satella.coding.sequences.iterators.IteratorListAdapter exc=1
def __init__(self, iterator):
    warnings.warn('Use ListWrapperIterator instead', DeprecationWarning)
    self.iterator = iter(iterator)
    self.list = None
    self.unfolded = False
    self.pointer = 0
def __iter__(self):
    if self.unfolded:
        return iter(self.list)
    else:
        return self
@rethrow_as(IndexError, StopIteration)
def __next__(self):
    if self.unfolded:
        self.pointer += 1
        return self.list[self.pointer - 1]
    else:
        return next(self.iterator)
def __getitem__(self, item):
    self.__unfold()
    return self.list[item]
def __contains__(self, item):
    self.__unfold()
    return item in self.list
def __len__(self):
    self.__unfold()
    return len(self.list)
'''

SEQS = '''
#@ satella.coding.sequences.sequences exc=1 cut=1
def infinite_iterator(returns=None, return_factory=None):
    while True:
        if returns is None:
            yield (None if return_factory is None else return_factory())
        else:
            yield returns
#@ satella.coding.sequences.sequences exc=1
def make_list(element, n, deep_copy=False):
    output = []
    if deep_copy:
        copy_op = copy.deepcopy
    else:
        copy_op = copy.copy
    for _ in range(n):
        output.append(copy_op(element))
    return output
def is_last(lst):
    iterable = iter(lst)
    try:
        ret_var = next(iterable)
    except StopIteration:
        return
    for val in iterable:
        yield (False, ret_var)
        ret_var = val
    yield (True, ret_var)
def add_next(lst, wrap_over=False, skip_last=False):
    iterator = iter(lst)
    try:
        first_val = prev_val = next(iterator)
    except StopIteration:
        return
    for val in iterator:
        yield (prev_val, val)
        prev_val = val
    if wrap_over:
        yield (prev_val, first_val)
    elif not skip_last:
        yield (prev_val, None)
def half_cartesian(seq, include_same_pairs=True):
    for i, elem1 in enumerate(seq):
        for j, elem2 in enumerate(seq):
            if include_same_pairs:
                if j >= i:
                    yield (elem1, elem2)
            elif j > i:
                yield (elem1, elem2)
def group_quantity(length, seq):
    if isinstance(seq, tp.Sequence) and (not isinstance(seq, range)):
        i = 0
        while i < len(seq):
            yield seq[i:i + length]
            i += length
    else:
        entries = []
        for elem in seq:
            if len(entries) == length:
                yield entries
                entries = [elem]
            else:
                entries.append(elem)
        if entries:
            yield entries
def filter_out_nones(y):
    output = []
    for item in y:
        if item is not None:
            output.append(item)
    return output
def filter_out_false(y):
    output = []
    for item in y:
        if item:
            output.append(item)
    return output
@rethrow_as(IndexError, ValueError)
def index_of_max(seq):
    max_index = 0
    max_elem = seq[0]
    for i, elem in enumerate(seq):
        if elem > max_elem:
            max_index = i
            max_elem = elem
    return max_index
def index_of(predicate, seq):
    i = 0
    for elem in seq:
        if predicate(elem):
            return i
        i += 1
    raise ValueError('Element not found')
#@ satella.coding.sequences.sequences.Multirun
def __bool__(self):
    return bool(self.sequence)
def __iter__(self):
    return iter(self.sequence)
def __iadd__(self, other):
    for element in self:
        element += other
    return self
def __isub__(self, other):
    for element in self:
        element -= other
    return self
def __imul__(self, other):
    for element in self:
        element *= other
    return self
def __itruediv__(self, other):
    for element in self:
        element /= other
    return self
def __ifloordiv__(self, other):
    for element in self:
        element //= other
    return self
def __ilshift__(self, other):
    for element in self:
        element <<= other
    return self
def __irshift__(self, other):
    for element in self:
        element >>= other
    return self
def __ipow__(self, other):
    for element in self:
        element **= other
    return self
#@ satella.coding.sequences.sequences.Multirun closures=1 exc=1
def __getattr__(self, item):

    def inner(*args, **kwargs):
        if not self.dont_return_list:
            results = []
            for element in self:
                getattr(element, item)(*args, **kwargs)
                results.append(element)
            return results
        else:
            for element in self:
                getattr(element, item)(*args, **kwargs)
    try:
        fun = getattr(n_th(self), item)
        inner = wraps(fun)(inner)
    except IndexError:
        pass
    return inner
#@ satella.coding.sequences.choose exc=1
def choose_one(filter_fun, iterable):
    return choose(filter_fun, iterable, True)
def choose_with_index(filter_fun, iterable):
    for i, item in enumerate(iterable):
        if filter_fun(item):
            return (item, i)
    raise ValueError('No elements matching given filter seen')
def choose(filter_fun, iterable, check_multiple=False):
    elem_candidate = None
    found = False
    for elem in iterable:
        if filter_fun(elem):
            if not check_multiple:
                return elem
            if found:
                raise ValueError('Multiple values (%s, %s) seen' % (repr(elem_candidate), repr(elem)))
            elem_candidate = elem
            found = True
    if not found:
        raise ValueError('No elements matching given filter seen')
    return elem_candidate
#@ satella.coding.sequences.average.RollingArithmeticAverage
def __init__(self, n=100):
    self.n = n
    self.queue = collections.deque()
    self.tot_sum = 0
def insert(self, x):
    if len(self.queue) >= self.n:
        prev_entry = self.queue.popleft()
        self.tot_sum -= prev_entry
    self.queue.append(x)
    self.tot_sum += x
def avg(self):
    return self.tot_sum / len(self.queue)
def clear(self):
    self.queue.clear()
    self.tot_sum = 0
'''

GENS = '''
#@ satella.coding.iterators exc=1 cut=1
def chain(*args):
    for elem in args:
        try:
            iterator = iter(elem)
        except TypeError:
            yield elem
        else:
            yield from iterator
def exhaust(iterator):
    try:
        while True:
            next(iterator)
    except StopIteration:
        pass
#@ satella.coding.iterators.SelfClosingGenerator exc=1
def __init__(self, generator):
    self.generator = generator
    self.stopped = False
def __iter__(self):
    return self
def __call__(self, *args, **kwargs):
    return SelfClosingGenerator(self.generator(*args, **kwargs))
def send(self, obj):
    return self.generator.send(obj)
def __next__(self):
    try:
        return next(self.generator)
    except StopIteration:
        self.stopped = True
        raise
def __enter__(self):
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    self.close()
    return False
def close(self):
    if not self.stopped:
        with silence_excs(TypeError):
            exhaust(self.generator)
        self.stopped = True
def __del__(self):
    self.close()
#@ satella.coding.iterators.hint_with_length
def __init__(self, generator, length, length_factory=None):
    self.generator = generator
    if length is None and length_factory is None:
        raise ValueError('Give either length or length_factory')
    elif length is not None and length_factory is not None:
        raise ValueError('Give either length or length_factory')
    self.length = length
    self.length_factory = length_factory
def __call__(self, *args, **kwargs):
    return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
def close(self):
    return self.generator.close()
def send(self, obj):
    return self.generator.send(obj)
def __iter__(self):
    return self.generator
def __next__(self):
    return next(self.generator)
def __length_hint__(self):
    if self.length is None:
        return self.length_factory()
    else:
        return self.length
#@ satella.coding.generators.RunActionAfterGeneratorCompletes exc=1
def __init__(self, generator, *args, **kwargs):
    self.closed = False
    self.generator = generator
    self.args = args
    self.kwargs = kwargs
def close(self):
    self.closed = True
    self.generator.close()
def send(self, value):
    return self._run(self.generator.send, value)
def next(self):
    return self.__next__()
def __iter__(self):
    return self
def throw(self, __typ, __val=None, __tb=None):
    return self._run(self.generator.throw, __typ, __val, __tb)
def __next__(self):
    return self._run(self.generator.__next__)
'''

DELETERS = '''
#@ satella.coding.deleters.DictDeleter
def __init__(self, dict_to_process):
    self.dict_to_process = dict_to_process
    self.iter_mode = ITER_KEYS
def __enter__(self):
    self.keys_to_delete = set()
    return self
def __iter__(self):
    self.current_iterator = iter(self.dict_to_process.items())
    return self
def __next__(self):
    key, value = next(self.current_iterator)
    self.current_key = key
    if self.iter_mode == ITER_ITEMS:
        return (key, value)
    elif self.iter_mode == ITER_VALUES:
        return value
    elif self.iter_mode == ITER_KEYS:
        return key
def items(self):
    self.iter_mode = ITER_ITEMS
    return self
def keys(self):
    self.iter_mode = ITER_KEYS
    return self
def values(self):
    self.iter_mode = ITER_VALUES
    return self
def delete(self):
    self.keys_to_delete.add(self.current_key)
#@ satella.coding.deleters.ListDeleter exc=1
def __init__(self, list_to_process, direction=DIR_FORWARD):
    self.list_to_process = list_to_process
    self.direction = direction
    self.current_index = -1 if direction == DIR_FORWARD else len(self.list_to_process)
    self.indices_to_delete = set()
    self.removed = False
def __enter__(self):
    return self
def __call__(self):
    return self.list_to_process[self.current_index]
def __iter__(self):
    self.current_index = -1 if self.direction == DIR_FORWARD else len(self.list_to_process)
    self.indices_to_delete = set()
    self.removed = False
    return self
def __next__(self):
    if self.direction == DIR_BACKWARD and self.current_index == -1:
        raise StopIteration('First element reached')
    if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
        raise StopIteration('Last element reached')
    self.current_index += +1 if self.direction == DIR_FORWARD else -1
    if self.current_index < 0:
        raise StopIteration('Before the first element')
    try:
        return self.list_to_process[self.current_index]
    except IndexError:
        raise StopIteration()
def next(self):
    return next(self)
def prev(self):
    if self.direction == DIR_FORWARD and self.current_index == -1:
        raise StopIteration('Cannot go previous on a first element!')
    if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
        raise StopIteration('Cannot go previous on a last element!')
    self.current_index += -1 if self.direction == DIR_FORWARD else +1
    if self.current_index < 0:
        raise StopIteration('Before the first element')
    try:
        return self.list_to_process[self.current_index]
    except IndexError:
        raise StopIteration()
def delete(self):
    self.indices_to_delete.add(self.current_index)
def __reversed__(self):
    if self.direction == DIR_BACKWARD:
        return ListDeleter(self.list_to_process)
    else:
        return ListDeleter(self.list_to_process, DIR_BACKWARD)
def remove_items(self):
    if not self.removed:
        index_delta = 0
        for index, element in enumerate(self.list_to_process[:]):
            if index in self.indices_to_delete:
                self.list_to_process.pop(index - index_delta)
                index_delta += 1
        self.removed = True
def __exit__(self, exc_type, exc_val, exc_tb):
    self.remove_items()
    return False
'''

COMPARE = '''
#@ satella.coding.deep_compare exc=1
def assert_equal(a, b):
    if isinstance(a, (int, float, str, bytes, bytearray, type(None))):
        if a != b:
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
        return
    elif isinstance(a, (set, frozenset)):
        if not isinstance(b, (set, frozenset)):
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
        if len(a) != len(b):
            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
        if a != b:
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
    elif isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)):
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
        if len(a) != len(b):
            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
        for c, d in zip(a, b):
            assert_equal(c, d)
    elif isinstance(a, dict):
        if not isinstance(b, dict):
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
        if len(a) != len(b):
            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
        for key in a.keys():
            if key not in b:
                raise Inequal(key, None, InequalityReason.KEY_NOT_FOUND)
            assert_equal(a[key], b[key])
    else:
        try:
            if a == b:
                return
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
        except TypeError:
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
#@ satella.coding.algos exc=1
def merge_dicts(v1, v2):
    if isinstance(v1, dict) and isinstance(v2, dict):
        for k in v2.keys():
            try:
                v1[k] = merge_dicts(v1[k], v2[k])
            except KeyError:
                v1[k] = v2[k]
        return v1
    if isinstance(v1, list) and isinstance(v2, list):
        v1.extend(v2)
        return v1
    return v2
'''

OPTIONAL = '''
#@ satella.coding.optionals.Optional
def __contains__(self, item):
    me = getattr(self, '_Proxy__obj')
    if me is None:
        return False
    return item in me
def __eq__(self, other):
    me = getattr(self, '_Proxy__obj')
    if me is None:
        return False
    return other == me
def __getattr__(self, item):
    obj = getattr(self, '_Proxy__obj')
    return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
def __call__(self, *args, **kwargs):
    obj = getattr(self, '_Proxy__obj')
    return EMPTY_OPTIONAL if obj is None else obj(*args, **kwargs)
def __bool__(self):
    obj = getattr(self, '_Proxy__obj')
    return False if obj is None else bool(obj)
def __getitem__(self, item):
    obj = getattr(self, '_Proxy__obj')
    return EMPTY_OPTIONAL if getattr(self, '_Proxy__obj') is None else obj[item]
def __setitem__(self, key, value):
    obj = getattr(self, '_Proxy__obj')
    if obj is not None:
        obj.__setitem__(key, value)
def __delitem__(self, key):
    obj = getattr(self, '_Proxy__obj')
    if obj is not None:
        del obj[key]
def __len__(self):
    obj = getattr(self, '_Proxy__obj')
    return 0 if obj is None else len(obj)
#@ satella.coding.optionals
def extract_optional(v):
    return getattr(v, '_Proxy__obj') if isinstance(v, Optional) else v
#@ satella.coding.expect_exception.expect_exception exc=1
def __init__(self, exc_to_except, else_raise, *args, **kwargs):
    self.exc_to_except = exc_to_except
    self.else_raise = else_raise
    self.else_raise_args = args
    self.else_raise_kwargs = kwargs
def __enter__(self):
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    if exc_type is None:
        raise self.else_raise(*self.else_raise_args, **self.else_raise_kwargs)
    elif not isinstance(exc_val, self.exc_to_except):
        return False
    return True
'''

META = '''
#@ satella.coding.metaclasses closures=1
def CopyDocsFrom(target_cls):

    def inner(name, bases, dictionary):
        if '__doc__' not in dictionary:
            if hasattr(target_cls, '__doc__'):
                if target_cls.__doc__:
                    dictionary['__doc__'] = target_cls.__doc__
        for key, value in dictionary.items():
            if not value.__doc__ and callable(value):
                if hasattr(target_cls, key):
                    if getattr(target_cls, key).__doc__:
                        value.__doc__ = getattr(target_cls, key).__doc__
                        dictionary[key] = value
        return type(name, bases, dictionary)
    return inner
def metaclass_maker_f(left_metas=(), right_metas=()):

    def make_class(name, bases, a_dict):
        metaclass = get_noconflict_metaclass(bases, left_metas, right_metas)
        return metaclass(name, bases, a_dict)
    return make_class
def wrap_with(callables=lambda x: x, properties=lambda x: x, selector_callables=lambda clb: True, selector_properties=lambda clb: True):

    @wraps(ABCMeta)
    def WrapAllMethodsWithMetaclass(name, bases, dct):
        new_dct = {}
        for key, value in dct.items():
            if not hasattr(value, '_dont_wrap'):
                if callable(value) and selector_callables(value):
                    value = callables(value)
                elif isinstance(value, property) and selector_properties(value):
                    value = properties(value)
            new_dct[key] = value
        return ABCMeta(name, bases, new_dct)
    return WrapAllMethodsWithMetaclass
def wrap_property(getter=lambda x: x, setter=lambda x: x, deleter=lambda x: x):

    def inner(prop):
        return wraps(prop)(property(getter(prop.fget), setter(prop.fset), deleter(prop.fdel)))
    return inner
#@ satella.coding.metaclasses keep=get_noconflict_metaclass,walk
def metaclass_maker(name, bases, a_dict):
    metaclass = get_noconflict_metaclass(bases, (), ())
    return metaclass(name, bases, a_dict)
def remove_redundant(metaclasses):
    skip_set = {type}
    for meta in metaclasses:
        skip_set.update(inspect.getmro(meta)[1:])
    return tuple(skip_redundant(metaclasses, skip_set))
def dont_wrap(fun):
    fun._dont_wrap = True
    return fun
#@ satella.coding.metaclasses keep=walk max_iter=1
def DocsFromParent(name, bases, dictionary):
    if '__doc__' not in dictionary:
        for base in walk(bases, _extract_bases, deep_first=False):
            if hasattr(base, '__doc__') and base.__doc__:
                dictionary['__doc__'] = base.__doc__
                break
    for key, value in dictionary.items():
        if not value.__doc__ and callable(value):
            for base in walk(bases, _extract_bases, deep_first=False):
                if hasattr(base, key) and getattr(base, key).__doc__:
                    value.__doc__ = getattr(base, key).__doc__
                    dictionary[key] = value
                    break
    return type(name, bases, dictionary)
#@ satella.coding.metaclasses keep=walk
def DocsFromParent(name, bases, dictionary):
    if '__doc__' not in dictionary:
        for base in walk(bases, _extract_bases, deep_first=False):
            if hasattr(base, '__doc__') and base.__doc__:
                dictionary['__doc__'] = base.__doc__
                break
    for key, value in dictionary.items():
        if not value.__doc__ and callable(value):
            for base in walk(bases, _extract_bases, deep_first=False):
                if hasattr(base, key) and getattr(base, key).__doc__:
                    value.__doc__ = getattr(base, key).__doc__
                    dictionary[key] = value
                    break
    return type(name, bases, dictionary)
#@ satella.coding.fun_static closures=1
def static_var(var_name, starting_value=None):

    def decorate(func):
        setattr(func, var_name, starting_value)
        return func
    return decorate
#@ satella.coding.overloading.class_or_instancemethod
def __get__(self, instance, type_):
    descr_get = super().__get__ if instance is None else self.__func__.__get__
    return descr_get(instance, type_)
'''

ENVIRON = '''
#@ satella.coding.environment.Context exc=1
def push_up(self, item, value=THEY_HATIN):
    if value is THEY_HATIN:
        var = self.variables.pop(item)
    else:
        var = value
    self.parent.variables[item] = var
def __getattr__(self, item):
    if item in self.variables:
        v = self.variables[item]
        if v is not THEY_HATIN:
            return v
        raise AttributeError()
    if self.parent is not None:
        return getattr(self.parent, item)
    raise AttributeError()
def __enter__(self):
    global local
    try:
        parent = local.thread_context
    except AttributeError:
        parent = None
    ctxt = Context(parent=parent, **self.variables)
    ctxt.parent = parent
    local.thread_context = ctxt
    return ctxt
def __setattr__(self, key, value):
    if key in ('parent', 'variables', 'bool'):
        return super().__setattr__(key, value)
    else:
        self.variables[key] = value
def __delattr__(self, item):
    self.variables[item] = THEY_HATIN
def does_exist(self, val):
    if val in self.variables:
        if self.variables[val] is THEY_HATIN:
            return False
        return True
    else:
        if self.parent is None:
            return False
        return self.parent.does_exist(val)
def __exit__(self, exc_type, exc_val, exc_tb):
    try:
        parent = local.thread_context.parent
        if parent is None:
            del local.thread_context
        else:
            local.thread_context = parent
    except AttributeError:
        pass
    return False
@staticmethod
def get():
    global local
    try:
        return local.thread_context
    except AttributeError:
        ctxt = Context()
        local.thread_context = ctxt
        return ctxt
'''


def iterator_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), ITER)


def sequence_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), SEQS)


def multirun_operators(ctx):
    rule = ctx.rule('in-place-operator', 'Each in-place operator of Multirun applies that very operator to every element')
    c = ctx.p.cls('satella.coding.sequences.sequences.Multirun')
    for name, op in (('iadd', 'Add'), ('isub', 'Sub'), ('imul', 'Mult'), ('itruediv', 'Div'), ('ifloordiv', 'FloorDiv'), ('ilshift', 'LShift'),
                     ('irshift', 'RShift'), ('ipow', 'Pow')):
        construct = c.fq + '.__%s__' % name
        with ctx.item(rule, construct):
            f = c.find_repo('__%s__' % name)
            if f is None:
                raise Undecided('no such method')
            ctx.funcs.add(f.where)
            aug = [n for n in ast.walk(f.node) if isinstance(n, ast.AugAssign)]
            if aug:
                ctx.check(all(type(n.op).__name__ == op for n in aug), rule, construct, 'applies another operator: %s' % ast.unparse(aug[0]),
                          where=f.where, line=f.node.lineno)
            elif any(isinstance(n, (ast.Call, ast.BinOp)) for n in ast.walk(f.node)):
                raise Undecided('applied by a helper')
            else:
                ctx.bad(rule, construct, 'the operator is not applied to the elements', where=f.where, line=f.node.lineno)


def generator_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), GENS)


def deleter_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), DELETERS)


def compare_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), COMPARE)


def optional_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), OPTIONAL)


def meta_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), META)


def environ_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), ENVIRON)


CO = 'satella/coding/'
SQ = CO + 'sequences/'

PROPS = {
    'D11': prop(
        'Iterator helpers deliver every element once, in order',
        'The functions of satella.coding.sequences and satella.coding.iterators (even, odd, unique, take_n, n_th, skip_first, stop_after, shift, '
        'zip_shifted, walk, chain, is_last, add_next, group_quantity, half_cartesian, choose, index_of, index_of_max, enumerate2, smart_enumerate, '
        'smart_zip, f_range, count, infinite_iterator, make_list, Multirun, RollingArithmeticAverage, ConstruableIterator, AlreadySeen and the like) '
        'yield exactly the documented elements, in order, whatever the length of the input, the empty one included; running out of input ends them '
        'and never leaks StopIteration out of a generator. ListWrapperIterator loads no more than needed and indexes like a list, '
        'and SelfClosingGenerator, hint_with_length and run_when_generator_completes pass on all values and run their action once, at completion.',
        (['inputs'], 'every input length and content'),
        'Off-by-one and exhaustion errors depend on the length of the input and on where it ends.',
        [SQ, CO + 'iterators.py', CO + 'generators.py'], [('generators over next() and StopIteration', SQ + 'iterators.py')],
        [iterator_tables, sequence_tables, generator_tables, multirun_operators]),
    'D13': prop(
        'Deleters remove exactly the marked elements',
        'A ListDeleter visits each element of the list once in its direction, next and prev stop at both ends, and on leaving the context (or '
        'remove_items) removes exactly the positions marked since the iteration began, once, keeping the others in order; a DictDeleter visits keys, values or items '
        'as asked and remembers the key that was current when delete was called.',
        (['inputs', 'histories'], 'every list and every choice of elements'),
        'Indices shift as elements go; which removal hits the wrong one depends on the positions.',
        [CO + 'deleters.py'], [('remove_items', CO + 'deleters.py')],
        [deleter_tables]),
    'D15': prop(
        'Deep comparison and merging look everywhere',
        'assert_equal returns if both values are equal, comparing lists, tuples, dicts and sets element by element at any depth, and raises Inequal '
        '(with the values and the reason) otherwise, never anything else for a difference in kind. '
        'merge_dicts merges dicts key by key at any depth, concatenates lists and otherwise takes the second value.',
        (['inputs'], 'every nested structure'),
        'Nested structures are unboundedly many.',
        [CO + 'deep_compare.py', CO + 'algos.py'], [('recursion over both values', CO + 'deep_compare.py')],
        [compare_tables]),
    'E05': prop(
        'Optional and expect_exception decide by None and by class',
        'An Optional around None answers calls, attribute and item access with an empty Optional, ignores item assignment and deletion, is false, '
        'empty and equal to and containing nothing; around anything else it forwards the operation. expect_exception raises its exception if '
        'the block raised nothing, swallows the expected ones and lets others through.',
        (['inputs', 'fault_sequences'], 'every wrapped object and exception'),
        'Falsy objects that are not None are easily confused with None.',
        [CO + 'optionals.py', CO + 'expect_exception.py'], [('comparison with None', CO + 'optionals.py')],
        [optional_tables]),
    'E06': prop(
        'Metaclass helpers treat every member',
        'CopyDocsFrom and DocsFromParent give every undocumented callable member the docs of its counterpart and leave documented ones alone; wrap_with wraps each '
        'selected callable and property once and skips those marked with dont_wrap; wrap_property wraps getter, setter and deleter each with its own wrapper; '
        'metaclass_maker builds the class with a metaclass derived from those of all bases; static_var sets the starting value; class_or_instancemethod binds to the '
        'instance if there is one and to the class otherwise.',
        (['inputs'], 'every class body'),
        'Class bodies have any number of members of any kind.',
        [CO + 'metaclasses.py', CO + 'fun_static.py', CO + 'overloading.py'], [('loops over the class dictionary', CO + 'metaclasses.py')],
        [meta_tables]),
    'E07': prop(
        'Contexts nest',
        'Variables of a Context are looked up on the innermost context that has them, assignments and deletions touch that context only (a deleted variable is hidden, '
        'not taken from the parent), push_up stores on the parent, entering a Context pushes a new layer with its variables on the stack of this thread, and leaving it, even by an '
        'exception, makes the previous layer current again.',
        (['inputs', 'histories'], 'every nesting and sequence of assignments'),
        'What is current after leaving depends on how deep the nesting was.',
        [CO + 'environment.py'], [('thread-local stack of contexts', CO + 'environment.py')],
        [environ_tables]),
}
