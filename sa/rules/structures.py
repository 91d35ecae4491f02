"""D01 - D13: data structures."""
import ast

from ..q import *
from ..model import models
from ..project import Cls, Func
from .conc_locks import ENGINE_TECH
from .conc_futures import TABLE, TABLE_TEXT, MODEL_TECH, MODEL_EXPLAIN

ST = 'satella/coding/structures/'

HEAPS = '''
#@ satella.coding.structures.Heap
import copy, heapq
def __init__(self, from_list=None):
    super().__init__(from_list)
    heapq.heapify(self.data)
def push_many(self, items):
    self.data.extend(items)
    heapq.heapify(self.data)
def pop_item(self, item):
    self.data.remove(item)
    heapq.heapify(self.data)
    return item
def push(self, item, *args):
    if args:
        item = (item, *args)
    heapq.heappush(self.data, item)
def pop(self):
    return heapq.heappop(self.data)
def filter_map(self, filter_fun=None, map_fun=None):
    heap = filter(filter_fun, self.data) if filter_fun else self.data
    heap = map(map_fun, heap) if map_fun else heap
    heap = list(heap) if not isinstance(heap, list) else heap
    self.data = heap
    heapq.heapify(heap)
def filter_map(self, filter_fun=None, map_fun=None):
    heap = filter(filter_fun, self.data) if filter_fun else self.data
    heap = map(map_fun, heap) if map_fun else heap
    self.data = list(heap)
    heapq.heapify(self.data)
def iter_ascending(self):
    heap = copy.copy(self.data)
    while heap:
        yield heapq.heappop(heap)
def __bool__(self):
    return len(self.data) > 0
def __len__(self):
    return len(self.data)
def __contains__(self, item):
    return item in self.data
#@ satella.coding.structures.TimeBasedHeap
import heapq
def put(self, timestamp_or_value, value=None):
    if value is None:
        timestamp, item = self.default_clock_source(), timestamp_or_value
    else:
        timestamp, item = timestamp_or_value, value
    assert timestamp is not None
    heapq.heappush(self.data, (timestamp, item))
def pop_timestamp(self, timestamp):
    for index, item in enumerate(self.data):
        if item[0] == timestamp:
            item = self.data.pop(index)
            heapq.heapify(self.data)
            return item[1]
    raise ValueError()
def pop_item(self, item):
    for index, elem in enumerate(self.data):
        if elem[1] == item:
            obj = self.data.pop(index)
            heapq.heapify(self.data)
            return obj
    raise ValueError()
def get_timestamp(self, item):
    for ts, elem in self.data:
        if elem == item:
            return ts
def peek_closest(self):
    return self.data[0]
def pop_less_than(self, less=None):
    if less is None:
        less = self.default_clock_source()
    assert less is not None
    while self:
        if self.data[0][0] >= less:
            return
        yield heapq.heappop(self.data)
def remove(self, item):
    self.filter_map(filter_fun=lambda i: i[1] != item)
def items(self):
    return (ob for ts, ob in self.data)
#@ satella.coding.structures.TimeBasedSetHeap
def put(self, timestamp_or_value, value=None):
    if value is None:
        timestamp, item = self.default_clock_source(), timestamp_or_value
    else:
        timestamp, item = timestamp_or_value, value
    assert timestamp is not None
    self.push((timestamp, item))
def pop_less_than(self, less=None):
    if less is None:
        less = self.default_clock_source()
    assert less is not None
    while self:
        if self.data[0][0] >= less:
            return
        yield self.pop()
def items(self):
    return (ob for ts, ob in self.data)
def remove(self, item):
    self.filter_map(filter_fun=lambda i: i[1] != item)
#@ satella.coding.structures.SortedList
import collections
def __init__(self, items=(), key=None):
    sort = sorted(((key(item), item) for item in items), key=lambda a: a[0])
    self.items = SliceableDeque(a[1] for a in sort)
    self.keys = collections.deque(a[0] for a in sort)
    self.key = key
def pop(self):
    self.keys.pop()
    return self.items.pop()
def popleft(self):
    self.keys.popleft()
    return self.items.popleft()
def index(self, other):
    return self.items.index(other)
def extend(self, elements):
    for elem in elements:
        self.add(elem)
def remove(self, other):
    index = self.items.index(other)
    del self.items[index]
    del self.keys[index]
def add(self, other):
    key_value = self.key(other)
    for index in range(len(self.keys)):
        if key_value <= self.keys[index]:
            break
    else:
        index = len(self.keys)
    self.items.insert(index, other)
    self.keys.insert(index, key_value)
    return index
def __getitem__(self, item):
    return self.items[item]
def __len__(self):
    return len(self.items)
def __iter__(self):
    return iter(self.items)
def __contains__(self, item):
    return item in self.items
#@ satella.coding.structures.SliceableDeque
def insert(self, i, item):
    self.deque.insert(i, item)
def __setitem__(self, key, value):
    self.deque[key] = value
def __delitem__(self, key):
    del self.deque[key]
def __iter__(self):
    return iter(self.deque)
def __len__(self):
    return len(self.deque)
def __reversed__(self):
    return reversed(self.deque)
def __contains__(self, item):
    return item in self.deque
'''

PAIRED = '''
#@ satella.coding.structures.SetHeap
import heapq
def __init__(self, from_list=None):
    self.set = set(() if from_list is None else from_list)
    super().__init__(from_list=self.set)
def push_many(self, items):
    for item in items:
        self.push(item)
def push(self, item):
    if item not in self.set:
        heapq.heappush(self.data, item)
        self.set.add(item)
def pop(self):
    item = heapq.heappop(self.data)
    self.set.remove(item)
    return item
def pop_item(self, item):
    self.data.remove(item)
    heapq.heapify(self.data)
    self.set.remove(item)
    return item
def __contains__(self, item):
    return item in self.set
def filter_map(self, filter_fun=None, map_fun=None):
    super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
    self.set = set(self.data)
    self.data = list(self.set)
    heapq.heapify(self.data)
#@ satella.coding.structures.TimeBasedSetHeap
import heapq
from satella.coding.recast_exceptions import rethrow_as
@rethrow_as(KeyError, ValueError)
def get_timestamp(self, item):
    return self.item_to_timestamp[item]
def get_timestamp(self, item):
    try:
        return self.item_to_timestamp[item]
    except KeyError:
        raise ValueError()
def pop_timestamp(self, timestamp):
    for index, item in enumerate(self.data):
        if item[0] == timestamp:
            obj = self.data.pop(index)
            del self.item_to_timestamp[obj[1]]
            heapq.heapify(self.data)
            return obj[1]
    raise ValueError()
def pop_item(self, item):
    for index, elem in enumerate(self.data):
        if elem[1] == item:
            obj = self.data.pop(index)
            heapq.heapify(self.data)
            del self.item_to_timestamp[obj[1]]
            return obj
    raise ValueError()
def push(self, item):
    if item[1] in self.item_to_timestamp:
        self.pop_item(item[1])
    heapq.heappush(self.data, item)
    self.item_to_timestamp[item[1]] = item[0]
def pop(self):
    item = heapq.heappop(self.data)
    del self.item_to_timestamp[item[1]]
    return item
def push_many(self, items):
    for item in items:
        self.push(item)
def filter_map(self, filter_fun=None, map_fun=None):
    super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
    self.item_to_timestamp = {item: timestamp for timestamp, item in self.data}
    self.data = [(timestamp, item) for item, timestamp in self.item_to_timestamp.items()]
    heapq.heapify(self.data)
#@ satella.coding.structures.dictionaries.objects.TwoWayDictionary
def __getitem__(self, item):
    return self.data[item]
def __len__(self):
    return len(self.data)
def __iter__(self):
    return iter(self.data)
def __setitem__(self, key, value):
    if value in self.reverse_data:
        raise ValueError()
    try:
        prev_val = self.data[key]
        del self.reverse_data[prev_val]
    except KeyError:
        pass
    self.data[key] = value
    self.reverse_data[value] = key
def __setitem__(self, key, value):
    if value in self.reverse_data:
        raise ValueError()
    if key in self.data:
        del self.reverse_data[self.data[key]]
    self.data[key] = value
    self.reverse_data[value] = key
def __delitem__(self, key):
    value = self.data[key]
    del self.data[key]
    del self.reverse_data[value]
def __delitem__(self, key):
    del self.reverse_data[self.data.pop(key)]
def reverse(self):
    return self._reverse
#@ satella.coding.structures.Ranking
def add(self, item):
    index = self.ranking.add(item)
    for position, item in enumerate(self.ranking[index:], start=index):
        self.element_to_position[id(item)] = position
def remove(self, item):
    index = self.ranking.index(item)
    item = self.ranking[index]
    self.ranking.remove(item)
    del self.element_to_position[id(item)]
    for position, item in enumerate(self.ranking[index:], start=index):
        self.element_to_position[id(item)] = position
def get_position_of(self, item):
    return self.ranking.index(item)
def __getitem__(self, item):
    return self.ranking[item]
def __init__(self, items, key):
    self.items = items
    self.key = key
    self.ranking = SortedList(items, key=key)
    self.element_to_position = {}
    for position, item in enumerate(self.ranking):
        self.element_to_position[id(item)] = position
def get_sorted(self):
    yield from self.ranking
'''



CACHE = '''
#@ satella.coding.structures.dictionaries.cache_dict
def _parse_time_string(s):
    if isinstance(s, (int, float)):
        return s
    for modifier, multiple in _TIME_MODIFIERS:
        if modifier in s:
            return float(s[:s.index(modifier)]) * multiple
    return float(s)
#@ satella.coding.structures.CacheDict
from satella.coding.recast_exceptions import silence_excs
def __len__(self):
    return len(self.data)
def __iter__(self):
    return iter(self.data)
def feed(self, key, value, timestamp=None):
    self.data[key] = value
    self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
    self.cache_missed.discard(key)
def has_info_about(self, key):
    if key in self.data:
        try:
            return self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
        except KeyError:
            return False
    if self.cache_failures:
        if key in self.cache_missed:
            try:
                return self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
            except KeyError:
                return False
    return False
def get_value_block(self, key):
    future = self.value_getter_executor.submit(self.value_getter, key)
    try:
        value = future.result()
    except KeyError:
        self.invalidate(key)
        if self.cache_failures:
            self.cache_missed.add(key)
            self.timestamp_data[key] = self.time_getter()
        if self.default_value_factory:
            return self.default_value_factory()
        raise
    self[key] = value
    return value
def __getitem__(self, key):
    if key not in self.data and key not in self.cache_missed:
        return self.get_value_block(key)
    timestamp = self.timestamp_data[key]
    now = self.time_getter()
    if key in self.cache_missed:
        if now - timestamp > self.cache_failures_interval:
            return self.get_value_block(key)
        elif self.default_value_factory:
            return self.default_value_factory()
        else:
            raise KeyError()
    if now - timestamp > self.expiration_interval:
        return self.get_value_block(key)
    elif now - timestamp > self.stale_interval:
        self.schedule_a_fetch(key)
        return self.data[key]
    else:
        return self.data[key]
def __delitem__(self, key):
    if key in self.cache_missed:
        self.cache_missed.remove(key)
    else:
        del self.data[key]
    del self.timestamp_data[key]
def __setitem__(self, key, value):
    self.data[key] = value
    self.timestamp_data[key] = self.time_getter()
    with silence_excs(KeyError):
        self.cache_missed.remove(key)
def __setitem__(self, key, value):
    self.data[key] = value
    self.timestamp_data[key] = self.time_getter()
    self.cache_missed.discard(key)
def schedule_a_fetch(self, key):
    future = self.value_getter_executor.submit(self.value_getter, key)
    future.add_done_callback(ANY)
    return future
#@ satella.coding.structures.CacheDict via=add_done_callback
def schedule_a_fetch(self, key):
    future = self.value_getter_executor.submit(self.value_getter, key)
    def on_done_callback(fut):
        try:
            result = fut.result()
        except KeyError:
            self.invalidate(key)
            if self.cache_failures:
                self.cache_missed.add(key)
                self.timestamp_data[key] = self.time_getter()
        else:
            self[key] = result
    future.add_done_callback(on_done_callback)
    return future
#@ satella.coding.structures.CacheDict
def invalidate(self, key):
    try:
        del self[key]
    except KeyError:
        pass
#@ satella.coding.structures.ExpiringEntryDict
def __len__(self):
    self.cleanup()
    return len(self.data)
def __iter__(self):
    self.cleanup()
    return iter(self.data)
def __contains__(self, item):
    try:
        ts = self.key_to_expiration_time.item_to_timestamp[item]
    except KeyError:
        return False
    if ts < self.time_getter():
        del self[item]
        return False
    return True
def cleanup(self):
    for ts, key in self.key_to_expiration_time.pop_less_than(self.time_getter()):
        del self.data[key]
def __setitem__(self, key, value):
    self.key_to_expiration_time.put(self.time_getter() + self.expiration_timeout, key)
    self.data[key] = value
def __getitem__(self, item):
    try:
        ts = self.key_to_expiration_time.get_timestamp(item)
        if ts < self.time_getter():
            del self[item]
            raise KeyError()
        return self.data[item]
    except ValueError:
        raise KeyError()
def __delitem__(self, key):
    try:
        self.key_to_expiration_time.pop_item(key)
        del self.data[key]
    except ValueError:
        raise KeyError()
#@ satella.coding.structures.SelfCleaningDefaultDict
def __len__(self):
    self.cleanup()
    return len(self.data)
def __iter__(self):
    self.cleanup()
    return iter(self.data)
def __delitem__(self, key):
    if key in self.data:
        del self.data[key]
def __getitem__(self, item):
    try:
        v = self.data[item]
        if v == self.default_value:
            del self.data[item]
        return v
    except KeyError:
        obj = self.default_factory()
        if not self.background_maintenance:
            self.data[item] = obj
        return obj
def __setitem__(self, key, value):
    value_equal = value == self.default_value
    if key in self.data:
        if value_equal:
            del self.data[key]
    if not value_equal:
        self.data[key] = value
def cleanup(self):
    try:
        for key in list(self.data.keys()):
            if self.data[key] == self.default_value:
                del self.data[key]
    except KeyError:
        pass
'''

LRU = '''
#@ satella.coding.structures.LRU
def __contains__(self, item):
    return item in self.od
def __len__(self):
    return len(self.od)
def add(self, item):
    self.od[item] = True
def add(self, item):
    if item not in self.od:
        self.od[item] = True
    else:
        self.od.move_to_end(item)
def add(self, item):
    self.od[item] = True
    self.od.move_to_end(item)
def remove(self, item):
    del self.od[item]
def mark_as_used(self, item):
    if item not in self.od:
        self.od[item] = True
    else:
        self.od.move_to_end(item)
def get_item_to_evict(self):
    return self.od.popitem(False)[0]
#@ satella.coding.structures.LRUCacheDict keep=evict
def make_room(self):
    while len(self) > self.max_size - 1:
        self.evict()
def evict(self):
    try:
        self.invalidate(self.lru.get_item_to_evict())
    except KeyError:
        pass
def invalidate(self, key):
    try:
        super().invalidate(key)
        self.lru.remove(key)
    except KeyError:
        pass
def __getitem__(self, key):
    value = super().__getitem__(key)
    if key in self.data:
        self.lru.mark_as_used(key)
    return value
def get_value_block(self, key):
    v = super().get_value_block(key)
    if key in self.data:
        self.lru.mark_as_used(key)
    return v
def __delitem__(self, key):
    super().__delitem__(key)
    try:
        self.lru.remove(key)
    except KeyError:
        pass
def feed(self, key, value, timestamp=None):
    if key not in self.data:
        self.make_room()
    super().feed(key, value, timestamp)
    self.lru.mark_as_used(key)
def __setitem__(self, key, value):
    if key not in self.data:
        self.make_room()
    self.lru.mark_as_used(key)
    super().__setitem__(key, value)
def __init__(self, *args, max_size=100, **kwargs):
    super().__init__(*args, **kwargs)
    assert max_size > 0
    self.max_size = max_size
    self.lru = LRU()
'''

WRITEBACK = '''
#@ satella.coding.structures.ExclusiveWritebackCache
def __getitem__(self, item):
    with self.cache_lock:
        self.operations += 1
        if self.operations > 100:
            self.in_cache = set(self.cache.keys())
            self.operations = 0
    if item not in self.in_cache:
        try:
            value = self.executor.submit(self.read_method, item).result()
            with self.cache_lock:
                if item not in self.in_cache:
                    self.in_cache.add(item)
                    self.cache[item] = value
            return value
        except KeyError:
            if self.store_key_errors:
                with self.cache_lock:
                    self.in_cache.add(item)
            raise
    elif item not in self.cache and self.store_key_errors:
        raise KeyError()
    else:
        return self.cache[item]
def __delitem__(self, key):
    if self.delete_method is None:
        raise TypeError()
    with self.cache_lock:
        if self.store_key_errors:
            self.in_cache.add(key)
        try:
            del self.cache[key]
        except KeyError:
            pass
        self.executor.submit(self.delete_method, key)
    with self.cache_lock:
        self.operations += 1
        if self.operations > 100:
            self.in_cache = set(self.cache.keys())
            self.operations = 0
def __setitem__(self, key, value):
    with self.cache_lock:
        self.cache[key] = value
        self.in_cache.add(key)
        self.executor.submit(self.write_method, key, value)
    with self.cache_lock:
        self.operations += 1
        if self.operations > 100:
            self.in_cache = set(self.cache.keys())
            self.operations = 0
'''


def heap_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), HEAPS)


def paired_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), PAIRED)


def cache_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), CACHE)


def lru_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), LRU)


def writeback_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), WRITEBACK)



# ------------------------------------------------------------------------------------------ Proxy
BIN = [('add', '+'), ('sub', '-'), ('mul', '*'), ('floordiv', '//'), ('truediv', '/'), ('rshift', '>>'), ('lshift', '<<'), ('xor', '^'),
       ('or', '|'), ('and', '&'), ('matmul', '@'), ('mod', '%')]
REFL = BIN + [('pow', '**')]
CMP = [('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')]
UN = [('neg', '-'), ('pos', '+'), ('invert', '~')]


def wrapped(sig, expr):
    return 'def %s:\n    result = %s\n    if self.__wrap_operations:\n        return self.__class__(result)\n    return result\n' % (sig, expr)


def plain(sig, expr):
    return 'def %s:\n    return %s\n' % (sig, expr)


def proxy_text():
    t = '#@ satella.coding.structures.Proxy\nimport math\n'
    for n, o in BIN:
        t += wrapped('__%s__(self, other)' % n, 'self.__obj %s other' % o)
    for n, o in REFL:
        t += wrapped('__r%s__(self, other)' % n, 'other %s self.__obj' % o)
        t += 'def __i%s__(self, other):\n    self.__obj %s= other\n    return self\n' % (n, o)
    for n, o in CMP:
        t += plain('__%s__(self, other)' % n, 'self.__obj %s other' % o)
    for n, o in UN:
        t += wrapped('__%s__(self)' % n, '%sself.__obj' % o)
    t += wrapped('__abs__(self)', 'abs(self.__obj)')
    for n in ('int', 'str', 'iter', 'len', 'hash', 'repr', 'bool', 'dir', 'reversed'):
        t += plain('__%s__(self)' % n, '%s(self.__obj)' % n)
    t += plain('__next__(self)', 'next(self.__obj)')
    for n in ('float', 'complex'):
        t += 'def __%s__(self):\n    try:\n        return %s(self.__obj)\n    except AttributeError:\n        raise TypeError()\n' % (n, n)
    t += plain('__divmod__(self, other)', 'divmod(self.__obj, other)')
    t += plain('__rdivmod__(self, other)', 'divmod(other, self.__obj)')
    t += plain('__contains__(self, item)', 'item in self.__obj')
    t += plain('__getitem__(self, item)', 'self.__obj[item]')
    t += plain('__index__(self)', 'self.__obj.__index__()') + plain('__index__(self)', 'operator.index(self.__obj)')
    t += plain('__format__(self, format_spec)', 'self.__obj.__format__(format_spec)') + \
        plain('__format__(self, format_spec)', 'format(self.__obj, format_spec)')
    t += plain('__enter__(self)', 'self.__obj.__enter__()')
    t += plain('__exit__(self, exc_type, exc_val, exc_tb)', 'self.__obj.__exit__(exc_type, exc_val, exc_tb)')
    t += plain('__aenter__(self)', 'self.__obj.__aenter__()')
    t += plain('__aexit__(self, exc_type, exc_val, exc_tb)', 'self.__obj.__aexit__(exc_type, exc_val, exc_tb)')
    t += plain('__aiter__(self)', 'self.__obj.__aiter__()')
    t += plain('__await__(self)', 'self.__obj.__await__()')
    t += plain('__call__(self, *args, **kwargs)', 'self.__obj(*args, **kwargs)')
    t += plain('__getattr__(self, item)', 'getattr(self.__obj, item)')
    t += 'def __delattr__(self, item):\n    delattr(self.__obj, item)\n'
    t += 'def __setitem__(self, key, value):\n    self.__obj[key] = value\n'
    t += 'def __delitem__(self, key):\n    del self.__obj[key]\n'
    t += "def __setattr__(self, key, value):\n    if key in ('_Proxy__obj', '_Proxy__wrap_operations'):\n        super().__setattr__(key, value)\n" \
         "    else:\n        setattr(self.__obj, key, value)\n"
    t += "def __setattr__(self, key, value):\n    if key in _SETTABLE_KEYS:\n        super().__setattr__(key, value)\n" \
         "    else:\n        setattr(self.__obj, key, value)\n"
    t += wrapped('__pow__(self, power, modulo=None)', 'pow(self.__obj, power, modulo)')
    for n in ('trunc', 'floor', 'ceil'):
        t += '''def __%s__(self):
    try:
        if hasattr(self.__obj, '__%s__'):
            result = self.__obj.__%s__()
        else:
            result = math.%s(self.__obj)
    except AttributeError:
        raise TypeError()
    if self.__wrap_operations:
        return self.__class__(result)
    return result
''' % (n, n, n, n)
    t += '''def __round__(self, n=None):
    try:
        result = round(self.__obj, n)
    except AttributeError:
        raise TypeError()
    if self.__wrap_operations:
        return self.__class__(result)
    return result
'''
    t += '''
def __init__(self, object_to_wrap, wrap_operations=False):
    self.__obj = object_to_wrap
    self.__wrap_operations = wrap_operations
#@ satella.coding.structures.HashableWrapper
def __hash__(self):
    my_object = getattr(self, '_Proxy__obj')
    try:
        return hash(my_object)
    except TypeError:
        return hash(id(my_object))
def __eq__(self, other):
    my_object = getattr(self, '_Proxy__obj')
    if isinstance(other, HashableWrapper):
        obj2 = getattr(other, '_Proxy__obj')
    else:
        obj2 = other
    return id(my_object) == id(obj2)
def __eq__(self, other):
    if isinstance(other, HashableWrapper):
        other = other._Proxy__obj
    return self._Proxy__obj is other
'''
    return t


def proxy_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), proxy_text())



# ------------------------------------------------------------------------------------------ numbers and predicates
def atomic_text():
    t = '#@ satella.coding.concurrent.AtomicNumber notify=1\n'
    ops = [x for x in BIN if x[0] not in ('matmul', 'mod')]
    for n, o in ops:
        t += plain('__%s__(self, other)' % n, 'self.value %s other' % o)
    for n, o in ops + [('pow', '**')]:
        t += plain('__r%s__(self, other)' % n, 'other %s self.value' % o)
        t += 'def __i%s__(self, other):\n    self.value %s= other\n    self.condition.notify_all()\n    return self\n' % (n, o)
    for n, o in CMP:
        if n not in ('eq', 'ne'):
            t += plain('__%s__(self, other)' % n, 'self.value %s other' % o)
    for n in ('int', 'float', 'bool', 'abs', 'str'):
        t += plain('__%s__(self)' % n, '%s(self.value)' % n)
    t += plain('__neg__(self)', '-self.value') + plain('__pos__(self)', '+self.value')
    t += plain('__pow__(self, power, modulo=None)', 'pow(self.value, power, modulo)')
    t += '''def __eq__(self, other):
    if isinstance(other, AtomicNumber):
        with Monitor.acquire(other):
            other = other.value
    with Monitor.acquire(self):
        return self.value == other
'''
    return t


def atomic_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), atomic_text())


PRED = '''
#@ satella.coding.predicates closures=1 via=PredicateClass
def make_operation_two_args(operation_two_args, docstring=None, swap_order=False):
    def operation(self, a):
        def op(v):
            if isinstance(a, PredicateClass):
                if swap_order:
                    return operation_two_args(a(v), self(v))
                return operation_two_args(self(v), a(v))
            if swap_order:
                return operation_two_args(a, self(v))
            return operation_two_args(self(v), a)
        return PredicateClass(op)
    return operation
def make_operation_single_arg(operation, docstring=None):
    def operation_v(self):
        def operate(v):
            return operation(self.operation(v))
        return PredicateClass(operate)
    return operation_v
#@ satella.coding.predicates.PredicateClass via=PredicateClass
def __call__(self, *args):
    if len(args) == 0:
        return PredicateClass(lambda y: self.operation(y)())
    else:
        return self.operation(args[0])
def type(self):
    def type_of(v):
        return type(self.operation(v))
    return PredicateClass(type_of)
def is_instance(self, *args):
    def is_instance(v):
        return isinstance(self.operation(v), args)
    return PredicateClass(is_instance)
def has(self, predicate):
    def op(v):
        for e in self.operation(v):
            if predicate(e):
                return True
        return False
    return PredicateClass(op)
def is_valid_schema(self, schema=None, **kwargs):
    def is_schema_correct(v):
        from satella.coding.structures import DictObject
        return DictObject(self.operation(v)).is_valid_schema(schema, **kwargs)
    return PredicateClass(is_schema_correct)
#@ satella.coding.predicates.PredicateClass
def __call__(self, *args):
    if len(args) == 0:
        return PredicateClass(ANY)
    else:
        return self.operation(args[0])
def __init__(self, operation=_nop):
    self.operation = operation
def identity(self):
    return PredicateClass(self.operation)
def __hash__(self):
    return hash(id(self))
#@ satella.coding.predicates
def _has_keys(a, keys):
    for key in keys:
        if key not in a:
            return False
    return True
def _has_keys(a, keys):
    return all(key in a for key in keys)
def _one_of(a, values):
    return a in values
def _nop(v):
    return v
'''

# operator of each public name: (function, operands swapped)
PRED_OPS = {'length': 'len', 'str': 'str', 'int': 'int', 'float': 'float', '__abs__': 'abs', '__neg__': 'operator.neg',
            '__invert__': 'operator.invert', 'inside': 'operator.contains', 'instanceof': 'isinstance',
            '__contains__': 'operator.contains', '__getattr__': 'getattr', '__getitem__': 'operator.getitem'}
PRED_OPS = {k: (v if '.' in v else 'builtins.' + v, False) for k, v in PRED_OPS.items()}
for _n, _o in CMP:
    PRED_OPS['__%s__' % _n] = ('operator.' + _n, False)
for _n, _o in BIN + [('pow', '**')]:
    _f = 'operator.' + {'and': 'and_', 'or': 'or_'}.get(_n, _n)
    PRED_OPS['__%s__' % _n] = (_f, False)
    PRED_OPS['__r%s__' % _n] = (_f, True)


def predicate_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), PRED)


def predicate_operators(ctx):
    r = ctx.rule('operator-table', 'every operator of x is built from the operation of the same name, with the operands in the same order')
    c = ctx.p.lookup('satella.coding.predicates.PredicateClass')
    for name, (op, swapped) in sorted(PRED_OPS.items()):
        with ctx.item(r, 'x.' + name):
            v = c.attrs.get(name)
            if v is None and name in c.methods:
                raise Undecided('%s is written out' % name)
            if v is None:
                ctx.bad(r, 'x.' + name, 'x does not support %s any more' % name, where=c.module.relpath + ':' + c.qual, line=c.node.lineno)
                continue
            if not isinstance(v, ast.Call):
                raise Undecided('built by something else')
            maker = (c.module.dotted(v.func) or '').split('.')[-1]
            if maker not in ('make_operation_two_args', 'make_operation_single_arg'):
                raise Undecided('built by %s' % maker)
            kw = {k.arg: k.value for k in v.keywords}
            fn = v.args[0] if v.args else next((kw[k] for k in ('operation_two_args', 'operation') if k in kw), None)
            got = c.module.dotted(fn) if fn is not None else None
            if got is None:
                raise Undecided('not a name')
            got = got.replace('operator.__', 'operator.').rstrip('_')
            sw = v.args[2] if len(v.args) > 2 else kw.get('swap_order')
            if sw is not None and not isinstance(sw, ast.Constant):
                raise Undecided('swap_order is computed')
            sw = bool(sw.value) if sw is not None else False
            ctx.check(got == op.rstrip('_') and sw == swapped, r, 'x.' + name, '%s applies %s%s instead of %s%s' % (
                name, got, ' to swapped operands' if sw else '', op, ' to swapped operands' if swapped else ''),
                where=c.module.relpath + ':' + c.qual, line=v.lineno)


STRUCT = '''
#@ satella.coding.predicates
def build_structure(struct, argument, final_operator=ANY, nested_call=False):
    if not nested_call:
        return final_operator(build_structure(struct, argument, None, True))
    from satella.coding.structures import HashableWrapper
    import typing as tp
    if isinstance(struct, tp.MutableMapping):
        new_dict = {}
        for key, value in struct.items():
            key = build_structure(key, argument, None, True)
            value = build_structure(value, argument, None, True)
            new_dict[key] = value
        return new_dict
    elif isinstance(struct, tp.Sequence) and not isinstance(struct, (str, bytes)):
        new_seq = []
        for elem in struct:
            if isinstance(elem, PredicateClass):
                elem = elem(argument)
            else:
                elem = build_structure(elem, argument, None, True)
            new_seq.append(elem)
        return struct.__class__(new_seq)
    elif isinstance(struct, HashableWrapper):
        return build_structure(getattr(struct, '_Proxy__obj'), argument, None, True)
    elif isinstance(struct, PredicateClass):
        return struct(argument)
    else:
        return struct
'''


def structure_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), STRUCT)



# ------------------------------------------------------------------------------------------ value objects
IMMUT = '''
#@ satella.coding.structures.immutable.ImmutableMetaType
def __call__(cls, *args, **kwargs):
    p = type.__call__(cls, *args, **kwargs)
    setattr(p, '_Immutable__locked_for_writes', True)
    return p
def __call__(cls, *args, **kwargs):
    p = super().__call__(*args, **kwargs)
    setattr(p, '_Immutable__locked_for_writes', True)
    return p
#@ satella.coding.structures.Immutable
def __setattr__(self, attr, value):
    if attr == '_Immutable__locked_for_writes':
        return super().__setattr__(attr, value)
    try:
        if self.__locked_for_writes:
            raise TypeError()
        else:
            super().__setattr__(attr, value)
    except AttributeError:
        super().__setattr__(attr, value)
def __delattr__(self, attr):
    try:
        if self.__locked_for_writes:
            raise TypeError()
        else:
            super().__delattr__(attr)
    except AttributeError:
        super().__delattr__(attr)
#@ satella.coding.structures.immutable.frozendict
def __setitem__(self, key, value):
    raise TypeError()
def __delitem__(self, key):
    raise TypeError()
def update(self, *args, **kwargs):
    raise TypeError()
def __ior__(self, other):
    raise TypeError()
def pop(self, *args, **kwargs):
    raise TypeError()
def popitem(self):
    raise TypeError()
def setdefault(self, *args, **kwargs):
    raise TypeError()
def clear(self):
    raise TypeError()
'''

HASHES = '''
#@ satella.coding.structures.immutable.frozendict
def __hash__(self):
    o = 0
    for key, value in self.items():
        o = o ^ hash(key) ^ hash(value)
    return o
#@ satella.coding.structures.immutable.NotEqualToAnything
def __eq__(self, other):
    return False
def __ne__(self, other):
    return True
#@ satella.coding.structures.mixins.enums.HashableIntEnum
def __hash__(self):
    return hash(self.value)
#@ satella.coding.structures.mixins.enums.ComparableIntEnum
def __hash__(self):
    return hash(self.value)
#@ satella.coding.structures.mixins.enums.ComparableEnum
import enum
def __eq__(self, other):
    if isinstance(other, enum.Enum) and not isinstance(other, self.__class__):
        other = other.value
    if isinstance(other, self.__class__):
        return super().__eq__(other)
    try:
        return self.__class__(other) == self
    except ValueError:
        return False
#@ satella.coding.structures.mixins.enums.OnStrOnlyName
def __str__(self):
    return self.name
#@ satella.coding.structures.mixins.hashable.HashableMixin
def __hash__(self):
    return id(self)
def __eq__(self, other):
    return id(self) == id(other)
def __eq__(self, other):
    return self is other
#@ satella.coding.structures.mixins.hashable.OmniHashableMixin
def __hash__(self):
    xor = 0
    cmpr_by = self._HASH_FIELDS_TO_USE
    if isinstance(cmpr_by, str):
        return hash(getattr(self, cmpr_by))
    for field_name in cmpr_by:
        xor ^= hash(getattr(self, field_name))
    return xor
def __eq__(self, other):
    if not isinstance(other, type(self)):
        return False
    cmpr_by = self._HASH_FIELDS_TO_USE
    try:
        if isinstance(cmpr_by, str):
            return operator.eq(getattr(self, cmpr_by), getattr(other, cmpr_by))
        if any((getattr(self, field_name) != getattr(other, field_name) for field_name in cmpr_by)):
            return False
        return True
    except AttributeError:
        return False
def __ne__(self, other):
    if not isinstance(other, type(self)):
        return True
    cmpr_by = self._HASH_FIELDS_TO_USE
    try:
        if isinstance(cmpr_by, str):
            return operator.ne(getattr(self, cmpr_by), getattr(other, cmpr_by))
        if any((getattr(self, field_name) != getattr(other, field_name) for field_name in cmpr_by)):
            return True
        return False
    except AttributeError:
        return True
#@ satella.coding.structures.mixins.strings.StrEqHashableMixin
def __hash__(self):
    return hash(str(self))
def __eq__(self, other):
    return str(self) == str(other)
#@ satella.coding.structures.mixins.strings.ReprableMixin
def __repr__(self):
    fragments = []
    if getattr(self, '_REPR_FULL_CLASSNAME', False):
        fragments = ['%s%s' % (self.__class__.__module__ + '.' if self.__class__.__module__ != 'builtins' else '', self.__class__.__qualname__)]
    if not fragments:
        fragments = [self.__class__.__name__]
    fragments.append('(')
    arguments = []
    for field_name in self._REPR_FIELDS:
        arguments.append(repr(getattr(self, field_name)))
    fragments.append(', '.join(arguments))
    fragments.append(')')
    return ''.join(fragments)
#@ satella.coding.structures.mixins.eqable.DictionaryEQAble
from satella.coding.structures.immutable import NOT_EQUAL_TO_ANYTHING
def __eq__(self, other):
    if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
        return False
    for key in self.__dict__.keys():
        if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
            return False
    return True
def __ne__(self, other):
    if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
        return True
    for key in self.__dict__.keys():
        if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
            return True
    return False
'''


def hash_text():
    t = HASHES + '#@ satella.coding.structures.mixins.enums.ComparableIntEnum\n'
    for n, o in CMP:
        if n != 'ne':
            t += 'def __%s__(self, other):\n    if isinstance(other, (int, float)):\n        return self.value %s other\n' \
                 '    return self.value %s int(other)\n' % (n, o, o)
            if n == 'eq':
                pass
    for cls, of in (('ComparableAndHashableBy', 'getattr({0}, {0}._COMPARABLE_BY)'), ('ComparableAndHashableByInt', 'int({0})'),
                    ('ComparableAndHashableByStr', 'str({0})')):
        t += '#@ satella.coding.structures.mixins.hashable.%s\n' % cls
        for n, o in CMP:
            if n != 'ne':
                t += plain('__%s__(self, other)' % n, '%s %s %s' % (of.format('self'), o, of.format('other')))
        t += plain('__hash__(self)', 'hash(%s)' % of.format('self'))
    return t


def immutable_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), IMMUT)


def hash_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), hash_text())


# ------------------------------------------------------------------------------------------ dictionaries
DICTS = '''
#@ satella.coding.structures.DirtyDict
def __len__(self):
    return len(self.data)
def __iter__(self):
    return iter(self.data)
def __getitem__(self, k):
    return self.data[k]
def __copy__(self):
    dd = DirtyDict(self.data.copy())
    dd.dirty = self.dirty
    return dd
def __setitem__(self, key, value):
    if key in self.data:
        if self.data[key] == value:
            return
    self.data[key] = value
    self.dirty = True
def __delitem__(self, key):
    del self.data[key]
    self.dirty = True
def __contains__(self, item):
    return item in self.data
def clear_dirty(self):
    self.dirty = False
def __bool__(self):
    return bool(self.data)
def swap_and_clear_dirty(self):
    a = self.data
    self.data = {}
    self.dirty = False
    return a
def copy_and_clear_dirty(self):
    a = self.data.copy()
    self.dirty = False
    return a
#@ satella.coding.structures.KeyAwareDefaultDict
def __len__(self):
    return len(self.dict)
def __iter__(self):
    return iter(self.dict)
def __getitem__(self, item):
    if item in self.dict:
        return self.dict[item]
    self.dict[item] = self.factory_function(item)
    return self.dict[item]
def __setitem__(self, key, value):
    self.dict[key] = value
def __delitem__(self, key):
    del self.dict[key]
#@ satella.coding.structures.DefaultDict
def __getitem__(self, item):
    if item not in self:
        return self.default_factory()
    return super().__getitem__(item)
#@ satella.coding.structures.DictionaryView
def __contains__(self, item):
    for dictionary in self.dictionaries:
        if item in dictionary:
            return True
    return False
def __contains__(self, item):
    return any(item in dictionary for dictionary in self.dictionaries)
def __iter__(self):
    seen_already = set()
    for dictionary in self.dictionaries:
        for key in dictionary:
            if key not in seen_already:
                yield key
                seen_already.add(key)
def __len__(self):
    seen_already = set()
    i = 0
    for dictionary in self.dictionaries:
        for key in dictionary:
            if key not in seen_already:
                i += 1
                seen_already.add(key)
    return i
def __getitem__(self, item):
    for dictionary in self.dictionaries:
        if item in dictionary:
            return dictionary[item]
    raise KeyError()
def __setitem__(self, key, value):
    if self.assign_to_same_dict:
        for dictionary in self.dictionaries:
            if key in dictionary:
                dictionary[key] = value
                return
    self.master_dict[key] = value
def __delitem__(self, key):
    if self.propagate_deletes:
        for dictionary in self.dictionaries:
            if key in dictionary:
                del dictionary[key]
                return
        raise KeyError()
    del self.master_dict[key]
#@ satella.coding.structures.CountingDict
def __getitem__(self, item):
    return self.dct[item]
def count(self, elem, pieces=1):
    if elem not in self.dct:
        self.dct[elem] = pieces
    else:
        self.dct[elem] += pieces
def count(self, elem, pieces=1):
    self.dct[elem] = self.dct.get(elem, 0) + pieces
def clear(self):
    self.dct = {}
def keys(self):
    return self.dct.keys()
def values(self):
    return self.dct.values()
def items(self):
    return self.dct.items()
def __iter__(self):
    return iter(self.dct)
def __len__(self):
    return len(self.dct)
def __bool__(self):
    return bool(self.dct)
#@ satella.coding.structures.DictObject
def __getattr__(self, item):
    try:
        return self[item]
    except KeyError:
        raise AttributeError()
def __setattr__(self, key, value):
    self[key] = value
def __delattr__(self, key):
    try:
        del self[key]
    except KeyError:
        raise AttributeError()
def is_valid_schema(self, schema=None, **kwarg_schema):
    if kwarg_schema:
        schema = kwarg_schema
    if isinstance(schema, Descriptor):
        descriptor = schema
    else:
        descriptor = descriptor_from_dict(schema)
    try:
        descriptor(self)
    except ConfigurationValidationError:
        return False
    else:
        return True
#@ satella.coding.structures.dictionaries.dict_object
def apply_dict_object(v):
    if isinstance(v, DictObject):
        return v
    elif isinstance(v, list):
        return [apply_dict_object(x) for x in v]
    elif isinstance(v, dict):
        return DictObject({k: apply_dict_object(val) for k, val in v.items()})
    else:
        return v
'''

MISC = '''
#@ satella.coding.structures.PushIterable
def __iter__(self):
    return self
def __next__(self):
    if not self.collection:
        return next(self.iterable)
    else:
        return self.collection.pop()
def pop(self):
    if not self.collection:
        return next(self.iterable)
    else:
        return self.collection.pop()
def push(self, item):
    self.collection.append(item)
def push_left(self, item):
    self.collection.appendleft(item)
#@ satella.coding.structures.SetZip
def __iadd__(self, other):
    self.args.append(other)
    return self
def __init__(self, *args):
    self.args = list(args)
def __contains__(self, item):
    return any(item in arg for arg in self.args)
def __len__(self):
    return sum(len(arg) for arg in self.args)
def __iter__(self):
    for arg in self.args:
        yield from arg
#@ satella.coding.structures.Vector
def __add__(self, other):
    result = []
    for a, b in zip(self, other):
        result.append(a + b)
    return Vector(result)
def __add__(self, other):
    return Vector(a + b for a, b in zip(self, other))
def __sub__(self, other):
    result = []
    for a, b in zip(self, other):
        result.append(a - b)
    return Vector(result)
def __sub__(self, other):
    return Vector(a - b for a, b in zip(self, other))
def __mul__(self, other):
    result = []
    for a in self:
        result.append(a * other)
    return Vector(result)
def __mul__(self, other):
    return Vector(a * other for a in self)
def __truediv__(self, other):
    result = []
    for a in self:
        result.append(a / other)
    return Vector(result)
def __truediv__(self, other):
    return Vector(a / other for a in self)
#@ satella.coding.structures.typednamedtuple
def _adjust(q):
    var, type_ = q
    if type_ in (None, 'self') or isinstance(var, type_):
        return var
    return type_(var)
'''

SPARSE = '''
#@ satella.coding.structures.SparseMatrix
import collections
def max(self):
    item = self[0, 0]
    for row in self:
        for value in row:
            if value is None:
                continue
            if item is None or value > item:
                item = value
    return item
def min(self):
    item = self[0, 0]
    for row in self:
        for value in row:
            if value is None:
                continue
            if item is None or value < item:
                item = value
    return item
def append_row(self, y):
    next_row = self.no_rows
    for col_no, z in enumerate(y):
        self[col_no, next_row] = z
def clear(self):
    self.rows_dict = collections.defaultdict(lambda: collections.defaultdict(lambda: None))
    self.known_column_count = {}
    self.no_cols = 0
    self.no_rows = 0
def __eq__(self, other):
    return self.rows_dict == other.rows_dict
def __bool__(self):
    return self.no_rows != 0
def __bool__(self):
    return self.no_rows > 0
def __bool__(self):
    return bool(self.no_rows)
def columns(self):
    return self.no_cols
def rows(self):
    return self.no_rows
def __iter__(self):
    return (self.get_row(i) for i in range(self.no_rows))
def __len__(self):
    return self.no_rows
def get_row(self, row_no):
    if row_no not in self.rows_dict:
        output = [None] * self.no_cols
    else:
        cols = self.rows_dict[row_no]
        output = []
        for i in range(self.no_cols):
            if i in cols:
                output.append(cols[i])
            else:
                output.append(None)
    return output
def shoot(self):
    new_sparse = SparseMatrix()
    for row_no, row in enumerate(self):
        for col_no, value in enumerate(row):
            new_sparse[col_no * 2, row_no * 2] = value
    return new_sparse
def delete_row(self, row_no):
    cols = list(self.rows_dict[row_no].keys()) if row_no in self.rows_dict else ()
    for col_no in cols:
        del self[col_no, row_no]
def __setitem__(self, key, value):
    if value is None:
        del self[key]
        return
    col, row = self._sanitize_key(key)
    if col is Ellipsis and row is Ellipsis:
        sm = SparseMatrix.from_iterable(value)
        self.rows_dict = sm.rows_dict
        self.no_rows = sm.no_rows
        self.no_cols = sm.no_cols
        self.known_column_count = sm.known_column_count
    elif col is Ellipsis:
        for col_no, val in enumerate(value):
            self[col_no, row] = val
    elif row is Ellipsis:
        for row_no, val in enumerate(value):
            self[col, row_no] = val
    else:
        if col >= self.no_cols:
            self.no_cols = col + 1
        if row >= self.no_rows:
            self.no_rows = row + 1
        if row not in self.rows_dict or col not in self.rows_dict[row]:
            self.known_column_count[col] = self.known_column_count.get(col, 0) + 1
        self.rows_dict[row][col] = value
def __setitem__(self, key, value):
    if value is None:
        del self[key]
        return
    col, row = self._sanitize_key(key)
    if col is Ellipsis and row is Ellipsis:
        sm = SparseMatrix.from_iterable(value)
        self.rows_dict = sm.rows_dict
        self.no_rows = sm.no_rows
        self.no_cols = sm.no_cols
        self.known_column_count = sm.known_column_count
    elif col is Ellipsis:
        for col_no, val in enumerate(value):
            self[col_no, row] = val
    elif row is Ellipsis:
        for row_no, val in enumerate(value):
            self[col, row_no] = val
    else:
        if col >= self.no_cols:
            self.no_cols = col + 1
        if row >= self.no_rows:
            self.no_rows = row + 1
        if row not in self.rows_dict or col not in self.rows_dict[row]:
            if col not in self.known_column_count:
                self.known_column_count[col] = 1
            else:
                self.known_column_count[col] += 1
        self.rows_dict[row][col] = value
def __getitem__(self, item):
    col, row = self._sanitize_key(item)
    if col is Ellipsis and row is Ellipsis:
        v = list(self)
    elif col is Ellipsis:
        v = [self[col_no, row] for col_no in range(self.no_cols)]
    elif row is Ellipsis:
        v = [self[col, row_no] for row_no in range(self.no_rows)]
    else:
        if row >= self.no_rows:
            raise IndexError()
        elif col >= self.no_cols:
            raise IndexError()
        if row not in self.rows_dict:
            v = None
        elif col not in self.rows_dict[row]:
            v = None
        else:
            v = self.rows_dict[row][col]
    return v
def __delitem__(self, key):
    try:
        col, row = self._sanitize_key(key)
        if row is Ellipsis and col is Ellipsis:
            self.clear()
        elif col is Ellipsis:
            for col_no in range(self.no_cols):
                del self[col_no, row]
        elif row is Ellipsis:
            for row_no in range(self.no_rows):
                del self[col, row_no]
        else:
            if row not in self.rows_dict or col not in self.rows_dict[row]:
                return
            del self.rows_dict[row][col]
            if not self.rows_dict[row]:
                del self.rows_dict[row]
            if self.known_column_count[col] == 1:
                del self.known_column_count[col]
            else:
                self.known_column_count[col] -= 1
            try:
                self.no_cols = max(self.known_column_count) + 1
            except ValueError:
                self.no_cols = 0
            try:
                self.no_rows = max(self.rows_dict) + 1
            except ValueError:
                self.no_rows = 0
    except KeyError:
        pass
'''


def dict_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), DICTS)


def misc_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), MISC)


def sparse_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), SPARSE)



SINGLETON = '''
#@ satella.coding.structures.singleton.Singleton inner=1
def singleton_new(cls, *args, **kw):
    it = cls.__dict__.get('__it__')
    if it is not None:
        return it
    it = cls.__new_old__(cls)
    cls.__it__ = it
    it.__init_old__(*args, **kw)
    return it
#@ satella.coding.structures.singleton.SingletonWithRegardsTo inner=1
def singleton_new(cls, *args, **kw):
    it = cls.__dict__.get('__it__')
    if it is None:
        if weak_refs:
            it = weakref.WeakValueDictionary()
        else:
            it = {}
        cls.__it__ = it
    key = args[:num_args]
    if key in it:
        return it[key]
    inst = cls.__new_old__(cls)
    it[key] = inst
    inst.__init_old__(*args, **kw)
    return inst
#@ satella.coding.structures.singleton
def get_instances_for_singleton(x):
    return list(x.__it__)
def delete_singleton_for(x, *args):
    del x.__it__[args]
'''


def singleton_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), SINGLETON)



def prop(title, statement, over, why, files, mechanism, rules, **kw):
    return dict(dict(title=title, statement=statement, over=over, why=why, files=files, mechanism=mechanism, rules=rules,
                     technique=MODEL_TECH, explain=MODEL_EXPLAIN), **kw)


PROPS = {
    'D01': prop(
        'Paired views of one content agree',
        'Containers that keep the same content twice keep both views equal after every public operation: SetHeap and TimeBasedSetHeap hold each '
        'item once and know exactly the items (and timestamps) that are in the heap, after construction, push, push_many, put, pop, pop_item, '
        'pop_timestamp, remove and filter_map; Ranking and SortedList keep positions and keys in step with their elements; '
        'in a TwoWayDictionary, reverse is always the exact inverse, and a value that is already mapped is refused without changing anything.',
        (['inputs', 'histories'], 'every sequence of operations on every content'),
        'Which view goes stale depends on the operation and on what it found there; tests try a few sequences.',
        [ST + 'heaps', ST + 'ranking.py', ST + 'dictionaries/objects.py'],
        [('heap list next to a set or dict', ST + 'heaps'), ('data and reverse_data', ST + 'dictionaries/objects.py')],
        [paired_tables]),
    'D02': prop(
        'Heaps and sorted lists keep their order',
        'Every operation of Heap, SetHeap and TimeBasedHeap leaves a valid heap: pop and iter_ascending deliver elements in ascending order and '
        'lose none, pop_less_than delivers exactly the entries with a timestamp strictly below the bound, get_timestamp, pop_timestamp and '
        'pop_item find the entry with that item or timestamp. SortedList keeps elements ascending by key under construction, add, extend, '
        'remove, pop and popleft, and add returns the index of the new element.',
        (['inputs', 'histories'], 'every content and sequence of operations'),
        'A missing heapify or a wrong comparison shows only for particular contents.',
        [ST + 'heaps', ST + 'sorted_list.py'],
        [('heapq over self.data', ST + 'heaps/base.py'), ('keys next to items', ST + 'sorted_list.py')],
        [heap_tables]),
    'D03': prop(
        'Caching and expiring dictionaries never serve what expired',
        'CacheDict returns a cached value without a fetch until it is older than stale_interval, returns it and schedules one refresh until '
        'expiration_interval, and fetches it synchronously afterwards; a cached failure is reported (or defaulted) for '
        'cache_failures_interval only, and setting, feeding, deleting or invalidating a key replaces all that was known about it. '
        'ExpiringEntryDict entries are visible until expiration_timeout after they were last set and never later, in lookup, membership, '
        'iteration and length; SelfCleaningDefaultDict never keeps entries equal to the default.',
        (['inputs', 'histories'], 'every age of every entry and every sequence of operations'),
        'Freshness depends on clock values at boundaries and on what happened to the key before.',
        [ST + 'dictionaries/cache_dict.py', ST + 'dictionaries/expiring.py'],
        [('data, timestamp_data and cache_missed', ST + 'dictionaries/cache_dict.py'),
         ('key_to_expiration_time', ST + 'dictionaries/expiring.py')],
        [cache_tables]),
    'D04': prop(
        'LRU structures evict the least recently used, and stay within max_size',
        'LRU.get_item_to_evict removes and returns the element used longest ago, where mark_as_used makes an element the most recent one. '
        'LRUCacheDict evicts before it inserts a new key, so that it never holds more than max_size entries, does not evict to overwrite a key '
        'it has, marks a key as used on every read, fetch, feed and write, and forgets it on delete and invalidate.',
        (['inputs', 'histories'], 'every sequence of reads and writes'),
        'Eviction order is a function of the whole access history.',
        [ST + 'lru.py', ST + 'dictionaries/cache_dict.py'],
        [('OrderedDict', ST + 'lru.py'), ('make_room', ST + 'dictionaries/cache_dict.py')],
        [lru_tables]),
    'D05': prop(
        'Write-back cache: every change is written, reads see it',
        'ExclusiveWritebackCache hands every __setitem__ to write_method and every __delitem__ to delete_method (TypeError if there is none) exactly '
        'once, with the right key and value, submitted under the same lock as the change of the cache; a read returns the value that was last set, '
        'raises KeyError after a delete or a stored key error, calls read_method only for keys it knows nothing about, '
        'and never overwrites a newer value with one read from the storage.',
        (['inputs', 'histories', 'schedules'], 'every sequence of operations, including key errors and the periodic cleanup'),
        'A lost or repeated write shows up only in the storage, and only for particular histories.',
        [ST + 'dictionaries/writeback_cache.py'],
        [('cache, in_cache and cache_lock', ST + 'dictionaries/writeback_cache.py')],
        [writeback_tables]),
    'D06': prop(
        'Proxy applies each operation to the object, faithfully',
        'Every operator, conversion, container, attribute, context manager and async protocol method of Proxy performs that same operation on the wrapped '
        'object, with operands in the right order, and returns its result; arithmetic and bitwise results are wrapped in the class of the '
        'proxy if and only if wrap_operations is set, in-place operators rebind the wrapped object and return the proxy itself, '
        'and assigning attributes writes to the object. HashableWrapper hashes by the object, or by its id if unhashable, and compares by identity.',
        (['inputs'], 'every operator and operand'),
        'There are about ninety operators; tests call a handful with operands for which mistakes cancel out.',
        [ST + 'proxy.py', ST + 'hashable_objects.py'], [('one method per operator', ST + 'proxy.py')],
        [proxy_tables]),
    'D07': prop(
        'Predicates compute what they spell',
        'Applying a predicate built from x to a value gives what the expression gives with the value in place of x: each operator, comparison, '
        'reflected operator, getattr, getitem, length, str, int, float, abs, inside, instanceof, is_instance, type, has, has_keys, one_of and call '
        'applies the operation of that name to operands in the order written, whether the other operand is a constant or another predicate. '
        'build_structure replaces every predicate inside nested sequences and dictionaries, keeps everything else and applies final_operator once.',
        (['inputs'], 'every operator, operand kind and nesting'),
        'Each operator is a separate entry in a table; an error in one is invisible to the tests of the others.',
        ['satella/coding/predicates.py'], [('make_operation_two_args', 'satella/coding/predicates.py')],
        [predicate_tables, predicate_operators, structure_tables], technique=MODEL_TECH + ' and operator table query'),
    'D08': prop(
        'AtomicNumber computes like the number it holds',
        'Each arithmetic, bitwise, comparison and conversion operator of AtomicNumber equals that operator on the current value, with operands '
        'in the right order; each in-place operator stores the result, wakes all waiters and returns the same object; '
        'comparing for equality with another AtomicNumber compares the two values. No change made by another thread at the same time is lost.',
        (['inputs', 'schedules'], 'every operator and operand, by any number of threads'),
        'About forty operators, each its own method; commutative samples hide swapped operands.',
        ['satella/coding/concurrent/atomic.py'], [('one method per operator', 'satella/coding/concurrent/atomic.py')],
        [atomic_tables]),
    'D09': prop(
        'Immutable objects and singletons stay what they are',
        'After construction, assigning or deleting any attribute of an Immutable raises TypeError and changes nothing, while the constructor may assign freely; '
        'a frozendict refuses every mutating dict operation with TypeError. '
        'A class decorated with Singleton has one instance per class (not shared with subclasses), initialised once; SingletonWithRegardsTo one per '
        'value of the first num_args arguments, until deleted.',
        (['inputs', 'histories'], 'every attribute, operation and order of construction'),
        'One mutator left open breaks hashability guarantees for all users.',
        [ST + 'immutable.py', ST + 'singleton.py'], [('metaclass lock', ST + 'immutable.py'), ('__it__', ST + 'singleton.py')],
        [immutable_tables, singleton_tables]),
    'D10': prop(
        'Equality, ordering and hash agree',
        'The comparison mixins compare by what they hash: ComparableAndHashableBy by the named field of each side, ...ByInt by int(), ...ByStr and '
        'StrEqHashableMixin by str(), HashableMixin by identity, OmniHashableMixin by all listed fields (unequal if a field is missing or the class differs), '
        'HashableIntEnum and ComparableIntEnum by value, ComparableEnum after conversion, DictionaryEQAble by exact type and all attributes, '
        'frozendict by its items; equal objects hash equal, != is the negation of ==, and <, <=, >, >= use the same key.',
        (['inputs'], 'every pair of objects'),
        'Consistency is a property of pairs of methods over all values.',
        [ST + 'mixins', ST + 'immutable.py'], [('__eq__ and __hash__ over the same key', ST + 'mixins')],
        [hash_tables]),
    'D12': prop(
        'Dictionary wrappers behave as documented',
        'DirtyDict becomes dirty exactly when its content changes (not on setting an equal value) and swap/copy_and_clear_dirty hand over the content and reset the flag; '
        'KeyAwareDefaultDict creates and stores a missing value from its key once; DefaultDict does not store defaults; DictionaryView looks up, '
        'assigns, deletes, iterates and counts each key once, in the order of its dictionaries, honouring assign_to_same_dict and propagate_deletes; '
        'DictObject maps attributes to keys (AttributeError if missing), apply_dict_object converts all nested dicts and lists; CountingDict counts. '
        'PushIterable pops pushed items first, SetZip is the union in order, Vector operations are element-wise.',
        (['inputs', 'histories'], 'every content and sequence of operations'),
        'Priority between dictionaries and flag state depend on what each of them holds.',
        [ST + 'dictionaries', ST + 'push_iterable.py', ST + 'zip_dict.py', ST + 'tuples.py'],
        [('MutableMapping implementations', ST + 'dictionaries/objects.py')],
        [dict_tables, misc_tables]),
    'D14': prop(
        'SparseMatrix content and dimensions',
        'Setting, deleting and clearing elements, rows and columns of a SparseMatrix keeps rows and columns equal to the smallest size that holds all '
        'remaining elements, never leaves empty rows or stale column counts behind, treats setting None as deletion, and returns None for unset elements '
        'inside and IndexError outside of the matrix; min and max ignore None, equality compares content.',
        (['inputs', 'histories'], 'every sequence of assignments and deletions'),
        'The bookkeeping of rows and columns goes wrong only for particular deletion orders.',
        [ST + 'sparse_matrix.py'], [('rows_dict and known_column_count', ST + 'sparse_matrix.py')],
        [sparse_tables]),
}
