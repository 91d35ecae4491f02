"""E01 - E05: exceptions, decorators, iterators, small helpers."""
import ast

from ..engine import Interp, isnone
from ..q import *
from ..model import models
from .conc_futures import TABLE, TABLE_TEXT
from .structures import MODEL_TECH, prop

SWALLOW = '''
#@ satella.coding.recast_exceptions.rethrow_as
import threading
def __enter__(self):
    self.__exception_remapped.was_raised = False
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    if exc_type is not None:
        for from_, to in self.mapping:
            if issubclass(exc_type, from_):
                self.__exception_remapped.was_raised = True
                if to is None:
                    return True
                raise to(self.exception_preprocessor(exc_val))
#@ satella.coding.recast_exceptions.rethrow_as closures=1
def __call__(self, fun):
    def inner(*args, **kwargs):
        with self:
            v = fun(*args, **kwargs)
            self.__exception_remapped.was_raised = False
        if self.__exception_remapped.was_raised:
            if self.returns is not None:
                return self.returns
            elif self.returns_factory is not None:
                return self.returns_factory()
            return
        return v
    return inner
#@ satella.coding.recast_exceptions.reraise_as
def __init__(self, source_exc, target_exc, *args, **kwargs):
    self.source = source_exc
    self.target_exc = target_exc
    self.args = args
    self.kwargs = kwargs
def __enter__(self):
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    if exc_val is not None:
        if isinstance(exc_val, self.source):
            if self.target_exc is None:
                return True
            raise self.target_exc(*self.args, **self.kwargs) from exc_val
    return False
#@ satella.coding.recast_exceptions.reraise_as closures=1 exc=1
def __call__(self, fun):
    def inner(*args, **kwargs):
        try:
            return fun(*args, **kwargs)
        except Exception as e:
            if isinstance(e, self.source):
                if self.target_exc is not None:
                    raise self.target_exc(*self.args, **self.kwargs) from e
                return
            raise
    return inner
#@ satella.coding.recast_exceptions.log_exceptions exc=1
def analyze_exception(self, e, args, kwargs):
    if not isinstance(e, self.exc_types):
        return False
    format_dict = {}
    if '{args}' in self.format_string:
        format_dict['args'] = args
    if '{kwargs}' in self.format_string:
        format_dict['kwargs'] = kwargs
    if self.locals is not None:
        for key, value in self.locals.items():
            if '{%s}' % (key,) in self.format_string:
                format_dict[key] = value
    format_dict['e'] = e
    self.logger.log(self.severity, self.format_string.format(**format_dict), exc_info=e)
    return True
#@ satella.coding.recast_exceptions.log_exceptions keep=analyze_exception
def __enter__(self):
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    if exc_type is None:
        return False
    if not self.analyze_exception(exc_val, (), {}):
        return False
    return self.swallow_exception
#@ satella.coding.recast_exceptions.log_exceptions keep=analyze_exception closures=1 exc=1
import inspect
def __call__(self, fun):
    if inspect.isgeneratorfunction(fun):
        def inner(*args, **kwargs):
            try:
                return (yield from fun(*args, **kwargs))
            except Exception as e:
                if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                    raise
        return inner
    else:
        def inner(*args, **kwargs):
            try:
                return fun(*args, **kwargs)
            except Exception as e:
                if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                    raise
        return inner
#@ satella.coding.recast_exceptions exc=1
def silence_excs(*exc_types, returns=None, returns_factory=None):
    return rethrow_as(exc_types, None, returns=returns, returns_factory=returns_factory)
def raises_exception(exc_class, clb):
    try:
        clb()
    except exc_class:
        return True
    return False
def catch_exception(exc_class, clb, return_instead=None, return_value_on_no_exception=False):
    try:
        result = clb()
    except exc_class as e:
        return e
    if return_instead is not None:
        return return_instead
    if return_value_on_no_exception:
        return result
    raise ValueError('Callable executed without error')
#@ satella.coding.decorators.decorators exc=1 closures=1
def call_method_on_exception(exc_classes, method_name, *args, **kwargs):
    def outer(fun):
        def inner(self, *f_args, **f_kwargs):
            try:
                return fun(self, *f_args, **f_kwargs)
            except Exception as e:
                if isinstance(e, exc_classes):
                    return getattr(self, method_name)(*args, **kwargs)
                raise
        return inner
    return outer
'''


def swallow_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), SWALLOW)


DECORATE = '''
#@ satella.coding.decorators.decorators closures=1 exc=1
import time
from satella.coding.concurrent import MonitorDict, Monitor
def chain_functions(fun_first):
    def outer(fun_next):
        def inner(*args, **kwargs):
            ret = fun_first(*args, **kwargs)
            if isinstance(ret, dict):
                return fun_next(**ret)
            elif isinstance(ret, tuple) and len(ret) == 2:
                args, kwargs = ret
                return fun_next(*args, **kwargs)
            elif isinstance(ret, tuple):
                return fun_next(*ret)
            else:
                return fun_next(ret)
        return inner
    return outer
def default_return(v):
    def outer(fun):
        def inner(*args, **kwargs):
            v_a = fun(*args, **kwargs)
            return v if v_a is None else v_a
        return inner
    return outer
def return_as_list(ignore_nulls=False):
    def outer(fun):
        def inner(*args, **kwargs):
            output = []
            for item in fun(*args, **kwargs):
                if item is None and ignore_nulls:
                    continue
                output.append(item)
            return output
        return inner
    return outer
def cache_memoize(cache_duration, time_getter=time.monotonic):
    def outer(fun):
        fun.memoize_timestamps = MonitorDict()
        fun.memoize_values = {}
        def inner(*args, **kwargs):
            now = time_getter()
            with Monitor.acquire(fun.memoize_timestamps):
                if args in fun.memoize_timestamps:
                    ts = fun.memoize_timestamps[args]
                    if now - ts > cache_duration:
                        with Monitor.release(fun.memoize_timestamps):
                            v = fun(*args, **kwargs)
                        fun.memoize_timestamps[args] = now
                        fun.memoize_values[args] = v
                else:
                    with Monitor.release(fun.memoize_timestamps):
                        v = fun(*args, **kwargs)
                    fun.memoize_timestamps[args] = now
                    fun.memoize_values[args] = v
                return fun.memoize_values[args]
        return inner
    return outer
def memoize(fun):
    fun.memoizer = MonitorDict()
    def inner(*args, **kwargs):
        with Monitor.acquire(fun.memoizer):
            if args in fun.memoizer:
                return fun.memoizer[args]
            else:
                with Monitor.release(fun.memoizer):
                    v = fun(*args, **kwargs)
                fun.memoizer[args] = v
                return v
    return inner
def short_none(clb):
    if isinstance(clb, str):
        q = dict(globals())
        exec('_callable = lambda x: ' + clb, q)
        clb = q['_callable']
    def inner(arg):
        if arg is None:
            return None
        return clb(arg)
    return inner
#@ satella.coding.decorators.decorators closures=1
import inspect
def wraps(cls_to_wrap):
    def outer(cls):
        if hasattr(cls_to_wrap, '__doc__'):
            try:
                cls.__doc__ = cls_to_wrap.__doc__
            except AttributeError:
                pass
        if hasattr(cls_to_wrap, '__name__'):
            try:
                cls.__name__ = cls_to_wrap.__name__
            except (AttributeError, TypeError):
                pass
        if hasattr(cls_to_wrap, '__module__'):
            try:
                cls.__module__ = cls_to_wrap.__module__
            except AttributeError:
                pass
        if hasattr(cls_to_wrap, '__annotations__'):
            try:
                cls.__annotations__ = cls_to_wrap.__annotations__
            except (AttributeError, TypeError):
                pass
        try:
            sig = inspect.signature(cls_to_wrap)
            cls.__signature__ = sig
        except (TypeError, ValueError, RecursionError, AttributeError):
            pass
        try:
            cls.__wrapped__ = cls_to_wrap
        except AttributeError:
            pass
        return cls
    return outer
#@ satella.coding.decorators.arguments closures=1 exc=1
def execute_before(callable_):
    def outer(*args, **kwargs):
        if len(args) == 1 and not kwargs and callable(args[0]):
            def inner(*my_args, **my_kwargs):
                callable_()
                return args[0](*my_args, **my_kwargs)
            return inner
        else:
            def inner(func):
                def inner2(*my_args, **my_kwargs):
                    callable_(*args, **kwargs)
                    return func(*my_args, **my_kwargs)
                return inner2
            return inner
    return outer
def attach_arguments(*args, **kwargs):
    def outer(fun):
        def inner(*my_args, **my_kwargs):
            my_kwargs.update(kwargs)
            return fun(*my_args, *args, **my_kwargs)
        return inner
    return outer
def attach_arguments(*args, **kwargs):
    def outer(fun):
        def inner(*my_args, **my_kwargs):
            return fun(*my_args, *args, **{**my_kwargs, **kwargs})
        return inner
    return outer
def copy_arguments(deep_copy=False):
    f_copy = copy.deepcopy if deep_copy else copy.copy
    def outer(fun):
        def inner(*args, **kwargs):
            args = tuple((f_copy(arg) for arg in args))
            kwargs = {name: f_copy(value) for name, value in kwargs.items()}
            return fun(*args, **kwargs)
        return inner
    return outer
def execute_if_attribute_none(attribute):
    def outer(fun):
        def inner(self, *args, **kwargs):
            if getattr(self, attribute) is None:
                return fun(self, *args, **kwargs)
        return inner
    return outer
def execute_if_attribute_not_none(attribute):
    def outer(fun):
        def inner(self, *args, **kwargs):
            if getattr(self, attribute) is not None:
                return fun(self, *args, **kwargs)
        return inner
    return outer
def cached_property(prop_name, assume_not_loaded=None):
    def outer(fun):
        def inner(self, *args, **kwargs):
            attr_v = getattr(self, prop_name)
            if attr_v == assume_not_loaded:
                attr_v = fun(self, *args, **kwargs)
                setattr(self, prop_name, attr_v)
            return attr_v
        return inner
    return outer
#@ satella.coding.decorators.arguments._MethodDecoratorAdaptor exc=1
def __call__(self, *args, **kwargs):
    return self.decorator(self.func)(*args, **kwargs)
def __get__(self, instance, owner):
    return self.decorator(self.func.__get__(instance, owner))
#@ satella.coding.decorators.flow_control closures=1 exc=1
def loop_while(pred=lambda: True):
    def outer(fun):
        def inner(*args, **kwargs):
            pred_f = pred
            if len(args):
                def pred_f():
                    return pred(args[0])
            while pred_f():
                fun(*args, **kwargs)
        return inner
    return outer
#@ satella.coding.optionals exc=1
def iterate_if_nnone(iterable):
    return iter(iterable) if iterable is not None else iter(tuple())
def call_if_nnone(clbl, *args, **kwargs):
    return clbl(*args, **kwargs) if clbl is not None else None
#@ satella.coding.ctxt_managers closures=1 exc=1
def wrap_callable_in_context_manager(clbl, ctxt_mgr, *my_args, **my_kwargs):
    def inner(*args, **kwargs):
        with ctxt_mgr(*my_args, **my_kwargs):
            return clbl(*args, **kwargs)
    return inner
'''


def decorator_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), DECORATE)



ARGUMENTS = '''
#@ satella.coding.misc exc=1 keep=_get_arguments
from inspect import Parameter, signature
def get_arguments(function, *args, **kwargs):
    return _get_arguments(function, False, *args, **kwargs)
def call_with_arguments(function, arguments):
    args = []
    kwargs = {}
    for param in signature(function).parameters.values():
        param_name = param.name
        param_kind = param.kind
        if param_name not in arguments:
            if param_kind in (Parameter.VAR_KEYWORD, Parameter.VAR_POSITIONAL):
                continue
            elif param.default == Parameter.empty:
                raise TypeError('Argument %s not found' % (param_name,))
            continue
        if param_kind == Parameter.POSITIONAL_ONLY or param_kind == Parameter.POSITIONAL_OR_KEYWORD:
            args.append(arguments.pop(param_name))
        elif param_kind == Parameter.VAR_POSITIONAL:
            args.extend(arguments.pop(param_name))
        elif param_kind == Parameter.KEYWORD_ONLY:
            kwargs[param_name] = arguments.pop(param_name)
        elif param_kind == Parameter.VAR_KEYWORD:
            kwargs.update(arguments.pop(param_name))
        else:
            raise TypeError('Unknown parameter type')
    if arguments:
        raise ValueError('Too many arguments provided')
    return function(*args, **kwargs)
def update_attr_if_none(obj, attr, value, on_attribute_error=True, if_value_is_not_none=False):
    if if_value_is_not_none:
        if value is not None:
            setattr(obj, attr, value)
    else:
        try:
            val = getattr(obj, attr)
            if val is None:
                setattr(obj, attr, value)
        except AttributeError:
            if not on_attribute_error:
                raise
            setattr(obj, attr, value)
    return obj
def update_key_if_true(dictionary, key, value, flag=_BLANK):
    if flag is _BLANK:
        flag = bool(value)
    if flag:
        dictionary[key] = value
    return dictionary
def update_key_if_not_none(dictionary, key, value=_BLANK):
    if value is _BLANK:
        for key, val in key.items():
            if val is not None:
                dictionary[key] = val
    elif value is not None:
        dictionary[key] = value
    return dictionary
def length(lenable):
    try:
        return len(lenable)
    except TypeError:
        i = 0
        for _ in lenable:
            i += 1
        return i
def contains(needle, haystack):
    for item in haystack:
        if needle == item:
            return True
    return False
def queue_iterator(queue):
    while queue.qsize() > 0:
        try:
            yield queue.get(block=False)
        except Empty:
            return
def enum_value(value):
    if isinstance(value, enum.Enum):
        return value.value
    return value
#@ satella.coding.misc.Closeable
def close(self):
    try:
        return not self.__finalized
    except AttributeError:
        warnings.warn(ANY, UserWarning)
    finally:
        self.__finalized = True
def closed(self):
    try:
        return self.__finalized
    except AttributeError:
        warnings.warn(ANY, UserWarning)
        return True
#@ satella.coding.misc.Closeable keep=close
def __enter__(self):
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    self.close()
def __del__(self):
    self.close()
#@ satella.coding.decorators.arguments closures=1 exc=1 keep=get_arguments,call_with_arguments,build_structure,source_to_function,_get_arguments
import inspect, itertools
def transform_result(expr):
    def outer(fun):
        def inner(*args, **kwargs):
            a = fun(*args, **kwargs)
            local = get_arguments(fun, *args, **kwargs)
            local['x'] = a
            return eval(expr, globals(), local)
        return inner
    return outer
def transform_arguments(**expressions):
    def outer(fun):
        def inner(*args, **kwargs):
            old_args = get_arguments(fun, *args, **kwargs)
            new_args = {}
            for arg, arg_value in expressions.items():
                new_args[arg] = eval(arg_value, globals(), old_args)
            for new_arg in old_args:
                if new_arg not in new_args:
                    new_args[new_arg] = old_args[new_arg]
            return call_with_arguments(fun, new_args)
        return inner
    return outer
def replace_argument_if(arg_name, structure, instance_of=None, predicate=None):
    def outer(fun):
        def inner(*args, **kwargs):
            args_dict = get_arguments(fun, *args, **kwargs)
            if arg_name in args_dict:
                v = args_dict[arg_name]
                if predicate(v) if predicate is not None else isinstance(v, instance_of):
                    args_dict[arg_name] = build_structure(structure, v)
                    return call_with_arguments(fun, args_dict)
            return fun(*args, **kwargs)
        return inner
    return outer
def replace_argument_if(arg_name, structure, instance_of=None, predicate=None):
    def outer(fun):
        def inner(*args, **kwargs):
            args_dict = get_arguments(fun, *args, **kwargs)
            if arg_name in args_dict:
                v = args_dict[arg_name]
                if predicate is not None or isinstance(v, instance_of):
                    args_dict[arg_name] = build_structure(structure, v)
                    return call_with_arguments(fun, args_dict)
            return fun(*args, **kwargs)
        return inner
    return outer
#@ satella.coding.decorators.arguments closures=1 max_iter=1 keep=get_arguments,call_with_arguments,build_structure,source_to_function,_get_arguments
import inspect, itertools
def for_argument(*t_ops, **t_kwops):
    new_t_ops = []
    for op in t_ops:
        if op == 'self':
            new_t_ops.append(_NOP)
        elif op is None:
            new_t_ops.append(_NOP)
        elif isinstance(op, str):
            new_t_ops.append(source_to_function(op))
        else:
            new_t_ops.append(op)
    t_ops = new_t_ops
    returns = t_kwops.pop('returns', _NOP)
    for key, value in t_kwops.items():
        if value is None:
            t_kwops[key] = _NOP
        elif isinstance(value, str):
            t_kwops[key] = source_to_function(value)
    def outer(fun):
        comparison = False
        for param in inspect.signature(fun).parameters.values():
            try:
                if Parameter.empty != param.default:
                    comparison = True
                    break
            except (AttributeError, TypeError):
                comparison = True
                break
        if comparison:
            def inner(*args, **kwargs):
                dict_operations = _get_arguments(fun, True, *t_ops, **t_kwops)
                dict_values = get_arguments(fun, *args, **kwargs)
                arguments = {}
                for arg_name in dict_values:
                    v = dict_values[arg_name]
                    if arg_name in dict_operations:
                        f = dict_operations[arg_name]
                        if callable(f) and f is not None:
                            v = f(v)
                    arguments[arg_name] = v
                return returns(call_with_arguments(fun, arguments))
        else:
            def inner(*args, **kwargs):
                assert len(args) >= len(t_ops), 'Invalid number of arguments'
                a = fun(*((_NOP if op2 is None else op2)(arg) for arg, op2 in itertools.zip_longest(args, t_ops, fillvalue=None)), **{k: t_kwops.get(k, _NOP)(v) for k, v in kwargs.items()})
                return returns(a)
        return inner
    return outer
'''

FLOW = '''
#@ satella.coding.decorators.preconditions closures=1 exc=1 keep=source_to_function
import itertools
from satella.exceptions import PreconditionError
@for_argument(source_to_function)
def postcondition(condition):
    def outer(fun):
        def inner(*args, **kwargs):
            v = fun(*args, **kwargs)
            if condition(v) is False:
                raise PreconditionError('Condition not true')
            return v
        return inner
    return outer
#@ satella.coding.decorators.retry_dec closures=1 exc=1
import itertools
def retry(times=None, exc_classes=Exception, on_failure=lambda e: None, swallow_exception=True, call_on_failure=None,
          call_on_success=None, call_between_retries=None):
    if call_on_failure is not None:
        warnings.warn(ANY, DeprecationWarning)
    def outer(fun):
        def inner(*args, **kwargs):
            iterator = itertools.count() if times is None else range(times)
            for i in iterator:
                try:
                    y = fun(*args, **kwargs)
                except exc_classes as e:
                    f = e
                    if call_between_retries is not None and i + 1 != times:
                        call_between_retries(e)
                else:
                    if call_on_success is not None:
                        call_on_success(i)
                    return y
            on_failure(f)
            if call_on_failure is not None:
                call_on_failure(f)
            if not swallow_exception:
                raise f
        return inner
    return outer
#@ satella.coding.decorators.flow_control closures=1 exc=1
import queue
def queue_get(queue_getter, timeout=None, exception_empty=queue.Empty, queue_get_method=lambda x, timeout: x.get(timeout=timeout), method_to_execute_on_empty=None):
    def outer(fun):
        def inner(self):
            try:
                que = getattr(self, queue_getter) if isinstance(queue_getter, str) else queue_getter(self)
                item = queue_get_method(que, timeout)
            except exception_empty:
                if method_to_execute_on_empty is not None:
                    if callable(method_to_execute_on_empty):
                        method_to_execute_on_empty()
                    elif isinstance(method_to_execute_on_empty, str):
                        getattr(self, method_to_execute_on_empty)()
                return
            return fun(self, item)
        return inner
    return outer
'''


def argument_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), ARGUMENTS)


def flow_tables(ctx):
    models(ctx, ctx.rule(TABLE, TABLE_TEXT), FLOW)


def predicate_asked(ctx):
    rule = ctx.rule('predicate-asked', 'On every path of the wrapper made by replace_argument_if on which a predicate was given and the argument is '
                                       'replaced, the predicate has been called before.')
    f = ctx.p.func('satella.coding.decorators.arguments.replace_argument_if')
    ctx.funcs.add(f.where)
    name = 'satella.coding.decorators.arguments.replace_argument_if'
    with ctx.item(rule, name):
        n = 0
        for st, p in Interp(ctx.p).closure_paths(f):
            for e in evs(p, 'call', name='build_structure'):
                if fact(p, isnone(('p', 'predicate')), e) is False:
                    n += 1
                    ctx.check(any(c.d.get('fn') == ('p', 'predicate') for c in evs(p, 'call') if index(p, c) < index(p, e)), rule, name,
                              'the argument is replaced although the predicate has never been called on it', where=f.where, line=f.node.lineno, path=p)
        if not n:
            raise Undecided('no replacement found')



CO = 'satella/coding/'
DE = CO + 'decorators/'

PROPS = {
    'E01': prop(
        'Only the named exceptions are swallowed, remapped or logged',
        'rethrow_as maps an exception to the target of the first pair whose class matches (None swallows it and, as a decorator, yields returns or '
        'returns_factory()), reraise_as replaces exactly instances of source_exc, chaining the original, silence_excs and catch_exception take exactly '
        'the listed classes, log_exceptions logs what matches and propagates it unless told to swallow it, raises_exception and call_method_on_exception '
        'react to the listed classes only. Every other exception propagates unchanged, and without an exception the result of the wrapped function or '
        'generator is what the caller gets.',
        (['inputs', 'fault_sequences'], 'every exception class, wrapped function and nesting'),
        'An exception of another class at another place is what tests do not raise.',
        [CO + 'recast_exceptions.py', DE + 'decorators.py'],
        [('__exit__ and decorator form of each class', CO + 'recast_exceptions.py')],
        [swallow_tables]),
    'E02': prop(
        'Decorators call the function as documented',
        'cached_property, cache_memoize and memoize compute once per key (and again after cache_duration) and serve the stored result; '
        'default_return, return_as_list, chain_functions, attach_arguments, copy_arguments, execute_before, execute_if_attribute_none, '
        'execute_if_attribute_not_none, auto_adapt_to_methods, loop_while, short_none, call_if_nnone, iterate_if_nnone and '
        'wrap_callable_in_context_manager call the wrapped function exactly when and with exactly what they document, once, and pass on its result '
        'and its exceptions.',
        (['inputs'], 'every function, arguments and result'),
        'Falsy results, keyword arguments and raising functions take paths that samples miss.',
        [DE + 'decorators.py', DE + 'arguments.py', DE + 'flow_control.py', CO + 'optionals.py', CO + 'ctxt_managers.py'],
        [('closures over the decorated function', DE)],
        [decorator_tables]),
    'E03': prop(
        'Arguments reach the function under their own names',
        'get_arguments and call_with_arguments are inverse to each other for every kind of parameter (positional-only, defaulted, *args, keyword-only, '
        '**kwargs); transform_arguments, replace_argument_if, for_argument and transform_result change exactly the arguments they name and pass all '
        'others as they were. update_attr_if_none, update_key_if_not_none, update_key_if_true, length, contains and enum_value decide by the tests '
        'they name, and a Closeable runs its close once.',
        (['inputs'], 'every signature and every way of passing the arguments'),
        'Signatures have unboundedly many shapes; each parameter kind is its own path.',
        [DE + 'arguments.py', CO + 'misc.py'],
        [('get_arguments/call_with_arguments', CO + 'misc.py')],
        [argument_tables, predicate_asked], technique=MODEL_TECH + ' and must-precede query'),
    'E04': prop(
        'Preconditions, retries and queue loops follow their rules',
        'A function with a failing postcondition raises PreconditionError and one whose condition holds returns its result; '
        'retry calls the function up to times (forever without), stops at the first success, retries only exc_classes, runs call_between_retries '
        'between attempts, call_on_success and call_on_failure once at the end, and then swallows or raises the last exception as told. '
        'queue_get takes one item from the named or computed queue per call, hands it to the method, and runs method_to_execute_on_empty '
        'only if the queue raised exception_empty.',
        (['inputs', 'fault_sequences'], 'every sequence of failures and results'),
        'Which callback runs how often depends on the sequence of failures.',
        [DE + 'preconditions.py', DE + 'retry_dec.py', DE + 'flow_control.py'],
        [('retry loop', DE + 'retry_dec.py')],
        [flow_tables]),
}
