"""M*, E08: metrics, memory pressure, exception handlers and tracing."""
import ast

from .data import tables
from .structures import prop
from ..core import Undecided
from ..project import Cls

LEVELS = r'''
#= satella.instrumentation.metrics.metric_types.base.MetricLevel.DISABLED 1
#= satella.instrumentation.metrics.metric_types.base.MetricLevel.RUNTIME 2
#= satella.instrumentation.metrics.metric_types.base.MetricLevel.DEBUG 3
#= satella.instrumentation.metrics.metric_types.base.MetricLevel.INHERIT 4
#= satella.instrumentation.metrics.metric_types.base.DISABLED MetricLevel.DISABLED
#= satella.instrumentation.metrics.metric_types.base.RUNTIME MetricLevel.RUNTIME
#= satella.instrumentation.metrics.metric_types.base.DEBUG MetricLevel.DEBUG
#= satella.instrumentation.metrics.metric_types.base.INHERIT MetricLevel.INHERIT
#@ satella.instrumentation.metrics.metric_types.base.MetricLevel
def __ge__(self, other):
    return self.value >= other.value
#@ satella.instrumentation.metrics.metric_types.base.Metric exc=1
def __init__(self, name, root_metric=None, metric_level=None, internal=False, *args, **kwargs):
    self.name = name
    self.root_metric = root_metric
    self.internal = internal
    if metric_level is None:
        if self.name == '':
            metric_level = MetricLevel.RUNTIME
        else:
            metric_level = MetricLevel.INHERIT
    self._level = MetricLevel(metric_level)
    self.enable_timestamp = kwargs.get('enable_timestamp', False)
    self.last_updated = time.time() if self.enable_timestamp else None
    assert not (self.name == '' and self.level == MetricLevel.INHERIT), 'Unable to set INHERIT for root metric!'
    self.children = []
def get_timestamp(self):
    return self.last_updated if self.enable_timestamp else None
@property
def level(self):
    metric = self
    while metric._level == MetricLevel.INHERIT:
        metric = metric.root_metric
    return metric._level
def append_child(self, metric):
    self.children.append(metric)
def can_process_this_level(self, target_level):
    return self.level >= target_level
def can_process_this_level(self, target_level):
    return target_level <= self.level
def can_process_this_level(self, target_level):
    return not self.level < target_level
def _handle(self, *args, **kwargs):
    raise TypeError('This is a container metric!')
@for_argument(None, MetricLevel)
def handle(self, level, *args, **kwargs):
    if self.can_process_this_level(level):
        if self.enable_timestamp:
            self.last_updated = time.time()
        self._handle(*args, **kwargs)
def debug(self, *args, **kwargs):
    self.handle(MetricLevel.DEBUG, *args, **kwargs)
def runtime(self, *args, **kwargs):
    self.handle(MetricLevel.RUNTIME, *args, **kwargs)
#@ satella.instrumentation.metrics.metric_types.base.Metric exc=1
@level.setter
@for_argument(None, MetricLevel)
def level(self, value):
    assert not (value == MetricLevel.INHERIT and self.name == ''), 'Cannot set INHERIT for the root metric!'
    self._level = value
#@ satella.instrumentation.metrics.metric_types.base.LeafMetric exc=1
def __init__(self, name, root_metric=None, metric_level=None, labels=None, internal=False, *args, **kwargs):
    super().__init__(name, root_metric, metric_level, internal, *args, **kwargs)
    self.labels = labels or {}
    assert '_timestamp' not in self.labels, 'Cannot make a label called _timestamp!'
def append_child(self, metric):
    raise TypeError('This metric cannot contain children!')
#@ satella.instrumentation.metrics.labeled.LabeledMetric
def __init__(self, metric_to_wrap, **labels):
    self.metric_to_wrap = metric_to_wrap
    self.labels = labels
    self.callable = labels.pop('callable', lambda: 0)
    if isinstance(metric_to_wrap, CallableMetric):
        metric_to_wrap.register_labeled_metric(self)
def handle(self, level, *args, **kwargs):
    kwargs.update(self.labels)
    self.metric_to_wrap.handle(level, *args, **kwargs)
#@ satella.instrumentation.metrics.aggregate.AggregateMetric
def __init__(self, *metrics):
    self.metrics = metrics
def handle(self, level, *args, **kwargs):
    Multirun(self.metrics).handle(level, *args, **kwargs)
'''

MEASURABLE = r'''
#@ satella.instrumentation.metrics.metric_types.measurable_mixin.MeasurableMixin
def measure_future(self, future, logging_level=MetricLevel.RUNTIME, value_getter=time.monotonic, **labels):
    old_value = value_getter()

    def on_future_done(fut):
        self.handle(logging_level, value_getter() - old_value, **labels)
    future.add_done_callback(on_future_done)
#@ satella.instrumentation.metrics.metric_types.measurable_mixin.MeasurableMixin.measure inner=1
def __enter__(self):
    self.value = value_getter()
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    if not include_exceptions and exc_type is not None:
        return False
    elapsed = value_getter() - self.value
    _owner.handle(logging_level, elapsed, **labels)
    return False
#@ satella.instrumentation.metrics.metric_types.measurable_mixin.MeasurableMixin.measure inner=1 exc=1
def inner_normal(*args, **kwargs):
    start_value = value_getter()
    excepted = None
    try:
        return fun(*args, **kwargs)
    except Exception as e:
        excepted = e
    finally:
        value_taken = value_getter() - start_value
        if excepted is not None and (not include_exceptions):
            raise excepted
        _owner.handle(logging_level, value_taken, **labels)
        if excepted is not None:
            raise excepted
def inner_generator(*args, **kwargs):
    start_value = value_getter()
    excepted = None
    try:
        return (yield from fun(*args, **kwargs))
    except Exception as e:
        excepted = e
    finally:
        value_taken = value_getter() - start_value
        if excepted is not None and (not include_exceptions):
            raise excepted
        _owner.handle(logging_level, value_taken, **labels)
        if excepted is not None:
            raise excepted
'''

REGISTRY = r'''
#= satella.instrumentation.metrics.ALLOWED_CHARACTERS string.ascii_uppercase + string.digits + ':' + '_' + '.'
#= satella.instrumentation.metrics.metric_types.base.Metric.CLASS_NAME 'base'
#= satella.instrumentation.metrics.metric_types.empty.EmptyMetric.CLASS_NAME 'empty'
#= satella.instrumentation.metrics.metric_types.simple.SimpleMetric.CLASS_NAME 'string'
#= satella.instrumentation.metrics.metric_types.simple.IntegerMetric.CLASS_NAME 'int'
#= satella.instrumentation.metrics.metric_types.simple.FloatMetric.CLASS_NAME 'float'
#= satella.instrumentation.metrics.metric_types.counter.CounterMetric.CLASS_NAME 'counter'
#= satella.instrumentation.metrics.metric_types.cps.ClicksPerTimeUnitMetric.CLASS_NAME 'cps'
#= satella.instrumentation.metrics.metric_types.callable.CallableMetric.CLASS_NAME 'callable'
#= satella.instrumentation.metrics.metric_types.uptime.UptimeMetric.CLASS_NAME 'uptime'
#= satella.instrumentation.metrics.metric_types.histogram.HistogramMetric.CLASS_NAME 'histogram'
#= satella.instrumentation.metrics.metric_types.linkfail.LinkfailMetric.CLASS_NAME 'linkfail'
#= satella.instrumentation.metrics.metric_types.summary.SummaryMetric.CLASS_NAME 'summary'
#= satella.instrumentation.metrics.metric_types.summary.QuantileMetric.CLASS_NAME 'quantile'
#@ satella.instrumentation.metrics exc=1
def adjust_metric_level_for_root(metric_level, metric_level_to_set_for_children):
    if metric_level is None:
        return MetricLevel.RUNTIME
    elif metric_level_to_set_for_children == MetricLevel.INHERIT:
        return MetricLevel.RUNTIME
    else:
        return metric_level_to_set_for_children
def _process_metric(name, name_index, metric_level, metric_level_to_set_for_children, name_part, root_metric, metric_name, metric_type, kwargs):
    tentative_name = '.'.join(name[:name_index])
    if tentative_name not in metrics:
        if tentative_name == '':
            metric = Metric('', None, adjust_metric_level_for_root(metric_level, metric_level_to_set_for_children), **kwargs)
            metric.level = MetricLevel.RUNTIME
            root_metric = metric
        elif metric_name == tentative_name:
            metric = METRIC_NAMES_TO_CLASSES[metric_type](name_part, root_metric, metric_level, **kwargs)
        else:
            metric = Metric(name_part, root_metric, metric_level_to_set_for_children, **kwargs)
        if metric != root_metric:
            root_metric.append_child(metric)
        metrics[tentative_name] = metric
    else:
        metric = metrics[tentative_name]
    root_metric = metric
    return (metric, root_metric)
def getMetric(metric_name='', metric_type='base', metric_level=None, **kwargs):
    for character in metric_name.upper():
        if character not in ALLOWED_CHARACTERS:
            raise ValueError('Metric name contains a forbidden character %s' % (character,))
    metric_level_to_set_for_children = metric_level or MetricLevel.INHERIT
    name = metric_name.split('.')
    with metrics_lock:
        root_metric = None
        if metric_name in metrics:
            if metrics[metric_name].CLASS_NAME != metric_type:
                raise MetricAlreadyExists('Metric of name %s exists with type %s, which is different that requested %s' % (metric_name, metrics[metric_name].CLASS_NAME, metric_type), name=metric_name, requested_type=metric_type, existing_type=metrics[metric_name].CLASS_NAME)
        for name_index, name_part in itertools.chain(((0, ''),), enumerate(name, start=1)):
            metric, root_metric = _process_metric(name, name_index, metric_level, metric_level_to_set_for_children, name_part, root_metric, metric_name, metric_type, kwargs)
        if metric_level is not None:
            metric.level = metric_level
        return metric
#@ satella.instrumentation.metrics.metric_types.registry
def register_metric(cls):
    METRIC_NAMES_TO_CLASSES[cls.CLASS_NAME] = cls
    return cls
#@ satella.instrumentation.metrics.metric_types.base.Metric
def get_fully_qualified_name(self):
    data = []
    metric = self
    while metric.root_metric is not None:
        data.append(metric.name)
        metric = metric.root_metric
    return '.'.join(reversed(data))
'''

DATA = r'''
#@ satella.instrumentation.metrics.data
def join_metric_data_name(prefix, name):
    if prefix == '':
        return name
    else:
        return prefix + '.' + name
#@ satella.instrumentation.metrics.data.MetricData
def __init__(self, name, value, labels=None, timestamp=None, internal=False):
    self.name = name
    self.internal = internal
    self.value = value
    self.labels = frozendict(labels) if labels is not None else frozendict()
    self.timestamp = timestamp
def add_labels(self, labels):
    labels_current = dict(self.labels)
    labels_current.update(labels)
    self.labels = frozendict(labels_current)
def __eq__(self, other):
    return self.labels == other.labels and self.name == other.name
def prefix_with(self, prefix):
    self.name = join_metric_data_name(prefix, self.name)
def postfix_with(self, postfix):
    self.name = join_metric_data_name(self.name, postfix)
def __hash__(self):
    return hash(self.labels) ^ hash(self.name)
def to_json(self, prefix=''):
    k = {'_name': join_metric_data_name(prefix, self.name), '_': self.value, **self.labels}
    if self.timestamp is not None:
        k['_timestamp'] = self.timestamp
    if self.internal:
        k['_internal'] = True
    return k
@classmethod
def from_json(cls, x):
    x = dict(x)
    name = x.pop('_name')
    value = x.pop('_')
    timestamp = x.pop('_timestamp', None)
    internal = x.pop('_internal', False)
    return MetricData(name, value, x, timestamp, internal)
def add_timestamp(self, timestamp):
    self.timestamp = timestamp
#@ satella.instrumentation.metrics.data.MetricDataCollection exc=1
def add_labels(self, labels):
    output = set()
    for child in self.values:
        child.add_labels(labels)
        output.add(child)
    self.values = output
def __init__(self, *values):
    if len(values) == 1:
        if isinstance(values[0], MetricData):
            self.values = set(values)
        elif isinstance(values[0], MetricDataCollection):
            self.values = values[0].values.copy()
        else:
            self.values = set(values[0])
    else:
        assert all(map(lambda x: isinstance(x, MetricData), values)), 'Not all arguments are MetricData!'
        self.values = set(values)
def to_json(self):
    return [x.to_json() for x in self.values]
def strict_eq(self, other):
    values_found = 0
    for value in self.values:
        for value_2 in other.values:
            if value == value_2:
                values_found += 1
                if value.value != value_2.value:
                    return False
                break
        else:
            return False
    return values_found == len(other.values)
@classmethod
def from_json(cls, x):
    return MetricDataCollection((MetricData.from_json(y) for y in x))
def __add__(self, other):
    if isinstance(other, MetricDataCollection):
        return self.__add_metric_data_collection(other)
    elif isinstance(other, MetricData):
        return self.__add_metric_data(other)
    raise TypeError('Unsupported addition with %s' % (other,))
def prefix_with(self, prefix):
    output = set()
    for child in self.values:
        child.prefix_with(prefix)
        output.add(child)
    self.values = output
    return self
def postfix_with(self, postfix):
    output = set()
    for child in self.values:
        child.postfix_with(postfix)
        output.add(child)
    self.values = output
    return self
def __add_metric_data(self, other):
    values = self.values.copy()
    if other in values:
        values.remove(other)
    values.add(other)
    return MetricDataCollection(values)
def __add_metric_data_collection(self, other):
    b = other.values.copy()
    for c in self.values:
        if c not in b:
            b.add(c)
    return MetricDataCollection(b)
def __iadd_metric_data_collection(self, other):
    other_values = other.values.copy()
    for elem in self.values:
        if elem not in other_values:
            other_values.add(elem)
    self.values = other_values
    return self
def __iadd_metric_data(self, other):
    if other in self.values:
        self.values.remove(other)
    self.values.add(other)
    return self
def __iadd__(self, other):
    if isinstance(other, MetricDataCollection):
        return self.__iadd_metric_data_collection(other)
    else:
        return self.__iadd_metric_data(other)
def set_timestamp(self, timestamp):
    for child in self.values:
        child.add_timestamp(timestamp)
    return self
def __eq__(self, other):
    return self.values == other.values
def set_value(self, value):
    for child in self.values:
        child.value = value
    return self
def remove_internals(self):
    self.values = {value for value in self.values if not value.internal}
'''

METRICS = r'''
#= satella.instrumentation.metrics.metric_types.simple.SimpleMetric.CONSTRUCTOR str
#= satella.instrumentation.metrics.metric_types.simple.SimpleMetric.DEFAULT_VALUE ''
#= satella.instrumentation.metrics.metric_types.simple.IntegerMetric.CONSTRUCTOR int
#= satella.instrumentation.metrics.metric_types.simple.IntegerMetric.DEFAULT_VALUE 0
#= satella.instrumentation.metrics.metric_types.simple.FloatMetric.CONSTRUCTOR float
#= satella.instrumentation.metrics.metric_types.simple.FloatMetric.DEFAULT_VALUE 0.0
#@ satella.instrumentation.metrics.metric_types.base.Metric
def to_metric_data(self):
    output = MetricDataCollection()
    for child in self.children:
        if child.level <= self.level:
            output += child.to_metric_data()
    output.prefix_with(self.name)
    if self.enable_timestamp:
        output.set_timestamp(self.last_updated)
    return output
#@ satella.instrumentation.metrics.metric_types.base.LeafMetric
def to_metric_data(self):
    return MetricDataCollection(MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
#@ satella.instrumentation.metrics.metric_types.base.EmbeddedSubmetrics
def __init__(self, name, root_metric=None, metric_level=None, labels=None, internal=False, *args, **kwargs):
    super().__init__(name, root_metric, metric_level, labels, internal, *args, **kwargs)
    self.args = args
    self.kwargs = kwargs
    self.embedded_submetrics_enabled = False
    self.children_mapping = {}
    self.last_updated = time.time()
def _handle(self, *args, **labels):
    if self.enable_timestamp:
        self.last_updated = time.time()
    key = tuple(sorted(labels.items()))
    if key:
        self.embedded_submetrics_enabled = True
    else:
        return
    if key in self.children_mapping:
        self.children_mapping[key]._handle(*args)
    else:
        clone = self.clone(labels)
        self.children_mapping[key] = clone
        self.children.append(clone)
        self.children_mapping[key]._handle(*args)
def to_metric_data(self):
    if self.embedded_submetrics_enabled:
        v = MetricDataCollection()
        for child in self.children:
            if child.level <= self.level:
                v = v + child.to_metric_data()
        return v
    else:
        return super().to_metric_data()
def get_specific_metric_data(self, labels):
    key = tuple(sorted(labels.items()))
    return self.children_mapping[key].to_metric_data()
def clone(self, labels):
    return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels, internal=self.internal, **self.kwargs)
#@ satella.instrumentation.metrics.metric_types.empty.EmptyMetric
def _handle(self, *args, **kwargs):
    pass
def to_metric_data(self):
    return MetricDataCollection()
#@ satella.instrumentation.metrics.metric_types.simple.SimpleMetric
def __init__(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.data = self.DEFAULT_VALUE
def _handle(self, value, **labels):
    if self.embedded_submetrics_enabled or labels:
        return super()._handle(value, **labels)
    self.data = self.CONSTRUCTOR(value)
def to_metric_data(self):
    if self.embedded_submetrics_enabled:
        return super().to_metric_data()
    return MetricDataCollection(MetricData(self.name, self.data, self.labels, self.get_timestamp(), self.internal))
#@ satella.instrumentation.metrics.metric_types.counter.CounterMetric
def __init__(self, name, root_metric=None, metric_level=None, internal=False, sum_children=True, count_calls=False, *args, **kwargs):
    super().__init__(name, root_metric, metric_level, *args, internal=internal, sum_children=sum_children, count_calls=count_calls, **kwargs)
    self.sum_children = sum_children
    self.count_calls = count_calls
    self.calls = 0
    self.value = 0
def to_metric_data(self):
    if self.embedded_submetrics_enabled:
        k = super().to_metric_data()
        if self.sum_children:
            k += MetricData(self.name + '.sum', self.value, self.labels, self.get_timestamp(), self.internal)
        if self.count_calls:
            k += MetricData(self.name + '.count', self.calls, self.labels, self.get_timestamp(), self.internal)
        return k
    p = super().to_metric_data()
    p.set_value(self.value)
    if self.count_calls:
        p += MetricData(self.name + '.count', self.calls, self.labels, self.get_timestamp(), self.internal)
    return p
def _handle(self, delta=0, **labels):
    if self.embedded_submetrics_enabled or labels:
        if self.sum_children:
            self.value += delta
        self.calls += 1
        return super()._handle(delta, **labels)
    self.value += delta
    self.calls += 1
#@ satella.instrumentation.metrics.metric_types.cps.ClicksPerTimeUnitMetric
def __init__(self, *args, time_unit_vectors=None, aggregate_children=True, internal=False, **kwargs):
    super().__init__(*args, internal=internal, time_unit_vectors=time_unit_vectors, **kwargs)
    time_unit_vectors = time_unit_vectors or [1]
    self.last_clicks = collections.deque()
    self.aggregate_children = aggregate_children
    self.cutoff_period = max(time_unit_vectors)
    self.time_unit_vectors = time_unit_vectors
def _handle(self, **labels):
    if labels or self.embedded_submetrics_enabled:
        return super()._handle(**labels)
    mono_time = time.monotonic()
    self.last_clicks.append(time.monotonic())
    try:
        while self.last_clicks[0] <= mono_time - self.cutoff_period:
            self.last_clicks.popleft()
    except IndexError:
        pass
def to_metric_data(self):
    if self.embedded_submetrics_enabled:
        k = super().to_metric_data()
        if not self.aggregate_children:
            return k
        else:
            last_clicks = []
            for child in self.children:
                last_clicks.extend(child.last_clicks)
            sum_data = self.count_vectors(last_clicks)
            sum_data.postfix_with('total')
            return k + sum_data
    return self.count_vectors(self.last_clicks)
def count_vectors(self, last_clicks):
    count_map = [0] * len(self.time_unit_vectors)
    mono_time = time.monotonic()
    time_unit_vectors = [mono_time - v for v in self.time_unit_vectors]
    for v in last_clicks:
        for index, cutoff in enumerate(time_unit_vectors):
            if v >= cutoff:
                count_map[index] += 1
    output = []
    for time_unit, count in zip(self.time_unit_vectors, count_map):
        output.append(MetricData(self.name, count, {'period': time_unit, **self.labels}, self.get_timestamp(), self.internal))
    return MetricDataCollection(output)
#@ satella.instrumentation.metrics.metric_types.callable.CallableMetric
def __init__(self, name, root_metric=None, metric_level=None, labels=None, internal=False, value_getter=None, *args, **kwargs):
    super().__init__(name, root_metric, metric_level, labels, internal, *args, **kwargs)
    self.callable = value_getter
    self.labeled_metrics = []
def register_labeled_metric(self, labeled_metric):
    self.labeled_metrics.append(labeled_metric)
def _handle(self, *args, **kwargs):
    raise TypeError('You are not supposed to call this!')
def to_metric_data(self):
    mdc = MetricDataCollection()
    for labeled_metric in self.labeled_metrics:
        labels = copy.copy(self.labels)
        labels.update(labeled_metric.labels)
        mdc += MetricData(self.name, labeled_metric.callable(), labels, time.time(), self.internal)
    if self.callable:
        mdc += MetricData(self.name, self.callable(), self.labels, time.time(), self.internal)
    return mdc
#@ satella.instrumentation.metrics.metric_types.uptime.UptimeMetric
def __init__(self, *args, time_getter=time.monotonic, **kwargs):
    super().__init__(*args, **kwargs)
    self.time_getter = time_getter
    self.basic_time = time_getter()
def _handle(self, *args, **kwargs):
    raise TypeError('You are not supposed to call this!')
def to_metric_data(self):
    return MetricDataCollection(MetricData(self.name, self.time_getter() - self.basic_time, self.labels, self.get_timestamp(), self.internal))
#@ satella.instrumentation.metrics.metric_types.histogram.HistogramMetric
def __init__(self, name, root_metric=None, metric_level=None, internal=False, buckets=(0.005, 0.01, 0.025, 0.05, 0.075, 0.1, 0.25, 0.5, 0.75, 1.0, 2.5, 5.0, 7.5, 10.0), aggregate_children=True, *args, **kwargs):
    super().__init__(name, root_metric, metric_level, *args, internal=internal, buckets=buckets, aggregate_children=aggregate_children, **kwargs)
    self.bucket_limits = list(buckets)
    self.buckets = [0] * (len(buckets) + 1)
    self.aggregate_children = aggregate_children
    self.count = 0
    self.sum = 0.0
def _handle(self, value, **labels):
    self.count += 1
    self.sum += value
    if self.embedded_submetrics_enabled or labels:
        super()._handle(value, **labels)
        if not self.aggregate_children:
            return
    lower_bound = 0.0
    for index, upper_bound in itertools.chain(enumerate(self.bucket_limits), [(len(self.bucket_limits), math.inf)]):
        if lower_bound <= value < upper_bound:
            self.buckets[index] += 1
        lower_bound = upper_bound
def to_metric_data(self):
    if self.embedded_submetrics_enabled:
        k = super().to_metric_data()
        if self.aggregate_children:
            mdc = self.containers_to_metric_data()
            mdc.postfix_with('total')
            mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(), self.internal)
            mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(), self.internal)
            k += mdc
        return k
    mdc = self.containers_to_metric_data()
    mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(), self.internal)
    mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(), self.internal)
    return mdc
def containers_to_metric_data(self):
    output = []
    lower_bound = 0.0
    for amount, upper_bound in zip(self.buckets, self.bucket_limits + [math.inf]):
        labels = self.labels.copy()
        labels.update(ge=upper_bound, le=lower_bound)
        output.append(MetricData(self.name, amount, labels, self.get_timestamp(), self.internal))
        lower_bound = upper_bound
    return MetricDataCollection(output)
#@ satella.instrumentation.metrics.metric_types.linkfail.LinkfailMetric
def __init__(self, name, root_metric=None, metric_level=None, labels=None, internal=False, consecutive_failures_to_offline=100, consecutive_successes_to_online=10, callback_on_online=lambda a, b: None, callback_on_offline=lambda a, b: None, *args, **kwargs):
    super().__init__(name, root_metric, metric_level, labels, internal, *args, consecutive_failures_to_offline=consecutive_failures_to_offline, consecutive_successes_to_online=consecutive_successes_to_online, callback_on_offline=callback_on_offline, callback_on_online=callback_on_online, **kwargs)
    self.working = collections.defaultdict(lambda: True)
    self.consecutive_failures = collections.defaultdict(lambda: 0)
    self.consecutive_successes = collections.defaultdict(lambda: 0)
    self.callback_on_online = callback_on_online
    self.callback_on_offline = callback_on_offline
    self.consecutive_failures_to_offline = consecutive_failures_to_offline
    self.consecutive_successes_to_online = consecutive_successes_to_online
def _handle(self, success, address=0, *args, **labels):
    if self.embedded_submetrics_enabled or labels:
        return super()._handle(success, *args, address=address, **labels)
    if success:
        self.consecutive_failures[address] = 0
        self.consecutive_successes[address] += 1
        if not self.working[address]:
            if self.consecutive_successes[address] == self.consecutive_successes_to_online:
                self.working[address] = True
                self.callback_on_online(address, self.labels)
    else:
        self.consecutive_failures[address] += 1
        self.consecutive_successes[address] = 0
        if self.working[address]:
            if self.consecutive_failures[address] == self.consecutive_failures_to_offline:
                self.working[address] = False
                self.callback_on_offline(address, self.labels)
def to_metric_data(self):
    if self.embedded_submetrics_enabled:
        return super().to_metric_data()
    mdc = MetricDataCollection()
    keys = set(self.consecutive_successes.keys())
    keys = keys.union(set(self.consecutive_failures.keys()))
    for address in keys:
        labels = self.labels.copy()
        if keys != {0}:
            labels.update(address=address)
        mdc += MetricData(self.name + '.consecutive_failures', self.consecutive_failures[address], labels, self.get_timestamp(), self.internal)
        mdc += MetricData(self.name + '.consecutive_successes', self.consecutive_successes[address], labels, self.get_timestamp(), self.internal)
        mdc += MetricData(self.name + '.status', int(self.working[address]), labels, self.get_timestamp(), self.internal)
    return mdc
#@ satella.instrumentation.metrics.metric_types.summary.SummaryMetric
def __init__(self, name, root_metric=None, metric_level=None, internal=False, last_calls=100, quantiles=(0.5, 0.95), aggregate_children=True, count_calls=True, *args, **kwargs):
    super().__init__(name, root_metric, metric_level, *args, internal=internal, last_calls=last_calls, quantiles=quantiles, aggregate_children=aggregate_children, count_calls=count_calls, **kwargs)
    self.last_calls = last_calls
    self.calls_queue = collections.deque()
    self.quantiles = quantiles
    self.aggregate_children = aggregate_children
    self.count_calls = count_calls
    self.tot_calls = 0
    self.tot_time = 0
def _handle(self, time_taken, **labels):
    if self.count_calls:
        self.tot_calls += 1
        self.tot_time += time_taken
    if labels or self.embedded_submetrics_enabled:
        return super()._handle(time_taken, **labels)
    if len(self.calls_queue) == self.last_calls:
        self.calls_queue.pop()
    self.calls_queue.appendleft(time_taken)
def to_metric_data(self):
    k = self._to_metric_data()
    if self.count_calls:
        k += MetricData(self.name + '.count', self.tot_calls, self.labels, self.get_timestamp(), self.internal)
        k += MetricData(self.name + '.sum', self.tot_time, self.labels, self.get_timestamp(), self.internal)
    return k
def _to_metric_data(self):
    if self.embedded_submetrics_enabled:
        k = super().to_metric_data()
        if self.aggregate_children:
            total_calls = []
            for child in self.children:
                total_calls.extend(child.calls_queue)
            total_calls.sort()
            q = self.calculate_quantiles(total_calls)
            q.postfix_with('total')
            k += q
        if self.count_calls:
            k += MetricData(self.name + '.count', self.tot_calls, self.labels, self.get_timestamp(), self.internal)
            k += MetricData(self.name + '.sum', self.tot_time, self.labels, self.get_timestamp(), self.internal)
        return k
    else:
        return self.calculate_quantiles(self.calls_queue)
def calculate_quantiles(self, calls_queue):
    output = MetricDataCollection()
    sorted_calls = sorted(calls_queue)
    for p_val in self.quantiles:
        if not sorted_calls:
            output += MetricData(self.name, 0.0, {'quantile': p_val, **self.labels}, self.get_timestamp(), self.internal)
        else:
            output += MetricData(self.name, percentile(sorted_calls, p_val), {'quantile': p_val, **self.labels}, self.get_timestamp(), self.internal)
    return output
'''

PROMETHEUS = r'''
#@ satella.instrumentation.metrics.exporters.prometheus
def metric_data_collection_to_prometheus(mdc):
    if not mdc.values:
        return '\n'
    obj = RendererObject()
    for value in mdc.values:
        if value.internal:
            continue
        obj.render(value)
    return obj.getvalue()
#@ satella.instrumentation.metrics.exporters.prometheus.RendererObject
def render(self, md):
    if md.internal:
        return
    self.write(md.name.replace('.', '_'))
    if md.labels:
        self.write('{')
        self.write(','.join(('%s="%s"' % (key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for key, value in md.labels.items())))
        self.write('}')
    self.write(' %s' % (md.value,))
    if md.timestamp is not None:
        self.write(' %s' % (int(md.timestamp * 1000),))
    self.write('\n')
#@ satella.instrumentation.metrics.exporters.prometheus.PrometheusHandler
def do_GET(self):
    if self.path != '/metrics':
        self.send_error(404, 'Unknown path. Only /metrics is supported.')
        return
    metric_data = self.server.get_metric_data()
    metric_data.add_labels(self.server.extra_labels)
    metric_data = metric_data_collection_to_prometheus(metric_data)
    self.send_response(200)
    self.send_header('Content-Type', 'text/plain; charset=utf-8')
    self.end_headers()
    self.wfile.write(metric_data.encode('utf8'))
    self.server.metric.runtime()
#@ satella.instrumentation.metrics.exporters.prometheus.PrometheusHTTPExporterThread
def run(self):
    self.httpd.server_bind()
    self.httpd.server_activate()
    self.httpd.serve_forever()
    self.httpd.server_close()
def get_metric_data(self):
    return getMetric().to_metric_data()
def terminate(self, force=False):
    self.httpd.shutdown()
    return super().terminate(force=force)
'''

METRIFIED = r'''
#@ satella.instrumentation.metrics.structures.cache_dict.MetrifiedCacheDict
def __init__(self, stale_interval, expiration_interval, value_getter, value_getter_executor=None, cache_failures_interval=None, time_getter=time.monotonic, default_value_factory=None, cache_hits=None, cache_miss=None, refreshes=None, how_long_refresh_takes=None):
    if refreshes:
        old_value_getter = value_getter

        def value_getter_replacement(item):
            try:
                return old_value_getter(item)
            finally:
                if self.refreshes:
                    self.refreshes.runtime(+1)
        value_getter = value_getter_replacement
    if how_long_refresh_takes:
        value_getter = how_long_refresh_takes.measure(value_getter=time_getter)(value_getter)
    super().__init__(stale_interval, expiration_interval, value_getter, value_getter_executor, cache_failures_interval, time_getter, default_value_factory)
    self.cache_hits = cache_hits
    self.cache_miss = cache_miss
    self.refreshes = refreshes
    self.how_long_refresh_takes = how_long_refresh_takes
def __getitem__(self, item):
    if self.has_info_about(item):
        if self.cache_hits:
            self.cache_hits.runtime(+1)
    elif self.cache_miss:
        self.cache_miss.runtime(+1)
    return super().__getitem__(item)
#@ satella.instrumentation.metrics.structures.cache_dict.MetrifiedLRUCacheDict
def __init__(self, stale_interval, expiration_interval, value_getter, value_getter_executor=None, cache_failures_interval=None, time_getter=time.monotonic, default_value_factory=None, max_size=100, cache_hits=None, cache_miss=None, refreshes=None, how_long_refresh_takes=None, evictions=None, **kwargs):
    if refreshes:
        old_value_getter = value_getter

        def value_getter_replacement(item):
            try:
                return old_value_getter(item)
            finally:
                if self.refreshes:
                    self.refreshes.runtime(+1)
        value_getter = value_getter_replacement
    if how_long_refresh_takes:
        value_getter = how_long_refresh_takes.measure(value_getter=time_getter)(value_getter)
    super().__init__(stale_interval, expiration_interval, value_getter, value_getter_executor, cache_failures_interval, time_getter, default_value_factory, max_size=max_size)
    self.cache_hits = cache_hits
    self.cache_miss = cache_miss
    self.refreshes = refreshes
    self.evictions = evictions
    self.how_long_refresh_takes = how_long_refresh_takes
def evict(self):
    if self.evictions is not None:
        self.evictions.runtime(+1)
    super().evict()
def __getitem__(self, item):
    if self.has_info_about(item):
        if self.cache_hits:
            self.cache_hits.runtime(+1)
    elif self.cache_miss:
        self.cache_miss.runtime(+1)
    return super().__getitem__(item)
#@ satella.instrumentation.metrics.structures.cache_dict.MetrifiedExclusiveWritebackCache
def __init__(self, *args, cache_hits=None, cache_miss=None, entries_waiting=None, **kwargs):
    super().__init__(*args, **kwargs)
    self.cache_miss = cache_miss
    self.cache_hits = cache_hits
    if entries_waiting is not None:
        entries_waiting.callable = self.get_queue_length
def __getitem__(self, item):
    if item in self.in_cache:
        if self.cache_hits:
            self.cache_hits.runtime(+1)
    elif self.cache_miss:
        self.cache_miss.runtime(+1)
    return super().__getitem__(item)
#@ satella.instrumentation.metrics.structures.threadpool exc=1
def _worker(executor_reference, work_queue, initializer, initargs):
    if initializer is not None:
        try:
            initializer(*initargs)
        except BaseException:
            _base.LOGGER.critical('Exception in initializer:', exc_info=True)
            executor = executor_reference()
            if executor is not None:
                executor._initializer_failed()
            return
    try:
        while True:
            work_item = work_queue.get(block=True)
            if work_item is not None:
                executor = executor_reference()
                work_item.measure.stop()
                if executor is not None:
                    executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
                del executor
                with measure() as measurement:
                    work_item.run()
                executor = executor_reference()
                if executor is not None:
                    executor.executing_time_metric.handle(executor.metric_level, measurement())
                del work_item
                if executor is not None:
                    executor._idle_semaphore.release()
                del executor
                continue
            executor = executor_reference()
            if thread._shutdown or executor is None or executor._shutdown:
                if executor is not None:
                    executor._shutdown = True
                work_queue.put(None)
                return
            del executor
    except BaseException as e:
        _base.LOGGER.critical('Exception in worker', exc_info=e)
#@ satella.instrumentation.metrics.structures.threadpool.MetrifiedThreadPoolExecutor exc=1
def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=(), time_spent_waiting=None, time_spent_executing=None, waiting_tasks=None, metric_level=MetricLevel.RUNTIME):
    super().__init__(max_workers)
    self._initializer = initializer
    self._initargs = initargs
    self._idle_semaphore = threading.Semaphore(0)
    self._broken = False
    if not hasattr(self, '_thread_name_prefix'):
        self._thread_name_prefix = thread_name_prefix or 'ThreadPoolExecutor-%d' % self._counter()
    self.waiting_time_metric = time_spent_waiting or EmptyMetric('')
    self.executing_time_metric = time_spent_executing or EmptyMetric('')
    self.metric_level = metric_level
    if waiting_tasks is not None:
        waiting_tasks.callable = lambda: self.get_queue_length()
def get_queue_length(self):
    return self._work_queue.qsize()
def submit(*args, **kwargs):
    if len(args) >= 2:
        self, fn, *args = args
    elif not args:
        raise TypeError("descriptor 'submit' of 'ThreadPoolExecutor' object needs an argument")
    elif 'fn' in kwargs:
        fn = kwargs.pop('fn')
        self, *args = args
        import warnings
        warnings.warn("Passing 'fn' as keyword argument is deprecated", DeprecationWarning, stacklevel=2)
    else:
        raise TypeError('submit expected at least 1 positional argument, got %d' % (len(args) - 1))
    with self._shutdown_lock:
        if self._broken:
            raise BrokenThreadPool(self._broken)
        if self._shutdown:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if thread._shutdown:
            raise RuntimeError('cannot schedule new futures after interpreter shutdown')
        f = _base.Future()
        w = _WorkItem(f, fn, args, kwargs)
        w.measure = measure()
        self._work_queue.put(w)
        self._adjust_thread_count()
        return f
def _adjust_thread_count(self):
    if self._idle_semaphore.acquire(timeout=0):
        return

    def weakref_cb(_, q=self._work_queue):
        q.put(None)
    num_threads = len(self._threads)
    if num_threads < self._max_workers:
        thread_name = '%s_%d' % (self._thread_name_prefix or self, num_threads)
        t = threading.Thread(name=thread_name, target=_worker, args=(weakref.ref(self, weakref_cb), self._work_queue, self._initializer, self._initargs))
        t.daemon = True
        t.start()
        self._threads.add(t)
        thread._threads_queues[t] = self._work_queue
#@ satella.instrumentation.metrics.structures.threadpool.MetrifiedThreadPoolExecutor exc=1 max_iter=1
def _initializer_failed(self):
    with self._shutdown_lock:
        self._broken = 'A thread initializer failed, the thread pool is not usable anymore'
        while True:
            try:
                work_item = self._work_queue.get_nowait()
            except queue.Empty:
                break
            if work_item is not None:
                work_item.future.set_exception(BrokenThreadPool(self._broken))
'''

MEMORY = r'''
#= satella.instrumentation.memory.conditions.GB 1024 * 1024 * 1024
#= satella.instrumentation.memory.conditions.MB 1024 * 1024
#= satella.instrumentation.memory.conditions.KB 1024
#= satella.instrumentation.memory.conditions.Any._OPERATOR operator.or_
#= satella.instrumentation.memory.conditions.Any._STARTING_VALUE False
#= satella.instrumentation.memory.conditions.All._OPERATOR operator.and_
#= satella.instrumentation.memory.conditions.All._STARTING_VALUE True
#@ satella.instrumentation.memory.conditions.MemoryCondition
def __init__(self, value):
    self.value = value
#@ satella.instrumentation.memory.conditions.ZerothSeverity
def can_fire(self, local_memory_data, local_maximum_consume):
    return True
#@ satella.instrumentation.memory.conditions.OperationJoin
def __init__(self, *conditions):
    self.conditions = conditions
def can_fire(self, local_memory_data, local_maximum_consume):
    return functools.reduce(self._OPERATOR, (condition.can_fire(local_memory_data, local_maximum_consume) for condition in self.conditions), self._STARTING_VALUE)
#@ satella.instrumentation.memory.conditions.Not
def __init__(self, condition):
    self.condition = condition
def can_fire(self, local_memory_data, local_maximum_consume):
    return not self.condition.can_fire(local_memory_data, local_maximum_consume)
#@ satella.instrumentation.memory.conditions.GlobalAbsoluteValue
def can_fire(self, local_memory_data, local_maximum_consume):
    return psutil.virtual_memory().available < self.value
#@ satella.instrumentation.memory.conditions.GlobalRelativeValue
def can_fire(self, local_memory_data, local_maximum_consume):
    return psutil.virtual_memory().available / psutil.virtual_memory().total < self.value / 100
#@ satella.instrumentation.memory.conditions.LocalAbsoluteValue
def can_fire(self, local_memory_data, local_maximum_consume):
    return local_maximum_consume - local_memory_data.rss < self.value
#@ satella.instrumentation.memory.conditions.LocalRelativeValue
def can_fire(self, local_memory_data, local_maximum_consume):
    return local_memory_data.rss / local_maximum_consume > 1 - self.value / 100
#@ satella.instrumentation.memory.conditions.CustomCondition
def __init__(self, callable_):
    self.callable = callable_
def can_fire(self, local_memory_data, local_maximum_consume):
    return self.callable()
#@ satella.instrumentation.memory.memthread.MemoryPressureManager exc=1
def __init__(self, maximum_available=None, severity_levels=None, check_interval=10, log_transitions=True):
    super().__init__(check_interval, name='memory pressure manager', daemon=True)
    self.log_transitions = log_transitions
    self.process = psutil.Process(os.getpid())
    self.maximum_available = maximum_available
    self.severity_levels = [ZerothSeverity()] + (severity_levels or [])
    self.callbacks_on_entered = [CallableGroup(gather=False) for _ in range(len(self.severity_levels))]
    self.callbacks_on_remains = [CallableGroup(gather=False) for _ in range(len(self.severity_levels))]
    self.callbacks_on_left = [CallableGroup(gather=False) for _ in range(len(self.severity_levels))]
    self.objects_to_cleanup_on_entered = [[] for _ in range(len(self.severity_levels))]
    self.callbacks_on_memory_normal = CallableGroup(gather=False)
    self.severity_level = 0
    self.stopped = False
    self.start()
@staticmethod
def cleanup_on_entered(target_level, obj, collector=lambda y: y.cleanup()):
    MemoryPressureManager().objects_to_cleanup_on_entered[target_level].append((weakref.ref(obj), collector))
def advance_to_severity_level(self, target_level):
    while self.severity_level != target_level:
        delta = target_level - self.severity_level
        delta = int(delta / abs(delta))
        if delta > 0:
            self.severity_level += delta
            self.callbacks_on_entered[self.severity_level]()
            new_list = []
            for ref, collector in self.objects_to_cleanup_on_entered[self.severity_level]:
                obj = ref()
                if obj is not None:
                    collector(obj)
                    new_list.append((ref, collector))
            self.objects_to_cleanup_on_entered[self.severity_level] = new_list
            if self.log_transitions:
                logger.warning('Entered severity level %s' % (self.severity_level,))
        elif delta < 0:
            self.callbacks_on_left[self.severity_level]()
            if self.log_transitions:
                logger.warning('Left severity level %s' % (self.severity_level,))
            self.severity_level += delta
            if self.severity_level == 0:
                self.callbacks_on_memory_normal()
def stop(self):
    self.stopped = True
def resume(self):
    self.stopped = False
def loop(self):
    if self.stopped:
        return
    self.callbacks_on_memory_normal.remove_cancelled()
    for cg in self.callbacks_on_entered:
        cg.remove_cancelled()
    for cg in self.callbacks_on_left:
        cg.remove_cancelled()
    for cg in self.callbacks_on_remains:
        cg.remove_cancelled()
    severity_level = self.calculate_severity_level()
    if self.severity_level != severity_level:
        self.advance_to_severity_level(severity_level)
    else:
        self.callbacks_on_remains[severity_level]()
def calculate_severity_level(self):
    memory_info = self.process.memory_info()
    for level, condition in reversed(list(enumerate(self.severity_levels))):
        if condition.can_fire(memory_info, self.maximum_available):
            return level
@staticmethod
def register_on_memory_normal(fun):
    cc = CancellableCallback(fun)
    MemoryPressureManager().callbacks_on_memory_normal.add(cc)
    return cc
@staticmethod
def register_on_entered_severity(severity):

    def outer(fun):
        cc = CancellableCallback(fun)
        MemoryPressureManager().callbacks_on_entered[severity].add(cc)
        return cc
    return outer
@staticmethod
def register_on_left_severity(severity):

    def outer(fun):
        cc = CancellableCallback(fun)
        MemoryPressureManager().callbacks_on_left[severity].add(cc)
        return cc
    return outer
@staticmethod
def register_on_remaining_in_severity(severity, call_no_more_often_than=0):

    def outer(fun):
        cno = CallNoOftenThan(call_no_more_often_than, fun)
        cc = CancellableCallback(cno)
        MemoryPressureManager().callbacks_on_remains[severity].add(cc)
        return cc
    return outer
#@ satella.instrumentation.memory.get_object_size exc=1
def get_size(obj, seen=None):
    if platform.python_implementation() != 'CPython':
        raise RuntimeError('Runnable only on CPython')
    size = sys.getsizeof(obj)
    if seen is None:
        seen = set()
    obj_id = id(obj)
    if obj_id in seen:
        return 0
    seen.add(obj_id)
    if isinstance(obj, dict):
        size += sum((get_size(v, seen) for v in obj.values()))
        size += sum((get_size(k, seen) for k in obj.keys()))
    elif hasattr(obj, '__dict__'):
        size += get_size(obj.__dict__, seen)
    elif hasattr(obj, '__iter__') and (not isinstance(obj, (str, bytes, bytearray))):
        size += sum((get_size(i, seen) for i in obj))
    return size
'''

EXCEPTIONS = r'''
#= satella.exception_handling.exception_handlers.ALWAYS_FIRST -1000
#= satella.exception_handling.exception_handlers.NORMAL_PRIORITY 0
#= satella.exception_handling.exception_handlers.ALWAYS_LAST 1000
#@ satella.exception_handling.exception_handlers closures=1
def exception_handler(priority=NORMAL_PRIORITY):
    if not isinstance(priority, int):
        warnings.warn('Please specify priority, using default of 0', UserWarning)
        return FunctionExceptionHandler(priority, priority=NORMAL_PRIORITY)

    def outer(fun):
        return FunctionExceptionHandler(fun, priority=priority)
    return outer
#@ satella.exception_handling.exception_handlers.BaseExceptionHandler
def __init__(self, priority=NORMAL_PRIORITY):
    self.priority = priority
def install(self):
    from .global_eh import GlobalExcepthook
    GlobalExcepthook().add_hook(self)
    return self
def uninstall(self):
    from .global_eh import GlobalExcepthook
    GlobalExcepthook().remove_hook(self)
#@ satella.exception_handling.exception_handlers.FunctionExceptionHandler
def __init__(self, fun, priority=NORMAL_PRIORITY):
    super().__init__(priority)
    self.fun = fun
def handle_exception(self, type_, value, traceback):
    if type_ == SystemExit:
        return
    val = self.fun(type_, value, traceback)
    if isinstance(val, tp.Sequence):
        val = any(val)
    return val
#@ satella.exception_handling.global_eh.GlobalExcepthook exc=1
def __init__(self):
    self.installed_hooks = []
    self.ignore_failed_hooks = True
    self.__install()
def remove_hook(self, hook):
    self.installed_hooks.remove(hook)
def add_hook(self, new_hook):
    if not isinstance(new_hook, BaseExceptionHandler):
        new_hook = FunctionExceptionHandler(new_hook)
    if new_hook not in self.installed_hooks:
        self.installed_hooks.append(new_hook)
    return new_hook
def __install(self):
    self.old_excepthook = exception_handler(priority=10000)(sys.excepthook)
    sys.excepthook = self.__except_handle
    init_old = threading.Thread.__init__
    my_self = self

    @wraps(threading.Thread.__init__)
    def init(self, *args, **kwargs):
        init_old(self, *args, **kwargs)
        run_old = self.run

        @wraps(run_old)
        def run_with_except_hook(*args, **kw):
            try:
                return run_old(*args, **kw)
            except Exception as e:
                try:
                    my_self.__except_handle(*sys.exc_info())
                except AttributeError:
                    pass
                raise
        self.run = run_with_except_hook
    threading.Thread.__init__ = init
def __except_handle(self, type_, value, traceback):
    hooks_to_run = self.installed_hooks + [self.old_excepthook]
    for hook in sorted(hooks_to_run, key=lambda h: h.priority):
        try:
            if hook.handle_exception(type_, value, traceback):
                break
        except Exception as e:
            tb = Traceback()
            sys.stderr.write('Error while processing a hook: \n')
            tb.pretty_print(output=sys.stderr)
            if not self.ignore_failed_hooks:
                raise NotImplementedError('Hook failed (%s), but ignore_failed_hooks was false' % repr(e))
#@ satella.exception_handling.memerrhandler.MemoryErrorExceptionHandler exc=1
def __init__(self, custom_hook=lambda type_, value, traceback: False, kill_pg=False):
    super().__init__(ALWAYS_FIRST)
    self._free_on_memory_error = {'a': bytearray(1024 * 4)}
    self.custom_hook = custom_hook
    self.kill_pg = kill_pg
    self.installed = False
def handle_exception(self, type_, value, traceback):
    if not issubclass(type_, MemoryError):
        return
    try:
        del self._free_on_memory_error['a']
    except KeyError:
        pass
    try:
        val = self.custom_hook(type_, value, traceback)
        if isinstance(val, tp.Sequence):
            val = any(val)
        if val:
            return True
    except Exception:
        pass
    try:
        sys.stderr.write('satella.exception_handling: MemoryError seen, killing\n')
        sys.stderr.flush()
    except (IOError, OSError):
        pass
    suicide(self.kill_pg)
    time.sleep(5)
    return True
#@ satella.exception_handling.dump_to_file.AsStream exc=1
def __init__(self, o, human_readable):
    self.o = o
    self.human_readable = human_readable
    if isinstance(o, str):
        if os.path.isdir(o):
            self.o = os.path.join(o, uuid.uuid4().hex)
        self.mode = StreamType.MODE_FILE
    elif isinstance(o, tuple) and isinstance(o[0], Logger):
        self.mode = StreamType.MODE_LOGGER
        self.level = o[1]
        self.logger = o[0]
    elif isinstance(o, Logger):
        self.mode = StreamType.MODE_LOGGER
        self.logger = o
        self.level = logging.ERROR
    elif hasattr(o, 'write'):
        self.mode = StreamType.MODE_STREAM
    elif o is None:
        self.mode = StreamType.MODE_DEVNULL
    else:
        raise TypeError('invalid stream object')
def __enter__(self):
    if self.mode == StreamType.MODE_FILE:
        self.file = open(self.o, 'w' if self.human_readable else 'wb', encoding='utf8' if self.human_readable else None)
        return self.file.__enter__()
    elif self.mode == StreamType.MODE_STREAM:
        return self.o
    elif self.mode == StreamType.MODE_DEVNULL:
        self.o = DevNullFilelikeObject()
        return self.o
def __exit__(self, exc_type, exc_val, exc_tp):
    if self.mode == StreamType.MODE_FILE:
        return self.file.__exit__(exc_type, exc_val, exc_tp)
    elif self.mode == StreamType.MODE_STREAM:
        with silence_excs(AttributeError):
            self.o.flush()
    elif self.mode == StreamType.MODE_DEVNULL:
        pass
#@ satella.exception_handling.dump_to_file.DumpToFileHandler exc=1
def __init__(self, human_readables, trace_pickles=None):
    super(DumpToFileHandler, self).__init__()
    self.hr = [AsStream(x, True) if not isinstance(x, AsStream) else x for x in human_readables]
    self.tb = [AsStream(x, False) if not isinstance(x, AsStream) else x for x in trace_pickles or []]
def handle_exception(self, type_, value, traceback):
    try:
        tb = Traceback()
    except ValueError:
        return False
    for q in self.hr:
        if q.mode == StreamType.MODE_LOGGER:
            q.logger.log(q.level, str(value), exc_info=value, stack_info=tb.pretty_format())
        else:
            with q as f:
                f.write('Unhandled exception caught: \n')
                tb.pretty_print(output=f)
    for q in self.tb:
        with q as f:
            f.write(tb.pickle())
'''

CASSANDRA = r'''
#@ satella.cassandra.future
def wrap_future(future):
    if isinstance(future, Future):
        return future
    fut = Future()
    fut.set_running_or_notify_cancel()
    future.add_callback(fut.set_result)
    future.add_errback(fut.set_exception)
    return fut
#@ satella.cassandra.parallel
def parallel_for(cursor, query, arguments):
    warnings.warn('This is deprecated and will be removed in Satella 3.0', DeprecationWarning)
    try:
        from cassandra.query import Statement
        query_classes = (str, Statement)
    except ImportError:
        query_classes = str
    if isinstance(query, query_classes):
        query = itertools.repeat(query)
    futures = []
    for loc_query, args in zip(query, arguments):
        future = cursor.execute_async(loc_query) if args is None else cursor.execute_async(loc_query, args)
        futures.append(future)
    for future in futures:
        yield future.result()
#@ satella.opentracing.exceptions exc=1
def trace_exception(span, exc_type=None, exc_val=None, exc_tb=None, max_tb_length=None):
    if span is None:
        return
    max_tb_length = max_tb_length or max_traceback_length
    if exc_type is None:
        exc_type, exc_val, exc_tb = sys.exc_info()
        if exc_type is None:
            return
    tb = Traceback(exc_tb.tb_frame).pretty_format()
    if len(tb) > max_tb_length:
        tb = tb[:max_tb_length]
    span.set_tag('error', True)
    span.log_kv({'event': 'error', 'message': str(exc_val), 'error.object': exc_val, 'error.kind': exc_type, 'stack': tb})
#@ satella.opentracing.trace exc=1
def trace_function(tracer, name, tags=None, tags_factory=None):
    if isinstance(tags_factory, dict):
        tags_factory = list(tags_factory.items())

    def outer(fun):

        @wraps(fun)
        def inner(*args, **kwargs):
            nonlocal tags, tags_factory
            my_tags = tags
            if tags_factory is not None:
                if tags is None:
                    tags = {}
                my_tags = copy.copy(tags)
                for key, value in tags_factory:
                    try:
                        v = value(*args, **kwargs)
                    except TypeError:
                        warnings.warn('You are using the deprecated single-parameter version of tags_factory. Please upgrade to the newer one.', DeprecationWarning)
                        v = value(args)
                    my_tags[key] = v
            with tracer.start_active_span(name, tags=my_tags):
                return fun(*args, **kwargs)
        return inner
    return outer
'''


ALL = {n: tables(n.lower() + '_tables', v) for n, v in list(globals().items()) if n.isupper() and isinstance(v, str)}
globals().update({v.__name__: v for v in ALL.values()})

def registered(ctx):
    """every kind of metric can be asked for by its name"""
    rule = ctx.rule('registered', 'every public kind of metric (a class of metric_types with a CLASS_NAME) is registered under that name')
    for name, mod, cls in KINDS:
        full = 'satella.instrumentation.metrics.metric_types.%s.%s' % (mod, cls)
        with ctx.item(rule, full):
            c = ctx.p.lookup(full)
            if not isinstance(c, Cls):
                raise Undecided('%s is not a class' % full)
            made = any(ast.unparse(d).split('.')[-1] == 'register_metric' for d in c.node.decorator_list)
            for m in ctx.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] == 'register_metric':
                        given = ast.unparse(n.args[0]).split('.')[-1] if len(n.args) == 1 else ''
                        if given == cls:
                            made = True
                        elif not made and not given[:1].isupper():
                            raise Undecided('metrics are registered with ' + ast.unparse(n))
            if not made and any('METRIC_NAMES_TO_CLASSES' in ast.unparse(n) and isinstance(n, (ast.Assign, ast.AugAssign, ast.Call)) and cls in ast.unparse(n)
                                for m in ctx.p.modules.values() for n in ast.walk(m.tree)):
                raise Undecided('metrics are registered in another way')
            if made:
                ctx.ok(rule, full)
            else:
                ctx.bad(rule, full, 'is never given to register_metric, so getMetric(metric_type=%r) fails' % name, where=c.module.path, line=c.node.lineno)


KINDS = [('empty', 'empty', 'EmptyMetric'), ('int', 'simple', 'IntegerMetric'), ('float', 'simple', 'FloatMetric'), ('counter', 'counter', 'CounterMetric'),
         ('cps', 'cps', 'ClicksPerTimeUnitMetric'), ('callable', 'callable', 'CallableMetric'), ('uptime', 'uptime', 'UptimeMetric'),
         ('histogram', 'histogram', 'HistogramMetric'), ('linkfail', 'linkfail', 'LinkfailMetric'), ('summary', 'summary', 'SummaryMetric'),
         ('quantile', 'summary', 'QuantileMetric'), ('base', 'base', 'Metric')]
S = 'satella/'
I = S + 'instrumentation/metrics/'
T = I + 'metric_types/'
PROPS = {
    'M01': prop(
        'A metric records exactly the measurements its level admits',
        'handle(level, …) hands a measurement to a metric, once, exactly if the level of the metric is at least that of the call, and then stamps the time if '
        'timestamps are enabled; runtime() and debug() do so with their levels. The level of a metric that inherits is that of its nearest ancestor that does '
        'not, DISABLED < RUNTIME < DEBUG < INHERIT, and the root can never inherit. Leaf metrics take no children; an AggregateMetric passes on every call to each of its '
        'metrics, a LabeledMetric to its metric with its labels added.',
        (['inputs', 'histories'], 'every metric tree, level and call'),
        'The levels of all ancestors combine with that of every call.',
        [T + 'base.py', I + 'labeled.py', I + 'aggregate.py'],
        [('Metric.handle', T + 'base.py'), ('Metric.level', T + 'base.py')], [ALL['LEVELS']]),
    'M02': prop(
        'Everything measured is recorded once, on every exit',
        'measure() as a decorator of a function or a generator and as a context manager records, once, the difference between value_getter() after and before, on '
        'every exit (unless include_exceptions is off and it was an exception), with the logging level and the labels given, returns what was returned and '
        'lets every exception out. measure_future() records once the future is done, whatever the outcome, from the moment it was called.',
        (['inputs', 'fault_sequences', 'histories'], 'every way of leaving the measured code'),
        'Every kind of exit crosses every way of using it.',
        [T + 'measurable_mixin.py'], [('MeasurableMixin.measure', T + 'measurable_mixin.py')], [ALL['MEASURABLE']]),
    'M03': prop(
        'getMetric returns the one metric of a name',
        'Calls to getMetric with the same name return the same metric, or raise MetricAlreadyExists if it is of another type, and ValueError for names with characters '
        'that are not allowed. A metric that does not exist is made of the requested type together with those of its ancestors that do not exist (of base type), attached to its parent, '
        'under one lock, and registered only after it has been attached; the root always stays. Every kind of metric is registered under its name.',
        (['inputs', 'schedules', 'histories'], 'every order of requests for names that are prefixes of one another'),
        'The order in which nested names are requested varies without bound.',
        [I + '__init__.py', T + 'registry.py', T + 'base.py'], [('getMetric', I + '__init__.py')], [ALL['REGISTRY'], registered]),
    'M04': prop(
        'Exported metrics show what was recorded',
        'Each kind of metric keeps what its documentation says: last value, sum and calls, clicks per period, quantiles over the last calls, buckets with sum and count, '
        'uptime, state of links with callbacks exactly at the configured number of consecutive changes. With labels each distinct set of labels has its own '
        'child, and totals cover all; to_metric_data has one entry for each, with the metric\'s name, labels, timestamp and internal flag, below the names of the parents and '
        'without children above the level of the parent; sums of MetricDataCollections have one entry per name and labels, the newer one winning; '
        'to_json and from_json are inverse; the Prometheus exporter renders every entry that is not internal, escaped, and nothing else.',
        (['inputs', 'histories'], 'every sequence of measurements and every set of labels'),
        'The state of a metric depends on the whole history of measurements.',
        [I + 'data.py', T + 'base.py', T + 'simple.py', T + 'counter.py', T + 'cps.py', T + 'callable.py', T + 'uptime.py', T + 'histogram.py', T + 'linkfail.py',
         T + 'summary.py', T + 'empty.py', I + 'exporters/prometheus.py'],
        [('EmbeddedSubmetrics._handle', T + 'base.py'), ('MetricDataCollection', I + 'data.py'), ('metric_data_collection_to_prometheus', I + 'exporters/prometheus.py')],
        [ALL['DATA'], ALL['METRICS'], ALL['PROMETHEUS']]),
    'M05': prop(
        'Structures with metrics behave like those without and count every event',
        'MetrifiedCacheDict, MetrifiedLRUCacheDict and MetrifiedExclusiveWritebackCache give the same results as the structures they extend and count every hit, miss, '
        'refresh and eviction once. MetrifiedThreadPoolExecutor runs every submitted task once, records the waiting and the running time of each, fails all pending '
        'tasks if its initializer fails, refuses tasks after a shutdown and its workers end only after one.',
        (['inputs', 'schedules', 'fault_sequences', 'histories'], 'every sequence of operations, failing value getters, tasks and initializers included'),
        'Counts drift only in rare combinations of hits, failures and threads.',
        [I + 'structures/cache_dict.py', I + 'structures/threadpool.py'],
        [('MetrifiedCacheDict.__getitem__', I + 'structures/cache_dict.py'), ('_worker', I + 'structures/threadpool.py')], [ALL['METRIFIED']]),
    'M06': prop(
        'Memory pressure callbacks follow the severity level',
        'The severity level is the highest one whose condition fires; the conditions compare free memory (global or local, absolute or relative) with their value, '
        'Any, All and Not combine them; going from one level to another passes through every level in between: on each one entered its callbacks are called and '
        'the objects still alive cleaned up, on each one left its callbacks, and those for normal memory on reaching 0; if nothing changes, those for '
        'remaining. Cancelled callbacks are dropped, while stopped nothing is called, and get_size adds up every reachable object once.',
        (['inputs', 'histories'], 'every sequence of memory readings'),
        'Real memory pressure cannot be produced in a unit test.',
        [S + 'instrumentation/memory/memthread.py', S + 'instrumentation/memory/conditions.py', S + 'instrumentation/memory/get_object_size.py'],
        [('advance_to_severity_level', S + 'instrumentation/memory/memthread.py')], [ALL['MEMORY']]),
    'E08': prop(
        'Uncaught exceptions reach every handler in order',
        'An exception that ends the program or a thread is given to the installed handlers by ascending priority, and the previous excepthook, until one of them returns a true '
        'value; a failing handler does not keep it from the others. A handler is installed at most once and can be removed; threads let the exception out '
        'afterwards; function handlers ignore SystemExit; the MemoryError handler acts only on MemoryErrors and kills the process unless its hook returns true; '
        'DumpToFileHandler writes to every one of its streams, and its streams are opened, flushed and closed on every exit.',
        (['inputs', 'fault_sequences'], 'every exception, set of handlers and failing handler'),
        'Handlers that fail and exceptions of threads are hard to combine in tests.',
        [S + 'exception_handling/global_eh.py', S + 'exception_handling/exception_handlers.py', S + 'exception_handling/memerrhandler.py', S + 'exception_handling/dump_to_file.py'],
        [('GlobalExcepthook', S + 'exception_handling/global_eh.py')], [ALL['EXCEPTIONS']]),
    'E09': prop(
        'Futures of Cassandra and traces of opentracing carry the outcome',
        'wrap_future returns a Future that gets the result or the exception of the one it wraps; parallel_for starts all queries before it waits for the first and '
        'yields the results in the order of the arguments. trace_function runs the function once, within a span made with the tags given and those computed '
        'from the arguments, and passes on its result; trace_exception tags the span and logs the exception with its traceback cut to the limit, and does nothing without a span.',
        (['inputs', 'fault_sequences'], 'every future, query and traced call'),
        'The libraries are replaced by mocks in tests.',
        [S + 'cassandra/future.py', S + 'cassandra/parallel.py', S + 'opentracing/exceptions.py', S + 'opentracing/trace.py'],
        [('wrap_future', S + 'cassandra/future.py'), ('trace_function', S + 'opentracing/trace.py')], [ALL['CASSANDRA']]),
}
