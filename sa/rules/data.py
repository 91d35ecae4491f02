"""J*, R*: serialization, parsing, configuration, transforms, files and other resources."""
from ..model import models
from .conc_futures import TABLE, TABLE_TEXT
from .structures import prop


JSON = '''
#@ satella.json exc=1
def json_encode(x):
    return JSONEncoder().encode(x)
def write_json_to_file(path, value, **kwargs):
    if kwargs:
        warnings.warn('Do not use kwargs, it has no effect', DeprecationWarning)
    with open(path, 'w', encoding='utf-8') as f_out:
        f_out.write(JSONEncoder().encode(value))
def write_json_to_file_if_different(path, value, encoding='utf-8', **kwargs):
    value = JSONEncoder().encode(value)
    return write_out_file_if_different(path, value, encoding)
def read_json_from_file(path):
    try:
        import ujson
        with open(path, 'r', encoding='utf-8') as f_in:
            v = ujson.load(f_in)
    except ImportError:
        with open(path, 'r', encoding='utf-8') as f_in:
            try:
                v = json.load(f_in)
            except json.decoder.JSONDecodeError as e:
                raise ValueError(str(e))
    return v
#@ satella.json.JSONEncoder exc=1
def default(self, o):
    if hasattr(o, 'to_json'):
        v = o.to_json()
    elif isinstance(o, (int, float, str, NoneType)):
        v = o
    elif isinstance(o, enum.Enum):
        v = o.value
    elif isinstance(o, (list, tuple)):
        v = [self.default(v) for v in o]
    elif isinstance(o, dict):
        v = {self.default(k): self.default(v) for k, v in o.items()}
    else:
        try:
            v = super().default(o)
        except TypeError:
            v = {}
            try:
                for k, val in o.__dict__.items():
                    v[k] = self.default(val)
            except AttributeError:
                try:
                    for slot in o.__slots__:
                        v[slot] = self.default(getattr(o, slot))
                except AttributeError:
                    v = '<an instance of %s>' % (o.__class__.__name__,)
    return v
#@ satella.json.JSONAbleDataObject exc=1
def __eq__(self, other):
    if not isinstance(other, self.__class__):
        return NotImplemented
    return all((getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys()))
def __hash__(self):
    hash_ = 0
    for annotation in self.__class__.__annotations__.keys():
        hash_ ^= hash(getattr(self, annotation))
    return hash_
def __init__(self, **kwargs):
    for annotation in self.__class__.__annotations__.keys():
        try:
            annot_val = kwargs.pop(annotation)
            setattr(self, annotation, annot_val)
        except KeyError:
            if not hasattr(self, annotation):
                raise ValueError(f'Argument {annotation} not provided!')
def to_json(self):
    result = {}
    for annotation in self.__class__.__annotations__.keys():
        result[annotation] = getattr(self, annotation)
    return result
@classmethod
def from_json(cls, jsonable):
    return cls(**jsonable)
#@ satella.coding.transforms.jsonify exc=1
def jsonify(data):
    if data is None:
        v = None
    elif isinstance(data, (int, float, str)):
        v = data
    elif isinstance(data, enum.Enum):
        v = data.value
    elif isinstance(data, JSONAble):
        v = jsonify(data.to_json())
    elif isinstance(data, tp.Mapping):
        new_mapping = {}
        for key in data:
            new_mapping[jsonify(key)] = jsonify(data[key])
        v = new_mapping
    elif isinstance(data, (tp.Iterable, tp.Iterator)):
        v = [jsonify(elem) for elem in data]
    else:
        try:
            v = str(data)
        except TypeError:
            v = repr(data)
    return v
'''

TRACEBACK = '''
#@ satella.instrumentation.trace_back.classes.GenerationPolicy
def __init__(self, enable_pickling=True, compress_at=128 * 1024, repr_length_limit=128 * 1024, compression_level=6):
    assert isinstance(compression_level, int) and 1 <= compression_level <= 9
    self.enable_pickling = enable_pickling
    self.compress_at = compress_at
    self.repr_length_limit = repr_length_limit
    self.compression_level = compression_level
def should_pickle(self, value):
    return self.enable_pickling
def should_compress(self, pickle_data):
    return len(pickle_data) > self.compress_at
def get_compression_level(self, data_to_pickle):
    return self.compression_level
def process_repr(self, r):
    if self.repr_length_limit is None:
        return r
    elif len(r) > self.repr_length_limit:
        return r[:self.repr_length_limit] + u'...'
    else:
        return r
#@ satella.instrumentation.trace_back.classes.StoredVariableValue exc=1
@classmethod
def from_json(cls, x):
    sv = StoredVariableValue.__new__(StoredVariableValue)
    sv.repr = x['repr']
    sv.type_ = x['type']
    sv.pickle_type = x['pickle_type']
    if 'pickle' in x:
        sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
    else:
        sv.pickle = None
    return sv
def to_json(self):
    dct = {'repr': self.repr, 'type': self.type_, 'pickle_type': self.pickle_type}
    if self.pickle:
        dct['pickle'] = base64.b64encode(self.pickle).decode('utf8')
    return dct
def __init__(self, value, policy=None):
    try:
        self.repr = repr(value)
    except Exception as e:
        self.repr = 'repr unavailable (due to locally raised %s)' % (type(e),)
    self.type_ = repr(type(value))
    policy = policy or GenerationPolicy()
    self.repr = policy.process_repr(self.repr)
    self.pickle = None
    self.pickle_type = None
    if policy.should_pickle(value):
        try:
            self.pickle = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
            self.pickle_type = 'pickle'
        except BaseException as e:
            self.pickle = repr((e,) + e.args).encode('utf8')
            self.pickle_type = 'failed'
        else:
            if policy.should_compress(self.pickle):
                try:
                    self.pickle = zlib.compress(self.pickle, policy.get_compression_level(self.pickle))
                    self.pickle_type = 'pickle/gzip'
                except zlib.error as e:
                    self.pickle = ('failed to gzip, reason is %s' % (repr(e),)).encode('utf8')
                    self.pickle_type = 'failed/gzip'
def load_value(self):
    if self.pickle_type is None:
        raise ValueError('value was never pickled')
    elif self.pickle_type == 'failed':
        raise ValueError('MemoryCondition has failed to be pickled, reason is %s' % (self.pickle,))
    elif self.pickle_type == 'pickle/gzip':
        pickle_ = zlib.decompress(self.pickle)
    elif self.pickle_type == 'pickle':
        pickle_ = self.pickle
    else:
        raise ValueError('unknown pickle type of %s' % (self.pickle_type,))
    try:
        return pickle.loads(pickle_)
    except pickle.UnpicklingError:
        raise ValueError('object picklable, but cannot load in this environment')
def __eq__(self, other):
    return self.repr == other.repr and self.type_ == other.type_
#@ satella.instrumentation.trace_back.classes.StackFrame
def __init__(self, frame, policy):
    self.name = frame.f_code.co_name
    self.filename = frame.f_code.co_filename
    self.lineno = frame.f_lineno
    self.locals = {}
    for key, value in frame.f_locals.items():
        self.locals[key] = StoredVariableValue(value, policy)
    self.globals = {}
    for key, value in frame.f_globals.items():
        self.globals[key] = StoredVariableValue(value, policy)
def __eq__(self, other):
    return self.name == other.name and self.filename == other.filename and (self.lineno == other.lineno) and (self.locals == other.locals) and (self.globals == other.globals)
@classmethod
def from_json(cls, x):
    sv = StackFrame.__new__(StackFrame)
    sv.name = x['name']
    sv.filename = x['filename']
    sv.lineno = x['line_no']
    sv.locals = {k: StoredVariableValue.from_json(v) for k, v in x['locals'].items()}
    sv.globals = {k: StoredVariableValue.from_json(v) for k, v in x['globals'].items()}
    return sv
def to_json(self):
    return {'name': self.name, 'filename': self.filename, 'line_no': self.lineno, 'locals': {k: v.to_json() for k, v in self.locals.items()}, 'globals': {k: v.to_json() for k, v in self.globals.items()}}
#@ satella.instrumentation.trace_back.trace_back
def frame_from_traceback(tb):
    while tb.tb_next:
        tb = tb.tb_next
    return tb.tb_frame
#@ satella.instrumentation.trace_back.trace_back.Traceback
def __init__(self, starting_frame=None, policy=GenerationPolicy):
    if inspect.isclass(policy):
        value_pickling_policy = policy()
    else:
        value_pickling_policy = policy
    self.frames = []
    if starting_frame is None:
        tb = sys.exc_info()[2]
        if tb is not None:
            f = frame_from_traceback(tb)
        else:
            f = inspect.currentframe()
    else:
        f = starting_frame
    while f:
        self.frames.append(StackFrame(f, value_pickling_policy))
        f = f.f_back
    self.formatted_traceback = str(traceback.format_exc())
def __eq__(self, other):
    return self.frames == other.frames
def pickle_to(self, stream):
    pickle.dump(self, stream, pickle.HIGHEST_PROTOCOL)
def pickle(self):
    bio = io.BytesIO()
    self.pickle_to(bio)
    return bio.getvalue()
@classmethod
def from_pickle(cls, pick):
    if isinstance(pick, io.BytesIO):
        a = pickle.load(pick)
    else:
        a = pickle.loads(pick)
    if not isinstance(a, Traceback):
        raise ValueError('%s is not a traceback!' % (type(a),))
    return a
def to_json(self):
    return {'frames': [frame.to_json() for frame in self.frames], 'formatted_traceback': self.formatted_traceback}
@classmethod
def from_json(cls, x):
    tb = Traceback.__new__(Traceback)
    tb.frames = [StackFrame.from_json(y) for y in x['frames']]
    tb.formatted_traceback = x['formatted_traceback']
    return tb
def pretty_format(self):
    bio = io.StringIO()
    self.pretty_print(bio)
    return bio.getvalue()
'''

PARSER = '''
#@ satella.parsing.BinaryParser exc=1
def __len__(self):
    return self.length
def get_remaining_bytes_count(self):
    return self.length - self.pointer + self.init_ofs
def __init__(self, b_stream, offset=0, length=None):
    self.b_stream = b_stream
    self.pointer = self.init_ofs = offset
    self.struct_cache = {}
    self.length = len(b_stream) - offset
    if length is not None:
        self.length = min(self.length, length)
    if offset > len(self.b_stream):
        raise NotEnoughBytes('Offset larger than the stream!')
def __bytes__(self):
    return self.b_stream[self.init_ofs:self.init_ofs + self.length]
def skip(self, n):
    self.assert_has_bytes(n)
    self.pointer += n
def assert_has_bytes(self, n):
    if self.length + self.init_ofs < self.pointer + n:
        raise NotEnoughBytes('Not enough bytes')
def get_parser(self, length):
    self.assert_has_bytes(length)
    try:
        return BinaryParser(self.b_stream, self.pointer, length)
    finally:
        self.pointer += length
def reset(self):
    self.pointer = self.init_ofs
def _to_struct(self, st):
    if isinstance(st, struct.Struct):
        return st
    elif st in self.struct_cache:
        fmt = st
        return self.struct_cache[fmt]
    else:
        fmt = st
        st = struct.Struct(st)
        self.struct_cache[fmt] = st
        return st
def get_bytes(self, n):
    self.assert_has_bytes(n)
    try:
        return self.b_stream[self.pointer:self.pointer + n]
    finally:
        self.pointer += n
def get_struct(self, st):
    st = self._to_struct(st)
    if st.format[0] in {'>', '<', '!', '@'}:
        assert len(st.format) == 2, 'Format must span at most 1 character, use get_structs for multiples!'
    else:
        assert len(st.format) == 1, 'Format must span at most 1 character, use get_structs for multiples!'
    st_len = st.size
    self.assert_has_bytes(st_len)
    try:
        return st.unpack(self.b_stream[self.pointer:self.pointer + st_len])[0]
    finally:
        self.pointer += st_len
def get_structs(self, st):
    st = self._to_struct(st)
    st_len = st.size
    self.assert_has_bytes(st_len)
    try:
        return st.unpack(self.b_stream[self.pointer:self.pointer + st_len])
    finally:
        self.pointer += st_len
def get_remaining_bytes(self):
    advance = self.pointer - self.init_ofs
    remaining = self.length - advance
    return self.b_stream[self.pointer:self.pointer + remaining]
'''

SCHEMA = '''
#= satella.configuration.schema.base.Descriptor.MY_EXCEPTIONS [TypeError, ValueError]
#= satella.configuration.schema.base.Descriptor.CHECKERS []
#= satella.configuration.schema.base.Descriptor.BASIC_MAKER lambda v: v
#= satella.configuration.schema.basic.Boolean.BASIC_MAKER _make_boolean
#= satella.configuration.schema.basic.Integer.BASIC_MAKER int
#= satella.configuration.schema.basic.Float.BASIC_MAKER float
#= satella.configuration.schema.basic.String.BASIC_MAKER str
#= satella.configuration.schema.basic.File.BASIC_MAKER _make_file
#= satella.configuration.schema.basic.Directory.BASIC_MAKER _make_directory
#= satella.configuration.schema.basic.FileContents.MY_EXCEPTIONS [TypeError, ValueError, OSError]
#= satella.configuration.schema.basic.Regexp.REGEXP '.*'
#= satella.configuration.schema.basic.IPv4.REGEXP r'\\d{1,3}\\.\\d{1,3}\\.\\d{1,3}\\.\\d{1,3}'
#= satella.configuration.schema.structs.List.CHECKERS [must_be_type(list, tuple)]
#= satella.configuration.schema.structs.List.BASIC_MAKER list
#= satella.configuration.schema.structs.Dict.BASIC_MAKER dict
#= satella.configuration.schema.structs.Dict.CHECKERS [must_be_type(dict)]
#@ satella.configuration.schema.base.CheckerCondition
def __call__(self, value):
    if not self.condition(value):
        raise ConfigurationValidationError(self.description, value)
#@ satella.configuration.schema.base
def must_be_type(*cls_or_tuple):
    return CheckerCondition(condition=lambda v: isinstance(v, cls_or_tuple), description='not one of types %s' % (cls_or_tuple,))
def must_be_one_of(*items):
    return CheckerCondition(condition=lambda v: v in items, description='not in set %s' % (items,), is_pre_checker=False)
#@ satella.configuration.schema.base.Descriptor exc=1
def __init__(self):
    self.pre_checkers = CallableGroup()
    self.post_checkers = CallableGroup()
    self.name = None
    self.optional = None
    self.default = None
    for checker in self.__class__.CHECKERS:
        self.add_checker(checker)
    self.my_exceptions = tuple(self.MY_EXCEPTIONS)
def __call__(self, value):
    self.pre_checkers(value)
    try:
        value = self.BASIC_MAKER(value)
    except self.my_exceptions as e:
        raise ConfigurationValidationError('could not pass to maker due to %s' % (e,), value)
    self.post_checkers(value)
    return value
def add_checker(self, checker):
    if checker.is_pre_checker:
        self.pre_checkers.add(checker)
    else:
        self.post_checkers.add(checker)
#@ satella.configuration.schema.basic
@staticmethod
def _make_boolean(v):
    if isinstance(v, str):
        if v.upper() == 'TRUE':
            return True
        elif v.upper() == 'FALSE':
            return False
        else:
            raise ConfigurationValidationError('Unknown value of "%s" posing to be a bool' % (v,))
    else:
        return bool(v)
@staticmethod
def _make_file(v):
    if not os.path.isfile(v):
        raise ConfigurationValidationError('Expected to find a file under %s' % (v,))
    return FileObject(v)
@staticmethod
def _make_directory(v):
    if not os.path.isdir(v):
        raise ConfigurationValidationError('Expected to find a directory under %s' % (v,))
    return DirectoryObject(v)
#@ satella.configuration.schema.basic.FileContents
def __init__(self, encoding=None, strip_afterwards=False):
    super().__init__()
    self.encoding = encoding
    self.strip_afterwards = strip_afterwards
def BASIC_MAKER(self, c):
    if not self.encoding:
        with open(c, 'rb') as f_in:
            y = f_in.read()
    else:
        with codecs.open(c, 'r', encoding=self.encoding) as f_in:
            y = f_in.read()
    if self.strip_afterwards:
        y = y.strip()
    return y
#@ satella.configuration.schema.basic.Regexp
def __init__(self):
    super().__init__()
    if isinstance(self.REGEXP, str):
        self.regexp = re.compile(self.REGEXP)
    else:
        self.regexp = self.REGEXP
def __call__(self, value):
    value = super(Regexp, self).__call__(value)
    match = self.regexp.match(value)
    if not match:
        raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,), value)
    return match.group(0)
#@ satella.configuration.schema.basic.FileObject
def get_value(self, encoding=None):
    with open(self.path, 'rb') as f_in:
        data = f_in.read()
    if encoding:
        return data.decode(encoding)
    else:
        return data
def open(self, mode):
    return open(self.path, mode)
#@ satella.configuration.schema.structs
def create_key(descriptor, name, optional=False, default=None):
    descriptor.name = name
    descriptor.optional = optional
    descriptor.default = default
    return descriptor
#@ satella.configuration.schema.structs.List
def __init__(self, type_descriptor=None):
    super().__init__()
    self.type_descriptor = type_descriptor or Descriptor()
def __call__(self, value):
    value = super().__call__(value)
    return [self.type_descriptor(p) for p in value]
#@ satella.configuration.schema.structs.Caster
def __init__(self, to_cast):
    self.to_cast = to_cast
@rethrow_as(ValueError, ConfigurationValidationError)
def __call__(self, value):
    return self.to_cast(value)
#@ satella.configuration.schema.structs.Dict exc=1
def __init__(self, keys, unknown_key_mapper=lambda str, data: data):
    super().__init__()
    self.keys = {item.name: item for item in keys}
    self.unknown_key_mapper = unknown_key_mapper
def __call__(self, value):
    value = copy.copy(value)
    if not isinstance(value, dict):
        raise ConfigurationValidationError('value passed was not a dict: %s' % (value,))
    value = super().__call__(value)
    if not isinstance(value, dict):
        raise ConfigurationValidationError('value received from descriptor was not a dict: %s' % (value,))
    output = {}
    for key, key_descriptor in self.keys.items():
        try:
            v = value.pop(key)
        except KeyError:
            if key_descriptor.optional:
                output[key] = key_descriptor.default
            else:
                raise ConfigurationValidationError('required key %s not found' % (key,))
        else:
            output[key] = key_descriptor(v)
    for k, v in value.items():
        output[k] = self.unknown_key_mapper(k, v)
    return output
#@ satella.configuration.schema.structs.Union exc=1
def __init__(self, *descriptors):
    super().__init__()
    self.descriptors = descriptors
def __call__(self, value):
    for descriptor in self.descriptors:
        try:
            return descriptor(value)
        except ConfigurationValidationError:
            continue
    raise ConfigurationValidationError('Could not match value %s to a descriptor' % (value,))
#@ satella.configuration.schema.from_json keep=_get_descriptor_for_str,_get_descriptor_for_dict,_get_descriptor_for,create_key,descriptor_from_dict exc=1
def _get_descriptor_for_str(key, value):
    try:
        if value in PLAIN_ENTRIES:
            return create_key(BASE_LOOKUP_TABLE[value](), key, False, None)
    except KeyError:
        pass
    raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
def _get_descriptor_for(key, value):
    if value == '':
        return Descriptor()
    elif isinstance(value, str):
        return _get_descriptor_for_str(key, value)
    elif isinstance(value, dict):
        return _get_descriptor_for_dict(key, value)
    elif isinstance(value, type):
        return _get_descriptor_for(key, value.__qualname__)
    else:
        raise ConfigurationSchemaError('invalid schema, unrecognized config object %s' % (value,))
def descriptor_from_dict(dct):
    fields = []
    for key, value in dct.items():
        descriptor = _get_descriptor_for(key, value)
        fields.append(descriptor)
    return Dict(fields)
#@ satella.configuration.schema.registry closures=1
def register_custom_descriptor(name, is_plain=True):

    def inner(cls):
        global BASE_LOOKUP_TABLE, PLAIN_ENTRIES
        if is_plain:
            PLAIN_ENTRIES.add(name)
        BASE_LOOKUP_TABLE[name] = cls
        return cls
    return inner
'''

SOURCES = '''
#= satella.configuration.sources.derivative.MergingSource.RAISE 0
#= satella.configuration.sources.derivative.MergingSource.SILENT 1
#= satella.configuration.sources.file.DirectorySource.RAISE 0
#= satella.configuration.sources.file.DirectorySource.SILENT 1
#= satella.configuration.sources.format.FormatSource.BASE_EXCEPTIONS [TypeError, UnicodeDecodeError, ValueError, binascii.Error, LookupError]
#= satella.configuration.sources.format.FormatSource.EXTRA_EXCEPTIONS []
#@ satella.configuration.sources.derivative.AlternativeSource exc=1
def __init__(self, *sources):
    super().__init__()
    self.sources = sources
def provide(self):
    for source in self.sources:
        try:
            s = source.provide()
            assert isinstance(s, dict), 'provide() returned a non-dict'
            return s
        except ConfigurationError:
            pass
    else:
        raise ConfigurationError('all sources failed!')
#@ satella.configuration.sources.derivative.OptionalSource
def __init__(self, source):
    super().__init__(source, BaseSource())
#@ satella.configuration.sources.derivative.MergingSource exc=1
def __init__(self, *sources, on_fail=RAISE, fail_if_no_sources_are_correct=True):
    super().__init__()
    self.sources = sources
    self.on_fail = on_fail
    self.fail_if_no_sources_are_correct = fail_if_no_sources_are_correct
def provide(self):
    cfg = {}
    correct_sources = 0
    for source in self.sources:
        try:
            p = source.provide()
            correct_sources += 1
        except ConfigurationError as e:
            if self.on_fail == MergingSource.RAISE:
                raise e
            elif self.on_fail == MergingSource.SILENT:
                p = {}
            else:
                raise ConfigurationError('Invalid on_fail parameter %s' % (self.on_fail,))
        assert isinstance(p, dict), 'what was provided by the config was not a dict'
        cfg = merge_dicts(cfg, copy.deepcopy(p))
        assert isinstance(cfg, dict), 'what merge_dicts returned wasnt a dict'
    if not correct_sources and self.sources and self.fail_if_no_sources_are_correct:
        raise ConfigurationError('No source was able to load the configuration')
    return cfg
#@ satella.configuration.sources.envvars.EnvironmentSource
def __init__(self, env_name, config_name=None, cast_to=None):
    super(EnvironmentSource, self).__init__()
    self.env_name = env_name
    self.config_name = config_name or env_name
    if cast_to is not None:
        warnings.warn('Use .schema module to cast values to target type. This module is only concerned with loading the configuration.This feature will be removed in Satella 3.0', DeprecationWarning)
        self.cast_to = cast_to
    else:
        self.cast_to = lambda x: x
@rethrow_as((ValueError, TypeError, KeyError), ConfigurationError)
def provide(self):
    v = self.cast_to(os.environ[self.env_name])
    return {self.config_name: v}
#@ satella.configuration.sources.envvars.EnvVarsSource
@rethrow_as(KeyError, ConfigurationError)
def provide(self):
    self.root = os.environ[self.env_name]
    return super(EnvVarsSource, self).provide()
#@ satella.configuration.sources.file.FileSource exc=1
def __init__(self, path, encoding='utf-8', interpret_as=FORMAT_SOURCES):
    super().__init__()
    from .. import sources
    self.source_classes = [p if not isinstance(p, str) else getattr(sources, p) for p in interpret_as]
    self.path = path
    self.encoding = encoding
@rethrow_as((IOError, OSError), ConfigurationError)
def provide(self):
    with open(self.path, 'rb') as fin:
        data = fin.read()
    for source_class in self.source_classes:
        try:
            s = source_class(data, encoding=self.encoding).provide()
            if not isinstance(s, dict):
                raise ConfigurationError('%s is not a dict instance' % (s,))
            return s
        except ConfigurationError as e:
            logger.warning('Error processing source %s - %s', self.path, repr(e))
            pass
    else:
        raise ConfigurationError('no reader could parse the file')
#@ satella.configuration.sources.file.DirectorySource exc=1 keep=get_sources_from_directory
def __init__(self, path, encoding='utf-8', interpret_as=FORMAT_SOURCES, fname_filter=lambda fullpath: True, scan_subdirectories=True, on_fail=RAISE):
    super().__init__(path, encoding, interpret_as)
    self.filter = lambda files: filter(fname_filter, files)
    self.scan_subdirectories = scan_subdirectories
    self.on_fail = on_fail
def get_sources_from_directory(self, directory):
    sources = []
    try:
        files = self.filter((os.path.join(directory, x) for x in os.listdir(directory)))
    except OSError as e:
        if self.on_fail == DirectorySource.SILENT:
            logger.warning('OSError %s while accessing configuration directory %s, skipping files' % (e, directory))
            return []
        else:
            raise ConfigurationError(f'Directory {directory} does not exist')
    for file_name in files:
        fullname = os.path.join(directory, file_name)
        if os.path.isfile(fullname):
            sources.append(FileSource(fullname, encoding=self.encoding, interpret_as=self.source_classes))
        elif os.path.isdir(fullname) and self.scan_subdirectories:
            sources.extend(self.get_sources_from_directory(fullname))
        else:
            pass
    return sources
def provide(self):
    return MergingSource(*self.get_sources_from_directory(self.path), on_fail=self.on_fail).provide()
#@ satella.configuration.sources.format
def register_format_source(source):
    source_name = source.__name__
    __all__.append(source_name)
    FORMAT_SOURCES.append(source_name)
    return source
#@ satella.configuration.sources.format.FormatSource exc=1
def __init__(self, root, encoding='utf-8'):
    super().__init__()
    self.root = root
    self.encoding = encoding
def provide(self):
    cls = self.__class__
    with rethrow_as(tuple(cls.BASE_EXCEPTIONS + cls.EXTRA_EXCEPTIONS), ConfigurationError):
        if isinstance(self.root, bytes):
            self.root = codecs.decode(self.root, self.encoding)
            if isinstance(self.root, bytes):
                self.root = self.root.decode('utf-8')
        ret_val = cls.TRANSFORM(self.root)
        if not isinstance(ret_val, dict):
            raise ConfigurationError('provider was unable to generate a text volume')
        else:
            return ret_val
#@ satella.configuration.sources.from_dict keep=load_source_from_dict exc=1
@rethrow_as(Exception, ConfigurationError)
def load_source_from_dict(dct):
    dct = copy.copy(dct)
    type_ = dct.pop('type')
    if 'arg' in dct:
        args = (dct.pop('arg'),)
    else:
        args = dct.pop('args', [])
    optional = dct.pop('optional', False)

    def to_arg(arg):
        if isinstance(arg, dict) and 'type' in arg:
            a_type = arg['type']
            if a_type in EXTRA_TYPES:
                return EXTRA_TYPES[a_type](arg)
            elif a_type in sources.__dict__:
                return load_source_from_dict(arg)
            else:
                warnings.warn('Caught unknown type %s attempting to parse a dict with type, returning original value' % (a_type,), UserWarning)
                return arg
        else:
            return arg
    args = map(to_arg, args)
    kwargs = {k: to_arg(v) for k, v in dct.items()}
    try:
        s = sources.__dict__[type_](*args, **kwargs)
    except KeyError as e:
        raise ConfigurationMisconfiguredError('unknown type %s' % (type_,))
    if optional:
        s = sources.OptionalSource(s)
    return s
def load_source_from_list(obj):
    return sources.MergingSource(*map(load_source_from_dict, obj))
#@ satella.configuration.sources.object_from.BuildObjectFrom
def __init__(self, key, child):
    self.key = key
    self.child = child
def provide(self):
    return {self.key: self.child.provide()}
#@ satella.configuration.sources.base.StaticSource
def __init__(self, config):
    self.config = config
def provide(self):
    return self.config
#@ satella.configuration.sources.base.BaseSource
def provide(self):
    return {}
'''

TRANSFORMS = '''
#@ satella.coding.transforms exc=1 keep=stringify
def unpack_dict(dct, *args, map_through=lambda y: y, raise_if_not_found=True):
    for key in args:
        try:
            yield map_through(dct[key])
        except KeyError:
            if not raise_if_not_found:
                yield None
            else:
                raise
def none_if_false(y):
    if not y:
        return None
    return y
def clip(v, minimum, maximum):
    if v < minimum:
        return minimum
    if v > maximum:
        return maximum
    return v
@for_argument(list)
def pad_to_multiple_of_length(seq, multiple_of, pad_with=None, pad_with_factory=None):
    if pad_with is not None and pad_with_factory is not None:
        raise ValueError('You need to give either pad_with or pad_with_factory')
    if pad_with_factory is None:

        def pad_with_factory():
            return pad_with
    while len(seq) % multiple_of:
        seq.append(pad_with_factory())
    return seq
def one_tuple(x):
    for z in x:
        yield (z,)
def intify(v):
    if v is None:
        return 0
    try:
        return int(v)
    except (TypeError, ValueError):
        try:
            return len(v)
        except (AttributeError, TypeError, ValueError):
            raise ValueError('Unable to convert %s to int' % (v,))
def split_shuffle_and_join(entries, whether_to_shuffle=lambda x: True, not_shuffled_to_front=True):
    not_shuffled, shuffled = ([], [])
    for elem in entries:
        (shuffled if whether_to_shuffle(elem) else not_shuffled).append(elem)
    random.shuffle(shuffled)
    if not_shuffled_to_front:
        return not_shuffled + shuffled
    else:
        return shuffled + not_shuffled
def stringify(obj, stringifier=str, recursively=False, str_none=False):
    if isinstance(obj, str):
        y = obj
    elif isinstance(obj, enum.Enum):
        y = obj.name
    elif isinstance(obj, collections.abc.Mapping):
        make_str = (lambda obj2: stringify(obj2, stringifier, True, str_none)) if recursively else stringifier
        y = {make_str(k): make_str(v) for k, v in obj.items()}
    elif isinstance(obj, collections.abc.Sequence):
        make_str = (lambda obj2: stringify(obj2, stringifier, True, str_none)) if recursively else stringifier
        y = [make_str(v) for v in obj]
    elif obj is None:
        y = _stringify_none(str_none, stringifier)
    else:
        y = stringifier(obj)
    return y
#@ satella.coding.transforms.interpol exc=1
def linear_interpolate(series, t, clip=False):
    if t < series[0][0]:
        if clip:
            return series[0][1]
        else:
            raise ValueError('t smaller than t_min')
    elif t > series[-1][0]:
        if clip:
            return series[-1][1]
        else:
            raise ValueError('t greater than t_max')
    if t == series[0][0]:
        v = series[0][1]
    else:
        i = bisect.bisect_left([y[0] for y in series], t) - 1
        if i == len(series) - 1:
            v = series[-1][1]
        else:
            t1, v1 = series[i]
            t2, v2 = series[i + 1]
            assert t1 <= t <= t2, 'Series not sorted!'
            v = (v2 - v1) / (t2 - t1) * (t - t1) + v1
    return v
#@ satella.coding.transforms.misc exc=1
def list_values_to_indices(lst):
    result = {}
    for idx, val in enumerate(lst):
        if val in result:
            raise ValueError(f'Entry {val} found more than once!')
        result[val] = idx
    return result
#@ satella.coding.transforms.percentile
def percentile(n, percent):
    k = (len(n) - 1) * percent
    f = math.floor(k)
    c = math.ceil(k)
    if f == c:
        return n[int(k)]
    d0 = n[int(f)] * (c - k)
    d1 = n[int(c)] * (k - f)
    return d0 + d1
#@ satella.coding.transforms.predicates
def is_subset(subset, superset):
    for k, v in subset.items():
        if k not in superset:
            return False
        if v != superset[k]:
            return False
    return True
#@ satella.coding.transforms.words
def hashables_to_int(words):
    dictionary = {}
    i = 0
    for word in set(words):
        dictionary[word] = i
        i += 1
    return dictionary
#@ satella.coding.transforms.base64
def b64encode(content):
    return base64.b64encode(content).decode('utf-8')
#@ satella.coding.transforms.merge_list.merge_list exc=1
def __init__(self, *lists, merge_function):
    self.its = [iter(y) for y in lists]
    self.merge_func = merge_function
    self.available_lists = set()
    self.heap = Heap()
    self.closed = False
    for i, it in enumerate(self.its):
        try:
            k, v = next(it)
            self.heap.push((k, i, v))
            self.available_lists.add(i)
        except StopIteration:
            pass
    try:
        self.k, self.v, self.i = self.pop()
    except IndexError:
        self.closed = True
def __next__(self):
    if self.closed:
        raise StopIteration()
    try:
        k2, v2, i2 = self.pop()
    except IndexError:
        self.closed = True
        return (self.k, self.v)
    if k2 == self.k:
        self.v = self.merge_func(self.v, v2)
        return next(self)
    try:
        return (self.k, self.v)
    finally:
        self.k, self.v, self.i = (k2, v2, i2)
def pop(self):
    k, i, v = self.heap.pop()
    if i in self.available_lists:
        try:
            k2, v2 = next(self.its[i])
            self.heap.push((k2, i, v2))
        except StopIteration:
            self.available_lists.remove(i)
    return (k, v, i)
def __iter__(self):
    return self
#@ satella.random
def random_word(length, choice=string.ascii_lowercase, join_fun=lambda args: ''.join(args)):
    return join_fun([random.choice(choice) for _ in range(length)])
def random_binary(length):
    if os.path.exists('/dev/random'):
        with open('/dev/random', 'rb') as f_in:
            return f_in.read(length)
    else:
        return bytes([random.randint(0, 255) for _ in range(length)])
def shuffle_together(*args):
    try:
        indices = list(range(len(args[0])))
    except IndexError:
        return []
    random.shuffle(indices)
    return [[arg[i] for i in indices] for arg in args]
'''

FILES = '''
#= satella.files.SEPARATORS {'/', '\\\\'}
#@ satella.files exc=1 keep=find_files,read_in_file,write_to_file
def read_lines(path, delete_empty_lines=True, encoding='utf-8'):
    with codecs.open(path, 'r', encoding) as f_in:
        lines = [line.strip() for line in f_in.readlines()]
    if delete_empty_lines:
        lines = [line for line in lines if line]
    return lines
def make_noncolliding_name(path, exists_checker=os.path.exists):
    path, filename = os.path.split(path)
    if '.' in filename:
        *filename, extension = filename.split('.')
        filename = '.'.join(filename)
        extension = '.' + extension
    else:
        extension = ''
    addition = ''
    addition_counter = 0
    while exists_checker(os.path.join(path, filename + addition + extension)):
        addition_counter += 1
        addition = '.' + str(addition_counter)
    return os.path.join(path, filename + addition + extension)
def write_to_file(path, data, encoding=None):
    if encoding is None:
        file = open(path, 'wb')
    else:
        file = codecs.open(path, 'wb', encoding)
    try:
        file.write(data)
    finally:
        file.close()
def read_in_file(path, encoding=None, default=_NOTSET):
    if os.path.isdir(path):
        if default is not _NOTSET:
            return default
        raise FileNotFoundError('%s found and is a directory' % (path,))
    try:
        if encoding is None:
            file = open(path, 'rb')
        else:
            file = codecs.open(path, 'r', encoding)
    except FileNotFoundError:
        if default is not _NOTSET:
            return default
        raise
    try:
        return file.read()
    finally:
        file.close()
def read_re_sub_and_write(path, pattern, repl):
    with open(path, 'r') as f_in:
        data = f_in.read()
    if isinstance(pattern, str):
        data = re.sub(pattern, repl, data)
    else:
        data = pattern.sub(repl, data)
    with open(path, 'w') as f_out:
        f_out.write(data)
@silence_excs(OSError, returns=False)
def try_unlink(path):
    if os.path.isdir(path):
        shutil.rmtree(path)
    else:
        os.unlink(path)
    return True
def find_files(path, wildcard='(.*)', prefix_with=None, scan_subdirectories=True, apply_wildcard_to_entire_path=False, prefix_with_path=True):
    if prefix_with_path:
        prefix_with = _cond_join(prefix_with, path)
    for filename in os.listdir(path):
        if scan_subdirectories and os.path.isdir(os.path.join(path, filename)):
            new_prefix = _cond_join(prefix_with, filename)
            yield from find_files(os.path.join(path, filename), wildcard, prefix_with=new_prefix, apply_wildcard_to_entire_path=apply_wildcard_to_entire_path, prefix_with_path=False)
        else:
            if apply_wildcard_to_entire_path:
                fn_path = _cond_join(prefix_with, filename)
            else:
                fn_path = filename
            if re.match(wildcard, fn_path):
                yield _cond_join(prefix_with, filename)
def write_out_file_if_different(path, data, encoding=None):
    try:
        if read_in_file(path, encoding) != data:
            write_to_file(path, data, encoding)
            return True
        else:
            return False
    except FileNotFoundError:
        write_to_file(path, data, encoding)
        return True
#@ satella.files max_iter=2
def split(path):
    data = list(os.path.split(path))
    while _has_separator(data[0]):
        head, tail = os.path.split(data[0])
        if head == data[0]:
            break
        data = [head, tail] + data[1:]
    return data
#@ satella.files.jump_to_directory order=1
def __init__(self, path, mode=511):
    self.path = path
    self.prev_path = None
    os.makedirs(self.path, mode=mode, exist_ok=True)
def __enter__(self):
    self.prev_path = os.getcwd()
    os.chdir(self.path)
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    assert self.prev_path is not None
    os.chdir(self.prev_path)
    return False
#@ satella.files.DevNullFilelikeObject exc=1
def __init__(self, binary=False):
    self.is_closed = False
    self.binary = binary
@closed_devnull
def tell(self):
    return 0
@closed_devnull
def truncate(self, __size=None):
    return 0
@closed_devnull
def writable(self):
    return True
@closed_devnull
def seek(self, v):
    return 0
@closed_devnull
def seekable(self):
    return True
@closed_devnull
def read(self, byte_count=None):
    return b'' if self.binary else ''
@closed_devnull
def write(self, y):
    if not isinstance(y, str) and (not self.binary):
        raise TypeError(f'Expected text data, but got {type(y)}')
    elif not isinstance(y, bytes) and self.binary:
        raise TypeError(f'Expected binary data, but got {type(y)}')
    return len(y)
def close(self):
    self.is_closed = True
def __enter__(self):
    return self
def __exit__(self, exc_type, exc_val, exc_tb):
    self.close()
'''

RESOURCES = '''
#@ satella.db.transaction exc=1
def __init__(self, connection_or_getter, close_the_connection_after=False, log_exception=True):
    self._connection = connection_or_getter
    self.close_the_connection_after = close_the_connection_after
    self.cursor = None
    self.log_exception = log_exception
def __enter__(self):
    self.cursor = self.connection.cursor()
    return self.cursor
@property
def connection(self):
    if inspect.isroutine(self._connection):
        conn = self._connection()
        self._connection = conn
        return conn
    else:
        return self._connection
def __exit__(self, exc_type, exc_val, exc_tb):
    try:
        if exc_val is None:
            self.connection.commit()
        else:
            self.connection.rollback()
        if exc_val is not None and self.log_exception:
            logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
    finally:
        try:
            self.cursor.close()
        finally:
            if self.close_the_connection_after:
                self.connection.close()
    return False
'''

POOL = '''
#@ satella.coding.resources.cp_manager.CPManager exc=1
def __init__(self, max_number, max_cycle_no):
    Closeable.__init__(self)
    Monitor.__init__(self)
    if sys.implementation.name != 'cpython':
        warnings.warn(f'This may run bad on {sys.implementation.name}', RuntimeWarning)
    self.connections = queue.Queue(max_number)
    self.max_number = max_number
    self.max_cycle_no = max_cycle_no
    self.id_to_times = {}
    self.terminating = False
def close(self):
    if super().close():
        self.terminating = True
        self.invalidate()
@Monitor.synchronized
def invalidate(self):
    while self.connections.qsize() > 0:
        conn = self.connections.get()
        self.teardown_connection(conn)
        del self.id_to_times[id(conn)]
def acquire_connection(self):
    if self.terminating:
        raise RuntimeError('CPManager is terminating')
    try:
        conn = self.connections.get(False)
    except queue.Empty:
        while True:
            with Monitor.acquire(self):
                if len(self.id_to_times) < self.max_number:
                    conn = self.create_connection()
                    self.id_to_times[id(conn)] = 0
                    break
            with silence_excs(queue.Empty):
                conn = self.connections.get(True, 5)
                break
            if self.terminating:
                raise RuntimeError('CPManager is terminating')
    with Monitor.acquire(self):
        obj_id = id(conn)
        self.id_to_times[obj_id] = self.id_to_times.get(obj_id, 0) + 1
        return conn
def release_connection(self, connection):
    with Monitor.acquire(self):
        if not self.terminating and self.id_to_times[id(connection)] < self.max_cycle_no:
            with silence_excs(queue.Full):
                self.connections.put(connection, False)
                return
    self._kill_connection(connection)
def _kill_connection(self, connection):
    obj_id = id(connection)
    with Monitor.acquire(self):
        del self.id_to_times[obj_id]
    self.teardown_connection(connection)
@Monitor.synchronized
def fail_connection(self, connection):
    self.id_to_times[id(connection)] = self.max_cycle_no
'''

SIGNALS = '''
#@ satella.os.signals exc=1
def hang_until_sig(extra_signals=None, sleep_interval=2):
    global end
    extra_signals = extra_signals or ()
    old_term = signal.getsignal(signal.SIGTERM)
    olds = []
    signal.signal(signal.SIGTERM, __sighandler)
    for s in extra_signals:
        olds.append(signal.getsignal(s))
        signal.signal(s, __sighandler)
    try:
        while not end:
            if not sleep(sleep_interval, True):
                break
    finally:
        signal.signal(signal.SIGTERM, old_term)
        for s, old_handler in zip(extra_signals, olds):
            signal.signal(s, old_handler)
        end = False
'''

BACKOFF = '''
#@ satella.time.backoff.ExponentialBackoff exc=1 notify=1
def __init__(self, start=1, limit=30, sleep_fun=time.sleep, grace_amount=0):
    from satella.coding.concurrent.thread import Condition
    self.start = start
    self.grace_amount = grace_amount
    self.grace_counter = 0
    self.limit = limit
    self.counter = 0
    self.sleep_fun = sleep_fun
    self.condition = Condition()
    self.unavailable_until = None
def sleep(self):
    self.sleep_fun(self.counter)
def failed(self):
    if self.grace_amount == self.grace_counter:
        if self.counter == 0:
            self.counter = self.start
        else:
            self.counter = min(self.limit, self.counter * 2)
        self.unavailable_until = time.monotonic() + self.counter
    else:
        self.grace_counter += 1
def time_until_next_check(self):
    unavailable_until = self.unavailable_until
    if unavailable_until is None:
        return None
    else:
        t = time.monotonic()
        if t > unavailable_until:
            self.unavailable_until = None
            return None
        else:
            return unavailable_until - t
@property
def ready_for_next_check(self):
    unavailable_until = self.unavailable_until
    if unavailable_until is None:
        return True
    elif time.monotonic() > unavailable_until:
        self.unavailable_until = None
        return True
    else:
        return False
@property
def available(self):
    return self.counter == 0
def success(self):
    self.counter = 0
    self.grace_counter = 0
    self.unavailable_until = None
    self.condition.notify_all()
#@ satella.time.backoff.ExponentialBackoff keep=time_until_next_check exc=1
def wait_until_available(self, timeout=None):
    with measure(timeout=timeout) as m:
        while not m.timeouted:
            tn = self.time_until_next_check()
            if tn is None:
                return
            if timeout is not None:
                tn = min(tn, m.time_remaining)
            self.condition.wait(timeout=tn, dont_raise=True)
        raise WouldWaitMore('timeouted while waiting for service to become healthy')
#@ satella.time.backoff.ExponentialBackoff closures=1 cut=1 keep=failed,success,sleep
def launch(self, exceptions_on_failed=Exception, immediate=False):

    def outer(fun):

        @wraps(fun)
        def inner(*args, **kwargs):
            while True:
                try:
                    r = fun(*args, **kwargs)
                    self.success()
                    return r
                except exceptions_on_failed:
                    self.failed()
                    self.sleep()
        if immediate:
            inner()
        return inner
    return outer
'''

MEASURE = '''
#@ satella.time.measure.measure exc=1 keep=has_exceeded,timeouted
def __init__(self, future_to_measure=None, stop_on_stop=True, adjust=0.0, time_getter_callable=time.monotonic, create_stopped=False, timeout=None):
    self.time_getter_callable = time_getter_callable
    self.timeout = timeout
    self.started_on = time_getter_callable() + adjust
    self.create_stopped = create_stopped
    if create_stopped:
        self.elapsed = 0
        self.stopped_on = self.started_on
    else:
        self.elapsed = None
        self.stopped_on = None
    self.stop_on_stop = stop_on_stop
    if future_to_measure is not None:
        future_to_measure.add_done_callback(lambda fut: self.stop())
@property
def time_remaining(self):
    if self.timeout is None:
        return None
    v = self.timeout - self.get_time_elapsed()
    return 0 if v < 0 else v
@property
def timeouted(self):
    if self.timeout is None:
        return False
    return self.get_time_elapsed() >= self.timeout
def assert_not_timeouted(self):
    if self.timeout is None:
        return
    if self.timeouted:
        raise WouldWaitMore('timeout exceeded')
def reset_and_start(self):
    self.reset()
    self.start()
def reset_and_stop(self):
    self.stop()
    self.reset()
def has_exceeded(self, value):
    warnings.warn('Use timeout parameter and timeouted property instead.', PendingDeprecationWarning)
    return self() > value
def raise_if_exceeded(self, value, exc_class=WouldWaitMore):
    warnings.warn('Use timeout parameter and assert_not_timeouted property instead.', PendingDeprecationWarning)
    if self.has_exceeded(value):
        raise exc_class()
def reset(self):
    self.stopped_on = self.started_on = self.time_getter_callable()
    self.elapsed = 0
def start(self):
    if not self.stop_on_stop:
        raise TypeError('stop_on_stop is disabled for this counter!')
    if self.stopped_on is None:
        raise TypeError('the counter is already running!')
    if self.stopped_on is not None:
        self.started_on = self.time_getter_callable() - self.elapsed
        self.stopped_on = None
    self.elapsed = None
def update(self):
    self.start()
def adjust(self, interval):
    self.started_on += interval
def get_time_elapsed(self):
    if self.stop_on_stop and self.elapsed is not None:
        return self.elapsed
    return self.time_getter_callable() - self.started_on
def __enter__(self):
    if self.elapsed is not None and self.stop_on_stop:
        self.start()
    return self
@property
def stopped(self):
    return self.stopped_on is not None
def stop(self):
    if not self.stop_on_stop:
        raise TypeError('stop_on_stop is disabled for this counter!')
    if self.stopped_on is not None:
        raise TypeError('counter already stopped!')
    self.stopped_on = self.time_getter_callable()
    self.elapsed = self.stopped_on - self.started_on
def __exit__(self, exc_type, exc_val, exc_tb):
    if self.stop_on_stop:
        self.stop()
    return False
#@ satella.time.measure.measure via=decorator keep=get_time_elapsed,reset
def __call__(self, fun=None):
    if fun is None:
        return self.get_time_elapsed()
    else:
        from satella.coding.decorators import auto_adapt_to_methods

        @auto_adapt_to_methods
        def outer(func):
            if inspect.isgeneratorfunction(func):

                @wraps(func)
                def inner(*args, **kwargs):
                    s = copy.copy(self)
                    if not s.create_stopped:
                        s.reset()
                        with s:
                            yield from func(s, *args, **kwargs)
                    else:
                        yield from func(s, *args, **kwargs)
                return inner
            else:

                @wraps(func)
                def inner(*args, **kwargs):
                    s = copy.copy(self)
                    if not s.create_stopped:
                        s.reset()
                        with s:
                            return func(s, *args, **kwargs)
                    else:
                        return func(s, *args, **kwargs)
                return inner
        return outer(fun)
#@ satella.time.measure.measure depth=1 keep=get_time_elapsed,reset
def __call__(self, fun=None):
    if fun is None:
        return self.get_time_elapsed()
    else:
        from satella.coding.decorators import auto_adapt_to_methods

        @auto_adapt_to_methods
        def outer(func):
            if inspect.isgeneratorfunction(func):

                @wraps(func)
                def inner(*args, **kwargs):
                    s = copy.copy(self)
                    if not s.create_stopped:
                        s.reset()
                        with s:
                            yield from func(s, *args, **kwargs)
                    else:
                        yield from func(s, *args, **kwargs)
                return inner
            else:

                @wraps(func)
                def inner(*args, **kwargs):
                    s = copy.copy(self)
                    if not s.create_stopped:
                        s.reset()
                        with s:
                            return func(s, *args, **kwargs)
                    else:
                        return func(s, *args, **kwargs)
                return inner
        return outer(fun)
'''

SLEEP = '''
#@ satella.time.misc exc=1
def sleep(y, abort_on_interrupt=False):
    y = parse_time_string(y)
    if y < 0:
        return False
    with measure() as measurement:
        remaining = y - measurement()
        while remaining > 0:
            try:
                time.sleep(remaining)
            except KeyboardInterrupt:
                if abort_on_interrupt:
                    return False
            remaining = y - measurement()
    return True
def time_as_int():
    return int(time.time())
def time_ms():
    try:
        return time.time_ns() // 1000000
    except AttributeError:
        return int(time.time() * 1000)
def time_us():
    try:
        return time.time_ns() // 1000
    except AttributeError:
        return int(time.time() * 1000000)
#@ satella.time.parse exc=1
def parse_time_string(s):
    if isinstance(s, (int, float)):
        return s
    found = [(s.index(modifier), multiple) for modifier, multiple in TIME_MODIFIERS if modifier in s]
    if found:
        index, multiple = min(found)
        return float(s[:index]) * multiple
    return float(s)
#= satella.time.parse.TIME_MODIFIERS [('s', 1), ('m', 60), ('h', 3600), ('d', 86400), ('w', 604800)]
'''

PROCESS = '''
#@ satella.processes exc=1 keep=read_nowait
def call_and_return_stdout(args, timeout=None, encoding=None, expected_return_code=None, **kwargs):
    warnings.warn('This is deprecated, use subprocess.check_output instead', DeprecationWarning)
    kwargs['stdout'] = subprocess.PIPE
    stdout_list = []
    proc = subprocess.Popen(args, **kwargs)
    fut = read_nowait(proc, stdout_list)
    if timeout is not None:
        timeout = parse_time_string(timeout)
    try:
        proc.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.wait()
        raise TimeoutError('Process did not complete within %s seconds' % (timeout,))
    finally:
        fut.result()
    if encoding is None:
        result = b''.join(stdout_list)
    else:
        result = b''.join(stdout_list).decode(encoding)
    if expected_return_code is not None:
        if proc.returncode != expected_return_code:
            raise ProcessFailed(proc.returncode, result)
    return result
@call_in_separate_thread(daemon=True)
@silence_excs(IOError, OSError)
def read_nowait(process, output_list):
    while True:
        with silence_excs(subprocess.TimeoutExpired):
            process.wait(timeout=0.1)
        line = process.stdout.read(2048)
        if line:
            output_list.append(line)
        else:
            break
'''

DAO = '''
#@ satella.dao.Loadable
def __init__(self, load_lazy=False):
    self._loaded = False
    if not load_lazy:
        self.refresh()
@abstractmethod
def refresh(self, load_from=None):
    self._loaded = True
#@ satella.dao closures=1
def must_be_loaded(fun):

    @wraps(fun)
    def inner(self, *args, **kwargs):
        assert isinstance(self, Loadable), 'must_be_loaded called with a class that does not subclass Loadable'
        if not self._loaded:
            self.refresh()
        return fun(self, *args, **kwargs)
    return inner
#@ satella.imports exc=1
def import_class(path):
    *path, classname = path.split('.')
    import_path = '.'.join(path)
    try:
        return getattr(importlib.import_module(import_path), classname)
    except AttributeError:
        raise ImportError('%s not found in %s' % (classname, import_path))
#@ satella.os.misc exc=1
def safe_listdir(directory):
    try:
        yield from os.listdir(directory)
    except (FileNotFoundError, NotADirectoryError):
        return
def suicide(kill_entire_pg=True):
    my_pid = os.getpid()
    if sys.platform.startswith('win'):
        if kill_entire_pg:
            warnings.warn('Windows does not support process leader groups', RuntimeWarning)
        os.kill(my_pid, -9)
    if kill_entire_pg and os.getpgid(0) == my_pid:
        os.killpg(my_pid, 9)
    else:
        os.kill(my_pid, 9)
def is_running_as_root():
    if sys.platform.startswith('win'):
        raise OSError('Routine unavailable on Windows!')
    return os.geteuid() == 0
#@ satella.os.pidlock.PIDFileLock exc=1 keep=acquire
def __init__(self, pid_file, base_dir=u'/var/run'):
    self.path = os.path.join(base_dir, pid_file)
    self.file_no = None
def release(self):
    if self.file_no is None:
        raise RuntimeError('lock not acquired')
    os.unlink(self.path)
    self.file_no = None
def acquire(self):
    try:
        self.file_no = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
    except (OSError, FileExistsError):
        with open(self.path, 'r') as fin:
            data = fin.read().strip()
        try:
            pid = int(data)
        except ValueError:
            os.unlink(self.path)
            return self.acquire()
        if pid in {x.pid for x in psutil.process_iter()}:
            raise ResourceLocked(pid)
        else:
            os.unlink(self.path)
            return self.acquire()
    fd = os.fdopen(self.file_no, 'w')
    fd.write(str(os.getpid()) + '\\n')
    fd.close()
    return True
def __enter__(self):
    self.acquire()
def __exit__(self, exc_type, exc_val, exc_tb):
    self.release()
'''


def tables(name, text):
    def rule(ctx):
        models(ctx, ctx.rule(TABLE, TABLE_TEXT), text)
    rule.__name__ = name
    rule.__doc__ = 'decision tables: ' + name
    return rule


ALL = {n: tables(n.lower() + '_tables', v) for n, v in list(globals().items()) if n.isupper() and isinstance(v, str) and n not in ('TABLE', 'TABLE_TEXT')}
globals().update({v.__name__: v for v in ALL.values()})
S = 'satella/'
PROPS = {
    'J01': prop(
        'JSON encoding keeps the value and falls back in order',
        'JSONEncoder.default asks an object for to_json() first and only then treats it as a number, an enum (its value), None, a mapping, a sequence or '
        'anything else with the documented fallbacks; json_encode uses it; jsonify applies the same rules recursively. A JSONAbleDataObject takes exactly '
        'its annotated fields (keyword, else class default, else it raises), compares equal only to one of its class with the same fields, hashes them, and '
        'from_json(to_json()) restores it; read_json_from_file, write_json_to_file and write_json_to_file_if_different use UTF-8 and raise ValueError '
        'for what is not JSON.',
        (['inputs'], 'every object, mapping and nesting'),
        'The order of the alternatives decides for objects that fit more than one of them.',
        [S + 'json.py', S + 'coding/transforms/jsonify.py'], [('JSONEncoder.default', S + 'json.py')], [ALL['JSON']]),
    'J02': prop(
        'Tracebacks survive storing and loading',
        'Traceback keeps every frame from the outermost to the one that raised with all its locals and globals, and taking it never fails because a '
        'variable cannot be pickled or has a failing repr: such a variable is kept as its repr or a substitute. StoredVariableValue pickles only if the GenerationPolicy '
        'says so, compresses only when should_compress, load_value() undoes exactly what was done, and to_json/from_json and pickle/from_pickle restore an equal object.',
        (['inputs', 'fault_sequences'], 'every value of every variable, failing reprs and pickles included'),
        'Which values fail to pickle, and how large they are, is unbounded.',
        [S + 'instrumentation/trace_back/classes.py', S + 'instrumentation/trace_back/trace_back.py'],
        [('StoredVariableValue', S + 'instrumentation/trace_back/classes.py'), ('Traceback', S + 'instrumentation/trace_back/trace_back.py')], [ALL['TRACEBACK']]),
    'J03': prop(
        'BinaryParser never reads outside of its window',
        'get_bytes, get_struct, get_structs, get_parser, skip and get_remaining_bytes take exactly the next bytes of the window given by offset and length, '
        'advance the pointer by what they took, and raise NotEnoughBytes without moving it if the window has fewer bytes left. get_remaining_bytes_count, '
        'len(), bytes(), assert_has_bytes and reset refer to the same window.',
        (['inputs'], 'every buffer, offset, length and sequence of reads'),
        'Boundaries of windows inside windows are where samples do not go.',
        [S + 'parsing.py'], [('BinaryParser', S + 'parsing.py')], [ALL['PARSER']]),
    'J04': prop(
        'A configuration schema accepts exactly what it describes',
        'A Descriptor runs its pre-checkers, then converts, then runs its post-checkers, and turns every failed conversion into ConfigurationValidationError; Boolean, '
        'Regexp, IPv4, File, FileContents, Directory, List, Dict, Union and Caster apply their own rule to every element. Dict demands every key that is not '
        'optional, fills in defaults, and hands keys it does not know to unknown_key_mapper; Union returns the first alternative that accepts; '
        'descriptor_from_dict builds the descriptor of each named type and rejects unknown ones.',
        (['inputs'], 'every configuration value and schema'),
        'Schemas nest without bound and values are arbitrary.',
        [S + 'configuration/schema/base.py', S + 'configuration/schema/basic.py', S + 'configuration/schema/structs.py',
         S + 'configuration/schema/from_json.py', S + 'configuration/schema/registry.py'],
        [('Descriptor.__call__', S + 'configuration/schema/base.py'), ('Dict.__call__', S + 'configuration/schema/structs.py')], [ALL['SCHEMA']]),
    'J05': prop(
        'Configuration sources fall back and merge in order',
        'AlternativeSource provides the first source that does not raise ConfigurationError and OptionalSource an empty dictionary if its source fails; MergingSource '
        'merges all its sources with later ones prevailing, without changing them, and on a failed one does what on_fail says. FileSource and FormatSource '
        'try the given formats in order, DirectorySource takes every file that passes fname_filter (subdirectories only if asked), EnvironmentSource and '
        'BuildObjectFrom put the value under its key, and load_source_from_dict/load_source_from_list build the sources described, raising ConfigurationError otherwise.',
        (['inputs', 'fault_sequences'], 'every set of sources and every combination of failures'),
        'Which subset of sources fails is combinatorial.',
        [S + 'configuration/sources/derivative.py', S + 'configuration/sources/envvars.py', S + 'configuration/sources/file.py',
         S + 'configuration/sources/format.py', S + 'configuration/sources/from_dict.py', S + 'configuration/sources/object_from.py'],
        [('MergingSource.provide', S + 'configuration/sources/derivative.py')], [ALL['SOURCES']]),
    'J06': prop(
        'Transforms compute what they document',
        'stringify, intify, clip, none_if_false, unpack_dict, pad_to_multiple_of_length, split_shuffle_and_join, linear_interpolate, percentile, '
        'list_values_to_indices, is_subset, hashables_to_int, one_tuple, random_word, random_binary and shuffle_together compute their documented result for every input '
        'and leave the input as it was (pad_to_multiple_of_length returns a new sequence). merge_list yields the pairs of all its sorted inputs in order of '
        'keys, merging those of equal keys and losing none. merge_series yields, for every timestamp of any series from the latest of their first ones on, '
        'in increasing order, the last value of each series at or before it, and ends without an error.',
        (['inputs'], 'every input'),
        'Boundary values and mixed types are not enumerable.',
        [S + 'coding/transforms/__init__.py', S + 'coding/transforms/interpol.py', S + 'coding/transforms/misc.py', S + 'coding/transforms/percentile.py',
         S + 'coding/transforms/predicates.py', S + 'coding/transforms/words.py', S + 'coding/transforms/merge_list.py', S + 'coding/transforms/merger.py', S + 'random.py'],
        [('merge_list', S + 'coding/transforms/merge_list.py'), ('merge_series', S + 'coding/transforms/merger.py')], [ALL['TRANSFORMS']]),
    'J07': prop(
        'Files are read and written completely and always closed',
        'read_in_file, write_to_file, read_lines, read_re_sub_and_write and write_out_file_if_different transfer all of the data and close the file on every path; read_in_file returns '
        'default only if the file is missing, write_out_file_if_different writes exactly if the contents differ. find_files finds each matching file once in all '
        'subdirectories, make_noncolliding_name returns a name that does not exist, split ends for every path, try_unlink tells whether it removed something, '
        'jump_to_directory restores the working directory on every exit, and a DevNullFilelikeObject refuses use after close.',
        (['inputs', 'fault_sequences'], 'every path, content and failure of the file system'),
        'Failures in the middle of an operation and unusual paths are not sampled.',
        [S + 'files.py'], [('read_in_file/write_to_file', S + 'files.py')], [ALL['FILES']]),
    'R01': prop(
        'A transaction commits or rolls back, never both, and closes',
        'transaction commits exactly if its block ends without an exception and rolls back exactly if it ends with one, which then propagates; on every exit, '
        'a failed commit or rollback included, it closes the cursor and, if asked to, the connection. A getter given in place of the connection is called once.',
        (['inputs', 'fault_sequences'], 'every outcome of the block, the commit and the rollback'),
        'Commit and rollback failures are faults that tests rarely inject.',
        [S + 'db.py'], [('transaction.__exit__', S + 'db.py')], [ALL['RESOURCES']]),
    'R02': prop(
        'A connection pool never exceeds its limits and tears down what it drops',
        'CPManager hands out at most max_number connections, reuses each at most max_cycle_no times, and tears down, once, every connection that it '
        'drops: used up, failed through fail_connection, not fitting back, or released after close(). close() and invalidate() tear down all that are idle, '
        'and acquire_connection raises RuntimeError once the pool is closed.',
        (['inputs', 'schedules'], 'every sequence of acquiring, failing, releasing and closing'),
        'Release after close and a full pool depend on the order of operations.',
        [S + 'coding/resources/cp_manager.py'], [('acquire_connection/release_connection', S + 'coding/resources/cp_manager.py')], [ALL['POOL']]),
    'R03': prop(
        'hang_until_sig returns on a signal and restores the handlers',
        'hang_until_sig waits until SIGTERM, SIGINT or one of extra_signals arrives, restores every handler it replaced on every exit, exceptions included, and '
        'can be called again afterwards.',
        (['fault_sequences', 'histories'], 'every signal and every moment at which it arrives'),
        'The moment of a signal is not in control of a test.',
        [S + 'os/signals.py'], [('hang_until_sig', S + 'os/signals.py')], [ALL['SIGNALS']]),
    'R04': prop(
        'sleep waits the full time and time strings mean what they say',
        'sleep(y) returns True only after at least y has elapsed, going on after an interruption unless abort_on_interrupt (which returns False), and returns False for '
        'a negative time without sleeping. parse_time_string accepts a number or a number with one unit suffix of TIME_MODIFIERS and multiplies by it; time_ms, time_us and time_as_int scale the system time.',
        (['inputs', 'fault_sequences'], 'every duration and every interruption'),
        'Interruptions at arbitrary points cannot be enumerated by tests.',
        [S + 'time/misc.py', S + 'time/parse.py'], [('sleep', S + 'time/misc.py')], [ALL['SLEEP']]),
    'R05': prop(
        'Exponential backoff doubles up to its limit and resets',
        'ExponentialBackoff.failed() starts at start after grace_amount failures, then doubles up to limit, and makes the service unavailable for that long; success() resets the counter and the grace period, '
        'ends the unavailability and wakes all that wait. ready_for_next_check, time_until_next_check, available and sleep follow the counter, '
        'wait_until_available returns as soon as the service may be checked and raises WouldWaitMore otherwise, and launch calls the function until it succeeds.',
        (['histories', 'schedules'], 'every history of failures and successes'),
        'Histories of failures and concurrent successes are unbounded.',
        [S + 'time/backoff.py'], [('ExponentialBackoff', S + 'time/backoff.py')], [ALL['BACKOFF']]),
    'R06': prop(
        'measure counts running time and only that',
        'A measure shows the time elapsed since it was started, plus adjust, until stopped, and keeps that value afterwards; start() resumes from the time measured so far, reset() zeroes it, '
        'and a with-block stops it on every exit. timeouted, time_remaining, assert_not_timeouted, has_exceeded and raise_if_exceeded compare that time with the limit, stop on a measure that '
        'cannot be stopped or is stopped raises TypeError, and as a decorator it hands each call its own fresh copy.',
        (['inputs', 'histories'], 'every sequence of start, stop, reset and reading'),
        'Sequences of starting and stopping are unbounded.',
        [S + 'time/measure.py'], [('measure', S + 'time/measure.py')], [ALL['MEASURE']]),
    'R07': prop(
        'Output of a process is complete and the process never outlives its timeout',
        'call_and_return_stdout returns all that the process wrote, decoded as a whole if an encoding is given; a process that does not end within timeout is killed and reaped and '
        'TimeoutError raised, and a return code other than expected_return_code raises ProcessFailed carrying it and the output. read_nowait keeps reading until '
        'the end of the stream, so that the process never blocks on a full pipe.',
        (['inputs', 'fault_sequences', 'schedules'], 'every amount of output, timing and return code'),
        'Amount and timing of the output are arbitrary.',
        [S + 'processes.py'], [('call_and_return_stdout', S + 'processes.py')], [ALL['PROCESS']]),
    'R08': prop(
        'Locks on files, lazy loading and imports decide by the state they find',
        'PIDFileLock.acquire succeeds exactly if it created the file, taking over one whose content is not the PID of a running process and raising ResourceLocked otherwise; release removes the file and '
        'raises RuntimeError if the lock is not held. Loadable is refreshed at creation or, if lazy, before the first must_be_loaded method; '
        'import_class raises ImportError for what is not there, safe_listdir yields nothing for a directory that is not there, suicide kills its own process group only if it leads it.',
        (['inputs', 'fault_sequences'], 'every content of the lock file and every state of the system'),
        'Stale, empty and foreign lock files are states that tests do not set up together.',
        [S + 'os/pidlock.py', S + 'os/misc.py', S + 'dao.py', S + 'imports.py'], [('PIDFileLock', S + 'os/pidlock.py')], [ALL['DAO']]),
}
