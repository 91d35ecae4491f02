"""Registry: every rule module contributes PROPS (property metadata and the rules deciding each)."""
import importlib

MODULES = ['conc_locks', 'conc_state', 'conc_wait', 'conc_futures', 'structures', 'functions', 'sequences', 'data', 'metrics', 'rest']

PROPERTIES = {}
for _m in MODULES:
    _mod = importlib.import_module('.' + _m, __name__)
    for _k, _v in _mod.PROPS.items():
        assert _k not in PROPERTIES, _k
        PROPERTIES[_k] = _v
from . import inits, rest       # noqa: E402
for _k, _v in inits.RULES.items():
    PROPERTIES[_k]['rules'] = list(PROPERTIES[_k]['rules']) + [_v]
for _k, _v in rest.EXTRA.items():
    PROPERTIES[_k]['rules'] = list(PROPERTIES[_k]['rules']) + _v
PROPERTIES = dict(sorted(PROPERTIES.items()))
