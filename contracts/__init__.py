"""Catalogue of contracts per property."""
import importlib

PROPS = ['C%02d' % k for k in range(1, 18)]
_cache = {}


def entries(prop, tier='quick'):
    key = (prop, tier)
    if key not in _cache:
        try:
            m = importlib.import_module('contracts.' + prop.lower())
        except ModuleNotFoundError as e:
            if prop.lower() in str(e):
                return []
            raise
        _cache[key] = list(m.entries(tier))
        names = [e.name for e in _cache[key]]
        assert len(set(names)) == len(names), 'duplicate contract names %s' % [n for n in names if names.count(n) > 1][:3]
    return _cache[key]
