"""A cheap digest of everything a call may leave half-changed: triangles, results, what they hold, what the
package's modules and classes hold, NumPy's generator.  Used only to choose where to interrupt or pre-empt."""
import functools
import sys
import types
import zlib

import numpy as np
import pandas as pd

_crc = zlib.crc32
_SIMPLE = (int, float, str, bool, type(None), bytes, np.floating, np.integer)
_LRU = type(functools.lru_cache()(lambda: 0))
_SKIP = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, property, classmethod, staticmethod, _LRU)


def _arr(v):
    if not isinstance(v, np.ndarray):
        return repr(v)[:200]
    if v.dtype == object:
        return hash(str(v.ravel()[::max(1, v.size // 16)].tolist()))
    if v.nbytes > 1 << 16:
        v = v.ravel()[::max(1, v.size // 512)]
    return _crc(v.tobytes(), v.size)


def _index(x):
    if isinstance(x, pd.RangeIndex):
        return x.start * 31 + x.stop
    return "%s%s" % (_arr(x._data), tuple(x.names))


def _dig(x, seen, depth, out):
    if isinstance(x, _SIMPLE):
        out.append(x if x == x else "nan")
        return
    if id(x) in seen or depth < 0:
        out.append("~")
        return
    if isinstance(x, (pd.DataFrame, pd.Series)):
        seen[id(x)] = x
        m = x._mgr
        for a in m.axes:
            out.append(_index(a))
        for a in m.arrays:
            out.append(_arr(a))
        if type(x) is not pd.DataFrame and type(x) is not pd.Series:
            _attrs(x, seen, depth, out)
    elif isinstance(x, np.ndarray):
        out.append(_arr(x))
    elif isinstance(x, (dict, types.MappingProxyType)):
        seen[id(x)] = x
        for k, v in list(x.items()):
            out.append(k if isinstance(k, _SIMPLE) else str(k)[:80])
            _dig(v, seen, depth - 1, out)
    elif isinstance(x, (list, tuple, set, frozenset)):
        seen[id(x)] = x
        out.append(len(x))
        for v in list(x)[:40]:
            _dig(v, seen, depth - 1, out)
    elif isinstance(x, _LRU):
        out.append(x.cache_info().currsize)
    elif isinstance(x, np.random.RandomState):
        out.append(_rng(x))
    elif getattr(type(x), "__module__", "").startswith("trikit"):
        seen[id(x)] = x
        _attrs(x, seen, depth, out)
    else:
        out.append(type(x).__name__)


def _attrs(x, seen, depth, out):
    for k, v in list(vars(x).items()):
        if k in ("_mgr", "_item_cache", "_attrs", "_flags"):
            continue
        if isinstance(v, _SKIP):
            continue
        out.append(k)
        _dig(v, seen, depth - 1, out)


def _rng(rs):
    st = rs.get_state()
    return hash((_crc(st[1].tobytes()), st[2]))


_globals = None


def _holders():
    """Modules and classes of the package, and the pieces of them that can change."""
    global _globals
    if _globals is None:
        _globals = []
        for name, m in sorted(sys.modules.items()):
            if m is not None and (name == "trikit" or name.startswith("trikit.")) and ".tests" not in name:
                _globals.append(m.__dict__)
                for k in sorted(vars(m)):
                    c = vars(m)[k]
                    if isinstance(c, type) and c.__module__ == name:
                        _globals.append(c.__dict__)
    return _globals


_HOLD = (dict, list, set, pd.DataFrame, pd.Series, np.ndarray, np.random.RandomState)


def digest(roots):
    """One number for the state reachable from roots and from the package."""
    out, seen = [], {}
    for x in roots:
        _dig(x, seen, 4, out)
    for d in _holders():
        out.append(len(d))
        for k, v in list(d.items()):
            if isinstance(v, _HOLD) and k[:2] != "__":
                _dig(v, seen, 3, out)
            elif isinstance(v, _LRU):
                out.append(v.cache_info().currsize)
            elif isinstance(v, (int, float, str, bool)) and k[:2] != "__":
                out.append(v)
            elif isinstance(v, types.FunctionType) and v.__dict__:
                _dig(v.__dict__, seen, 2, out)
    out.append(_rng(np.random.mtrand._rand))
    return hash(tuple(out))
