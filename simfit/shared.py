"""Lines of code that touch something which all threads share.

Only a hint for the schedules (where to pause a thread): nothing is judged by
it."""
import builtins
import dis
import functools
import sys
import types

import numpy as np

CALLABLE = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType,
            type, np.ufunc, types.MethodType)
MUTABLE = (list, dict, set, bytearray, np.ndarray)
_known = {}


def _codes(code):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield c
            for d in _codes(c):
                yield d


def _harmless(v):
    return (isinstance(v, CALLABLE) or
            type(v).__name__ == '_ArrayFunctionDispatcher') and \
        not isinstance(v, functools._lru_cache_wrapper)


def lines(path):
    """The line numbers of a source file after (or at) which some shared
    state was read or written."""
    if path in _known:
        return _known[path]
    hot = _known[path] = set()
    mod = [m for m in list(sys.modules.values())
           if getattr(m, '__file__', None) == path]
    try:
        with open(path) as f:
            top = compile(f.read(), path, 'exec')
    except (OSError, SyntaxError):
        return hot
    if not mod:
        return hot
    mod = mod[0]
    codes = list(_codes(top))
    stored = {i.argval for c in codes for i in dis.get_instructions(c)
              if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL')}
    fields = set()
    for k in vars(mod).values():
        if isinstance(k, type) and k.__module__ == mod.__name__:
            fields |= {n for n, v in vars(k).items()
                       if isinstance(v, MUTABLE) and not n.startswith('__')}
    for code in codes:
        order = sorted({l for _, _, l in code.co_lines() if l})
        marked = set()
        line = before = None
        for i in dis.get_instructions(code):
            if i.positions is not None and i.positions.lineno:
                line = i.positions.lineno
            if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                marked.add(line)
            elif i.opname == 'LOAD_GLOBAL':
                v = getattr(mod, i.argval, getattr(builtins, i.argval, None))
                if i.argval in stored or isinstance(v, MUTABLE) or not (
                        _harmless(v) or isinstance(v, (
                            int, float, str, tuple, type(None)))):
                    marked.add(line)
            elif i.opname in ('LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR'):
                if i.argval in fields or i.argval == '__class__':
                    marked.add(line)
                if i.opname == 'STORE_ATTR' and before is not None and (
                        before.opname == 'LOAD_GLOBAL' or
                        before.argval in ('cls', '__class__') or
                        before.opname == 'CALL'):
                    marked.add(line)
            before = i
        for l in marked:
            if l in order:
                k = order.index(l)
                hot.update(order[k:k + 3])
    return hot
