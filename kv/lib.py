"""shared access to the analysed programs"""
import build
from mir import Program

_lib = None


def library():
    global _lib
    if _lib is None:
        import os
        f = os.environ.get('KV_DUMP') or build.dump_lib()
        _lib = Program(f)
    return _lib


_var = {}


def variant(features):
    """the library built with another feature set"""
    key = tuple(sorted(features))
    if key not in _var:
        _var[key] = Program(build.dump_lib(list(key)))
    return _var[key]


_fx = None


def fixtures():
    """(program, rejected definitions): the derived decoders"""
    global _fx
    if _fx is None:
        import json
        import os
        f = os.environ.get('KV_FX') or build.dump_fixtures()
        with open(os.path.join(os.path.dirname(f), 'rejected.json')) as g:
            _fx = Program(f), json.load(g)
    return _fx
