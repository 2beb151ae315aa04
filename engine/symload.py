"""Loads MrMustard for exact execution: numba is disabled (`@njit` functions run as the Python
functions they are written as) and the two numba-only intrinsics get their Python meaning."""
import os
os.environ["NUMBA_DISABLE_JIT"] = "1"
import numba
import numba.cpython.unsafe.tuple as _t


def tuple_setitem(tup, i, v):
    lst = list(tup)
    lst[i] = v
    return tuple(lst)


_t.tuple_setitem = tuple_setitem
import numba.typed as _ty
import numba.types as _tt
from numba import typed, types


class _List(list):
    @staticmethod
    def empty_list(*a, **k):
        return _List()


class _Dict(dict):
    @staticmethod
    def empty(*a, **k):
        return _Dict()


typed.List = _List
typed.Dict = _Dict
numba.typed.List = _List
numba.typed.Dict = _Dict
