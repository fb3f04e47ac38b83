"""Simulated memory: numpy takes the data of its arrays from an allocator that can run out (NEP 49 data handler)."""
import ctypes
import numpy as np

_keep = []


def install(lib):
    """all array data allocated by the calling thread's context comes from the simulated memory from now on"""
    from numpy.core import _multiarray_umath as mu
    lib.sd_mem_handler.restype = ctypes.c_void_p
    lib.sd_mem_n.restype = lib.sd_mem_fired.restype = ctypes.c_long
    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    table = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    name = ctypes.c_char_p(b'mem_handler')
    cap = api.PyCapsule_New(lib.sd_mem_handler(), name, None)
    _keep.extend([cap, name])
    set_handler(cap)
    assert mu.get_handler_name(np.zeros(3)) == 'simulated memory'
