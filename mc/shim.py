"""The interposed file system calls (shim.c): building it, and arming it in a forked child (the workers start with it loaded)."""
import ctypes
import os
import subprocess

OFF, COUNT, CRASH, TORN, FAIL, FULL, SCHED = range(7)
CRASHED = 77


def build(d):
    so = os.path.join(d, 'shim.so')
    subprocess.check_call(['gcc', '-O2', '-shared', '-fPIC', '-w', '-o', so, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim.c'), '-ldl'])
    return so


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.mc_log.restype = ctypes.c_char_p
        _lib.mc_seen.restype = ctypes.c_long
        _lib.mc_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
    return _lib


def arm(mode, at=0, err=0, dirs=(), r=-1, w=-1):
    lib().mc_arm(mode, at, err, '\n'.join(os.path.abspath(d) for d in dirs).encode(), r, w)


def disarm():
    lib().mc_disarm()


def log():
    return [x.split('\t') for x in lib().mc_log().decode().splitlines()]
