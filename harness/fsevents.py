"""Python side of fsevents.c: watch every change of a file below a directory."""
import contextlib
import ctypes
import os
import traceback

_CB = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p)
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["LD_PRELOAD"].split(":")[0])
        assert _lib.fsev_present() == 1
    return _lib


@contextlib.contextmanager
def watch(directory, callback):
    """callback(phase, op, path); phase 0 before, 1 half way, 2 after."""
    L = lib()
    failed = []

    def safe(phase, op, path):
        if failed:
            return
        try:
            callback(phase, op.decode(), path.decode())
        except BaseException:  # noqa: BLE001
            failed.append(traceback.format_exc())
    f = _CB(safe)
    L.fsev_arm(os.path.realpath(directory).encode(), f)
    try:
        yield
    finally:
        L.fsev_disarm()
    if failed:
        raise AssertionError("observer failed: " + failed[0])
