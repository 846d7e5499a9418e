"""Time and memory limits of one obligation, enforced from outside."""
import ctypes
import os
import time

DEADLINE = [None]
LIMIT = int(os.environ.get('SA_MEMORY', '4000')) * 1024 * 1024
PAGE = os.sysconf('SC_PAGE_SIZE')


class Budget(Exception):
    pass


def rss():
    try:
        with open('/proc/self/statm') as f:
            return int(f.read().split()[1]) * PAGE
    except (OSError, ValueError, IndexError):
        return 0


def look(ident):
    """raise Budget in the working thread when it is beyond its limits"""
    d = DEADLINE[0]
    if d is None:
        return
    over = time.time() > d + 5 or rss() > LIMIT
    if over and DEADLINE[0] is not None:
        DEADLINE[0] = None
        ctypes.pythonapi.PyThreadState_SetAsyncExc(
            ctypes.c_ulong(ident), ctypes.py_object(Budget))
