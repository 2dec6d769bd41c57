"""Faults at function-call points of the code under test.

Every entry into a function defined under the source root is numbered; the
plan names the entry at which an exception appears (Ctrl-C, failed allocation,
numerical failure). Which entry is reached is a function of the execution
only, so the position is exactly repeatable.
"""
import contextlib
import sys

from dst import env
from dst.core import SimInterrupt


class SimNumericalError(RuntimeError):
    """A numerical kernel gave up (simulated)."""


KINDS = {'intr': lambda: SimInterrupt('simulated interrupt'),
         'oom': lambda: MemoryError('simulated allocation failure'),
         'num': lambda: SimNumericalError('simulated numerical failure')}


@contextlib.contextmanager
def count_calls(box):
    """Count the entries of a fault-free execution into box[0]."""
    root = env.SRC
    box[0] = 0

    def tracer(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(root):
            box[0] += 1
        return None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        yield box
    finally:
        sys.settrace(old)


@contextlib.contextmanager
def fault_at(ctx, n, kind):
    """Raise the fault at entry number n (1-based)."""
    root = env.SRC
    seen = [0]

    def tracer(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(root):
            seen[0] += 1
            if seen[0] == n:
                ctx.fault(f'{kind}@call')
                ctx.log('call-fault', kind, n)
                raise KINDS[kind]()
        return None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        yield seen
    finally:
        sys.settrace(old)
