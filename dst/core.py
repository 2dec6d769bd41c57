"""Core of the deterministic simulator.

One integer seed fixes a *scenario* (a plain JSON document: workload, knobs and
fault plan) and every run-time choice is a pure function of the seed and of a
named key, never of a shared random stream, so that removing one step while
minimising does not change what the other steps do.
"""
import collections
import hashlib
import json
import os
import random


# =============================================================================
class SimCrash(BaseException):
    """The simulated process has died (kill -9 at an I/O point)."""


class SimInterrupt(KeyboardInterrupt):
    """The simulated user pressed Ctrl-C at an instrumented point."""


class Violation(Exception):
    """A listed property does not hold."""

    def __init__(self, cls, msg):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The harness (not the code under test) is at fault."""


# =============================================================================
def h64(*key):
    """Hash of a key to an unsigned 64-bit integer (process independent)."""
    data = json.dumps(key, sort_keys=True, default=str).encode()
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), 'big')


def hfloat(*key):
    return h64(*key)/2.0**64


def rng(*key):
    """Independent pseudo-random stream named by a key."""
    return random.Random(h64(*key))


def digest(obj):
    data = json.dumps(obj, sort_keys=True, default=str).encode()
    return hashlib.blake2b(data, digest_size=10).hexdigest()


_KNOWN = None


def known_keys():
    """Keys of the known (recorded, not repaired) findings."""
    global _KNOWN
    if _KNOWN is None:
        path = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), 'known_findings.jsonl')
        with open(path) as f:
            items = [json.loads(x) for x in f if x.strip()]
        _KNOWN = {i['key'] for i in items if i['status'] == 'known'}
    return _KNOWN


# =============================================================================
class Ctx:
    """Context of one simulated run."""

    def __init__(self, scenario, scratch):
        self.scn = scenario
        self.seed = scenario['seed']
        self.scratch = scratch
        self.trace = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.steps = 0
        self.sim_time = 0.0
        self.nontrivial = False
        self.max_steps = 2000000
        self.known = known_keys()

    # -------------------------------------------------------------------------
    def log(self, *event):
        self.trace.append(event)

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, obj):
        self.states.add(digest(obj))

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation('no-progress',
                            f'more than {self.max_steps} simulated steps')

    # -------------------------------------------------------------------------
    def check(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def finding(self, key, cls, msg):
        """A violation that may be a listed known finding."""
        if key not in self.known:
            raise Violation(cls, msg)
        self.probe('known:' + key)

    def must(self, what, fn, *args, **kwargs):
        """Call code under test where no fault is active: it must not raise."""
        try:
            return fn(*args, **kwargs)
        except (SimCrash, Violation, HarnessError):
            raise
        except Exception as exc:
            raise Violation(
                'unexpected-exception',
                f'{what} raised {type(exc).__name__}: {str(exc)[:300]}'
                f' (at {origin(exc)})') from exc

    def result(self):
        return {'trace_digest': digest(self.trace),
                'faults': dict(self.faults), 'probes': dict(self.probes),
                'states': sorted(self.states), 'steps': self.steps,
                'sim_time': self.sim_time, 'nontrivial': self.nontrivial}


# =============================================================================
def origin(exc):
    """Innermost code-under-test function of an exception."""
    tb = exc.__traceback__
    where = '?'
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if '/hookeai/' in name:
            where = (name.split('/hookeai/', 1)[1] + ':'
                     + tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where
