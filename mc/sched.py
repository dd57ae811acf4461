"""
Controlled execution of library calls on real threads, and fault injection, at bytecode granularity.

A call is traced with sys.settrace; the events are the bytecodes executed in frames of the package (calls into NumPy, SciPy
and the interpreter are atomic).  Bytecodes that touch only the private stack and local variables of their frame commute
with every step of another thread, so a preemption before one of them is equivalent to a preemption before the next
bytecode that does not; they are not separate scheduling points (partial-order reduction).
"""
from __future__ import annotations

import dis
import inspect
import sys
import threading

from . import lib

PKG = lib.PKG_DIR

LOCAL_OPS = {
    'CACHE', 'RESUME', 'NOP', 'POP_TOP', 'PUSH_NULL', 'COPY', 'SWAP', 'LOAD_CONST', 'LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR',
    'STORE_FAST', 'DELETE_FAST', 'KW_NAMES', 'JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT', 'BUILD_TUPLE', 'BUILD_LIST',
    'RETURN_VALUE', 'RETURN_CONST', 'EXTENDED_ARG', 'COPY_FREE_VARS', 'MAKE_CELL', 'MAKE_FUNCTION', 'LOAD_CLOSURE', 'POP_JUMP_IF_NONE',
    'POP_JUMP_IF_NOT_NONE', 'IS_OP', 'END_FOR', 'RETURN_GENERATOR', 'LOAD_ASSERTION_ERROR', 'PUSH_EXC_INFO', 'POP_EXCEPT', 'BUILD_SLICE',
    'LOAD_FAST_LOAD_FAST', 'STORE_FAST_STORE_FAST', 'STORE_FAST_LOAD_FAST', 'BUILD_CONST_KEY_MAP',
}

_points = {}


def points_of(code):
    """Offsets of the scheduling points of a code object."""
    p = _points.get(code)
    if p is None:
        ins = list(dis.get_instructions(code))
        p = set()
        for x in ins:
            if x.opname in LOCAL_OPS:
                continue
            if x.positions is not None and x.positions.lineno is None:
                continue  # added by the compiler to pass exceptions on (in a generator that is closed, they end there)
            p.add(x.offset)
        _points[code] = p
    return p


_exits = {}


def with_exit(code):
    """Offsets of the calls of context-manager exits on the normal path (an injected fault there cannot be handled by any code)."""
    p = _exits.get(code)
    if p is None:
        ins = [x for x in dis.get_instructions(code) if x.opname not in ('CACHE', 'EXTENDED_ARG', 'PRECALL')]
        p = set()
        for i in range(3, len(ins)):
            if ins[i].opname == 'CALL' and all(x.opname == 'LOAD_CONST' and x.argval is None for x in ins[i - 3:i]):
                p.update(x.offset for x in ins[i - 3:i + 1])
        _exits[code] = p
    return p


def closing(frame):
    """Is this a generator that is being closed? Exceptions that it raises then are dropped by the interpreter."""
    return bool(frame.f_code.co_flags & inspect.CO_GENERATOR) and isinstance(sys.exc_info()[1], GeneratorExit)


def run_traced(call, on_point, granularity='opcode'):
    """
    Run call() in this thread; on_point(frame) is called before every scheduling point, and may return True to stop tracing.
    """
    state = {'off': False}

    if granularity == 'opcode':
        def local(frame, event, arg):
            if state['off']:
                frame.f_trace_opcodes = False
                return None
            if event == 'opcode' and frame.f_lasti in points_of(frame.f_code) and not closing(frame):
                if on_point(frame):
                    state['off'] = True
                    sys.settrace(None)
                    return None
            return local
    else:
        def local(frame, event, arg):
            if state['off']:
                return None
            if event == 'line':
                if on_point(frame):
                    state['off'] = True
                    sys.settrace(None)
                    return None
            return local

    def glob(frame, event, arg):
        if state['off'] or not frame.f_code.co_filename.startswith(PKG):
            return None
        if granularity == 'opcode':
            frame.f_trace_opcodes = True
        return local

    sys.settrace(glob)
    try:
        return call()
    finally:
        sys.settrace(None)


def trace_points(call, granularity='opcode'):
    """The sequence of (code, offset) scheduling points of an undisturbed execution, and its result."""
    out = []

    def on(frame):
        out.append((frame.f_code, frame.f_lasti if granularity == 'opcode' else frame.f_lineno))
        return False
    r = run_traced(call, on, granularity)
    return out, r


def choose(points, visits):
    """Indices of the first `visits` and the last visit of every location."""
    n = {}
    last = {}
    for k, p in enumerate(points):
        last[p] = k
    ks = []
    for k, p in enumerate(points):
        n[p] = n.get(p, 0) + 1
        if n[p] <= visits or last[p] == k:
            ks.append(k)
    return ks


def cover(traces):
    """
    Greedy choice of executions: the first one, and those that add locations.

    traces: {number: set of locations}; returns [(number, set of locations that no earlier choice visited)].
    """
    out, seen = [], set()
    rest = dict(traces)
    while rest:
        k = next(iter(rest)) if not out else max(rest, key=lambda j: (len(rest[j] - seen), -j))
        new = rest.pop(k) - seen
        if not new:
            break
        out.append((k, new))
        seen |= new
    return out


class Helper:
    """The second thread: executes one job at a time when told to."""

    def __init__(self):
        self.go = threading.Semaphore(0)
        self.done = threading.Semaphore(0)
        self.job = None
        self.result = None
        self.pending = False
        self.blocked = 0
        self.timeout = 2.0
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            self.go.acquire()
            job = self.job
            if job is None:
                return
            try:
                self.result = job()
            except BaseException as e:  # reported by the caller
                self.result = e
            self.done.release()

    def start(self, job):
        self.job = job
        self.pending = True
        self.go.release()

    def wait(self, timeout=None):
        """True when the job has finished within the time limit (otherwise it is blocked by the suspended thread)."""
        if not self.pending:
            return True
        ok = self.done.acquire(timeout=self.timeout if timeout is None else timeout)
        if ok:
            self.pending = False
        else:
            self.blocked += 1
            if self.blocked >= 3:
                self.timeout = 0.05
        return ok

    def finish(self):
        """After the first thread has finished, the second one must finish as well."""
        if not self.pending:
            return True
        ok = self.done.acquire(timeout=20)
        self.pending = not ok
        return ok

    def stop(self):
        self.job = None
        self.go.release()


class Stop:
    pass


def preempt_once(call, k, job, helper, granularity='opcode'):
    """Run call(); before its k-th scheduling point the other thread runs job() to its end.  Returns (result, fired)."""
    st = {'n': -1, 'fired': False}

    def on(frame):
        st['n'] += 1
        if st['n'] == k:
            st['fired'] = True
            helper.start(job)
            helper.wait()
            return True
        return False
    r = run_traced(call, on, granularity)
    return r, st['fired']


def preempt_twice(call_a, i, call_b, j, helper, granularity='line'):
    """
    a runs to its i-th point, b runs to its j-th point, a runs to its end, b runs to its end.
    Returns (result of a, result of b, fired) or None as result of b when b could not finish.
    """
    resume_b = threading.Semaphore(0)
    reached = threading.Semaphore(0)
    sa, sb = {'n': -1, 'fired': False}, {'n': -1, 'fired': False}

    def on_b(frame):
        sb['n'] += 1
        if sb['n'] == j:
            sb['fired'] = True
            reached.release()
            resume_b.acquire(timeout=30)
            return True
        return False

    def job():
        r = run_traced(call_b, on_b, granularity)
        if not sb['fired']:
            reached.release()
        return r

    def on_a(frame):
        sa['n'] += 1
        if sa['n'] == i:
            sa['fired'] = True
            helper.start(job)
            if not reached.acquire(timeout=helper.timeout):
                helper.blocked += 1
                if helper.blocked >= 3:
                    helper.timeout = 0.05
            return True
        return False

    ra = run_traced(call_a, on_a, granularity)
    if not sa['fired']:
        return ra, None, False
    resume_b.release()
    if not helper.finish():
        return ra, Stop, True
    return ra, helper.result, sb['fired']


def _prime():
    """Python 3.12 delivers bytecode events only after one frame has asked for them before sys.settrace is called."""
    def f():
        return None

    def g(frame, event, arg):
        frame.f_trace_opcodes = True
        return g
    old = sys.gettrace()
    sys.settrace(g)
    f()
    sys.settrace(old)


_prime()
