"""Controlled scheduler and fault injector for the real code.

Every execution of an instruction of the code under test that can touch shared
state is a scheduling point (sys.monitoring INSTRUCTION events). Threads are
real threads of which exactly one runs at a time; a schedule is a list of
numbers of points after which the running thread is preempted. Locks of the
threading module are replaced by cooperative ones before the code under test
is imported (other blocking primitives are detected by the lack of progress).

The same points, restricted to those at which CPython can really raise an
asynchronous exception or run out of memory, are the interruption points.
"""
import _thread
import dis
import gc
import os
import sys
import threading
import types

from . import env

MON = sys.monitoring
TOOL = 4
_ROOT = os.path.realpath(env.REPO)
_COPY = os.path.realpath(sys.modules['copy'].__file__) \
    if 'copy' in sys.modules else None

# Instructions that can read or write objects shared with other threads, or
# that call something which can do it:
VISIBLE = {
    'LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'BINARY_SUBSCR', 'STORE_SUBSCR',
    'DELETE_SUBSCR', 'CALL', 'CALL_FUNCTION_EX', 'FOR_ITER', 'CONTAINS_OP',
    'BINARY_OP', 'COMPARE_OP', 'STORE_GLOBAL', 'DELETE_GLOBAL', 'STORE_DEREF',
    'UNPACK_SEQUENCE', 'LIST_EXTEND', 'DICT_UPDATE', 'DICT_MERGE',
    'SET_UPDATE', 'BEFORE_WITH', 'WITH_EXCEPT_START', 'BINARY_SLICE',
    'STORE_SLICE', 'LOAD_SUPER_ATTR', 'GET_ITER', 'MAP_ADD', 'SET_ADD',
    'LIST_APPEND', 'LIST_TO_TUPLE'}
# Instructions during which memory can be missing, or before which a signal
# handler can be run:
MAY_RAISE = {
    'CALL', 'CALL_FUNCTION_EX', 'BINARY_OP', 'BUILD_LIST', 'BUILD_TUPLE',
    'BUILD_MAP', 'BUILD_SET', 'BUILD_STRING', 'BUILD_CONST_KEY_MAP',
    'FOR_ITER', 'GET_ITER', 'LIST_APPEND', 'LIST_EXTEND', 'MAP_ADD',
    'SET_ADD', 'DICT_UPDATE', 'DICT_MERGE', 'STORE_SUBSCR', 'STORE_ATTR',
    'MAKE_FUNCTION', 'JUMP_BACKWARD', 'FORMAT_VALUE', 'BINARY_SUBSCR',
    'UNPACK_SEQUENCE', 'RETURN_GENERATOR', 'BINARY_SLICE', 'COMPARE_OP'}
LOCKS = ('acquire', 'release', '__enter__', '__exit__')


def package_codes(prefixes):
    """Code objects of all the functions of some source folders or files."""
    seen, todo = {}, []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if id(c) in seen or not c.co_filename.startswith(prefixes):
            continue
        seen[id(c)] = c
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return list(seen.values())


def handler_of(entries, offset):
    for e in entries:
        if e.start <= offset < e.end:
            return e.target
    return None


def analyse(code):
    """(scheduling points, interruption points) of a code object."""
    visible, faults = set(), set()
    entries = dis._parse_exception_table(code)
    instructions = [i for i in dis.get_instructions(code)
                    if i.opname != 'CACHE']
    attrs = [None]*4
    for n, i in enumerate(instructions):
        name = i.opname
        if name in VISIBLE:
            visible.add(i.offset)
        if name in ('LOAD_ATTR', 'LOAD_METHOD'):
            attrs.append(i.argval)
        before = [p.opname for p in instructions[max(0, n-3):n]]
        is_exit = name == 'CALL' and before == ['LOAD_CONST']*3
        lock = any(p.opname in ('LOAD_ATTR', 'LOAD_METHOD') and
                   p.argval in LOCKS for p in instructions[max(0, n-4):n+1])
        if name in MAY_RAISE and not is_exit and not lock:
            faults.add(i.offset)
        if n:
            p = instructions[n-1]
            if (p.opname in ('CALL', 'CALL_FUNCTION_EX') and not lock and
                    name not in ('LOAD_CONST', 'RETURN_CONST') and
                    handler_of(entries, p.offset) ==
                    handler_of(entries, i.offset)):
                faults.add(i.offset)
    return frozenset(visible), frozenset(faults)


class Points(object):
    """The instrumentation, installed once per process."""

    def __init__(self):
        self.tables = {}
        self.by_thread = {}
        self.mode = 0
        MON.use_tool_id(TOOL, 'verif')
        MON.register_callback(TOOL, MON.events.INSTRUCTION, self.event)
        self.refresh()

    def refresh(self):
        prefixes = (os.path.join(_ROOT, 'uncertainties')+os.sep,)
        if _COPY:
            prefixes += (_COPY,)
        for c in package_codes(prefixes):
            if c not in self.tables and '/test_' not in c.co_filename:
                self.tables[c] = analyse(c)
                MON.set_local_events(TOOL, c, MON.events.INSTRUCTION)

    def add(self, code):
        """Preemptions (but not interruptions) of the code of a user."""
        self.tables[code] = analyse(code)[0], frozenset()
        MON.set_local_events(TOOL, code, MON.events.INSTRUCTION)

    def select(self, mode):
        """0: scheduling points; 1: interruption points."""
        if mode != self.mode:
            self.mode = mode
            MON.restart_events()

    def event(self, code, offset):
        if offset not in self.tables[code][self.mode]:
            return MON.DISABLE
        hook = self.by_thread.get(_thread.get_ident())
        if hook is not None:
            hook(code, offset)


_POINTS = None


def points():
    global _POINTS
    if _POINTS is None:
        _POINTS = Points()
    return _POINTS


########################################
# Cooperative locks

RUN = None  # Current Run
_REAL_RLOCK = threading.RLock
_REAL_LOCK = threading.Lock


class CoopLock(object):
    """Lock (or RLock) whose waiting is known to the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.count and not (self.reentrant and self.owner == me):
            run = RUN
            if not blocking:
                return False
            if run is None or not run.wait_for(self):
                raise RuntimeError('deadlock')
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count or (self.reentrant and
                              self.owner != _thread.get_ident()):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return bool(self.count)

    def _at_fork_reinit(self):
        self.count = 0


def _from_package():
    f = sys._getframe(2)
    return os.path.realpath(f.f_code.co_filename).startswith(_ROOT)


def patch_locks():
    """To be called before the code under test is imported."""
    threading.RLock = lambda: (CoopLock(True) if _from_package()
                               else _REAL_RLOCK())
    threading.Lock = lambda: (CoopLock(False) if _from_package()
                              else _REAL_LOCK())


########################################
# Runs

class Task(object):
    __slots__ = ('run', 'index', 'f', 'gate', 'points', 'done', 'result',
                 'waiting', 'ident', 'lost')

    def __init__(self, run, index, f):
        self.run, self.index, self.f = run, index, f
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.points = 0
        self.done = False
        self.result = None
        self.waiting = None
        self.lost = False  # Blocked in an unknown primitive

    def main(self):
        run = self.run
        self.ident = _thread.get_ident()
        points().by_thread[self.ident] = self.hook
        self.gate.acquire()
        try:
            self.result = ('value', self.f())
        except BaseException as exc:
            self.result = ('exception', exc)
        finally:
            points().by_thread.pop(self.ident, None)
            self.done = True
            run.finished(self)

    def hook(self, code, offset):
        run = self.run
        if run.current is not self:  # Was blocked in an unknown primitive
            self.lost = False
            self.gate.acquire()
        self.points += 1
        run.progress += 1
        if run.left is not None:
            run.left -= 1
            if run.left <= 0:
                run.preempt(self)


class Run(object):
    """One execution of some functions in threads, under a schedule.

    plan -- numbers of points after which the current thread is preempted in
    favor of the next one (in circular order). After the last preemption,
    threads run until they finish or wait.
    """

    def __init__(self, functions, plan):
        self.tasks = [Task(self, i, f) for i, f in enumerate(functions)]
        self.plan = list(plan)
        self.used = 0  # Number of preemptions performed
        self.progress = 0
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.deadlock = False
        self.left = None

    def next_left(self):
        self.left = (self.plan[self.used] if self.used < len(self.plan)
                     else None)

    def others(self, task):
        n = len(self.tasks)
        return [t for t in (self.tasks[(task.index+k) % n]
                            for k in range(1, n))
                if not t.done and not t.lost and
                (t.waiting is None or not t.waiting.count)]

    def switch(self, target):
        self.current = target
        target.waiting = None
        target.gate.release()

    def preempt(self, task):
        self.used += 1
        self.next_left()
        others = self.others(task)
        if others:
            self.switch(others[0])
            task.gate.acquire()

    def wait_for(self, lock):
        """Called by a thread that cannot take a lock."""
        me = _thread.get_ident()
        task = next((t for t in self.tasks
                     if not t.done and t.ident == me), None)
        if task is None:
            return False
        others = self.others(task)
        if not others:
            self.deadlock = True
            return False
        task.waiting = lock
        self.switch(others[0])
        task.gate.acquire()
        return True

    def finished(self, task):
        if self.current is not task and not task.lost:
            return
        others = self.others(task)
        if others:
            self.switch(others[0])
        elif all(t.done for t in self.tasks):
            self.over.release()
        # (else some thread is blocked in an unknown primitive: execute()
        # waits for it)

    def execute(self):
        global RUN
        RUN = self
        points().select(0)
        for t in self.tasks:
            t.ident = None
            _thread.start_new_thread(t.main, ())
        self.next_left()
        self.current = self.tasks[0]
        self.tasks[0].gate.release()
        idle = 0
        while not self.over.acquire(timeout=0.3):
            progress = self.progress
            if progress != getattr(self, 'last', None):
                self.last = progress
                idle = 0
                continue
            idle += 1
            if all(t.done for t in self.tasks):
                break
            if idle > 30:
                self.deadlock = True
                break
            self.current.lost = not self.current.done
            candidates = [t for t in self.tasks if not t.done and not t.lost]
            if candidates:
                self.switch(candidates[0])
        RUN = None
        return [t.result for t in self.tasks]


def interrupted(f, number, exception):
    """Run f(), raising an exception at its interruption point of this number.

    Returns (what happened, value or exception, number of points seen).
    """
    state = [0]

    def hook(code, offset):
        state[0] += 1
        if state[0] == number:
            p.by_thread.pop(me, None)
            raise exception()
    p = points()
    p.select(1)
    me = _thread.get_ident()
    p.by_thread[me] = hook
    try:
        try:
            result = ('value', f())
        finally:
            p.by_thread.pop(me, None)
    except BaseException as exc:
        result = ('exception', exc)
    return result[0], result[1], state[0]
