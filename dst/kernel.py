# -*- coding: utf-8 -*-
"""Deterministic scheduler: one real thread per simulated client, exactly one of them runs at a time.

Control can leave a client only at a *step*: a bytecode boundary of library code (opcode trace event of a frame
whose code lies in the traced files), a contended simulated lock, an explicit yield of a harness callback, or the
boundary between two operations.  Whether it leaves, and to whom, is decided by the seeded scheduler (random mode)
or by the recorded list of switches (explicit mode, replay).  Asynchronous exceptions are raised at a given step.
"""

import os
import sys
import linecache
import math
import random
import threading
import _thread

_alloc = _thread.allocate_lock
_start = _thread.start_new_thread
_ident = _thread.get_ident

ACTIVE = None           # the running Kernel
BY_IDENT = {}           # thread ident -> Client of the running kernel
TRACED_PREFIX = ()
TRACED_FILES = frozenset()
_traced_cache = {}


def set_traced(prefixes, files):
    global TRACED_PREFIX, TRACED_FILES
    TRACED_PREFIX = tuple(prefixes)
    TRACED_FILES = frozenset(files)
    _traced_cache.clear()


def is_traced(filename):
    r = _traced_cache.get(filename)
    if r is None:
        r = _traced_cache[filename] = filename in TRACED_FILES or filename.startswith(TRACED_PREFIX)
    return r


def is_lib(filename):
    return filename.startswith(TRACED_PREFIX)


class SimFailure(BaseException):
    """The simulation cannot continue: deadlock or step budget exhausted"""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


# ---------------------------------------------------------------------------------------------------------- locks

class SimLock:
    """Replacement of threading.Lock/RLock.  Outside of a simulation it behaves as an ordinary lock"""

    _reentrant = False
    _signal = False           # what a condition waits for: taken and never returned

    def __init__(self):
        self._owner = None
        self._count = 0
        self._guard = _alloc()

    def _me(self):
        return _ident()

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        client = BY_IDENT.get(me)
        if client is not None:
            client.kernel.step(client, None, 'lock')
        tries = 0
        while True:
            with self._guard:
                if self._owner is None:
                    self._owner = me
                    self._count = 1
                    if client is not None and not self._signal:
                        client.kernel.held.append(self)
                    return True
                if self._reentrant and self._owner == me:
                    self._count += 1
                    return True
            if not blocking:
                return False
            tries += 1
            if timeout is not None and timeout >= 0 and tries > 3:
                return False
            if client is not None:
                client.kernel.wait_lock(client, self)
            else:
                # Nobody else can run outside of a simulation: this would block for ever
                raise SimFailure('deadlock', 'lock is held by nobody who can release it')

    def release(self):
        with self._guard:
            if self._owner is None or (self._reentrant and self._owner != _ident()):
                raise RuntimeError('release unlocked lock')
            self._count -= 1
            if self._count == 0:
                self._owner = None
        client = BY_IDENT.get(_ident())
        if client is not None:
            client.kernel.unlocked(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    # Condition support
    def _is_owned(self):
        return self._owner == _ident()

    def _release_save(self):
        count = self._count
        self._count = 1
        self.release()
        return count

    def _acquire_restore(self, count):
        self.acquire()
        self._count = count


class SimRLock(SimLock):
    _reentrant = True


class SimSignal(SimLock):
    _signal = True


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimSignal      # what conditions and events wait for
    _thread.RLock = SimRLock
    import functools
    if hasattr(functools, 'RLock'):
        functools.RLock = SimRLock


# --------------------------------------------------------------------------------------------------------- clients

class Client:
    def __init__(self, kernel, num, body):
        self.kernel = kernel
        self.num = num
        self.body = body
        self.gate = _alloc()
        self.gate.acquire()
        self.done = False
        self.waiting = None       # lock
        self.op = -1              # id of the running operation
        self.n = 0                # steps of the running operation
        self.fault = None         # armed fault: dict(kind, exc, n)
        self.fault_exc = None     # exception instance which was raised
        self.bcalls = None        # per backend function call counters (backend.py)
        self.bfault = None
        self.bfault_exc = None
        self.cbcount = 0
        self.tracer = None
        self.yields = 0
        self.storing = False      # the last step was a store instruction
        self.nstores = 0


# Special methods through which numpy looks at sequences: it treats failures there as "is not a sequence",
# which is behaviour of numpy, not of the library
_PROBED = frozenset(['__len__', '__getitem__', '__iter__', '__bool__', '__contains__', '__reversed__'])


# Nobody can protect the clean-up of a `with` or `finally` block itself against asynchronous exceptions:
# no exception is injected into the few instructions which enter or leave such blocks
_CLEANUP = frozenset(['POP_BLOCK', 'BEGIN_FINALLY', 'WITH_CLEANUP_START', 'WITH_CLEANUP_FINISH', 'WITH_EXCEPT_START',
                      'END_FINALLY', 'RERAISE', 'POP_FINALLY', 'CALL_FINALLY', 'SETUP_FINALLY', 'SETUP_WITH',
                      'POP_EXCEPT', 'BEFORE_WITH', 'SETUP_EXCEPT'])
_offsets = {}

# Instructions which change something that others can see
_STORES = frozenset(['STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'DELETE_ATTR', 'DELETE_GLOBAL', 'DELETE_SUBSCR',
                     'STORE_DEREF'])
_MUTATORS = frozenset(['append', 'extend', 'insert', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'add', 'remove',
                       'discard', 'sort', 'fill', 'put', 'copyto', 'resize', 'setflags', 'partition', 'move_to_end',
                       'appendleft', 'popleft', 'fill_diagonal', '__setattr__', '__setitem__', 'itemset'])
_stores = {}


def _is_store(frame):
    code = frame.f_code
    table = _stores.get(code)
    if table is None:
        import dis
        table = set()
        methods = []
        last = None
        for i in dis.get_instructions(code):
            if i.opname in _STORES or i.opname.startswith('INPLACE_'):
                table.add(i.offset)
            elif i.opname in ('LOOKUP_METHOD', 'LOAD_METHOD'):
                methods.append(i.argval)
            elif i.opname.startswith('CALL_METHOD') and methods:
                if methods.pop() in _MUTATORS:
                    table.add(i.offset)
            if i.opname.startswith('CALL_') and type(last) is tuple and 'out' in last:
                table.add(i.offset)         # the result is written into an array which existed before
            last = i.argval if i.opname == 'LOAD_CONST' else None
        _stores[code] = table = frozenset(table)
    return frame.f_lasti in table


# Variables of the modules which functions assign to, and those which hold something mutable
_state_names = {}
_shared = {}


def _assigned(code, out):
    import dis
    for i in dis.get_instructions(code):
        if i.opname == 'STORE_GLOBAL':
            out.add(i.argval)
    for c in code.co_consts:
        if hasattr(c, 'co_consts'):
            _assigned(c, out)


def _is_shared(frame):
    code = frame.f_code
    table = _shared.get(code)
    if table is None:
        import dis
        names = _state_names.get(code.co_filename)
        if names is None:
            names = set()
            try:
                with open(code.co_filename, encoding='utf-8') as f:
                    _assigned(compile(f.read(), code.co_filename, 'exec'), names)
            except (OSError, SyntaxError):
                pass
            for k, v in list(frame.f_globals.items()):
                if not k.startswith('__') and hasattr(type(v), '__setitem__') and not isinstance(v, type):
                    names.add(k)
            _state_names[code.co_filename] = names
        table = frozenset(i.offset for i in dis.get_instructions(code)
                          if i.opname == 'LOAD_GLOBAL' and i.argval in names)
        _shared[code] = table
    return frame.f_lasti in table


def _interruptible(frame):
    code = frame.f_code
    table = _offsets.get(code)
    if table is None:
        import dis
        table = set()
        after = 0
        for ins in dis.get_instructions(code):
            if ins.opname in _CLEANUP:
                table.add(ins.offset)
                after = 8
            elif after and ins.opname in ('LOAD_CONST', 'DUP_TOP', 'CALL_FUNCTION', 'POP_TOP', 'ROT_TWO', 'ROT_FOUR',
                                          'POP_JUMP_IF_TRUE'):
                table.add(ins.offset)
                after -= 1
            else:
                after = 0
        _offsets[code] = table
    if frame.f_lasti in table:
        return False
    # nor into the statements which take, return or restore something explicitly
    f = frame
    while f is not None and is_lib(f.f_code.co_filename):
        text = linecache.getline(f.f_code.co_filename, f.f_lineno)
        if 'acquire(' in text or 'release(' in text or text.strip() in ('try:', 'finally:'):
            return False
        f = f.f_back
    return True


class Kernel:
    def __init__(self, sched, nclients_hint=1, max_steps=400000):
        self.sched = sched
        self.mode = sched['mode']
        self.clients = []
        self.running = None
        self.main_gate = _alloc()
        self.main_gate.acquire()
        self.steps = 0
        self.max_steps = max_steps
        self.nswitch = 0
        self.held = []            # locks taken by clients
        self.log = []             # performed switches: [client, op, n, target]
        self.contexts = set()     # (client op name, target op name) pairs seen at switches
        self.crash = None
        self.trace = True
        self.paused = False       # an invariant is being checked: what it calls is not a step
        self.on_switch = None
        self.trace_hash = 0
        self.meet = None          # [who waits, who runs, code, offset, further steps, last step]
        if self.mode == 'random':
            self.rng = random.Random(sched['seed'])
            self.p = sched['p']
            self.logq = math.log1p(-self.p) if self.p < 1 else None
            self.countdown = self._gap()
            self.ps = sched.get('ps', 0.0)
            self.pg = sched.get('pg', 0.0)
            self.meetp = sched.get('meet', 0.0)
        else:
            self.ps = self.pg = self.meetp = 0.0
            self.explicit = {(c, o, n): t for c, o, n, t in sched['switches']}
            self.countdown = -1

    def _gap(self):
        if self.logq is None:
            return 1
        return int(math.log(1.0 - self.rng.random()) / self.logq) + 1

    # ------------------------------------------------------------------------------------------------- scheduling
    def runnable(self, exclude=None):
        return [c for c in self.clients if not c.done and c.waiting is None and c is not exclude]

    def step(self, client, frame, why):
        """A step of the running client"""
        if self.paused:
            return
        n = client.n = client.n + 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail('stuck', 'more than %d steps' % self.max_steps)
        fault = client.fault
        near = False
        if frame is not None and (self.ps or fault is not None and 'at' in fault):
            # steps just before and just after a store
            near = client.storing
            client.nstores += near
            client.storing = _is_store(frame)
            near = near or client.storing
        if fault is not None and frame is not None and (client.nstores if 'at' in fault else n) >= fault['n']:
            if self._injectable(frame):
                client.fault = None
                exc = make_exc(fault['exc'])
                client.fault_exc = exc
                client.fault_where = (frame.f_code.co_name, frame.f_lineno)
                raise exc
        if self.mode == 'random':
            if self.meet is not None and self._meeting(client, frame, n):
                return
            self.countdown -= 1
            if self.countdown <= 0:
                self.countdown = self._gap()
                self._yield(client, frame, n)
            elif near and self.ps and self.rng.random() < self.ps:
                self._yield(client, frame, n)
            elif self.pg and frame is not None and _is_shared(frame) and self.rng.random() < self.pg:
                self._yield(client, frame, n)
        else:
            target = self.explicit.get((client.num, client.op, n))
            if target is not None and target != client.num:
                other = self.clients[target]
                if not other.done and other.waiting is None:
                    self.switch(client, other, n)

    def _yield(self, client, frame, n):
        others = self.runnable(exclude=client)
        if others:
            other = others[self.rng.randrange(len(others))]
            if self.meetp and frame is not None and self.rng.random() < self.meetp:
                # the other client runs until it comes to the same place
                self.meet = [client, other, frame.f_code, frame.f_lasti,
                             self.rng.choice((0, 0, 0, 0, 0, 1, 5)), self.steps + self.rng.choice((60, 200, 800, 3000))]
            self.switch(client, other, n)

    def _meeting(self, client, frame, n):
        m = self.meet
        if client is not m[1] or m[0].done or m[0].waiting is not None:
            self.meet = None
            return False
        if m[2] is None:
            m[4] -= 1
        elif frame is not None and frame.f_lasti == m[3] and frame.f_code is m[2]:
            m[2] = None
        if m[2] is None and m[4] <= 0 or self.steps > m[5]:
            self.meet = None
            self.switch(client, m[0], n)
        return True

    def _injectable(self, frame):
        if not is_lib(frame.f_code.co_filename) or not _interruptible(frame):
            return False
        # frames of the operation, innermost first
        names = []
        f = frame
        while f is not None:
            co = f.f_code
            if is_lib(co.co_filename):
                names.append(f)
            f = f.f_back
        for f in names[:-1]:
            if f.f_code.co_name in _PROBED and type(f.f_locals.get('self')).__name__ in ('Point', 'CurvePoint'):
                return False
        return True

    def switch(self, client, other, n):
        self.nswitch += 1
        self.log.append([client.num, client.op, n, other.num])
        self.contexts.add((client.opname, other.opname))
        if self.on_switch is not None:
            self.paused = True
            try:
                self.on_switch()
            finally:
                self.paused = False
        self.running = other
        other.gate.release()
        client.gate.acquire()

    def wait_lock(self, client, lock):
        client.waiting = lock
        others = self.runnable()
        if not others:
            self.fail('deadlock', 'all clients wait for locks: %s' % [
                (c.num, c.op, getattr(c, 'opname', '?')) for c in self.clients if not c.done])
        # who runs while this client is blocked
        if self.mode == 'random':
            other = others[self.rng.randrange(len(others))]
        else:
            t = self.explicit.get((client.num, client.op, -client.n - 1))
            other = self.clients[t] if t is not None else others[0]
            if other not in others:
                other = others[0]
        self.log.append([client.num, client.op, -client.n - 1, other.num])
        self.running = other
        other.gate.release()
        client.gate.acquire()

    def unlocked(self, lock):
        for c in self.clients:
            if c.waiting is lock:
                c.waiting = None

    def fail(self, kind, detail):
        self.crash = (kind, detail)
        self.main_gate.release()
        while True:                # parked for ever: the process ends after the report
            g = _alloc()
            g.acquire()
            g.acquire()

    # ----------------------------------------------------------------------------------------------------- threads
    def _thread_main(self, client):
        client.gate.acquire()
        BY_IDENT[_ident()] = client
        kernel = self

        def local(frame, event, arg):
            if event == 'opcode':
                kernel.step(client, frame, 'op')
            return local

        def tracer(frame, event, arg):
            if event == 'call' and is_traced(frame.f_code.co_filename):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local
            return None

        client.tracer = tracer if kernel.trace else None
        try:
            client.body(client)
        except BaseException as err:   # harness error
            sys.settrace(None)
            import traceback
            self.crash = ('harness', traceback.format_exc())
        finally:
            sys.settrace(None)
        BY_IDENT.pop(_ident(), None)
        client.done = True
        others = self.runnable()
        if self.crash is not None:
            self.main_gate.release()
            return
        if others:
            if self.mode == 'random':
                other = others[self.rng.randrange(len(others))]
            else:
                t = self.explicit.get((client.num, 'end', 0))
                other = self.clients[t] if t is not None and self.clients[t] in others else others[0]
            self.log.append([client.num, 'end', 0, other.num])
            self.running = other
            other.gate.release()
        elif all(c.done for c in self.clients):
            self.main_gate.release()
        else:
            self.crash = ('deadlock', 'clients left waiting for locks nobody will release: %s' % [
                (c.num, c.op, getattr(c, 'opname', '?')) for c in self.clients if not c.done])
            self.main_gate.release()

    def run(self, bodies):
        global ACTIVE
        ACTIVE = self
        self.clients = [Client(self, i, b) for i, b in enumerate(bodies)]
        for c in self.clients:
            c.opname = 'start'
            _start(self._thread_main, (c,))
        if self.mode == 'random':
            first = self.rng.randrange(len(self.clients))
            self.log.append([-1, 'start', 0, first])
        else:
            first = self.explicit.get((-1, 'start', 0), 0) % len(self.clients)
        self.running = self.clients[first]
        self.clients[first].gate.release()
        self.main_gate.acquire()
        ACTIVE = None
        return self


def current():
    return BY_IDENT.get(_ident())


def yield_point():
    """Explicit step of a harness callback"""
    c = BY_IDENT.get(_ident())
    if c is not None:
        c.yields += 1
        c.kernel.step(c, None, 'yield')


# ------------------------------------------------------------------------------------------------------ exceptions

class InjectedError(Exception):
    """An error of a component outside of the library"""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedBase(BaseException):
    """As asyncio's cancellation: neither an error nor one of the well-known interrupts"""


class InjectedValueError(ValueError):
    pass


class InjectedTypeError(TypeError):
    pass


class InjectedLookup(KeyError, AttributeError):
    pass


def make_exc(name):
    if name == 'KeyboardInterrupt':
        return KeyboardInterrupt('injected')
    if name == 'SystemExit':
        return SystemExit('injected')
    if name == 'GeneratorExit':
        return GeneratorExit('injected')
    if name == 'MemoryError':
        return MemoryError('injected')
    if name == 'LinAlgError':
        import numpy
        return numpy.linalg.LinAlgError('injected')
    if name.startswith('Injected'):
        return globals()[name]('injected')
    if name in ('InterpolationError', 'SmoothingError', 'IntersectionError'):
        return next(getattr(m, name) for n, m in sorted(sys.modules.items())
                    if n.split('.')[0] == 'skcurve' and hasattr(m, name))('injected')
    cls = {'ValueError': ValueError, 'TypeError': TypeError, 'RuntimeError': RuntimeError, 'OSError': OSError,
           'FloatingPointError': FloatingPointError, 'OverflowError': OverflowError, 'ZeroDivisionError': ZeroDivisionError,
           'IndexError': IndexError, 'KeyError': KeyError, 'ArithmeticError': ArithmeticError,
           'AttributeError': AttributeError, 'StopIteration': StopIteration, 'NameError': NameError,
           'NotImplementedError': NotImplementedError, 'AssertionError': AssertionError}[name]
    return cls('injected')


INTERRUPTS = ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit')
