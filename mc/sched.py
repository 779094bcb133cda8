# encoding: utf-8
"""
Controlled scheduler: every thread of a scenario runs on the real code, one at a time; who runs next is decided here.

Scheduling points: every line (or every bytecode) of the library, and every acquire and release of a lock.
A schedule is: which thread starts, and at which points (numbered in the order they are met) the running thread is
preempted, and for whom.  When a thread blocks or ends, the lowest numbered thread that can run goes on.

Import this module before the library: locks made by `threading` while the library is imported become cooperative.
A lock the library gets in another way is noticed when the running thread sleeps in the kernel: it counts as blocked.
"""
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
_real = {
    "Lock": threading.Lock, "RLock": threading.RLock,
}
get_ident = _thread.get_ident

SCHED = None  # THE SCHEDULE BEING RUN


class Abandoned(BaseException):
    """unwinds the threads of a schedule that is given up"""


class CoLock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _free_for(self, me):
        return self.owner is None or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        sched = SCHED
        if sched is not None and me in sched.by_ident:
            sched.point(sched.by_ident[me], "acquire")
            while not self._free_for(me):
                if not blocking or not sched.block(sched.by_ident[me], self, timeout):
                    return False
        elif not self._free_for(me):
            if not blocking or timeout >= 0:
                return False
            raise RuntimeError("a thread that ended left the lock taken")
        self.owner = me
        self.count += 1
        if sched is not None:
            sched.held += 1
            if self.count == 1:
                sched.holds += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != get_ident()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        sched = SCHED
        if sched is not None:
            sched.held -= 1
        if not self.count:
            self.owner = None
            me = get_ident()
            if sched is not None and me in sched.by_ident:
                sched.point(sched.by_ident[me], "release")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self.owner == get_ident()


class CoRLock(CoLock):
    reentrant = True


def _factory(kind, cooperative):
    def make(*args, **kwargs):
        caller = sys._getframe(1).f_code.co_filename
        if "mo_" in caller.rpartition("site-packages")[2]:
            return cooperative()
        return _real[kind](*args, **kwargs)

    return make


threading.Lock = _factory("Lock", CoLock)
threading.RLock = _factory("RLock", CoRLock)


def _asleep(native_id):
    """in the kernel, waiting"""
    try:
        with open("/proc/self/task/%d/stat" % native_id) as f:
            return f.read().rpartition(")")[2].split()[0] in "SD"
    except OSError:
        return True


class Schedule(object):
    def __init__(self, bodies, first, preemptions, is_library, opcodes=False, limit=400000):
        """
        :param bodies: functions, one for each thread
        :param first: index of the thread that starts
        :param preemptions: {point number: index of the thread that goes on}
        """
        self.bodies = bodies
        self.first = first
        self.preemptions = preemptions
        self.is_library = is_library
        self.opcodes = opcodes
        self.limit = limit
        self.n = len(bodies)
        self.gates = [_real_lock() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.finished_gate = _real_lock()
        self.finished_gate.acquire()
        self.by_ident = {}
        self.native = [None] * self.n
        self.done = [False] * self.n
        self.started = [False] * self.n
        self.waiting = [None] * self.n
        self.results = [None] * self.n
        self.current = None
        self.steps = 0  # POINTS MET
        self.choices = []  # (POINT, RUNNING THREAD, HOLD NUMBER IF A LOCK IS HELD, OTHERS THAT CAN RUN)
        self.held = 0
        self.holds = 0
        self.dead = False
        self.deadlock = False
        self.switches = []
        self.ended = []
        self.blocked_once = []  # (POINT, THREAD) EACH TIME A THREAD HAD TO WAIT

    # -- called from the threads -------------------------------------------------------
    def can_run(self, i):
        if self.done[i]:
            return False
        lock = self.waiting[i]
        if lock is None:
            return True
        if lock == "kernel":
            return not _asleep(self.native[i])
        return lock._free_for(self.ident_of(i))

    def ident_of(self, i):
        for ident, k in self.by_ident.items():
            if k == i:
                return ident

    def point(self, me, kind):
        if self.dead:
            raise Abandoned()
        if self.current != me:
            # CAME BACK FROM A REAL LOCK
            self.waiting[me] = None
            self.gates[me].acquire()
            if self.dead:
                raise Abandoned()
        number = self.steps
        self.steps = number + 1
        if number > self.limit:
            self.give_up()
            raise Abandoned()
        self.choices.append((
            me, self.holds if self.held else 0,
            [i for i in range(self.n) if i != me and not self.done[i] and (self.waiting[i] is None or self.can_run(i))],
        ))
        target = self.preemptions.get(number)
        if target is not None and target != me and self.can_run(target):
            self.switches.append((number, me, target, kind))
            self.give(target, me)

    def give(self, target, me):
        self.current = target
        self.waiting[target] = None
        self.gates[target].release()
        self.gates[me].acquire()
        if self.dead:
            raise Abandoned()

    def block(self, me, lock, timeout=-1):
        self.waiting[me] = lock
        self.blocked_once.append((self.steps, me))
        target = self.next_to_run(me)
        if target is None:
            if timeout >= 0:
                self.waiting[me] = None
                return False
            if any(l == "kernel" for l in self.waiting):
                # THE MAIN THREAD WILL FIND OUT
                self.current = None
                self.gates[me].acquire()
                if self.dead:
                    raise Abandoned()
                return True
            self.deadlock = True
            self.give_up()
            raise Abandoned()
        self.give(target, me)
        return True

    def next_to_run(self, but):
        for i in range(self.n):
            if i != but and self.can_run(i):
                return i
        return None

    def give_up(self):
        self.dead = True
        for i, g in enumerate(self.gates):
            if g.locked():
                try:
                    g.release()
                except RuntimeError:
                    pass
        if self.finished_gate.locked():
            self.finished_gate.release()

    def _trace(self, frame, event, arg):
        if not self.is_library(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point(self.by_ident[get_ident()], event)
        return self._local

    def _run(self, i):
        ident = get_ident()
        self.native[i] = threading.get_native_id()
        self.gates[i].acquire()
        if self.dead:
            return
        try:
            sys.settrace(self._trace)
            try:
                self.results[i] = self.bodies[i]()
            finally:
                sys.settrace(None)
        except Abandoned:
            return
        except BaseException as cause:
            self.results[i] = ("escaped", repr(cause))
        self.done[i] = True
        self.ended.append((self.steps, i))
        if self.dead:
            return
        if all(self.done):
            self.finished_gate.release()
            return
        target = self.next_to_run(i)
        if target is None:
            if any(l == "kernel" for l in self.waiting):
                self.current = None
                return
            self.deadlock = True
            self.give_up()
            return
        self.current = target
        self.waiting[target] = None
        self.gates[target].release()

    # -- called from the main thread ---------------------------------------------------
    def run(self):
        global SCHED
        for i in range(self.n):
            go = _real_lock()
            go.acquire()

            def start(i=i, go=go):
                self.by_ident[get_ident()] = i
                go.release()
                self._run(i)

            _thread.start_new_thread(start, ())
            go.acquire()
        SCHED = self
        try:
            self.current = self.first
            self.gates[self.first].release()
            seen, still = -1, 0
            while not self.finished_gate.acquire(timeout=1.0):
                current = self.current
                if seen != self.steps or (current is not None and not _asleep(self.native[current])):
                    seen, still = self.steps, 0
                    continue
                still += 1
                if still < 3:
                    continue
                # THE RUNNING THREAD IS IN A LOCK THAT IS NOT OURS
                still = 0
                if current is not None:
                    self.waiting[current] = "kernel"
                target = self.next_to_run(current)
                if target is None:
                    self.deadlock = True
                    self.give_up()
                    break
                self.current = target
                self.waiting[target] = None
                self.gates[target].release()
        finally:
            SCHED = None
        return self
