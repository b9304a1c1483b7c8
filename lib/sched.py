"""A controlled scheduler for two python threads running library code.

Each thread is traced (sys.monitoring, which costs nothing outside the library) and is a sequence of steps: the source lines (or the byte codes) it executes in files of
the library. Only one thread runs at a time; a schedule is the thread that starts and the steps at which control passes to the
other thread. When a thread ends the other goes on until it ends. Schedules with at most `bound` preemptions are enumerated
completely by explore().

A thread that stops making steps because it waits for a lock of the suspended one is detected by a timeout: then both are
released (the schedule is not feasible, the lock excludes it) and counted as blocked.
"""
import queue
import sys
import threading

from lib.mc import SRC

_POOL = []        # two long-lived threads: numexpr compiles its expressions once per thread


def _serve(q):
    while True:
        q.get()()


def pool():
    if not _POOL:
        for _ in range(2):
            q = queue.SimpleQueue()
            threading.Thread(target=_serve, args=(q,), daemon=True).start()
            _POOL.append(q)
    return _POOL

PATIENCE = 3.0
TOOL = 4
_ACTIVE = {}      # thread -> (run, its number)
_MODE = []


def _event(code, _where):
    if not code.co_filename.startswith(SRC):
        return sys.monitoring.DISABLE
    a = _ACTIVE.get(threading.get_ident())
    if a is not None:
        a[0].step(a[1])


def monitor(opcodes):
    m = sys.monitoring
    event = m.events.INSTRUCTION if opcodes else m.events.LINE
    if _MODE == [event]:
        return
    if not _MODE:
        m.use_tool_id(TOOL, 'sched')
    else:
        m.register_callback(TOOL, _MODE[0], None)
    m.register_callback(TOOL, event, _event)
    m.set_events(TOOL, event)
    m.restart_events()
    _MODE[:] = [event]



def asleep(tid):
    """(sleeping, cpu time) of a thread of this process, by the kernel"""
    try:
        with open(f'/proc/self/task/{tid}/stat') as f:
            w = f.read().rsplit(')', 1)[1].split()
        return w[0] in 'SD', (w[11], w[12])
    except OSError:
        return False, None


class Deadlock(Exception):
    pass


class Run:
    def __init__(self, funs, start, switches, opcodes=False, patience=PATIENCE):
        self.funs, self.switches = funs, switches      # switches: [(thread, step)], in order
        self.opcodes, self.patience = opcodes, patience
        self.go = [threading.Event(), threading.Event()]
        self.done = [False, False]
        self.result, self.error = [None, None], [None, None]
        self.steps = [0, 0]
        self.k = 0
        self.start = start
        self.free = False
        self.tick = threading.Event()
        self.lines = [[], []]
        self.record = False
        self.quick = patience < 1.
        self.tids = [None, None]
        self.turn = start

    def step(self, i):
        if self.free:
            return
        if self.k < len(self.switches) and self.switches[self.k] == (i, self.steps[i]) and not self.done[1 - i]:
            self.k += 1
            self.go[i].clear()
            self.turn = 1 - i
            self.go[1 - i].set()
            self.go[i].wait()
        self.steps[i] += 1

    def _thread(self, i):
        self.go[i].wait()
        me = threading.get_ident()
        self.tids[i] = threading.get_native_id()
        monitor(self.opcodes)
        _ACTIVE[me] = (self, i)
        try:
            self.result[i] = self.funs[i]()
        except BaseException as exc:   # noqa: B902
            self.error[i] = exc
        finally:
            _ACTIVE.pop(me, None)
            self.done[i] = True
            self.turn = 1 - i
            self.go[1 - i].set()
            self.tick.set()

    def run(self, new_threads=False):
        for i in (0, 1):
            if new_threads:
                threading.Thread(target=self._thread, args=(i,), daemon=True).start()
            else:
                pool()[i].put(lambda i=i: self._thread(i))
        self.go[self.start].set()
        blocked = False
        last = None
        waited = 0.
        quiet, cpu = 0, None
        while not all(self.done):
            self.tick.wait(0.05 if self.quick else 0.25)
            self.tick.clear()
            step = 0.05 if self.quick else 0.25
            now = (tuple(self.steps), tuple(self.done), self.turn)
            sleeps, used = asleep(self.tids[self.turn]) if self.tids[self.turn] else (False, None)
            # the thread whose turn it is sleeps and uses no processor: it waits for a lock of the other
            quiet = quiet + 1 if sleeps and used == cpu and now == last else 0
            cpu = used
            waited = 0. if now != last else waited + step
            last = now
            if (waited >= self.patience or quiet >= (4 if self.quick else 6)) and not blocked and not any(self.done):
                blocked = self.free = True
                for g in self.go:
                    g.set()
            if waited > 40:
                _POOL.clear()         # both threads are lost
                raise Deadlock(f'the two calls never end: started by thread {self.start}, switching at {self.switches}')
        return blocked


def explore(make, bound=1, opcodes=False, starts=(0, 1), visit=None, stride=1, limit=None, new_threads=False):
    """enumerate all schedules; make() -> (fun0, fun1); visit(run, blocked) is called after each.
    -> number of schedules, steps of each thread when alone"""
    n = 0
    totals = [0, 0]
    for i in (0, 1):
        r = Run(make(), i, [], opcodes)
        r.run(new_threads)
        totals = [max(a, b) for a, b in zip(totals, r.steps)]
        visit(r, False)
        n += 1
    nblocked = 0
    for s in starts:
        a, b = s, 1 - s
        for k in range(0, totals[a] + 1, stride):
            for m in ([None] if bound == 1 else [None] + list(range(0, totals[b] + 1, stride))):
                sw = [(a, k)] + ([] if m is None else [(b, m)])
                r = Run(make(), s, sw, opcodes, patience=PATIENCE if nblocked < 5 else 0.25)
                blk = r.run(new_threads)
                nblocked += blk
                visit(r, blk)
                n += 1
                if limit and n >= limit:
                    return n, totals
                if nblocked > 200:
                    return n, totals      # the library serialises the two calls
    return n, totals
