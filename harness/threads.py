"""Running threads on the real code under a given schedule.

A schedule is a sequence of (thread, n): let this thread run until it has
passed n points; afterwards all are run to their end, in order. Points are
  "calls":   the beginnings and ends of lookups of a single identifier, and
             between the operations of a thread (the steps of Threads.tla)
  "lines":   every line of the library (but the parser, which is generated,
             and its runtime)
  "opcodes": every bytecode instruction of these
  "parser":  every line of the library and the parser's runtime
"""

from __future__ import annotations

import queue
import sys
import threading
import time

from . import core

INF = 1 << 60


class Stuck(Exception):
    pass


class Gate:
    """Lets one thread run at a time (unless it waits for another one)."""

    def __init__(self, programmes, points):
        self.points = points
        self.n = len(programmes)
        self.budget = [0] * self.n
        self.passed = [0] * self.n
        self.seen = [[] for _ in range(self.n)]  # (file, line, instruction) of the points, if wanted
        self.record = False
        self.sems = [threading.Semaphore(0) for _ in range(self.n)]
        self.inbox = queue.SimpleQueue()
        self.state = ["parked"] * self.n
        self.results = [None] * self.n
        self.abandoned = False
        self.local = threading.local()
        self.root = str(core.REPO / "pyudunits2")
        self.threads = [threading.Thread(target=self._work, args=(t, p), daemon=True) for t, p in enumerate(programmes)]

    def _work(self, t, programme):
        self.sems[t].acquire()
        self.local.t = t
        if self.points != "calls":
            sys.settrace(self._trace)
        try:
            self.results[t] = programme(self.point)
        except BaseException as err:  # not expected: programmes record what is raised
            self.results[t] = err
        finally:
            sys.settrace(None)
            self.inbox.put((t, "done"))

    def _trace(self, frame, event, arg):
        file = frame.f_code.co_filename
        if not file.startswith(self.root) or "/_grammar/parser" in file or ("_runtime/" in file and self.points != "parser"):
            return None
        if self.points == "opcodes":
            frame.f_trace_lines = False
            frame.f_trace_opcodes = True
        return self._in_library

    def _in_library(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step(self.local.t, frame)
        return self._in_library

    def point(self):
        """To be called by the programmes."""
        t = getattr(self.local, "t", None)
        if t is not None and self.points == "calls":
            self.step(t, None)

    def step(self, t, frame):
        self.passed[t] += 1
        if self.record and frame is not None:
            self.seen[t].append((frame.f_code.co_filename, frame.f_lineno, frame.f_lasti))
        self.budget[t] -= 1
        if self.budget[t] == 0:
            self.inbox.put((t, "parked"))
            self.sems[t].acquire()

    def _receive(self, timeout):
        try:
            t, what = self.inbox.get(timeout=timeout)
        except queue.Empty:
            return None
        self.state[t] = what
        return t

    def grant(self, t, n):
        """Let t run. Returns if it is parked or done, or seems to be waiting."""
        if self.state[t] == "parked":
            self.budget[t] = n
            self.state[t] = "running"
            self.sems[t].release()
        where, same = None, 0
        while self.state[t] == "running":
            if self._receive(0.02) is None:
                frame = sys._current_frames().get(self.threads[t].ident)
                here = (id(frame), frame.f_lasti) if frame is not None else None
                same = same + 1 if here == where else 0
                where = here
                if same >= 4:
                    return

    def run(self, schedule):
        for th in self.threads:
            th.start()
        for t, n in schedule:
            if self.state[t] == "parked":
                self.grant(t, n)
        idle = 0
        while any(s != "done" for s in self.state):
            before = list(self.state), list(self.passed)
            for t in range(self.n):
                if self.state[t] != "done":
                    self.grant(t, INF)
            idle = idle + 1 if before == (list(self.state), list(self.passed)) else 0
            if idle > 60:
                raise Stuck("the threads wait for each other")
        return self.results


def programme(system, held, shared, ops):
    """The operations of one thread. Records events as sessions.play does;
    handles are ("s", i) of a lookup during the setup, or ("o", i) of this
    thread's own ith lookup."""
    from pyudunits2 import Converter

    from . import real, sessions

    def attempt(fn, *args):
        try:
            return fn(*args)
        except Exception as err:
            return core.Raised(err)

    def run(point):
        own, events = [], []

        def get(h):
            return (held if h[0] == "s" else own)[h[1]]

        for op in ops:
            point()
            if op[0] == "look":
                u = attempt(system.unit, op[1])
                own.append(u)
                events.append(dict(e="look", k=1, t=core.codes(op[1]), **sessions.answer(u, attempt)))
            elif op[0] == "ask":
                events.append(dict(e="ask", h=op[1], **sessions.answer(get(op[1]), attempt)))
            elif op[0] in ("conv", "eq", "can"):
                u, v = get(op[1]), get(op[2])
                if isinstance(u, core.Raised) or isinstance(v, core.Raised):
                    continue
                if op[0] != "conv":
                    r = attempt(lambda: u == v if op[0] == "eq" else u.is_convertible_to(v))
                    events.append(dict(e=op[0], h=op[1], g=op[2], r=real.flag(r)))
                    continue
                c = attempt(Converter, u, v)
                ev = dict(e="conv", h=op[1], g=op[2], r=c.name if isinstance(c, core.Raised) else "ok", _out=[])
                if not isinstance(c, core.Raised):
                    sessions.convert(c, ev, attempt)
                events.append(ev)
            elif op[0] == "value":
                # a converter which several threads use
                (i, j), c = shared[op[1]]
                if isinstance(c, core.Raised):
                    continue
                ev = dict(e="conv", h=("s", i), g=("s", j), r="ok", _out=[])
                sessions.convert(c, ev, attempt)
                events.append(ev)
        return events

    return run


def watched(points, gate_of):
    """A unit system, of which lookups of single identifiers are points."""
    from pyudunits2 import UnitSystem

    if points != "calls":
        return UnitSystem()

    class Watched(UnitSystem):
        def unit_by_name_or_symbol(self, *args, **kwargs):
            gate = gate_of()
            if gate is not None:
                gate.point()
            try:
                return super().unit_by_name_or_symbol(*args, **kwargs)
            finally:
                if gate is not None:
                    gate.point()

    return Watched()


def execute(job, record=False):
    """job: dict(regs, setup: texts, ops: one list per thread, after: texts,
    schedule, points). Returns the trace (and the gate)."""
    from pyudunits2 import Converter

    from . import real, sessions

    gates = []
    system = watched(job["points"], lambda: gates[-1] if gates else None)
    events = []
    for r in job["regs"]:
        out = core.guarded(real.register, system, r)
        events.append(dict(e="reg", k=1, r=core.encode(r), res=out.name if isinstance(out, core.Raised) else "ok"))
    held = []
    for t in job["setup"]:
        u = core.guarded(system.unit, t)
        held.append(u)
        # (nothing is asked of it here, so that this happens in the threads)
    # (of other units of the same texts, so that those above are unused)
    shared = [((i, j), core.guarded(Converter, *(core.guarded(system.unit, job["setup"][k]) for k in (i, j))))
              for i, j in job.get("shared", ())]
    n = len(held)
    gate = Gate([programme(system, held, shared, ops) for ops in job["ops"]], job["points"])
    gate.record = record
    gates.append(gate)
    try:
        with core.limit(60):
            results = gate.run(job["schedule"])
    except (Stuck, core.Hang) as err:
        return dict(stuck=f"{type(err).__name__}: {err}"), gate
    finally:
        gates.clear()
    looks = [dict(e="look", k=1, t=core.codes(t), **sessions.answer(u)) for t, u in zip(job["setup"], held)]
    events += looks
    for r in results:
        if isinstance(r, BaseException):
            return dict(stuck=f"harness: {type(r).__name__}: {r}"), gate
        start = n
        for ev in r:
            ev = dict(ev)
            if ev["e"] == "look":
                n += 1
            for k in ("h", "g"):
                if k in ev:
                    where, i = ev[k]
                    ev[k] = (i if where == "s" else start + i) + 1
            events.append(ev)
    for t in job["after"]:
        events.append(dict(e="look", k=1, t=core.codes(t), **sessions.answer(core.guarded(system.unit, t))))
    return dict(ev=events), gate
