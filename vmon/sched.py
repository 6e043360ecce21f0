"""
Controlled scheduling: registered threads run one at a time and control moves
at the line events of the code under test (sys.monitoring), so library code
is interleaved at every line while calls into GDAL never overlap.
"""
import os
import random
import sys
import threading
import time

TOOL = 4


class Sched:
    def __init__(self, root, seed, p):
        self.root = root
        self.R = random.Random(seed)
        self.p = p
        self.lock = threading.Lock()
        self.events = {}
        self.alive = []
        self.owner = None
        self.local = threading.local()
        self.lines = 0
        self.switches = 0
        self.steals = 0
        self.trace = []

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'vmon')
        m.register_callback(TOOL, m.events.LINE, self._line)
        m.set_events(TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)

    def _line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        name = getattr(self.local, 'name', None)
        if name is None:
            return
        self.lines += 1
        if self.owner != name:
            self._wait(name)
        if self.steals < 3 and self.R.random() < self.p:
            self.switches += 1
            if len(self.trace) < 400:
                self.trace.append((name, os.path.basename(code.co_filename), line))
            self._pass_on(name)
            self._wait(name)

    def _pass_on(self, name):
        with self.lock:
            others = [n for n in self.alive if n != name]
            if not others:
                self.owner = name
                self.events[name].set()
                return
            self.owner = self.R.choice(others)
            self.events[self.owner].set()

    def _wait(self, name):
        ev = self.events[name]
        while True:
            before = self.lines
            if ev.wait(3):
                ev.clear()
                if self.owner == name:
                    return
                continue
            # The owner waits for something we hold (or is very slow)
            if self.owner == name:
                return
            if self.lines == before:
                with self.lock:
                    self.steals += 1
                    self.owner = name
                return

    def run(self, funcs):
        """each function in its own thread"""
        threads = []
        for j, func in enumerate(funcs):
            self.events[j] = threading.Event()
            self.alive.append(j)

            def body(j=j, func=func):
                self._wait(j)
                self.local.name = j
                try:
                    func()
                finally:
                    self.local.name = None
                    with self.lock:
                        self.alive.remove(j)
                        if self.owner == j and self.alive:
                            self.owner = self.R.choice(self.alive)
                            self.events[self.owner].set()
            threads.append(threading.Thread(target=body, daemon=True))
        self.owner = self.R.randrange(len(funcs))
        for t in threads:
            t.start()
        self.events[self.owner].set()
        end = time.time() + 50
        for t in threads:
            t.join(max(end - time.time(), .1))
        return all(not t.is_alive() for t in threads)
