"""Seeded scheduler: threads hand a baton to one another at executed lines of the code under test."""
import os
import random
import sys
import threading
import zlib

from . import env


class Baton:
    TOOL = 5

    def __init__(self, seed, p):
        self.rng = random.Random(seed)
        self.p = p
        self.switches = 0
        self.trace = 0
        self.free = False

    def run(self, jobs):
        """run each job in a thread, one at a time, switching at seeded lines; -> results in order"""
        n = len(jobs)
        sem = [threading.Semaphore(0) for _ in jobs]
        res = [None] * n
        alive = set(range(n))
        ident = {}
        mon = sys.monitoring
        roots = (env.SRC + os.sep, env.SCRIPTS + os.sep)

        def give(me):
            others = [i for i in alive if i != me]
            if not others:
                return
            to = self.rng.choice(others)
            self.switches += 1
            self.trace = zlib.crc32(b'%d,' % to, self.trace)
            sem[to].release()
            if me in alive and not sem[me].acquire(timeout=5):
                self.free = True        # the holder is blocked elsewhere: let everything run freely

        def cb(code, line):
            if not code.co_filename.startswith(roots):
                return mon.DISABLE
            me = ident.get(threading.get_ident())
            if me is None or self.free:
                return
            self.trace = zlib.crc32(b'%d:%d;' % (me, line), self.trace)
            if self.rng.random() < self.p:
                give(me)

        def body(i):
            sem[i].acquire()
            ident[threading.get_ident()] = i
            try:
                res[i] = ('ok', jobs[i]())
            except BaseException as e:
                res[i] = ('err', '%s: %s' % (type(e).__name__, e))
            alive.discard(i)
            ident.pop(threading.get_ident(), None)
            if alive:
                to = self.rng.choice(sorted(alive))
                sem[to].release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        mon.use_tool_id(self.TOOL, 'verif-baton')
        mon.register_callback(self.TOOL, mon.events.LINE, cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        try:
            for t in ts:
                t.start()
            sem[self.rng.randrange(n)].release()
            for t in ts:
                t.join(60)
                if t.is_alive():
                    self.free = True
                    for s in sem:
                        s.release()
                    t.join(30)
        finally:
            mon.set_events(self.TOOL, 0)
            mon.register_callback(self.TOOL, mon.events.LINE, None)
            mon.free_tool_id(self.TOOL)
        return res
