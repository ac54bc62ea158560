"""C28 operations that are used as documented do not panic."""
from .core import *
from .r_loop import Loop

LOOPS = ("h_run", "h_run_default", "h_yield_once", "h_select", "h_join", "h_dispatch", "h_dispatch_drop")
HEAVY = ("h_recv_fused_again", "h_recv_fused")     # (h_recv_first and h_recv_again do the same)
UNREACHED = ("h_bcast_again", "h_send_detached_again")
# (these start from arbitrary states of a future, some of which no run reaches: a broadcast not yet tried whose message is shared
#  with someone, a send not yet tried whose receiver was already handed out)


class NoPanic(Loop):
    def __init__(self, A):
        super().__init__(A, "run")
        self.prop, self.rule = "C28", "no-panic"
        self.text = ("no path of an operation ends in a panic, except that of polling, before anything else happens, a future that has already "
                     "yielded its value (a poisoned lock, overflow, user code and a missing runtime apart)")
        self.entries = tuple(sorted(e for e in self.F.entries if e.startswith("h_") and not e.startswith("h_spawn") and e not in HEAVY + UNREACHED))

    def weight(self, e):
        return 9 if e.startswith("h_recv") else 5 if e in LOOPS else 1

    def prepare(self, I):
        if self.entry in LOOPS:
            super().prepare(I)

    def run_entry(self, entry):
        # what a future does before it panics matters only where the future is one that may have been polled to its end before
        self.kinds = ("lock", "push", "pop", "catty_recv", "catty_send", "atomic") if "_again" in entry or "_poll" in entry else ()
        return self.explore(entry)

    def on(self, I, st, e):
        self.tag(st, "began")

    def end(self, I, st):
        self.hit(st.done[0])
        if st.done[0] != "panic":
            return
        if ("_again" in self.entry or "_poll" in self.entry) and not self.tagged(st, "began"):
            self.hit("polled-again")
            return
        self.report(I, st, "panic:" + self.entry, "the operation may panic (%s)" % str(st.done[1])[:100])
