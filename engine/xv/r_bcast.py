"""Rules about broadcasts: every live mailbox, exactly once; registration of mailboxes; the broadcast count."""
from .core import *
from .natives import seqlen
from .r_chan import ChanMon


class BqMon(ChanMon):
    def bq_cells(self, I, st):
        """cells of the shaped broadcast queues: [(cell of the Arc, cell of the queue or None, dead?)]"""
        out = []
        dead = st.ghost.get("dead", frozenset())
        for v in st.ghost.get("shapev_bqs", ()):
            arc = None
            for w in self.values(I, st, v):
                if w[0] in ("weak", "arc"):
                    arc = w[1]
                    break
            q = None
            if arc is not None and arc in st.heap:
                for p, w in walk(I, st, st.heap[arc]):
                    if w[0] == "mutex":
                        q = w[1]
            out.append((arc, q, arc in dead))
        return out

    def values(self, I, st, v):
        for p, w in walk(I, st, v):
            yield w


class Broadcast(BqMon):
    """C15 / C14: everything put into one broadcast queue is put into every live one, once"""
    kinds = ("lock", "unlock", "push", "catty_send", "catty_tx_drop", "user")
    SENDS = ("h_bcast_first", "h_bcast_prio", "h_bcast_poll_drop")

    def __init__(self, A, what="bcast", wrx=True):
        super().__init__(A)
        self.what = what
        if what == "bcast":
            self.prop, self.rule = "C15", "every-live-mailbox-once"
            self.text = ("in a critical section that broadcasts, every queue in the list is either dead or receives the message exactly "
                         "once and stays in the list; every waiting receive is told; a broadcast succeeds only after such a section or "
                         "after its message was left with a waiting sender")
            self.entries = self.SENDS + ("h_recv_again",)
        else:
            self.prop, self.rule = "C14", "stop-all"
            self.text = ("stopping all puts a shutdown into every live queue exactly once and tells every waiting receive, whenever a "
                         "strong address exists")
            self.entries = ("h_stop_all",)

    def prepare(self, I):
        I.shape = {"bqs": 2, "wrx": 2} if self.entry in self.SENDS + ("h_stop_all",) else {"bqs": 2}

    def on(self, I, st, e):
        k = e[0]
        if k == "lock":
            if e[2] == "std":
                self.untag(st, "push")
                self.untag(st, "told")
        elif k == "push":
            r = self.R.seqrole(e[-2])
            if r == "bq":
                ms = self.msgcells(I, st, e[4])
                m = ms[0] if ms else -1
                if self.tagged(st, "push", ("C", e[1]), ("C", m)):
                    self.report(I, st, "twice:" + self.entry, "a broadcast is put into the queue of a mailbox twice", e[-1])
                self.tag(st, "push", ("C", e[1]), ("C", m))
            elif r == "wtxa":
                self.tag(st, "waits")
        elif k in ("catty_send", "catty_tx_drop"):
            self.tag(st, "told", ("C", e[1]))
        elif k == "unlock":
            if e[2] != "std":
                return
            P = self.tagged(st, "push")
            if not P:
                return
            self.tag(st, "done")
            if "shapev_bqs" not in st.ghost:
                self.report(I, st, "few:" + self.entry, "a broadcast is queued without going through the list of mailboxes", e[-1])
                return
            msgs = {t[2] for t in P}
            cells = self.bq_cells(I, st)
            left = self.seqs(I, st, e[1]).get("bqs")
            leftcells = {s[1] for s in left[2] if s[0] == "e"} if left is not None and left[0] == "seq" else None
            inlist = set()
            if leftcells is not None:
                for c in leftcells:
                    for w in self.values(I, st, st.heap.get(c, ("moved",))):
                        if w[0] in ("weak", "arc"):
                            inlist.add(w[1])
            for m in msgs:
                for arc, q, dead in cells:
                    self.hit("queue-" + ("dead" if dead else "live"))
                    if dead:
                        continue
                    if q is None or ("push", ("C", q), m) not in st.evset:
                        self.report(I, st, "skipped:" + self.entry, "a broadcast is not put into the queue of every mailbox that is alive", e[-1])
                    elif leftcells is not None and arc not in inlist and not any(s[0] != "e" for s in left[2]):
                        self.report(I, st, "forgotten:" + self.entry, "a mailbox that is alive is removed from the list of mailboxes", e[-1])
            if "wrx" in I.shape:
                told = {t[1][1] for t in self.tagged(st, "told")}
                tx = [w[1] for v in st.ghost.get("shapev_wrx", ()) for w in deepwalk_lim(I, st, v) if w[0] == "ctx"]
                st.ghost["owe"] = tuple(c for c in tx if c not in told)
                st.ghost["keep"] = tuple(("ref", c, (), None) for c in st.ghost["owe"])
                w = self.seqs(I, st, e[1]).get("wrx")
                self.hit("waiting")
                if "shapev_wrx" not in st.ghost or w is None or w[0] != "seq" or not entails_le(st, seqlen(w), ("int", 0)):
                    self.report(I, st, "untold:" + self.entry, "a broadcast is queued but receives that wait are not told", e[-1])
        elif k == "user":
            if e[1] == "result":
                o = self.outcome(I, st, self.result(I, st, e))
                if o[:2] == ("Ready", "Ok"):
                    cells = self.bq_cells(I, st)
                    self.hit("ok")
                    if not self.tagged(st, "done") and not self.tagged(st, "waits") and not (len(cells) == 2 and all(d for _, _, d in cells)):
                        self.report(I, st, "not-sent:" + self.entry, "a broadcast succeeds although it was not put into the queues", e[-1])

    def end(self, I, st):
        if st.done[0] != "return":
            return
        told = {t[1][1] for t in self.tagged(st, "told")}
        if any(c not in told for c in st.ghost.get("owe", ())):
            self.report(I, st, "untold-rx:" + self.entry, "a receive that waits when a broadcast is queued is not told about it")
        if self.what != "bcast":
            cells = self.bq_cells(I, st)
            alive = [c for c in cells if not c[2]]
            if self.tagged(st, "done") or (cells and not alive):
                self.hit("stopped")
                return
            # nothing was sent: only when no strong address exists
            sc = st.ghost.get("g_zero")
            if sc is None or bounds(st, sc)[1] > 0:
                self.report(I, st, "not-sent:" + self.entry, "stopping all does nothing although a strong address may exist")
            else:
                self.hit("no-strong-address")


class StopAll(Broadcast):
    kinds = Broadcast.kinds + ("atomic",)

    def __init__(self, A):
        super().__init__(A, "stop")

    def on(self, I, st, e):
        if e[0] == "atomic":
            if e[1] in ("load", "cas_fail") and self.A.which_counter(I, st, e[2]) == 0:
                st.ghost["g_zero"] = e[5]
                st.ghost["keep"] = (e[5],)
            return
        super().on(I, st, e)


class Register(BqMon):
    prop, rule = "C15", "new-mailbox-registered"
    text = ("creating or cloning a mailbox puts the new mailbox's own broadcast queue, empty, into the channel's list, inside the lock, "
            "and into no other place; a receive uses the queue of the mailbox it was started on")
    kinds = ("push", "clear", "seq_take")
    entries = ("h_mailbox_clone", "h_new_unbounded", "h_new_bounded", "h_mailbox_next")

    def queue_of(self, I, st, v):
        """cells of the Arcs of broadcast queues directly owned by a handle"""
        out = []
        for p, w in walk(I, st, v):
            if w[0] == "arc" and isinstance(w[1], int) and w[1] in st.heap:
                c = I.norm(st, st.heap[w[1]])
                if c[0] == "u" and self.F.nkey(c[1]) in ("spin:Mutex", "std:Mutex"):
                    c = I.expand(st, c)
                if c[0] == "mutex":
                    q = I.norm(st, st.heap[c[1]])
                    t = q[1] if q[0] in ("seq", "u") else -1
                    if self.R.seqrole(t) == "bq":
                        out.append(w[1])
            elif w[0] == "u" and self.F.nkey(w[1]) == "std:Arc":
                out.extend(self.queue_of(I, st, I.expand(st, w)))
        return out

    def on(self, I, st, e):
        if e[0] == "push" and self.R.seqrole(e[-2]) == "bqs":
            for w in self.values(I, st, e[4]):
                if w[0] in ("weak", "arc"):
                    if any(h[1] == "std" for h in st.held):
                        self.tag(st, "reg", ("C", w[1]))
                    st.ghost["keep"] = st.ghost.get("keep", ()) + (w,)

    def end(self, I, st):
        if st.done[0] != "return":
            return
        if self.entry == "h_mailbox_next":
            return self.own_queue(I, st)
        r = st.heap.get(st.ghost["ret"])
        qs = self.queue_of(I, st, r)
        self.hit("created")
        if len(qs) != 1:
            self.report(I, st, "queues:" + self.entry, "a new mailbox does not have exactly one broadcast queue")
            return
        if ("reg", ("C", qs[0])) not in st.evset:
            self.report(I, st, "unregistered:" + self.entry, "the broadcast queue of a new mailbox is not put into the channel's list")
        if self.entry == "h_mailbox_clone":
            old = [q for a in st.ghost["args"] for w in deepwalk_lim(I, st, a) if w[0] == "adt" for q in self.queue_of(I, st, w)]
            if qs[0] in old:
                self.report(I, st, "shared:" + self.entry, "a cloned mailbox shares the broadcast queue of the original")


    def own_queue(self, I, st):
        a = I.force(st, st.ghost["args"][0])
        c, p, m = I.deref(st, a)
        own = self.queue_of(I, st, I.read(st, c, p))
        used = self.queue_of(I, st, st.heap.get(st.ghost["ret"]))
        if own:
            self.hit("own-queue")
            if used and set(used) - set(own):
                self.report(I, st, "other-queue:" + self.entry, "a receive looks at another broadcast queue than that of its mailbox")


class _IntProbe(ChanMon):
    """which plain integers of the lock content grow by one when something is queued"""
    kinds = ("lock", "unlock", "push")

    def __init__(self, A):
        super().__init__(A)
        self.res = {"uq": None, "bq": None}
        self.grow = {"uq": set(), "bq": set()}

    def prepare(self, I):
        I.shape = {"bqs": 1}

    def on(self, I, st, e):
        if e[0] == "push":
            r = self.R.seqrole(e[-2])
            if r in self.res:
                self.tag(st, r)
        elif e[2] != "std":
            return
        elif e[0] == "lock":
            self.untag(st, "uq")
            self.untag(st, "bq")
            st.ghost["iv"] = {p: I.num(st, v) for p, v in self.ints(I, st, e[1]).items()}
            st.ghost["keep"] = tuple(v for v in st.ghost["iv"].values() if v is not None)
        else:
            old, new = st.ghost.get("iv", {}), self.ints(I, st, e[1])
            for r in ("uq", "bq"):
                if (r,) in st.evset:
                    g, s = set(), set()
                    for p, v in new.items():
                        v = I.num(st, v)
                        o = old.get(p)
                        if v is None or o is None or v[0] not in ("int", "lin") or o[0] not in ("int", "lin"):
                            continue
                        d = diff_bounds(st, v, o)
                        if d == (1, 1):
                            g.add(p)
                        if d != (0, 0):
                            self.grow[r].add(p)
                    self.res[r] = g if self.res[r] is None else self.res[r] & g


def tail_field(A):
    """field of the lock content that counts queued broadcasts (None when there is no such field)"""
    if not hasattr(A, "_tail"):
        save, A.log = A.log, []
        m = _IntProbe(A)
        for e in ("h_bcast_first", "h_send_first"):
            m.explore(e)
        A.log = save
        c = (m.res["bq"] or set()) - m.grow["uq"]
        A._tail = next(iter(c)) if len(c) == 1 else None
    return A._tail


class Tail(BqMon):
    prop, rule = "C04", "broadcast-count"
    text = ("the number the capacity of broadcasts is compared with is, whenever the lock is released, at least the length of every "
            "live queue of broadcasts that was looked at, and grows by one with every broadcast")
    kinds = ("lock", "unlock", "push", "pop")
    entries = ("h_bcast_first", "h_stop_all", "h_recv_first")

    def __init__(self, A):
        super().__init__(A)
        self.tail = tail_field(A)

    def prepare(self, I):
        I.shape = {"bqs": 2} if self.entry != "h_recv_first" else self.recv

    def run_entry(self, entry):
        if self.tail is None:
            return None
        self.recv = {"bqs": 1}
        if entry == "h_recv_first":
            self.explore(entry)
            self.recv = {"bqs": 2, "wtx1": 0, "wtxa": 0, "wrx": 0}
        return self.explore(entry)

    def value(self, I, st, cc):
        v = self.ints(I, st, cc).get(self.tail)
        return I.num(st, v) if v is not None else None

    def on(self, I, st, e):
        k = e[0]
        if k in ("push", "pop"):
            r = self.R.seqrole(e[-2])
            if r == "bq":
                self.tag(st, k)
            return
        if k == "unlock" and e[2] != "std":
            return
        if k == "lock":
            if e[2] == "std":
                self.untag(st, "push")
                self.untag(st, "pop")
                v = self.value(I, st, e[1])
                st.ghost["t0"] = v
                st.ghost["keep"] = (v,) if v is not None else ()
            return
        pu, po = self.tagged(st, "push"), self.tagged(st, "pop")
        if not pu and not po:
            return
        v = self.value(I, st, e[1])
        t0 = st.ghost.get("t0")
        if v is None or v[0] not in ("int", "lin") or t0 is None:
            return
        if pu and not po:
            self.hit("grows")
            if not entails_le(st, t0, v, -1):
                self.report(I, st, "not-counted:" + self.entry, "a broadcast is queued but not counted", e[-1])
        elif po:
            if not self.bq_cells(I, st) and entails_le(st, t0, v):
                self.hit("untouched")
                return
            # after a pop the count must cover the queues that were looked at, and not exceed the longest of them
            top, live = False, 0
            for arc, q, dead in self.bq_cells(I, st):
                if dead:
                    continue
                s = I.norm(st, st.heap[q]) if q in st.heap else ("?",)
                if s[0] != "seq":
                    if not entails_le(st, t0, v):
                        self.report(I, st, "lowered:" + self.entry, "the count of broadcasts is lowered without looking at a live queue", e[-1])
                    continue
                self.hit("covers")
                live += 1
                if not entails_le(st, seqlen(s), v):
                    self.report(I, st, "short:" + self.entry, "a queue may hold more broadcasts than are counted", e[-1])
                top = top or entails_le(st, v, seqlen(s))
            if live and not top and not entails_le(st, v, ("int", 0)):
                self.report(I, st, "stale:" + self.entry, "more broadcasts are counted than any live queue holds", e[-1])
