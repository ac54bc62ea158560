"""C10 the last mailbox, C11 what a send reports."""
from .core import *
from .natives import seqlen
from .r_chan import ChanMon, SENDS, AGAIN
from .r_bcast import BqMon


class StateMon(ChanMon):
    """helpers for the state shared between a waiting sender and the channel"""

    def wstate(self, tid):
        return self.R.has(tid, "std:Waker") and any(t in self.A.msgdyns for t in self.R.deep(tid))

    def variant(self, I, st, cell):
        v = I.norm(st, st.heap.get(cell, ("moved",)))
        if v[0] == "u":
            return None
        for p, w in walk(I, st, v):
            if w[0] == "adt" and self.T[w[1]]["ak"] == "enum":
                return w[2]
        return None

    def maywait(self, I, st, v, depth=0):
        """may a send (future) still be waiting for room?"""
        v = I.norm(st, v)
        if v[0] == "u":
            t = self.T[v[1]]
            if not any(self.wstate(x) for x in self.R.deep(v[1])):
                return False
            return True
        if v[0] == "adt" and depth < 10:
            return any(self.maywait(I, st, x, depth + 1) for x in v[3])
        if v[0] == "tup":
            return any(self.maywait(I, st, x, depth + 1) for x in v[1])
        if v[0] == "box" and v[1] in st.heap:
            return self.maywait(I, st, st.heap[v[1]], depth + 1)
        if v[0] == "arc" and v[1] in st.heap:
            w = I.norm(st, st.heap[v[1]])
            if w[0] == "mutex":
                w = I.norm(st, st.heap.get(w[1], ("moved",)))
            return w[0] in ("u", "adt") and self.wstate(w[1])
        return False


class _States(StateMon):
    """probe: in which state a waiting sender is left when its message is taken / when it is closed"""
    kinds = ("lock", "unlock", "pop", "push")

    def __init__(self, A):
        super().__init__(A)
        self.found = set()

    def prepare(self, I):
        I.shape = {"wtx1": 1, "wtxa": 1, "uq": 1, "bqs": 1}

    def on(self, I, st, e):
        if e[0] == "lock":
            if e[2] == "spin" and self.wstate(e[3]):
                st.ghost["s%d" % e[1]] = st.heap[e[1]]
                st.ghost["keep"] = (st.heap[e[1]],)
        elif e[0] == "unlock":
            v0 = st.ghost.pop("s%d" % e[1], None)
            st.ghost["keep"] = ()
            if v0 is None:
                return
            v0 = I.norm(st, v0)
            n = self.variant(I, st, e[1])
            if v0[0] == "adt" and n is not None and v0[2] != n:
                self.found.add(n)


def states(A):
    """(variants that mean delivered, variants that mean closed)"""
    r = getattr(A, "_wstates", None)
    if r is None:
        save, A.log = A.log, []
        out = []
        for es in (("h_recv_first",), ("h_mailbox_drop",)):
            m = _States(A)
            for e in es:
                m.explore(e)
            out.append(frozenset(m.found))
        A.log = save
        r = A._wstates = tuple(out)
    return r


# ------------------------------------------------------------------ C10
class LastMailbox(StateMon):
    prop, rule = "C10", "last-mailbox-drop"
    text = ("the drop that takes the number of mailboxes from one to zero then, inside the lock, empties the queue and both lists of "
            "waiting senders, closes every waiting sender and wakes everything that waits for the actor to stop; no other drop "
            "changes any of that")
    kinds = ("atomic", "lock", "unlock", "notify", "seq_take", "clear", "pop", "push")
    entries = ("h_mailbox_drop", "h_message_drop", "h_recv_new_drop", "h_recv_drop")
    ROLES = ("uq", "wtx1", "wtxa")

    def prepare(self, I):
        n = 2 if self.entry == "h_mailbox_drop" or self.tier == "thorough" else 1
        I.shape = {"wtx1": n, "wtxa": n}

    def keep(self, st, n, v):
        st.ghost[n] = v
        st.ghost["keep"] = tuple(st.ghost[x] for x in ("g_old", "g_ld") if st.ghost.get(x) is not None)

    def on(self, I, st, e):
        k = e[0]
        if k == "atomic":
            if self.A.which_counter(I, st, e[2]) != 1:
                return
            if e[1] in ("fetch_sub", "cas", "swap") and "g_old" in st.ghost:
                self.tag(st, "twice")
            if e[1] in ("fetch_sub", "cas"):
                self.keep(st, "g_old", e[5])
                self.tag(st, "dec")
                if any(h[1] == "std" for h in st.held):
                    self.tag(st, "locked")
            elif e[1] == "load" and self.tagged(st, "dec"):
                self.keep(st, "g_ld", e[5])
        elif k == "lock":
            if e[2] == "std" and self.tagged(st, "dec"):
                self.tag(st, "locked")
        elif k == "notify":
            if not self.tagged(st, "dec"):
                self.tag(st, "notified-before")
            elif bounds(st, I.num(st, e[2]))[0] < (1 << 31):
                self.tag(st, "notified-some")
            else:
                self.tag(st, "notified")
        elif k in ("seq_take", "clear", "pop"):
            if not self.tagged(st, "dec"):
                return
            t = None
            if k == "pop":
                t = e[-2]
            elif e[3][0] in ("seq", "u"):
                t = e[3][1]
            r = self.R.seqrole(t) if t is not None else None
            if r in self.ROLES:
                self.tag(st, "touched", r)
        elif k == "unlock":
            if e[2] == "spin":
                if e[1] in st.heap and self.wstate(e[3]):
                    v = I.norm(st, st.heap[e[1]])
                    if v[0] != "u":
                        self.untag(st, "state", ("C", e[1]))
                        self.tag(st, "state", ("C", e[1]), bool(self.msgcells(I, st, v)))
                return
            if not self.tagged(st, "dec") or self.case(st) != "last":
                return
            S = self.seqs(I, st, e[1])
            for r in self.ROLES:
                q = S.get(r)
                if q is None:
                    continue
                self.untag(st, "full", r)
                if q[0] != "seq" or not entails_le(st, seqlen(q), ("int", 0)):
                    self.tag(st, "full", r)
                else:
                    self.tag(st, "emptied", r)

    def case(self, st):
        old = st.ghost.get("g_old")
        ld = st.ghost.get("g_ld")
        if old is None:
            return None
        lo, hi = bounds(st, old)
        if lo == hi == 1:
            return "last"
        if lo > 1 or hi < 1:
            return "not-last"
        if ld is not None:
            lo, hi = bounds(st, ld)
            if hi <= 0:
                return "last"
            if lo >= 1:
                return "not-last"
        return "unknown"

    NAMES = {"uq": "the queued messages are", "wtx1": "the senders waiting to send to one actor are", "wtxa": "the waiting broadcasts are"}

    def end(self, I, st):
        if st.done[0] != "return" or self.tagged(st, "twice"):
            return
        c = self.case(st)
        if c is None:
            return
        t = {x[0] for x in st.evset}
        self.hit(c)
        if c == "not-last":
            if t & {"notified", "notified-some"}:
                self.report(I, st, "early-notify:" + self.entry, "a join is completed although mailboxes remain")
            if "touched" in t:
                self.report(I, st, "early:" + self.entry, "queued or waiting messages are discarded although mailboxes remain")
            return
        if c == "unknown":
            if t & {"notified", "touched"}:
                self.report(I, st, "early:" + self.entry, "the channel is shut down whether or not mailboxes remain")
            else:
                self.report(I, st, "never:" + self.entry, "nothing happens when the last mailbox goes away")
            return
        if "notified" not in t:
            self.report(I, st, "join:" + self.entry, "the last mailbox goes away, but not everything that waits for the actor to stop is woken after the decrement")
        if "locked" not in t:
            self.report(I, st, "no-lock:" + self.entry, "the last mailbox goes away without looking at the queues after the decrement")
            return
        for r in self.ROLES:
            if not self.tagged(st, "emptied", r) or self.tagged(st, "full", r):
                self.report(I, st, "kept-%s:%s" % (r, self.entry), "the last mailbox goes away, but %s kept" % self.NAMES[r])
        for r in ("wtx1", "wtxa"):
            for v in st.ghost.get("shapev_" + r, ()):
                for p, w in walk(I, st, v):
                    if w[0] != "weak" or w[1] in st.ghost.get("dead", ()):
                        continue
                    cs = [x[1] for _, x in walk(I, st, st.heap[w[1]]) if x[0] == "mutex"] if w[1] in st.heap else []
                    s = [x for c2 in cs for x in self.tagged(st, "state", ("C", c2))]
                    self.hit("closes-" + r)
                    if not s or s[0][2]:
                        self.report(I, st, "open-%s:%s" % (r, self.entry), "the last mailbox goes away, but a sender that waits is left waiting forever")


class NoneAfterLast(ChanMon):
    prop, rule = "C10", "nothing-queued-without-mailbox"
    text = ("a send queues its message, or starts to wait, only in a critical section in which it has seen that a mailbox exists")
    kinds = ("lock", "push", "atomic")
    entries = SENDS + ("h_send_detached_first", "h_send_prio", "h_bcast_prio", "h_chsend_prio")

    def __init__(self, A):
        super().__init__(A)
        self.entries = tuple(dict.fromkeys(self.entries))

    def on(self, I, st, e):
        k = e[0]
        if k == "lock":
            if e[2] == "std":
                st.ghost.pop("g_rl", None)
                st.ghost["keep"] = ()
        elif k == "atomic":
            if e[1] == "load" and self.A.which_counter(I, st, e[2]) == 1 and any(h[1] == "std" for h in st.held):
                st.ghost["g_rl"] = e[5]
                st.ghost["keep"] = (e[5],)
        else:
            r = self.R.seqrole(e[-2])
            if r not in ("uq", "bq", "wtx1", "wtxa"):
                return
            self.hit("into-" + r)
            ld = st.ghost.get("g_rl")
            if ld is None or bounds(st, ld)[0] < 1:
                self.report(I, st, "blind-%s:%s" % (r, self.entry), "a message is queued or left waiting although the last mailbox may "
                            "be gone (nothing would ever handle, discard or fail it)", e[-1])


# ------------------------------------------------------------------ C11
class Outcome(StateMon, BqMon):
    prop, rule = "C11", "outcome"
    text = ("a send yields the value received from the reply channel of that very message; Interrupted only after that channel was "
            "closed; Disconnected only when a counter was read as zero or the waiting send was closed, and never when the message was "
            "accepted; a detached send or a broadcast succeeds only when its message was accepted")
    kinds = ("push", "catty_send", "catty_recv", "catty_closed", "unlock", "atomic", "user")
    FRESH = ("h_send_first", "h_send_detached_first", "h_chsend_first", "h_bcast_first", "h_send_prio", "h_bcast_prio", "h_chsend_prio",
             "h_sink_first", "h_sink_first_weak")
    # (a sink waits for the reply as the send does, but does not yield it)
    SINK = ("h_sink_first", "h_sink_first_weak", "h_sink_again", "h_sink_two", "h_sink_ch")
    entries = FRESH + AGAIN + ("h_sink_again", "h_sink_two", "h_sink_ch")
    NOREPLY = ("h_bcast_first", "h_bcast_again", "h_bcast_prio")
    DETACHED = ("h_send_detached_first", "h_send_detached_again")

    def __init__(self, A):
        super().__init__(A)
        self.deliv, self.closed = states(A)

    def prepare(self, I):
        if self.entry in self.NOREPLY:
            I.shape = {"bqs": 1}

    def rekeep(self, st):
        st.ghost["keep"] = tuple(st.ghost.get("zl", ())) + tuple(x for x in (st.ghost.get("g_it"),) if x is not None)

    def on(self, I, st, e):
        k = e[0]
        if k == "push":
            r = self.R.seqrole(e[-2])
            if r in ("uq", "bq"):
                self.tag(st, "accepted")
                self.txs(I, st, e[4])
            elif r in ("wtx1", "wtxa"):
                self.tag(st, "waiting")
                self.txs(I, st, e[4])
        elif k == "catty_send":
            if e[3] and self.msgcells(I, st, e[2]):
                self.tag(st, "accepted")
                self.txs(I, st, e[2])
        elif k == "catty_recv":
            st.ghost["g_it"] = e[2]
            self.tag(st, "reply", ("C", e[1]))
            self.rekeep(st)
        elif k == "catty_closed":
            self.tag(st, "noreply", ("C", e[1]))
        elif k == "unlock":
            if e[2] == "spin" and self.wstate(e[3]):
                n = self.variant(I, st, e[1])
                self.untag(st, "state")
                self.tag(st, "state", n)
        elif k == "atomic":
            if e[1] in ("load", "cas_fail") and self.A.which_counter(I, st, e[2]) is not None:
                st.ghost["zl"] = (st.ghost.get("zl", ()) + (e[5],))[-4:]
                self.rekeep(st)
        elif e[1] == "next":        # the next item of a sink
            for t in ("accepted", "waiting", "tx", "reply", "noreply", "state"):
                self.untag(st, t)
            st.ghost["zl"] = ()
            st.ghost.pop("g_it", None)
            self.rekeep(st)
        elif e[1] == "result":
            self.judge(I, st, e)

    def end(self, I, st):
        if st.done[0] == "panic" and self.entry in self.FRESH + self.SINK:
            self.report(I, st, "panics:" + self.entry, "the first poll of a send panics (%s)" % str(st.done[1])[:80])

    def txs(self, I, st, v):
        for w in deepwalk(I, st, v):
            if w[0] == "ctx":
                self.tag(st, "tx", ("C", w[1]))

    def judge(self, I, st, e):
        o = self.outcome(I, st, self.result(I, st, e))
        stv = [t[1] for t in self.tagged(st, "state")]
        delivered = any(s in self.deliv for s in stv)
        closed = any(s in self.closed for s in stv)
        if self.deliv & self.closed:
            if stv:
                self.report(I, st, "ambiguous", "a waiting send cannot tell whether its message was taken or discarded")
            return
        fresh = self.entry in self.FRESH + self.SINK
        fr = st.frames[0]
        early = not fresh and not stv and any(self.maywait(I, st, st.heap[fr.base + i]) for i in range(len(self.F.fns[fr.fid]["body"]["locals"]))
                                              if fr.base + i in st.heap)
        # (a later poll of a send that is past waiting for room: its message was accepted)
        accepted = bool(self.tagged(st, "accepted")) or delivered or (not fresh and not stv and not early)
        txs = {t[1] for t in self.tagged(st, "tx")}
        rep = self.tagged(st, "reply")
        nor = self.tagged(st, "noreply")
        if o[0] != "Ready":
            self.hit("pending")
            if rep or nor:
                self.report(I, st, "reply-lost:" + self.entry, "the reply was received (or will never come) but the send stays pending", e[-1])
            return
        if o[1] == "Ok":
            self.hit("ok")
            if not accepted and self.entry in self.NOREPLY and all(d for _, _, d in self.bq_cells(I, st) or ((0, 0, False),)):
                return      # every mailbox is gone: cannot happen while the channel is connected
            if not accepted:
                self.report(I, st, "ok:" + self.entry, "the send succeeds although its message was not accepted", e[-1])
            if self.entry in self.NOREPLY:
                return
            if self.entry in self.DETACHED:
                cells = {("C", w[1]) for w in deepwalk_lim(I, st, o[2]) if w[0] == "crx"}
                if fresh and txs and not cells & txs:
                    self.report(I, st, "receiver:" + self.entry, "the receiver returned is not the one of the message", e[-1])
                return
            x = I.norm(st, o[2])
            it = st.ghost.get("g_it")
            if not rep:
                self.report(I, st, "invented:" + self.entry, "the send yields a value although no reply was received", e[-1])
            elif self.entry not in self.SINK and (it is None or I.norm(st, it) != x):
                self.report(I, st, "other:" + self.entry, "the send yields something else than the reply that was received", e[-1])
            elif fresh and txs and rep[0][1] not in txs:
                self.report(I, st, "channel:" + self.entry, "the reply is not awaited on the channel that went with the message", e[-1])
            return
        if o[1] != "Err":
            return
        if rep:
            self.report(I, st, "reply-lost:" + self.entry, "the reply was received but the send fails", e[-1])
        if o[2] == "Interrupted":
            self.hit("interrupted")
            if not nor:
                self.report(I, st, "interrupted:" + self.entry, "an interruption is reported although the reply may still come", e[-1])
            elif not accepted:
                self.report(I, st, "interrupted-unsent:" + self.entry, "an interruption is reported although the message was not accepted", e[-1])
        elif o[2] == "Disconnected":
            self.hit("disconnected")
            if self.tagged(st, "accepted") or delivered:
                self.report(I, st, "disconnected-sent:" + self.entry, "a disconnection is reported although the message was accepted", e[-1])
            elif closed:
                self.hit("closed")
            elif nor:
                self.report(I, st, "disconnected-reply:" + self.entry, "a disconnection is reported where the reply was lost (an interruption)", e[-1])
            elif not any(bounds(st, v)[1] <= 0 for v in st.ghost.get("zl", ())):
                self.report(I, st, "disconnected:" + self.entry, "a disconnection is reported although the actor may be connected", e[-1])
