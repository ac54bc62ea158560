"""Rules about the channel: sending, receiving, capacity, wake-ups, outcomes, locks."""
from .core import *
from .natives import reaches, seqlen, waker_of

SEND1 = ("h_send_first", "h_send_detached_first", "h_chsend_first")
SENDA = ("h_bcast_first",)
SENDS = SEND1 + SENDA
AGAIN = ("h_send_again", "h_send_detached_again", "h_bcast_again")


class ChanMon(Mon):
    """helpers for rules about the content of the channel's lock"""

    def inner_cell(self, st):
        for cc, fl, tid in st.held:
            if fl == "std":
                return cc
        return None

    def fields(self, I, st, cc):
        """(path, value) of the fields of the lock content"""
        v = st.heap.get(cc)
        if v is None:
            return []
        return [(tuple(x[:2] for x in p), w) for p, w in walk(I, st, v) if p]

    def seqs(self, I, st, cc):
        """role -> value of the containers of the lock content"""
        out = {}
        for p, v in self.fields(I, st, cc):
            t = v[1] if v[0] in ("seq", "u") else -1
            if t >= 0 and self.T[t]["k"] == "adt":
                r = self.R.seqrole(t)
                if r and r not in out:
                    out[r] = v
        return out

    def cap(self, I, st, cc):
        """("none",) | ("some", value) | ("unknown",) | None when there is no such field"""
        for p, v in self.fields(I, st, cc):
            t = v[1] if v[0] in ("adt", "u") else -1
            if t >= 0 and self.F.nkey(t) == "option:Option" and self.T[self.T[t]["a"][0]]["k"] == "int":
                if v[0] == "u":
                    return ("unknown",)
                return ("some", I.force(st, v[3][0])) if v[2] == 1 else ("none",)
        return None

    def ints(self, I, st, cc):
        """path -> value of the plain integers of the lock content"""
        return {p: v for p, v in self.fields(I, st, cc)
                if v[0] in ("int", "lin") or (v[0] == "u" and self.T[v[1]]["k"] == "int")}

    def msgcells(self, I, st, v):
        """the cells of the messages owned by a value"""
        out = []
        for w in deepwalk_lim(I, st, v):
            if w[0] in ("box", "arc"):
                m = w[2]
                d = m[1] if isinstance(m, tuple) and m[0] == "dynu" else self.F.vts[m]["d"] if isinstance(m, int) else -1
                if d in self.A.msgdyns:
                    out.append(w[1])
        return out

    def len_le(self, I, st, seq, cap):
        if seq[0] != "seq":
            return False
        return entails_le(st, seqlen(seq), cap)

    def result(self, I, st, e):
        """the value behind the reference of a harness event"""
        c, p, m = I.deref(st, I.force(st, e[2]))
        return I.norm(st, I.read(st, c, p))

    def outcome(self, I, st, v):
        """("Pending",) / ("Ready", "Ok", x) / ("Ready", "Err", variant) / ..."""
        v = I.norm(st, v)
        n = variant_name(I, v)
        if n != "Ready":
            return (n,)
        r = I.norm(st, v[3][0])
        rn = variant_name(I, r)
        if rn == "Err":
            e = I.norm(st, r[3][0])
            return ("Ready", "Err", variant_name(I, e))
        if rn == "Ok":
            return ("Ready", "Ok", r[3][0])
        return ("Ready", None, r)


# ------------------------------------------------------------------ C16
class Locks(ChanMon):
    prop, rule = "C16", "lock-discipline"
    text = ("no lock is taken while the same thread holds it; every pair of locks is nested in one order only; no lock is "
            "held when an operation returns or suspends; no handler runs and no message is destroyed while a lock is held")
    kinds = ("lock", "unlock", "relock", "user", "dyncall", "drop_dyn", "push")
    SLOW = ("h_yield_once", "h_run", "h_select", "h_join", "h_run_default", "h_recv_fused", "h_recv_poll_drop")

    def __init__(self, A):
        super().__init__(A)
        self.entries = tuple(e for e in self.F.entries if e.startswith("h_") and e not in self.SLOW)
        self.data = None

    def run_entry(self, entry):
        self.data = set()
        self.pairs = self.data
        return self.explore(entry)

    def name(self, tid):
        return self.T[tid].get("s", str(tid)) if tid >= 0 else "?"

    def on(self, I, st, e):
        k = e[0]
        if k == "push":
            if self.R.seqrole(e[-2]) == "bq":
                self.tag(st, "bq")
        elif k == "relock":
            self.report(I, st, "relock:" + short(e[-1]).split(":")[0], "a lock is taken while this thread already holds it", e[-1])
        elif k == "lock":
            self.hit("lock")
            for cc, fl, tid in st.held:
                if cc != e[1]:
                    if (fl, tid) == (e[2], e[3]):
                        self.report(I, st, "two:" + self.name(tid)[:40], "two locks of the same kind are held at once", e[-1])
                    self.pairs.add((tid, e[3], short(e[-1])))
        elif k == "unlock":
            self.untag(st, "bq")
        elif any(h[1] == "std" for h in st.held):
            if k == "user":
                if e[1] == "drop_bc" and not self.tagged(st, "bq"):
                    return      # no mailbox was alive: cannot happen while the channel is connected
                self.report(I, st, "user-code:" + e[1], "user code (%s) runs while a lock is held" % e[1], e[-1])
            elif k == "drop_dyn" and e[2] in self.A.msgdyns:
                self.report(I, st, "drop:" + self.entry, "a message is destroyed while a lock is held", e[-1])
            elif k == "dyncall" and e[4]:
                self.report(I, st, "handle", "a message is handled while a lock is held", e[-1])
        elif k in ("user", "drop_dyn", "dyncall"):
            self.hit(k)

    def end(self, I, st):
        if st.done[0] != "return":
            return
        self.hit("released")
        if st.held:
            self.report(I, st, "held:" + self.entry, "a lock is still held when the operation returns")

    def combine(self, results):
        ps = {}
        for r in results:
            for a, b, w in r["data"] or ():
                ps.setdefault((a, b), w)
        for (a, b), w in ps.items():
            if (b, a) in ps and a < b:
                self.viol.append(Violation(self.prop, self.rule, "order", "locks are nested in both orders: %s then %s at %s, and the reverse at %s" % (
                    self.name(a), self.name(b), w, ps[(b, a)]), w))


# ------------------------------------------------------------------ C04
class Capacity(ChanMon):
    prop, rule = "C04", "capacity"
    text = ("a message enters a bounded queue only where the number of queued messages is proved to stay within the "
            "capacity; a sender is made to wait only where the queue is proved full")
    kinds = ("push", "catty_recv", "lock", "unlock")
    entries = SENDS + ("h_send_detached_again", "h_send_again", "h_recv_first", "h_recv_again", "h_recv_drop", "h_send_poll_drop", "h_bcast_poll_drop",
                       "h_sink_first")

    def __init__(self, A):
        super().__init__(A)
        from .r_bcast import tail_field
        self.tail = tail_field(A)

    def on(self, I, st, e):
        if e[0] == "catty_recv":
            st.ghost["item"] = e[2]
            self.rekeep(st)
            return
        if e[0] == "lock":
            if e[2] == "std":
                # remember the integer fields as they are when the lock is taken
                iv = tuple((p, v if v[0] in ("int", "lin") else I.force(st, v)) for p, v in sorted(self.ints(I, st, e[1]).items()))
                st.ghost["ints"] = iv
                self.rekeep(st)
            return
        if e[0] == "unlock":
            # the count may be raised before the broadcast is queued: then the raised count must be within the capacity
            if e[2] == "std" and self.tagged(st, "raised"):
                self.untag(st, "raised")
                cap = self.cap(I, st, e[1])
                v = self.ints(I, st, e[1]).get(self.tail)
                v = I.num(st, v) if v is not None else None
                if cap is None or cap[0] != "some" or v is None or not entails_le(st, v, cap[1]):
                    self.over(I, st, e)
            return
        role = self.R.seqrole(e[-2])
        cc = self.inner_cell(st)
        if role not in ("uq", "bq", "wtx1", "wtxa") or cc is None:
            return
        cap = self.cap(I, st, cc)
        if cap is None:
            return
        if role == "uq":
            ms = self.msgcells(I, st, e[4])
            if st.ghost.get("item") is not None and set(ms) & set(self.msgcells(I, st, st.ghost["item"])):
                self.hit("requeue")
                return
            q = I.norm(st, I.read(st, e[1], e[2]))
            if cap[0] == "none":
                self.hit("unbounded")
            elif cap[0] == "some":
                self.hit("within")
                if not self.len_le(I, st, q, cap[1]):
                    self.report(I, st, "over:" + self.entry, "a message is put into the queue although it may already hold as many messages as the capacity allows", e[-1])
            else:
                self.report(I, st, "unchecked:" + self.entry, "a message is put into the queue without looking at the capacity", e[-1])
        elif role == "wtx1":
            q = self.seqs(I, st, cc).get("uq")
            if cap[0] != "some":
                self.report(I, st, "wait-unbounded:" + self.entry, "a sender is made to wait although the mailbox is not known to be bounded", e[-1])
            else:
                self.hit("full")
                if q is None or q[0] != "seq" or not entails_le(st, cap[1], seqlen(q)):
                    self.report(I, st, "wait-not-full:" + self.entry, "a sender is made to wait although there may be room in the queue", e[-1])
        elif role == "bq":
            if cap[0] == "none":
                self.hit("bcast-unbounded")
            elif cap[0] == "unknown":
                if self.entry != "h_stop_all":
                    self.report(I, st, "bcast-unchecked:" + self.entry, "a broadcast is queued without looking at the capacity", e[-1])
            else:
                self.hit("bcast-within")
                if not any(entails_le(st, v, cap[1], -1) for v in self.measures(I, st, cc)):
                    if self.tail is not None:
                        self.tag(st, "raised")
                    else:
                        self.over(I, st, e)
        elif role == "wtxa":
            if cap[0] != "some":
                self.report(I, st, "bcast-wait-unbounded:" + self.entry, "a broadcast is made to wait although the mailbox is not known to be bounded", e[-1])
            else:
                self.hit("bcast-full")
                if not any(entails_le(st, cap[1], v) for v in self.measures(I, st, cc)):
                    self.report(I, st, "bcast-wait-not-full:" + self.entry, "a broadcast is made to wait although there may be room", e[-1])

    def over(self, I, st, e):
        self.report(I, st, "bcast-over:" + self.entry, "a broadcast is queued although as many may already be queued as the capacity allows", e[-1])

    def rekeep(self, st):
        it = st.ghost.get("item")
        st.ghost["keep"] = tuple(v for _, v in st.ghost.get("ints", ())) + ((it,) if it is not None else ())

    def measures(self, I, st, cc):
        """what the number of queued broadcasts may be compared through: the count of broadcasts (now, or when the lock was
        taken); without such a count, the length of a queue of broadcasts"""
        tail = self.tail
        if tail is not None:
            for d in (self.ints(I, st, cc), dict(st.ghost.get("ints", ()))):
                v = d.get(tail)
                v = I.num(st, v) if v is not None else None
                if v is not None and v[0] in ("int", "lin"):
                    yield v
            return
        for c, v in list(st.heap.items()):
            v = I.norm(st, v)
            if v[0] == "seq" and self.R.seqrole(v[1]) == "bq":
                yield seqlen(v)


# ------------------------------------------------------------------ C06
class Admission(Capacity):
    prop, rule = "C06", "admission"
    text = ("when a receive takes a message out of a bounded queue, then before the lock is released a waiting sender's "
            "message has been put into that queue, or no sender is waiting, or the queue is proved to be still full")
    kinds = ("push", "pop", "unlock", "lock", "weak_dead")
    entries = ("h_recv_first", "h_recv_again")

    def on(self, I, st, e):
        if e[0] == "lock":
            if e[2] == "std":
                self.untag(st, "pop")
                self.untag(st, "adm")
                self.untag(st, "taken")
            return
        if e[0] == "weak_dead":
            # the message of a waiting broadcast was on its way into a queue that died meanwhile
            t = e[2]
            while t >= 0 and self.T[t]["k"] in ("ref", "ptr"):
                t = self.T[t]["p"]
            if self.tagged(st, "taken") and any(self.R.seqrole(x) == "bq" for x in self.R.deep(t)):
                self.tag(st, "adm", "bq")
            return
        if e[0] == "pop":
            r = self.R.seqrole(e[-2])
            if r in ("uq", "bq"):
                self.tag(st, "pop", r)
            elif r == "wtxa":
                self.tag(st, "taken")
        elif e[0] == "push":
            r = self.R.seqrole(e[-2])
            if r in ("uq", "bq"):
                if self.tagged(st, "pop", r):
                    self.tag(st, "adm", r)
        elif e[0] == "unlock" and e[2] == "std":
            cc = e[1]
            if cc not in st.heap:
                return
            cap = self.cap(I, st, cc)
            S = self.seqs(I, st, cc)
            for _, r in self.tagged(st, "pop"):
                if self.tagged(st, "adm", r):
                    self.hit("admitted-" + r)
                    continue
                if cap is None or cap[0] == "none":
                    self.hit("unbounded-" + r)
                    continue
                w = S.get("wtx1" if r == "uq" else "wtxa")
                if w is not None and w[0] == "seq" and entails_le(st, seqlen(w), ("int", 0)):
                    self.hit("nobody-" + r)
                    continue
                b = S.get("bqs")
                if r == "bq" and b is not None and b[0] == "seq" and entails_le(st, seqlen(b), ("int", 0)):
                    self.hit("no-mailbox")      # (cannot happen: the receiving mailbox is alive)
                    continue
                full = False
                if cap[0] == "some":
                    if r == "uq":
                        q = S.get("uq")
                        full = q is not None and q[0] == "seq" and entails_le(st, cap[1], seqlen(q))
                    else:
                        full = any(entails_le(st, cap[1], v) for v in self.measures(I, st, cc))
                if full:
                    self.hit("full-" + r)
                    continue
                self.report(I, st, "left-waiting:" + r, "a message is taken out of a bounded queue, but a sender that waits "
                            "for room is left waiting", e[-1])


# ------------------------------------------------------------------ C05
class NoLoss(ChanMon):
    prop, rule = "C05", "no-loss"
    text = ("a message taken out of a queue, a waiting sender or a one-shot channel ends in the result, in a queue, in a "
            "waiting sender or in a receiver's one-shot channel; none is destroyed, except the operation's own message when it fails")
    kinds = ("pop", "push", "catty_send", "catty_recv", "catty_rx_drop", "catty_empty", "unlock", "user", "drop_dyn", "atomic", "lock")
    entries = SENDS + AGAIN + ("h_recv_first", "h_recv_again", "h_recv_drop", "h_recv_poll_drop", "h_recv_new_drop", "h_stop_all", "h_mailbox_clone",
                               "h_addr_clone", "h_len", "h_is_empty", "h_send_poll_drop", "h_bcast_poll_drop", "h_addr_drop", "h_mailbox_next",
                               "h_sink_first", "h_sink_again", "h_sink_ch")
    # the operation's own message may be destroyed when the operation fails (AGAIN: it is inside the unknown future) or is cancelled
    CANCEL = ("h_send_poll_drop", "h_bcast_poll_drop")

    def note_item(self, st, kind, v):
        """remember a value that may contain a message taken out of somewhere"""
        its = st.ghost.get("items", ())
        st.ghost["items"] = its + ((kind, v),)
        self.rekeep(st)

    def no_msg(self, I, st, v):
        """a value that is known to contain no message (another variant)"""
        v = I.norm(st, v)
        return v[0] == "adt" and self.T[v[1]]["ak"] == "enum" and not self.msgcells(I, st, v)

    def rekeep(self, st):
        st.ghost["keep"] = tuple(v for _, v in st.ghost.get("items", ())) + tuple(
            st.ghost[n] for n in ("g_rc",) if st.ghost.get(n) is not None)

    def on(self, I, st, e):
        k = e[0]
        if k == "pop":
            if self.R.seqrole(e[-2]) in ("uq", "bq"):
                self.note_item(st, "queue", e[4])
        elif k == "catty_recv":
            self.note_item(st, "handed", e[2])
        elif k == "push":
            self.sink(I, st, e[4], "queued")
        elif k == "catty_send":
            if e[3]:
                self.sink(I, st, e[2], "handed")
        elif k == "catty_empty":
            if any(h[1] == "std" for h in st.held):
                self.tag(st, "empty", ("C", e[1]))
        elif k == "lock":
            if e[2] == "std":
                self.tag(st, "locked")
                its = st.ghost.get("items", ())
                if its:
                    st.ghost["items"] = tuple((kd, v) for kd, v in its if not self.no_msg(I, st, v))
                    self.rekeep(st)
        elif k == "unlock":
            if e[2] == "std":
                self.untag(st, "empty")
        elif k == "atomic":
            if e[1] == "fetch_sub" and self.A.which_counter(I, st, e[2]) == 1:
                st.ghost["g_rc"] = e[5]
                self.rekeep(st)
        elif k == "catty_rx_drop":
            if e[2] and self.dyn_in(e[3]) and self.tagged(st, "locked"):
                self.hit("cancel")
                if ("empty", ("C", e[1])) not in st.evset:
                    self.report(I, st, "cancel:" + self.entry, "a receive is given up without looking, in the same critical section, for a message that was already handed to it", e[-1])
        elif k == "user":
            if e[1] in ("received", "result"):
                r = self.result(I, st, e)
                self.sink(I, st, r, "returned")
                o = self.outcome(I, st, r)
                self.tag(st, "res", o[0], o[1] if len(o) > 1 else None)
            elif (e[1] == "drop_msg" and self.entry not in AGAIN) or (e[1] == "drop_bc" and self.entry.startswith("h_sink")):
                self.tag(st, "own")
                st.ghost["own_at"] = e[-1]
        elif k == "drop_dyn":
            if e[2] not in self.A.msgdyns:
                return
            if self.entry in AGAIN:
                self.tag(st, "own")
                return
            rc = st.ghost.get("g_rc")
            if rc is not None and bounds(st, rc) == (1, 1):
                self.hit("last-mailbox")
                return
            if self.entry in self.CANCEL:
                return
            self.report(I, st, "destroyed:" + self.entry, "a message that was accepted is destroyed", e[-1])

    def dyn_in(self, tid):
        return any(self.T[t]["k"] == "dyn" and t in self.A.msgdyns for t in self.R.deep(tid)) if tid >= 0 else False

    def sink(self, I, st, v, how):
        cells = set(self.msgcells(I, st, v))
        if not cells:
            return
        out = []
        for kind, it in st.ghost.get("items", ()):
            if cells & set(self.msgcells(I, st, it)):
                self.hit(kind + "-" + how)
            else:
                out.append((kind, it))
        st.ghost["items"] = tuple(out)
        self.rekeep(st)

    def end(self, I, st):
        if st.done[0] != "return":
            return
        for kind, it in st.ghost.get("items", ()):
            if self.msgcells(I, st, it):
                rc = st.ghost.get("g_rc")
                if rc is not None and bounds(st, rc) == (1, 1):
                    continue
                self.report(I, st, "vanished:" + self.entry, "a message is taken out of a queue but neither returned nor queued nor handed on")
        if self.tagged(st, "own"):
            self.hit("own-dropped")
            res = self.tagged(st, "res")
            if self.entry in self.CANCEL:
                if ("res", "Ready", "Ok") in res:
                    self.report(I, st, "own-ok:" + self.entry, "the message is destroyed although the send succeeded")
                return
            if not any(t[1] == "Ready" and t[2] == "Err" for t in res):
                self.report(I, st, "own:" + self.entry, "the message is destroyed although the send did not fail", st.ghost.get("own_at", ""))


# ------------------------------------------------------------------ C07
class Wakers(ChanMon):
    prop, rule = "C07", "pending-registered"
    text = ("whenever a poll returns Pending, the waker of that poll is registered with whatever completes the operation")
    kinds = ("user", "registered", "same_waker")
    entries = SENDS + AGAIN + ("h_recv_first", "h_recv_again", "h_join_poll", "h_scoped_poll", "h_send_poll_drop", "h_wsend_poll_drop", "h_esend_poll_drop",
                               "h_sink_first", "h_sink_again", "h_sink_ch")

    def on(self, I, st, e):
        if e[0] == "registered":
            self.tag(st, "reg", ("W", e[2][1]) if e[2][0] == "waker" else "?")
            return
        if e[0] == "same_waker":
            self.tag(st, "same", ("W", e[1][1]), ("W", e[2][1]))
            self.tag(st, "same", ("W", e[2][1]), ("W", e[1][1]))
            return
        if e[1] not in ("result", "received"):
            return
        o = self.outcome(I, st, self.result(I, st, e))
        if o[0] != "Pending":
            if o[0] == "Ready":
                self.hit("ready")
            return
        self.hit("pending")
        w = self.cxwaker(I, st)
        if w is None:
            return
        ws = {w} | {("waker", t[2][1]) for t in self.tagged(st, "same", ("W", w[1]))}
        if any(("reg", ("W", x[1])) in st.evset for x in ws):
            return
        for c in st.shared:
            v = st.heap.get(c)
            if v is not None and v[0] not in ("cch",) and any(self.holds(I, st, v, x, 0) for x in ws):
                return
        self.report(I, st, "unregistered:" + self.entry, "the operation returns Pending, but nothing will wake the task that polled it", e[-1])

    def holds(self, I, st, v, w, d):
        for p, x in walk(I, st, v):
            if x == w:
                return True
        return False

    def cxwaker(self, I, st):
        f = self.F.fns[self.F.entries[self.entry]]
        for i, a in enumerate(st.ghost["args"]):
            t = self.F.fns[self.F.entries[self.entry]]["body"]["locals"][1 + i]
            x = self.T[t]
            if x["k"] == "ref" and self.F.nkey(x["p"]) == "std:Context":
                return waker_of(I, st, a)
        return None


class WakeOnChange(ChanMon):
    prop, rule = "C07", "wake-on-change"
    text = ("whoever takes the message out of a waiting sender or closes it wakes the task that is registered with it")
    kinds = ("lock", "unlock", "wake")
    entries = ("h_recv_first", "h_recv_again", "h_mailbox_drop", "h_recv_drop")

    def wstate(self, tid):
        return self.R.has(tid, "std:Waker") and any(t in self.A.msgdyns for t in self.R.deep(tid))

    def wk(self, I, st, v):
        """the waker stored in a waiting state: None / waker / ("unlooked", the unknown that holds it)"""
        v = I.norm(st, v)
        if v[0] == "u":
            return ("unlooked", v)
        for p, x in walk(I, st, v):
            t = x[1] if x[0] in ("u", "adt") else -1
            if t >= 0 and self.F.nkey(t) == "option:Option" and self.F.nkey(self.T[t]["a"][0]) == "std:Waker":
                if x[0] == "u":
                    return ("unlooked", x)
                if x[2] == 0:
                    return None
                return I.force(st, x[3][0])
        return None

    def rekeep(self, st):
        st.ghost["keep"] = st.ghost.get("pend", ()) + tuple(v for k, v in sorted(st.ghost.items()) if k[0] == "w" and k[1:].isdigit())

    def look(self, I, st):
        """what became of the wakers that had not been looked at when the state was changed"""
        left = []
        for u in st.ghost.get("pend", ()):
            x = I.norm(st, u)
            if x[0] == "u":
                left.append(u)
                continue
            w = self.wk(I, st, x)
            if w is not None and w[0] == "unlooked":
                left.append(w[1])
            elif w is not None:
                self.tag(st, "owed", ("W", w[1]))
        if tuple(left) != st.ghost.get("pend", ()):
            st.ghost["pend"] = tuple(left)
            self.rekeep(st)

    def on(self, I, st, e):
        self.look(I, st)
        if e[0] == "wake":
            if e[1][0] == "waker":
                self.untag(st, "owed", ("W", e[1][1]))
                if st.held:
                    self.tag(st, "woken", ("W", e[1][1]))
        elif e[0] == "lock":
            if e[2] == "spin" and self.wstate(e[3]):
                st.ghost["w%d" % e[1]] = st.heap[e[1]]
                self.rekeep(st)
        elif e[0] == "unlock":
            v0 = st.ghost.get("w%d" % e[1])
            if v0 is None:
                return
            v1 = I.norm(st, st.heap.get(e[1], ("moved",)))
            n0, n1 = I.norm(st, v0), v1
            st.ghost.pop("w%d" % e[1], None)
            self.rekeep(st)
            if n0[0] == "u" and n1[0] == "adt":
                n0 = ("adt", n0[1], -1, ())     # replaced without having been looked at
            elif n0[0] != "adt" or n1[0] != "adt" or n0[2] == n1[2]:
                return
            self.hit("change")
            w = self.wk(I, st, v0)
            if w is None:
                return
            if w[0] == "waker":
                if not self.tagged(st, "woken", ("W", w[1])):
                    self.tag(st, "owed", ("W", w[1]))
                self.untag(st, "woken")
            else:
                st.ghost["pend"] = st.ghost.get("pend", ()) + (w[1],)
                self.rekeep(st)

    def end(self, I, st):
        self.look(I, st)
        if st.done[0] != "return":
            return
        if self.tagged(st, "owed"):
            self.report(I, st, "unwoken:" + self.entry, "a waiting sender's message is taken (or the sender closed) but its task is not woken")
        if st.ghost.get("pend"):
            self.report(I, st, "unlooked:" + self.entry, "a waiting sender's state is changed without looking for the waker that is registered with it")


# ------------------------------------------------------------------ sections of a receive (C07, C09)
class RecvSections(ChanMon):
    """what a receive has established, under the lock, when it waits or reports a shutdown"""
    kinds = ("lock", "unlock", "push", "atomic", "catty_recv", "catty_closed", "user", "registered")
    entries = ("h_recv_first", "h_recv_again")

    def __init__(self, A, what="wait"):
        super().__init__(A)
        self.what = what
        if what == "wait":
            self.prop, self.rule = "C07", "wait-when-empty"
            self.text = ("a receive starts to wait only where both of its queues are proved empty in the same critical section, "
                         "and where its handle can be found by those who send")
        else:
            self.prop, self.rule = "C09", "shutdown-evidence"
            self.text = ("a receive reports a shutdown only if a shutdown was signalled to it or if, in one critical section, it "
                         "saw both queues empty and no strong address; it starts to wait only after it saw, in or after that "
                         "section, that a strong address exists")
            from .r_refs import LastStrong
            m = LastStrong(A)
            save, A.log = A.log, []
            for e in m.entries:
                if not m.missing(e):
                    m.explore(e)
            A.log = save
        self.kindset = set(A.shutdown_kinds)

    def keep(self, st, name, v):
        st.ghost[name] = v
        st.ghost["keep"] = tuple(st.ghost[n] for n in ("g_ld", "g_uq", "g_bq", "g_it") if st.ghost.get(n) is not None)

    def on(self, I, st, e):
        k = e[0]
        if k == "lock":
            if e[2] == "std":
                for n in ("g_ld", "g_uq", "g_bq"):
                    st.ghost.pop(n, None)
                self.untag(st, "reg")
        elif k == "unlock":
            if e[1] not in st.heap:
                return
            v = I.norm(st, st.heap[e[1]])
            if e[2] == "std":
                q = self.seqs(I, st, e[1]).get("uq")
                if q is not None and q[0] == "seq":
                    self.keep(st, "g_uq", seqlen(q))
            elif v[0] == "seq" and self.R.seqrole(v[1]) == "bq":
                if any(h[1] == "std" for h in st.held):
                    self.keep(st, "g_bq", seqlen(v))
        elif k == "push":
            if self.R.seqrole(e[-2]) == "wrx":
                self.tag(st, "reg")
        elif k == "registered":
            # the waiting end is known to nobody else and its counterpart is not in the queue of waiting receives
            if e[1] == "catty" and not e[4] and not self.tagged(st, "reg"):
                self.tag(st, "lost")
        elif k == "atomic":
            if e[1] == "load" and self.A.which_counter(I, st, e[2]) == 0:
                self.keep(st, "g_ld", e[5])
        elif k == "catty_recv":
            self.keep(st, "g_it", e[2])
        elif k == "user":
            if e[1] != "received":
                return
            r = self.result(I, st, e)
            n = variant_name(I, r)
            if n == "Pending":
                if self.what == "wait" and self.tagged(st, "lost"):
                    self.report(I, st, "unreachable", "a receive waits but no sender can find it", e[-1])
                if not self.tagged(st, "reg"):
                    return
                if self.what == "wait":
                    self.hit("waits")
                    if not self.empty(st, "g_uq"):
                        self.report(I, st, "wait-nonempty:one", "a receive waits although a message sent to one actor may be queued", e[-1])
                    if not self.empty(st, "g_bq"):
                        self.report(I, st, "wait-nonempty:all", "a receive waits although a broadcast may be queued for it", e[-1])
                else:
                    self.hit("waits")
                    ld = st.ghost.get("g_ld")
                    if ld is None or bounds(st, ld)[0] < 1:
                        self.report(I, st, "wait-abandoned", "a receive waits although the last strong address may already be gone", e[-1])
            elif n == "Ready" and self.what != "wait" and not self.msgcells(I, st, r):
                self.hit("shutdown")
                it = st.ghost.get("g_it")
                if it is not None:
                    it = I.norm(st, it)
                    if it[0] == "adt" and it[2] in self.kindset:
                        return
                ld = st.ghost.get("g_ld")
                if ld is None or bounds(st, ld)[1] > 0:
                    self.report(I, st, "early", "a receive reports a shutdown although a strong address may exist", e[-1])
                elif not self.empty(st, "g_uq") or not self.empty(st, "g_bq"):
                    self.report(I, st, "overtakes", "a receive reports a shutdown although messages may be queued", e[-1])

    def empty(self, st, n):
        v = st.ghost.get(n)
        return v is not None and bounds(st, v)[1] <= 0


class QueueWhileWaiting(ChanMon):
    prop, rule = "C07", "no-queueing-past-a-waiting-receive"
    text = ("a message sent to one actor is queued only where no receive is waiting; after a broadcast is queued no receive "
            "that was waiting is left untold")
    kinds = ("push", "unlock", "lock")
    entries = SENDS + ("h_recv_drop", "h_stop_all")

    def on(self, I, st, e):
        if e[0] == "push":
            r = self.R.seqrole(e[-2])
            if r == "bq":
                self.tag(st, "b")
            if r != "uq":
                return
            cc = self.inner_cell(st)
            if cc is None:
                return
            w = self.seqs(I, st, cc).get("wrx")
            self.hit("queued")
            if w is None or w[0] != "seq" or not entails_le(st, seqlen(w), ("int", 0)):
                self.report(I, st, "past:" + self.entry, "a message is queued although a receive may be waiting for one", e[-1])
        elif e[2] != "std":
            return
        elif e[0] == "lock":
            self.untag(st, "b")
        elif self.tagged(st, "b"):
            self.hit("broadcast")
            w = self.seqs(I, st, e[1]).get("wrx")
            if w is None or w[0] != "seq" or not entails_le(st, seqlen(w), ("int", 0)):
                self.report(I, st, "untold:" + self.entry, "a broadcast is queued but receives that wait are not told", e[-1])
