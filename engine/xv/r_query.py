"""C17 identity, C19 joins and scoped tasks, C22 queries, C23 the terminated receive (and the message-channel side of them, C18)."""
from .core import *
from .interp import UNIT
from .natives import seqlen
from .r_chan import ChanMon
from .r_bcast import tail_field
from .r_order import ordval

ADDRQ = ("h_len", "h_wlen", "h_elen", "h_is_empty", "h_wis_empty", "h_eis_empty", "h_capacity", "h_wcapacity", "h_ecapacity",
         "h_is_connected", "h_wis_connected", "h_eis_connected")
NEWQ = ("h_set_capacity", "h_set_unbounded")
CHQ = ("h_ch_len", "h_ch_wlen", "h_ch_is_empty", "h_ch_wis_empty", "h_ch_capacity", "h_ch_wcapacity", "h_ch_is_connected",
       "h_ch_wis_connected", "h_ch_eis_connected")
EFFECTS = ("push", "pop", "clear", "seq_take", "notify", "catty_send", "catty_tx_drop", "guard_write")


class Query(ChanMon):
    rule = "query"
    text = ("the value returned is computed from the state of the channel as found under its lock (or from its two counters), and nothing "
            "is changed")

    def __init__(self, A, what="addr"):
        super().__init__(A)
        self.prop = "C22" if what == "addr" else "C18"
        self.entries = ADDRQ + NEWQ if what == "addr" else CHQ
        self.tail = tail_field(A)

    def on(self, I, st, e):
        k = e[0]
        if self.entry in NEWQ:
            if k == "lock" and e[2] == "std":
                self.tag(st, "locked")
            return
        if k == "lock":
            if e[2] != "std":
                return
            st.ghost["qs"] = st.ghost.get("qs", ()) + (st.heap[e[1]],)
            st.ghost["keep"] = st.ghost["qs"]
        elif k == "atomic":
            if e[1] == "load":
                w = self.A.which_counter(I, st, e[2])
                if w is not None:
                    st.ghost["l%d" % w] = e[5]
            elif e[1] != "cas_fail":
                self.report(I, st, "effect:" + self.entry, "a query changes a counter of the channel (%s)" % e[1], e[-1])
        elif k in EFFECTS:
            self.report(I, st, "effect:" + self.entry, "a query changes the channel (%s)" % k, e[-1] if isinstance(e[-1], str) else "")

    merge = False

    def found(self, I, st, q):
        """what the lock was found to guard: (length of the unicast queue, length of the broadcast queue, capacity)"""
        qc = st.ghost.get("qc", {})
        if q not in qc:
            qc = st.ghost["qc"] = dict(qc)
            qc[q] = st.cell(st.ghost["qs"][q])
        c = qc[q]
        S = self.seqs(I, st, c)
        u = S.get("uq")
        u = I.force(st, u) if u is not None else None
        n = seqlen(u) if u is not None and u[0] == "seq" else None
        t = self.ints(I, st, c).get(self.tail) if self.tail else None
        t = I.num(st, t) if t is not None else None
        k = self.cap(I, st, c)
        if k is not None and k[0] == "unknown":
            for p, v in self.fields(I, st, c):
                if v[0] == "u" and self.F.nkey(v[1]) == "option:Option":
                    I.force(st, v)
            k = self.cap(I, st, c)
        return n, t, k

    def end(self, I, st):
        if st.done[0] != "return":
            return
        n = self.entry
        r = I.norm(st, st.heap.get(st.ghost["ret"]))
        if n in NEWQ:
            self.hit("created")
            if n == "h_set_unbounded":
                if variant_name(I, r) != "None":
                    self.report(I, st, "unbounded", "an unbounded mailbox reports a capacity")
                return
            a = I.num(st, st.ghost["args"][0])
            if variant_name(I, r) != "Some":
                if variant_name(I, r) == "None":
                    self.report(I, st, "bounded", "a bounded mailbox reports no capacity")
            else:
                v = I.num(st, r[3][0])
                if v is not None and v[0] in ("int", "lin") and diff_bounds(st, v, a) != (0, 0):
                    self.report(I, st, "bounded", "a mailbox reports another capacity than it was created with")
            return
        if "connected" in n:
            a, b = st.ghost.get("l0"), st.ghost.get("l1")
            if r[0] != "int":
                return
            self.hit("connected" if r[1] else "not")
            if r[1]:
                for x, w in ((a, "a strong address"), (b, "a mailbox")):
                    if x is None or not entails_le(st, ("int", 1), x):
                        self.report(I, st, "connected:" + n, "reports connected without having found that %s exists" % w)
            elif not any(x is not None and entails_le(st, x, ("int", 0)) for x in (a, b)):
                self.report(I, st, "disconnected:" + n, "reports disconnected although a mailbox and a strong address may exist")
            return
        qs = st.ghost.get("qs", ())
        if not qs:
            self.report(I, st, "unread:" + n, "the answer is not read from the channel")
            return
        if len(qs) > 3:
            return
        # (several critical sections: each part of the answer may come from any of them)
        F = [self.found(I, st, i) for i in range(len(qs))]
        if "capacity" in n:
            self.hit("capacity")
            caps = [c for _, _, c in F]
            if any(c is None or c[0] == "unknown" for c in caps):
                return
            rn = variant_name(I, r)
            if rn == "None" and not any(c[0] == "none" for c in caps):
                self.report(I, st, "capacity:" + n, "no capacity is reported for a bounded mailbox")
            elif rn == "Some":
                v = I.num(st, r[3][0])
                if v is None or not any(c[0] == "some" and diff_bounds(st, v, c[1]) == (0, 0) for c in caps):
                    self.report(I, st, "capacity:" + n, "another capacity is reported than the mailbox has")
            return
        if any(ln is None or tail is None for ln, tail, _ in F):
            return
        tots = [comb(x[0], y[1], 1) for x in F for y in F]
        if "empty" in n:
            if r[0] != "int":
                return
            self.hit("empty" if r[1] else "nonempty")
            if r[1] and not any(entails_le(st, t, ("int", 0)) for t in tots):
                self.report(I, st, "empty:" + n, "reports empty although messages may be queued")
            if not r[1] and not any(entails_le(st, ("int", 1), t) for t in tots):
                self.report(I, st, "nonempty:" + n, "reports messages although none may be queued")
            return
        v = I.num(st, r)
        self.hit("length")
        if v is None or not any(diff_bounds(st, v, t) == (0, 0) for t in tots):
            self.report(I, st, "length:" + n, "the reported length is not the number of queued messages, unicast and broadcast")


# ------------------------------------------------------------------ C19
NEWJ = ("h_join_new", "h_sjoin_new", "h_ejoin_new", "h_scoped_new")
CHJ = ("h_ch_join", "h_ch_wjoin")
POLLJ = ("h_join_poll", "h_scoped_poll")


class Join(ChanMon):
    rule = "join"
    text = ("a wait for the end of an actor that starts while it is connected listens for the end before it looks whether it is; it is ready "
            "exactly if there was nothing to wait for or the listener fired, else it registers the current waker and keeps listening; a scoped "
            "task gives its own result if it is ready while the actor runs, and nothing exactly if the wait is over")
    merge = False
    kinds = ("listen", "atomic", "listener_ready", "registered", "user", "user_ready", "user_pending")

    def __init__(self, A, what="addr"):
        super().__init__(A)
        self.prop = "C19" if what == "addr" else "C18"
        self.entries = NEWJ + POLLJ if what == "addr" else CHJ

    def begin(self, I, st):
        if self.entry in POLLJ:
            r = I.force(st, st.ghost["args"][0])
            v = st.heap[r[1]]
            st.ghost["j0"] = v
            st.ghost["keep"] = (v,)

    def on(self, I, st, e):
        k = e[0]
        if k == "listen":
            st.ghost["listen"] = True
            st.ghost.pop("ok1", None)
        elif k == "atomic":
            if e[1] == "load":
                w = self.A.which_counter(I, st, e[2])
                if w is not None:
                    st.ghost["l%d" % w] = e[5]
                    if w == 1 and st.ghost.get("listen"):
                        st.ghost["ok1"] = e[5]
        elif k == "listener_ready":
            st.ghost["fired"] = True
        elif k == "registered":
            if e[1] == "listener":
                st.ghost["reg"] = e[2]
        elif k == "user":
            if e[1] == "result":
                st.ghost["res"] = self.result(I, st, e)
        elif k == "user_ready" and e[1] == "?":
            st.ghost["fut"] = e[2]
            if st.ghost.get("fired"):
                st.ghost["after"] = True
        elif k == "user_pending" and e[1] == "?":
            st.ghost["futp"] = True
            if st.ghost.get("fired"):
                st.ghost["after"] = True

    def listeners(self, I, st, v):
        return [w for w in self.deep(I, st, v) if w[0] == "listener"]

    def deep(self, I, st, v):
        v = I.norm(st, v)
        yield v
        if v[0] == "adt":
            for x in v[3]:
                yield from self.deep(I, st, x)
        elif v[0] == "tup":
            for x in v[1]:
                yield from self.deep(I, st, x)
        elif v[0] == "box" and v[1] in st.heap:
            yield from self.deep(I, st, st.heap[v[1]])

    def nothing(self, I, st, v):
        """is a handle without a listener?"""
        for w in self.deep(I, st, v):
            if w[0] == "listener":
                return False
            if w[0] == "u":
                d = self.R.deep(w[1])
                if any(self.F.nkey(t) == "ev:EventListener" or "EventListener" in self.T[t].get("path", "") for t in d):
                    return None
        return True

    def end(self, I, st):
        if st.done[0] != "return":
            return
        n = self.entry
        G = st.ghost
        if n not in POLLJ:
            r = st.heap.get(G["ret"])
            no = self.nothing(I, st, r)
            if no is None:
                return
            if no:
                self.hit("ended")
                if not any(G.get(x) is not None and entails_le(st, G[x], ("int", 0)) for x in ("l0", "l1")):
                    self.report(I, st, "ended:" + n, "the wait is taken as over although the actor may still run")
            else:
                self.hit("listening")
                x = G.get("ok1")
                if x is None or not entails_le(st, ("int", 1), x):
                    self.report(I, st, "late:" + n, "the wait starts to listen without having looked afterwards whether the actor has already stopped")
            return
        res = G.get("res")
        if res is None:
            return
        rn = variant_name(I, res)
        no = self.nothing(I, st, G["j0"])
        over = G.get("fired") or no
        scoped = n == "h_scoped_poll"
        if G.get("after"):
            self.report(I, st, "task-after-end:" + n, "a scoped task is polled after the actor has stopped")
        if rn == "Pending":
            self.hit("pending")
            if over is True:
                self.report(I, st, "missed:" + n, "pending although the actor has stopped")
                return
            if G.get("reg") is None:
                self.report(I, st, "unregistered:" + n, "pending without having registered with what tells the end of the actor")
            r = I.force(st, G["args"][0])
            now = self.nothing(I, st, st.heap[r[1]])
            if now is True:
                self.report(I, st, "dropped:" + n, "pending, but no longer listening for the end of the actor")
            if scoped and not G.get("futp"):
                self.report(I, st, "task-unpolled:" + n, "pending without having polled the task")
            return
        if rn != "Ready":
            return
        if scoped:
            v = I.norm(st, res[3][0])
            vn = variant_name(I, v)
            if vn == "Some":
                self.hit("result")
                f = G.get("fut")
                if f is None or I.norm(st, v[3][0]) != I.norm(st, f):
                    self.report(I, st, "result:" + n, "yields something else than the result of the task")
                return
            if G.get("fut") is not None:
                self.report(I, st, "result-lost:" + n, "the result of the task is thrown away")
        self.hit("over")
        if over is not True:
            self.report(I, st, "early:" + n, "ready although the actor has not stopped")


# ------------------------------------------------------------------ C23
class Fused(ChanMon):
    prop, rule = "C23", "terminated"
    text = "a receive says it has terminated after a poll exactly if that poll yielded the message, and a receive that says so yields nothing more"
    kinds = ("user",)
    entries = ("h_recv_fused", "h_recv_fused_again")

    def weight(self, e):
        return 10

    def on(self, I, st, e):
        if e[1] == "received":
            n = variant_name(I, self.result(I, st, e))
            self.tag(st, "r", n)
            if self.tagged(st, "before", 1) and n in ("Ready", "Pending"):
                self.hit("terminated-before")
                self.report(I, st, "before:" + self.entry, "a receive that can still yield a message says that it has terminated")
        elif e[1] in ("terminated", "terminated_before"):
            v = I.force(st, self.result(I, st, e))
            if v[0] != "int":
                return
            if e[1] == "terminated_before":
                self.tag(st, "before", v[1])
                if v[1] and self.entry == "h_recv_fused":
                    self.report(I, st, "new:" + self.entry, "a new receive says that it has terminated")
                return
            r = self.tagged(st, "r")
            if not r or r[0][1] not in ("Ready", "Pending"):
                return
            self.hit(r[0][1])
            if v[1] and r[0][1] == "Pending":
                self.report(I, st, "pending:" + self.entry, "a pending receive says that it has terminated")
            if not v[1] and r[0][1] == "Ready":
                self.report(I, st, "ready:" + self.entry, "a receive that has yielded its message does not say that it has terminated")


# ------------------------------------------------------------------ C17
class Identity(ChanMon):
    rule = "identity"
    text = ("for two handles of the same channel and for two of different ones, of every strength: same_actor says whether the channel is the "
            "same; == says whether channel and strength are; every ordering operator agrees with == and with the others, swapping the "
            "sides reverses it and it is transitive; equal handles feed the same values to a hasher")
    merge = False
    kinds = ("user",)

    def __init__(self, A, what="addr"):
        super().__init__(A)
        self.prop = "C17" if what == "addr" else "C18"
        self.what = what
        if what == "addr":
            self.entries = ("h_id_ee", "h_id_ss", "h_id_ww", "h_id_sw", "h_id_se", "h_id_we", "h_id3_e") + self.CH
        else:
            self.entries = self.CH
    CH = ("h_idc_ee", "h_idc_ss", "h_idc_ww", "h_idc_sw", "h_idc_se", "h_idc_we")

    def run_entry(self, entry):
        for al in (((), ((0, 1),), ((1, 2),), ((0, 2),), ((0, 1), (1, 2), (0, 2))) if "id3" in entry else ((), ((0, 1),))):
            self.alias = al
            self.explore(entry)

    def chanarcs(self, I, st, v):
        """unexpanded or expanded Arcs to a channel inside a handle"""
        r = I.norm(st, v)
        if r[0] == "u" and self.T[r[1]]["k"] in ("ref", "ptr"):
            r = I.expand(st, r)
        if r[0] == "ref":
            r = st.heap[r[1]]
        return [w for p, w in walk(I, st, r) if (w[0] == "u" and self.F.nkey(w[1]) == "std:Arc") or w[0] == "arc"]

    def begin(self, I, st):
        args = st.ghost["args"]
        for i, j in self.alias:
            a = self.chanarcs(I, st, args[i])
            b = self.chanarcs(I, st, args[j])
            if len(a) != 1 or len(b) != 1:
                return
            if b[0][0] == "u":
                x = a[0] if a[0][0] == "arc" else I.expand(st, a[0])
                st.exp[b[0][2]] = x
        st.ghost["keep"] = tuple(args)

    def strong(self, I, st, i):
        c = self.entry.rsplit("_", 1)[1]
        c = c[i] if i < len(c) else "e"
        if c != "e":
            return c == "s"
        r = I.force(st, st.ghost["args"][i])
        if r[0] == "ref":
            r = st.heap[r[1]]
        for p, w in walk(I, st, r):
            if w[0] == "u" and self.T[w[1]]["k"] == "adt" and self.T[w[1]]["ak"] == "enum" and self.T[w[1]]["crate"] == "xtra":
                w = I.force(st, w)
            if w[0] == "adt" and self.T[w[1]]["ak"] == "enum" and self.T[w[1]]["crate"] == "xtra":
                n = variant_name(I, w)
                return n == "Strong" if n in ("Strong", "Weak") else None
        return None

    def on(self, I, st, e):
        n = e[1]
        G = st.ghost
        if "id3" in self.entry:
            if n in ("ab", "bc", "ac"):
                G["o" + n] = ordval(I, st, I.force(st, self.result(I, st, e)))
            return
        if n.startswith("hash"):
            if n == "hash_a":
                G["h"] = ()
            elif n == "hash_b":
                G["ha"] = G.get("h", ())
                G["h"] = ()
            elif n == "hash":
                G["h"] = G.get("h", ()) + (I.num(st, self.result(I, st, e)) or ("?",),)
            elif n == "hash_bytes":
                G["h"] = G.get("h", ()) + (("?",),)
            else:
                self.hashes(I, st)
            return
        al = bool(self.alias)
        sa, sb = self.strong(I, st, 0), self.strong(I, st, 1)
        if sa is None or sb is None:
            return
        eq = al and sa == sb
        G["eq"] = eq
        v = I.force(st, self.result(I, st, e))
        case = "%s%s" % ("same" if al else "other", "" if sa == sb else "-mixed")
        self.hit("%s-%s" % (n, case))
        def bad(what):
            self.report(I, st, "%s:%s:%s" % (n, self.entry, case), what + " (%s, %s and %s)" % (
                "of the same channel" if al else "of different channels", "strong" if sa else "weak", "strong" if sb else "weak"))
        if n in ("same", "eq", "ne", "lt", "le", "gt", "ge"):
            if v[0] != "int":
                return
            b = bool(v[1])
            if n == "same" and b != al:
                bad("same_actor is %s for two handles" % b)
            elif n in ("eq", "ne") and b != (eq if n == "eq" else not eq):
                bad("%s is %s for two handles" % ("==" if n == "eq" else "!=", b))
            elif n in ("lt", "le", "gt", "ge"):
                o = G.get("o")
                if o is not None and b != {"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}[n]:
                    bad("the operator %s contradicts partial_cmp for two handles" % n)
            return
        o = ordval(I, st, v)
        if o is None:
            if variant_name(I, v) == "None":
                bad("two handles are not ordered")
            return
        if (o == 0) != eq:
            bad("the ordering says %s for two handles" % ("equal" if o == 0 else "different"))
        if n in ("cmp", "pcmp"):
            if n == "pcmp" and G.get("oc") is not None and G["oc"] != o:
                bad("partial_cmp contradicts cmp for two handles")
            G["o" if n == "pcmp" else "oc"] = o
        else:
            w = G.get("o" if n == "pcmpr" else "oc")
            if w is not None and w != -o:
                bad("swapping the sides does not reverse the ordering of two handles")

    def hashes(self, I, st):
        G = st.ghost
        a, b = G.get("ha", ()), G.get("h", ())
        if "eq" not in G:
            # handles of different types that are never compared
            if not (self.alias and self.strong(I, st, 0) == self.strong(I, st, 1)):
                return
        elif not G["eq"]:
            return
        self.hit("hash-equal")
        if any(x[0] == "?" for x in a + b):
            if len(a) != len(b):
                self.report(I, st, "hash:" + self.entry, "equal handles feed different values to the hasher")
            return
        if len(a) != len(b) or any(diff_bounds(st, x, y) != (0, 0) for x, y in zip(a, b)):
            self.report(I, st, "hash:" + self.entry, "equal handles feed different values to the hasher")

    def end(self, I, st):
        G = st.ghost
        if st.done[0] != "return" or "id3" not in self.entry:
            return
        ab, bc, ac = (G.get("o" + x) for x in ("ab", "bc", "ac"))
        if None in (ab, bc, ac):
            return
        self.hit("transitive")
        if (ab == 0 and ac != bc) or (bc == 0 and ac != ab) or (ab == bc and ac != ab):
            self.report(I, st, "transitive:" + self.entry, "the ordering is not transitive")


# ------------------------------------------------------------------ C08, C18
class Handle(Identity):
    rule = "same-channel"
    text = "a handle made from another one is of the same channel, and is as strong as asked"
    kinds = ()
    # entry -> handles in the result
    CHT = {"h_ch_new": 1, "h_ch_clone": 2, "h_ch_wclone": 2, "h_ch_downgrade": 2, "h_ch_edowngrade": 2, "h_ch_either": 2, "h_ch_weither": 2}
    ADT = {"h_addr_clone": 1, "h_waddr_clone": 1, "h_eaddr_clone": 1, "h_addr_downgrade": 1, "h_eaddr_downgrade": 1,
           "h_addr_either": 1, "h_waddr_either": 1, "h_eaddr_either": 1, "h_mailbox_address": 1, "h_mailbox_clone": 1,
           "h_new_unbounded": 2, "h_new_bounded": 2}

    def __init__(self, A, what="addr"):
        super().__init__(A, what)
        self.prop = "C08" if what == "addr" else "C18"
        self.table = self.ADT if what == "addr" else self.CHT
        self.entries = tuple(self.table)

    def run_entry(self, entry):
        self.explore(entry)

    def begin(self, I, st):
        st.ghost["keep"] = tuple(st.ghost["args"])

    def deep(self, I, st, v, d=0):
        v = I.norm(st, v)
        if v[0] == "u" and d < 8 and self.T[v[1]]["k"] in ("ref", "adt") and st.exp.get(v[2]) is None and self.T[v[1]].get("crate") == "xtra":
            v = I.force(st, v)
        yield v
        if v[0] == "adt":
            for x in v[3]:
                yield from self.deep(I, st, x, d + 1)
        elif v[0] == "tup":
            for x in v[1]:
                yield from self.deep(I, st, x, d + 1)
        elif v[0] in ("box", "ref") and v[1] in st.heap and d < 8:
            yield from self.deep(I, st, st.heap[v[1]], d + 1)

    def end(self, I, st):
        if st.done[0] != "return":
            return
        ats = [self.chan(I, st, a) for a in st.ghost["args"]]
        src = {c for x in ats for c in x}
        vals = list(self.deep(I, st, st.heap[st.ghost["ret"]]))
        got = self.chan(I, st, vals[0])
        want = self.table[self.entry]
        self.hit("same-channel")
        if len(got) != want:
            self.report(I, st, "handles:" + self.entry, "%d handles come out of %s, not %d" % (len(got), self.entry, want))
        elif len(set(got)) > 1 or (src and set(got) != src):
            self.report(I, st, "channel:" + self.entry, "%s makes a handle of another channel" % self.entry)
        if "either" not in self.entry:
            return
        weak = self.entry in ("h_ch_weither", "h_waddr_either")
        for w in vals:
            if w[0] == "adt" and w[1] >= 0 and self.T[w[1]]["ak"] == "enum" and self.T[w[1]]["crate"] == "xtra":
                n = variant_name(I, w)
                if n in ("Strong", "Weak"):
                    self.hit("strength")
                    if self.entry == "h_eaddr_either":
                        w0 = [x for x in self.deep(I, st, st.ghost["args"][0]) if x[0] == "adt" and x[1] == w[1]]
                        if len(w0) != 1:
                            continue
                        weak = variant_name(I, w0[0]) == "Weak"
                    if weak != (n == "Weak"):
                        self.report(I, st, "strength:" + self.entry, "%s makes a %s handle" % (self.entry, n.lower()))

    def chan(self, I, st, v):
        """the channels of the handles inside a value"""
        out = []
        for w in self.deep(I, st, v):
            if w[0] == "arc" and w[1] in st.heap:
                c = I.norm(st, st.heap[w[1]])
                t = c[1] if c[0] in ("adt", "u") else -1
                k = w[:2]
            elif w[0] == "u" and self.F.nkey(w[1]) == "std:Arc":
                t = self.T[w[1]]["a"][0]
                k = w
            else:
                continue
            if t >= 0 and self.T[t].get("crate") == "xtra":
                out.append(k)
        return out


# ------------------------------------------------------------------ C18
class SendKeeps(ChanMon):
    prop, rule = "C18", "send-keeps"
    text = ("a send through a message channel keeps the actor's strong addresses alive exactly as the same send through the address does: it "
            "changes the counters of the channel by the same amounts")
    kinds = ("atomic",)
    merge = False
    entries = ("h_send_keep", "h_wsend_keep", "h_esend_keep", "h_chsend_keep", "h_wchsend_keep", "h_echsend_keep")

    def run_entry(self, entry):
        self.data = []
        self.explore(entry)

    def on(self, I, st, e):
        w = self.A.which_counter(I, st, e[2])
        if w is None or e[1] in ("load", "cas_fail"):
            return
        n = None
        if e[1] in ("fetch_add", "fetch_sub"):
            a = I.num(st, e[3])
            if a is not None and a[0] == "int":
                n = a[1] if e[1] == "fetch_add" else -a[1]
        if n is None:
            st.ghost["odd"] = True
            return
        st.ghost["d%d" % w] = st.ghost.get("d%d" % w, 0) + n

    def end(self, I, st):
        if st.done[0] != "return" or st.ghost.get("odd"):
            return
        self.hit("compared")
        x = (st.ghost.get("d0", 0), st.ghost.get("d1", 0))
        if x not in self.data:
            self.data.append(x)

    def combine(self, results):
        d = {r["entry"]: set(map(tuple, r["data"] or ())) for r in results}
        for a, c in (("h_send_keep", "h_chsend_keep"), ("h_wsend_keep", "h_wchsend_keep"), ("h_esend_keep", "h_echsend_keep")):
            if d.get(a) and d.get(c) and d[a] != d[c]:
                self.viol.append(Violation(self.prop, self.rule, c,
                                           "a send through a message channel changes the counts of strong addresses and mailboxes by %s, a send through the "
                                           "address by %s" % (sorted(d[c]), sorted(d[a])), entry=c))
