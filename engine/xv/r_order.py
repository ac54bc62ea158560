"""Order of messages: C01 first in first out, C02 priority, C03 admission order, C21 the requested priority."""
from .core import *
from .interp import Interp, MOVED, UNIT
from .natives import seqlen
from .r_chan import ChanMon
from .r_bcast import BqMon
from .r_out import StateMon
from . import natives as N


def subrun(I, st, fid, args):
    """the results of calling a function in (a copy of) an abstract state: [(state, value)]"""
    J = Interp(I.F, N, None, budget_steps=20000, budget_paths=500, budget_time=20.0)
    J.merge = True
    J.seqrole = I.seqrole
    J.devirt = I.devirt
    s2 = st.copy()
    s2.frames = []
    s2.ev = None
    s2.ch = ()
    s2.ghost = {k: v for k, v in st.ghost.items() if k in ("keep", "dead")}
    retc = s2.cell(MOVED)
    s2.ghost["ret"] = retc
    s2.ghost["args"] = tuple(args)
    out = []
    J.finish = lambda s: out.append((s, s.heap.get(retc)))
    J.call_fn(s2, fid, list(args), (retc, ()))
    J.explore(s2)
    if J.exhausted or any(s.done[0] != "return" for s, _ in out):
        out = [(s, v) for s, v in out if s.done[0] == "return"]
        if J.exhausted:
            return None
    return [(J, s, v) for s, v in out]


def ordval(I, st, v):
    """-1 / 0 / 1 / None of an Ordering (or Option<Ordering>)"""
    v = I.norm(st, v)
    if v[0] == "ord":
        return v[1]
    if v[0] == "adt":
        n = variant_name(I, v)
        if n == "Some":
            return ordval(I, st, v[3][0])
        return {"Less": -1, "Equal": 0, "Greater": 1}.get(n)
    return None


# ------------------------------------------------------------------ fields that only grow
class _Grow(ChanMon):
    kinds = ("lock", "unlock")

    def __init__(self, A):
        super().__init__(A)
        self.bad = set()
        self.seen = set()

    def on(self, I, st, e):
        if e[2] != "std":
            return
        if e[0] == "lock":
            iv = tuple((p, v if v[0] in ("int", "lin") else I.force(st, v)) for p, v in sorted(self.ints(I, st, e[1]).items()))
            st.ghost["ints"] = iv
            st.ghost["keep"] = tuple(v for _, v in iv)
        else:
            if e[1] not in st.heap:
                return
            now = self.ints(I, st, e[1])
            for p, v in st.ghost.get("ints", ()):
                self.seen.add(p)
                w = now.get(p)
                w = I.num(st, w) if w is not None else None
                if w is None or w[0] not in ("int", "lin") or not entails_le(st, v, w):
                    self.bad.add(p)


def growing(A):
    """integer fields of the lock content that no operation ever lowers"""
    r = getattr(A, "_grow", None)
    if r is None:
        save, A.log = A.log, []
        m = _Grow(A)
        for e in ("h_send_first", "h_bcast_first", "h_stop_all", "h_recv_first", "h_recv_drop", "h_mailbox_drop", "h_mailbox_clone",
                  "h_addr_drop", "h_len"):
            if not m.missing(e):
                m.explore(e)
        A.log = save
        r = A._grow = frozenset(m.seen - m.bad)
    return r


class Pairs(ChanMon):
    """two messages queued one after the other: how the queue orders them"""
    kinds = ("lock", "unlock", "push")
    TWO = ("h_send_two", "h_chsend_two", "h_bcast_two")
    PRIO = ("h_prio_default", "h_prio_bdefault", "h_prio_chdefault", "h_prio_mixed", "h_prio_detach", "h_prio_again", "h_prio_bagain", "h_prio_chagain", "h_prio_weak", "h_prio_sinkdefault", "h_prio_sinkchdefault")
    STOP = ("h_bcast_stop",)

    def __init__(self, A, what="fifo"):
        super().__init__(A)
        self.what = what
        if what == "fifo":
            self.prop, self.rule = "C01", "fifo"
            self.text = ("of two messages queued one after the other with equal priority, the queue's own comparison puts the first before "
                         "the second, whatever happened in between")
            self.entries = self.TWO
        elif what == "prio":
            self.prop, self.rule = "C02", "queue-order"
            self.text = ("of two queued messages with different priorities, the queue's own comparison puts the one with the higher "
                         "priority first; a shutdown comes before every message")
            self.entries = self.TWO + self.STOP
        else:
            self.prop, self.rule = "C21", "requested-priority"
            self.text = ("however the priority is given (or left out), the queue's own comparison of the message with another one agrees "
                         "with the priorities asked for")
            self.entries = self.PRIO + self.TWO
        self.grow = growing(A)

    def prepare(self, I):
        I.shape = {"bqs": 1}

    def rekeep(self, st):
        g = st.ghost
        st.ghost["keep"] = tuple(x for n in ("e1", "e2") if g.get(n) is not None for x in (g[n],)) + tuple(
            v for _, v in g.get("low", ())) + tuple(g["args"])

    def on(self, I, st, e):
        k = e[0]
        if k == "lock":
            if e[2] != "std":
                return
            # nobody else lowers these fields
            now = self.ints(I, st, e[1])
            for p, v in st.ghost.get("low", ()):
                w = now.get(p)
                if w is None:
                    continue
                w = I.force(st, w) if w[0] == "u" else w
                p2 = parts(comb(w, v, -1))
                if p2 is not None and p2[1]:
                    st.zone.add(p2[1], -p2[0], INF)
        elif k == "unlock":
            if e[2] != "std" or e[1] not in st.heap:
                return
            low = []
            now = self.ints(I, st, e[1])
            for p in sorted(self.grow):
                v = now.get(p)
                v = I.num(st, v) if v is not None else None
                if v is not None and v[0] in ("int", "lin"):
                    low.append((p, v))
            st.ghost["low"] = tuple(low)
            self.rekeep(st)
        else:
            if self.R.seqrole(e[-2]) not in ("uq", "bq"):
                return
            if "e1" not in st.ghost:
                st.ghost["e1"] = e[4]
                st.ghost["s1"] = e[-2]
                self.rekeep(st)
            elif "e2" not in st.ghost:
                st.ghost["e2"] = e[4]
                self.judge(I, st, st.ghost["e1"], e[4], e[-2], e[-1])

    def priorities(self, I, st):
        a = st.ghost["args"]
        f = self.F.fns[self.F.entries[self.entry]]["body"]["locals"]
        ints = [I.force(st, a[i]) for i in range(len(a)) if self.T[f[1 + i]]["k"] == "int"]
        if self.entry in self.STOP:
            return ints[0], None
        if "default" in self.entry:
            return ("int", 0), ints[0]
        return ints[0], ints[1]

    def judge(self, I, st, v1, v2, tid, where):
        o = [x for x in self.F.ords if x["coll"] == tid]
        if not o or st.ghost.get("s1") != tid:
            return
        fns = o[0]["fns"]
        p, q = self.priorities(I, st)
        # (constraint, does the second come before the first?)
        cases = []
        if q is None:
            cases.append((None, 1))
        else:
            d = comb(q, p, -1)
            if self.what in ("fifo", "req"):
                cases.append(((d, 0, 0), -1))
            if self.what in ("prio", "req"):
                cases.append(((d, 1, INF), 1))
                cases.append(((d, -INF, -1), -1))
        c1, c2 = None, None
        for con, want in cases:
            s = st.copy()
            if con is not None:
                pp = parts(con[0])
                if pp is None:
                    continue
                lo = con[1] - pp[0] if con[1] > -INF else -INF
                hi = con[2] - pp[0] if con[2] < INF else INF
                if not pp[1]:
                    if not (lo <= 0 <= hi):
                        continue
                elif not s.zone.add(pp[1], lo, hi):
                    continue
            c1 = s.cell(v1)
            c2 = s.cell(v2)
            a1, a2 = ("ref", c1, (), None), ("ref", c2, (), None)
            for name in ("le", "lt", "ge", "gt", "cmp", "partial_cmp"):
                if name not in fns:
                    continue
                for x, y, w in ((a2, a1, want), (a1, a2, -want)):
                    if name in ("le", "ge", "lt", "gt"):
                        exp = {"le": w <= 0, "ge": w >= 0, "lt": w < 0, "gt": w > 0}[name]
                    else:
                        exp = w
                    rs = subrun(I, s, fns[name], [x, y])
                    if not rs:
                        continue
                    self.hit("%s-%s" % (name, "equal" if con and con[1] == con[2] == 0 else "before" if want > 0 else "after"))
                    for J, s3, r in rs:
                        if s3.ghost.get("imprecise"):
                            continue
                        if name in ("le", "ge", "lt", "gt"):
                            r = J.norm(s3, r)
                            got = bool(r[1]) if r[0] == "int" else None
                        else:
                            got = ordval(J, s3, r)
                        if got is not exp and got != exp or got is None:
                            self.bad(I, st, want, con, where)
                            return

    def bad(self, I, st, want, con, where):
        if con is None:
            self.report(I, st, "shutdown:" + self.entry, "a message may come before a shutdown", where)
        elif con[1] == con[2] == 0:
            self.report(I, st, "order:" + self.entry, "two messages of equal priority may be taken out in the wrong order", where)
        else:
            self.report(I, st, "prio:" + self.entry, "a message of lower priority may be taken out before one of higher priority", where)


# ------------------------------------------------------------------ C02: the choice between the two queues
def prio_values(I, st, cells):
    """priorities read so far of the messages in some cells"""
    return [v for (k, c, *_), v in ((m, v) for m, v in st.memo.items() if m[0] == "dynget") if c in cells]


def prio_cmp(F, I, st, a, b):
    """possible results of comparing two priorities: a set of -1/0/1, or None"""
    t = next((x[1] for x in (a, b) if x[0] in ("adt", "u")), -1)
    if t < 0:
        if a[0] in ("int", "lin") and b[0] in ("int", "lin"):
            lo, hi = diff_bounds(st, a, b)
            return {x for x in (-1, 0, 1) if (x < 0 and lo < 0) or (x == 0 and lo <= 0 <= hi) or (x > 0 and hi > 0)}
        return None
    fid = cmp_fn(F, t)
    if fid is None:
        return None
    s = st.copy()
    ca, cb = s.cell(a), s.cell(b)
    rs = subrun(I, s, fid, [("ref", ca, (), None), ("ref", cb, (), None)])
    if not rs:
        return None
    return {ordval(J, s3, v) for J, s3, v in rs}


def cmp_fn(F, tid):
    if not hasattr(F, "_cmpfn"):
        F._cmpfn = {}
        for i, f in enumerate(F.fns):
            if f["name"] in ("cmp", "partial_cmp") and "body" in f and f["self"] >= 0 and f["path"].startswith("core::cmp::") or \
                    f["name"] in ("cmp", "partial_cmp") and "body" in f and f["self"] >= 0:
                if f["name"] == "cmp" or f["self"] not in F._cmpfn:
                    F._cmpfn[f["self"]] = i
    return F._cmpfn.get(tid)


class Choice(BqMon):
    prop, rule = "C02", "choice-between-queues"
    text = ("a receive that takes a message out of one of its two queues has, in the same critical section, found the other one empty or "
            "its first message not higher in priority (except when it was woken for a broadcast)")
    kinds = ("pop", "peek", "lock", "unlock", "catty_recv")
    entries = ("h_recv_first", "h_recv_again")

    def on(self, I, st, e):
        k = e[0]
        if k == "catty_recv":
            self.tag(st, "woken")
        elif k == "lock":
            if e[2] == "std":
                st.ghost.pop("pk_uq", None)
                st.ghost.pop("pk_bq", None)
                st.ghost.pop("ln_bq", None)
                st.ghost["keep"] = ()
        elif k == "unlock":
            if e[2] == "std":
                self.untag(st, "woken")
            elif e[1] in st.heap:
                v = I.norm(st, st.heap[e[1]])
                if v[0] == "seq" and self.R.seqrole(v[1]) == "bq" and any(h[1] == "std" for h in st.held):
                    if "first_bq" not in st.ghost or st.ghost["first_bq"] == e[1]:
                        st.ghost["ln_bq"] = seqlen(v)
                        self.rekeep(st)
        elif k == "peek":
            r = self.R.seqrole(e[-2])
            if r in ("uq", "bq"):
                st.ghost["pk_" + r] = st.heap[e[3]]
                self.rekeep(st)
        else:
            r = self.R.seqrole(e[-2])
            cc = self.inner_cell(st)
            if r not in ("uq", "bq") or cc is None or self.tagged(st, "woken"):
                return
            o = "bq" if r == "uq" else "uq"
            if o == "uq":
                q = self.seqs(I, st, cc).get("uq")
                empty = q is not None and q[0] == "seq" and entails_le(st, seqlen(q), ("int", 0))
            else:
                n = st.ghost.get("ln_bq")
                empty = n is not None and bounds(st, n)[1] <= 0
            if empty:
                self.hit("other-empty-" + r)
                return
            t = st.ghost.get("pk_" + o)
            if t is None:
                self.report(I, st, "unlooked:" + o, "a message is taken out of one queue without looking at the other one", e[-1])
                return
            mine = prio_values(I, st, set(self.msgcells(I, st, e[4])))
            other = prio_values(I, st, set(self.msgcells(I, st, t)))
            self.hit("compared-" + r)
            if not mine or not other:
                self.report(I, st, "uncompared:" + r, "a message is taken out of one queue although the other one is not empty, "
                            "without comparing the priorities", e[-1])
                return
            res = prio_cmp(self.F, I, st, mine[0], other[0])
            if res is None or None in res:
                return
            if -1 in res:
                self.report(I, st, "lower:" + r, "a message is taken out although one of a higher priority may be first in the other queue", e[-1])

    def rekeep(self, st):
        st.ghost["keep"] = tuple(st.ghost[n] for n in ("pk_uq", "pk_bq", "ln_bq") if st.ghost.get(n) is not None)


# ------------------------------------------------------------------ C03
class _Dir(ChanMon):
    """at which end of its queue a send that has to wait is put"""
    kinds = ("push",)

    def __init__(self, A):
        super().__init__(A)
        self.seen = set()

    def on(self, I, st, e):
        r = self.R.seqrole(e[-2])
        if r in ("wtx1", "wtxa"):
            self.seen.add((r, e[5], short(e[-1])))


def waitdirs(A):
    r = getattr(A, "_waitdirs", None)
    if r is None:
        save, A.log = A.log, []
        m = _Dir(A)
        for e in ("h_send_first", "h_bcast_first"):
            if not m.missing(e):
                m.explore(e)
        A.log = save
        r = A._waitdirs = frozenset(m.seen)
    return r


class AdmitOrder(StateMon):
    prop, rule = "C03", "admission-order"
    text = ("the waiting sender whose message is taken is, among those that still wait, proved to have a priority not lower than any "
            "other's and higher than that of every one that has waited longer")
    kinds = ("lock", "unlock", "push", "pop")
    entries = ("h_recv_first",)
    N = 2

    def __init__(self, A, n=2):
        super().__init__(A)
        self.n = int(n)

    def weight(self, e):
        return 20

    def run_entry(self, entry):
        for role in ("wtx1", "wtxa"):
            self.role = role
            ends = {x for r, x, _ in waitdirs(self.A) if r == role}
            # the queue is kept in the order of waiting: from its front to its back, or the other way round
            self.rev = ends == {"front"}
            self.mixed = len(ends - {"mid"}) > 1
            self.explore(entry)

    def prepare(self, I):
        o = "wtxa" if self.role == "wtx1" else "wtx1"
        I.shape = {self.role: self.n, o: 0, "bqs": 1 if self.role == "wtx1" else 1}

    def waiting(self, I, st):
        """the shaped waiting senders, longest waiting first: (cell of the shared state's content, dead?)"""
        out = []
        sh = st.ghost.get("shapev_" + self.role, ())
        for v in sh[::-1] if self.rev else sh:
            c = None
            arc = None
            for p, w in walk(I, st, v):
                if w[0] == "weak":
                    arc = w[1]
            if arc is not None and arc in st.heap:
                for p, w in walk(I, st, st.heap[arc]):
                    if w[0] == "mutex":
                        c = w[1]
            out.append((arc, c, arc in st.ghost.get("dead", ())))
        return out

    def on(self, I, st, e):
        if e[0] == "pop":
            if self.R.seqrole(e[-2]) == self.role:
                self.hit("removed")
                if str(e[5]).startswith("swap_remove"):
                    self.report(I, st, "reordered:" + self.role, "taking a waiting sender out of its queue moves another one "
                                "ahead of those that have waited longer", e[-1])
                if self.mixed:
                    self.report(I, st, "two-ends:" + self.role, "senders that have to wait are put at both ends of their queue", e[-1])
            return
        if e[0] == "push":
            return
        if e[0] == "lock":
            if e[2] == "spin" and self.wstate(e[3]):
                st.ghost["s%d" % e[1]] = st.heap[e[1]]
                st.ghost["keep"] = tuple(v for k, v in st.ghost.items() if isinstance(k, str) and k[0] == "s" and k[1:].isdigit())
            return
        if e[0] != "unlock":
            return
        v0 = st.ghost.pop("s%d" % e[1], None)
        if v0 is None:
            return
        v0 = I.norm(st, v0)
        v1 = I.norm(st, st.heap[e[1]])
        mine = set(self.msgcells(I, st, v0)) if v0[0] == "adt" else set()
        if not mine or v1[0] != "adt" or mine & set(self.msgcells(I, st, v1)):
            # remember what the state was when it was last looked at
            st.ghost["l%d" % e[1]] = v1
            return
        W = self.waiting(I, st)
        k = [i for i, w in enumerate(W) if w[1] == e[1]]
        if not k:
            return
        k = k[0]
        if self.tagged(st, "taken"):
            return
        self.tag(st, "taken")
        p0 = prio_values(I, st, mine)
        for i, (arc, c, dead) in enumerate(W):
            if i == k or dead:
                continue
            if c is None:
                self.report(I, st, "unlooked:" + self.role, "a waiting sender is admitted without looking at another one", e[-1])
                continue
            v = I.norm(st, st.heap.get(c, ("moved",)))
            if v[0] == "adt" and not self.msgcells(I, st, v):
                self.hit("not-waiting")
                continue
            self.hit("before" if i < k else "after")
            other = prio_values(I, st, set(self.msgcells(I, st, v))) if v[0] == "adt" else []
            if not p0 or not other:
                self.report(I, st, "uncompared:" + self.role, "a waiting sender is admitted without comparing its priority with "
                            "that of another one that still waits", e[-1])
                continue
            res = prio_cmp(self.F, I, st, p0[0], other[0])
            if res is None or None in res:
                continue
            if -1 in res:
                self.report(I, st, "lower:" + self.role, "a waiting sender is admitted although one with a higher priority still waits", e[-1])
            elif 0 in res and i < k:
                self.report(I, st, "later:" + self.role, "a waiting sender is admitted although one of the same priority has waited longer", e[-1])
