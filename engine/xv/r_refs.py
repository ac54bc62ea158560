"""C08 reference counts, C09 last strong address, C10 last mailbox."""
from .core import *


def count_delta(I, st, e):
    """effect of an atomic event on the counter it is applied to -> int | None | "?" (unknown)"""
    k = e[1]
    if k == "fetch_add":
        return e[3][1] if e[3][0] == "int" else "?"
    if k == "fetch_sub":
        return -e[3][1] if e[3][0] == "int" else "?"
    if k in ("cas", "store", "swap"):
        new, old = (e[3][1], e[5]) if k == "cas" else (e[3], e[5])
        lo, hi = diff_bounds(st, new, old)
        return lo if lo == hi else "?"
    return None


class RefBalance(Mon):
    """Every handle operation changes the two counters by exactly the number of handles it creates or destroys."""
    prop, rule = "C08", "count-balance"
    text = ("for every operation that creates, clones, converts or destroys handles (or builds, polls and drops an "
            "operation's future), the net change of the strong-address and mailbox counters equals the net number of "
            "strong addresses / mailboxes that exist afterwards; counters only move by fetch_add/fetch_sub/CAS of one")
    kinds = ("atomic", "user")
    # entry -> function(result value) -> expected (strong, mailbox) change
    TABLE = {
        "h_addr_clone": (1, 0), "h_addr_drop": (-1, 0), "h_waddr_clone": (0, 0), "h_waddr_drop": (0, 0),
        "h_eaddr_clone": "strong", "h_eaddr_drop": "strongarg", "h_mailbox_drop": (0, -1),
        "h_addr_downgrade": (0, 0), "h_eaddr_downgrade": (0, 0), "h_addr_either": (1, 0), "h_waddr_either": (0, 0),
        "h_eaddr_either": "strong", "h_waddr_upgrade": "some", "h_mailbox_clone": (0, 1), "h_mailbox_address": (0, 0),
        "h_mailbox_next": (0, 1), "h_recv_new_drop": (0, 0), "h_message_drop": (0, -1),
        "h_new_unbounded": (1, 1), "h_new_bounded": (1, 1),
        "h_send_new_drop": (0, 0), "h_send_poll_drop": (0, 0), "h_wsend_poll_drop": (0, 0),
        "h_esend_poll_drop": (0, 0), "h_detached_poll_drop": (0, 0), "h_bcast_poll_drop": (0, 0),
        "h_chsend_poll_drop": (0, 0),
        "h_ch_new": (0, 0), "h_ch_drop": (-1, 0), "h_ch_clone": (1, 0), "h_ch_wclone": (0, 0),
        "h_ch_downgrade": (0, 0), "h_ch_either": (1, 0), "h_ch_weither": (0, 0), "h_ch_edowngrade": (0, 0),
        "h_len": (0, 0), "h_is_connected": (0, 0), "h_same_actor": (0, 0), "h_capacity": (0, 0),
        "h_join_new": (0, 0), "h_scoped_new": (0, 0), "h_stop_all": (0, 0), "h_dispatch_drop": (0, -1),
        "h_dispatch": (0, -1), "h_eq": (0, 0), "h_cmp": (0, 0), "h_hash": (0, 0),
        "h_sink_new": (0, 0), "h_sink_drop": (-1, 0), "h_sink_wdrop": (0, 0),
        "h_sink_chnew": (0, 0), "h_sink_chdrop": (-1, 0), "h_sink_chwdrop": (0, 0),
    }
    THOROUGH = {"h_recv_poll_drop": "recv"}

    def __init__(self, A, thorough=False):
        super().__init__(A)
        self.table = dict(self.TABLE)
        if thorough:
            self.table.update(self.THOROUGH)
        self.entries = tuple(self.table)

    def prepare(self, I):
        if self.entry.startswith("h_dispatch"):
            I.devirt = self.A.msgdyns

    def begin(self, I, st):
        self.tag(st, "d", 0, 0)

    def on(self, I, st, e):
        if e[0] == "user":
            if e[1] == "received":
                v = I.norm(st, I.read(st, e[2][1], e[2][2]))
                if variant_name(I, v) == "Ready":
                    self.tag(st, "ready")
            return
        d = count_delta(I, st, e)
        if d is None or d == 0:
            return
        w = self.A.which_counter(I, st, e[2])
        if w is None:
            return
        (_, a, b), = self.tagged(st, "d")
        if d == "?":
            self.report(I, st, "unknown-change:" + self.entry, "a reference counter is set to a value that does not "
                        "depend on the old one by a constant (%s)" % e[1], e[-1])
            return
        self.untag(st, "d")
        if w == 0:
            a += d
        else:
            b += d
        self.tag(st, "d", max(-4, min(4, a)), max(-4, min(4, b)))

    def ret(self, I, st):
        return st.heap.get(st.ghost["ret"])

    def strength(self, I, st, v):
        """is the Either address v strong?  by the reference-counter enum inside"""
        ra = None
        for w in deepwalk_lim(I, st, v):
            w = I.norm(st, w)
            if w[0] == "u" and self.T[w[1]]["k"] == "adt" and self.T[w[1]]["ak"] == "enum" and self.T[w[1]]["crate"] == "xtra":
                return "?"
            if w[0] == "adt" and w[1] >= 0 and self.T[w[1]]["ak"] == "enum" and self.T[w[1]]["crate"] == "xtra":
                n = variant_name(I, w)
                return n == "Strong" if n in ("Strong", "Weak") else None
        return None

    def end(self, I, st):
        if st.done[0] != "return":
            return
        exp = self.table[self.entry]
        (_, a, b), = self.tagged(st, "d")
        got = (a, b)
        self.hit("balance")
        where = ""
        if exp == "strong":
            s = self.strength(I, st, st.ghost["args"][0])
            r = self.ret(I, st)
            s2 = self.strength(I, st, r) if r is not None else None
            if s == "?":
                # neither the code nor the counters looked at the strength
                self.report(I, st, "either:" + self.entry, "the counters do not depend on whether the address is strong", where)
                return
            if s is None:
                return
            if s2 is not None and s2 != s:
                self.report(I, st, "strength:" + self.entry, "an address that %s strong is turned into one that %s" % (
                    "is" if s else "is not", "is" if s2 else "is not"))
            exp = (1 if s else 0, 0)
        elif exp == "strongarg":
            s = self.strength(I, st, st.ghost["args"][0])
            if s is None or s == "?":
                return
            exp = (-1 if s else 0, 0)
        elif exp == "some":
            r = I.norm(st, self.ret(I, st))
            if r[0] != "adt":
                return
            exp = (1 if r[2] == 1 else 0, 0)
        elif exp == "recv":
            r = self.tagged(st, "ready")
            exp = (0, 1 if r else 0)
        if got != exp:
            self.report(I, st, self.entry, "%s: the counters of strong addresses/mailboxes change by %s, but %s handles "
                        "are created/destroyed" % (self.entry, got, exp), where)


class Upgrade(Mon):
    """A weak address is upgraded only through a compare-and-swap from a non-zero count, and fails only at zero."""
    prop, rule = "C08", "upgrade"
    text = ("the strong count never leaves zero: a successful upgrade increments by an atomic read-modify-write whose old "
            "value is proved non-zero; a failing upgrade has read zero")
    kinds = ("atomic",)
    entries = ("h_waddr_upgrade", "h_stop_all")

    def begin(self, I, st):
        st.ghost["sc"] = self.A.counter_cell(I, st, 0, st.ghost["args"][0])

    def on(self, I, st, e):
        if e[2] != st.ghost.get("sc"):
            return
        if e[1] in ("fetch_add",):
            lo, hi = bounds(st, e[5])
            if lo < 1 and not self.tagged(st, "up"):
                self.hit("rmw")
                self.report(I, st, "resurrect:" + self.entry, "the strong count is incremented without proof that it was "
                            "not zero (check and increment are separate steps)", e[-1])
        elif e[1] in ("cas", "store", "swap"):
            self.hit("rmw")
            lo, hi = bounds(st, e[5])
            if lo < 1:
                self.report(I, st, "resurrect:" + self.entry, "the strong count can be incremented from zero", e[-1])
            self.tag(st, "up")
        elif e[1] in ("load", "cas_fail"):
            v = e[5]
            if bounds(st, v)[1] <= 0:
                self.tag(st, "zero")
            st.ghost["last"] = v
            st.ghost["keep"] = (v,)

    def end(self, I, st):
        if st.done[0] != "return" or self.entry != "h_waddr_upgrade":
            return
        r = I.norm(st, st.heap.get(st.ghost["ret"]))
        if r[0] != "adt":
            return
        if r[2] == 0:
            v = st.ghost.get("last")
            self.hit("none")
            if v is None or bounds(st, v)[1] > 0:
                self.report(I, st, "none-while-alive", "upgrading fails although the strong count was not seen to be zero")
        else:
            self.hit("some")


class LastStrong(Mon):
    """Dropping the last strong address tells every waiting receiver; dropping another one tells none."""
    prop, rule = "C09", "last-strong-drop"
    text = ("the drop that takes the strong count from one to zero empties the list of waiting receivers after the "
            "decrement, inside the lock, and sends each of them the shutdown signal; no other drop signals anybody")
    kinds = ("atomic", "lock", "unlock", "catty_send", "seq_take", "clear", "catty_tx_drop")
    entries = ("h_addr_drop", "h_ch_drop", "h_eaddr_drop")

    def begin(self, I, st):
        st.ghost["sc"] = self.A.counter_cell(I, st, 0, st.ghost["args"][0])

    def prepare(self, I):
        I.shape = {"wrx": 2}

    def on(self, I, st, e):
        if e[0] == "atomic":
            if e[2] != st.ghost.get("sc"):
                return
            if e[1] == "fetch_sub":
                st.ghost["old"] = e[5]
                st.ghost["keep"] = (e[5],)
                self.tag(st, "dec")
                if any(h[1] == "std" for h in st.held):
                    self.tag(st, "locked", "after")
        elif e[0] == "lock" and e[2] == "std":
            self.tag(st, "locked", "after" if self.tagged(st, "dec") else "before")
        elif e[0] == "catty_send":
            v = I.norm(st, e[2])
            self.tag(st, "sent", ("C", e[1]), v[2] if v[0] == "adt" else -1, "dec" if self.tagged(st, "dec") else "no")
        elif e[0] == "catty_tx_drop":
            self.tag(st, "dropped", ("C", e[1]))

    def end(self, I, st):
        if st.done[0] != "return":
            return
        old = st.ghost.get("old")
        sent = self.tagged(st, "sent")
        if old is None:
            if sent:
                self.report(I, st, "signal-without-drop:" + self.entry, "receivers are signalled although no strong address went away")
            return
        lo, hi = bounds(st, old)
        if lo == hi == 1:
            self.hit("last")
            if not self.tagged(st, "locked", "after"):
                self.report(I, st, "no-lock:" + self.entry, "the last strong address goes away without looking at the waiting receivers after the decrement")
                return
            sh = [w[1] for v in st.ghost.get("shapev_wrx", ()) for w in deepwalk_lim(I, st, v) if w[0] == "ctx"]
            if not sh:
                self.report(I, st, "unlooked:" + self.entry, "the list of waiting receivers is not even looked at when the last strong address goes away")
                return
            told = {t[1][1] for t in sent if t[3] == "dec"} | {t[1][1] for t in self.tagged(st, "dropped")}
            kinds = {t[2] for t in sent}
            miss = [c for c in sh if c not in told]
            if miss:
                self.report(I, st, "untold:" + self.entry, "a receiver that is waiting when the last strong address goes away is never told")
            self.A.shutdown_kinds |= kinds
        elif lo > 1 or hi < 1:
            self.hit("not-last")
            if sent:
                self.report(I, st, "early:" + self.entry, "waiting receivers are signalled although strong addresses remain")
        else:
            # the code did not distinguish: it must not have signalled
            self.hit("undistinguished")
            if sent:
                self.report(I, st, "early:" + self.entry, "waiting receivers are signalled whether or not strong addresses remain")
            else:
                self.report(I, st, "never:" + self.entry, "nothing happens when the last strong address goes away")
