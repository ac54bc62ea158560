"""C12 the run loop, C13 dispatch, C14 (an actor that stops itself), C20 select and join."""
from .core import *
from .interp import UNIT
from .natives import field_ty, adt_variant, waker_of
from .r_chan import ChanMon


def recv_fns(A):
    """the poll functions of what `Mailbox::next` returns"""
    F = A.F
    rts = set()
    for f in F.fns:
        if f["name"] == "next" and "body" in f and f["crate"] == "xtra" and f["self"] >= 0 and F.types[f["self"]].get("path", "").endswith("::Mailbox"):
            rts.add(f["body"]["locals"][0])
    return {i for i, f in enumerate(F.fns) if f["name"] == "poll" and "body" in f and f["self"] in rts}


def recv_poll(I, st, c):
    if I.choose(st, 2) == 0:
        v = st.ghost.get("_rv")
        if v is None:
            # (a step that splits is run again: the value stays the same)
            v = st.ghost["_rv"] = I.unk(st, field_ty(I, c.rty, "Ready"))
        I.event(st, "recv", v)
        del st.ghost["_rv"]
        return adt_variant(I, c.rty, "Ready", (v,))
    I.event(st, "recv_pending", c.args[1])
    return adt_variant(I, c.rty, "Pending", ())


def handle_drops(A):
    """the destructors of the handles of a channel (a struct that holds the channel itself)"""
    F, T = A.F, A.F.types
    out = set()

    def chan(t):
        d = A.roles.deep(t)
        return T[t]["k"] == "adt" and T[t]["crate"] == "xtra" and any(F.nkey(x) == "std:Mutex" for x in d) and any(F.nkey(x) == "std:Atomic" for x in d)
    for i, f in enumerate(F.fns):
        if f["name"] == "drop" and f["crate"] == "xtra" and "body" in f and f["self"] >= 0 and f["path"].endswith("::drop"):
            t = T[f["self"]]
            if t["k"] == "adt" and t["ak"] == "struct" and t["v"] and any(
                    F.nkey(ft) == "std:Arc" and chan(T[ft]["a"][0]) for _, ft in t["v"][0]["f"] if T[ft]["k"] == "adt" and T[ft]["a"]):
                out.add(i)
    return out


class _StopKinds(ChanMon):
    kinds = ("push",)

    def __init__(self, A):
        super().__init__(A)
        self.found = set()

    def on(self, I, st, e):
        for w in deepwalk_lim(I, st, e[4]):
            if w[0] in ("arc", "box") and isinstance(w[2], int) and self.F.vts[w[2]]["d"] in self.A.msgdyns:
                self.found.add(self.T[self.F.vts[w[2]]["c"]].get("path"))


def stopkinds(A):
    """types of the messages that stop_all sends"""
    r = getattr(A, "_stopkinds", None)
    if r is None:
        save, A.log = A.log, []
        m = _StopKinds(A)
        A.log = []
        m.explore("h_stop_all")
        A._stopall = not any(l.get("exhausted") for l in A.log)     # (otherwise some may not have been found)
        A.log = save
        r = A._stopkinds = m.found
    return r


SPAN = ("h_dispatch_span", "h_dispatch_span_later")


class Loop(ChanMon):
    kinds = ("user", "user_ready", "user_pending", "recv", "recv_pending", "catty_send")

    def __init__(self, A, what="run"):
        super().__init__(A)
        self.what = what
        self.recv = recv_fns(A)
        self.drops = handle_drops(A)
        self.stopk = stopkinds(A)
        if what == "run":
            self.prop, self.rule = "C12", "run-protocol"
            self.text = ("the start hook runs once before anything is handled; every received message is dispatched, and its handler done, "
                         "before the next is received; nothing is received after a message has stopped the actor; the stop hook runs then, "
                         "and only then, once, and its value (or the one the start hook failed with) is the result")
            self.entries = ("h_run", "h_run_default", "h_yield_once")
        elif what == "dispatch":
            self.prop, self.rule = "C13", "dispatch-protocol"
            self.text = ("dispatching calls the handler once, with the message, the actor and a context of the mailbox the message was received "
                         "from, then sends what it returned to whoever waits for that message, and asks to stop exactly if the handler did or the "
                         "message was a shutdown")
            self.entries = ("h_dispatch",) + SPAN
        elif what == "stop":
            self.prop, self.rule = "C14", "stop-request"
            self.text = ("a handler that asks to stop its own actor, and every message that stopping all sends, make the dispatch ask to stop; "
                         "asking to stop touches nothing but the handler's own context")
            self.entries = ("h_dispatch", "h_stop_self") + SPAN
        else:
            self.prop, self.rule = "C20", "interleaved-loop"
            self.text = ("while the future is not ready every received message is dispatched, one after the other, and both the future and "
                         "the receive have been polled whenever nothing is being handled; once it is ready its value is returned without waiting "
                         "for a further message; after a message stops the actor nothing more is received and (select) the unfinished "
                         "future is given back")
            self.entries = ("h_select", "h_join")

    def weight(self, e):
        return 3

    def prepare(self, I):
        I.devirt = self.A.msgdyns
        I.prim = {f: recv_poll for f in self.recv}
        I.prim.update({f: lambda I, st, c: UNIT for f in self.drops})

    def run_entry(self, entry):
        if entry == "h_stop_self":
            self.kinds = None
            return self.explore(entry)
        self.kinds = Loop.kinds
        return self.explore(entry)

    def bad(self, I, st, key, msg, where=""):
        if key == "break" and not self.A._stopall:
            return
        if self.what == "stop" and key not in ("break", "continue", "handler-at-shutdown"):
            return
        self.report(I, st, key + ":" + self.entry, msg, where)

    # --- what is in a message
    def openup(self, I, st, v, depth=0):
        v = I.norm(st, v)
        if v[0] == "u":
            t = self.T[v[1]]
            if not (t["k"] == "adt" and any(d in self.A.msgdyns for d in self.R.deep(v[1]))) and t["k"] != "tup":
                return v
            v = I.force(st, v)
        if v[0] == "adt" and depth < 6:
            for x in v[3]:
                self.openup(I, st, x, depth + 1)
        return v

    def named(self, tid, *names):
        t = self.T[tid]
        return t["k"] == "adt" and t["crate"] == "xv_harness" and t["path"].rsplit("::", 1)[-1] in names

    def ident(self, I, st, v):
        v0 = v
        while v0[0] == "u" and v0[2] in st.exp and st.exp[v0[2]][0] == "u":
            v0 = st.exp[v0[2]]
        return ("U", v0[2]) if v0[0] == "u" else ("V", str(I.norm(st, v0)))

    def deepvals(self, I, st, v, seen, depth=0):
        """raw (not normalised) values inside a value, through owned pointers"""
        if depth > 12:
            return
        yield v
        w = I.norm(st, v)
        if w[0] == "u":
            t = self.T[w[1]]
            if t["k"] == "tup" or (t["k"] == "adt" and t["ak"] == "struct" and t["crate"] == "xtra" or I.F.nkey(w[1]) in ("catty:Sender", "std:Arc", "spin:Mutex")):
                try:
                    w = I.expand(st, w)
                except Exception:
                    return
                yield w
        elif w is not v and w != v:
            yield w
        if w[0] == "adt":
            for x in w[3]:
                yield from self.deepvals(I, st, x, seen, depth + 1)
        elif w[0] == "tup":
            for x in w[1]:
                yield from self.deepvals(I, st, x, seen, depth + 1)
        elif w[0] in ("box", "arc") and w[1] not in seen and w[1] in st.heap:
            seen.add(w[1])
            if not self.A.is_chan(I, st, st.heap[w[1]]):
                yield from self.deepvals(I, st, st.heap[w[1]], seen, depth + 1)

    def arcs(self, I, st, v):
        """the shared parts of a channel that a value refers to"""
        out = []
        for w in self.deepvals(I, st, v, set()):
            if w[0] == "arc" and not isinstance(w[2], int):
                if w[1] not in out:
                    out.append(w[1])
        return out

    def received(self, I, st, v):
        v = self.openup(I, st, v)
        kind = "stop"
        cell = None
        for w in deepwalk_lim(I, st, v):
            if w[0] in ("box", "arc"):
                if isinstance(w[2], int):
                    d, c = self.F.vts[w[2]]["d"], self.F.vts[w[2]]["c"]
                    if d in self.A.msgdyns:
                        if self.T[c].get("path") in self.stopk:
                            kind = "stop"
                        else:
                            kind = "one" if w[0] == "box" else "all"
                            cell = w[1]
                        break
                elif isinstance(w[2], tuple) and w[2][0] == "dynu" and w[2][1] in self.A.msgdyns:
                    kind = "unknown"
                    break
        self.tag(st, "kind", kind)
        if kind == "stop":
            self.tag(st, "stopreq")
        elif kind == "unknown":
            self.tag(st, "unknown")
        else:
            self.tag(st, "have")
            for w in self.deepvals(I, st, st.heap[cell], set()):
                if w[0] == "u" and self.named(w[1], "Msg", "Bc"):
                    self.tag(st, "orig" if kind == "all" else "msg", self.ident(I, st, w))
                elif w[0] == "ctx":
                    self.tag(st, "tx", ("C", w[1]))
        for c in self.arcs(I, st, v):
            if c != cell:
                self.tag(st, "arc", ("C", c))

    def settle(self, I, st):
        """a message has been dealt with: was it?"""
        if self.tagged(st, "have"):
            self.bad(I, st, "unhandled", "a received message is not handled")
        elif self.tagged(st, "busy"):
            self.bad(I, st, "abandoned", "a handler is given up before it is done")
        elif self.tagged(st, "tx"):
            self.bad(I, st, "no-reply", "nobody is given the result of a handled message")
        for n in ("have", "busy", "tx", "msg", "orig", "arc", "done", "ret", "kind"):
            self.untag(st, n)

    def on(self, I, st, e):
        k = e[0]
        T = self.tagged
        if self.entry == "h_stop_self":
            if k in ("lock", "push", "pop", "catty_send", "notify", "atomic", "waker"):
                self.report(I, st, "stop-self-effect:" + k, "asking to stop one actor touches the channel (%s)" % k, e[-1] if isinstance(e[-1], str) else "")
            return
        if k == "recv":
            self.hit("received")
            self.settle(I, st)
            if T(st, "stopreq"):
                self.bad(I, st, "receive-after-stop", "a message is received after the actor was told to stop")
            if T(st, "stopped") or T(st, "err"):
                self.bad(I, st, "receive-after-end", "a message is received although the actor has stopped")
            if self.what == "run" and self.entry == "h_yield_once" and T(st, "once"):
                self.bad(I, st, "two-messages", "more than one message is received")
            if T(st, "fready"):
                self.tag(st, "late") if not T(st, "late") else None
            self.tag(st, "once")
            self.received(I, st, e[1])
        elif k == "recv_pending":
            self.tag(st, "rp")
        elif k == "user_pending":
            if e[1] == "?":
                self.tag(st, "fp")
        elif k == "user_ready":
            if e[1] == "?":
                self.hit("future-ready")
                if T(st, "fready"):
                    self.bad(I, st, "polled-again", "the future is polled again after it was ready")
                self.tag(st, "fready", self.ident(I, st, e[2]))
        elif k == "catty_send":
            if ("tx", ("C", e[1])) not in st.evset:
                return
            self.untag(st, "tx", ("C", e[1]))
            self.hit("reply")
            if not T(st, "done"):
                self.bad(I, st, "early-reply", "a reply is sent before the handler is done", e[-1])
            elif ("ret", self.ident(I, st, e[2])) not in st.evset and I.norm(st, e[2]) != ("tup", ()):     # (there is only one unit)
                self.bad(I, st, "other-reply", "the reply is not what the handler returned", e[-1])
        elif k == "user":
            self.user(I, st, e[1], e)

    def user(self, I, st, n, e):
        T = self.tagged
        if n == "message":
            self.received(I, st, self.raw(I, st, e))
        elif n == "started":
            self.hit("start")
            if T(st, "start"):
                self.bad(I, st, "started-twice", "the start hook is called twice")
            if T(st, "once"):
                self.bad(I, st, "started-late", "a message is received before the start hook is called")
            self.tag(st, "start")
        elif n == "started_ok":
            self.tag(st, "ok")
        elif n == "started_err":
            self.tag(st, "err")
            v = I.norm(st, self.raw(I, st, e))
            if v[0] == "adt" and v[3]:
                self.tag(st, "out", self.ident(I, st, v[3][0]))
        elif n == "stopped":
            self.hit("stop")
            if self.entry in ("h_run", "h_run_default"):
                self.settle(I, st)
                if T(st, "stopped"):
                    self.bad(I, st, "stopped-twice", "the stop hook is called twice")
                if T(st, "err"):
                    self.bad(I, st, "stopped-after-error", "the stop hook is called although the start hook failed")
                elif not T(st, "stopreq") and not T(st, "unknown"):
                    self.bad(I, st, "stopped-early", "the stop hook is called although nothing has told the actor to stop")
            else:
                self.bad(I, st, "stop-hook", "the stop hook is called")
            self.tag(st, "stopped")
        elif n == "stop_value":
            self.untag(st, "out")
            self.tag(st, "out", self.ident(I, st, self.raw(I, st, e)))
        elif n == "clone_src":
            self.untag(st, "src")
            if ("orig", self.ident(I, st, self.raw(I, st, e))) in st.evset:
                self.tag(st, "src")
        elif n == "clone_bc":
            if T(st, "src"):
                self.tag(st, "msg", self.ident(I, st, self.raw(I, st, e)))
            self.untag(st, "src")
        elif n in ("handle", "handle_bc"):
            self.hit(n)
            i = self.ident(I, st, self.raw(I, st, e))
            if T(st, "kind", "unknown"):
                return
            if self.entry == "h_run" and not T(st, "ok"):
                self.bad(I, st, "unstarted", "a message is handled before the start hook is done")
            if T(st, "kind", "stop"):
                self.bad(I, st, "handler-at-shutdown", "a handler is called for a shutdown")
            elif not T(st, "have"):
                self.bad(I, st, "handled-twice", "a message is handled twice")
            elif ("msg", i) not in st.evset and not (n == "handle_bc" and ("orig", i) in st.evset):
                self.bad(I, st, "other-message", "the handler is called with something else than the received message")
            if T(st, "busy"):
                self.bad(I, st, "overlap", "a message is handled while another one is being handled")
            self.untag(st, "have")
            self.tag(st, "busy")
        elif n == "handle_act":
            if self.what == "dispatch":
                c, p, m = I.deref(st, I.force(st, e[2]))
                a = I.force(st, st.ghost["args"][1])
                if a[0] == "ref" and a[1] != c:
                    self.bad(I, st, "other-actor", "the handler is called on another actor")
        elif n == "handle_ctx":
            if T(st, "kind"):
                have = {t[1][1] for t in T(st, "arc")}
                got = set(self.arcs(I, st, self.raw(I, st, e)))
                self.hit("context")
                if have and got != have:
                    self.bad(I, st, "other-context", "the handler is given a context of another mailbox than the message was received from")
        elif n == "stop_self":
            self.tag(st, "stopreq")
            self.tag(st, "asked")
        elif n in ("handled", "handled_bc"):
            self.untag(st, "busy")
            self.tag(st, "done")
            if n == "handled":
                self.tag(st, "ret", self.ident(I, st, self.raw(I, st, e)))
        elif n == "suspended":
            self.suspended(I, st)

    def raw(self, I, st, e):
        c, p, m = I.deref(st, I.force(st, e[2]))
        return I.read(st, c, p)

    def suspended(self, I, st):
        T = self.tagged
        if self.what == "select":
            self.hit("suspended")
            if not T(st, "busy"):
                if T(st, "fready"):
                    self.bad(I, st, "waits-on", "the future is ready but its value is not returned")
                else:
                    if not T(st, "fp"):
                        self.bad(I, st, "future-unpolled", "suspends without having polled the future")
                    if not T(st, "rp") and not T(st, "stopreq"):
                        self.bad(I, st, "receive-unpolled", "suspends without having polled the receive")
            if T(st, "stopreq") and not T(st, "busy") and self.entry == "h_select":
                self.bad(I, st, "select-after-stop", "waits on although the actor was told to stop")
        self.untag(st, "fp")
        self.untag(st, "rp")

    def end(self, I, st):
        T = self.tagged
        if st.done[0] == "panic" and self.entry != "h_stop_self" and T(st, "busy"):
            self.bad(I, st, "abandoned", "the operation panics while a message is being handled, although it is used as it should be")
        if st.done[0] != "return" or self.entry == "h_stop_self":
            return
        ret = I.norm(st, st.heap.get(st.ghost["ret"]))
        self.hit("return")
        self.settle(I, st)
        rn = variant_name(I, ret)
        if self.entry in ("h_run", "h_run_default"):
            out = [t[1] for t in T(st, "out")]
            if not T(st, "stopped") and not T(st, "err"):
                self.bad(I, st, "no-stop-hook", "running ends without the stop hook")
            if out and self.ident(I, st, st.heap[st.ghost["ret"]]) not in out:
                self.bad(I, st, "other-value", "running an actor does not yield what the hook returned")
            if self.entry == "h_run" and not T(st, "start"):
                self.bad(I, st, "unstarted", "the start hook is not called")
        elif self.entry in ("h_yield_once", "h_dispatch"):
            if self.entry == "h_yield_once" and not T(st, "once"):
                self.bad(I, st, "no-message", "ends without having received a message")
            if T(st, "unknown"):
                return
            if rn is None:
                return
            if T(st, "stopreq") and rn != "Break":
                self.bad(I, st, "continue", "does not ask to stop although the actor was told to")
            if not T(st, "stopreq") and rn == "Break":
                self.bad(I, st, "break", "asks to stop although nothing told the actor to")
        else:
            f = [t[1] for t in T(st, "fready")]
            if self.entry == "h_join":
                if not f:
                    self.bad(I, st, "early", "join ends before the future is ready")
                elif self.ident(I, st, st.heap[st.ghost["ret"]]) not in f:
                    self.bad(I, st, "other-value", "join does not yield the future's result")
                return
            if rn == "Left":
                if not f or self.ident(I, st, ret[3][0]) not in f:
                    self.bad(I, st, "other-value", "select yields something else than the future's result")
            elif rn == "Right":
                if f:
                    self.bad(I, st, "result-lost", "select gives the future back although it was ready")
                if not T(st, "stopreq"):
                    self.bad(I, st, "early", "select gives up although nothing told the actor to stop")
