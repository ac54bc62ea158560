"""C25 the derived actor, C26 spawning."""
from .core import *
from .r_loop import Loop, field_ty, adt_variant


class Spawn(Loop):
    rule = "spawn"
    text = ("spawning hands one task to the runtime and lets it run on; that task is the run loop of the given actor on the given mailbox (it "
            "follows the protocol of running an actor), nothing of the actor runs before the task does; the given address is returned")
    kinds = Loop.kinds + ("drop_opaque",)

    def __init__(self, A):
        super().__init__(A, "run")
        self.prop, self.rule = "C26", Spawn.rule
        self.text = Spawn.text
        self.entries = ("h_spawn_tokio", "h_spawn_async_std", "h_spawn_smol", "h_spawn_wasm")
        self.droptys = {self.F.fns[f]["self"] for f in self.drops}

    def run_entry(self, entry):
        self.kinds = Spawn.kinds
        return self.explore(entry)

    def prepare(self, I):
        super().prepare(I)

        def recv(I, st, c):
            if I.choose(st, 2) == 0:
                v = st.ghost.get("_rv")
                if v is None:
                    v = st.ghost["_rv"] = I.unk(st, field_ty(I, c.rty, "Ready"))
                I.event(st, "recv", v, c.args[0])
                del st.ghost["_rv"]
                return adt_variant(I, c.rty, "Ready", (v,))
            I.event(st, "recv_pending", c.args[1], c.args[0])
            return adt_variant(I, c.rty, "Pending", ())
        I.prim.update({f: recv for f in self.recv})

    def begin(self, I, st):
        a = st.ghost["args"]
        st.ghost["keep"] = tuple(a)
        act = I.expand(st, a[0]) if a[0][0] == "u" else a[0]
        st.ghost["act"] = self.flat(I, st, a[0])

    def flat(self, I, st, v):
        """what identifies an actor: its fields"""
        v = I.norm(st, v)
        if v[0] == "adt":
            return tuple(self.flat(I, st, x) for x in v[3])
        return v

    def owned(self, I, st, v, depth=0):
        """the values owned by a value, captured ones included"""
        v = I.norm(st, v)
        if v[0] == "u":
            t = self.T[v[1]]
            if depth > 10 or not (t["k"] in ("tup", "clo") or (t["k"] == "adt" and t["ak"] == "struct" and t["crate"] in ("xtra", "core", "std"))):
                yield v
                return
            try:
                v = I.expand(st, v)
            except Exception:
                return
        yield v
        if depth > 14:
            return
        kids = ()
        if v[0] == "adt":
            kids = v[3]
        elif v[0] == "tup":
            kids = v[1]
        elif v[0] == "clo":
            kids = v[2]
        elif v[0] == "cor":
            kids = list(v[3]) + [x for _, x in v[4]]
        elif v[0] == "box" and v[1] in st.heap:
            kids = (st.heap[v[1]],)
        for x in kids:
            yield from self.owned(I, st, x, depth + 1)

    def handles(self, I, st, v):
        """the types of the handles of a channel that a value owns"""
        return {w[1] for w in self.owned(I, st, v) if w[0] in ("adt", "u") and w[1] in self.droptys}

    def on(self, I, st, e):
        k = e[0]
        T = self.tagged
        if k in ("recv", "recv_pending"):
            if not T(st, "task"):
                self.bad(I, st, "outside", "the actor is not run as a task of its own")
            want = set(self.arcs(I, st, st.ghost["args"][2]))
            c, p, m = I.deref(st, I.force(st, e[2]))
            v = I.read(st, c, p)
            self.hit("mailbox")
            if want and not set(self.arcs(I, st, v)) <= want:
                self.bad(I, st, "mailbox", "the actor is run on another mailbox than the given one")
        elif k == "user":
            n = e[1]
            if n == "spawned":
                if T(st, "spawned"):
                    self.bad(I, st, "twice", "two tasks are spawned")
                self.hit("task")
                self.tag(st, "spawned")
                strong = self.handles(I, st, st.ghost["args"][1]) - self.handles(I, st, st.ghost["args"][2])
                c, p, m = I.deref(st, I.force(st, e[2]))
                if strong & self.handles(I, st, I.read(st, c, p)):
                    self.bad(I, st, "keeps", "the task keeps an address of its own actor, which never stops by itself then")
                self.tag(st, "task")
                return
            if n == "task_done":
                self.hit("task-done")
                self.untag(st, "task")
                if not T(st, "stopped") and not T(st, "err"):
                    self.bad(I, st, "no-stop-hook", "the task ends without the stop hook")
                return
            if n == "to_detach":
                self.tag(st, "undetached")
                return
            if n == "detached":
                self.untag(st, "undetached")
                return
            if n == "cancelled":
                self.bad(I, st, "cancelled", "the spawned task is cancelled")
                return
            if n in ("started", "stopped", "handle"):
                if not T(st, "task"):
                    self.bad(I, st, "outside", "the actor is not run as a task of its own")
                if n in ("started",):
                    c, p, m = I.deref(st, I.force(st, e[2]))
                    self.hit("actor")
                    if self.flat(I, st, I.read(st, c, p)) != st.ghost["act"]:
                        self.bad(I, st, "actor", "another actor than the given one is run")
            if n == "stopped":
                self.settle(I, st)
                if T(st, "stopped"):
                    self.bad(I, st, "stopped-twice", "the stop hook is called twice")
                if T(st, "err"):
                    self.bad(I, st, "stopped-after-error", "the stop hook is called although the start hook failed")
                elif not T(st, "stopreq") and not T(st, "unknown"):
                    self.bad(I, st, "stopped-early", "the stop hook is called although nothing has told the actor to stop")
                self.tag(st, "stopped")
                return
        super().on(I, st, e)

    def end(self, I, st):
        if st.done[0] != "return":
            return
        T = self.tagged
        self.hit("return")
        if not T(st, "spawned"):
            self.bad(I, st, "unspawned", "no task is spawned")
        if T(st, "undetached"):
            self.bad(I, st, "undetached", "the task is cancelled when the call returns: it is not detached")
        a = self.arcs(I, st, st.ghost["args"][1])
        b = self.arcs(I, st, st.heap[st.ghost["ret"]])
        if a and set(a) != set(b):
            self.bad(I, st, "address", "the address that is returned is not the given one")
        self.hit("address")


class Derived(Mon):
    prop, rule = "C25", "derived"
    text = ("the derived start hook succeeds at once and the derived stop hook does nothing but destroy the actor, each of its parts once; neither "
            "touches the mailbox or waits")
    merge = False
    entries = ("h_der_stop_t", "h_der_stop_g", "h_der_stop_e", "h_der_stop_n", "h_der_start_t", "h_der_start_g", "h_der_start_e")
    EFFECTS = ("lock", "push", "pop", "atomic", "notify", "catty_send", "waker", "wake", "listen", "dyncall")

    def on(self, I, st, e):
        k = e[0]
        if k == "user" and e[1] in ("drop_tok", "drop_actor"):
            c, p, m = I.deref(st, I.force(st, e[2]))
            self.hit("destroyed")
            if "start" in self.entry:
                self.report(I, st, "start-destroys:" + self.entry, "the derived start hook destroys a part of the actor")
            st.ghost["n"] = st.ghost.get("n", 0) + 1
        elif k == "user" and e[1] == "suspended":
            self.report(I, st, "waits:" + self.entry, "a derived hook waits")
        elif k in self.EFFECTS or k == "user":
            self.report(I, st, "effect:" + self.entry, "a derived hook has an effect (%s)" % k, e[-1] if isinstance(e[-1], str) else "")

    def end(self, I, st):
        if st.done[0] != "return":
            return
        self.hit("return")
        if "start" in self.entry:
            r = I.norm(st, st.heap[st.ghost["ret"]])
            if variant_name(I, r) != "Ok":
                self.report(I, st, "start-fails:" + self.entry, "the derived start hook may fail")
            return
        n = st.ghost.get("n", 0)
        want = {"h_der_stop_t": (1,), "h_der_stop_g": (2,), "h_der_stop_e": (0, 1, 2), "h_der_stop_n": (2,)}[self.entry]
        if n not in want:
            self.report(I, st, "parts:" + self.entry, "the derived stop hook destroys %d parts of the actor, which has %d" % (n, want[0]))
