"""Framework of the rules: roles, monitors (abstract automata run along the interpretation), reports."""
import os
import time
from . import natives as N
from .interp import Facts, Interp, Stop, Fork, ForkExp, ForkFact
from .zone import parts, comb, INF


# ------------------------------------------------------------------ types
class Roles:
    """what the types and containers of the program are for, found by their structure (never by name)"""

    def __init__(self, F):
        self.F = F
        self.T = F.types
        self._deep = {}
        self.chan_tids = {}

    def deep(self, tid):
        """the types reachable by ownership or (weak) reference from a type"""
        r = self._deep.get(tid)
        if r is not None:
            return r
        seen = set()
        stack = [tid]
        while stack:
            t = stack.pop()
            if t < 0 or t in seen:
                continue
            seen.add(t)
            x = self.T[t]
            k = x["k"]
            if k == "adt":
                nk = self.F.nkey(t)
                if nk.split(":")[0] in ("std", "spin", "catty", "option", "result", "rc", "event_listener"):
                    stack.extend(a for a in x["a"])
                else:
                    for v in x["v"]:
                        stack.extend(ft for _, ft in v["f"])
            elif k in ("tup", "clo"):
                stack.extend(x["f"])
            elif k in ("array", "slice"):
                stack.append(x["p"])
        self._deep[tid] = seen
        return seen

    def has(self, tid, nk):
        return any(self.F.nkey(t) == nk for t in self.deep(tid))

    def dyns(self, tid, wrap):
        """trait objects owned through `wrap` (std:Box / std:Arc) inside a type"""
        out = set()
        for t in self.deep(tid):
            if self.F.nkey(t) == wrap:
                a = self.T[t]["a"]
                if a and self.T[a[0]]["k"] == "dyn":
                    out.add(a[0])
        return out

    SEQ = ("std:VecDeque", "std:Vec", "std:BinaryHeap", "std:LinkedList", "std:BTreeMap", "std:BTreeSet", "std:HashMap")

    def seqrole(self, tid):
        """role of a collection type"""
        if tid < 0 or self.T[tid]["k"] != "adt" or not self.T[tid]["a"] or self.F.nkey(tid) not in self.SEQ:
            return None
        e = self.T[tid]["a"][0]
        if self.has(e, "catty:Sender"):
            return "wrx"
        nested = any(self.F.nkey(t) in self.SEQ for t in self.deep(e))
        if self.has(e, "std:Weak") or self.has(e, "std:Mutex") or self.has(e, "spin:Mutex"):
            if nested:
                return "bqs"
            if self.dyns(e, "std:Box"):
                return "wtx1"
            if self.dyns(e, "std:Arc"):
                return "wtxa"
            return None
        if nested:
            return None
        if self.dyns(e, "std:Box"):
            return "uq"
        if self.dyns(e, "std:Arc"):
            return "bq"
        return None

    def msgdyns(self, F=None):
        """trait-object types of queued messages: (to one, to all)"""
        one, al = set(), set()
        for t in range(len(self.T)):
            r = self.seqrole(t) if self.T[t]["k"] == "adt" and self.F.nkey(t) in self.SEQ else None
            if r == "uq":
                one |= self.dyns(self.T[t]["a"][0], "std:Box")
            elif r == "bq":
                al |= self.dyns(self.T[t]["a"][0], "std:Arc")
        return one, al


def variant_name(I, v):
    if v[0] == "adt" and v[1] >= 0:
        vs = I.T[v[1]]["v"]
        if v[2] < len(vs):
            return vs[v[2]]["n"]
    return None


def walk(I, st, v, path=(), depth=0):
    """(path, value) of everything stored by value inside v (no pointers followed)"""
    v = I.norm(st, v)
    yield path, v
    if v[0] == "adt":
        st_ = v[1] >= 0 and I.T[v[1]]["k"] == "adt" and I.T[v[1]]["ak"] == "struct"
        for i, x in enumerate(v[3]):
            t = -1
            if v[1] >= 0 and v[2] < len(I.T[v[1]]["v"]):
                t = I.T[v[1]]["v"][v[2]]["f"][i][1]
            pe = ("f", i, t) if st_ else ("v", v[2], i, t)
            yield from walk(I, st, x, path + (pe,), depth + 1)
    elif v[0] == "tup":
        for i, x in enumerate(v[1]):
            yield from walk(I, st, x, path + (("f", i, -1),), depth + 1)
    elif v[0] == "clo":
        for i, x in enumerate(v[2]):
            yield from walk(I, st, x, path + (("f", i, -1),), depth + 1)
    elif v[0] == "u" and depth < 6:
        t = I.T[v[1]]
        if t["k"] == "adt" and t["ak"] == "struct" and not t["op"] and t["v"] and I.F.nkey(v[1]) not in N.EXPAND \
                and t["crate"] not in Facts.STDC:
            w = I.expand(st, v)
            yield from walk(I, st, w, path, depth + 1)


def deepwalk(I, st, v, seen=None):
    """every value reachable from v, pointers included"""
    seen = set() if seen is None else seen
    stack = [v]
    while stack:
        v = I.norm(st, stack.pop())
        yield v
        tag = v[0]
        cells = []
        if tag == "adt":
            stack.extend(v[3])
        elif tag in ("tup", "array"):
            stack.extend(v[1])
        elif tag == "clo":
            stack.extend(v[2])
        elif tag == "cor":
            stack.extend(v[3])
            stack.extend(x for _, x in v[4])
        elif tag in ("ref", "box", "arc", "weak", "mutex", "atomic", "guard", "ctx", "crx", "event", "pos", "listener"):
            cells.append(v[1])
        elif tag == "cch":
            stack.extend(x for x in (v[1], v[4]) if x is not None)
        elif tag == "seq":
            cells.extend(s[1] for s in v[2] if s[0] == "e")
        elif tag == "iter":
            if v[1] == "own":
                cells.extend(s[1] for s in v[2] if s[0] == "e")
            else:
                cells.append(v[2])
        elif tag == "union":
            stack.append(v[2])
        elif tag == "wakerctx":
            stack.append(v[1])
        for c in cells:
            if c not in seen:
                seen.add(c)
                if c in st.heap:
                    stack.append(st.heap[c])


def bounds(st, v):
    """(lo, hi) of an integer value"""
    p = parts(v)
    if p is None:
        return (-INF, INF)
    lo, hi = st.zone.bounds(p[1])
    return (lo + p[0] if lo > -INF else lo, hi + p[0] if hi < INF else hi)


def diff_bounds(st, a, b):
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return (-INF, INF)
    return bounds(st, comb(a, b, -1))


def entails_le(st, a, b, k=0):
    """a <= b + k on every concretisation"""
    return diff_bounds(st, a, b)[1] <= k


# ------------------------------------------------------------------ reports
class Violation:
    def __init__(self, prop, rule, key, msg, where="", path=None, entry=""):
        self.prop = prop
        self.rule = rule
        self.key = "%s:%s:%s" % (prop, rule, key)
        self.msg = msg
        self.where = where
        self.path = path or []
        self.entry = entry


def short(span):
    i = span.find("xtra/src/")
    return span[i:] if i >= 0 else span.rsplit("/", 1)[-1]


def brief(I, st, n=60):
    """the events of a path, for a report"""
    out = []
    for e in st.events():
        k = e[0]
        if k in ("guard_mut", "dynget", "waker_clone", "fence", "iter_ref"):
            continue
        d = ""
        if k in ("atomic",):
            d = " %s(%s)" % (e[1], e[4])
        elif k in ("user", "user_ready", "user_pending", "registered"):
            d = " " + str(e[1])
        elif k in ("lock", "unlock", "relock"):
            d = " " + str(e[2])
        out.append("%s%s @ %s" % (k, d, short(e[-1])))
    return out[-n:]


# ------------------------------------------------------------------ monitors
class Mon:
    """A rule.  `tags` (st.evset) is its abstract state: a set of tuples, part of the fixpoint key.  Inside a tag,
    ("C", cell) and ("U", uid) stand for objects."""
    prop = "?"
    rule = "?"
    text = ""
    entries = ()
    kinds = None        # only these events are passed on
    merge = True
    budget = dict(budget_steps=6000000, budget_paths=60000, budget_time=300.0)

    def __init__(self, A):
        self.A = A
        self.R = A.roles
        self.F = A.F
        self.T = A.F.types
        self.viol = []
        self.instances = 0
        self.paths = 0
        self.skipped = 0
        self.entry = ""
        self.obl = set()

    # --- to override
    def begin(self, I, st):
        pass

    def on(self, I, st, e):
        pass

    def end(self, I, st):
        pass

    # --- helpers
    def hit(self, what, st=None):
        """count an instance of the rule"""
        self.instances += 1
        self.obl.add((self.entry, what))

    def tag(self, st, *t):
        st.evset = st.evset | {tuple(t)}

    def untag(self, st, *pre):
        n = len(pre)
        st.evset = frozenset(t for t in st.evset if t[:n] != pre)

    def tagged(self, st, *pre):
        n = len(pre)
        return [t for t in st.evset if t[:n] == pre]

    def report(self, I, st, key, msg, where=""):
        if st.ghost.get("imprecise"):
            self.skipped += 1
            return
        v = Violation(self.prop, self.rule, key, msg, short(where), brief(I, st), self.entry)
        if not any(x.key == v.key for x in self.viol):
            self.viol.append(v)

    def args(self, I, st):
        return None

    def prepare(self, I):
        """set analysis options"""

    data = None
    heavy = {"h_recv_first": 9, "h_yield_once": 12, "h_run": 12, "h_select": 12, "h_join": 12, "h_recv_poll_drop": 9, "h_recv_fused": 9}

    def weight(self, entry):
        return self.heavy.get(entry, 1)

    def missing(self, entry):
        return entry not in self.F.entries

    def run_entry(self, entry):
        return self.explore(entry)

    def combine(self, results):
        pass

    # --- driver
    def explore(self, entry):
        self.entry = entry
        I = Interp(self.F, N, None, **self.budget)
        I.merge = self.merge
        I.seqrole = self.R.seqrole
        self.prepare(I)
        mon = self

        class H:
            def __call__(s, I, st, e):
                if mon.kinds is None or e[0] in mon.kinds:
                    ev, gh = st.evset, dict(st.ghost)
                    try:
                        mon.on(I, st, e)
                    except (Fork, ForkExp, ForkFact):
                        # the step is run again in each case
                        st.evset, st.ghost = ev, gh
                        raise

            def enter(s, I, st, fid, args):
                pass

            def leave(s, I, st, fid, v):
                pass
        I.hooks = H()
        I.ghost_key = self.ghost_key
        fid = self.F.entries[entry]
        a = self.args_for(entry)
        st = I.start(fid, a)
        self.begin(I, st)
        I.finish = lambda s: self._fin(I, s)
        I.explore(st)
        self.exhausted = I.exhausted
        self.A.note(self, entry, I)
        return I

    def args_for(self, entry):
        return None

    def _fin(self, I, st):
        self.paths += 1
        if st.done[0] in ("unreachable",):
            return
        if st.ghost.get("imprecise"):
            self.skipped += 1
            self.A.imprec.add(str(st.ghost["imprecise"]))
        todo = [st]
        while todo:
            st = todo.pop()
            n0, ev, gh = len(self.viol), st.evset, dict(st.ghost)
            try:
                self.end(I, st)
                continue
            except ForkExp as fx:
                alts = []
                for o in fx.options:
                    s2 = st.copy()
                    s2.exp[fx.uid] = o
                    alts.append(s2)
            except ForkFact as ff:
                alts = []
                for (terms, lo, hi) in ff.alts:
                    s2 = st.copy()
                    if s2.zone.add(terms, lo, hi):
                        alts.append(s2)
            del self.viol[n0:]
            for s2 in alts:
                s2.evset, s2.ghost = ev, dict(gh)
            todo += alts[::-1]

    def ghost_key(self, st, R):
        def cv(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == "C":
                    return ("C", R.cells.get(x[1], -1))
                if len(x) == 2 and x[0] in ("U", "W"):
                    return ("U", R.uids.get(x[1], -1))
                return tuple(cv(y) for y in x)
            return x
        return frozenset(cv(t) for t in st.evset)


class Analysis:
    def __init__(self, facts_path):
        self.F = Facts(facts_path)
        self.roles = Roles(self.F)
        self.log = []
        self.imprec = set()
        self.fns = set()
        self.sites = set()
        self._cnt = None
        self.shutdown_kinds = set()
        one, al = self.roles.msgdyns()
        self.msgdyns = one | al
        self.one, self.all = one, al

    def note(self, mon, entry, I):
        self.fns |= {self.F.fns[f]["show"] for f in I.used_fns}
        self.sites |= I.sites
        self.log.append(dict(rule=mon.rule, entry=entry, paths=mon.paths, pruned=I.pruned, steps=I.steps,
                             exhausted=I.exhausted, instances=mon.instances, skipped=mon.skipped,
                             opaque=sorted(I.opaque)))

    # --- counters: which atomic of the channel counts what
    def chan_arc(self, I, st, v, depth=0):
        """the cell of the channel a handle points to"""
        for w in deepwalk_lim(I, st, v):
            if w[0] == "arc" and isinstance(w[1], int):
                c = st.heap.get(w[1])
                if c is not None and self.is_chan(I, st, c):
                    return w[1]
        return None

    def is_chan(self, I, st, c):
        c = I.norm(st, c)
        tid = c[1] if c[0] in ("u", "adt") else -1
        if tid < 0:
            return False
        r = self.roles.chan_tids.get(tid)
        if r is None:
            T = self.F.types
            r = T[tid]["k"] == "adt" and T[tid]["crate"] == "xtra" and any(
                self.F.nkey(t) == "std:Mutex" for t in self.roles.deep(tid)) and any(
                self.F.nkey(t) == "std:Atomic" for t in self.roles.deep(tid))
            self.roles.chan_tids[tid] = r
        return r

    def atomics(self, I, st, arc):
        """cells of the atomics of a channel, in layout order"""
        out = []
        for p, v in walk(I, st, st.heap[arc]):
            if v[0] == "u" and self.F.nkey(v[1]) == "std:Atomic":
                v = I.expand(st, v)
            if v[0] == "atomic":
                out.append((tuple(x[:2] for x in p), v[1]))
        return out

    def counters(self):
        """(sender, receiver): layout positions of the two reference counters"""
        if self._cnt is None:
            self._cnt = tuple(self._counter(e) for e in ("h_addr_drop", "h_mailbox_drop"))
        return self._cnt

    def _counter(self, entry):
        A = self
        pos = set()

        class M(Mon):
            kinds = ("atomic",)

            def begin(self, I, st):
                pass

            def on(self, I, st, e):
                if e[1] in ("fetch_sub", "cas", "fetch_update"):
                    for a in st.ghost["args"]:
                        arc = A.chan_arc(I, st, a)
                        if arc is not None:
                            for p, c in A.atomics(I, st, arc):
                                if c == e[2]:
                                    st.evset = st.evset | {p}

            def end(self, I, st):
                pos.add(st.evset)
        m = M(self)
        save = self.log
        self.log = []
        m.explore(entry)
        self.log = save
        common = None
        for s in pos:
            common = s if common is None else common & s
        return next(iter(common)) if common and len(common) == 1 else None

    def which_counter(self, I, st, cell):
        """0 / 1 when an atomic is the strong-address / mailbox counter of some channel, else None"""
        memo = st.ghost.get("cntc", {})
        if cell in memo:
            return memo[cell]
        r = None
        for c, v in list(st.heap.items()):
            if v[0] in ("u", "adt") and v[1] >= 0 and self.is_chan(I, st, v):
                for q, a in self.atomics(I, st, c):
                    if a == cell and q in self.counters():
                        r = self.counters().index(q)
                        break
                if r is not None:
                    break
        if r is not None:
            st.ghost["cntc"] = {**memo, cell: r}
        return r

    def counter_cell(self, I, st, which, v):
        """cell of the sender (0) / receiver (1) counter of the channel behind handle v"""
        arc = self.chan_arc(I, st, v)
        p = self.counters()[which]
        if arc is None or p is None:
            return None
        for q, c in self.atomics(I, st, arc):
            if q == p:
                return c
        return None


def deepwalk_lim(I, st, v):
    """like deepwalk, but expands unknown structs on the way (arguments)"""
    stack = [v]
    seen = set()
    n = 0
    while stack and n < 200:
        n += 1
        v = I.norm(st, stack.pop(0))
        if v[0] == "u":
            t = I.T[v[1]]
            if t["k"] in ("ref", "ptr", "tup", "clo") or (t["k"] == "adt" and (
                    I.F.nkey(v[1]) in ("std:Arc", "std:Mutex", "std:Box") or
                    (t["ak"] == "struct" and t["crate"] not in Facts.STDC and I.F.nkey(v[1]) not in N.EXPAND))):
                try:
                    v = I.expand(st, v)
                except Exception:
                    continue
        yield v
        if v[0] == "adt":
            stack.extend(v[3])
        elif v[0] in ("tup", "array"):
            stack.extend(v[1])
        elif v[0] == "clo":
            stack.extend(v[2])
        elif v[0] in ("ref", "box", "arc") and v[1] not in seen:
            seen.add(v[1])
            if v[1] in st.heap:
                stack.append(st.heap[v[1]])
