"""Abstract interpreter over monomorphic MIR.

Abstract state: a heap of cells (locals, boxes, Arc contents, lock contents), lazily materialised unknown
values, a zone (difference bounds) for integers, an event history.  Branches whose condition is not decided
by the abstract state are explored both ways; loops are explored to a fixpoint (a loop head reached in an
already visited abstract state is not explored again)."""
import json, sys, time
from .zone import Zone, INF, lin, parts, comb

DEADLINE = None     # no exploration goes on after this moment

sys.setrecursionlimit(10000)


class Fork(Exception):
    def __init__(self, n):
        self.n = n


class ForkExp(Exception):
    def __init__(self, uid, options):
        self.uid = uid
        self.options = options


class ForkFact(Exception):
    def __init__(self, alts):
        self.alts = alts


class Stop(Exception):
    """ends a path"""
    def __init__(self, why, info=None):
        self.why = why
        self.info = info


MOVED = ("moved",)
UNIT = ("tup", ())


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.vts = d["vtables"]
        self.entries = d["entries"]
        self.ords = d.get("ords", [])
        self.dynvt = {}
        for i, v in enumerate(self.vts):
            self.dynvt.setdefault(v["d"], []).append(i)
        self._nk = {}
        self._nd = {}
        self.loopheads = {}
        self._live = {}
        self.fkeys = [self._fkey(f) for f in self.fns]

    STDC = ("core", "alloc", "std")

    def nkey(self, tid):
        r = self._nk.get(tid)
        if r is None:
            r = self._nk[tid] = self._nkey(tid)
        return r

    def _nkey(self, tid):
        if tid < 0:
            return ""
        t = self.types[tid]
        k = t["k"]
        if k == "adt":
            c = t["crate"]
            last = t["path"].rsplit("::", 1)[-1]
            if c in self.STDC:
                p = t["path"]
                for m in ("option", "result", "array", "iter", "ops"):
                    if p.startswith("core::%s::" % m):
                        return "%s:%s" % (m, last)
                if "::rc::" in p or p.startswith("alloc::rcs::rc"):
                    return "rc:" + last
                return "std:" + last
            return "%s:%s" % (c, last)
        if k in ("ref", "ptr"):
            return "&" + self.nkey(t["p"])
        if k == "slice":
            return "[]"
        if k == "dyn":
            return "dyn " + t["trait"]
        return k

    def _fkey(self, f):
        if f["self"] >= 0 and f["name"] != "{closure}":
            return self.nkey(f["self"]) + "." + f["name"]
        return f["path"]

    def needs_drop(self, tid, seen=()):
        r = self._nd.get(tid)
        if r is not None:
            return r
        if tid in seen:
            return False
        t = self.types[tid]
        k = t["k"]
        seen = seen + (tid,)
        if k in ("int", "bool", "float", "never", "str", "ref", "ptr", "fndef", "fnptr", "other"):
            r = False
        elif k in ("tup", "clo"):
            r = any(self.needs_drop(x, seen) for x in t["f"])
        elif k == "cor":
            r = True
        elif k == "dyn":
            r = True
        elif k in ("slice", "array"):
            r = self.needs_drop(t["p"], seen)
        else:
            nk = self.nkey(tid)
            if nk in ("std:PhantomData", "std:ManuallyDrop", "std:MaybeUninit"):
                r = False
            elif t["drop"] >= 0 or t["op"]:
                r = nk not in ("std:Duration", "std:Instant", "std:TypeId", "std:Context")
                if nk.startswith("std:Atomic") or nk in ("std:Arguments", "std:Formatter", "std:Layout", "std:Alignment"):
                    r = False
            else:
                r = any(self.needs_drop(ft, seen) for v in t["v"] for _, ft in v["f"])
        if len(seen) == 1 or r:
            self._nd[tid] = r
        return r

    def heads(self, fid):
        """targets of back edges (dominator-free approximation: DFS back edges)"""
        r = self.loopheads.get(fid)
        if r is not None:
            return r
        blocks = self.fns[fid]["body"]["blocks"]
        color = {}
        r = set()
        stack = [(0, iter(self.succ(blocks[0][1])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s < 0:
                    continue
                c = color.get(s)
                if c is None:
                    color[s] = 1
                    stack.append((s, iter(self.succ(blocks[s][1]))))
                    break
                if c == 1:
                    r.add(s)
            else:
                color[b] = 2
                stack.pop()
        self.loopheads[fid] = r
        return r

    def liveness(self, fid):
        """per block: locals whose value may still be used (address-taken locals are always kept)"""
        r = self._live.get(fid)
        if r is not None:
            return r
        body = self.fns[fid]["body"]
        blocks = body["blocks"]
        taken = set()
        use = []
        dfn = []

        def place_use(pl, u, d):
            # reading or partially writing a place uses its local
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ("cp", "mv"):
                place_use(o[1], u, d)

        def rv(r, u, d):
            k = r[0]
            if k == "ref":
                if not any(e[0] == "*" for e in r[1][1]):
                    taken.add(r[1][0])
                place_use(r[1], u, d)
            elif k in ("discr",):
                place_use(r[1], u, d)
            else:
                for x in r[1:]:
                    if isinstance(x, list):
                        if x and x[0] in ("cp", "mv"):
                            op_use(x, u, d)
                        else:
                            for y in x:
                                if isinstance(y, list) and y and y[0] in ("cp", "mv"):
                                    op_use(y, u, d)

        def defp(pl, u, d):
            if pl[1]:
                place_use(pl, u, d)
            else:
                d.add(pl[0])
        for blk in blocks:
            u, d = set(), set()
            for s in blk[0]:
                if s[0] == "a":
                    rv(s[2], u, d)
                    defp(s[1], u, d)
                elif s[0] == "sd":
                    place_use(s[1], u, d)
            t = blk[1]
            k = t[0]
            if k == "switch" or k == "assert":
                op_use(t[1], u, d)
            elif k == "drop":
                place_use(t[1], u, d)
            elif k == "call":
                if t[1][0] == "dyn":
                    op_use(t[1][1], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                defp(t[3], u, d)
            elif k == "ret":
                u.add(0)
            use.append(u)
            dfn.append(d)
        live = [set() for _ in blocks]
        ch = True
        while ch:
            ch = False
            for i in range(len(blocks) - 1, -1, -1):
                out = set()
                for b in self.succ(blocks[i][1]):
                    if b >= 0:
                        out |= live[b]
                n = use[i] | (out - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        r = self._live[fid] = [frozenset(x | taken) for x in live]
        return r

    @staticmethod
    def succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]]
        if k == "assert":
            return [t[3]]
        return []


class Frame:
    __slots__ = ("fid", "bb", "si", "base", "dest", "work", "ret", "last", "span", "tag")

    def __init__(self, fid, base, dest):
        self.fid = fid
        self.bb = 0
        self.si = 0
        self.base = base
        self.dest = dest
        self.work = None      # tuple of items: a work frame
        self.ret = None
        self.last = None
        self.span = ""
        self.tag = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fid = self.fid
        f.bb = self.bb
        f.si = self.si
        f.base = self.base
        f.dest = self.dest
        f.work = self.work
        f.ret = self.ret
        f.last = self.last
        f.span = self.span
        f.tag = self.tag
        return f


class State:
    __slots__ = ("heap", "exp", "zone", "frames", "ev", "evset", "next", "ch", "chp", "shared", "held", "rc",
                 "memo", "ghost", "done", "depth", "forks")

    def __init__(self):
        self.heap = {}
        self.exp = {}
        self.zone = Zone()
        self.frames = []
        self.ev = None
        self.evset = frozenset()
        self.next = 1
        self.ch = ()
        self.chp = 0
        self.shared = frozenset()
        self.held = ()
        self.rc = {}
        self.memo = {}
        self.ghost = {}
        self.done = None
        self.depth = 0
        self.forks = 0

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.exp = dict(self.exp)
        s.zone = self.zone.copy()
        s.frames = [f.copy() for f in self.frames]
        s.ev = self.ev
        s.evset = self.evset
        s.next = self.next
        s.ch = self.ch
        s.chp = 0
        s.shared = self.shared
        s.held = self.held
        s.rc = dict(self.rc)
        s.memo = dict(self.memo)
        s.ghost = dict(self.ghost)
        s.done = self.done
        s.depth = self.depth
        s.forks = self.forks
        return s

    def fresh(self):
        n = self.next
        self.next = n + 1
        return n

    def cell(self, v):
        c = self.next
        self.next = c + 1
        self.heap[c] = v
        return c

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class Interp:
    def __init__(self, facts, natives, hooks=None, budget_steps=400000, budget_paths=6000, budget_time=120.0):
        self.F = facts
        self.T = facts.types
        self.N = natives
        self.hooks = hooks
        self.bsteps = budget_steps
        self.bpaths = budget_paths
        self.btime = budget_time
        self.steps = 0
        self.paths = []
        self.pruned = 0
        self.used_fns = set()
        self.opaque = {}
        self.exhausted = False
        self.nat_by_fn = {}
        self.sites = set()
        self.merge = True
        self.devirt = None      # trait-object types to resolve to the implementations in the program
        self.shape = {}         # role of a sequence -> number of elements to assume (exactly)
        self.seqrole = None
        self.prim = {}          # function id -> handler replacing it

    # ---------------------------------------------------------------- values
    def unk(self, st, tid):
        return ("u", tid, st.fresh())

    def expand(self, st, v, force=True):
        """materialise an unknown one level"""
        uid = v[2]
        r = st.exp.get(uid)
        if r is not None:
            return r
        tid = v[1]
        t = self.T[tid]
        k = t["k"]
        if k == "int":
            st.zone.declare(uid)
            r = ("lin", 0, ((uid, 1),))
        elif k == "tup":
            r = ("tup", tuple(self.unk(st, x) for x in t["f"]))
        elif k == "clo":
            r = ("clo", tid, tuple(self.unk(st, x) for x in t["f"]))
        elif k in ("ref", "ptr"):
            p = t["p"]
            if self.T[p]["k"] == "dyn":
                c = st.cell(("dyn", p, st.fresh()))
                r = ("ref", c, (), ("dynu", p))
            else:
                c = st.cell(self.unk(st, p))
                r = ("ref", c, (), None)
            st.shared = st.shared | {c}
        elif k == "adt":
            nk = self.F.nkey(tid)
            h = self.N.EXPAND.get(nk)
            if self.devirt and nk in ("std:Box", "std:Arc") and t["a"][0] in self.devirt:
                # an object of the program's own: one of the types that are turned into this trait object somewhere
                opts = []
                for vi in self.F.dynvt.get(t["a"][0], ()):
                    c = st.cell(self.unk(st, self.F.vts[vi]["c"]))
                    if nk == "std:Arc":
                        st.shared = st.shared | {c}
                    opts.append(("box" if nk == "std:Box" else "arc", c, vi))
                if len(opts) > 1:
                    raise ForkExp(uid, opts)
                if opts:
                    r = opts[0]
                else:
                    r = h(self, st, tid, t)
            elif h:
                r = h(self, st, tid, t)
            elif t["ak"] == "struct" and not t["op"] and t["v"]:
                r = ("adt", tid, 0, tuple(self.unk(st, ft) for _, ft in t["v"][0]["f"]))
            elif t["ak"] == "enum":
                opts = []
                for i, vv in enumerate(t["v"]):
                    if vv["inh"]:
                        opts.append(("adt", tid, i, tuple(self.unk(st, ft) for _, ft in vv["f"])))
                if len(opts) != 1:
                    if not force:
                        return None
                    raise ForkExp(uid, opts)
                r = opts[0]
            else:
                r = ("opaque", tid, uid)
        elif k == "dyn":
            r = ("dyn", tid, uid)
        elif k == "bool":
            if not force:
                return None
            raise ForkExp(uid, [("int", 0), ("int", 1)])
        else:
            r = ("opaque", tid, uid)
        st.exp[uid] = r
        return r

    def norm(self, st, v):
        """follow memoised expansion of an unknown without forcing one"""
        while v[0] == "u":
            r = st.exp.get(v[2])
            if r is None:
                return v
            v = r
        return v

    def force(self, st, v):
        while v[0] == "u":
            v = self.expand(st, v)
        return v

    # ---------------------------------------------------------------- places
    def getstep(self, st, v, p):
        v = self.force(st, v)
        k = p[0]
        tag = v[0]
        if k == "f":
            i = p[1]
            if tag == "adt":
                if i < len(v[3]):
                    return v[3][i]
            elif tag == "tup":
                if i < len(v[1]):
                    return v[1][i]
            elif tag == "clo":
                return v[2][i]
            elif tag == "cor":
                return v[3][i]
            elif tag == "moved":
                return MOVED
            elif tag == "union":
                return v[2]
            return self.unk(st, p[2])
        if k == "v":     # downcast field
            vi, i = p[1], p[2]
            if tag == "adt":
                if v[2] == vi and i < len(v[3]):
                    return v[3][i]
                return self.unk(st, p[3])
            if tag == "cor":
                t = self.T[v[1]]
                sl = t["variants"][vi][i][0]
                for a, b in v[4]:
                    if a == sl:
                        return b
                return MOVED
            if tag == "moved":
                return MOVED
            return self.unk(st, p[3])
        if k == "i":
            if tag == "array":
                ix = p[1]
                if ix < len(v[1]):
                    return v[1][ix]
            return self.unk(st, p[2])
        raise AssertionError(p)

    def read(self, st, cell, path):
        v = st.heap.get(cell, MOVED)
        for p in path:
            v = self.getstep(st, v, p)
        return v

    def setstep(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        v = self.force(st, v)
        tag = v[0]
        if p[0] == "f":
            i = p[1]
            if tag == "adt":
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(MOVED)
                fs[i] = self.setstep(st, fs[i], path[1:], val)
                return ("adt", v[1], v[2], tuple(fs))
            if tag == "tup":
                fs = list(v[1])
                while len(fs) <= i:
                    fs.append(MOVED)
                fs[i] = self.setstep(st, fs[i], path[1:], val)
                return ("tup", tuple(fs))
            if tag == "clo":
                fs = list(v[2])
                fs[i] = self.setstep(st, fs[i], path[1:], val)
                return ("clo", v[1], tuple(fs))
            if tag == "cor":
                fs = list(v[3])
                fs[i] = self.setstep(st, fs[i], path[1:], val)
                return ("cor", v[1], v[2], tuple(fs), v[4])
            if tag == "moved":
                # partial initialisation of a moved/uninitialised aggregate
                return ("tup", tuple(MOVED if j != i else self.setstep(st, MOVED, path[1:], val) for j in range(i + 1)))
            return v
        if p[0] == "v":
            vi, i = p[1], p[2]
            if tag == "cor":
                t = self.T[v[1]]
                sl = t["variants"][vi][i][0]
                d = dict(v[4])
                d[sl] = self.setstep(st, d.get(sl, MOVED), path[1:], val)
                return ("cor", v[1], v[2], v[3], tuple(sorted(d.items())))
            if tag == "adt":
                fs = list(v[3])
                while len(fs) <= i:
                    fs.append(MOVED)
                fs[i] = self.setstep(st, fs[i], path[1:], val)
                return ("adt", v[1], vi, tuple(fs))
            if tag == "moved":
                return ("adt", -1, vi, tuple(MOVED if j != i else self.setstep(st, MOVED, path[1:], val) for j in range(i + 1)))
            return v
        if p[0] == "i":
            if tag == "array" and p[1] < len(v[1]):
                fs = list(v[1])
                fs[p[1]] = self.setstep(st, fs[p[1]], path[1:], val)
                return ("array", tuple(fs))
            return v
        raise AssertionError(p)

    def write(self, st, cell, path, val):
        if not path:
            st.heap[cell] = val
        else:
            st.heap[cell] = self.setstep(st, st.heap.get(cell, MOVED), path, val)

    def place(self, st, fr, pl):
        """-> (cell, path, meta)"""
        cell = fr.base + pl[0]
        proj = pl[1]
        if not proj:
            return cell, (), None
        path = ()
        meta = None
        down = None
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.force(st, self.read(st, cell, path))
                cell, path, meta = self.deref(st, v)
                down = None
            elif k == "f":
                if down is not None:
                    path = path + (("v", down, e[1], e[2]),)
                    down = None
                else:
                    cur = self.norm(st, self.read(st, cell, path))
                    if cur[0] in ("box",) and e[1] == 0:
                        continue        # Box.0.0 is the pointer itself
                    if cur[0] == "ref" and e[1] == 0:
                        continue        # NonNull.0 / Unique.0
                    path = path + (("f", e[1], e[2]),)
            elif k == "d":
                down = e[1]
                cur = self.norm(st, self.read(st, cell, path))
                if cur[0] == "u":
                    t = self.T[cur[1]]
                    # reading a variant field commits the unknown to that variant
                    if t["k"] == "adt":
                        st.exp[cur[2]] = ("adt", cur[1], down, tuple(self.unk(st, ft) for _, ft in t["v"][down]["f"]))
            elif k == "i":
                ix = self.force(st, self.read(st, fr.base + e[1], ()))
                path = path + (("i", ix[1] if ix[0] == "int" else 1 << 30, self.F_unknown_ty),)
            elif k == "c":
                path = path + (("i", e[1], self.F_unknown_ty),)
            else:
                raise Stop("unsupported-place", e)
        return cell, path, meta

    F_unknown_ty = 0

    def deref(self, st, v):
        tag = v[0]
        if tag == "ref":
            return v[1], v[2], v[3]
        if tag == "box" or tag == "arc":
            return v[1], (), v[2]
        if tag == "adt" and len(v[3]) >= 1:      # Unique / NonNull wrappers
            return self.deref(st, self.force(st, v[3][0]))
        c = st.cell(("opaque", -1, st.fresh()))
        return c, (), None

    # ---------------------------------------------------------------- operands / rvalues
    def const(self, st, k):
        kk = k["k"]
        if kk == "int":
            return ("int", k["v"])
        if kk == "zst":
            t = self.T[k["t"]]
            if t["k"] == "fndef":
                return ("fn", t["fn"])
            if t["k"] == "clo":
                return ("clo", k["t"], ())
            if t["k"] == "tup":
                return UNIT
            if t["k"] == "adt" and t["ak"] == "struct" and t["v"]:
                return ("adt", k["t"], 0, tuple(self.const(st, {"k": "zst", "t": ft}) for _, ft in t["v"][0]["f"]))
            return ("zst", k["t"])
        if kk == "adt":
            return ("adt", k["t"], k["v"], tuple(self.const(st, f) for f in k["f"]))
        if kk == "tup":
            return ("tup", tuple(self.const(st, f) for f in k["f"]))
        if kk == "ref":
            c = st.cell(self.const(st, k["v"]))
            return ("ref", c, (), None)
        if kk == "str":
            return ("str", k["v"])
        if kk == "static":
            return ("static", k["v"])
        return self.unk(st, k["t"])

    def operand(self, st, fr, o):
        k = o[0]
        if k == "k":
            return self.const(st, o[1])
        if k == "rt":
            return ("int", 0)
        cell, path, meta = self.place(st, fr, o[1])
        v = self.read(st, cell, path)
        if v[0] == "box" and o[1][1] and o[1][1][-1][0] == "f":
            # reading Box.0[.0]: the raw pointer
            lastt = o[1][1][-1][2]
            if self.F.nkey(lastt) in ("std:Unique", "std:NonNull"):
                return ("ref", v[1], (), v[2])
        return v

    def mark_moved(self, st, fr, o):
        if o[0] != "mv":
            return
        cell, path, meta = self.place(st, fr, o[1])
        v = st.heap.get(cell, MOVED) if not path else self.read(st, cell, path)
        if v[0] in ("int", "lin", "zst", "fn", "str", "moved"):
            return
        if path and any(p[0] == "i" for p in path):
            return
        self.write(st, cell, path, MOVED)

    def cmp3(self, st, a, b):
        """decide a<b (-1), a==b (0), a>b (1) for int/lin; forks when undecided"""
        d = comb(a, b, -1)
        c, terms = parts(d)
        lo, hi = st.zone.bounds(terms)
        if lo > -INF:
            lo += c
        if hi < INF:
            hi += c
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if lo == 0 and hi == 0:
            return 0
        alts = []
        if lo < 0:
            alts.append((terms, -INF, -1 - c))
        if lo <= 0 <= hi:
            alts.append((terms, -c, -c))
        if hi > 0:
            alts.append((terms, 1 - c, INF))
        raise ForkFact(alts)

    def num(self, st, v):
        v = self.force(st, v)
        if v[0] in ("int", "lin"):
            return v
        if v[0] == "ref":
            return self.addr(st, v)
        if v[0] == "pos":
            return v
        return None

    def addr(self, st, v):
        key = ("addr", v[1], tuple(p[:2] for p in v[2]))
        s = st.memo.get(key)
        if s is None:
            s = st.fresh()
            st.memo[key] = s
            st.zone.declare(s)
        return ("lin", 0, ((s, 1),))

    def compare(self, st, op, a, b):
        a = self.force(st, a)
        b = self.force(st, b)
        if a[0] == "ref" and b[0] == "ref":
            same = a[1] == b[1] and [p[:2] for p in a[2]] == [p[:2] for p in b[2]]
            if op in ("Eq", "Ne"):
                return ("int", int(same == (op == "Eq")))
            if same:
                r = 0
            else:
                x, y = self.addr(st, a), self.addr(st, b)
                d = comb(x, y, -1)
                c, terms = parts(d)
                lo, hi = st.zone.bounds(terms)
                if lo > 0:
                    r = 1
                elif hi < 0:
                    r = -1
                else:
                    raise ForkFact([(terms, -INF, -1), (terms, 1, INF)])
            return self.cmpres(op, r)
        na, nb = self.num(st, a), self.num(st, b)
        if na is None or nb is None:
            if a == b and a[0] in ("opaque", "str", "zst", "static"):
                return self.cmpres(op, 0)
            r = self.choose(st, 3) - 1
            return self.cmpres(op, r)
        if na[0] == "pos" or nb[0] == "pos":
            r = self.choose(st, 3) - 1 if na != nb else 0
            return self.cmpres(op, r)
        if na[0] == "lin" and nb[0] == "lin" and na != nb and na[1] == nb[1] == 0:
            # two addresses of different objects differ
            sy = [x[2][0][0] for x in (na, nb) if len(x[2]) == 1 and x[2][0][1] == 1]
            if len(sy) == 2:
                own = {v: k[1] for k, v in st.memo.items() if k[0] == "addr" and v in sy}
                if len(own) == 2 and own[sy[0]] != own[sy[1]]:
                    d = comb(na, nb, -1)
                    c, terms = parts(d)
                    lo, hi = st.zone.bounds(terms)
                    if lo < 0 < hi or lo == 0 < hi or lo < 0 == hi:
                        if op in ("Eq", "Ne"):
                            return self.cmpres(op, 1)
                        raise ForkFact([(terms, -INF, -1), (terms, 1, INF)])
        return self.cmpres(op, self.cmp3(st, na, nb))

    @staticmethod
    def cmpres(op, r):
        if op == "Eq":
            return ("int", int(r == 0))
        if op == "Ne":
            return ("int", int(r != 0))
        if op == "Lt":
            return ("int", int(r < 0))
        if op == "Le":
            return ("int", int(r <= 0))
        if op == "Gt":
            return ("int", int(r > 0))
        if op == "Ge":
            return ("int", int(r >= 0))
        raise AssertionError(op)

    def optype(self, fr, o):
        if o[0] == "k":
            t = o[1].get("t", -1)
        elif o[0] in ("cp", "mv") and not o[1][1]:
            l = self.F.fns[fr.fid]["body"]["locals"][o[1][0]]
            t = l if isinstance(l, int) else -1
        else:
            t = -1
        return self.T[t].get("s") if t >= 0 else None

    def signed(self, fr, o):
        """is an operand of a signed integer type?"""
        if o[0] == "k":
            t = o[1].get("t", -1)
        elif o[0] in ("cp", "mv") and not o[1][1]:
            l = self.F.fns[fr.fid]["body"]["locals"][o[1][0]]
            t = l if isinstance(l, int) else -1
        else:
            return False
        return t >= 0 and self.T[t]["k"] == "int" and self.T[t]["s"].startswith("i")

    def binop(self, st, op, a, b, signed=False):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        a = self.force(st, a)
        b = self.force(st, b)
        if op == "Cmp":
            lt = self.compare(st, "Lt", a, b)
            if lt[1]:
                return ("ord", -1)
            eq = self.compare(st, "Eq", a, b)
            return ("ord", 0 if eq[1] else 1)
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        res = None
        if a[0] in ("int", "lin") and b[0] in ("int", "lin"):
            if base == "Add":
                res = comb(a, b, 1)
            elif base == "Sub":
                res = comb(a, b, -1)
                if res[0] == "int" and res[1] < 0 and not signed:
                    res = None
            elif a[0] == "int" and b[0] == "int":
                x, y = a[1], b[1]
                try:
                    res = ("int", {"Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y,
                                   "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                                   "Shl": lambda: x << y, "Shr": lambda: x >> y}[base]())
                except (KeyError, ZeroDivisionError):
                    res = None
            elif base == "BitAnd" and ("int", 0) in (a, b):
                res = ("int", 0)
            elif base == "Mul" and a == ("int", 1):
                res = b
            elif base == "Mul" and b == ("int", 1):
                res = a
        if res is None:
            s = st.fresh()
            st.zone.declare(s)
            res = ("lin", 0, ((s, 1),))
        if op.endswith("WithOverflow"):
            return ("tup", (res, ("int", 0)))
        return res

    def tybool(self, st, v):
        v = self.force(st, v)
        return v

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            cell, path, meta = self.place(st, fr, r[1])
            return ("ref", cell, path, meta)
        if k == "discr":
            cell, path, meta = self.place(st, fr, r[1])
            v = self.force(st, self.read(st, cell, path))
            if v[0] == "adt":
                if v[1] >= 0:
                    t = self.T[v[1]]
                    d = int(t["v"][v[2]]["d"]) if v[2] < len(t["v"]) else v[2]
                    return ("int", -1 if d == 255 and t["path"] == "core::cmp::Ordering" else d)
                return ("int", v[2])
            if v[0] == "cor":
                return ("int", v[2])
            if v[0] == "ord":
                return ("int", v[1])
            if v[0] == "int":
                return v
            s = st.fresh()
            st.zone.declare(s)
            return ("lin", 0, ((s, 1),))
        if k == "agg":
            kind, tid, vi, ops = r[1], r[2], r[3], r[4]
            vs = tuple(self.operand(st, fr, o) for o in ops)
            if kind == "tup":
                return ("tup", vs)
            if kind == "adt":
                return ("adt", tid, vi, vs)
            if kind == "clo" or kind == "corclo":
                return ("clo", tid, vs)
            if kind == "cor":
                return ("cor", tid, 0, vs, ())
            if kind == "array":
                return ("array", vs)
            if kind == "union":
                return ("union", tid, vs[0])
            if kind == "rawptr":
                return vs[0]
            return self.unk(st, tid)
        if k == "cast":
            kind, op, tid, extra = r[1], r[2], r[3], r[4]
            v = self.operand(st, fr, op)
            if kind == "unsize":
                return self.unsize(st, v, extra, tid)
            if kind == "reify":
                return ("fn", extra) if extra >= 0 else v
            if kind == "int":
                v = self.norm(st, v)
                if v[0] == "ref":
                    return self.addr(st, v)
                if v[0] == "u":
                    v = self.force(st, v)
                if v[0] == "ord":
                    return ("int", v[1])
                if v[0] == "adt":      # enum to int
                    t = self.T[v[1]]
                    return ("int", int(t["v"][v[2]]["d"]))
                return self.narrow(st, v, self.T[tid], self.optype(fr, op))
            if kind == "ptr":
                v = self.norm(st, v)
                tt = self.T[tid]
                if v[0] == "ref" and tt["k"] == "int":
                    return self.addr(st, v)
                if v[0] == "ref" and tt["k"] in ("ptr", "ref") and self.T[tt["p"]]["k"] != "dyn":
                    return ("ref", v[1], v[2], None)
                return v
            if kind == "transmute":
                v = self.norm(st, v)
                if v[0] == "box" and self.T[tid]["k"] in ("ptr", "ref"):
                    return ("ref", v[1], (), v[2])
                if v[0] == "ref" and self.T[tid]["k"] == "int":
                    return self.addr(st, v)
                return v
            return v
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.signed(fr, r[2]) or self.signed(fr, r[3]))
        if k == "un":
            v = self.force(st, self.operand(st, fr, r[2]))
            if r[1] == "Not":
                if v[0] == "int":
                    return ("int", 1 - v[1]) if v[1] in (0, 1) else v
                return v
            if r[1] == "Neg":
                return comb(("int", 0), v, -1) if v[0] in ("int", "lin") else v
            s = st.fresh()
            st.zone.declare(s)
            return ("lin", 0, ((s, 1),))
        if k == "repeat":
            return self.unk(st, 0) if True else None
        if k == "tls":
            return ("static", r[1])
        raise Stop("unsupported-rvalue", k)

    def narrow(self, st, v, t, src):
        """a cast to a type that may be too small for the value keeps only the lower bits"""
        bits = {"u8": 8, "u16": 16, "u32": 32, "i8": 7, "i16": 15, "i32": 31}.get(t.get("s")) if t["k"] == "int" else None
        if bits is None:
            return v
        if v[0] == "int":
            return ("int", v[1] & ((1 << bits) - 1)) if t["s"][0] == "u" else v
        if v[0] != "lin" or src in ("u8", "bool", t["s"]) or (src == "u16" and bits > 16):
            return v
        lo, hi = st.zone.bounds(v[2])
        if 0 <= lo + v[1] and hi + v[1] < 1 << bits:
            return v
        s = st.fresh()
        st.zone.declare(s)
        n = ("lin", 0, ((s, 1),))
        d = comb(n, v, -1)
        c, tt = parts(d)
        if tt and 0 <= lo + v[1]:
            st.zone.add(tt, -INF, -c)
        return n

    def unsize(self, st, v, vt, tid):
        v = self.norm(st, v)
        if v[0] == "u":
            v = self.force(st, v)
        if v[0] in ("box", "arc", "weak"):
            if vt >= 0:
                return (v[0], v[1], vt)
            return v
        if v[0] == "ref":
            return ("ref", v[1], v[2], vt) if vt >= 0 else v
        if v[0] == "adt" and v[3]:
            return ("adt", tid, v[2], (self.unsize(st, v[3][0], vt, -1),) + tuple(v[3][1:]))
        return v

    # ---------------------------------------------------------------- nondeterminism / events
    def choose(self, st, n):
        if st.chp < len(st.ch):
            r = st.ch[st.chp]
            st.chp += 1
            return r
        raise Fork(n)

    def event(self, st, kind, *data):
        span = ""
        for f in reversed(st.frames):
            if f.work is None:
                span = f.span
                if self.F.fns[f.fid]["crate"] not in ("core", "alloc", "std", "futures_util", "futures_core"):
                    break
        e = (kind,) + data + (span,)
        st.ev = (st.ev, e)
        if self.hooks:
            self.hooks(self, st, e)

    # ---------------------------------------------------------------- calls
    def call_fn(self, st, fid, args, dest, target_set=True):
        """push a frame for an analysed body"""
        f = self.F.fns[fid]
        body = f["body"]
        self.used_fns.add(fid)
        n = len(body["locals"])
        base = st.next
        st.next = base + n
        fr = Frame(fid, base, dest)
        fr.span = f["span"]
        for i, a in enumerate(args):
            st.heap[base + 1 + i] = a
        if len(st.frames) > 120:
            raise Stop("depth")
        st.frames.append(fr)
        if self.hooks:
            self.hooks.enter(self, st, fid, args)

    def push_work(self, st, items, ret=None, dest=None):
        w = Frame(-1, 0, dest)
        w.work = tuple(items)
        w.ret = ret
        st.frames.append(w)

    def invoke(self, st, fid, args, argtys, rty, dest, untuple=None):
        """generic call.  Writes the result to dest=(cell,path) (now, or when the pushed frame returns)."""
        f = self.F.fns[fid]
        if fid in self.prim:
            return self.prim[fid](self, st, Call(f, fid, args, argtys, rty, dest))
        key = self.F.fkeys[fid]
        nat = self.nat_by_fn.get(fid)
        if nat is None:
            nat = self.N.lookup(self.F, f, key)
            self.nat_by_fn[fid] = nat if nat else 0
        if nat:
            r = nat(self, st, Call(f, fid, args, argtys, rty, dest))
            return r
        kind = f["kind"]
        if kind == "virtual":
            return self.virtual(st, f, args, rty, dest)
        if f["ctor"] and "body" not in f:
            return self.make_ctor(st, f, args, rty)
        if kind == "nodrop":
            return UNIT
        if kind == "drop" and "body" not in f:
            self.push_work(st, [("drop_ref", args[0], f["dropty"])], UNIT, dest)
            return None
        if kind == "clonce":
            c = st.cell(args[0])
            ct = self.F.types[f["a"][0]] if f["a"] else None
            clo = args[0]
            self.push_work(st, [("callclo", ("ref", c, (), None), args[1] if len(args) > 1 else UNIT, clo)], None, dest)
            return None
        if kind == "fnptrshim":
            self.push_work(st, [("callval", args[0], args[1])], None, dest)
            return None
        if "body" in f:
            body = f["body"]
            if untuple or (f["name"] == "{closure}" and len(args) == 2 and self.is_closure_body(f) and untuple is not False):
                args = self.untuple(st, args, f)
            if body["argc"] != len(args) and len(args) == 2:
                args = self.untuple(st, args, f)
            self.call_fn(st, fid, args, dest)
            return None
        return self.opaque_call(st, f, fid, args, rty)

    def is_closure_body(self, f):
        return True

    def untuple(self, st, args, f):
        tup = self.force(st, args[1])
        if tup[0] == "tup":
            return [args[0]] + list(tup[1])
        return list(args)

    def make_ctor(self, st, f, args, rty):
        t = self.T[rty]
        vi = 0
        if t["k"] == "adt" and t["ak"] == "enum":
            for i, v in enumerate(t["v"]):
                if v["n"] == f["name"]:
                    vi = i
        return ("adt", rty, vi, tuple(args))

    def opaque_call(self, st, f, fid, args, rty):
        k = f["show"]
        self.opaque[k] = self.opaque.get(k, 0) + 1
        if self.T[rty]["k"] == "never" or "panicking" in f["path"]:
            msg = ""
            for a in args:
                if a[0] == "str":
                    msg = a[1]
            self.event(st, "panic", f["path"], msg)
            raise Stop("panic", msg or f["path"])
        self.event(st, "opaque", f["show"], tuple(args))
        if f["crate"] in Facts.STDC + ("spin", "catty", "event_listener") and not f["path"].startswith("core::fmt"):
            for a in args:
                if self.N.touches_model(self, st, a):
                    self.N.imprecise(self, st, "unmodelled library call " + f["show"])
                    break
        return self.unk(st, rty)

    def dyn_of(self, st, v):
        """receiver value -> (cell, meta)"""
        v = self.force(st, v)
        while v[0] == "adt" and v[3]:
            v = self.force(st, v[3][0])
        if v[0] == "ref":
            return v[1], v[3], v
        if v[0] in ("box", "arc"):
            return v[1], v[2], v
        return None, None, v

    def virtual(self, st, f, args, rty, dest):
        cell, meta, rv = self.dyn_of(st, args[0])
        if isinstance(meta, int):
            vt = self.F.vts[meta]
            fid = vt["e"][f["idx"]]
            if fid >= 0:
                a0 = self.strip_meta(st, args[0])
                return self.invoke(st, fid, [a0] + list(args[1:]), None, rty, dest)
        # call on an object of unknown type: an abstract peer (user message, user future, ...)
        name = f["trait"]
        shared_self = rv[0] == "ref" and len(f["in"]) > 0 and self.T[f["in"][0]].get("m") is False and len(f["in"]) == 1
        if shared_self:
            mk = ("dynget", cell, name)
            r = st.memo.get(mk)
            if r is None:
                r = self.unk(st, rty)
                st.memo[mk] = r
            self.event(st, "dynget", name, cell)
            return r
        for mk in [m for m in st.memo if m[0] == "dynget" and m[1] == cell]:
            del st.memo[mk]
        self.event(st, "dyncall", name, cell, tuple(args), self.is_fut(rty))
        return self.unk(st, rty)

    def is_fut(self, tid, d=0):
        t = self.T[tid]
        if t["k"] == "dyn":
            return t["trait"].endswith("Future")
        if t["k"] == "adt" and t["a"] and d < 4 and t["crate"] in Facts.STDC:
            return self.is_fut(t["a"][0], d + 1)
        return False

    def strip_meta(self, st, v):
        v = self.norm(st, v)
        if v[0] == "ref":
            return ("ref", v[1], v[2], None)
        if v[0] in ("box", "arc"):
            return (v[0], v[1], None)
        if v[0] == "adt" and v[3]:
            return ("adt", v[1], v[2], (self.strip_meta(st, v[3][0]),) + tuple(v[3][1:]))
        return v

    def call_value(self, st, fv, argtup, rty, dest):
        """call closure / fn item / fn pointer value fv with a tuple of arguments"""
        fv = self.force(st, fv)
        tup = self.force(st, argtup)
        targs = list(tup[1]) if tup[0] == "tup" else []
        by_ref = None
        v = fv
        while v[0] in ("ref", "box"):
            by_ref = v
            c, p, m = self.deref(st, v)
            v = self.force(st, self.read(st, c, p))
        if v[0] == "fn":
            ret = self.F.fns[v[1]]["ret"]
            return self.invoke(st, v[1], targs, None, ret if ret >= 0 else rty, dest, untuple=False)
        if v[0] == "clo":
            t = self.T[v[1]]
            fid = t["fn"]
            body = self.F.fns[fid].get("body")
            if body is None:
                return self.unk(st, rty)
            selfty = self.T[body["locals"][1]]
            if selfty["k"] == "ref":
                if by_ref is None:
                    c = st.cell(v)
                    a0 = ("ref", c, (), None)
                else:
                    a0 = by_ref if by_ref[0] == "ref" else ("ref", by_ref[1], (), None)
            else:
                a0 = v
            self.call_fn(st, fid, [a0] + targs, dest)
            return None
        self.event(st, "opaque", "call-unknown-fn", tuple(targs))
        return self.unk(st, rty) if rty is not None and rty >= 0 else UNIT

    # ---------------------------------------------------------------- drop
    def trivially_dropped(self, st, v, tid):
        if v[0] in ("moved", "int", "lin", "zst", "fn", "str", "static", "ref", "ord", "opaque"):
            return True
        return not self.F.needs_drop(tid)

    def do_drop(self, st, cell, path, tid, fields_only=False):
        """one step of drop glue for the value at (cell,path); returns list of further items"""
        v = self.norm(st, self.read(st, cell, path))
        if self.trivially_dropped(st, v, tid):
            return []
        if v[0] == "u":
            t = self.T[v[1]]
            if t["k"] == "cor":
                self.event(st, "drop_unknown", v[1], v[2])
                return []
            v = self.force(st, v)
            if v[0] == "u" or self.trivially_dropped(st, v, tid):
                return []
        h = self.N.DROP.get(v[0])
        if h:
            return h(self, st, v, cell, path, tid)
        tag = v[0]
        if tag == "adt":
            tid2 = v[1] if v[1] >= 0 else tid
            t = self.T[tid2]
            if not fields_only and t.get("drop", -1) >= 0 and self.F.nkey(tid2) not in ("std:Box",):
                # the fields are looked at only after the Drop impl ran (it may replace them)
                return [("call", t["drop"], [("ref", cell, path, None)]), ("dropfields", cell, path, tid)]
            items = []
            if t["v"] and self.F.nkey(tid2) not in ("std:ManuallyDrop", "std:MaybeUninit"):
                fs = t["v"][v[2]]["f"]
                for i, (_, ft) in enumerate(fs):
                    if self.F.needs_drop(ft):
                        pe = ("f", i, ft) if t["ak"] == "struct" else ("v", v[2], i, ft)
                        items.append(("dropat", cell, path + (pe,), ft))
            return items
        if tag == "tup":
            t = self.T[tid]
            if t["k"] != "tup":
                return []
            return [("dropat", cell, path + (("f", i, ft),), ft) for i, ft in enumerate(t["f"]) if self.F.needs_drop(ft)]
        if tag == "clo":
            t = self.T[v[1]]
            return [("dropat", cell, path + (("f", i, ft),), ft) for i, ft in enumerate(t["f"]) if self.F.needs_drop(ft)]
        if tag == "cor":
            t = self.T[v[1]]
            fid = t["dropfn"]
            if "body" in self.F.fns[fid]:
                return [("call", fid, [("ref", cell, path, None)])]
            return []
        if tag == "array":
            t = self.T[tid]
            t = t["p"] if t["k"] == "array" else t["a"][0]     # (an array, or what is left of one that is iterated)
            return [("dropat", cell, path + (("i", i, t),), t) for i in range(len(v[1]))]
        if tag == "dyn":
            self.event(st, "drop_dyn", cell, v[1])
            return []
        return []

    def work_step(self, st, w):
        if not w.work:
            st.frames.pop()
            val = w.ret if w.ret is not None else (w.last if w.last is not None else UNIT)
            self.deliver(st, w.dest, val)
            return
        it = w.work[0]
        k = it[0]
        if k == "dropat":
            items = self.do_drop(st, it[1], it[2], it[3])
            w.work = tuple(items) + (("setmoved", it[1], it[2]),) + w.work[1:]
        elif k == "dropfields":
            w.work = tuple(self.do_drop(st, it[1], it[2], it[3], True)) + w.work[1:]
        elif k == "setmoved":
            w.work = w.work[1:]
            if not any(p[0] == "i" for p in it[2]):
                try:
                    self.write(st, it[1], it[2], MOVED)
                except (ForkExp, KeyError):
                    pass
        elif k == "drop_ref":
            v = self.force(st, it[1])
            c, p, m = self.deref(st, v)
            tid = it[2]
            if isinstance(m, int):
                tid = self.F.vts[m]["c"]
            w.work = (("dropat", c, p, tid),) + w.work[1:]
        elif k == "dropval":
            c = st.cell(it[1])
            w.work = (("dropat", c, (), it[2]), ("free", c)) + w.work[1:]
        elif k == "free":
            w.work = w.work[1:]
            st.heap.pop(it[1], None)
        elif k == "call":
            w.work = w.work[1:]
            save = w.work
            r = self.invoke_restore(st, w, it, lambda: self.invoke(st, it[1], list(it[2]), None, self.F.fns[it[1]]["ret"] if self.F.fns[it[1]]["ret"] >= 0 else 0, "last"))
            if r is not None:
                w.last = r
        elif k == "callclo":
            w.work = w.work[1:]
            r = self.invoke_restore(st, w, it, lambda: self.call_value(st, it[1], it[2], None, "last"))
            if r is not None:
                w.last = r
        elif k == "callval":
            w.work = w.work[1:]
            r = self.invoke_restore(st, w, it, lambda: self.call_value(st, it[1], it[2], it[3] if len(it) > 3 else 0, "last"))
            if r is not None:
                w.last = r
        elif k == "py":
            w.work = w.work[1:]
            try:
                it[1](self, st, w, *it[2:])
            except (Fork, ForkExp, ForkFact):
                w.work = (it,) + w.work
                raise
        else:
            raise AssertionError(k)

    def invoke_restore(self, st, w, it, fn):
        n = len(st.frames)
        try:
            return fn()
        except (Fork, ForkExp, ForkFact):
            del st.frames[n:]
            w.work = (it,) + w.work
            raise

    def deliver(self, st, dest, val):
        if dest == "last":
            st.frames[-1].last = val
        elif dest is not None:
            self.write(st, dest[0], dest[1], val)

    # ---------------------------------------------------------------- main loop
    def start(self, fid, args=None):
        st = State()
        f = self.F.fns[fid]
        body = f["body"]
        st.heap[0] = MOVED
        retc = st.cell(MOVED)
        st.ghost["ret"] = retc
        a = args(self, st) if args else [self.unk(st, body["locals"][1 + i]) for i in range(body["argc"])]
        st.ghost["args"] = tuple(a)
        self.call_fn(st, fid, a, (retc, ()))
        return st

    def run(self, fid, args=None):
        st = self.start(fid, args)
        return self.explore(st)

    def explore(self, st):
        work = [st]
        visited = {}
        self.visited = visited
        self.visits = {}
        t0 = time.time()
        btime = self.btime if DEADLINE is None else max(1.0, min(self.btime, DEADLINE - t0))
        self.steps = 0
        npaths = 0
        while work:
            st = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.bsteps or npaths > self.bpaths or (self.steps & 1023) == 0 and time.time() - t0 > btime:
                    self.exhausted = True
                    return self.paths
                try:
                    st.chp = 0
                    nxt = self.step(st, visited)
                    st.ch = ()
                    if nxt is False:
                        self.pruned += 1
                        break
                except Fork as fk:
                    base = st.ch
                    for i in range(fk.n - 1, 0, -1):
                        s2 = st.copy()
                        s2.ch = base + (i,)
                        work.append(s2)
                    st.ch = base + (0,)
                except ForkExp as fx:
                    for o in fx.options[1:][::-1]:
                        s2 = st.copy()
                        s2.exp[fx.uid] = o
                        s2.ch = st.ch
                        work.append(s2)
                    st.exp[fx.uid] = fx.options[0]
                except ForkFact as ff:
                    alts = []
                    for (terms, lo, hi) in ff.alts:
                        s2 = st.copy()
                        s2.ch = st.ch
                        if s2.zone.add(terms, lo, hi):
                            alts.append(s2)
                    if not alts:
                        break
                    for s2 in alts[1:][::-1]:
                        work.append(s2)
                    st = alts[0]
                except Stop as sp:
                    st.done = (sp.why, sp.info)
                    self.finish(st)
                    npaths += 1
                    break
                if st.done:
                    self.finish(st)
                    npaths += 1
                    break
        return self.paths

    def finish(self, st):
        self.paths.append(st)

    def step(self, st, visited):
        fr = st.frames[-1]
        if fr.work is not None:
            self.work_step(st, fr)
            if not st.frames:
                st.done = ("return", None)
            return True
        f = self.F.fns[fr.fid]
        blocks = f["body"]["blocks"]
        if fr.bb < 0:
            raise Stop("diverge")
        if fr.si == 0 and not st.ch and (fr.tag == "merge" or fr.bb in self.F.heads(fr.fid)):
            if fr.tag != fr.bb:
                fr.tag = fr.bb
                from .canon import canon_key, known
                if known(visited, canon_key(self, st)):
                    return False
        blk = blocks[fr.bb]
        stmts = blk[0]
        while fr.si < len(stmts):
            s = stmts[fr.si]
            k = s[0]
            if k == "a":
                fr.span = s[3]
                v = self.rvalue(st, fr, s[2])
                cell, path, _ = self.place(st, fr, s[1])
                r = s[2]
                if r[0] == "use":
                    self.mark_moved(st, fr, r[1])
                elif r[0] == "agg":
                    for o in r[4]:
                        self.mark_moved(st, fr, o)
                elif r[0] == "cast":
                    self.mark_moved(st, fr, r[2])
                if not path:
                    st.heap[cell] = v
                else:
                    self.write(st, cell, path, v)
            elif k == "sd":
                fr.span = s[3]
                cell, path, _ = self.place(st, fr, s[1])
                v = self.norm(st, self.read(st, cell, path))
                if v[0] == "cor":
                    self.write(st, cell, path, ("cor", v[1], s[2], v[3], v[4]))
                elif v[0] == "adt":
                    self.write(st, cell, path, ("adt", v[1], s[2], v[3]))
                elif v[0] in ("tup", "moved"):
                    self.write(st, cell, path, ("adt", -1, s[2], v[1] if v[0] == "tup" else ()))
            elif k == "dead":
                c = fr.base + s[1]
                st.heap.pop(c, None)
            fr.si += 1
            st.ch = ()
            st.chp = 0
            fr.tag = None
        t = blk[1]
        k = t[0]
        fr.span = blk[2]
        if k == "goto":
            fr.bb = t[1]
            fr.si = 0
            fr.tag = None
        elif k == "switch":
            v = self.operand(st, fr, t[1])
            v = self.norm(st, v)
            if v[0] == "u":
                v = self.force(st, v)
            if v[0] == "ord":
                v = ("int", v[1] % 256)
            if v[0] == "int":
                n = v[1]
                tgt = t[3]
                if n < 0:
                    w = max(a for a, _ in t[2]) if t[2] else 0
                    n %= 256 if w < 256 else 1 << 16 if w < 1 << 16 else 1 << 32 if w < 1 << 32 else 1 << 64 if w < 1 << 64 else 1 << 128
                for a, b in t[2]:
                    if a == n:
                        tgt = b
                        break
            elif v[0] == "lin":
                tgt = None
                for a, b in t[2]:
                    r = self.cmp3(st, v, ("int", a))
                    if r == 0:
                        tgt = b
                        break
                if tgt is None:
                    tgt = t[3]
            else:
                opts = [b for _, b in t[2]] + [t[3]]
                opts = [b for b in opts if blocks[b][1][0] != "unreachable"]
                tgt = opts[self.choose(st, len(opts))]
            fr.bb = tgt
            fr.si = 0
            fr.tag = None
        elif k == "ret":
            st.frames.pop()
            v = st.heap.get(fr.base, UNIT)
            n = len(f["body"]["locals"])
            heap = st.heap
            for c in range(fr.base, fr.base + n):
                heap.pop(c, None)
            if v[0] == "moved":
                v = UNIT
            if self.hooks:
                self.hooks.leave(self, st, fr.fid, v)
            if not st.frames:
                self.deliver(st, fr.dest, v)
                st.done = ("return", None)
                return True
            self.deliver(st, fr.dest, v)
            top = st.frames[-1]
            if self.merge and top.work is None and top.si == 0 and self.F.heads(fr.fid):
                top.tag = "merge"
        elif k == "drop":
            cell, path, meta = self.place(st, fr, t[1])
            tid = t[3]
            if isinstance(meta, int) and self.T[tid]["k"] == "dyn":
                tid = self.F.vts[meta]["c"]
            v = self.norm(st, self.read(st, cell, path))
            fr.bb = t[2]
            fr.si = 0
            fr.tag = None
            if not self.trivially_dropped(st, v, tid):
                self.push_work(st, [("dropat", cell, path, tid)], UNIT, None)
        elif k == "assert":
            # overflow / bounds assertions are assumed to hold (separate obligation)
            if t[4] == "resumed":
                v = self.force(st, self.operand(st, fr, t[1]))
                if v[0] == "int" and bool(v[1]) != t[2]:
                    self.event(st, "panic", "resumed-after-completion", "")
                    raise Stop("panic", "async fn resumed after completion")
            fr.bb = t[3]
            fr.si = 0
            fr.tag = None
        elif k == "call":
            fr.span = t[5]
            self.do_call(st, fr, t)
        elif k == "unreachable":
            raise Stop("unreachable")
        else:
            raise Stop("unwind")
        return True

    def do_call(self, st, fr, t):
        fn = t[1]
        ops = t[2]
        args = [self.operand(st, fr, o) for o in ops]
        cell, path, _ = self.place(st, fr, t[3])
        rty = t[6]
        bb0 = fr.bb
        n = len(st.frames)
        fr.bb = t[4]
        fr.si = 0
        try:
            if fn[0] == "fn":
                f = self.F.fns[fn[1]]
                untuple = None
                self.sites.add((fr.fid, bb0))
                r = self.invoke(st, fn[1], args, t[7], rty, (cell, path))
            elif fn[0] == "dyn":
                fv = self.operand(st, fr, fn[1])
                r = self.call_value(st, fv, ("tup", tuple(args)), rty, (cell, path))
            else:
                self.event(st, "opaque", fn[1], tuple(args))
                r = self.unk(st, rty)
        except (Fork, ForkExp, ForkFact):
            del st.frames[n:]
            fr.bb = bb0
            fr.si = len(self.F.fns[fr.fid]["body"]["blocks"][bb0][0])
            raise
        except Stop:
            fr.bb = bb0
            raise
        fr.tag = None
        pushed = st.frames[n:]
        del st.frames[n:]
        for o in ops:
            self.mark_moved(st, fr, o)
        st.frames.extend(pushed)
        if r is not None:
            self.write(st, cell, path, r)


class Call:
    __slots__ = ("f", "fid", "args", "argtys", "rty", "dest")

    def __init__(self, f, fid, args, argtys, rty, dest):
        self.f = f
        self.fid = fid
        self.args = args
        self.argtys = argtys
        self.rty = rty
        self.dest = dest
