"""Normalisation of abstract states at loop heads: garbage-collect, absorb sequence elements nothing refers to any
more into their anonymous block, rename, and build the key used for the visited set (the fixpoint test)."""
from .zone import Zone, INF, parts, lin
from .natives import value_cells


def refs_in(v, out):
    """cells referenced directly (by ref/pos) from value v, ignoring sequence slots"""
    tag = v[0]
    if tag in ("ref", "pos", "box", "arc", "weak", "mutex", "atomic", "guard", "ctx", "crx", "event"):
        out.add(v[1])
    elif tag == "adt":
        for x in v[3]:
            refs_in(x, out)
    elif tag in ("tup", "array"):
        for x in v[1]:
            refs_in(x, out)
    elif tag == "clo":
        for x in v[2]:
            refs_in(x, out)
    elif tag == "cor":
        for x in v[3]:
            refs_in(x, out)
        for _, x in v[4]:
            refs_in(x, out)
    elif tag == "cch":
        if v[1] is not None:
            refs_in(v[1], out)
    elif tag == "iter" and v[1] == "ref":
        out.add(v[2])
    elif tag == "union":
        refs_in(v[2], out)


def roots(I, st):
    for fr in st.frames:
        if fr.work is None:
            n = len(I.F.fns[fr.fid]["body"]["locals"])
            for c in range(fr.base, fr.base + n):
                v = st.heap.get(c)
                if v is not None:
                    yield v
        else:
            for it in fr.work:
                for x in it[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        yield x
                    elif isinstance(x, list):
                        for y in x:
                            yield y
                    elif it[0] in ("dropat", "dropfields", "setmoved") and x is it[1]:
                        yield ("ref", it[1], (), None)
            if fr.ret is not None:
                yield fr.ret
            if fr.last is not None:
                yield fr.last
    for k in ("ret",):
        if k in st.ghost:
            yield ("ref", st.ghost[k], (), None)
    for a in st.ghost.get("args", ()):
        yield a
    for a in st.ghost.get("forgot", ()):
        yield a
    for a in st.ghost.get("keep", ()):
        yield a


def dest_cells(st):
    out = set()
    for fr in st.frames:
        if isinstance(fr.dest, tuple):
            out.add(fr.dest[0])
    return out


def witnesses(st):
    """what the elements a rule asked for (see exp_seq) refer to, wherever they are now"""
    out = set()
    for k, vs in st.ghost.items():
        if k.startswith("shapev_"):
            for v in vs:
                deeprefs(st, v, out)
    return out


def deeprefs(st, v, out, d=0):
    if v[0] == "u":
        w = st.exp.get(v[2])
        if w is None:
            out.add(("u", v[2]))
        elif d < 8:
            deeprefs(st, w, out, d + 1)
    elif v[0] == "adt":
        for x in v[3]:
            deeprefs(st, x, out, d + 1)
    elif v[0] == "tup":
        for x in v[1]:
            deeprefs(st, x, out, d + 1)
    elif v[0] in ("weak", "arc", "ctx", "crx", "box"):
        out.add(v[1])


def absorb(I, st, slots, refd, keep, wv=()):
    """merge runs of anonymous blocks and unreferenced elements"""
    out = []
    changed = False
    for s in slots:
        if s[0] == "e" and s[1] not in refd and s[1] not in keep and not (wv and s[1] in st.heap and holds(st, s[1], wv)):
            s2 = ("m", ("int", 1))
            changed = True
        else:
            s2 = s
        if s2[0] == "m" and out and out[-1][0] == "m":
            n = add(out[-1][1], s2[1])
            out[-1] = ("m", n)
            changed = True
        else:
            out.append(s2)
    return tuple(out), changed


def holds(st, cell, wv):
    out = set()
    deeprefs(st, st.heap[cell], out)
    return not out.isdisjoint(wv)


def add(a, b):
    from .zone import comb
    return comb(a, b, 1)


def simplify_len(st, n):
    """a block length as a plain symbol"""
    c, t = parts(n)
    if not t:
        if c <= 0:
            return n
        s = st.fresh()
        st.zone.declare(s, min(c, 1))
        return ("lin", 0, ((s, 1),))
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return n
    lo, hi = st.zone.bounds(t)
    lo = lo + c if lo > -INF else -INF
    hi = hi + c if hi < INF else INF
    s = st.fresh()
    st.zone.declare(s, min(max(lo, 0), 1))
    if st.ghost.get("_widen"):
        return ("lin", 0, ((s, 1),))
    if hi < INF:
        st.zone._ub(s, 0, hi)
    if len(t) == 1 and t[0][1] == 1:
        st.zone._ub(s, t[0][0], c)
        st.zone._ub(t[0][0], s, -c)
    return ("lin", 0, ((s, 1),))


def kill_dead(I, st):
    """forget locals that are not live"""
    busy = {it[1] for fr in st.frames if fr.work is not None for it in fr.work if it[0] in ("dropat", "dropfields", "setmoved", "free")}
    for fr in st.frames:
        if fr.work is not None or fr.si != 0 or fr.bb < 0:
            continue
        live = I.F.liveness(fr.fid)[fr.bb]
        base = fr.base
        n = len(I.F.fns[fr.fid]["body"]["locals"])
        for i in range(n):
            if i not in live and (base + i) in st.heap and (base + i) not in busy:
                del st.heap[base + i]


def normalise(I, st, widen=False):
    """destructive widening of the sequences"""
    kill_dead(I, st)
    refd = set()
    heapvals = list(st.heap.values()) + list(st.exp.values())
    for v in heapvals:
        refs_in(v, refd)
    for v in roots(I, st):
        refs_in(v, refd)
    refd |= dest_cells(st)
    keep = st.ghost.get("wit", ())
    wv = witnesses(st)

    iters = [v for v in st.heap.values() if contains_refiter(v)]
    # slot indices of by-reference iterators must stay meaningful: normalise iterated sequences with care
    pinned = {}
    for v in iters:
        collect_iters(v, pinned)

    # the place (heap cell or expansion of an unknown, path inside it) that holds the sequence of each iterator
    places = {}
    for cell, infos in pinned.items():
        for ic, cur in infos:
            places.setdefault(holder(st, cell, ic[1]), []).append((ic, cur))

    def fix(v, at=None):
        tag = v[0]
        if tag == "seq":
            if at is not None and at in places:
                return fix_pinned(v, places[at])
            slots, ch = absorb(I, st, v[2], refd, keep, wv)
            slots = tuple(("m", simplify_len(st, s[1])) if s[0] == "m" else s for s in slots)
            return ("seq", v[1], slots) if slots != v[2] else v
        if tag == "iter" and v[1] == "own":
            slots, ch = absorb(I, st, v[2], refd, keep, wv)
            slots = tuple(("m", simplify_len(st, s[1])) if s[0] == "m" else s for s in slots)
            return ("iter", "own", slots, v[3])
        if tag == "adt":
            fs = tuple(fix(x, sub(at, i)) for i, x in enumerate(v[3]))
            return v if all(a is b for a, b in zip(fs, v[3])) else ("adt", v[1], v[2], fs)
        if tag == "tup":
            fs = tuple(fix(x, sub(at, i)) for i, x in enumerate(v[1]))
            return v if all(a is b for a, b in zip(fs, v[1])) else ("tup", fs)
        if tag == "clo":
            return ("clo", v[1], tuple(fix(x, sub(at, i)) for i, x in enumerate(v[2])))
        if tag == "cor":
            return ("cor", v[1], v[2], tuple(fix(x) for x in v[3]), tuple((a, fix(b)) for a, b in v[4]))
        return v

    newidx = {}

    def fix_pinned(v, info):
        # info: list of (itercell, (front, back)).  absorb separately before, between and behind the cursors
        idx, back = info[0][1]
        slots = v[2]
        if any(i != (idx, back) for _, i in info):
            return v
        n = len(slots) - back
        out = []
        for part in (slots[:idx], slots[idx:n], slots[n:]):
            a, _ = absorb(I, st, part, refd, keep, wv)
            out.append(tuple(("m", simplify_len(st, s[1])) if s[0] == "m" else s for s in a))
        for ic, i in info:
            newidx[ic] = (len(out[0]), len(out[2]))
        return ("seq", v[1], out[0] + out[1] + out[2])

    for c in list(st.heap):
        v = st.heap[c]
        w = fix(v, (("c", c), ()))
        if w is not v:
            st.heap[c] = w
    for u in list(st.exp):
        v = st.exp[u]
        if v[0] == "seq" or v[0] == "adt":
            w = fix(v, (("x", u), ()))
            if w is not v:
                st.exp[u] = w
    if newidx:
        for c in list(st.heap):
            v = st.heap[c]
            if contains_refiter(v):
                st.heap[c] = reindex(v, newidx)


def sub(at, i):
    return None if at is None else (at[0], at[1] + (i,))


def holder(st, cell, path):
    """where the value at cell.path is really stored: ((kind, id), (field index, ...))"""
    own, at = ("c", cell), ()
    v = st.heap.get(cell, ("moved",))
    k = 0
    while True:
        while v[0] == "u" and v[2] in st.exp and st.exp[v[2]][0] != "lin":
            own, at = ("x", v[2]), ()
            v = st.exp[v[2]]
        if k >= len(path):
            return (own, at)
        x = path[k]
        k += 1
        i = x[1] if x[0] == "f" else x[2] if x[0] == "v" else None
        fs = v[3] if v[0] == "adt" else v[1] if v[0] in ("tup", "array") else v[2] if v[0] == "clo" else None
        if i is None or fs is None or i >= len(fs):
            return (("?", cell), path)
        at = at + (i,)
        v = fs[i]


def has_seq(v):
    tag = v[0]
    if tag == "seq":
        return True
    if tag == "adt":
        return any(has_seq(x) for x in v[3])
    if tag == "tup":
        return any(has_seq(x) for x in v[1])
    return False


def contains_refiter(v):
    tag = v[0]
    if tag == "iter":
        return v[1] == "ref"
    if tag == "adt":
        return any(contains_refiter(x) for x in v[3])
    if tag == "tup":
        return any(contains_refiter(x) for x in v[1])
    if tag == "clo":
        return any(contains_refiter(x) for x in v[2])
    if tag == "cor":
        return any(contains_refiter(x) for x in v[3]) or any(contains_refiter(x) for _, x in v[4])
    return False


def collect_iters(v, out):
    tag = v[0]
    if tag == "iter" and v[1] == "ref":
        out.setdefault(v[2], []).append(((v[2], v[3], v[4], v[6]), (v[4], v[6])))
    elif tag == "adt":
        for x in v[3]:
            collect_iters(x, out)
    elif tag == "tup":
        for x in v[1]:
            collect_iters(x, out)
    elif tag == "clo":
        for x in v[2]:
            collect_iters(x, out)
    elif tag == "cor":
        for x in v[3]:
            collect_iters(x, out)
        for _, x in v[4]:
            collect_iters(x, out)


def reindex(v, m):
    tag = v[0]
    if tag == "iter" and v[1] == "ref":
        k = (v[2], v[3], v[4], v[6])
        if k in m:
            return v[:4] + (m[k][0], v[5], m[k][1])
        return v
    if tag == "adt":
        return ("adt", v[1], v[2], tuple(reindex(x, m) for x in v[3]))
    if tag == "tup":
        return ("tup", tuple(reindex(x, m) for x in v[1]))
    if tag == "clo":
        return ("clo", v[1], tuple(reindex(x, m) for x in v[2]))
    if tag == "cor":
        return ("cor", v[1], v[2], tuple(reindex(x, m) for x in v[3]), tuple((a, reindex(b, m)) for a, b in v[4]))
    return v


class Ren:
    def __init__(self, I, st):
        self.I = I
        self.st = st
        self.cells = {}
        self.uids = {}
        self.queue = []

    def cell(self, c):
        r = self.cells.get(c)
        if r is None:
            r = self.cells[c] = len(self.cells) + 1
            self.queue.append(c)
        return r

    def uid(self, u):
        r = self.uids.get(u)
        if r is None:
            r = self.uids[u] = len(self.uids) + 1
        return r

    def path(self, p):
        return tuple(x[:-1] if x[0] in ("f", "v") else x for x in p)

    def val(self, v):
        tag = v[0]
        if tag == "u":
            r = self.st.exp.get(v[2])
            if r is not None:
                if r[0] == "lin":
                    return self.val(r)
                return self.val(r)
            return ("u", v[1], self.uid(v[2]))
        if tag in ("int", "moved", "zst", "fn", "str", "static", "ord", "ev", "taken"):
            return v
        if tag == "lin":
            return ("lin", v[1], tuple((self.uid(s), c) for s, c in v[2]))
        if tag == "adt":
            return ("adt", v[1], v[2], tuple(self.val(x) for x in v[3]))
        if tag in ("tup", "array"):
            return (tag, tuple(self.val(x) for x in v[1]))
        if tag == "clo":
            return ("clo", v[1], tuple(self.val(x) for x in v[2]))
        if tag == "cor":
            return ("cor", v[1], v[2], tuple(self.val(x) for x in v[3]), tuple((a, self.val(x)) for a, x in v[4]))
        if tag == "ref":
            return ("ref", self.cell(v[1]), self.path(v[2]), v[3])
        if tag in ("box", "arc", "weak", "mutex", "guard"):
            return (tag, self.cell(v[1])) + tuple(v[2:])
        if tag in ("atomic", "ctx", "crx", "event", "pos"):
            return (tag, self.cell(v[1]))
        if tag == "listener":
            return (tag, self.cell(v[1]))
        if tag == "waker":
            return ("waker", self.uid(v[1]) if v[1] >= 0 else v[1])
        if tag == "wakerctx":
            return (tag, self.val(v[1]))
        if tag == "cch":
            return (tag, None if v[1] is None else self.val(v[1]), v[2], v[3], None if v[4] is None else self.val(v[4]), v[5])
        if tag == "seq":
            return (tag, v[1], tuple(("e", self.cell(s[1])) if s[0] == "e" else ("m", self.val(s[1])) for s in v[2]))
        if tag == "iter":
            if v[1] == "own":
                return (tag, "own", tuple(("e", self.cell(s[1])) if s[0] == "e" else ("m", self.val(s[1])) for s in v[2]), v[3])
            return (tag, "ref", self.cell(v[2]), self.path(v[3])) + tuple(v[4:])
        if tag in ("dyn", "opaque"):
            return (tag, v[1], self.uid(v[2]))
        if tag == "union":
            return (tag, v[1], self.val(v[2]))
        return v


def canon_key(I, st):
    h = tuple((f.fid, f.bb) for f in st.frames)
    # widen where this very path keeps coming back
    lv = st.ghost.get("_lv", {})
    n = lv.get(h, 0) + 1
    st.ghost["_lv"] = {**lv, h: n}
    if n > 8:
        st.ghost["_widen"] = True
    normalise(I, st)
    st.ghost.pop("_widen", None)
    R = Ren(I, st)
    out = []
    for fr in st.frames:
        if fr.work is None:
            n = len(I.F.fns[fr.fid]["body"]["locals"])
            loc = tuple(R.val(st.heap[c]) if c in st.heap else None for c in range(fr.base, fr.base + n))
            d = fr.dest
            dd = (R.cell(d[0]), R.path(d[1])) if isinstance(d, tuple) else d
            out.append((fr.fid, fr.bb, fr.si, loc, dd))
        else:
            its = []
            for it in fr.work:
                row = [it[0]]
                for j, x in enumerate(it[1:]):
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        row.append(R.val(x))
                    elif it[0] in ("dropat", "dropfields", "setmoved", "free") and j == 0:
                        row.append(R.cell(x))
                    elif isinstance(x, tuple):
                        row.append(R.path(x))
                    elif isinstance(x, list):
                        row.append(tuple(R.val(y) for y in x))
                    elif isinstance(x, int):
                        row.append(x)
                    else:
                        row.append(getattr(x, "__name__", "?"))
                its.append(tuple(row))
            d = fr.dest
            dd = (R.cell(d[0]), R.path(d[1])) if isinstance(d, tuple) else d
            out.append((-1, tuple(its), dd, None if fr.ret is None else R.val(fr.ret), None if fr.last is None else R.val(fr.last)))
    g = []
    for k in sorted(st.ghost):
        if k in ("ret",):
            g.append((k, R.cell(st.ghost[k])))
        elif k in ("args", "forgot", "keep"):
            g.append((k, tuple(R.val(a) for a in st.ghost[k])))
        elif k.startswith("shapev_"):
            g.append((k, tuple(R.val(a) for a in st.ghost[k])))
        elif isinstance(st.ghost[k], tuple) and st.ghost[k][:1] == ("lin",):
            g.append((k, R.val(st.ghost[k])))      # (a number that a rule compares later)
    done = {}
    heap = []
    i = 0
    mm = {}
    while True:
        while i < len(R.queue):
            c = R.queue[i]
            i += 1
            v = st.heap.get(c)
            heap.append((R.cells[c], R.val(v) if v is not None else None))
        # what is known about the objects that are still there
        more = sorted((R.cells[k[1]], str(k[2:])) + (k,) for k in st.memo if k[0] == "dynget" and k not in mm and k[1] in R.cells)
        for m in more:
            v = st.memo[m[2]]
            mm[m[2]] = R.val(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else v
        if not more:
            break
    mon = I.ghost_key(st, R) if hasattr(I, "ghost_key") else ()
    sh = tuple(sorted(R.cells[c] for c in st.shared if c in R.cells))
    dead = tuple(sorted(R.cells[c] for c in st.ghost.get("dead", ()) if c in R.cells))
    seen = tuple(sorted(R.cells[c] for c in st.ghost.get("seen", ()) if c in R.cells))
    held = tuple((R.cells.get(h[0], -1), h[1]) for h in st.held)
    # garbage collection
    live = set(R.cells)
    base = set()
    for fr in st.frames:
        if fr.work is None:
            n = len(I.F.fns[fr.fid]["body"]["locals"])
            base.update(range(fr.base, fr.base + n))
    live |= base | {0}
    for c in [c for c in st.heap if c not in live]:
        del st.heap[c]
    st.shared = frozenset(c for c in st.shared if c in live)
    live_uids = set(R.uids)
    # symbols reachable
    for u in [u for u in st.exp if u not in live_uids and not expanded_live(st, u, live_uids)]:
        pass
    st.zone.restrict(set(R.uids))
    st.zone.clip(2)
    zk = st.zone.key(R.uids)
    for k in [k for k in st.memo if k[0] in ("dynget", "addr", "top") and k[1] not in live]:
        del st.memo[k]
    memo = tuple(sorted((R.cells[k[1]], str(k[2:]), str(v)) for k, v in mm.items()))
    return (tuple(out), tuple(g), tuple(heap), sh, dead, seen, held, mon, memo, bool(st.ghost.get("imprecise"))), zk


def known(visited, key):
    """was a state at least as general explored?  (same shape, weaker facts about the numbers); else remember this one"""
    base, (items, forms) = key
    new = {(a, b): v for a, b, v in items}
    nf = dict(forms)
    olds = visited.get(base)
    if olds is None:
        visited[base] = [(new, nf)]
        return False
    for od, of in olds:
        if all(new.get(p, INF) <= v for p, v in od.items()) and all(
                f in nf and nf[f][0] >= v[0] and nf[f][1] <= v[1] for f, v in of.items()):
            return True
    olds[:] = [(od, of) for od, of in olds if not (
        all(od.get(p, INF) <= v for p, v in new.items()) and all(
            f in of and of[f][0] >= v[0] and of[f][1] <= v[1] for f, v in nf.items()))]
    olds.append((new, nf))
    return False


def expanded_live(st, u, live):
    return True
