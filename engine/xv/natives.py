"""Abstract semantics of the library operations the analysed crate is built on (std collections, Arc/Weak,
mutexes, atomics, wakers, catty one-shot channels, event-listener events).

Sequence values are ('seq', tid, slots) with slots ('e', cell) for a tracked element and ('m', n) for n further
elements about which nothing is known (n a linear form)."""
from .zone import INF, lin, parts, comb
from .interp import UNIT, MOVED, Stop, Fork, ForkExp, ForkFact

NAT = {}
EXPAND = {}
DROP = {}


def nat(*names):
    def deco(f):
        for n in names:
            NAT[n] = f
        return f
    return deco


def expand(*names):
    def deco(f):
        for n in names:
            EXPAND[n] = f
        return f
    return deco


SUFFIX = {}


def lookup(F, f, key):
    r = NAT.get(key)
    if r is None:
        r = NAT.get(f["path"])
    if r is None and f["crate"] == "xv_harness" and f["name"].startswith("prim_"):
        r = NAT.get("prim:" + f["name"])
    if r is None and f["crate"] == "core" and ("::const_ptr::" in f["path"] or "::mut_ptr::" in f["path"]) and "body" not in f:
        r = PTR.get(f["name"])
    if r is None and f["crate"] == "core" and f["path"].startswith("core::num::{impl") and "body" not in f:
        r = NUM.get(f["name"])
    if r is None and f["crate"] == "tracing_core" and f["name"] == "next" and "field" in f["path"]:
        return next_field
    if r is None and f["crate"] in ("tracing", "tracing_core"):
        nm = f["name"]
        if nm not in ("in_scope", "poll", "instrument", "{closure}", "drop", "into_inner") and "body" in f and not f.get("trait", "").startswith("core::ops"):
            return None
    return r


def next_field(I, st, c):
    """the next field of a span's metadata (tracing's macros ask for as many as they declared)"""
    t = [v for v in I.T[c.rty]["v"] if v["n"] == "Some"][0]["f"][0]
    return Some(I, c.rty, I.unk(st, t[1] if isinstance(t, (list, tuple)) else t["t"] if isinstance(t, dict) else t))


PTR = {}
NUM = {}


def num_ops():
    """arithmetic methods of the integer types (overflow at the upper end is outside the scope)"""
    def un(I, st):
        s = st.fresh()
        st.zone.declare(s)
        return ("lin", 0, ((s, 1),))

    def two(I, st, c):
        return I.num(st, c.args[0]), I.num(st, c.args[1])

    def unsigned(I, c):
        t = c.f["in"][0]
        return t >= 0 and I.T[t]["s"].startswith("u")

    def plain(op):
        return lambda I, st, c: I.binop(st, op, *two(I, st, c))

    def below(I, st, c):
        a, b = two(I, st, c)
        return unsigned(I, c) and I.compare(st, "Lt", a, b)[1] == 1

    for n, op in (("add", "Add"), ("mul", "Mul"), ("div", "Div"), ("rem", "Rem"), ("shl", "Shl"), ("shr", "Shr")):
        NUM["wrapping_" + n] = NUM["unchecked_" + n] = NUM["saturating_" + n] = NUM["strict_" + n] = plain(op)
        NUM["checked_" + n] = lambda I, st, c, op=op: Some(I, c.rty, I.binop(st, op, *two(I, st, c)))
        NUM["overflowing_" + n] = lambda I, st, c, op=op: ("tup", (I.binop(st, op, *two(I, st, c)), ("int", 0)))
    sub = plain("Sub")
    NUM["unchecked_sub"] = NUM["strict_sub"] = sub
    NUM["wrapping_sub"] = lambda I, st, c: un(I, st) if below(I, st, c) else sub(I, st, c)
    NUM["saturating_sub"] = lambda I, st, c: ("int", 0) if below(I, st, c) else sub(I, st, c)
    NUM["checked_sub"] = lambda I, st, c: Nothing(I, c.rty) if below(I, st, c) else Some(I, c.rty, sub(I, st, c))
    NUM["overflowing_sub"] = lambda I, st, c: ("tup", (un(I, st), ("int", 1))) if below(I, st, c) else ("tup", (sub(I, st, c), ("int", 0)))

    def abs_diff(I, st, c):
        a, b = two(I, st, c)
        return I.binop(st, "Sub", b, a) if I.compare(st, "Lt", a, b)[1] == 1 else I.binop(st, "Sub", a, b)
    NUM["abs_diff"] = abs_diff


num_ops()


def ptr_ops():
    def val(I, st, x):
        c, p, m = I.deref(st, I.force(st, x))
        return I.read(st, c, p)

    def rel(op):
        return lambda I, st, c: I.compare(st, op, val(I, st, c.args[0]), val(I, st, c.args[1]))

    def order(I, st, c):
        v = I.binop(st, "Cmp", val(I, st, c.args[0]), val(I, st, c.args[1]))
        return Some(I, c.rty, v) if I.F.nkey(c.rty) == "option:Option" else v
    for n, op in (("eq", "Eq"), ("ne", "Ne"), ("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
        PTR[n] = rel(op)
    PTR["cmp"] = PTR["partial_cmp"] = order
    PTR["addr"] = PTR["expose_provenance"] = lambda I, st, c: I.num(st, c.args[0])
    PTR["cast"] = PTR["cast_mut"] = PTR["cast_const"] = lambda I, st, c: c.args[0]
    NAT["core::ptr::eq"] = NAT["core::ptr::addr_eq"] = lambda I, st, c: I.compare(st, "Eq", c.args[0], c.args[1])


ptr_ops()


# ------------------------------------------------------------------ helpers
def adt_variant(I, tid, name, fields):
    t = I.T[tid]
    for i, v in enumerate(t["v"]):
        if v["n"] == name:
            return ("adt", tid, i, tuple(fields))
    raise Stop("no-variant", (t.get("s"), name))


def vname(I, v):
    if v[0] != "adt" or v[1] < 0:
        return None
    return I.T[v[1]]["v"][v[2]]["n"]


def Some(I, tid, x):
    return adt_variant(I, tid, "Some", (x,))


def Nothing(I, tid):
    return adt_variant(I, tid, "None", ())


def Ok(I, tid, x):
    return adt_variant(I, tid, "Ok", (x,))


def Err(I, tid, x):
    return adt_variant(I, tid, "Err", (x,))


def field_ty(I, tid, variant, i=0):
    for v in I.T[tid]["v"]:
        if v["n"] == variant:
            return v["f"][i][1]
    return -1


def recv(I, st, v):
    """the value behind a (possibly nested) reference, with its place"""
    v = I.force(st, v)
    while True:
        if v[0] == "ref":
            c, p = v[1], v[2]
            w = I.force(st, I.read(st, c, p))
            if w[0] in ("ref",):
                v = w
                continue
            return w, c, p
        if v[0] == "adt" and v[3] and I.F.nkey(v[1]) == "std:Pin":
            v = I.force(st, v[3][0])
            continue
        c = st.cell(v)
        return v, c, ()


def fresh_int(st, lo=0):
    s = st.fresh()
    st.zone.declare(s, lo)
    return ("lin", 0, ((s, 1),))


def imprecise(I, st, why):
    if not st.ghost.get("imprecise"):
        st.ghost["imprecise"] = why
    I.event(st, "imprecise", why)


def is_shared(st, cell):
    return cell in st.shared


def value_cells(I, st, v, seen, uids=None):
    """collect the cells (transitively) referenced by value v"""
    stack = [v]
    while stack:
        v = stack.pop()
        tag = v[0]
        if tag == "u":
            if uids is not None:
                uids.add(v[2])
            r = st.exp.get(v[2])
            if r is not None:
                stack.append(r)
        elif tag == "adt":
            stack.extend(v[3])
        elif tag in ("tup", "array"):
            stack.extend(v[1])
        elif tag == "clo":
            stack.extend(v[2])
        elif tag == "cor":
            stack.extend(v[3])
            stack.extend(x for _, x in v[4])
        elif tag in ("ref", "box", "arc", "weak", "mutex", "atomic", "guard", "ctx", "crx", "event", "pos"):
            c = v[1]
            if c not in seen:
                seen.add(c)
                if c in st.heap:
                    stack.append(st.heap[c])
        elif tag == "cch":
            if v[1] is not None:
                stack.append(v[1])
            if v[4] is not None:
                stack.append(v[4])
        elif tag == "listener":
            if v[1] not in seen:
                seen.add(v[1])
                if v[1] in st.heap:
                    stack.append(st.heap[v[1]])
        elif tag == "wakerctx":
            stack.append(v[1])
        elif tag == "seq":
            for s in v[2]:
                if s[0] == "e" and s[1] not in seen:
                    seen.add(s[1])
                    if s[1] in st.heap:
                        stack.append(st.heap[s[1]])
        elif tag == "iter":
            if v[1] == "own":
                for s in v[2]:
                    if s[0] == "e" and s[1] not in seen:
                        seen.add(s[1])
                        if s[1] in st.heap:
                            stack.append(st.heap[s[1]])
            else:
                c = v[2]
                if c not in seen:
                    seen.add(c)
                    if c in st.heap:
                        stack.append(st.heap[c])
        elif tag == "union":
            stack.append(v[2])
        elif tag in ("dyn", "opaque"):
            if uids is not None:
                uids.add(v[2])
    return seen


def reaches(I, st, v, uid=None, cell=None):
    uids = set()
    cells = set()
    value_cells(I, st, v, cells, uids)
    if uid is not None and uid in uids:
        return True
    if cell is not None and (cell in cells):
        return True
    return False


def publish(I, st, v):
    cells = set()
    value_cells(I, st, v, cells)
    st.shared = st.shared | frozenset(cells)


# ------------------------------------------------------------------ prims (unknown code)
@nat("prim:prim_any")
def _(I, st, c):
    return I.unk(st, c.rty)


@nat("prim:prim_ev")
def _(I, st, c):
    what = I.force(st, c.args[0])
    w = what[1] if what[0] == "str" else "?"
    if what[0] == "ref":
        x = I.read(st, what[1], what[2])
        w = x[1] if x[0] == "str" else "?"
    I.event(st, "user", w, c.args[1])
    return UNIT


@nat("prim:prim_user_poll")
def _(I, st, c):
    what = I.force(st, c.args[0])
    r = I.choose(st, 2)
    nm = what[1] if what[0] == "str" else "?"
    if r == 0:
        v = I.unk(st, field_ty(I, c.rty, "Ready"))
        I.event(st, "user_ready", nm, v)
        return adt_variant(I, c.rty, "Ready", (v,))
    I.event(st, "user_pending", nm, c.args[1])
    I.event(st, "registered", "user", waker_of(I, st, c.args[1]))
    return adt_variant(I, c.rty, "Pending", ())


# ------------------------------------------------------------------ mem
@nat("core::mem::replace")
def _(I, st, c):
    r = I.force(st, c.args[0])
    cell, path, m = I.deref(st, r)
    old = I.read(st, cell, path)
    I.write(st, cell, path, c.args[1])
    I.event(st, "replace", cell, path, old, c.args[1])
    return old


@nat("core::mem::swap")
def _(I, st, c):
    a = I.deref(st, I.force(st, c.args[0]))
    b = I.deref(st, I.force(st, c.args[1]))
    x, y = I.read(st, a[0], a[1]), I.read(st, b[0], b[1])
    I.write(st, a[0], a[1], y)
    I.write(st, b[0], b[1], x)
    return UNIT


@nat("core::mem::take")
def _(I, st, c):
    r = I.force(st, c.args[0])
    cell, path, m = I.deref(st, r)
    old = I.norm(st, I.read(st, cell, path))
    tid = c.rty
    nk = I.F.nkey(tid)
    if nk in SEQTYPES:
        old = I.force(st, old)
        I.write(st, cell, path, ("seq", tid, ()))
        I.event(st, "seq_take", cell, path, old)
        return old
    if nk == "option:Option":
        I.write(st, cell, path, Nothing(I, tid))
        return old
    if I.T[tid]["k"] in ("int", "bool"):
        I.write(st, cell, path, ("int", 0))
        return old
    # default of an arbitrary type
    I.write(st, cell, path, I.unk(st, tid))
    return old


@nat("core::mem::forget")
def _(I, st, c):
    st.ghost["forgot"] = st.ghost.get("forgot", ()) + tuple(c.args)
    return UNIT


@nat("core::ptr::read", "core::ptr::read_volatile", "core::intrinsics::read_via_copy")
def _(I, st, c):
    cell, path, m = I.deref(st, I.force(st, c.args[0]))
    return I.read(st, cell, path)


@nat("core::ptr::write", "core::intrinsics::write_via_move")
def _(I, st, c):
    cell, path, m = I.deref(st, I.force(st, c.args[0]))
    I.write(st, cell, path, c.args[1])
    return UNIT


@nat("core::ptr::drop_in_place")
def _(I, st, c):
    I.push_work(st, [("drop_ref", c.args[0], I.T[c.argtys[0]]["p"] if c.argtys else -1)], UNIT, c.dest)
    return None


@nat("core::any::type_name")
def _(I, st, c):
    return I.unk(st, c.rty)


@nat("core::hint::spin_loop", "core::sync::atomic::fence", "core::sync::atomic::compiler_fence")
def _(I, st, c):
    if c.f["name"] == "fence":
        I.event(st, "fence", ordname(I, st, c.args[0]))
    return UNIT


# ------------------------------------------------------------------ Box
@nat("std:Box.new", "alloc::boxed::box_new")
def _(I, st, c):
    return ("box", st.cell(c.args[0]), None)


@nat("std:Box.pin")
def _(I, st, c):
    return ("adt", c.rty, 0, (("box", st.cell(c.args[0]), None),))


@nat("std:Box.into_pin", )
def _(I, st, c):
    return ("adt", c.rty, 0, (c.args[0],))


@nat("std:Box.as_ref", "std:Box.as_mut", "std:Box.deref", "std:Box.deref_mut", "std:Box.borrow", "std:Box.borrow_mut")
def _(I, st, c):
    b, cell, path = recv(I, st, c.args[0])
    if b[0] == "box":
        return ("ref", b[1], (), b[2])
    return I.unk(st, c.rty)


@nat("std:Box.drop")
def _(I, st, c):
    return UNIT


@nat("std:Box.leak", "std:Box.into_raw")
def _(I, st, c):
    b = I.force(st, c.args[0])
    if b[0] == "box":
        return ("ref", b[1], (), b[2])
    return I.unk(st, c.rty)


@expand("std:Box")
def _(I, st, tid, t):
    p = t["a"][0]
    if I.T[p]["k"] == "dyn":
        return ("box", st.cell(("dyn", p, st.fresh())), ("dynu", p))
    return ("box", st.cell(I.unk(st, p)), None)


def drop_box(I, st, v, cell, path, tid):
    p = -1
    if isinstance(v[2], int):
        p = I.F.vts[v[2]]["c"]
    elif isinstance(v[2], tuple):
        p = v[2][1]
    else:
        t = I.T[tid]
        if t["k"] == "adt" and t["a"]:
            p = t["a"][0]
    if p < 0:
        return []
    return [("dropat", v[1], (), p), ("free", v[1])]


DROP["box"] = drop_box


# ------------------------------------------------------------------ Arc / Weak
@nat("std:Arc.new")
def _(I, st, c):
    cell = st.cell(c.args[0])
    st.ghost["arcty"] = {**st.ghost.get("arcty", {}), cell: I.T[c.rty]["a"][0]}
    return ("arc", cell, None)


@nat("std:Arc.pin")
def _(I, st, c):
    return ("adt", c.rty, 0, (("arc", st.cell(c.args[0]), None),))


@nat("std:Arc.clone", "std:Weak.clone")
def _(I, st, c):
    a, cell, path = recv(I, st, c.args[0])
    if a[0] in ("arc", "weak"):
        return a
    return I.unk(st, c.rty)


@nat("std:Arc.as_ref", "std:Arc.deref", "std:Arc.borrow", "std:Arc.as_ptr")
def _(I, st, c):
    a, cell, path = recv(I, st, c.args[0])
    if a[0] == "arc":
        return ("ref", a[1], (), a[2])
    return I.unk(st, c.rty)


@nat("std:Weak.as_ptr")
def _(I, st, c):
    a, cell, path = recv(I, st, c.args[0])
    if a[0] == "weak":
        return ("ref", a[1], (), a[2])
    return I.unk(st, c.rty)


@nat("std:Arc.downgrade")
def _(I, st, c):
    a, cell, path = recv(I, st, c.args[0])
    if a[0] == "arc":
        return ("weak", a[1], a[2])
    return I.unk(st, c.rty)


@nat("std:Weak.new", "std:Weak.default")
def _(I, st, c):
    cell = st.cell(MOVED)
    st.ghost["dead"] = st.ghost.get("dead", frozenset()) | {cell}
    return ("weak", cell, None)


@nat("std:Arc.ptr_eq", "std:Weak.ptr_eq")
def _(I, st, c):
    a, _, _ = recv(I, st, c.args[0])
    b, _, _ = recv(I, st, c.args[1])
    return I.compare(st, "Eq", ("ref", a[1], (), None), ("ref", b[1], (), None))


def arcs_to(I, st, cell, skip=None):
    """number of Arc values to `cell` anywhere in the state"""
    n = 0
    for c, v in list(st.heap.items()):
        n += count_arc(I, st, v, cell, 0)
    for v in st.exp.values():
        n += count_arc(I, st, v, cell, 0)
    for w in st.frames:
        if w.ret is not None:
            n += count_arc(I, st, w.ret, cell, 0)
        if w.last is not None:
            n += count_arc(I, st, w.last, cell, 0)
        if w.work:
            for it in w.work:
                for x in it[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        n += count_arc(I, st, x, cell, 0)
                    elif isinstance(x, list):
                        for y in x:
                            n += count_arc(I, st, y, cell, 0)
    return n


def count_arc(I, st, v, cell, d):
    tag = v[0]
    if tag == "arc":
        return 1 if v[1] == cell else 0
    if tag == "adt":
        return sum(count_arc(I, st, x, cell, d) for x in v[3])
    if tag in ("tup", "array"):
        return sum(count_arc(I, st, x, cell, d) for x in v[1])
    if tag == "clo":
        return sum(count_arc(I, st, x, cell, d) for x in v[2])
    if tag == "cor":
        return sum(count_arc(I, st, x, cell, d) for x in v[3]) + sum(count_arc(I, st, x, cell, d) for _, x in v[4])
    if tag == "cch":
        return (count_arc(I, st, v[1], cell, d) if v[1] is not None else 0)
    return 0


def is_dead(st, cell):
    return cell in st.ghost.get("dead", ())


def alive_choice(I, st, w, tid=-1):
    """may the target of Weak w be alive?  (True/False, forking when unknown)"""
    cell = w[1]
    if is_dead(st, cell):
        return False
    if arcs_to(I, st, cell) > 0:
        return True
    if is_shared(st, cell):
        r = I.choose(st, 2)
        if r == 1:
            st.ghost["dead"] = st.ghost.get("dead", frozenset()) | {cell}
            I.event(st, "weak_dead", cell, tid)
            return False
        return True
    st.ghost["dead"] = st.ghost.get("dead", frozenset()) | {cell}
    return False


@nat("std:Weak.upgrade")
def _(I, st, c):
    w, cell, path = recv(I, st, c.args[0])
    if w[0] != "weak":
        return I.unk(st, c.rty)
    if alive_choice(I, st, w, c.f["in"][0]):
        return Some(I, c.rty, ("arc", w[1], w[2]))
    return Nothing(I, c.rty)


@nat("std:Weak.strong_count")
def _(I, st, c):
    w, cell, path = recv(I, st, c.args[0])
    if w[0] != "weak":
        return fresh_int(st)
    if alive_choice(I, st, w, c.f["in"][0]):
        return fresh_int(st, 1)
    return ("int", 0)


@nat("std:Arc.strong_count", "std:Arc.weak_count", "std:Weak.weak_count")
def _(I, st, c):
    return fresh_int(st, 1 if c.f["name"] == "strong_count" else 0)


@nat("std:Arc.get_mut")
def _(I, st, c):
    a, cell, path = recv(I, st, c.args[0])
    if a[0] != "arc":
        return I.unk(st, c.rty)
    if is_shared(st, a[1]):
        if I.choose(st, 2) == 1:
            return Nothing(I, c.rty)
    elif arcs_to(I, st, a[1]) > 1:
        return Nothing(I, c.rty)
    return Some(I, c.rty, ("ref", a[1], (), a[2]))


@nat("std:Arc.try_unwrap", "std:Arc.into_inner")
def _(I, st, c):
    a = I.force(st, c.args[0])
    if a[0] != "arc":
        return I.unk(st, c.rty)
    un = c.f["name"] == "try_unwrap"
    n = arcs_to(I, st, a[1])
    if is_shared(st, a[1]):
        if I.choose(st, 2) == 1:
            return Err(I, c.rty, a) if un else Nothing(I, c.rty)
    elif n > 0:
        return Err(I, c.rty, a) if un else Nothing(I, c.rty)
    v = st.heap.get(a[1], MOVED)
    return Ok(I, c.rty, v) if un else Some(I, c.rty, v)


@expand("std:Arc")
def _(I, st, tid, t):
    p = t["a"][0]
    if I.T[p]["k"] == "dyn":
        c = st.cell(("dyn", p, st.fresh()))
        st.shared = st.shared | {c}
        return ("arc", c, ("dynu", p))
    c = st.cell(I.unk(st, p))
    st.shared = st.shared | {c}
    return ("arc", c, None)


@expand("std:Weak")
def _(I, st, tid, t):
    p = t["a"][0]
    c = st.cell(I.unk(st, p))
    st.shared = st.shared | {c}
    return ("weak", c, None)


def drop_arc(I, st, v, cell, path, tid):
    tgt = v[1]
    p = -1
    if isinstance(v[2], int):
        p = I.F.vts[v[2]]["c"]
    elif isinstance(v[2], tuple):
        p = v[2][1]
    elif I.T[tid]["k"] == "adt" and I.T[tid]["a"]:
        p = I.T[tid]["a"][0]
    I.event(st, "arc_drop", tgt, p)
    if is_shared(st, tgt):
        return []
    if arcs_to(I, st, tgt) > 1:     # the one being dropped is still stored
        return []
    st.ghost["dead"] = st.ghost.get("dead", frozenset()) | {tgt}
    if p < 0:
        return []
    return [("dropat", tgt, (), p)]


DROP["arc"] = drop_arc
DROP["weak"] = lambda I, st, v, cell, path, tid: []


# ------------------------------------------------------------------ mutexes
def mk_mutex(flavor):
    def f(I, st, c):
        return ("mutex", st.cell(c.args[0]), flavor)
    return f


NAT["spin:Mutex.new"] = mk_mutex("spin")
NAT["std:Mutex.new"] = mk_mutex("std")
NAT["spin:Mutex.default"] = lambda I, st, c: I.unk(st, c.rty)
NAT["std:Mutex.from"] = mk_mutex("std")


def exp_mutex(flavor):
    def f(I, st, tid, t):
        c = st.cell(I.unk(st, t["a"][0]))
        st.shared = st.shared | {c}
        return ("mutex", c, flavor)
    return f


EXPAND["spin:Mutex"] = exp_mutex("spin")
EXPAND["std:Mutex"] = exp_mutex("std")


def content_ty(I, fnrec, rty):
    # fn lock(&self) -> Guard<'_, T>: T is the argument of the mutex type
    return I.T[fnrec["self"]]["a"][0] if fnrec["self"] >= 0 else -1


def do_lock(I, st, c, tryl=False):
    m, cell, path = recv(I, st, c.args[0])
    if m[0] != "mutex":
        return None, None
    cc = m[1]
    tid = content_ty(I, c.f, c.rty)
    if any(h[0] == cc for h in st.held):
        I.event(st, "relock", cc, m[2], tid)
        raise Stop("deadlock", "mutex locked again while held")
    if is_shared(st, cc) and not st.ghost.get("exclusive"):
        if m[2] == "std" or tid in st.ghost.get("always_havoc", ()):
            st.heap[cc] = I.unk(st, tid)
        else:
            seen = st.ghost.get("seen", frozenset())
            if st.held and cc in seen:
                pass            # stable while the outer lock is held
            elif st.heap[cc][0] == "u" and st.heap[cc][2] not in st.exp:
                pass            # nothing known anyway
            else:
                if I.choose(st, 2) == 1:
                    st.heap[cc] = I.unk(st, tid)
            st.ghost["seen"] = st.ghost.get("seen", frozenset()) | {cc}
    st.held = st.held + ((cc, m[2], tid),)
    I.event(st, "lock", cc, m[2], tid)
    return m, ("guard", cc, m[2], tid)


@nat("spin:Mutex.lock")
def _(I, st, c):
    m, g = do_lock(I, st, c)
    return g if g else I.unk(st, c.rty)


@nat("std:Mutex.lock")
def _(I, st, c):
    m, g = do_lock(I, st, c)
    return Ok(I, c.rty, g) if g else I.unk(st, c.rty)


@nat("spin:Mutex.try_lock")
def _(I, st, c):
    r = I.choose(st, 2)
    if r == 1:
        return Nothing(I, c.rty)
    m, g = do_lock(I, st, c)
    return Some(I, c.rty, g) if g else I.unk(st, c.rty)


@nat("std:Mutex.try_lock")
def _(I, st, c):
    r = I.choose(st, 2)
    if r == 1:
        e = adt_variant(I, field_ty(I, c.rty, "Err"), "WouldBlock", ())
        return Err(I, c.rty, e)
    m, g = do_lock(I, st, c)
    return Ok(I, c.rty, g) if g else I.unk(st, c.rty)


@nat("spin:Mutex.get_mut", "std:Mutex.get_mut")
def _(I, st, c):
    m, cell, path = recv(I, st, c.args[0])
    r = ("ref", m[1], (), None)
    return r if m[2] == "spin" else Ok(I, c.rty, r)


@nat("spin:Mutex.into_inner", "std:Mutex.into_inner")
def _(I, st, c):
    m = I.force(st, c.args[0])
    v = st.heap.get(m[1], MOVED)
    return v if m[2] == "spin" else Ok(I, c.rty, v)


@nat("spin:Mutex.is_locked", "std:Mutex.is_poisoned")
def _(I, st, c):
    return ("int", I.choose(st, 2)) if c.f["name"] == "is_locked" else ("int", 0)


@nat("spin:MutexGuard.deref", "spin:MutexGuard.deref_mut", "std:MutexGuard.deref", "std:MutexGuard.deref_mut")
def _(I, st, c):
    g, cell, path = recv(I, st, c.args[0])
    if g[0] == "guard":
        if c.f["name"] == "deref_mut":
            I.event(st, "guard_mut", g[1], g[3])
        return ("ref", g[1], (), None)
    return I.unk(st, c.rty)


@nat("spin:MutexGuard.leak")
def _(I, st, c):
    g = I.force(st, c.args[0])
    return ("ref", g[1], (), None)


def drop_guard(I, st, v, cell, path, tid):
    cc = v[1]
    st.held = tuple(h for h in st.held if h[0] != cc)
    I.event(st, "unlock", cc, v[2], v[3])
    if is_shared(st, cc):
        publish(I, st, st.heap[cc])
        if v[2] == "std" and not st.ghost.get("exclusive") and v[3] >= 0:
            # from here on other threads may change everything this lock protects
            st.heap[cc] = I.unk(st, v[3])
            for c in st.ghost.get("seen", ()):
                w = st.heap.get(c)
                if w is not None and w[0] == "seq":
                    st.heap[c] = I.unk(st, w[1])
    if not st.held:
        st.ghost["seen"] = frozenset()
    return []


DROP["guard"] = drop_guard


def drop_mutex(I, st, v, cell, path, tid):
    t = I.T[tid]
    return [("dropat", v[1], (), t["a"][0])] if t["k"] == "adt" else []


DROP["mutex"] = drop_mutex


# ------------------------------------------------------------------ atomics
@expand("std:Atomic")
def _(I, st, tid, t):
    c = st.cell(I.unk(st, t["a"][0]))
    st.shared = st.shared | {c}
    return ("atomic", c)


@nat("std:Atomic.new")
def _(I, st, c):
    return ("atomic", st.cell(c.args[0]))


def ordname(I, st, v):
    v = I.norm(st, v)
    return vname(I, v) or "?"


def at_get(I, st, c):
    a, cell, path = recv(I, st, c.args[0])
    if a[0] != "atomic":
        return None, None
    cc = a[1]
    if is_shared(st, cc) and not st.ghost.get("exclusive"):
        old = st.heap.get(cc)
        t = old[1] if old and old[0] == "u" else None
        if t is not None and I.T[t]["k"] == "bool":
            v = I.unk(st, t)
        else:
            v = fresh_int(st)
    else:
        v = st.heap[cc]
    return cc, v


@nat("std:Atomic.load")
def _(I, st, c):
    cc, v = at_get(I, st, c)
    if cc is None:
        return I.unk(st, c.rty)
    I.event(st, "atomic", "load", cc, None, ordname(I, st, c.args[1]), v)
    return v


@nat("std:Atomic.store", "std:Atomic.swap")
def _(I, st, c):
    cc, v = at_get(I, st, c)
    if cc is None:
        return I.unk(st, c.rty)
    st.heap[cc] = c.args[1]
    I.event(st, "atomic", c.f["name"], cc, c.args[1], ordname(I, st, c.args[2]), v)
    return UNIT if c.f["name"] == "store" else v


@nat("std:Atomic.fetch_add", "std:Atomic.fetch_sub")
def _(I, st, c):
    cc, v = at_get(I, st, c)
    if cc is None:
        return I.unk(st, c.rty)
    add = c.f["name"] == "fetch_add"
    d = I.force(st, c.args[1])
    if not add and is_shared(st, cc):
        # a counter being decremented holds at least the decrement (each decrement undoes an increment)
        cs, ts = parts(v)
        if d[0] == "int":
            st.zone.add(ts, d[1] - cs, INF)
    nv = comb(v, d, 1 if add else -1) if parts(d) is not None else fresh_int(st)
    st.heap[cc] = nv
    I.event(st, "atomic", c.f["name"], cc, d, ordname(I, st, c.args[2]), v)
    return v


@nat("std:Atomic.compare_exchange", "std:Atomic.compare_exchange_weak", "std:Atomic.compare_and_swap")
def _(I, st, c):
    a, cell, path = recv(I, st, c.args[0])
    if a[0] != "atomic":
        return I.unk(st, c.rty)
    cc = a[1]
    exp, new = c.args[1], c.args[2]
    if is_shared(st, cc) or c.f["name"].endswith("weak"):
        ok = I.choose(st, 2) == 0
    else:
        ok = bool(I.compare(st, "Eq", st.heap[cc], exp)[1])
    if ok:
        st.heap[cc] = new
        I.event(st, "atomic", "cas", cc, (exp, new), ordname(I, st, c.args[3]), exp)
        return Ok(I, c.rty, exp)
    v = fresh_int(st) if is_shared(st, cc) else st.heap[cc]
    I.event(st, "atomic", "cas_fail", cc, (exp, new), ordname(I, st, c.args[4]), v)
    return Err(I, c.rty, v)


@nat("std:Atomic.fetch_update", "std:Atomic.try_update", "std:Atomic.update")
def _(I, st, c):
    # closure based update: apply the closure to one (any) current value
    cc, v = at_get(I, st, c)
    clo = c.args[3]
    ccell = st.cell(clo)
    upd = c.f["name"] == "update"

    def after(I, st, w):
        r = w.last
        if upd:
            st.heap[cc] = r
            I.event(st, "atomic", "cas", cc, (v, r), "?", v)
            w.ret = v
            return
        r = I.force(st, r)
        if vname(I, r) == "Some":
            st.heap[cc] = r[3][0]
            I.event(st, "atomic", "cas", cc, (v, r[3][0]), ordname(I, st, c.args[1]), v)
            w.ret = Ok(I, c.rty, v)
        else:
            I.event(st, "atomic", "cas_fail", cc, (v, None), ordname(I, st, c.args[2]), v)
            w.ret = Err(I, c.rty, v)
    I.push_work(st, [("callval", ("ref", ccell, (), None), ("tup", (v,)), -1), ("py", after)], None, c.dest)
    return None


DROP["atomic"] = lambda I, st, v, cell, path, tid: []


# ------------------------------------------------------------------ wakers
def waker_of(I, st, cxref):
    """the waker (value) of a task context reference"""
    cell, path, m = I.deref(st, I.force(st, cxref))
    v = I.norm(st, I.read(st, cell, path))
    if v[0] == "u":
        w = ("waker", st.fresh())
        st.exp[v[2]] = ("wakerctx", w)
        return w
    if v[0] == "wakerctx":
        return v[1]
    return ("waker", 0)


@nat("std:Context.waker")
def _(I, st, c):
    w = waker_of(I, st, c.args[0])
    return ("ref", st.cell(w), (), None)


@nat("std:Context.from_waker")
def _(I, st, c):
    w, _, _ = recv(I, st, c.args[0])
    return ("wakerctx", w)


@nat("std:Waker.clone")
def _(I, st, c):
    w, _, _ = recv(I, st, c.args[0])
    I.event(st, "waker_clone", w)
    return w


@nat("std:Waker.clone_from")
def _(I, st, c):
    w, _, _ = recv(I, st, c.args[1])
    cell, path, _ = I.deref(st, I.force(st, c.args[0]))
    I.write(st, cell, path, w)
    return UNIT


@nat("std:Waker.noop")
def _(I, st, c):
    return ("ref", st.cell(("waker", -7)), (), None)


@nat("futures_task::noop_waker::noop_waker", "futures_task::noop_waker")
def _(I, st, c):
    return ("waker", -7)


@nat("futures_task::noop_waker::noop_waker_ref", "futures_task::noop_waker_ref")
def _(I, st, c):
    return ("ref", st.cell(("waker", -7)), (), None)


@nat("std:Waker.wake")
def _(I, st, c):
    I.event(st, "wake", I.force(st, c.args[0]))
    return UNIT


@nat("std:Waker.wake_by_ref")
def _(I, st, c):
    w, _, _ = recv(I, st, c.args[0])
    I.event(st, "wake", w)
    return UNIT


@nat("std:Waker.will_wake")
def _(I, st, c):
    a, _, _ = recv(I, st, c.args[0])
    b, _, _ = recv(I, st, c.args[1])
    if a == b:
        return ("int", 1)
    r = I.choose(st, 2)
    if r and a[0] == b[0] == "waker":
        I.event(st, "same_waker", a, b)
    return ("int", r)


EXPAND["std:Waker"] = lambda I, st, tid, t: ("waker", st.fresh())
DROP["waker"] = lambda I, st, v, cell, path, tid: []
DROP["wakerctx"] = lambda I, st, v, cell, path, tid: []


# ------------------------------------------------------------------ catty one-shot channels
# cell content: ('cch', item|None, tx_alive, rx_alive, waker|None, itemty)  shared cells: fields are only hints
@nat("catty::oneshot")
def _(I, st, c):
    it = c.f["a"][0]
    cell = st.cell(("cch", None, True, True, None, it))
    return ("tup", (("ctx", cell), ("crx", cell)))


def exp_catty(tag):
    def f(I, st, tid, t):
        c = st.cell(("cch", None, None, None, None, t["a"][0]))
        st.shared = st.shared | {c}
        return (tag, c)
    return f


EXPAND["catty:Sender"] = exp_catty("ctx")
EXPAND["catty:Receiver"] = exp_catty("crx")


def catty_res_err(I, c):
    pass


@nat("catty:Sender.send")
def _(I, st, c):
    tx = I.force(st, c.args[0])
    ch = st.heap[tx[1]]
    shared = is_shared(st, tx[1])
    if shared and ch[3] is not False:
        ok = I.choose(st, 2) == 0
    else:
        ok = ch[3] is not False
    I.event(st, "catty_send", tx[1], c.args[1], ok)
    if ok:
        st.heap[tx[1]] = ("cch", c.args[1], False, ch[3], ch[4], ch[5])
        if ch[4] is not None:
            I.event(st, "wake", ch[4])
        if shared:
            publish(I, st, c.args[1])
        return Ok(I, c.rty, UNIT)
    return Err(I, c.rty, c.args[1])


@nat("catty:Receiver.poll")
def _(I, st, c):
    rx, rc, rp = recv(I, st, c.args[0])
    ch = st.heap[rx[1]]
    rdy = field_ty(I, c.rty, "Ready")
    cell = rx[1]
    w = waker_of(I, st, c.args[1])
    if ch[1] is not None and ch[1][0] != "taken":
        # item known to be there
        st.heap[cell] = ("cch", ("taken",), False, ch[3], None, ch[5])
        I.event(st, "catty_recv", cell, ch[1])
        return adt_variant(I, c.rty, "Ready", (Ok(I, rdy, ch[1]),))
    if ch[1] is not None:
        I.event(st, "catty_closed", cell)
        return adt_variant(I, c.rty, "Ready", (Err(I, rdy, I.unk(st, field_ty(I, rdy, "Err"))),))
    shared = is_shared(st, cell)
    if shared:
        r = I.choose(st, 3)
    else:
        r = 0 if ch[2] else 2
    if r == 0:
        st.heap[cell] = ("cch", None, ch[2], ch[3], w, ch[5])
        I.event(st, "registered", "catty", w, cell, shared)
        return adt_variant(I, c.rty, "Pending", ())
    if r == 1:
        it = I.unk(st, ch[5])
        st.heap[cell] = ("cch", ("taken",), False, ch[3], None, ch[5])
        I.event(st, "catty_recv", cell, it)
        return adt_variant(I, c.rty, "Ready", (Ok(I, rdy, it),))
    st.heap[cell] = ("cch", ("taken",), False, ch[3], None, ch[5])
    I.event(st, "catty_closed", cell)
    return adt_variant(I, c.rty, "Ready", (Err(I, rdy, I.unk(st, field_ty(I, rdy, "Err"))),))


@nat("catty:Receiver.try_recv")
def _(I, st, c):
    rx, rc, rp = recv(I, st, c.args[0])
    cell = rx[1]
    ch = st.heap[cell]
    okt = field_ty(I, c.rty, "Ok")
    if ch[1] is not None and ch[1][0] != "taken":
        st.heap[cell] = ("cch", ("taken",), False, ch[3], None, ch[5])
        I.event(st, "catty_recv", cell, ch[1])
        return Ok(I, c.rty, Some(I, okt, ch[1]))
    if ch[1] is not None:
        return Err(I, c.rty, I.unk(st, field_ty(I, c.rty, "Err")))
    if is_shared(st, cell):
        r = I.choose(st, 3)
    else:
        r = 0 if ch[2] else 2
    if r == 0:
        I.event(st, "catty_empty", cell)
        return Ok(I, c.rty, Nothing(I, okt))
    if r == 1:
        it = I.unk(st, ch[5])
        st.heap[cell] = ("cch", ("taken",), False, ch[3], None, ch[5])
        I.event(st, "catty_recv", cell, it)
        return Ok(I, c.rty, Some(I, okt, it))
    st.heap[cell] = ("cch", ("taken",), False, ch[3], None, ch[5])
    I.event(st, "catty_closed", cell)
    return Err(I, c.rty, I.unk(st, field_ty(I, c.rty, "Err")))


def drop_ctx(I, st, v, cell, path, tid):
    ch = st.heap.get(v[1])
    I.event(st, "catty_tx_drop", v[1])
    if ch and ch[0] == "cch":
        st.heap[v[1]] = ("cch", ch[1], False, ch[3], ch[4], ch[5])
        if ch[4] is not None:
            I.event(st, "wake", ch[4])
    return []


def drop_crx(I, st, v, cell, path, tid):
    ch = st.heap.get(v[1])
    if not ch or ch[0] != "cch":
        return []
    lost = ch[1] is None and ch[2] is not False and is_shared(st, v[1])
    I.event(st, "catty_rx_drop", v[1], lost, ch[5])
    st.heap[v[1]] = ("cch", ("taken",), ch[2], False, None, ch[5])
    if ch[1] is not None and ch[1][0] != "taken":
        c = st.cell(ch[1])
        return [("dropat", c, (), ch[5]), ("free", c)]
    return []


DROP["ctx"] = drop_ctx
DROP["crx"] = drop_crx


# ------------------------------------------------------------------ event-listener
EXPAND["event_listener:Event"] = lambda I, st, tid, t: ("event", mkshared(st, ("ev",)))


def mkshared(st, v):
    c = st.cell(v)
    st.shared = st.shared | {c}
    return c


EXPAND["event_listener:EventListener"] = lambda I, st, tid, t: ("listener", mkshared(st, ("ev",)), st.fresh())


@nat("event_listener:Event.new", "event_listener:Event.default")
def _(I, st, c):
    return ("event", st.cell(("ev",)))


@nat("event_listener:Event.listen")
def _(I, st, c):
    e, _, _ = recv(I, st, c.args[0])
    I.event(st, "listen", e[1])
    return ("listener", e[1], st.fresh())


@nat("event_listener:Event.notify", "event_listener:Event.notify_additional", "event_listener:Event.notify_relaxed", "event_listener:Event.notify_additional_relaxed")
def _(I, st, c):
    e, _, _ = recv(I, st, c.args[0])
    I.event(st, "notify", e[1], c.args[1], c.f["name"])
    return UNIT


@nat("event_listener:EventListener.poll")
def _(I, st, c):
    l, _, _ = recv(I, st, c.args[0])
    r = I.choose(st, 2)
    if r == 0:
        I.event(st, "registered", "listener", waker_of(I, st, c.args[1]))
        return adt_variant(I, c.rty, "Pending", ())
    I.event(st, "listener_ready", l[1])
    return adt_variant(I, c.rty, "Ready", (UNIT,))


DROP["event"] = lambda I, st, v, cell, path, tid: []
DROP["listener"] = lambda I, st, v, cell, path, tid: []
DROP["cch"] = lambda I, st, v, cell, path, tid: []


# ------------------------------------------------------------------ sequences
SEQTYPES = ("std:VecDeque", "std:Vec", "std:BinaryHeap", "std:LinkedList", "std:BTreeMap", "std:BTreeSet")


def elemty(I, tid):
    t = I.T[tid]
    return t["a"][0] if t["k"] == "adt" and t["a"] else -1


def exp_seq(I, st, tid, t):
    """unknown sequence: empty, or one arbitrary (witness) element among any number of others"""
    role = I.seqrole(tid) if I.shape and I.seqrole else None
    if role in I.shape:
        # the rule asks for a container of this role with exactly so many (arbitrary) elements
        cells = tuple(newelem(I, st, tid) for _ in range(I.shape[role]))
        st.ghost["shape_" + role] = cells
        st.ghost["shapev_" + role] = tuple(st.heap[x] for x in cells)
        st.ghost["wit"] = frozenset(st.ghost.get("wit", ())) | frozenset(cells)
        return ("seq", tid, tuple(("e", x) for x in cells))
    n = fresh_int(st)
    return ("seq", tid, (("m", n),))


for _k in SEQTYPES:
    EXPAND[_k] = exp_seq


def is_heap(I, tid):
    return I.F.nkey(tid) == "std:BinaryHeap"


def newelem(I, st, tid):
    c = st.cell(I.unk(st, elemty(I, tid)))
    st.shared = st.shared | {c}
    return c


def mlen(s):
    return ("int", 1) if s[0] == "e" else s[1]


def seqlen(v):
    n = ("int", 0)
    for s in v[2]:
        n = comb(n, mlen(s), 1)
    return n


def nonempty(I, st, m):
    """is the block m=('m',n) non-empty?  forks when unknown"""
    return I.compare(st, "Gt", m[1], ("int", 0))[1] == 1


def less(I, st, n):
    """n-1 as a fresh symbol constrained in the zone (keeps terms small)"""
    d = comb(n, ("int", 1), -1)
    return d


def mknew(names):
    @nat(*names)
    def _(I, st, c):
        return ("seq", c.rty, ())


mknew(["%s.%s" % (k, m) for k in SEQTYPES for m in ("new", "default", "with_capacity")])


def sref(I, st, v):
    """(&mut Seq) -> (seqvalue, cell, path)"""
    s, cell, path = recv(I, st, v)
    return s, cell, path


def sset(I, st, cell, path, s, slots):
    slots = tuple(x for x in slots if not (x[0] == "m" and x[1] == ("int", 0)))
    I.write(st, cell, path, ("seq", s[1], slots))


def names(ms, kinds=("std:VecDeque", "std:Vec")):
    return ["%s.%s" % (k, m) for k in kinds for m in ms]


@nat(*names(["push_back", "push"], ("std:VecDeque", "std:Vec", "std:BinaryHeap", "std:LinkedList")))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    if s[0] != "seq":
        imprecise(I, st, "push on unknown")
        return UNIT
    e = st.cell(c.args[1])
    sset(I, st, cell, path, s, s[2] + (("e", e),))
    I.event(st, "push", cell, path, e, c.args[1], "back", s[1])
    return UNIT


@nat(*names(["push_front"]))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    e = st.cell(c.args[1])
    sset(I, st, cell, path, s, (("e", e),) + s[2])
    I.event(st, "push", cell, path, e, c.args[1], "front", s[1])
    return UNIT


@nat(*names(["insert"]))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    e = st.cell(c.args[2])
    ix = I.force(st, c.args[1])
    where = "mid"
    slots = list(s[2])
    if ix == ("int", 0):
        slots.insert(0, ("e", e))
        where = "front"
    elif ix[0] == "pos":
        k = [i for i, x in enumerate(slots) if x == ("e", ix[1])]
        slots.insert(k[0] if k else 0, ("e", e))
    else:
        slots.append(("e", e))
    sset(I, st, cell, path, s, slots)
    I.event(st, "push", cell, path, e, c.args[2], where, s[1])
    return UNIT


@nat(*names(["len"], SEQTYPES))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    return seqlen(s) if s[0] == "seq" else fresh_int(st)


@nat("[].len")
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    return seqlen(s) if s[0] == "seq" else fresh_int(st)


@nat(*names(["is_empty"], SEQTYPES))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    return I.compare(st, "Eq", seqlen(s), ("int", 0)) if s[0] == "seq" else ("int", I.choose(st, 2))


def take_front(I, st, s):
    """-> (elemcell|None, newslots); forks on emptiness of unknown blocks"""
    slots = list(s[2])
    while slots:
        x = slots[0]
        if x[0] == "e":
            return x[1], tuple(slots[1:])
        if nonempty(I, st, x):
            e = newelem(I, st, s[1])
            return e, (("m", less(I, st, x[1])),) + tuple(slots[1:])
        slots.pop(0)
    return None, ()


def take_back(I, st, s):
    slots = list(s[2])
    while slots:
        x = slots[-1]
        if x[0] == "e":
            return x[1], tuple(slots[:-1])
        if nonempty(I, st, x):
            e = newelem(I, st, s[1])
            return e, tuple(slots[:-1]) + (("m", less(I, st, x[1])),)
        slots.pop()
    return None, ()


def popped(I, st, c, s, cell, path, e, slots, how):
    if e is None:
        sset(I, st, cell, path, s, ())
        I.event(st, "pop_none", cell, path, s[1])
        return Nothing(I, c.rty)
    v = st.heap[e]
    sset(I, st, cell, path, s, slots)
    I.event(st, "pop", cell, path, e, v, how, s[1])
    return Some(I, c.rty, v)


@nat(*names(["pop_front"], ("std:VecDeque", "std:LinkedList")))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    e, slots = take_front(I, st, s)
    return popped(I, st, c, s, cell, path, e, slots, "front")


@nat("std:VecDeque.pop_back", "std:Vec.pop")
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    e, slots = take_back(I, st, s)
    return popped(I, st, c, s, cell, path, e, slots, "back")


# --- binary heaps: slots are unordered, but the greatest element, once observed, is remembered as slot 0 kind 'e'
def heap_top(I, st, s, cell, path):
    """materialise the greatest element as ('e', cell) and remember it in st.memo"""
    key = ("top", cell, tuple(p[:2] for p in path))
    t = st.memo.get(key)
    slots = s[2]
    if t is not None and ("e", t) in slots and st.memo.get(key + ("sz",)) == slots:
        return t
    cands = []
    for x in slots:
        if x[0] == "e":
            cands.append(x)
        else:
            cands.append(x)
    if not cands:
        return None
    # emptiness of blocks
    live = []
    for x in cands:
        if x[0] == "e" or nonempty(I, st, x):
            live.append(x)
    if not live:
        return None
    i = 0 if len(live) == 1 else I.choose(st, len(live))
    x = live[i]
    if x[0] == "e":
        t = x[1]
        ns = slots
    else:
        t = newelem(I, st, s[1])
        ns = ()
        done = False
        for y in slots:
            if y is x and not done:
                done = True
                ns = ns + (("m", less(I, st, y[1])), ("e", t))
            else:
                ns = ns + (y,)
        ns = tuple(y for y in ns if not (y[0] == "m" and y[1] == ("int", 0)))
        I.write(st, cell, path, ("seq", s[1], ns))
    st.memo[key] = t
    st.memo[key + ("sz",)] = ns
    return t


@nat("std:BinaryHeap.peek", "std:BinaryHeap.peek_mut")
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    t = heap_top(I, st, s, cell, path)
    if t is None:
        I.event(st, "peek_none", cell, path, s[1])
        return Nothing(I, c.rty)
    I.event(st, "peek", cell, path, t, s[1])
    return Some(I, c.rty, ("ref", t, (), None))


@nat("std:BinaryHeap.pop")
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    t = heap_top(I, st, s, cell, path)
    s = I.force(st, I.read(st, cell, path))
    if t is None:
        return popped(I, st, c, s, cell, path, None, (), "top")
    return popped(I, st, c, s, cell, path, t, tuple(x for x in s[2] if x != ("e", t)), "top")


@nat(*names(["clear"], SEQTYPES))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    I.event(st, "clear", cell, path, s, s[1])
    sset(I, st, cell, path, s, ())
    tmp = st.cell(s)
    I.push_work(st, [("dropat", tmp, (), s[1]), ("free", tmp)], UNIT, c.dest)
    return None


def drop_seq(I, st, v, cell, path, tid):
    et = elemty(I, v[1])
    if et < 0 or not I.F.needs_drop(et):
        return []
    return drop_slots(I, st, v[1], v[2], cell, path, lambda slots: ("seq", v[1], slots))


def drop_slots(I, st, tid, slots, cell, path, rebuild):
    """drop the remaining elements; blocks of unknown elements: none, or one arbitrary element and the rest alike"""
    if not slots:
        return []
    et = elemty(I, tid)
    x = slots[0]
    if x[0] == "e":
        I.write(st, cell, path, rebuild(slots[1:]))
        return [("dropat", x[1], (), et), ("free", x[1]), ("dropat", cell, path, tid)]
    if nonempty(I, st, x):
        e = newelem(I, st, tid)
        I.write(st, cell, path, rebuild(slots[1:]))
        return [("dropat", e, (), et), ("free", e), ("dropat", cell, path, tid)]
    I.write(st, cell, path, rebuild(slots[1:]))
    return [("dropat", cell, path, tid)]


DROP["seq"] = drop_seq


@nat(*names(["append"], ("std:VecDeque", "std:Vec", "std:BinaryHeap")))
def _(I, st, c):
    a, ca, pa = sref(I, st, c.args[0])
    b, cb, pb = sref(I, st, c.args[1])
    sset(I, st, ca, pa, a, a[2] + b[2])
    sset(I, st, cb, pb, b, ())
    I.event(st, "append", ca, pa, cb, pb, b)
    return UNIT


# --- removal by position
def find_pos(I, st, s, ix):
    ix = I.force(st, ix)
    if ix[0] == "pos":
        for i, x in enumerate(s[2]):
            if x == ("e", ix[1]):
                return i, ix[1]
        return None, None
    if ix[0] == "int" and all(x[0] == "e" for x in s[2]):
        return (ix[1], s[2][ix[1]][1]) if ix[1] < len(s[2]) else (None, None)
    if ix == ("int", 0):
        return 0, None
    return -1, None


@nat(*names(["remove", "swap_remove", "swap_remove_back", "swap_remove_front"]))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    opt = I.F.nkey(c.rty) == "option:Option"
    ix = I.force(st, c.args[1])
    how = c.f["name"]
    if ix == ("int", 0):
        e, slots = take_front(I, st, s)
        if e is None:
            if opt:
                return Nothing(I, c.rty)
            raise Stop("panic", "remove out of range")
    else:
        i, e = find_pos(I, st, s, ix)
        if i is None:
            if opt:
                return Nothing(I, c.rty)
            raise Stop("panic", "remove out of range")
        if i == -1:
            # an unknown position: an arbitrary element or none
            r = I.choose(st, 2) if opt else 0
            if r == 1:
                return Nothing(I, c.rty)
            e = newelem(I, st, s[1])
            slots = (("m", fresh_int(st)),)
            how = "unknown"
        else:
            slots = s[2][:i] + s[2][i + 1:]
            if how in ("swap_remove", "swap_remove_back") and i < len(slots):
                slots = s[2][:i] + s[2][-1:] + s[2][i + 1:-1]
            elif how == "swap_remove_front" and i > 0:
                slots = s[2][1:i] + s[2][:1] + s[2][i + 1:]
    v = st.heap[e]
    sset(I, st, cell, path, s, slots)
    I.event(st, "pop", cell, path, e, v, how, s[1])
    return Some(I, c.rty, v) if opt else v


@nat(*names(["get", "get_mut"]) + ["[].get", "[].get_mut"])
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    if s[0] != "seq":
        return I.unk(st, c.rty)
    ix = I.force(st, c.args[1])
    if ix == ("int", 0):
        return peek_end(I, st, c, s, cell, path, True)
    i, e = find_pos(I, st, s, ix)
    if i is None:
        return Nothing(I, c.rty)
    if i == -1:
        imprecise(I, st, "index into unknown position")
        return I.unk(st, c.rty)
    return Some(I, c.rty, ("ref", e, (), None))


@nat(*names(["index", "index_mut"]))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    if s[0] == "seq":
        i, e = find_pos(I, st, s, c.args[1])
        if i is not None and i >= 0 and e is not None:
            return ("ref", e, (), None)
    imprecise(I, st, "index into unknown position")
    return I.unk(st, c.rty)


def peek_end(I, st, c, s, cell, path, front):
    e, slots = take_front(I, st, s) if front else take_back(I, st, s)
    if e is None:
        sset(I, st, cell, path, s, ())
        return Nothing(I, c.rty)
    sset(I, st, cell, path, s, ((("e", e),) + slots) if front else (slots + (("e", e),)))
    return Some(I, c.rty, ("ref", e, (), None))


@nat(*names(["front", "front_mut", "first", "first_mut"]) + ["[].first", "[].first_mut"])
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    return peek_end(I, st, c, s, cell, path, True)


@nat(*names(["back", "back_mut", "last", "last_mut"]) + ["[].last", "[].last_mut"])
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    return peek_end(I, st, c, s, cell, path, False)


@nat("std:Vec.deref", "std:Vec.deref_mut", "std:Vec.as_slice", "std:Vec.as_mut_slice", "std:Vec.as_ref", "std:VecDeque.make_contiguous", "std:Vec.borrow")
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    return ("ref", cell, path, None)


@nat(*names(["shrink_to_fit", "reserve", "shrink_to", "reserve_exact"], SEQTYPES))
def _(I, st, c):
    return UNIT


@nat(*names(["capacity"], SEQTYPES))
def _(I, st, c):
    return fresh_int(st)


# --- iteration
# ('iter','own',slots,tid)          owning, front-to-back
# ('iter','ref',cell,path,idx,tid)  by reference: next slot index
# ('iter','drain',...)              treated as owning
@nat(*names(["into_iter"], SEQTYPES) + ["std:BinaryHeap.into_sorted_vec", "std:BinaryHeap.into_vec", "std:BinaryHeap.into_iter_sorted"])
def _(I, st, c):
    s = I.force(st, c.args[0])
    if s[0] != "seq":
        return I.unk(st, c.rty)
    if c.f["name"].startswith("into_vec") or c.f["name"] == "into_sorted_vec":
        return ("seq", c.rty, s[2])
    return ("iter", "own", s[2], s[1])


def split_at(I, st, slots, n):
    """the slots of the first n elements, the slots of the rest, whether there are at least n; None when not tracked"""
    n = I.num(st, n)
    if n is None or n[0] not in ("int", "lin"):
        return None
    first, rest = [], []
    for x in slots:
        k = ("int", 1) if x[0] == "e" else x[1]
        if rest or n == ("int", 0):
            rest.append(x)
        elif I.compare(st, "Le", k, n)[1] == 1:
            first.append(x)
            n = comb(n, k, -1)
        elif x[0] == "e":
            rest.append(x)
            n = ("int", 0)
        else:
            first.append(("m", n))
            rest.append(("m", comb(k, n, -1)))
            n = ("int", 0)
    keep = lambda l: tuple(x for x in l if x != ("m", ("int", 0)))
    return keep(first), keep(rest), I.compare(st, "Le", n, ("int", 0))[1] == 1


@nat(*names(["truncate", "split_off"], ("std:VecDeque", "std:Vec")))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    r = split_at(I, st, s[2], c.args[1]) if s[0] == "seq" else None
    off = c.f["name"] == "split_off"
    if r is None:
        imprecise(I, st, "part of a collection")
        if off:
            return I.unk(st, c.rty)
        return UNIT
    if off and not r[2]:
        raise Stop("panic", "split off out of range")
    sset(I, st, cell, path, s, r[0])
    if off:
        I.event(st, "seq_take", cell, path, ("seq", s[1], r[1]))
        return ("seq", c.rty, r[1])
    I.event(st, "clear", cell, path, ("seq", s[1], r[1]), s[1])
    tmp = st.cell(("seq", s[1], r[1]))
    I.push_work(st, [("dropat", tmp, (), s[1]), ("free", tmp)], UNIT, c.dest)
    return None


@nat(*names(["drain"], SEQTYPES))
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    nk = I.F.nkey(c.argtys[1]) if c.argtys and len(c.argtys) > 1 else ""
    if len(c.args) > 1 and nk not in ("ops:RangeFull",):
        rg = I.force(st, c.args[1])
        part = None
        if s[0] == "seq" and rg[0] == "adt" and nk in ("ops:RangeTo", "ops:RangeFrom", "ops:Range"):
            a = rg[3][0] if nk != "ops:RangeTo" else ("int", 0)
            b = rg[3][-1] if nk != "ops:RangeFrom" else None
            part = split_at(I, st, s[2], a)
            if part is not None:
                head, tail, ok = part
                mid, after = tail, ()
                if b is not None:
                    b = I.num(st, b)
                    q = split_at(I, st, tail, comb(b, I.num(st, a), -1)) if b is not None and b[0] in ("int", "lin") else None
                    if q is None:
                        part = None
                    else:
                        mid, after, ok2 = q
                        ok = ok and ok2
                if part is not None and not ok:
                    raise Stop("panic", "drain out of range")
        if part is None:
            imprecise(I, st, "drain of a partial range")
            return I.unk(st, c.rty)
        sset(I, st, cell, path, s, head + after)
        I.event(st, "seq_take", cell, path, ("seq", s[1], mid))
        return ("iter", "own", mid, s[1])
    sset(I, st, cell, path, s, ())
    I.event(st, "seq_take", cell, path, s)
    return ("iter", "own", s[2], s[1])


@nat(*names(["iter", "iter_mut"], SEQTYPES) + ["&%s.into_iter" % k for k in SEQTYPES] + ["[].iter", "[].iter_mut", "&[].into_iter"])
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    if s[0] == "array" and cell is not None:
        # (what is left of an array being iterated is itself an array: of the references, or of the values)
        t = arrty(I, c.f["in"][0] if c.f["in"] else -1)
        return ("array", tuple(("ref", cell, path + (("i", i, t),), None) for i in range(len(s[1]))))
    if s[0] != "seq":
        return I.unk(st, c.rty)
    return ("iter", "ref", cell, path, 0, s[1], 0)


def arrty(I, t):
    return I.T[t]["p"] if t >= 0 and I.T[t]["k"] in ("slice", "array") else t


@nat("array.into_iter", "&array.into_iter", "array:IntoIter.into_iter")
def _(I, st, c):
    v = c.args[0]
    if c.f["self"] >= 0 and I.T[c.f["self"]]["k"] == "ref":
        s, cell, path = recv(I, st, v)
        if s[0] != "array":
            return I.unk(st, c.rty)
        t = arrty(I, I.T[c.f["self"]]["p"])
        return ("array", tuple(("ref", cell, path + (("i", i, t),), None) for i in range(len(s[1]))))
    v = I.force(st, v)
    return v if v[0] == "array" else I.unk(st, c.rty)


def iter_step(I, st, it):
    """-> (elemcell|None, newiter)"""
    if it[1] == "own":
        e, slots = take_front(I, st, ("seq", it[3], it[2]))
        return e, ("iter", "own", slots, it[3])
    _, _, cell, path, idx, tid, back = it
    s = I.force(st, I.read(st, cell, path))
    slots = list(s[2])
    while idx < len(slots) - back:
        x = slots[idx]
        if x[0] == "e":
            return x[1], ("iter", "ref", cell, path, idx + 1, tid, back)
        if nonempty(I, st, x):
            e = newelem(I, st, tid)
            # remember that this element precedes the rest of the block
            slots[idx:idx + 1] = [("e", e), ("m", less(I, st, x[1]))]
            slots2 = [y for y in slots if not (y[0] == "m" and y[1] == ("int", 0))]
            I.write(st, cell, path, ("seq", tid, tuple(slots2)))
            return e, ("iter", "ref", cell, path, idx + 1, tid, back)
        slots.pop(idx)
        I.write(st, cell, path, ("seq", tid, tuple(slots)))
    return None, ("iter", "ref", cell, path, idx, tid, back)


def iter_step_back(I, st, it):
    if it[1] == "own":
        e, slots = take_back(I, st, ("seq", it[3], it[2]))
        return e, ("iter", "own", slots, it[3])
    _, _, sc, sp, idx, tid, back = it
    s = I.force(st, I.read(st, sc, sp))
    slots = list(s[2])
    n = len(slots) - back
    while n > idx:
        x = slots[n - 1]
        if x[0] == "e":
            return x[1], ("iter", "ref", sc, sp, idx, tid, back + 1)
        if nonempty(I, st, x):
            e = newelem(I, st, tid)
            slots[n - 1:n] = [("m", less(I, st, x[1])), ("e", e)]
            slots2 = [y for y in slots if not (y[0] == "m" and y[1] == ("int", 0))]
            I.write(st, sc, sp, ("seq", tid, tuple(slots2)))
            return e, ("iter", "ref", sc, sp, idx, tid, back + 1)
        slots.pop(n - 1)
        n -= 1
        I.write(st, sc, sp, ("seq", tid, tuple(slots)))
    return None, it


ITERK = ("std:Iter", "std:IterMut", "std:IntoIter", "std:Drain", "std:IntoIterSorted", "array:IntoIter")


def arr_next(I, st, c, it, cell, path, k):
    """the first (k = 0) or last (k = -1) of what is left of an array"""
    if not it[1]:
        return Nothing(I, c.rty)
    I.write(st, cell, path, ("array", it[1][1:] if k == 0 else it[1][:-1]))
    return Some(I, c.rty, it[1][k])


@nat(*["%s.next" % k for k in ITERK])
def _(I, st, c):
    it, cell, path = recv(I, st, c.args[0])
    if it[0] == "array":
        return arr_next(I, st, c, it, cell, path, 0)
    if it[0] != "iter":
        imprecise(I, st, "next on unknown iterator")
        return I.unk(st, c.rty)
    e, it2 = iter_step(I, st, it)
    I.write(st, cell, path, it2)
    if e is None:
        return Nothing(I, c.rty)
    if it[1] == "own":
        v = st.heap[e]
        I.event(st, "iter_take", e, v, it[3])
        return Some(I, c.rty, v)
    I.event(st, "iter_ref", e, it[5])
    return Some(I, c.rty, ("ref", e, (), None))


@nat(*["%s.%s" % (k, m) for k in ITERK for m in ("size_hint",)])
def _(I, st, c):
    return I.unk(st, c.rty)


@nat(*["%s.len" % k for k in ITERK])
def _(I, st, c):
    return fresh_int(st)


@nat(*["%s.next_back" % k for k in ITERK])
def _(I, st, c):
    it, cell, path = recv(I, st, c.args[0])
    if it[0] == "array":
        return arr_next(I, st, c, it, cell, path, -1)
    if it[0] != "iter":
        imprecise(I, st, "next_back on unknown iterator")
        return I.unk(st, c.rty)
    e, it2 = iter_step_back(I, st, it)
    I.write(st, cell, path, it2)
    if e is None:
        return Nothing(I, c.rty)
    if it[1] == "own":
        v = st.heap[e]
        I.event(st, "iter_take", e, v, it[3])
        return Some(I, c.rty, v)
    I.event(st, "iter_ref", e, it[5])
    return Some(I, c.rty, ("ref", e, (), None))


@nat(*["%s.%s" % (k, m) for k in ITERK for m in ("nth", "nth_back", "last", "count")])
def _(I, st, c):
    how = c.f["name"]
    it, cell, path = recv(I, st, c.args[0]) if how.startswith("nth") else (I.force(st, c.args[0]), None, None)
    if it[0] == "array" and how == "count":
        return ("int", len(it[1]))
    if it[0] == "array" and how == "last":
        return Some(I, c.rty, it[1][-1]) if it[1] else Nothing(I, c.rty)
    if it[0] != "iter" or it[1] == "own" and I.F.needs_drop(elemty(I, it[3])):
        imprecise(I, st, how + " of an owning iterator")
        return I.unk(st, c.rty)
    if how == "count":
        s = ("seq", it[3], it[2]) if it[1] == "own" else I.force(st, I.read(st, it[2], it[3]))
        slots = s[2] if it[1] == "own" else s[2][it[4]:len(s[2]) - it[6]]
        return seqlen(("seq", s[1], tuple(slots)))
    n = 0
    if how != "last":
        n = I.num(st, c.args[1])
        if n is None or n[0] != "int" or n[1] > 8:
            imprecise(I, st, how + " by an unknown number")
            return I.unk(st, c.rty)
        n = n[1]
    step = iter_step if how == "nth" else iter_step_back
    e = None
    for _ in range(n + 1):
        e, it = step(I, st, it)
        if e is None:
            break
    if cell is not None:
        I.write(st, cell, path, it)
    if e is None:
        return Nothing(I, c.rty)
    if it[1] == "own":
        return Some(I, c.rty, st.heap[e])
    I.event(st, "iter_ref", e, it[5])
    return Some(I, c.rty, ("ref", e, (), None))


def drop_iter(I, st, v, cell, path, tid):
    if v[1] != "own":
        return []
    et = elemty(I, v[3])
    if et < 0 or not I.F.needs_drop(et) or not v[2]:
        return []
    return drop_slots(I, st, tid, v[2], cell, path, lambda slots: ("iter", "own", slots, v[3])) if elemty(I, tid) == et \
        else drop_slots2(I, st, v, cell, path, tid, et)


def drop_slots2(I, st, v, cell, path, tid, et):
    x = v[2][0]
    rest = ("iter", "own", v[2][1:], v[3])
    if x[0] == "e":
        I.write(st, cell, path, rest)
        return [("dropat", x[1], (), et), ("free", x[1]), ("dropat", cell, path, tid)]
    if nonempty(I, st, x):
        e = newelem(I, st, v[3])
        I.write(st, cell, path, rest)
        return [("dropat", e, (), et), ("free", e), ("dropat", cell, path, tid)]
    I.write(st, cell, path, rest)
    return [("dropat", cell, path, tid)]


DROP["iter"] = drop_iter


@nat("iter:Enumerate.next", "iter:Enumerate.next_back", "iter:Enumerate.nth", "iter:Enumerate.nth_back")
def _(I, st, c):
    """index values are symbolic element positions"""
    en, cell, path = recv(I, st, c.args[0])
    inner = en[3][0] if en[0] == "adt" else None
    itv = I.force(st, inner) if inner is not None else ("u",)
    n = I.num(st, c.args[1]) if len(c.args) > 1 else ("int", 0)
    if itv[0] == "iter" and (n is None or n[0] != "int" or n[1] > 8 or n[1] and itv[1] == "own"):
        imprecise(I, st, "nth of an enumeration")
        return I.unk(st, c.rty)
    if itv[0] != "iter":
        # adapter over another adapter: positions are not tracked
        imprecise(I, st, "enumerate over an adapted iterator")
        return I.unk(st, c.rty)
    it2 = itv
    for _ in range(n[1] + 1):
        e, it2 = (iter_step if c.f["name"] in ("next", "nth") else iter_step_back)(I, st, it2)
        if e is None:
            break
    I.write(st, cell, path, ("adt", en[1], en[2], (it2,) + tuple(en[3][1:])))
    if e is None:
        return Nothing(I, c.rty)
    if itv[1] == "own":
        v = st.heap[e]
        I.event(st, "iter_take", e, v, itv[3])
    else:
        v = ("ref", e, (), None)
        I.event(st, "iter_ref", e, itv[5])
    return Some(I, c.rty, ("tup", (("pos", e), v)))


@nat("prim:prim_pos")
def _(I, st, c):
    """position of the element an iterator has just yielded"""
    it, cell, path = recv(I, st, c.args[0])
    if it[0] == "iter" and it[1] == "ref" and it[4] > 0:
        s = I.force(st, I.read(st, it[2], it[3]))
        x = s[2][it[4] - 1]
        if x[0] == "e":
            return ("pos", x[1])
    imprecise(I, st, "position in an adapted iterator")
    return fresh_int(st)


@nat("prim:prim_seq_new")
def _(I, st, c):
    if I.F.nkey(c.rty) in SEQTYPES:
        return ("seq", c.rty, ())
    imprecise(I, st, "collect into " + I.F.nkey(c.rty))
    return I.unk(st, c.rty)


@nat("prim:prim_seq_push")
def _(I, st, c):
    s, cell, path = sref(I, st, c.args[0])
    if s[0] != "seq":
        imprecise(I, st, "extend of unknown collection")
        return UNIT
    e = st.cell(c.args[1])
    sset(I, st, cell, path, s, s[2] + (("e", e),))
    I.event(st, "push", cell, path, e, c.args[1], "back", s[1])
    return UNIT


@nat("prim:prim_iter")
def _(I, st, c):
    """fn prim_iter<S, I>(s: &mut S) -> cursor over the elements"""
    s, cell, path = sref(I, st, c.args[0])
    return ("iter", "ref", cell, path, 0, s[1], 0)


@nat("prim:prim_cursor_next")
def _(I, st, c):
    """fn prim_cursor_next<T>(cur: &mut Cursor) -> Option<&mut T>"""
    it, cell, path = recv(I, st, c.args[0])
    if it[0] == "adt":
        path = path + (("f", 0, -1),)
        it = I.force(st, it[3][0])
    e, it2 = iter_step(I, st, it)
    I.write(st, cell, path, it2)
    if e is None:
        return Nothing(I, c.rty)
    I.event(st, "iter_ref", e, it[5])
    return Some(I, c.rty, ("ref", e, (), None))


@nat("prim:prim_cursor_remove")
def _(I, st, c):
    """fn prim_cursor_remove<T>(cur: &mut Cursor, e: &mut T) -> T : remove the element just visited"""
    it, cell, path = recv(I, st, c.args[0])
    r = I.force(st, c.args[1])
    _, _, sc, sp, idx, tid, back = it
    s = I.force(st, I.read(st, sc, sp))
    slots = list(s[2])
    k = [i for i, x in enumerate(slots) if x == ("e", r[1])]
    if k:
        slots.pop(k[0])
        if k[0] < idx:
            idx -= 1
    I.write(st, sc, sp, ("seq", tid, tuple(slots)))
    I.write(st, cell, path, ("iter", "ref", sc, sp, idx, tid, back))
    v = st.heap.get(r[1], MOVED)
    I.event(st, "pop", sc, sp, r[1], v, "retain", tid)
    return v


# ------------------------------------------------------------------ misc
@nat("prim:prim_seq_of")
def _(I, st, c):
    return ("seq", c.rty, ())



def touches_model(I, st, v):
    """does the argument of an unmodelled library call give access to modelled (container, lock, channel) state?"""
    v = I.norm(st, v)
    for _ in range(4):
        if v[0] == "ref":
            v = I.norm(st, I.read(st, v[1], v[2]))
        else:
            break
    return v[0] in ("seq", "iter", "mutex", "guard", "ctx", "crx", "atomic")


@nat("core::intrinsics::integer_max", "core::intrinsics::integer_min")
def _(I, st, c):
    a, b = I.num(st, c.args[0]), I.num(st, c.args[1])
    if a is None or b is None or "pos" in (a[0], b[0]):
        return I.unk(st, c.rty)
    r = I.cmp3(st, a, b)
    return (a if r >= 0 else b) if c.f["name"].endswith("max") else (a if r <= 0 else b)
