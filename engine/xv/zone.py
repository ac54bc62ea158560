"""Zone abstract domain: conjunctions of  a - b <= k  over integer symbols (symbol 0 is the constant 0),
kept closed, plus interval facts for other linear forms."""
INF = 1 << 140


class Zone:
    __slots__ = ("d", "forms", "syms")

    def __init__(self):
        self.d = {}        # (a, b) -> upper bound of a-b
        self.forms = {}    # canonical linear form -> (lo, hi)
        self.syms = set()

    def copy(self):
        z = Zone()
        z.d = dict(self.d)
        z.forms = dict(self.forms)
        z.syms = set(self.syms)
        return z

    def declare(self, s, lo=0):
        if s not in self.syms:
            self.syms.add(s)
            if lo is not None:
                self.d[(0, s)] = -lo

    @staticmethod
    def canon(terms):
        """terms: tuple of (sym, coef) sorted.  Returns (form, sign)."""
        if terms and terms[0][1] < 0:
            return tuple((s, -c) for s, c in terms), -1
        return terms, 1

    def _pair(self, terms):
        if len(terms) == 1 and abs(terms[0][1]) == 1:
            s, c = terms[0]
            return (s, 0) if c == 1 else (0, s)
        if len(terms) == 2 and {terms[0][1], terms[1][1]} == {1, -1}:
            a = [s for s, c in terms if c == 1][0]
            b = [s for s, c in terms if c == -1][0]
            return (a, b)
        return None

    def bounds(self, terms):
        """(lo, hi) of the linear form (no constant part)."""
        if not terms:
            return (0, 0)
        p = self._pair(terms)
        if p:
            a, b = p
            hi = self.d.get((a, b), INF)
            lo = -self.d.get((b, a), INF)
            return (lo, hi)
        f, s = self.canon(terms)
        lo, hi = self.forms.get(f, (-INF, INF))
        # interval arithmetic from single symbols
        l2 = h2 = 0
        for sy, c in f:
            slo, shi = self.bounds(((sy, 1),))
            if c > 0:
                l2 = -INF if slo <= -INF or l2 <= -INF else l2 + c * slo
                h2 = INF if shi >= INF or h2 >= INF else h2 + c * shi
            else:
                l2 = -INF if shi >= INF or l2 <= -INF else l2 + c * shi
                h2 = INF if slo <= -INF or h2 >= INF else h2 + c * slo
        lo, hi = max(lo, l2), min(hi, h2)
        return (lo, hi) if s == 1 else (-hi, -lo)

    def add(self, terms, lo, hi):
        """assume lo <= form <= hi; returns False if infeasible"""
        p = self._pair(terms)
        if p:
            a, b = p
            ok = True
            if hi < INF:
                ok = ok and self._ub(a, b, hi)
            if lo > -INF:
                ok = ok and self._ub(b, a, -lo)
            return ok
        f, s = self.canon(terms)
        if s == -1:
            lo, hi = -hi, -lo
        clo, chi = self.bounds(f)
        lo, hi = max(lo, clo), min(hi, chi)
        if lo > hi:
            return False
        self.forms[f] = (lo, hi)
        return True

    def _ub(self, a, b, k):
        if self.d.get((a, b), INF) <= k:
            return True
        if self.d.get((b, a), INF) + k < 0:
            return False
        d = self.d
        d[(a, b)] = k
        syms = list(self.syms) + [0]
        # incremental closure
        ia = [(x, d[(x, a)]) for x in syms if x != a and (x, a) in d] + [(a, 0)]
        bj = [(y, d[(b, y)]) for y in syms if y != b and (b, y) in d] + [(b, 0)]
        for x, kx in ia:
            for y, ky in bj:
                if x == y:
                    if kx + k + ky < 0:
                        return False
                    continue
                v = kx + k + ky
                if v < d.get((x, y), INF):
                    d[(x, y)] = v
        return True

    def restrict(self, keep):
        self.syms &= keep
        k0 = keep | {0}
        self.d = {p: v for p, v in self.d.items() if p[0] in k0 and p[1] in k0}
        self.forms = {f: v for f, v in self.forms.items() if all(s in keep for s, _ in f)}

    def clip(self, w):
        """widening: only small constants survive"""
        d = {}
        for p, v in self.d.items():
            if v > w:
                continue
            d[p] = -w if v < -w else v
        self.d = d

    def key(self, ren):
        items = []
        for (a, b), v in self.d.items():
            if a == 0 and v == 0:
                continue
            items.append((ren.get(a, a), ren.get(b, b), v))
        fs = []
        for f, v in self.forms.items():
            fs.append((tuple((ren.get(s, s), c) for s, c in f), v))
        return (tuple(sorted(items)), tuple(sorted(fs)))


def lin(c, terms=()):
    return ("lin", c, terms) if terms else ("int", c)


def parts(v):
    if v[0] == "int":
        return v[1], ()
    if v[0] == "lin":
        return v[1], v[2]
    return None


def comb(a, b, k):
    """a + k*b for int/lin values"""
    ca, ta = parts(a)
    cb, tb = parts(b)
    t = dict(ta)
    for s, c in tb:
        t[s] = t.get(s, 0) + k * c
    return lin(ca + k * cb, tuple(sorted((s, c) for s, c in t.items() if c)))
