"""Generators of histories (lists of operations) for the harness.  They know the shape of the
operations and what makes an input interesting, but not what the right result is: that is the
specification's business.  Every random choice comes from the seed."""
import itertools, json, math, random

NAMES = "1234567890ETABCDFGHJKLMNPQRSUVWYZ"
HUGE = [2147483640 + k for k in range(8)]
# Characters which tend to be mistaken for others, and characters of every UTF-8 length
ODD = [0, 9, 10, 13, 32, 33, 40, 43, 44, 45, 46, 47, 73, 79, 88, 95, 101, 116, 97, 120, 105, 111, 122, 127,
       128, 160, 233, 304, 305, 775, 956, 1046, 1633, 1637, 7838, 8203, 8232, 8490, 8722, 12288, 65297, 65313,
       66560, 127820, 128276, 1114111, 917504]
WORDS = ["Plain", "Bob", "Little", "Treble", "Place", "Delight", "Surprise", "Alliance", "Hybrid", "Cambridge",
         "London", "Jump", "Differential", "Bristol", "St", "Clement's", "x", "Grandsire", "Stedman"]
STAGES = ["One", "Two", "Singles", "Minimus", "Doubles", "Minor", "Triples", "Major", "Caters", "Royal", "Cinques",
          "Maximus", "Sextuples", "Fourteen", "Septuples", "Sixteen", "Octuples", "Eighteen", "Nonuples", "Twenty",
          "Decuples", "Twenty-two"]


def cps(s):
    return [ord(c) for c in s]


def op(opname, /, **kw):
    kw["op"] = opname
    return kw


def chunk(ops, n=24):
    """Independent operations, as histories of n"""
    return [ops[i:i + n] for i in range(0, len(ops), n)]


class G:
    def __init__(self, seed, salt=""):
        self.r = random.Random(f"{seed}/{salt}")

    def p(self, x):
        return self.r.random() < x

    def i(self, a, b):
        return self.r.randint(a, b)

    def c(self, xs):
        return self.r.choice(xs)

    def stage(self, big=True, lo=1):
        x = self.r.random()
        if x < 0.62:
            return self.i(lo, max(lo, 8))
        if x < 0.84 or not big:
            return self.i(max(lo, 7), 16)
        if x < 0.95:
            return self.i(max(lo, 15), 40)
        return self.c([63, 64, 65, 127, 128, 129, 255, 256, 257, 300])

    def perm(self, n):
        v = list(range(n))
        self.r.shuffle(v)
        return v

    def row(self, n):
        """A row: random or structured"""
        k = self.i(0, 11)
        v = list(range(n))
        if k <= 4:
            self.r.shuffle(v)
        elif k == 5:
            pass
        elif k == 6:
            v.reverse()
        elif k == 7:
            v = v[0::2] + v[1::2]
        elif k == 8:                                # a rotation, or some bells of it
            a = self.i(0, n - 1)
            b = self.i(a, n - 1)
            v[a:b + 1] = v[a + 1:b + 1] + v[a:a + 1]
        elif k == 9:                                # one or two swaps
            for _ in range(self.i(1, 2)):
                a, b = self.i(0, n - 1), self.i(0, n - 1)
                v[a], v[b] = v[b], v[a]
        elif k == 10:                               # adjacent swaps
            a = self.i(0, 1)
            while a + 1 < n:
                if self.p(0.7):
                    v[a], v[a + 1] = v[a + 1], v[a]
                a += 2 if self.p(0.8) else 1
            if self.p(0.3):
                v = v[:]
        else:                                       # low bells shuffled, high ones at home
            m = self.i(1, n)
            w = v[:m]
            self.r.shuffle(w)
            v[:m] = w
        return v

    def near(self, row):
        """A row close to another"""
        v = list(row)
        n = len(v)
        k = self.i(0, 3)
        if k == 0 or n == 1:
            return v
        if k == 1:
            a = self.i(0, n - 2)
            v[a], v[a + 1] = v[a + 1], v[a]
            return v
        if k == 2:
            a, b = self.i(0, n - 1), self.i(0, n - 1)
            v[a], v[b] = v[b], v[a]
            return v
        return self.row(n)

    def junk(self, p=0.3):
        """Now and then, characters which aren't bells"""
        return [self.c(ODD) for _ in range(self.i(1, 2))] if self.p(p) else []

    def noisy(self, codes, p=0.15, junk=None):
        out = []
        for c in codes:
            if self.p(p):
                out.append(self.c(junk or ODD))
            out.append(c)
        if self.p(p):
            out.append(self.c(junk or ODD))
        return out

    def bell_seq(self):
        """Bells which are nearly a row"""
        n = self.c([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 12, 16, 17, 32, 33, 34, 63, 64, 65, 66, 128, 130, 256, 260])
        v = self.row(n) if n else []
        for _ in range(self.c([0, 0, 0, 1, 1, 1, 2, 3])):
            k = self.i(0, 6)
            if k == 0 and v:
                v[self.i(0, len(v) - 1)] = self.c(v)
            elif k == 1 and v:
                del v[self.i(0, len(v) - 1)]
            elif k == 2:
                v.insert(self.i(0, len(v)), self.i(0, len(v) + 2))
            elif k == 3 and v:
                v[self.i(0, len(v) - 1)] = len(v)
            elif k == 4 and v:
                v[self.i(0, len(v) - 1)] = self.c(HUGE + [len(v) + 1, 255, 256, 65536, 64, 63, 1000000])
            elif k == 5:
                v.append(self.c(v) if v else 0)
            elif k == 6:
                v = [x + 1 for x in v if x < 2147480000]
        return v

    def name_text(self, v):
        return [ord(NAMES[b]) for b in v if b < len(NAMES)]

    def places(self, n, ordered=True):
        """A legal set of places for stage n"""
        pl, x = [], 0
        while x < n:
            if x + 1 < n and self.p(0.65):
                x += 2
            else:
                pl.append(x)
                x += 1
        return pl

    def pn(self, n):
        if self.p(0.12) and n % 2 == 0:
            return {"n": n, "pl": []}
        if self.p(0.05):
            return {"n": n, "pl": list(range(n))}
        return {"n": n, "pl": self.places(n)}

    def pn_text(self, n, faulty=0.0):
        """The text of one notation, some of whose places may be left to be implied"""
        pl = self.places(n)
        if not pl or (n % 2 == 0 and self.p(0.15)):
            return [self.c([120, 88, 45])] if n % 2 == 0 else [49]
        pl = list(pl)
        if self.p(0.3) and len(pl) > 1:
            del pl[self.c([0, -1])]
        if self.p(faulty):
            k = self.i(0, 3)
            if k == 0:
                pl.append(self.c(pl))
            elif k == 1:
                pl.append(n + self.c([0, 0, 1, 2]))
            elif k == 2:
                pl = [self.i(0, n) for _ in range(self.i(1, 3))]
            else:
                pl = [self.i(0, n - 1) for _ in range(2)]
        t = self.name_text(pl) or [49]
        if self.p(0.15):
            self.r.shuffle(t)
        return t

    def pnb_text(self, n, faulty=0.0, parts=None, maxlen=6):
        out = []
        np = parts or self.c([1, 1, 1, 2, 2, 2, 3, 4])
        for k in range(np):
            if k:
                out += [44] + ([32] if self.p(0.3) else [])
            if self.p(0.06):
                continue
            if self.p(0.25):
                out += [self.c([32, 46])] if self.p(0.15) else []
                out += [43]
            m = self.i(1, maxlen)
            prev_cross = True
            for _ in range(m):
                t = self.pn_text(n, faulty)
                cross = len(t) == 1 and t[0] in (120, 88, 45)
                if not prev_cross and (not cross or self.p(0.3)):
                    out += [self.c([46, 46, 46, 32])]
                    if self.p(0.05):
                        out += [self.c([46, 32])]
                out += t
                prev_cross = cross
                if self.p(0.05):
                    out += [46]
                    prev_cross = True
        if self.p(faulty):
            k = self.i(0, 3)
            pos = self.i(0, len(out))
            out.insert(pos, self.c([43, 43, 44, 120, 49, 46, 90, 101, 233, 128276, 8232]))
        return out

    def title(self):
        return " ".join(self.c(WORDS) for _ in range(self.i(0, 3)))

    def anytext(self, n=8):
        return [self.c(ODD + cps("abcXYZ 12")) for _ in range(self.i(0, n))]

    def rg(self, length):
        """A range within 0..length"""
        lo = self.i(0, length)
        hi = self.i(lo, length)
        ks = ["full", "from", "to", "r"]
        if hi > 0:
            ks += ["toi"]
        if hi > lo:
            ks += ["ri"]
        if lo > 0:
            ks += ["x", "xf"]
            if hi > lo - 1 and hi > 0:
                ks += ["xi"]
        k = self.c(ks)
        if k in ("toi", "ri", "xi"):
            hi -= 1
        if k in ("x", "xi", "xf"):
            lo -= 1
        return [k, lo, hi]

    def far(self, n):
        """An index, often just outside n"""
        return self.c([self.i(0, n), self.i(0, n), self.i(0, max(0, n - 1)), n, n + 1, n - 1 if n else 0, 0] +
                      [self.c(HUGE), 65536, 2147480000])


# =================================================================================================
# One generator per property: gen_Cxx(g, k) gives histories; k scales the effort (1 quick)

def gen_C01(g, k):
    ops = []
    for _ in range(1400 * k):
        v = g.bell_seq()
        ops.append(op(g.c(["row_vec", "row_iter"]), v=v))
        w = g.bell_seq()
        n = g.c([g.stage(), max(1, len(w)), len(w) + 1, max(1, len(w) - 1), len(w) + 5])
        ops.append(op("row_vec_st", v=w, n=n))
        t = g.noisy(g.name_text(g.bell_seq()))
        ops.append(op(g.c(["row_parse", "row_fromstr"]), s=t))
        t = g.noisy(g.name_text(g.bell_seq()))
        ops.append(op("row_parse_st", s=t, n=g.c([g.stage(), max(1, len(t)), max(1, len(t) - 1), 33, 40])))
    for _ in range(100 * k):
        a = g.row(g.stage())
        ops.append(op("row_raw", how=g.c(["vec", "iter", "slice", "mut"]), a=a, x=g.i(0, len(a) - 1)))
    for n in list(range(1, 41)) + [64, 128, 300]:
        ops += [op("row_std", how=h, n=n) for h in ("rounds", "backrounds", "queens")]
    for n in range(0, 5):                       # everything small
        for v in itertools.product(range(n + 2), repeat=n):
            ops.append(op("row_vec", v=list(v)))
            if n <= 3:
                for m in range(1, 5):
                    ops.append(op("row_vec_st", v=list(v), n=m))
    hs = chunk(ops, 40)
    # rows which come out of other calls
    for _ in range(60 * k):
        h = []
        for _ in range(14):
            n = g.stage()
            x = g.i(0, 6)
            if x == 0:
                h.append(op("gset", i=0, a=g.row(n)))
                h.append(op("gext", i=0, n=n + g.c([0, 1, 2, 5, 30])))
            elif x == 1:
                h += [op("gset", i=1, a=g.row(n)), op("gset", i=2, a=g.row(n)),
                      op("gmul", i=1, j=2, k=g.i(0, 2), how=g.c(["result", "into", "ax", "xa"]))]
            elif x == 2:
                h += [op("gset", i=1, a=g.row(n)), op("ginv", i=1, k=g.i(0, 2), how=g.c(["inv", "into_buf"]))]
            elif x == 3:
                h += [op("gset", i=1, a=g.row(n)), op("gswap", i=1, x=g.i(0, n - 1), y=g.i(0, n - 1))]
            elif x == 4:
                h += [op("gset", i=1, a=g.row(n)), op("gperm", i=1, pn=g.pn(n))]
            elif x == 5:
                h += [op("gset", i=1, a=g.row(n)), op("gset", i=2, a=g.row(g.stage())),
                      op("gcopy", i=1, k=2, how=g.c(["copy_into", "overwrite", "clone", "clone_from", "to_owned"]))]
            else:
                h.append(op("gext", i=g.i(0, 2), n=g.stage()))
        hs.append(h)
    return hs


MUL = ["result", "rr", "rb", "br", "bb", "unchecked", "into", "into_unchecked", "into_row", "into_row_unchecked"]


def gen_C02(g, k):
    ops = []
    for _ in range(900 * k):
        n = g.stage()
        a = g.row(n)
        b = g.c([g.row(n), g.row(n), a, g.near(a)])
        how = g.c(MUL)
        o = g.row(n if "row" in how else g.c([n, g.stage(), g.stage()]))
        ops.append(op("mul", a=a, b=b, o=o, how=how))
        how = g.c(["inv", "not_r", "not_b", "into", "into_buf"])
        ops.append(op("inv", a=a, o=g.row(n if how == "into" else g.c([n, g.stage()])), how=how))
        m = g.stage(big=False)
        e = g.c([0, 1, -1, 2, -2, g.i(-12, 12), g.i(-12, 12), g.i(-300, 300)])
        how = g.c(["u", "i"])
        ops.append(op("pow", a=g.row(m), e=abs(e) if how == "u" else e, how=how))
        ops.append(op("solve", a=a, b=b, how=g.c(["ax", "xa", "tt", "ttu"])))
    for n in range(1, 4):                    # everything small
        rows = [list(p) for p in itertools.permutations(range(n))]
        for a in rows:
            for h in ("inv", "not_r", "not_b", "into", "into_buf"):
                ops.append(op("inv", a=a, o=rows[0], how=h))
            for e in range(-7, 8):
                ops.append(op("pow", a=a, e=e, how="i"))
            for b in rows:
                for h in MUL:
                    ops.append(op("mul", a=a, b=b, o=rows[-1], how=h))
                for h in ("ax", "xa", "tt", "ttu"):
                    ops.append(op("solve", a=a, b=b, how=h))
    ops += [op("pow", a=g.row(n), e=g.i(20000, 30000), how=h) for n in (3, 8, 13) for h in ("u", "i")]
    hs = chunk(ops)
    for _ in range(40 * k):                 # register histories: buffers are reused
        h = [op("gset", i=x, a=g.row(g.i(1, 6))) for x in range(3)]
        n = g.i(1, 10)
        h += [op("gset", i=x, a=g.row(n)) for x in g.r.sample(range(3), 2)]
        for _ in range(20):
            x = g.i(0, 3)
            if x <= 1:
                h.append(op("gmul", i=g.i(0, 2), j=g.i(0, 2), k=g.i(0, 2), how=g.c(["result", "into", "into_row", "ax", "xa"])))
            elif x == 2:
                h.append(op("ginv", i=g.i(0, 2), k=g.i(0, 2), how=g.c(["inv", "into", "into_buf"])))
            else:
                h.append(op("gset", i=g.i(0, 2), a=g.row(g.c([n, n, g.stage()]))))
        hs.append(h)
    return hs


def other_stage(g, n):
    return max(1, g.c([n - 1, n + 1, n + 1, g.stage(), 1, 2 * n]))


def gen_C03(g, k):
    ops, hs = [], []
    for _ in range(350 * k):
        n = g.stage()
        m = other_stage(g, n)
        a, b = g.row(n), g.row(m)
        how = g.c(["result", "rr", "rb", "br", "bb", "into", "into_row"])
        ops.append(op("mul", a=a, b=b, o=g.row(g.c([n, m, g.stage()])), how=how))
        ops.append(op("mul", a=a, b=g.row(n), o=g.row(other_stage(g, n)), how="into_row"))
        ops.append(op("inv", a=a, o=b, how=g.c(["into", "into", "into_buf"])))
        ops.append(op("solve", a=a, b=b, how=g.c(["ax", "xa", "tt"])))
        ops.append(op("pn_act", pn=g.pn(n), a=b, how=g.c(["permute", "new"])))
        ops.append(op("pnb_rows", pns=[g.pn(n) for _ in range(g.i(1, 3))], a=b, how=g.c(["rows", "block"])))
        pns = [g.pn(n) for _ in range(g.i(1, 4))]
        pns.insert(g.i(0, len(pns)), g.pn(m))
        ops.append(op("pnb_vec", pns=pns, how=g.c(["vec", "iter"])))
        rows = [g.row(min(n, 5)) for _ in range(g.i(1, 3))]
        rows.insert(g.i(0, len(rows)), g.row(other_stage(g, min(n, 5))))
        ops.append(op(g.c(["lgroup", "isgroup"]), rows=rows))
        cut = g.i(0, len(rows))
        ops.append(op("cart", sets=[rows[:cut], rows[cut:]]))
        if g.p(0.3):                  # masks of few bells, of low bells, and of none
            mm = g.c([mask(g, n), [-1] * n, [v if v < m else -1 for v in a]])
            ops += [op("mk_mul", m=mm, a=b, how=h) for h in ("rm", "mr")]
        ops.append(op("cart", sets=[[r] for r in rows]))
    hs += chunk(ops)
    for _ in range(160 * k):
        n = g.i(1, 9)
        m = other_stage(g, n) if g.p(0.9) else n
        h = [op("vnew", i=0, how="lit", n=n, rows=[g.row(n) for _ in range(g.i(0, 4))]),
             op("vnew", i=1, how="lit", n=m, rows=[g.row(m) for _ in range(g.i(0, 4))]),
             op("vnew", i=2, how="lit", n=n, rows=[g.row(n) for _ in range(g.i(0, 3))]),
             op("bnew", i=0, how="def", n=n, rows=[g.row(n) for _ in range(g.i(1, 4))]),
             op("bnew", i=1, how="def", n=m, rows=[g.row(m) for _ in range(g.i(1, 4))]),
             op("anew", i=0, how="new", a=g.row(n)), op("gset", i=0, a=g.row(n)), op("gset", i=1, a=g.row(m)),
             op("gset", i=2, a=g.row(n))]
        lens = [len(h[x]["rows"]) for x in range(5)]
        for _ in range(22):
            x = g.i(0, 16)
            w = g.c([n, m, m])
            r = g.row(w)
            if x == 0:
                h.append(op("vpush", i=0, a=r))
                lens[0] += w == n
            elif x == 1:
                rows = [g.row(n) for _ in range(g.i(0, 3))]
                rows.insert(g.i(0, len(rows)), g.row(w))
                h.append(op("vext", i=0, how="rows", rows=rows))
                lens[0] += len(rows) if w == n else 0
            elif x == 2:
                h.append(op("vext", i=0, j=1, how=g.c(["vec", "buf"])))
                if m == n or (lens[1] == 0):
                    lens[0] += lens[1]
            elif x == 3:
                j = g.i(1, 2)
                h.append(op("vexttr", i=0, j=j, a=r, how="all"))
                if w == n and (j == 2 or m == n):
                    lens[0] += lens[j]
            elif x == 4:
                j = g.i(1, 2)
                q = g.rg(lens[j])
                h.append(op("vexttr", i=0, j=j, a=r, how="range", rg=q))
                if w == n and (j == 2 or m == n):
                    lens[0] += rlen(q, lens[j])
            elif x == 5:
                q = g.rg(lens[0])
                h.append(op("vextw", i=0, rg=q, a=r))
                lens[0] += rlen(q, lens[0]) if w == n else 0
            elif x == 6:
                h.append(op("vpre", i=0, a=r, how=g.c(["pre", "permute"])))
            elif x == 7:
                h.append(op("vpremd", i=1, j=0, a=r))
                if w == n:
                    lens[1], m = lens[0], n
            elif x == 8:
                h.append(op("bpre", i=0, a=r, how=g.c(["pre", "permute"])))
            elif x == 9:
                h.append(op("bext", i=0, j=1, how="all"))
                if m0(h, 1) == m0(h, 0):
                    lens[3] += lens[4] - 1
            elif x == 10:
                q = g.rg(lens[4] - 1)
                h.append(op("bext", i=0, j=1, how="range", rg=q))
                if m0(h, 1) == m0(h, 0):
                    lens[3] += rlen(q, lens[4] - 1)
            elif x == 11:
                h.append(op("rnew", i=0, j=0, a=r))
            elif x == 12:
                h.append(op("aacc", i=0, a=r, how=g.c(["acc", "pre", "mulr", "mulb"])))
                h.append(op("atot", i=0))
            elif x == 13:
                h.append(op("gmul", i=g.i(0, 2), j=g.i(0, 2), k=g.i(0, 2), how=g.c(["result", "into", "into_row", "ax", "xa"])))
            elif x == 14:
                h.append(op("ginv", i=g.i(0, 2), k=g.i(0, 2), how="into"))
            elif x == 15:
                h.append(op("gperm", i=g.i(0, 2), pn=g.pn(g.c([n, m]))))
            else:
                h.append(op(g.c(["vobs", "bobs"]), i=g.i(0, 1)))
        h += [op("vobs", i=0), op("vobs", i=1), op("bobs", i=0)]
        hs.append(h)
    return hs


def m0(h, i):
    """The stage of block i, which is set only by its bnew here"""
    return next(o["n"] for o in h if o["op"] == "bnew" and o["i"] == i)


def rlen(q, n):
    kind, lo, hi = q
    a = {"from": lo, "r": lo, "ri": lo, "x": lo + 1, "xi": lo + 1, "xf": lo + 1}.get(kind, 0)
    b = {"to": hi, "toi": hi + 1, "r": hi, "ri": hi + 1, "x": hi, "xi": hi + 1}.get(kind, n)
    return b - a


def order(a):
    x, n, v = list(a), 1, list(range(len(a)))
    while x != v:
        x = [a[b] for b in x]
        n += 1
        if n > 400:
            return n
    return n


def gen_C04(g, k):
    ops = []
    for n in range(1, 5):
        for p in itertools.permutations(range(n)):
            ops += [op("closure", a=list(p), how=h) for h in ("self", "rounds")]
    for _ in range(120 * k):
        n = g.stage()
        a = g.row(n)
        while order(a) > 60:
            a = g.near(list(range(n)))
        ops += [op("closure", a=a, how=h) for h in ("self", "rounds")]
    for _ in range(250 * k):
        n = g.i(1, 8)
        sets = [[g.row(n) for _ in range(g.c([0, 1, 1, 2, 2, 3]) if g.p(0.8) else 4)] for _ in range(g.i(0, 4))]
        if sets and g.p(0.15) and sets[0]:
            sets[0].append(list(sets[0][0]))
        ops.append(op("cart", sets=sets))
        n = g.i(1, 4)
        rows = [g.row(n) for _ in range(g.c([0, 1, 1, 2, 2, 3]))]
        ops.append(op("lgroup", rows=rows))
        ops.append(op("isgroup", rows=rows))
        # cyclic and dihedral groups of bigger stages, perhaps with a row missing or added
        n = g.i(2, 12)
        a = g.row(n)
        if order(a) <= 24:
            grp, x = [], list(range(n))
            for _ in range(order(a)):
                grp.append(x)
                x = [a[b] for b in x]
            y = g.i(0, 3)
            if y == 0 and len(grp) > 1:
                del grp[g.i(0, len(grp) - 1)]
            elif y == 1:
                grp.append(g.row(n))
            elif y == 2:
                grp.append(list(grp[0]))
            g.r.shuffle(grp)
            ops.append(op("isgroup", rows=grp))
            ops.append(op("lgroup", rows=[a]))
            if len(grp) <= 6 and y != 1:
                ops.append(op("lgroup", rows=grp))
    rows3 = [list(p) for p in itertools.permutations(range(3))]
    for m in range(0, 7):                     # all sets of rows of stage 3
        for s in itertools.combinations(rows3, m):
            ops += [op("lgroup", rows=list(s)), op("isgroup", rows=list(s))]
    for _ in range(4 * k):
        ops.append(op("lgroup", rows=[g.row(5), g.row(5)]))
    return chunk(ops, 12)


def gen_C05(g, k):
    ops = []
    for n in range(1, 6):
        for p in itertools.permutations(range(n)):
            ops.append(op("inspect", a=list(p)))
    for _ in range(500 * k):
        n = g.stage()
        a = g.row(n)
        ops.append(op("inspect", a=a))
        ops.append(op("row_index", a=a, p=g.far(n)))
        ops.append(op("parity2", a=a, b=g.c([g.row(n), a, g.near(a)])))
        ops.append(op("swap", a=a, x=g.c([g.i(0, n - 1), g.far(n)]), y=g.i(0, n - 1)))
        ops.append(op("swap", a=a, x=g.i(0, n - 1), y=g.i(0, n - 1)))
    for _ in range(250 * k):                 # special rows, shuffled or swapped in one part of them only
        n = g.c([g.i(2, 16), g.i(2, 16), g.stage()])
        a = g.c([list(range(n)), list(range(n))[::-1], list(range(0, n, 2)) + list(range(1, n, 2))])
        lo, hi = g.c([(0, n), (0, n // 2), (n // 2, n), (0, min(n, 3)), (max(0, n - 3), n), tuple(sorted([g.i(0, n), g.i(0, n)]))])
        if g.p(0.4):
            part = a[lo:hi]
            g.r.shuffle(part)
            a[lo:hi] = part
        elif hi - lo > 1:
            x, y = g.c([(lo, lo + 1), (hi - 2, hi - 1), (lo, hi - 1), (g.i(lo, hi - 1), g.i(lo, hi - 1))])
            a[x], a[y] = a[y], a[x]
        ops.append(op("inspect", a=a))
    ops += [op("parity_num", x=x) for x in list(range(20)) + HUGE + [65535, 65536, 2147480001]]
    return chunk(ops)


def gen_C06(g, k):
    ops = []
    for n in range(1, 4):
        rows = [list(p) for p in itertools.permutations(range(n))]
        for a in rows:
            for m in range(1, 4):
                for b in itertools.permutations(range(m)):
                    ops.append(op("rowcmp", a=a, b=list(b)))
    for _ in range(700 * k):
        n = g.stage()
        a = g.row(n)
        b = g.c([list(a), g.near(a), g.near(a), g.row(g.stage()), a + [n], a[:], g.row(n)])
        if g.p(0.1) and n > 1:
            b = list(range(n - 1))
        ops.append(op("rowcmp", a=a, b=b))
        ops.append(op("fhash", a=g.row(g.stage())))
    for _ in range(120 * k):                 # rows which share a lot, on each stage up to 16
        n = g.i(2, 16)
        a = g.row(n)
        rows = [a]
        for _ in range(g.i(2, 24)):
            b = list(g.c(rows))
            for _ in range(g.i(1, 2)):
                x = g.c([0, n - 2, g.i(0, n - 2)])
                y = g.c([x + 1, g.i(0, n - 1)])
                b[x], b[y] = b[y], b[x]
            rows.append(b)
        ops.append(op("fhash_set", rows=rows))
    for n in range(1, 8 if k == 1 else 10):
        ops.append(op("fhash_all", n=n))
    for n in range(9, 17):
        for at in [list(range(8)), list(range(n - 8, n))] + [g.r.sample(range(n), g.i(5, 8)) for _ in range(2)]:
            ops.append(op("fhash_perm", a=g.row(n), at=at))
        ops.append(op("fhash_many", n=n, m=300000 * k, x=g.i(0, 10**9)))
    for n in list(range(1, 40)) + [63, 64, 65, 256, 300]:
        ops += [op("fhash", a=list(range(n))), op("fhash", a=list(range(n))[::-1])]
    return chunk(ops)


def gen_C07(g, k):
    ops = []
    ops += [op("bell_char", c=c) for c in list(range(0, 256)) + ODD]
    ops += [op("bell_chars", lo=0, hi=0x110000), op("bell_chars", lo=128, hi=0x110000)]
    ops += [op("bell_idx", x=x) for x in list(range(0, 70)) + HUGE + [99, 100, 255, 256, 1000, 65535, 65536, 999999999]]
    ops += [op("bell_num", x=x) for x in list(range(0, 40)) + HUGE + [255, 256, 257, 65536]]
    ops += [op("stage_num", x=x) for x in list(range(0, 45)) + [64, 100, 128, 255, 256, 300, 999, 65536]]
    ops += [op("stage_new", x=x) for x in list(range(0, 30)) + HUGE]
    ops += [op("stage_const")]
    for s in STAGES + ["", "Zero", "Twenty-three", "twenty two", "Twentytwo", "Majors", "majo", "1", "22 bells", "8",
                       "Cinq", "Sextuple", "Katers", "ſingles", "Sıngles", "SİNGLES", "Minor\u0307", "fifteen", "thirteen",
                       "Seventeen", "Twenty-One"]:
        for t in {s, s.lower(), s.upper(), s.swapcase(), s.title(), s + " ", " " + s, s[:-1], s + "s",
                  s.replace("k", "K").replace("i", "İ")}:
            t = "".join(c for c in t if c != "ſ" and c != "Σ")
            ops.append(op("stage_name", s=cps(t)))
    for _ in range(300 * k):
        w = list(g.c(STAGES))
        for _ in range(g.i(0, 3)):
            x = g.i(0, len(w) - 1)
            w[x] = g.c([w[x].upper(), w[x].lower(), g.c("abeinorstuT-"), "K", "İ"])
        ops.append(op("stage_name", s=cps("".join(w))))
        x, y = (g.c([g.i(0, 40), g.i(0, 4), g.c(HUGE)]) for _ in range(2))
        ops.append(op("bell_cmp", x=x, y=g.c([x, y])))
        ops.append(op("stage_cmp", x=max(1, x), y=max(1, g.c([x, y]))))
        x = g.i(0, 60)
        d = g.i(0, 60)
        how = g.c(["add", "sub", "add_assign", "sub_assign"])
        ops.append(op("bell_arith", x=x, d=d if how.startswith("add") else min(x, d), how=how))
        ops.append(op("rowstr", a=g.row(g.stage())))
    for n in range(1, 5):
        for p in itertools.permutations(range(n)):
            ops.append(op("rowstr", a=list(p)))
    for n in range(30, 40):
        ops += [op("rowstr", a=list(range(n))), op("rowstr", a=list(range(n))[::-1])]
    return chunk(ops)


def vec_history(g, steps, n=None, big=False, many=None):
    """A history of the three row buffers; keeps track of stages and lengths only.  many() gives the sizes of long buffers"""
    cap = 300 if many else 40
    n = n or (g.stage() if big else g.i(1, 8))
    st, ln = [1, 1, 1], [0, 0, 0]
    h = []

    def new(i):
        x = g.i(0, 3)
        w = g.c([n, n, n, g.i(1, 8)])
        if x == 0:
            h.append(op("vnew", i=i, how="new", n=w))
            ln[i] = 0
        elif x == 1:
            h.append(op("vnew", i=i, how="cap", n=w, c=g.i(0, 9)))
            ln[i] = 0
        elif x == 2:
            h.append(op("vnew", i=i, how="buf", a=g.row(w)))
            ln[i] = 1
        else:
            rows = [g.row(w) for _ in range(many() if many else g.i(0, 6))]
            h.append(op("vnew", i=i, how="lit", n=w, rows=rows))
            ln[i] = len(rows)
        st[i] = w

    for i in range(3):
        new(i)
    for _ in range(steps):
        i, j = g.i(0, 2), g.i(0, 2)
        x = g.i(0, 25)
        if ln[i] > cap and x in (2, 3, 4, 5, 6, 7, 8, 9, 10):
            x = 13
        if x == 0:
            new(i)
        elif x <= 2:
            h.append(op("vpush", i=i, a=g.row(st[i])))
            ln[i] += 1
        elif x <= 4:
            h.append(op("vpop", i=i))
            ln[i] = max(0, ln[i] - 1)
        elif x == 5:
            rows = [g.row(st[i]) for _ in range(many() if many and g.p(0.5) else g.i(0, 4))]
            h.append(op("vext", i=i, how="rows", rows=rows))
            ln[i] += len(rows)
        elif x == 6:
            if i != j:
                h.append(op("vext", i=i, j=j, how=g.c(["vec", "buf"])))
                if st[i] == st[j] or ln[j] == 0:
                    ln[i] += ln[j]
        elif x <= 8:
            if i != j:
                if g.p(0.3):
                    h.append(op("vexttr", i=i, j=j, a=g.row(st[i]), how="all"))
                    q = ["full", 0, 0]
                else:
                    q = g.rg(ln[j])
                    h.append(op("vexttr", i=i, j=j, a=g.row(st[i]), how="range", rg=q))
                if st[i] == st[j]:
                    ln[i] += rlen(q, ln[j])
        elif x <= 10:
            q = g.rg(ln[i])
            h.append(op("vextw", i=i, rg=q, a=g.row(st[i])))
            ln[i] += rlen(q, ln[i])
        elif x == 11:
            h.append(op("vpre", i=i, a=g.row(st[i]), how=g.c(["pre", "permute"])))
        elif x == 12:
            if i != j:
                h.append(op("vpremd", i=i, j=j, a=g.row(st[j])))
                st[i], ln[i] = st[j], ln[j]
        elif x <= 14:
            y = g.c([g.i(0, ln[i]), g.i(0, ln[i]), g.far(ln[i])])
            h.append(op("vsplit", i=i, j=j, x=y))
            if y <= ln[i]:
                l0, s0 = ln[i], st[i]
                ln[i], st[i] = y, s0
                ln[j], st[j] = l0 - y, s0
        elif x <= 18:
            h.append(op("vget", i=i, x=g.far(ln[i]),
                        how=g.c(["get", "get", "get_mut", "first", "last", "first_mut", "last_mut", "index", "index"])))
        elif x <= 20:
            h.append(op("vedit", i=i, x=g.far(ln[i]), p=g.i(0, st[i] - 1), q=g.i(0, st[i] - 1),
                        how=g.c(["get", "get", "first", "last"])))
        elif x == 21:
            h.append(op("veq", i=i, j=j))
        else:
            h.append(op("vobs", i=i))
    h += [op("vobs", i=i) for i in range(3)]
    return h, st, ln


def gen_C08(g, k):
    hs = [vec_history(g, 45)[0] for _ in range(180 * k)]
    hs += [vec_history(g, 12, big=True)[0] for _ in range(60 * k)]
    # indices whose product with the stage overflows
    for n in (1, 2, 3, 4, 6, 8, 12, 16, 3, 6, 64):
        rows = [g.row(n) for _ in range(4)]
        h = [op("vnew", i=0, how="lit", n=n, rows=rows)]
        for x in HUGE + [0, 3, 4, 5]:
            h += [op("vget", i=0, x=x, how=w) for w in ("get", "get_mut", "index")]
            h += [op("vsplit", i=0, j=1, x=x)] if x in HUGE else []
            h += [op("vedit", i=0, x=x, p=0, q=n - 1, how="get")]
        hs.append(h)
    return hs


def gen_C09(g, k):
    hs = []
    # all interleavings of the two ends over short buffers
    for m in range(0, 5):
        n = max(1, m % 4)
        h = [op("vnew", i=0, how="lit", n=n, rows=[g.row(n) for _ in range(m)]),
             op("bnew", i=0, how="idx", n=3, rows=[g.row(3) for _ in range(m + 1)], an=list(range(m)))]
        for s in itertools.product((0, 1, 10 + 1, 100 + 1), repeat=min(m + 1, 4)):
            script = [y for x in s for y in (3, x)] + [2, 3, 4, 0, 1, 3]
            h.append(op("iter", i=0, how=g.c(["vec", "vinto", "rows", "all_rows"]), script=script))
        for z in range(0, len(h), 30):
            hs.append(h[:2] + h[max(2, z):z + 30])
    for _ in range(220 * k):
        n = g.c([1, g.i(1, 6), g.i(1, 9), g.stage()])
        m = g.c([0, 1, 2, 3, g.i(0, 12), g.i(0, 30)])
        h = [op("vnew", i=0, how="lit", n=n, rows=[g.row(n) for _ in range(m)]),
             op("bnew", i=0, how="idx", n=n, rows=[g.row(n) for _ in range(m + 1)], an=[g.i(-9, 9) for _ in range(m)])]
        for _ in range(6):
            script = []
            for _ in range(g.i(1, m + 8)):
                x = g.i(0, 13)
                script.append([0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, g.c([8, 9]), g.c([10, 100]) + g.i(0, max(2, m // 3))][x])
            h.append(op("iter", i=0, how=g.c(["vec", "vinto", "rows", "all_rows"]), script=script + [3, 2, 0, 1, 0, 3]))
        h.append(op("aiter", i=0))
        hs.append(h)
    ops = [op("inspect", a=g.row(g.stage())) for _ in range(40)]          # bells of a row, fixed bells
    ops += [op("stage_num", x=x) for x in list(range(1, 30)) + [300]]     # bells of a stage
    return hs + chunk(ops)


def gen_C10(g, k):
    ops = []
    for s in ["", "\n", "\n\n", "1", "1\n", "\n1", "1\n\n", "12\n21", "12\n21\n", "12\n\n21", "12\n12", "12\n123", "123\n12",
              "12\n2", "11", "12\n11\n", "12\r\n21\r\n", "12\r21", " 12 \n21", "12\n x\n21", "x", "x\n", "13\n31", "\r\n", "12\x0b21",
              "12\n21\u2028", "1\u20282"]:
        ops += [op("mparse", s=cps(s), how=h) for h in ("vec", "blk")]
    for n in range(0, 6 if k > 1 else 5):
        for t in itertools.product("12\n", repeat=n):
            ops.append(op("mparse", s=cps("".join(t)), how=g.c(["vec", "blk"])))
    junk = [c for c in ODD if c != 10]
    for _ in range(700 * k):
        n = g.c([1, g.i(1, 4), g.i(1, 8), g.i(1, 33)])
        m = g.c([1, 2, g.i(1, 8), g.i(1, 40)])
        lines = [[ord(NAMES[b]) for b in g.row(n)] for _ in range(m)]
        for _ in range(g.c([0, 0, 0, 1, 1, 2])):
            y = g.i(0, len(lines) - 1)
            z = g.i(0, 6)
            if z == 0:
                lines[y] = []
            elif z == 1:
                lines[y] = g.name_text(g.row(other_stage(g, n)))
            elif z == 2 and lines[y]:
                lines[y][g.i(0, len(lines[y]) - 1)] = ord(g.c(NAMES))
            elif z == 3:
                lines.insert(y, [32])
            elif z == 4 and lines[y]:
                del lines[y][-1]
            elif z == 5:
                lines[y] = lines[y] + [ord(NAMES[min(n, 32)])]
            else:
                lines.append([])
        if g.p(0.3):
            lines = [g.noisy(l, 0.1, junk) for l in lines]
        sep = [13, 10] if g.p(0.15) else [10]
        out = []
        for y, l in enumerate(lines):
            out += ([] if y == 0 else sep) + l
        if g.p(0.4):
            out += sep
        ops.append(op("mparse", s=out, how=g.c(["vec", "blk"])))
    return chunk(ops)


def blk_history(g, steps, n=None, big=False, many=None):
    cap = 300 if many else 40
    n = n or (g.stage() if big else g.i(1, 8))
    st, ln = [1, 1, 1], [0, 0, 0]
    h = []

    def new(i):
        w = g.c([n, n, n, n, g.i(1, 8)])
        x = g.i(0, 9)
        if x == 0:
            h.append(op("bnew", i=i, how="empty", n=w))
            st[i], ln[i] = w, 0
        elif x == 1 and g.p(0.3):
            h.append(op("bnew", i=i, how="idx", n=w, rows=[], an=[]))
        else:
            rows = [g.row(w) for _ in range(many() + 1 if many else g.c([1, 2, 2, 3, 4, 5, 7]))]
            if g.p(0.4):
                rows[0] = list(range(w))
            if x < 3:
                h.append(op("bnew", i=i, how="def", n=w, rows=rows))
            else:
                h.append(op("bnew", i=i, how="idx", n=w, rows=rows, an=[g.i(-50, 50) for _ in rows[1:]]))
            st[i], ln[i] = w, len(rows) - 1

    for i in range(3):
        new(i)
    for _ in range(steps):
        i, j = g.i(0, 2), g.i(0, 2)
        x = g.i(0, 21)
        if ln[i] > cap and 3 <= x <= 9:
            x = 12
        if x == 0:
            new(i)
        elif x <= 2:
            h.append(op("bset", i=i, x=g.far(ln[i]), v=g.i(-99, 99)))
        elif x <= 7:
            if i != j:
                if g.p(0.3):
                    h.append(op("bext", i=i, j=j, how="all"))
                    q = ["full", 0, 0]
                else:
                    q = g.rg(ln[j])
                    h.append(op("bext", i=i, j=j, how="range", rg=q))
                if st[i] == st[j]:
                    ln[i] += rlen(q, ln[j])
        elif x <= 9:
            q = g.rg(ln[i])
            h.append(op("bextw", i=i, rg=q))
            ln[i] += rlen(q, ln[i])
        elif x == 10:
            h.append(op("bpre", i=i, a=g.row(st[i]), how=g.c(["pre", "permute"])))
        elif x == 11:
            h.append(op("bmap", i=i, v=g.i(-9, 9), how=g.c(["map", "mapi", "clone"])))
        elif x <= 14:
            y = g.c([g.i(0, ln[i]), g.i(0, ln[i]), g.far(ln[i])])
            h.append(op("bsplit", i=i, j=j, x=y))
            if y <= ln[i]:
                l0, s0 = ln[i], st[i]
                ln[i], st[i] = y, s0
                ln[j], st[j] = l0 - y, s0
        elif x <= 16:
            h.append(op("bget", i=i, x=g.far(ln[i])))
        elif x == 17:
            h.append(op("beq", i=i, j=j))
        else:
            h.append(op("bobs", i=i))
    h += [op("bobs", i=i) for i in range(3)]
    return h, st, ln


def gen_C11(g, k):
    hs = [blk_history(g, 40)[0] for _ in range(170 * k)]
    hs += [blk_history(g, 10, big=True)[0] for _ in range(50 * k)]
    for _ in range(60 * k):           # split and re-chain
        n = g.i(1, 8)
        m = g.i(1, 6)
        h = [op("bnew", i=0, how="idx", n=n, rows=[g.row(n) for _ in range(m + 1)], an=[g.i(0, 99) for _ in range(m)]),
             op("bsplit", i=0, j=1, x=g.i(0, m)), op("bext", i=0, j=1, how="all"), op("bobs", i=0), op("beq", i=0, j=1)]
        hs.append(h)
    return hs


def gen_C12(g, k):
    hs = []
    for _ in range(260 * k):
        n = g.c([g.i(1, 6), g.i(1, 10), g.stage()])
        h = []
        for j in range(2):
            rows = [g.row(n) for _ in range(g.c([1, 2, 2, 3, 4, 6]))]
            if g.p(0.5):
                rows[0] = list(range(n))
            h.append(op("bnew", i=j, how="idx", n=n, rows=rows, an=[g.i(0, 99) for _ in rows[1:]]))
        for j in range(2):
            h.append(op("rnew", i=j, j=g.i(0, 1), a=g.row(n)))
        h += [op("gset", i=x, a=g.row(g.c([n, g.stage()]))) for x in range(3)]
        for _ in range(24):
            x = g.i(0, 9)
            i = g.i(0, 1)
            if x <= 3:
                h.append(op("rnext", i=i))
            elif x <= 6:
                h.append(op("rinto", i=i, k=g.i(0, 2)))
            elif x == 7:
                h.append(op("rskip", i=i, x=g.c([0, 1, 2, 3, g.i(0, 30), g.i(0, 400)])))
            elif x == 8 and g.p(0.5):
                h.append(op("rclone", i=i, j=1 - i))
            elif g.p(0.2):
                h.append(op("rnew", i=i, j=g.i(0, 1), a=g.row(g.c([n, n, n + 1]))))
            else:
                h.append(op("gset", i=g.i(0, 2), a=g.row(g.c([n, g.stage()]))))
        hs.append(h)
    return hs


def gen_C13(g, k):
    ops = []
    for n in range(1, 8 if k == 1 else 10):           # all sets of places
        for m in range(0, n + 1):
            for s in itertools.combinations(range(n + 1), m):
                ops.append(op("pn_slice", v=list(s), n=n))
                ops.append(op("pn_parse", s=g.name_text(g.r.sample(s, len(s))), n=n))
    for n in list(range(1, 20)) + [32, 33, 40, 64, 65]:
        ops += [op("pn_cross", n=n)]
        ops += [op("pn_parse", s=cps(t), n=n) for t in ("x", "X", "-", "", "xx", "x-", "-1", "x1", " x", "x ", "1-", ".", "1.2", "+1", "1,2",
                                                        "÷", "×", "−", "–", "0", "E", "T", "Z", "t", "e", "11", "1a2")]
    for _ in range(1500 * k):
        n = g.c([g.i(1, 8), g.i(1, 16), g.i(1, 34)])
        t = g.pn_text(n, 0.35)
        if g.p(0.2):
            t = g.noisy(t, 0.3)
        ops.append(op("pn_parse", s=t, n=n))
        n = g.stage()
        pl = g.places(n)
        for _ in range(g.c([0, 0, 1, 1, 2])):
            z = g.i(0, 3)
            if z == 0 and pl:
                del pl[g.i(0, len(pl) - 1)]
            elif z == 1:
                pl.append(g.c([n, n + 1, g.i(0, n - 1), g.c(HUGE)]))
            elif z == 2 and pl:
                pl.append(g.c(pl))
            elif z == 3 and len(pl) > 1:
                del pl[g.c([0, -1])]
        ops.append(op("pn_slice", v=sorted(pl), n=n))
    return chunk(ops)


def gen_C14(g, k):
    ops = []

    def all_pns(n):
        def go(x):
            if x >= n:
                yield []
            if x < n:
                for r in go(x + 1):
                    yield [x] + r
            if x + 1 < n:
                for r in go(x + 2):
                    yield r
        return [{"n": n, "pl": p} for p in go(0)]
    for n in range(1, 9):
        for pn in all_pns(n):
            ops.append(op("pn_lit", pn=pn))
            ops.append(op("pn_act", pn=pn, a=g.row(n), how=g.c(["permute", "new", "unchecked", "new_unchecked"])))
    for n in range(1, 5):
        rows = [list(p) for p in itertools.permutations(range(n))]
        for a in rows:
            for b in rows:
                ops.append(op("pn_btw", a=a, b=b))
    for _ in range(700 * k):
        n = g.stage()
        pn = g.pn(n)
        a = g.row(n)
        ops.append(op("pn_lit", pn=pn))
        ops.append(op("pn_act", pn=pn, a=a, how=g.c(["permute", "new", "unchecked", "new_unchecked"])))
        b = swap_by(pn, a)
        z = g.i(0, 5)
        if z == 0:
            b = g.near(b)
        elif z == 1:
            b = g.row(g.c([n, n + 1, max(1, n - 1)]))
        elif z == 2:
            b = list(a)
        elif z == 3:
            # a permutation which moves bells but not by one place
            b = list(b)
            x, y = g.i(0, n - 1), g.i(0, n - 1)
            b[x], b[y] = b[y], b[x]
        ops.append(op("pn_btw", a=a, b=b))
        if g.p(0.2):
            ops.append(op("pn_btw", a=a, b=a + [n]))
            ops.append(op("pn_act", pn=pn, a=a + [n], how=g.c(["permute", "new"])))
    return chunk(ops)


def swap_by(pn, a):
    b, x, pl = list(a), 0, set(pn["pl"])
    while x < len(b):
        if x in pl:
            x += 1
        else:
            b[x], b[x + 1] = b[x + 1], b[x]
            x += 2
    return b


def gen_C15(g, k, faulty=0.03, alphabet="12x., +", extra=""):
    ops = []
    for n in (2, 3):
        for m in range(0, 5 if k == 1 else 6):
            for t in itertools.product("12x.,+", repeat=m):
                if m < 4 or g.p(0.6) or k > 1:
                    ops.append(op("pnb_parse", s=cps("".join(t)), n=n))
    for _ in range(1300 * k):
        n = g.c([g.i(1, 8), g.i(2, 8), g.i(1, 16), g.i(1, 34)])
        t = g.pnb_text(n, faulty)
        if g.p(0.2):
            t = g.noisy(t, 0.08)
        ops.append(op("pnb_parse", s=t, n=n))
    for s, n in [("-18-18-18-18,12", 8), ("x.14x12.3x4.5.36x,2", 6), ("3.1.7.3.1.3,1", 7), ("+3.1.3.1.3.1.3.1,+1", 7), ("&-1-1-1,+2", 6),
                 ("3,1.5.1.5.1", 5), ("+5.1.5.1.5,+1", 5), (",", 4), (",,", 4), ("+", 4), ("+,+", 4), ("12,", 4), (",12", 4),
                 ("x,", 4), (",x", 4), ("x,,x", 4), ("+x,", 4), ("x,+", 4), ("12.34,", 4), ("12.34,,14", 4), ("  +12", 4), (".+12", 4),
                 ("1+2", 4), ("12+", 4), ("++12", 4), ("12,++14", 4), ("é+12", 4), ("12é,+é14", 4), ("1 2", 4), ("1é2", 4)]:
        ops.append(op("pnb_parse", s=cps(s), n=n))
    return chunk(ops)


def gen_C16(g, k):
    ops = []
    multi = [233, 8232, 128276, 775, 127, 0, 33, 101]
    for _ in range(2000 * k):
        n = g.c([g.i(1, 8), g.i(3, 8), g.i(1, 16), g.i(1, 34)])
        t = g.pnb_text(n, g.c([0.1, 0.3, 0.6]))
        if g.p(0.4):
            t = g.noisy(t, 0.15, multi)
        for _ in range(g.c([0, 1, 1, 2])):
            z = g.i(0, 5)
            pos = g.i(0, len(t))
            if z == 0:
                t.insert(pos, 43)
            elif z == 1:
                t.insert(pos, ord(NAMES[min(32, n + g.i(0, 2))]))
            elif z == 2:
                t.insert(pos, g.c([120, 45, 88]))
            elif z == 3 and t:
                t.insert(pos, g.c([c for c in t]))
            elif z == 4:
                t[pos:pos] = [44] + [g.c(multi) for _ in range(g.i(0, 2))]
            else:
                t.insert(pos, g.c(multi))
        ops.append(op("pnb_parse", s=t, n=n))
    for n in (3, 4):
        for m in range(0, 5):
            for t in itertools.product("15x,+é", repeat=m):
                if m < 4 or g.p(0.4):
                    ops.append(op("pnb_parse", s=cps("".join(t)), n=n))
    for _ in range(120 * k):            # nothing but separators
        ops.append(op("pnb_parse", s=[g.c([32, 46, 44, 43, 33, 233]) for _ in range(g.i(0, 5))], n=g.i(1, 8)))
    return chunk(ops)


def gen_C17(g, k):
    ops = []
    for _ in range(500 * k):
        n = g.c([g.i(1, 8), g.i(1, 8), g.stage()])
        pns = [g.pn(n) for _ in range(g.c([1, 1, 2, 3, 5, 8, 13]))]
        ops.append(op("pnb_rows", pns=pns, a=g.row(n), how=g.c(["rows", "block", "rounds"])))
        if g.p(0.1):
            ops.append(op("pnb_rows", pns=pns, a=g.row(n + 1), how=g.c(["rows", "block"])))
        pns = [g.pn(n) for _ in range(g.c([0, 1, 1, 2, 3, 5, 8]))]
        for _ in range(g.c([0, 0, 1, 2])):
            pns.insert(g.i(0, len(pns)), g.pn(other_stage(g, n)))
        ops.append(op("pnb_vec", pns=pns, how=g.c(["vec", "iter"])))
    for _ in range(4 * k):
        n = g.i(4, 8)
        pns = [g.pn(n) for _ in range(150)]
        ops += [op("pnb_rows", pns=pns, a=g.row(n), how=h) for h in ("rows", "block", "rounds")]
    return chunk(ops)


def lead(g, n, m, palin=None):
    """Changes of a lead: random, palindromic or treble-dodging shaped"""
    pns = [g.pn(n) for _ in range(m)]
    if palin if palin is not None else g.p(0.5):
        half = pns[:max(1, m // 2)]
        pns = half + half[-2::-1] + [g.pn(n)]
    return pns


def rows_of(pns, start=None):
    rows = [start or list(range(pns[0]["n"]))]
    for pn in pns:
        rows.append(swap_by(pn, rows[-1]))
    return rows


def labels(g, m):
    ls = ["LE", "LE", "HL", "", "é", "x"]
    return [{"t": "some", "v": cps(g.c(ls))} if g.p(0.4) else {"t": "none"} for _ in range(m)]


REAL = [("-18-18-18-18,12", 8), ("-16-16-16,12", 6), ("x14x14,12", 4), ("3,1.5.1.5.1", 5), ("3,1.7.1.7.1.7.1", 7), ("-36-14-12-36-14-56,12", 6),
        ("-38-14-1258-36-14-58-16-78,12", 8), ("38-38.14-1258-38-14-58-16-78,12", 8), ("-58-14.58-58.36.14-14.58-14-18,18", 8),
        ("3.1.5.3.1.3.1.3.5.1.3.1", 5), ("3.1.7.3.1.3.1.3.7.1.3.1", 7), ("3.1.5,1.5.1.5.1", 5), ("5.1.5.1.5,1", 5), ("x16x16x16,16", 6),
        ("34-34.1-2-1-34-1,1", 6), ("-34-14-12-16-34-56,12", 6), ("-3-4-2-3-4-5,2", 6), ("-4-4,2", 4), ("-14-14,34", 4), ("x1x1x1,2", 6),
        ("34.14.12,14", 4), ("x3x4x25x36x4x5x6x7,2", 8), ("5,1", 5), ("x1,2", 4), ("3.1.3,1", 3), ("1.3", 3), ("3.1", 3),
        ("-12-16.34.12.34-12-16,12", 6), ("x,1", 2), ("x1", 2), ("1", 1), ("12", 2), ("-36-36.14-12-36.14-14.36,16", 6)]


def gen_C18(g, k):
    hs = []
    for _ in range(220 * k):
        n = g.c([g.i(1, 4), g.i(1, 8), g.i(3, 12)])
        m = g.c([1, 2, 3, 4, 6, 8, 12])
        kind = g.i(0, 3)
        if kind == 0:
            s, n = g.c(REAL)
            h = [op("mnew", name=cps(g.title()), how="pns", n=n, s=cps(s))]
            m = None
        else:
            pns = lead(g, n, m)
            m = len(pns)
            rows = rows_of(pns)
            if kind == 1:
                h = [op("mnew", name=cps(g.title()), how="le", pns=pns)]
            elif kind == 2:
                h = [op("mnew", name=cps(g.title()), how="named", n=n, rows=rows, labels=labels(g, m))]
            else:
                if g.p(0.3):       # jumps are allowed for methods which aren't classified
                    rows = [rows[0]] + [g.row(n) for _ in range(m)]
                h = [op("mnew", title=cps(g.title()), name=cps(g.title()), how="new", n=n, rows=rows, labels=labels(g, m),
                        cls={"j": g.p(.5), "l": g.p(.5), "d": g.p(.5), "c": g.i(0, 8)})]
        if m is None:
            m = sum(1 for _ in rows_len(s))
        h.append(op("minfo"))
        if kind == 0 or order_guard(h[0]):
            h.append(op("mcourse"))
        for _ in range(12):
            x = g.i(0, 9)
            if x <= 3:
                h.append(op("mrow", x=g.c([g.i(0, m), g.i(0, 3 * m), g.i(0, 40 * m), g.i(0, 3000), m, m - 1, 2 * m])))
            elif x == 4:
                h.append(op("mlrow", x=g.c([g.i(0, m), g.i(0, m), m, m + 1])))
            elif x <= 6:
                h.append(op("mset", how="label", x=g.c([g.i(0, m - 1), g.i(0, m - 1), m - 1, m]), label=labels(g, 1)[0]))
            elif x == 7 and g.p(0.5):
                h.append(op("mset", how="le"))
            elif x == 8:
                h.append(op("mgetl", x=g.c([g.i(0, m - 1), g.i(0, m - 1), m])))
            else:
                h.append(op("mfind", label=cps(g.c(["LE", "HL", "", "é", "y"]))))
        h.append(op("minfo"))
        if kind == 0 or order_guard(h[0]):
            h.append(op("mcourse"))
        hs.append(h)
    return hs


def rows_len(s):
    """The changes of one of the REAL texts"""
    for k, part in enumerate(s.split(",")):
        w, cur = 0, ""
        for c in part + ".":
            if c in "x-.":
                w += bool(cur) + (c in "x-")
                cur = ""
            else:
                cur += c
        if "," in s:
            w = 2 * w - 1
        yield from range(w)


def order_guard(o):
    rows = o["rows"] if "rows" in o else rows_of(o["pns"])
    return order(rows[-1]) * len(rows) <= 400


def treble_lead(g, n):
    """A lead in which the treble plain hunts or treble dodges and others do what they like"""
    shape = g.i(0, 3)
    if shape == 0:
        path = list(range(n)) + list(range(n - 1, -1, -1))
    elif shape == 1 and n % 2 == 0:
        path = []
        for p in range(0, n, 2):
            path += [p, p + 1, p, p + 1]
        path = path + path[::-1]
    elif shape == 2:
        m = g.i(2, n)
        path = list(range(m)) + list(range(m - 1, -1, -1))
    else:
        m = 2 * g.i(1, n // 2) if n >= 2 else 1
        path = []
        for p in range(0, m, 2):
            path += [p, p + 1, p, p + 1]
        path = path + path[::-1] or [0]
        if n == 1:
            path = [0]
    pns = []
    for a, b in zip(path, path[1:] + path[:1]):
        lo, hi = min(a, b), max(a, b)
        left = [x for x in g.places(lo)] if lo else []
        right = [hi + 1 + x for x in (g.places(n - hi - 1) if n - hi - 1 > 0 else [])]
        mid = [a] if a == b else []
        pns.append({"n": n, "pl": left + mid + right})
    if g.p(0.6) and len(pns) > 2:
        m = len(pns) // 2
        pns = pns[:m] + pns[:m - 1][::-1] + [pns[-1]] if g.p(1) else pns
    return pns


def hunt_path(g, lo, hi):
    """A closed path over the places lo .. hi: up and down, with dodges or places on the way, as one or two symmetric halves or none"""
    def up(kind):
        out, p = [], lo
        while p <= hi:
            x = g.i(0, 3) if kind == 4 else kind
            if p + 1 <= hi and x == 1:
                out += [p, p + 1, p, p + 1]
            elif p + 1 <= hi and x == 2:
                out += [p, p, p + 1, p + 1]
            elif p + 1 <= hi and x == 3:
                out += [p, p + 1] * 3
            else:
                out += [p] + ([p + 1] if p + 1 <= hi else [])
            p += 2
        return out
    a = up(g.c([0, 1, 1, 1, 2, 3, 4, 4]))
    path = a + (a if g.p(0.75) else up(g.c([0, 1, 2, 4])))[::-1]
    return path


def hunt_lead(g, n, count):
    """A lead in which several bells keep to given paths and the others do what they like; nothing if the paths get in each other's way"""
    for _ in range(60):
        lo = g.c([0, 0, 0, g.i(0, n - 1)])
        hi = g.c([n - 1, n - 1, g.i(lo, n - 1)])
        base = hunt_path(g, lo, hi) if hi > lo else [lo]
        paths = [base]
        m = len(base)
        for _ in range(count - 1):
            x = g.i(0, 3)
            if x == 0:                                     # the same path, but from elsewhere
                q = base
            elif x == 1:
                q = [lo + hi - p for p in base]
            elif x == 2 and hi > lo:
                q = hunt_path(g, lo, hi)
            else:
                for _ in range(20):                        # another range of places, in as many rows
                    a, b = sorted((g.i(0, n - 1), g.i(0, n - 1)))
                    q = hunt_path(g, a, b) if a < b else [a]
                    if len(q) == m:
                        break
            if max(m, len(q)) % min(m, len(q)):
                q = base
            y = g.i(0, len(q) - 1)
            paths.append(q[y:] + q[:y])
        y = g.i(0, m - 1)
        paths[0] = base[y:] + base[:y]
        m = max(len(q) for q in paths)
        if m < 2 or m > 64 or any(m % len(q) for q in paths):
            continue
        pns = along(g, n, [q * (m // len(q)) for q in paths])
        if pns:
            return pns
    return None


def along(g, n, paths):
    """Changes which take the bells along the (closed) paths, and others as they like; nothing if that can't be"""
    pns, m = [], len(paths[0])
    for t in range(m):
        to = {q[t]: q[(t + 1) % m] for q in paths}
        if len(to) < len(paths):
            return None
        pl, p = [], 0
        while p < n:
            if p in to and to[p] == p:
                pl.append(p)
            elif p in to or to.get(p + 1) == p:             # a swap which must be
                if to.get(p, p + 1) != p + 1 or to.get(p + 1, p) != p or p + 1 >= n:
                    return None
                p += 1
            elif p + 1 < n and p + 1 not in to and g.p(0.7):
                p += 1
            else:
                pl.append(p)
            p += 1
        pns.append({"n": n, "pl": pl})
    return pns


def mirror_lead(g, n, count):
    """Several bells which keep to symmetric paths over different ranges of places"""
    for _ in range(60):
        halves = [hunt_path(g, 0, n - 1)]
        m = g.c([len(halves[0]), len(halves[0]) // 2])
        halves[0] = halves[0][:m]
        for _ in range(count - 1):
            lo, hi = sorted((g.i(0, n - 1), g.i(0, n - 1)))
            q = []
            for t in range(m):
                now = [h[t] for h in halves]
                if not q:
                    ps = [p for p in range(lo, hi + 1) if p not in now]
                else:
                    was = [h[t - 1] for h in halves]
                    ps = [p for p in range(max(lo, q[-1] - 1), min(hi, q[-1] + 1) + 1) if p not in now
                          and (p == q[-1] or p not in was or now[was.index(p)] == q[-1])
                          and (q[-1] not in now or was[now.index(q[-1])] == p)]
                if not ps:
                    break
                q.append(g.c(ps))
            if len(q) == m:
                halves.append(q)
        if m and len(halves) > 1:
            pns = along(g, n, [h + h[::-1] for h in halves])
            if pns:
                x = g.c([0, 0, g.i(0, len(pns) - 1)])
                return pns[x:] + pns[:x]
    return None


def gen_C19(g, k):
    ops = []
    for _ in range(650 * k):
        n = g.c([g.i(1, 4), g.i(3, 8), g.i(2, 8), g.i(3, 10)])
        if n >= 2 and g.p(0.6):
            pns = treble_lead(g, n)
        else:
            pns = lead(g, n, g.c([1, 2, 3, 4, 6, 8, 12]))
        if g.p(0.1):
            x = g.i(0, len(pns) - 1)
            pns = pns[x:] + pns[:x]
        ops.append(op("classify", pns=pns))
    pn3 = [[2], [0], [0, 1, 2]]
    for m in range(1, 6 if k == 1 else 8):
        for t in itertools.product(pn3, repeat=m):
            ops.append(op("classify", pns=[{"n": 3, "pl": p} for p in t]))
    pn4 = [[], [0, 3], [0, 1], [2, 3], [0, 1, 2, 3]]
    for m in range(1, 5 if k == 1 else 7):
        for t in itertools.product(pn4, repeat=m):
            ops.append(op("classify", pns=[{"n": 4, "pl": p} for p in t]))
    hs = chunk(ops, 12)
    for s, n in REAL:
        hs.append([op("mnew", name=cps(g.title()), how="pns", n=n, s=cps(s)), op("minfo")])
    return hs


def gen_C20(g, k):
    ops = []
    names = ["", "A", "Plain Bob", " ", "Cambridge", "é", "x  y", "Principle"]
    for j, l, d in itertools.product((False, True), repeat=3):
        for c in range(9):
            cls = {"j": j, "l": l, "d": d, "c": c}
            ops.append(op("clsdisp", cls=cls))
            for nm in names[:6]:
                for n in (1, 8, 22, 23):
                    ops.append(op("title", name=cps(nm), cls=cls, n=n))
    ops += [op("clsinfo", c=c) for c in range(9)]
    for n in list(range(1, 41)) + [64, 100, 300]:
        for c in range(9):
            ops.append(op("title", name=cps(g.c(names)), cls={"j": g.p(.3), "l": g.p(.5), "d": g.p(.5), "c": c}, n=n))
    for _ in range(300 * k):
        ops.append(op("title", name=g.c([cps(g.title()), g.anytext()]), n=g.stage(),
                      cls={"j": g.p(.3), "l": g.p(.5), "d": g.p(.5), "c": g.i(0, 8)}))
    return chunk(ops, 40)


def mask(g, n, sat=True, p=None):
    p = p if p is not None else g.c([0.0, 0.2, 0.5, 0.8, 0.95, 1.0])
    r = g.row(n)
    m = [b if g.p(p) else -1 for b in r]
    if g.p(0.15) and n > 1:          # one place free
        m = list(r)
        m[g.i(0, n - 1)] = -1
    if not sat:
        for _ in range(g.i(1, 2)):
            m[g.i(0, n - 1)] = g.c([n, n + 1, g.i(0, n - 1), g.i(0, n - 1), 40])
    return m


def small_masks(n, extra=0):
    return [list(m) for m in itertools.product(range(-1, n + extra), repeat=n)]


def gen_C21(g, k):
    ops = []
    for n in (1, 2):
        for m in small_masks(n, 1):
            ops.append(op("mk_info", m=m))
            for p in small_masks(n, 1):
                ops.append(op("mk_rel", m=m, p=p))
            for a in itertools.permutations(range(n)):
                ops.append(op("mk_match", m=m, a=list(a)))
    sat3 = [m for m in small_masks(3) if all(m.count(b) < 2 for b in range(3))]
    for m in sat3:
        ops.append(op("mk_info", m=m))
        for p in sat3:
            ops.append(op("mk_rel", m=m, p=p))
        for a in itertools.permutations(range(3)):
            ops.append(op("mk_match", m=m, a=list(a)))
    for _ in range(800 * k):
        n = g.stage()
        sat = g.p(0.85)
        m = mask(g, n, sat)
        z = g.i(0, 5)
        if z == 0:
            p = mask(g, n, sat)
        elif z == 1:
            p = [b if g.p(0.7) else -1 for b in m]
        elif z == 2:
            r = complete(g, m)
            p = [b if g.p(0.5) else -1 for b in r]
        elif z == 3:
            p = list(m)
            free = [i for i in range(n) if p[i] < 0]
            if free:
                p[g.c(free)] = g.i(0, n - 1)
        elif z == 4:
            p = mask(g, other_stage(g, n))
        else:
            r = complete(g, m)
            p = list(r)
            p[g.i(0, n - 1)] = -1
        ops.append(op("mk_rel", m=m, p=p) if g.p(0.5) else op("mk_rel", m=p, p=m))
        a = g.c([complete(g, m), g.near(complete(g, m)), g.row(n), g.row(g.stage())])
        ops.append(op("mk_match", m=m, a=a))
        ops.append(op("mk_info", m=m))
    ops += [op("mk_info", m=[]), op("mk_rel", m=[], p=[]), op("mk_rel", m=[], p=[-1]), op("mk_match", m=[], a=[0])]
    return chunk([o for o in ops if o["op"] != "mk_info" or o["m"]], 24)


def complete(g, m):
    """A row agreeing with a mask as far as possible"""
    n = len(m)
    r, used = [], set()
    for b in m:
        if 0 <= b < n and b not in used:
            r.append(b)
            used.add(b)
        else:
            r.append(-1)
    left = [b for b in range(n) if b not in used]
    g.r.shuffle(left)
    return [b if b >= 0 else left.pop() for b in r]


def gen_C22(g, k):
    ops, hs = [], []
    for m in range(0, 5):
        for t in itertools.product("12x.", repeat=m):
            ops.append(op("mk_parse", s=cps("".join(t))))
    for _ in range(500 * k):
        n = g.stage()
        m = mask(g, n, g.p(0.8))
        t = [ord("x") if b < 0 else ord(NAMES[b]) for b in m if b < 33]
        t = [g.c([120, 88, 46]) if c == 120 else c for c in t]
        ops.append(op("mk_parse", s=g.noisy(t, 0.1) if g.p(0.4) else t))
        ops.append(op("mk_new", how="full", a=g.row(n)))
        ops.append(op("mk_new", how=g.c(["fix", "fixu"]), n=n, bs=[g.i(0, n - 1) for _ in range(g.i(0, 4))]))
        if g.p(0.1):
            ops.append(op("mk_new", how="empty", n=n))
        mm = mask(g, n)
        ops.append(op("mk_mul", m=mm, a=g.row(n), how=g.c(["rm", "mr"])))
        if g.p(0.1):
            for a in (g.row(n + 1), g.row(other_stage(g, n)), g.row(max(1, n - 1)), [v for v in mm if v >= 0 and v < 1] or [0]):
                ops += [op("mk_mul", m=mm, a=a, how=h) for h in ("rm", "mr")]
        ops.append(op("mk_info", m=m))
    for m in small_masks(2) + [x for x in small_masks(3) if all(x.count(b) < 2 for b in range(3))]:
        for a in itertools.permutations(range(len(m))):
            ops += [op("mk_mul", m=m, a=list(a), how=h) for h in ("rm", "mr")]
    hs += chunk(ops)
    for _ in range(150 * k):
        n = g.c([g.i(1, 6), g.stage()])
        h = [op("mk_set", i=i, m=mask(g, n, g.p(0.9), g.c([0, 0.3, 0.6]))) for i in range(2)]
        for _ in range(16):
            how = g.c(["fix", "set", "set"])
            b = g.i(0, n - 1) if how == "fix" else g.c([g.i(0, n - 1), g.i(0, n - 1), g.i(0, n + 2)])
            h.append(op("mk_edit", i=g.i(0, 1), b=b, p=g.i(0, n - 1), how=how))
        hs.append(h)
    return hs


def regex(g, n):
    r = g.row(n)
    e = []
    x = 0
    while x < n:
        z = g.r.random()
        if z < 0.45:
            e.append(r[x])
            x += 1
        elif z < 0.65:
            e.append(-1)
            x += 1
        else:
            e.append(-2)
            x += g.i(0, n - x)
    for _ in range(g.c([0, 0, 1, 1, 2])):
        y = g.i(0, 4)
        pos = g.i(0, len(e))
        if y == 0:
            e.insert(pos, -2)
        elif y == 1 and e:
            del e[min(pos, len(e) - 1)]
        elif y == 2:
            e.insert(pos, -1)
        elif y == 3:
            e.insert(pos, g.i(0, n))
        elif e:
            e[min(pos, len(e) - 1)] = g.c([-1, -2, g.i(0, n - 1)])
    return e, r


def rx_text(g, e):
    return [g.c([120, 46]) if b == -1 else 42 if b == -2 else ord(NAMES[b]) for b in e if b < 33]


def gen_C23(g, k):
    ops = []
    for m in range(0, 5):
        for t in itertools.product("1*x", repeat=m):
            ops.append(op("rx_parse", s=cps("".join(t))))
    els = [-2, -1, 0, 1, 2]
    for m in range(0, 4 if k == 1 else 5):
        for e in itertools.product(els, repeat=m):
            ops.append(op("rx_norm", e=list(e), how=g.c(["elems", "vec", "twice", "unchecked", "unchecked_vec"]) if m < 2 else "elems"))
            for a in itertools.permutations(range(3)):
                if m < 3 or g.p(0.5) or k > 1:
                    ops.append(op("rx_match", e=list(e), a=list(a)))
    for _ in range(1200 * k):
        n = g.c([g.i(1, 5), g.i(1, 8), g.i(1, 12), g.stage()])
        e, r = regex(g, n)
        a = g.c([r, r, g.near(r), g.near(r), g.row(n), g.row(g.stage())])
        ops.append(op("rx_match", e=e, a=a))
        if g.p(0.3):
            ops.append(op("rx_norm", e=e, how=g.c(["elems", "vec", "twice"])))
        if g.p(0.3):
            t = rx_text(g, e)
            ops.append(op("rx_parse", s=g.noisy(t, 0.1) if g.p(0.4) else t))
    # globs against repeats of a prefix (where a greedy matcher could go wrong)
    for _ in range(300 * k):
        n = g.i(3, 9)
        r = g.row(n)
        a, b = sorted((g.i(0, n - 1), g.i(0, n - 1)))
        e = [-2] + r[a:b + 1] + [-2] * g.i(0, 2) + [g.c([-1, r[-1], r[b]])] + [-2] * g.i(0, 1)
        ops.append(op("rx_match", e=e, a=g.c([r, g.near(r)])))
    return chunk(ops, 40)


def gen_C24(g, k):
    ops = []
    hows = ["front", "back", "all", "fb", "ext", "int"]
    for n in list(range(1, 13)) + [16, 20, 33, 40, 64]:
        for ln in sorted(set(list(range(2, min(n, 9) + 1)) + [max(2, n - 1), max(2, n), n + 1, n + 2, 100])):
            for h in hows:
                ops.append(op("runs", n=n, len=ln, how=h))
    ops += [op("runs", n=8, len=x, how=h) for x in HUGE for h in hows]
    for n in range(1, 5):
        for p in itertools.permutations(range(n)):
            ops.append(op("runlen", a=list(p)))
            for ln in range(2, n + 2):
                ops.append(op("runs_match", a=list(p), len=ln))
    for _ in range(350 * k):
        n = g.stage(lo=2)
        a = g.row(n)
        if n <= 20:
            ln = g.c([2, 3, 4, 5, g.i(2, n + 1)])
            if g.p(0.6) and ln <= n:       # plant a run
                s = g.i(0, n - ln)
                run = list(range(s, s + ln))
                if g.p(0.5):
                    run.reverse()
                rest = [b for b in a if b not in run]
                x = g.c([0, len(rest), g.i(0, len(rest))])
                a = rest[:x] + run + rest[x:]
            ops.append(op("runs_match", a=a, len=ln))
        ops.append(op("runlen", a=a))
        m = g.i(0, n)
        b = list(range(m, n)) + list(range(m))[::-1]
        ops.append(op("runlen", a=g.c([a, b, a[::-1]])))
    return chunk(ops)


def gen_C25(g, k):
    ops = []
    els = [-2, -1, 0, 1, 2]
    for n in (1, 2, 3, 4):
        for m in range(0, 4 if k == 1 else 5):
            for e in itertools.product(els, repeat=m):
                ops.append(op("rx_count", e=list(e), n=n))
    for _ in range(900 * k):
        n = g.c([g.i(1, 8), g.i(1, 16), g.i(15, 30), g.stage()])
        e, _ = regex(g, n)
        if g.p(0.4):       # sparse: a few bells and globs
            e = []
            for b in g.r.sample(range(n), min(n, g.i(0, 4))):
                e += [-2] * g.i(0, 1) + [-1] * g.c([0, 0, 1, 2]) + [b]
            e += [-2] * g.i(0, 2)
        ops.append(op("rx_count", e=e, n=g.c([n, n, n, n + 1, max(1, n - 1)])))
    for n in range(15, 30):       # around the limit of usize
        for e in ([-2], [-2, 0, -2], [0, -2], [-1, -2], [-2, 0, -2, 1, -2], [-2, 0, -2, 1, -2, 2, -2], [0, 1, 2, -2], [-1] * n, [-1] * (n - 1) + [0],
                  [-2, 0, 1, -2]):
            ops.append(op("rx_count", e=e, n=n))
    return chunk(ops, 60)


CLASS_KEYS = {1: "place", 2: "bob", 3: "treble bob", 4: "delight", 5: "surprise", 6: "treble place", 7: "alliance", 8: "hybrid", 0: "principle"}


def title_text(name, cls, n):
    """The standard title (used only to make interesting titles and queries)"""
    cn = ["Principle", "Place", "Bob", "Treble Bob", "Delight", "Surprise", "Treble Place", "Alliance", "Hybrid"][cls["c"]]
    named = cls["c"] not in (0, 8)
    parts = [name, "Jump" if cls["j"] else "", "Differential" if cls["d"] else "", "Little" if cls["l"] and named else "",
             cn if named else "", STAGES[n - 1] if n <= 22 else f"{n} bells"]
    return " ".join(p for p in parts if p)


LIBWORDS = ["A", "B", "Cambridge", "Bob", "Ab", "É", "İ", "Straße", "K", "plain", "Plain", "ZZ", "Éé", "x", "aaaa", "aaab", "Yorkshire", "🔔", ""]


def library(g, methods=None, valid=0.85):
    """A description of a library; returns groups with texts as Python strings"""
    groups = []
    for _ in range(g.c([0, 1, 1, 2, 3, 4])):
        n = g.c([g.i(1, 8), g.i(4, 8), g.i(1, 24)])
        cls = {"j": g.p(0.15), "l": g.p(0.3), "d": g.p(0.2), "c": g.i(0, 8)}
        ms = []
        for _ in range(g.c([0, 1, 1, 2, 3, 5]) if methods is None else methods):
            name = g.c([g.c(LIBWORDS), g.c(LIBWORDS) + " " + g.c(LIBWORDS)])
            x = g.i(0, 9)
            if x <= 4:
                t = None
            elif x <= 6:
                t = name + " " + g.c([STAGES[n - 1] if n <= 22 else f"{n} bells", "Major", "Minor"])
            elif x == 7:
                t = title_text(name, cls, n)
            elif x == 8:
                t = g.c([title_text(name, cls, n).upper(), title_text(name, cls, n).lower()])
                t = t.replace("SS", "ß") if g.p(0.5) else t
            else:
                t = g.c(["", name, g.c(STAGES), "twenty-two", "a  " + g.c(STAGES)])
            if g.p(valid):
                p = "".join(map(chr, g.pnb_text(n, 0, maxlen=4)))
            else:
                p = "".join(map(chr, g.pnb_text(n, 0.7, maxlen=3)))
                if g.p(0.2):
                    p = g.c(["", ",", "é", "1+", "99999"])
            ms.append({"t": t, "n": name, "p": p})
        groups.append(dict(cls, s=n, m=ms))
    # a later method with the title of an earlier one
    allm = [(gr, m) for gr in groups for m in gr["m"]]
    if allm and g.p(0.3):
        gr, m = g.c(allm)
        t = m["t"] if m["t"] is not None else title_text(m["n"], gr, gr["s"])
        groups.append(dict({"j": g.p(.3), "l": g.p(.3), "d": False, "c": g.i(0, 8)}, s=gr["s"],
                           m=[{"t": g.c([t, t.upper() if "ß" not in t else t, t.lower()]), "n": "Later", "p": "1" if gr["s"] % 2 else "x"}]))
    return groups


def group_json(g, gr, plain=False):
    o = {"s": gr["s"], "c": gr["c"]}
    for f in "jld":
        if gr[f] or (not plain and g.p(0.2)):
            o[f] = gr[f]
    ms = []
    for m in gr["m"]:
        x = {"n": m["n"], "p": m["p"]}
        if m["t"] is not None:
            x["t"] = m["t"]
        elif not plain and g.p(0.15):
            x["t"] = None
        if not plain and g.p(0.05):
            x["zz"] = g.c([1, None, [], {"n": 4}])
        ms.append(shuffled(g, x))
    o["m"] = ms
    if not plain and g.p(0.05):
        o["extra"] = g.c([1, "x", None, [1, {"a": 2}]])
    return shuffled(g, o)


def shuffled(g, d):
    ks = list(d)
    g.r.shuffle(ks)
    return {k: d[k] for k in ks}


def dumps(g, o):
    return json.dumps(o, ensure_ascii=g.p(0.5), indent=g.c([None, None, 1]))


def load_op(g, groups):
    return op("lload", json=cps(dumps(g, {"groups": [group_json(g, x) for x in groups]})))


def titles_of(groups):
    return [m["t"] if m["t"] is not None else title_text(m["n"], gr, gr["s"]) for gr in groups for m in gr["m"]]


def lower(s):
    """Queries avoid characters whose case conversions depend on tables which the specification lacks"""
    return s.lower()


def upper(s):
    return "".join(c.upper() if len(c.upper()) == 1 and c.upper().lower() == c else c for c in s)


def query(g, ts):
    if not ts or g.p(0.05):
        return g.c(["", "Major", " Major", "Plain Bob Major", "x", "22 bells", "Twenty-two", "É"])
    t = g.c(ts)
    x = g.i(0, 9)
    if x <= 1:
        return t
    if x == 2:
        return upper(t)
    if x == 3:
        return lower(t)
    if x == 4:
        return "".join(g.c([c, upper(c), lower(c)]) for c in t)
    if x == 5:
        w = t.split(" ")
        w[-1] = g.c(STAGES + ["23 bells", "bells", ""])
        return " ".join(w)
    if x == 6:
        return t + g.c([" ", "s", " Major", "\u0307"])
    if x == 7 and t:
        i = g.i(0, len(t) - 1)
        return t[:i] + g.c(["", "a", "é", "K", " "]) + t[i + g.i(0, 1):]
    if x == 8:
        return t.replace(" ", "  ", 1)
    w = list(t)
    g.r.shuffle(w)
    return "".join(w) if g.p(0.3) else t


def gen_C26(g, k):
    hs = []
    for _ in range(260 * k):
        gs = library(g, valid=0.75)
        h = [load_op(g, gs)]
        ts = titles_of(gs)
        h += [op("lget", q=cps(query(g, ts))) for _ in range(12)]
        h += [op("lmap", q=cps(query(g, ts)), k=g.i(0, 9)) for _ in range(3)] + [op("lunw", q=cps(query(g, ts))) for _ in range(3)]
        h += [op("lget", q=cps(t)) for t in ts]
        hs.append(h)
    return hs


def gen_C27(g, k):
    hs = []
    for _ in range(220 * k):
        gs = library(g, valid=0.8)
        h = [load_op(g, gs)]
        ts = titles_of(gs)
        for _ in range(10):
            q = query(g, ts)
            if g.p(0.5):
                q = q[:g.i(0, len(q))] + g.c(["", "a", "q Minor", "é", "zzz"])
            h.append(op("lsug", q=cps(q), k=g.c([0, 1, 1, 2, 3, 5, g.i(0, len(ts) + 2), 50, 1000, g.c(HUGE)])))
        hs.append(h)
    # equal distances and a full sort
    for _ in range(20 * k):
        gs = [{"s": 6, "j": False, "l": False, "d": False, "c": 2,
               "m": [{"t": None, "n": "".join(g.c("ab") for _ in range(g.i(0, 4))), "p": "x"} for _ in range(12)]}]
        h = [load_op(g, gs)]
        for _ in range(6):
            h.append(op("lsug", q=cps("".join(g.c("abc") for _ in range(g.i(0, 4))) + " Bob Minor"), k=g.i(0, 14)))
        hs.append(h)
    return hs


def gen_C28(g, k):
    hs = []
    for _ in range(330 * k):
        gs = library(g, valid=0.7)
        ts = titles_of(gs)
        h = [load_op(g, gs), op("ljson"), op("lreload"), op("ljson")]
        h += [op("lget", q=cps(query(g, ts))) for _ in range(5)]
        h += [op("lget", q=cps(t)) for t in ts]
        h += [op("lsug", q=cps("Q " + g.c(STAGES)), k=100), op("lreload"), op("ljson")]
        hs.append(h)
    for c in range(9):               # every class with every combination of flags
        gs = [{"s": g.i(1, 24), "j": j, "l": l, "d": d, "c": c, "m": [{"t": None, "n": "Nm", "p": "1"}]}
              for j, l, d in itertools.product((False, True), repeat=3)]
        h = [load_op(g, gs), op("ljson"), op("lreload"), op("ljson")] + [op("lget", q=cps(t)) for t in titles_of(gs)]
        hs.append(h)
    for n in range(1, 31):           # every stage
        gs = [{"s": n, "j": False, "l": False, "d": False, "c": g.i(0, 8), "m": [{"t": t, "n": "Nm", "p": "1"} for t in (None, "Odd", f"O {n} bells")]}]
        hs.append([load_op(g, gs), op("ljson"), op("lreload"), op("ljson")] + [op("lget", q=cps(t)) for t in titles_of(gs)])
    return hs


BAD_TEXTS = ["", "{", "[]", "null", "1", "\"\"", "{}", "{\"groups\":null}", "{\"groups\":{}}", "{\"groups\":[1]}", "{\"groups\":[]",
             "{\"groups\":[]}}", "{\"groups\":[]} x", "{'groups':[]}", "{\"groups\":[],}", "{\"group\":[]}", "nul", "\u0000", "{\"groups\":\"\"}",
             "true", "[[]]]", "{\"groups\":[[]]}", "{\"groups\":[null]}", "{\"groups\":[{}]}", "\ufeff{\"groups\":[]}", "{\"groups\":[\"a\"]}"]


def gen_C29(g, k):
    hs = [[op("lload", json=cps(t))] for t in BAD_TEXTS]
    for t in ["{\"groups\":[]}", " {\"groups\" : [ ] }\n", "{\"x\":1,\"groups\":[]}", "{\"groups\":[],\"y\":null}"]:
        hs.append([op("lload", json=cps(t)), op("lget", q=cps("a Major")), op("ljson")])
    ops = []
    for _ in range(900 * k):
        gs = library(g)
        if not gs:
            gs = [{"s": 4, "j": False, "l": False, "d": False, "c": 0, "m": []}]
        o = {"groups": [group_json(g, x) for x in gs]}
        x = g.i(0, 15)
        y = g.i(0, len(gs) - 1)
        tgt, desc = o["groups"][y], gs[y]
        if x == 0:
            tgt["s"] = desc["s"] = g.c([0, 0, 1, 23, 65536, 999999999, 1000000000, 2 ** 63, 2 ** 64 - 1])
        elif x == 1:
            tgt["c"] = g.c([9, 10, 255, 8, 0])
        elif x == 2:
            tgt[g.c("sc")] = g.c([-1, 1.0, -3, "4", None, True, [], {}, 2.5, 1e30, -0.0])
        elif x == 3:
            tgt["c"] = g.c([256, 257, 65536, 2 ** 64])
        elif x == 4:
            tgt["s"] = g.c([2 ** 64, 2 ** 65, -2 ** 63, 10 ** 30])
        elif x == 5:
            tgt[g.c("jld")] = g.c([0, 1, "true", None, [], "false"])
        elif x == 6:
            del tgt[g.c("scm")]
        elif x == 7:
            tgt["m"] = g.c([None, {}, "", 1, [1], [None], [{}], [{"n": "a"}], [{"p": "x"}], [{"n": 1, "p": "x"}], [{"n": "a", "p": None}],
                            [{"n": "a", "p": "x", "t": 1}], [{"n": "a", "p": "x", "t": []}], [{"n": None, "p": "x"}], [[]], ["a"]])
        elif x == 8:
            ren = g.c("scm")
            tgt[g.c([ren.upper(), ren + " ", ren + ren])] = tgt.pop(ren)
        t = dumps(g, o)
        if x == 9:                # break the text
            z = g.i(0, 3)
            t = t.rstrip()
            t = [t[:g.i(0, len(t) - 1)], t + g.c(["}", "]", ",", "x", "1"]), t.replace("}", "]", 1), t[1:]][z]
        elif x == 10:
            t = g.c([" ", "\n\t", ""]) + t + g.c([" ", "\r\n", ""])
        elif x >= 11:
            for _ in range(g.i(1, 3)):
                i = g.i(0, max(0, len(t) - 1))
                t = t[:i] + g.c(["", "", g.c('{}[]:,"\\ 0123456789-+.eEtrufalsnjdcmp\n\x01é🔔'), g.c(["true", "null", '""', "\\n", "\\u0041", "[]", "1,", '"s":2,'])]) + t[i + g.i(0, 1):]
        h = [op("lload", json=cps(t))]
        ts = titles_of([q for q in gs if q["s"] <= 30])
        h += [op("lget", q=cps(query(g, ts))) for _ in range(2)] + [op("ljson")]
        ops.append(h)
    return hs + ops


def gen_C31(g, k):
    ops = []
    nums = list(range(0, 45)) + [63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 100000, 16777216, 2147480001]

    def d_int(x):
        return {"k": "int", "x": x if x <= 2147483000 else 2147483001, "s": []}

    def d_text(s):
        return {"k": "text", "x": 0, "s": s}
    other = {"k": "other", "x": 0, "s": []}
    both = ["bell", "stage"]
    js = ["bell", "stage", "bell_value", "stage_value"]
    for x in nums:
        ops.append(op("sd_ser", x=x, how="bell"))
        if x:
            ops.append(op("sd_ser", x=x, how="stage"))
        for h in js:
            ops.append(op("sd_json", s=cps(str(x)), how=h, d=d_int(x)))
            if x:
                ops.append(op("sd_json", s=cps(str(-x)), how=h, d=other))
            ops.append(op("sd_json", s=cps(f"{x}.5"), how=h, d=other))
            ops.append(op("sd_json", s=cps(f"{x}.0"), how=h, d=other))
        for h in both:
            ops.append(op("sd_bin", bytes=list(x.to_bytes(8, "little")), how=h, d=d_int(x)))
            for w, lim in (("i8", 127), ("i16", 32767), ("i32", 2 ** 31 - 1), ("i64", 2 ** 40), ("u8", 255), ("u16", 65535), ("u32", 2 ** 32 - 1),
                           ("u64", 2 ** 40), ("usize", 2 ** 40)):
                if x <= lim:
                    ops.append(op("sd_val", x=x, w=w, how=h, d=d_int(x)))
                    if w[0] == "i" and x:
                        ops.append(op("sd_val", x=-x, w=w, how=h, d=other))
            ops.append(op("sd_val", x=x, w=g.c(["f32", "f64"]), how=h, d=other))
    for h in both:
        for x in (0, 1):
            ops.append(op("sd_val", x=x, w="bool", how=h, d=other))
        for w, lo in (("i8", -128), ("i16", -32768), ("i32", -2 ** 31 + 1)):
            ops.append(op("sd_val", x=lo, w=w, how=h, d=other))
        for n in range(0, 8):          # truncated
            ops.append(op("sd_bin", bytes=[1] * n, how=h, d=other))
    special = {2 ** 64 - 1: 2147483647, 2 ** 64 - 2: 2147483646, 2 ** 63: 2147483645, 2 ** 63 - 1: 2147483644, 2 ** 62: 2147483642,
               2 ** 61: 2147483641, 2 ** 60 + 1: 2147483640}
    for x, code in special.items():
        for h in both:
            d = {"k": "int", "x": code, "s": []}
            ops.append(op("sd_bin", bytes=list(x.to_bytes(8, "little")), how=h, d=d))
            for hh in (h, h + "_value"):
                ops.append(op("sd_json", s=cps(str(x)), how=hh, d=d))
    for x in [2 ** 64, 10 ** 25, -2 ** 63, -2 ** 63 - 1, 10 ** 400] + [y - 2 ** z for z in (7, 8, 15, 16, 31, 32, 53, 62, 63) for y in (-1, 0, 1)]:
        for h in js:
            ops.append(op("sd_json", s=cps(str(x)), how=h, d=other))
    for t in ["null", "true", "false", "[]", "[1]", "{}", "{\"index\":1}", "[1,2]", "", " ", "1 2", "01", "+1", "1e0", "1e2", "0.0", "-0.0", "NaN",
              "\"", "nul", "1,", "[", "{\"num_bells\":5}", "1.5e1", "-0", "'1'", "0x1"]:
        for h in js:
            ops.append(op("sd_json", s=cps(t), how=h, d=other if t != "-0" else {"k": "other", "x": 0, "s": []}))
    texts = [chr(c) for c in range(0, 128)] + [chr(c) for c in ODD] + STAGES + [s.lower() for s in STAGES] + [s.upper() for s in STAGES] + \
            ["", "12", "1 ", " 1", "11", "<34>", "One ", "majoR", "Zero", "23", "K", "é", "0", "E1", "22 bells", "Stage::MAJOR", "Cınques", "MAJ\u0130R"]
    # names among other characters
    for c in [chr(c) for c in ODD] + list(" \t\n\0\x7f'\"-.,\\"):
        b = g.c(list("1234567890ETABCDFGHJKLMNPQRSUVWYZ"))
        texts += [c + b, b + c, c + b + c, c + g.c(STAGES), g.c(STAGES) + c, g.c(STAGES).replace("i", "i" + c)]
    for t in texts:
        for h in js:
            ops.append(op("sd_json", s=cps(json.dumps(t, ensure_ascii=g.p(0.5))), how=h, d=d_text(cps(t))))
        for h in both:
            ops.append(op("sd_val", s=cps(t), x=0, w=g.c(["str", "string"]), how=h, d=d_text(cps(t))))
            if len(t) == 1:
                ops.append(op("sd_val", x=ord(t), w="char", how=h, d=d_text(cps(t))))
    for _ in range(500 * k):
        x = g.c([g.i(0, 300), g.i(0, 10 ** 6), g.i(0, 2147483000)])
        h = g.c(both)
        ops.append(op("sd_json", s=cps(g.c(["", " "]) + str(x) + g.c(["", "\n"])), how=g.c([h, h + "_value"]), d=d_int(x)))
        ops.append(op("sd_bin", bytes=list(x.to_bytes(8, "little")) + [0] * g.c([0, 0, 1]), how=h, d=d_int(x)))
        t = "".join(g.c([c, c.upper(), c.lower()]) for c in g.c(STAGES))
        ops.append(op("sd_json", s=cps(json.dumps(t)), how=g.c([h, h + "_value"]), d=d_text(cps(t))))
    return chunk(ops, 60)


def gen_C32(g, k):
    ops = []
    for _ in range(450 * k):
        n = g.c([g.i(1, 8), g.i(1, 12), g.stage()])
        pns = [g.pn(n) for _ in range(g.c([1, 1, 2, 3, 4, 8]))]
        if g.p(0.4) and n > 3:       # calls which only affect low bells
            m = g.i(1, n)
            pns = [{"n": n, "pl": p["pl"] + list(range(m, n))} for p in [{"pl": g.places(m)} for _ in pns]]
        how = g.c(["new", "new", "empty", "bob", "single"])
        ops.append(op("call", how=how, cov=g.c([0, 1, 2, 3, g.i(0, 20), 1000]), loc=g.c([cps(g.c(["LE", "HL", "", "é"])), g.anytext(4)]), n=n, pns=pns,
                      a=g.row(n), **{"not": g.c(ODD + [45, 115, 98])}))
    return chunk(ops)


def gen_C33(g, k):
    hs = []
    for _ in range(300 * k):
        n = g.c([g.i(1, 6), g.i(1, 12), g.stage()])
        h = [op("anew", i=0, how="rounds", n=n), op("anew", i=1, how="new", a=g.row(g.c([n, n, g.stage()])))]
        if g.p(0.3):
            h.reverse()
        for _ in range(24):
            x = g.i(0, 9)
            i = g.i(0, 1)
            if x <= 5:
                h.append(op("aacc", i=i, a=g.row(g.c([n, n, n, n, n, other_stage(g, n)])), how=g.c(["acc", "acc", "pre", "pre", "mulr", "mulb"])))
            elif x == 6:
                h.append(op("aacc", i=i, a=g.row(g.c([n, n, g.stage()])), how="set"))
            elif x == 7:
                h.append(op("aclone", i=i, j=1 - i))
            else:
                h.append(op("atot", i=i))
        hs.append(h + [op("atot", i=0), op("atot", i=1)])
    return hs


# ---- the Central Council's library ----

def xml_escape(g, t):
    out = []
    for c in t:
        x = g.i(0, 9)
        if c in "&<":
            out.append(g.c([f"&#{ord(c)};", f"&#x{ord(c):x};", {"&": "&amp;", "<": "&lt;"}[c]]))
        elif c == ">" or (c in "'\"" and x < 4):
            out.append(g.c([{">": "&gt;", "'": "&apos;", '"': "&quot;"}[c], f"&#{ord(c)};"]))
        elif x == 0 and 32 <= ord(c) < 55296:
            out.append(g.c([f"&#{ord(c)};", f"&#x{ord(c):x};", f"&#x{ord(c):X};"]))
        else:
            out.append(c)
    return "".join(out)


XML_NS = "http://www.cccbr.org.uk/methods/schemas/2007/05/methods"
XML_CLASSES = ["", "Place", "Bob", "Treble Bob", "Delight", "Surprise", "Treble Place", "Alliance", "Hybrid"]


def xml_text(g, t):
    if "]]>" not in t and g.p(0.1):
        return f"<![CDATA[{t}]]>"
    if len(t) > 1 and g.p(0.1):
        i = g.i(0, len(t))
        return xml_text(g, t[:i]) + xml_text(g, t[i:])
    return xml_escape(g, t)


def xml_el(g, tag, attrs, kids, ws=False):
    a = "".join(g.c([" ", "  ", "\n "]) + k + g.c(["=", " = "]) + (lambda q, v: q + v.replace(q, "&quot;" if q == '"' else "&apos;") + q)(g.c("'\""), xml_escape(g, v))
                for k, v in attrs)
    if not kids and g.p(0.6):
        return f"<{tag}{a}{g.c(['', ' '])}/>"
    pad = (lambda: g.c(["", "\n", "\n  ", " \t"])) if ws else (lambda: "")
    return f"<{tag}{a}{g.c(['', ' '])}>" + "".join(pad() + k for k in kids) + pad() + f"</{tag}{g.c(['', ' '])}>"


def xml_junk(g):
    """An element which the importer has no use for"""
    return xml_el(g, g.c(["notes", "ref", "lengthOfLead", "falseness", "titles", "Stage", "x-y.z_1"]), g.c([[], [("id", "a'b\"c"), ("title", "x")]]),
                  g.c([[], ["8"], [xml_text(g, "t & <x>")], ["<stage>9</stage>"], ["<title>no</title>", "<name/>"]]))


def collection(g, groups, break_it=False):
    def mixed(els):
        els = list(els)
        for _ in range(g.c([0, 0, 0, 1, 2])):
            els.append(xml_junk(g))
        if g.p(0.3):
            g.r.shuffle(els)
        return els
    sets = []
    for gr in groups:
        flags = [(n, g.c(["true", "false"]) if break_it and g.p(0.05) else "true") for n, f in (("little", "l"), ("differential", "d")) if gr[f]]
        flags += [(n, "false") for n, f in (("little", "l"), ("differential", "d")) if not gr[f] and g.p(0.3)]
        if g.p(0.3):
            flags.append(("id", "q"))
        if g.p(0.5):
            g.r.shuffle(flags)
        cls = XML_CLASSES[gr["c"]]
        props = xml_el(g, "properties", [], mixed([xml_el(g, "stage", [], [str(gr["s"])]),
                                                  xml_el(g, "classification", flags, [xml_text(g, cls)] if cls else [])]), True)
        ms = [xml_el(g, "method", g.c([[], [("id", "m1")]]),
                     mixed([xml_el(g, t, [], [xml_text(g, v)] if v else []) for t, v in (("title", m["t"]), ("name", m["n"]), ("notation", m["p"]))]), True)
              for m in gr["m"]]
        sets.append(xml_el(g, "methodSet", g.c([[], [("id", "s")]]), mixed([props] + ms), True))
    attrs = [("xmlns", XML_NS), ("date", g.c(["2021-03-04", "", "&"]))] + g.c([[], [("uuid", "x"), ("xmlns:a", "urn:b")]])
    if g.p(0.3):
        g.r.shuffle(attrs)
    return g.c(["", '<?xml version="1.0"?>', "<?xml version='1.0' encoding='UTF-8'?>\n", "\n"]) + xml_el(g, "collection", attrs, mixed(sets), True) + g.c(["", "\n"])


def gen_C34(g, k):
    hs = []
    for i in range(220 * k):
        groups = []
        for gr in library(g):
            for m in gr["m"]:
                if m["t"] is None:
                    m["t"] = title_text(m["n"], gr, gr["s"])
                if g.p(0.1):
                    m["n"] = g.c(["A & B", "<", '"', "]]>", "a\nb", " x ", ";&amp;", "\t"])
                    m["t"] = m["n"] + " Minor"
            groups.append(gr)
        if i % 8:           # mostly without methods which share a title
            seen = set()
            for gr in groups:
                gr["m"] = [m for m in gr["m"] if (gr["s"], m["t"].lower()) not in seen and not seen.add((gr["s"], m["t"].lower()))]
        x = collection(g, groups, True)
        if g.p(0.15):
            j = g.i(0, len(x) - 1)
            x = x[:j] + g.c(["", " ", "\n", "x", "&amp;", "\"", "0", "/"]) + x[j + g.i(0, 1):]
        ts = [m["t"] for gr in groups for m in gr["m"]]
        hs.append([op("xload", xml=cps(x)), op("ljson")] + [op("lget", q=cps(query(g, ts))) for _ in range(3)]
                  + [op("lget", q=cps(t)) for t in ts[:8]] + [op("lsug", q=cps(query(g, ts)), k=g.i(0, 3)), op("lreload"), op("ljson")])
    return hs


def gen_C30(g, k):
    hs = []

    def some_text():
        t = dumps(g, {"groups": [group_json(g, x) for x in library(g)[:2]]})
        x = g.i(0, 9)
        if x == 0:
            t = t[:g.i(0, len(t) - 1)]
        elif x == 1:
            i = g.i(0, len(t) - 1)
            t = t[:i] + g.c(["", "}", "]", ",", "\"", "0", " "]) + t[i + g.i(0, 1):]
        elif x == 2:
            t = g.c(["", " ", "{}", "null", "[]", "{\"groups\":null}", "404: Not Found", "<html>", "{\"groups\":[]}", "\x00"])
        elif x == 3:
            t = g.c([" ", "\n"]) + t + g.c([" ", "\r\n", "x", "\x00"])
        return cps(t)

    def cache():
        x = g.i(0, 11)
        if x <= 1:
            return op("cset", k=g.c(["none", "nodir", "dir", "dangling", "rodir"]), m=0, d=[])
        d = some_text()
        if x == 2:
            b = bytearray("".join(map(chr, d)).encode())
            b.insert(g.i(0, len(b)), g.c([0x80, 0xff, 0xc3]))
            try:
                b.decode()
            except UnicodeDecodeError:
                d = [y - 256 for y in b]
        return op("cset", k=g.c(["file", "file", "file", "link"]), m=g.c([420, 420, 420, 256, 128, 0]), d=d)

    def server():
        d = some_text()
        return op("csrv", m=g.c(["plain", "plain", "plain", "chunked", "chunked", "close", "down", "drop", "proxy", "notls", "badtls", "silent", "garbage",
                                 "short", "cut"]), status=g.c([200] * 9 + [404, 500]), d=d, part=g.i(0, len(d)))
    for _ in range(110 * k):
        h = [cache(), server()]
        for _ in range(g.i(2, 7)):
            x = g.i(0, 9)
            h.append(op("cload", n=g.c([1, 1, 1, 2, 4])) if x < 6 else cache() if x < 8 else server())
        h += [op("cload", n=1), op("ljson")]
        hs.append(h)
    return hs


ERRORS = ("row_dup row_miss row_out row_none stage_inc stage_zero mul_rhs mul_into pn_dup pn_out pn_amb pn_cross pn_none pnb_plus pnb_dup "
          "pnb_out pnb_amb pnb_cross pnb_none pnb_empty pnv_inc pnv_empty vec_dup vec_out vec_miss vec_none vec_st vec_zero blk_dup "
          "blk_out blk_miss blk_none blk_st blk_zero blk_empty").split()
MISMATCHES = ("mul mul_into mul_into_row mul_into_row_out inv_into ax xa ttu cart group isgroup push ext extbuf exttr extw vpre vpremd "
              "bpre bext bextr rep acc pacc pn pnn rows block pns").split()


def gen_C35(g, k):
    ops, hs = [], []
    for _ in range(60 * k):
        for how in ERRORS:
            n, m = g.stage(), g.stage()
            while m == n:
                m = g.stage()
            x, y = g.c([g.i(0, 12), g.i(0, 40), 1000]), g.c([g.i(0, 12), g.i(0, 40), 1000])
            if "amb" in how:
                x, y = min(x, y), max(x, y) + 1
            ops.append(op("emsg", how=how, x=x, y=y, n=n, m=m, at=g.c([0, 1, g.i(2, 200)])))
    for _ in range(20 * k):
        for how in MISMATCHES:
            n = g.stage()
            a, b = g.row(n), g.row(other_stage(g, n))
            # where the stages agree there may be a result, and the groups of some rows are huge
            if how in ("cart", "group", "isgroup") and len(a) == len(b):
                a = a + [len(a)]
            ops.append(op("smis", how=how, a=a, b=b))
    for _ in range(100 * k):
        n = g.stage()
        ops += [op("dbg", how="bell", x=g.c([g.i(0, 40), 1000])), op("dbg", how=g.c(["row", "rowbuf"]), a=g.row(n)),
                op("dbg", how="pn", pn=g.pn(n)), op("dbg", how="mask", m=mask(g, n, g.p(0.7))), op("dbg", how="regex", e=regex(g, n)[0])]
    for _ in range(60 * k):
        h = []
        for _ in range(4):
            n = g.stage(big=False)
            rows = [g.row(n) for _ in range(g.c([0, 1, 2, 3, 6]))]
            h += [op("vnew", i=0, how="lit", n=n, rows=rows), op("dbg", how="vec", i=0)]
            rows = [g.row(n) for _ in range(g.i(1, 5))]
            h += [op("bnew", i=0, how="idx", n=n, rows=rows, an=[g.i(0, 200) for _ in rows[1:]]), op("dbg", how="blk", i=0)]
            if g.p(0.5):
                h += [op("bpre", i=0, a=g.row(n), how="pre"), op("bextw", i=0, rg=["full", 0, 0]), op("dbg", how="blk", i=0),
                      op("vpush", i=0, a=g.row(n)), op("dbg", how="vec", i=0)]
        hs.append(h)
    return chunk(ops, 40) + hs

WAYS = {"hunt": 0, "class": 0, "main": 0, "elem": 0, "mis": 0, "bell": 2, "stage": 2, "parity": 2, "pn": 2}


def gen_C36(g, k):
    """Values, and others which differ from them in one respect"""
    ops = []

    def put(how, a, b):
        w = WAYS.get(how, 5)
        ops.append(op("same", how=how, a=a, b=a, wa=g.i(0, w), wb=g.i(0, w)))
        ops.append(op("same", how=how, a=a, b=b, wa=g.i(0, w), wb=g.i(0, w)))
        ops.append(op("same", how=how, a=b, b=a, wa=g.i(0, w), wb=g.i(0, w)))

    def altered(n, pns):
        pns = list(pns)
        x = g.i(0, len(pns) - 1)
        z = g.i(0, 3)
        if z == 0:
            pns[x] = g.pn(n)
        elif z == 1 and len(pns) > 1:
            del pns[x]
        elif z == 2:
            pns.insert(x, pns[x])
        else:
            pns.append(g.pn(n))
        return pns

    for _ in range(60 * k):
        n = g.stage()
        a = g.row(n)
        put("row", a, g.c([g.near(a), a + [n], g.row(n), g.row(g.stage())]))
        x = g.c([g.i(0, 40), g.i(0, 300), 1000, 65535])
        put("bell", x, g.c([x + 1, x + 32, x + 256, x + 65536, g.i(0, 300)]))
        x = 1 + g.c([g.i(0, 40), g.i(0, 300)])
        put("stage", x, g.c([x + 1, x + 16, x + 256, g.i(1, 300)]))
        x, y = g.i(0, 4), g.i(0, 4)
        put("hunt", x, y)
        c = {"j": g.p(0.5), "l": g.p(0.5), "d": g.p(0.5), "c": g.i(0, 8)}
        d = dict(c)
        z = g.c("jldc")
        d[z] = g.i(0, 8) if z == "c" else not d[z]
        put("class", c, d)
        put("main", g.i(0, 8), g.i(0, 8))
        put("parity", g.i(0, 1), g.i(0, 1))
        put("elem", g.i(-2, 6), g.c([-2, -1, g.i(0, 40), 256]))
        x = [g.i(1, 20), 21 + g.i(0, 300)]
        put("mis", x, g.c([[x[1], x[0]], [x[0], x[1] + 1], [x[0] + 256, x[1]], [g.i(1, 20), x[1]]]))
        p = g.pn(n)
        q = g.c([g.pn(n), {"n": n + 1, "pl": p["pl"] + [n]}, {"n": n + 2, "pl": p["pl"] + ([] if not p["pl"] and n % 2 == 0 else [n, n + 1])}])
        put("pn", p, q)
        n2 = g.stage(big=False)
        pns = [g.pn(n2) for _ in range(g.c([1, 1, 2, 3, 5, g.i(1, 40)]))]
        put("pnb", pns, altered(n2, pns))
        m = mask(g, n)
        q = list(m)
        y = g.i(0, n - 1)
        q[y] = -1 if q[y] >= 0 else g.c([b for b in range(n) if b not in m])
        put("mask", m, g.c([q, q, mask(g, n), m + [-1]]))
        if len(m) > 1:
            y = g.i(0, len(m) - 2)
            put("mask", m, m[:y] + [m[y + 1], m[y]] + m[y + 2:])
        e = regex(g, g.stage(big=False))
        e = e[0]
        q = list(e)
        z = g.i(0, 5)
        y = g.i(0, len(e))
        if z == 0:
            q.insert(y, -1)
        elif z == 1:
            q.insert(y, -2)
        elif z == 2 and e:
            del q[min(y, len(q) - 1)]
        elif z == 3 and e:
            q[min(y, len(q) - 1)] = g.c([-1, -2, g.i(0, 12)])
        elif z == 4:
            at = [i for i in range(len(q) - 1) if q[i] < 0 and q[i + 1] < 0]
            if at:
                y = g.c(at)
                q[y], q[y + 1] = q[y + 1], q[y]
        else:
            q[y:y] = g.c([[-2, -2], [-2, -1, -2], [-1, -2], [-2, -1]])
        put("regex", e, q)
        rows = [g.row(n2) for _ in range(g.c([0, 1, 2, 3, 8, g.i(0, 70)]))]
        more = list(rows)
        z = g.i(0, 4)
        if z == 0 or not rows:
            more.append(g.row(n2))
        elif z == 1:
            more.pop(g.i(0, len(more) - 1))
        elif z == 2:
            more[g.i(0, len(more) - 1)] = g.row(n2)
        elif z == 3:
            more.append(more[-1])
        else:
            y = g.i(0, len(more) - 1)
            more[y] = g.near(more[y])
        put("vec", {"n": n2, "rows": rows}, {"n": n2, "rows": more})
        m2 = other_stage(g, n2)
        put("vec", {"n": n2, "rows": rows}, {"n": m2, "rows": [g.row(m2) for _ in range(g.c([0, len(rows)]))]})
        rows = rows or [g.row(n2)]
        an = [g.i(0, 3) for _ in rows[1:]]
        b = {"n": n2, "rows": rows, "an": an}
        z = g.i(0, 4)
        c = dict(b)
        if z == 0 and an:
            y = g.i(0, len(an) - 1)
            c["an"] = an[:y] + [an[y] + g.c([1, 256, 65536])] + an[y + 1:]
        elif z == 1:
            c["rows"] = rows[:-1] + [g.near(rows[-1])]
        elif z == 2 and an:
            c["rows"], c["an"] = rows[:-1], an[:-1]
        elif z == 3:
            y = g.i(0, len(rows) - 1)
            c["rows"] = rows[:y] + [g.near(rows[y])] + rows[y + 1:]
        else:
            c["rows"], c["an"] = rows + [rows[-1]], an + [g.i(0, 1)]
        put("blk", b, c)
        put("arow", {"r": a, "a": x[0]}, g.c([{"r": g.near(a), "a": x[0]}, {"r": a, "a": x[0] + g.c([1, 256])}]))
    return chunk(ops, 40)



# =================================================================================================
# The same properties where something is long: many rows, bells, changes, parts, methods

SIZES = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]


def sizes(g, top):
    """A length at which something may wrap, or any"""
    return lambda: g.c([g.c([x for x in SIZES if x <= top]), g.i(8, top), g.i(1, 12)])


def wide_C01(g, k):
    ops = []
    for _ in range(60 * k):
        n = g.c(SIZES + [g.i(20, 300), 511, 512, 513])
        v = g.row(n)
        x = g.i(0, 5)
        y = g.i(0, n - 1)
        if x == 0:          # twice the same bell, a word's width apart or as it may be
            v[y] = v[g.c([z for z in (y - 64, y + 64, y - 32, y + 32, y - 128, y - 256, g.i(0, n - 1)) if 0 <= z < n])]
        elif x == 1:
            v[y] = n + g.c([0, 1, 31, 32, 63, 64, 127, 128, 255, 256, 65536 - n])
        elif x == 2:
            v[y] = v[y] + g.c([32, 64, 128, 256, 65536])
        elif x == 3:
            v = [b for b in v if b not in (g.i(0, n - 1), g.c([31, 32, 63, 64, 127, 128, 255, 256]))]
        elif x == 4:
            v.append(g.c([v[y], n, n + 1, v[-1]]))
        ops.append(op(g.c(["row_vec", "row_iter"]), v=v))
        ops.append(op("row_vec_st", v=v, n=g.c([n, len(v), n + 64, n + 1])))
    for n in (30, 31, 32, 33):          # names run out
        for _ in range(6 * k):
            v = g.row(n)
            if g.p(0.5):
                v[g.i(0, n - 1)] = g.i(0, 32)
            ops.append(op(g.c(["row_parse", "row_fromstr"]), s=g.name_text(v)))
            ops.append(op("row_parse_st", s=g.name_text(v), n=g.c([n, 33, 34, 64])))
    return chunk(ops)


def wide_C02(g, k):
    ops = []
    for _ in range(70 * k):
        n = g.c([g.i(2, 9), g.i(8, 20), g.i(16, 40)])
        a = g.row(n)
        o = order(a)
        e = g.c([2 ** g.i(1, 14) + g.i(-1, 1), o, o - 1, o + 1, 2 * o, o // 2, o * g.i(1, 20) + g.i(-1, 1)])
        ops.append(op("pow", a=a, e=e, how="u"))
        ops.append(op("pow", a=a, e=g.c([e, -e]), how="i"))
    for _ in range(40 * k):                  # rows of large orders
        lens = g.c([[5, 7, 9], [3, 5, 7, 8], [16, 17], [5, 7, 11], [9, 11, 4], [3, 7, 11, 13], [255], [256], [257], [16, 9, 5, 7], [31, 33]])
        a = cycles(g, sum(lens) + g.c([0, 0, 1, 5]), lens)
        o = math.lcm(*lens)
        for e in (g.i(257, 30000), g.c([o, o + 1, o - 1, o + o // 2, o % 256, 256, 255, 512, 1024, 65536 % o])):
            e = min(e, 30000)
            ops.append(op("pow", a=a, e=e, how="u"))
            ops.append(op("pow", a=a, e=g.c([e, -e]), how="i"))
    for e in (32767, 32768, 65535, 65536, 65537, g.i(65538, 140000), g.i(140000, 300000)):
        for n in (g.i(3, 5), g.i(5, 13)):    # beyond 16 bits
            a = g.row(n)
            while order(a) < 3:
                a = g.row(n)
            ops += [op("pow", a=a, e=e, how="u"), op("pow", a=a, e=e, how="i"), op("pow", a=a, e=-e, how="i")]
    return chunk(ops)


def wide_C03(g, k):
    ops = []
    for _ in range(80 * k):
        n = g.i(2, 9)
        m = g.i(2, 12)
        # rows whose total length fits although their stages don't
        d = g.i(1, n - 1)
        rows = [g.row(n) for _ in range(m)]
        x, y = g.i(0, m - 1), g.i(0, m - 1)
        rows[x] = g.row(n - d)
        if x != y:
            rows[y] = g.row(n + d)
        ops.append(op(g.c(["lgroup", "isgroup"]), rows=rows))
        cut = g.i(0, m)
        ops.append(op("cart", sets=[s for s in (rows[:cut], rows[cut:]) if s]))
        pns = [g.pn(n) for _ in range(g.c([20, 33, 64, 65]))]
        pns[g.c([-1, -2, 0, 1, g.i(0, len(pns) - 1)])] = g.pn(g.c([n - 1, n + 1]))
        ops.append(op("pnb_vec", pns=pns, how=g.c(["vec", "iter"])))
    hs = chunk(ops)
    for _ in range(50 * k):
        n = g.i(2, 8)
        m = g.c([n - 1, n + 1, 2 * n, max(1, n // 2)])
        many = g.c([3, 7, 16, 17, 33])
        h = [op("vnew", i=0, how="lit", n=n, rows=[g.row(n) for _ in range(many)]),
             op("vnew", i=1, how="lit", n=m, rows=[g.row(m) for _ in range(g.c([many, n, 2 * n, 16]))]),
             op("bnew", i=0, how="def", n=n, rows=[g.row(n) for _ in range(many + 1)]),
             op("bnew", i=1, how="def", n=m, rows=[g.row(m) for _ in range(g.c([many, n, 2 * n, 16]) + 1)]),
             op("vext", i=0, j=1, how=g.c(["vec", "buf"])), op("vobs", i=0), op("bext", i=0, j=1, how="all"), op("bobs", i=0),
             op("vexttr", i=0, j=1, a=g.row(n), how="all"), op("vobs", i=0), op("vexttr", i=0, j=0, a=g.row(n), how="all")]
        h.pop()
        for _ in range(3):
            rows = [g.row(n) for _ in range(g.c([2, 5, 16]))]
            x, y = g.i(0, len(rows) - 1), g.i(0, len(rows) - 1)
            d = g.i(1, n - 1)
            rows[x] = g.row(n - d)
            if x != y:
                rows[y] = g.row(n + d)
            h += [op("vext", i=0, how="rows", rows=rows), op("vobs", i=0)]
        h += [op("vpre", i=0, a=g.row(m), how=g.c(["pre", "permute"])), op("vobs", i=0),
              op("bpre", i=0, a=g.row(m), how=g.c(["pre", "permute"])), op("bobs", i=0)]
        hs.append(h)
    return hs


def span(gens, n, top):
    """The group which some rows span"""
    out, todo = {tuple(range(n))}, [tuple(range(n))]
    while todo and len(out) <= top:
        x = todo.pop()
        for a in gens:
            y = tuple(x[b] for b in a)
            if y not in out:
                out.add(y)
                todo.append(y)
    return [list(x) for x in sorted(out)] if len(out) <= top else None


def cycles(g, n, lens):
    """A row with cycles of these lengths on bells of any order"""
    bells, v = g.perm(n), list(range(n))
    for m in lens:
        c, bells = bells[:m], bells[m:]
        for a, b in zip(c, c[1:] + c[:1]):
            v[a] = b
    return v


def wide_C04(g, k):
    ops = []
    for p in itertools.permutations(range(5)):
        ops.append(op("closure", a=list(p), how=g.c(["self", "rounds"])))
    for n in (6, 7, 8):
        for _ in range(30 * k):
            ops.append(op("closure", a=g.perm(n), how=g.c(["self", "rounds"])))
    for lens in [[7], [11], [13], [16], [17], [31], [32], [33], [64], [65], [4, 3, 5], [2, 3, 5], [3, 4, 7], [2, 4, 8], [5, 7, 4], [9, 7, 2], [8, 9],
                 [3, 4, 5, 7], [16, 5], [5, 5, 5], [2] * 6, [3] * 4, [127], [128], [129]]:
        for h in ("self", "rounds"):
            ops.append(op("closure", a=cycles(g, sum(lens) + g.i(0, 3), lens), how=h))
    for _ in range(25 * k):
        n = g.i(2, 4)
        rows = [g.row(n) for _ in range(g.i(4, 9))]
        ops += [op("lgroup", rows=rows), op("isgroup", rows=rows)]
    done = 0
    while done < 45 * k:              # groups of 8 to 64 rows of any stage up to 14, and what is nearly one
        n = g.i(4, 14)
        x = g.i(0, 3)
        if x == 0:                    # disjoint swaps
            pairs = g.perm(n)
            gens = []
            for y in range(0, min(n - 1, 2 * g.i(2, 6)), 2):
                v = list(range(n))
                v[pairs[y]], v[pairs[y + 1]] = pairs[y + 1], pairs[y]
                gens.append(v)
        elif x == 1:                  # dihedral
            v = cycles(g, n, [n])
            ring = [0]
            while v[ring[-1]]:
                ring.append(v[ring[-1]])
            w = list(range(n))
            for y in range(n):
                w[ring[y]] = ring[-y % n]
            gens = [v, w]
        elif x == 2:
            gens = [g.row(n) for _ in range(g.i(1, 3))]
        else:                         # all rows of a few bells, wherever they are
            v = cycles(g, n, [4])
            moved = [y for y in range(n) if v[y] != y]
            w = list(range(n))
            w[moved[0]], w[moved[1]] = moved[1], moved[0]
            gens = [v, w]
        grp = span(gens, n, 64)
        if grp is None:
            continue
        done += 1
        ops.append(op("lgroup", rows=gens))
        if g.p(0.3) and len(grp) <= 24:
            ops.append(op("lgroup", rows=g.r.sample(grp, min(len(grp), 8))))
        near = [list(r) for r in grp]
        g.r.shuffle(near)
        y = g.i(0, 5)
        z = g.i(0, len(near) - 1)
        if y == 1:
            del near[z]
        elif y == 2:
            near[z] = g.near(near[z])
        elif y == 3:
            near.append(near[z])
        elif y == 4:
            near = near[:max(1, len(near) // 2)]
        elif y == 5:                  # a coset
            r = g.row(n)
            near = [[r[b] for b in q] for q in near]
        ops.append(op("isgroup", rows=near))
    for _ in range(10 * k):
        n = g.i(2, 6)
        ops.append(op("cart", sets=[[g.row(n) for _ in range(g.c([1, 2, 3, 9, 17]))] for _ in range(2)]))
        ops.append(op("cart", sets=[[g.row(n) for _ in range(g.c([1, 1, 1, 2, 2, 3]))] for _ in range(g.i(5, 7))]))
    for y in range(10 * k):           # much larger groups
        n = g.c([5, 5, 6, 6, 7, g.i(5, 7)])
        gens = [g.perm(n) for _ in range(g.i(2, 3))]
        z = g.i(0, 3)
        m = n + g.c([0, 0, 2, 5])
        gens = [x + (list(range(n, m)) if g.p(0.5) else [n + v for v in g.perm(m - n)]) if m > n else x for x in gens] if z else gens
        ops.append(op("lgroup", rows=gens))
        grp = span(gens, len(gens[0]), 240 if y % 10 else 750)
        if grp:
            g.r.shuffle(grp)
            ops.append(op("isgroup", rows=grp))
            x = g.i(0, 2)
            if x == 0:
                grp.pop()
            elif x == 1:
                grp[-1] = g.perm(len(grp[0]))
            else:
                grp.append(grp[0])
            ops.append(op("isgroup", rows=grp))
    for _ in range(24 * k):           # sets which have much of what makes a group
        n = g.i(3, 9)
        x = g.i(0, 3)
        few = [span([g.c([g.row(n), g.perm(n)])], n, 40) or [list(range(n))] for _ in range(g.i(2, 9))]
        if x == 0:                    # the powers of some rows
            rows = sum(few, [])
        elif x == 1:                  # a few groups
            rows = sum([span([g.row(n), g.row(n)], n, 120) or few[0] for _ in range(2)], []) + g.c([[], few[0]])
        elif x == 2:                  # the products of the rows of two groups
            rows = [[a[b] for b in c] for a in few[0] for c in few[1]][:300]
        else:                         # a group and a coset
            h = span([g.row(n), few[0][-1]], n, 120) or few[0]
            r = g.perm(n)
            rows = h + [[v[b] for b in r] for v in h]
        rows = [list(r) for r in sorted({tuple(r) for r in rows})]
        g.r.shuffle(rows)
        ops.append(op("isgroup", rows=rows))
    return chunk(ops, 12)


def wide_C06(g, k):
    ops = []
    for n in SIZES:
        for _ in range(2 * k):
            a = g.row(n)
            b = list(a)
            x = g.c([n - 2, 0, g.i(0, n - 2), min(n - 2, 62)])
            b[x], b[x + 1] = b[x + 1], b[x]
            ops.append(op("rowcmp", a=a, b=b))
            ops.append(op("rowcmp", a=list(range(n)), b=list(range(n + g.c([1, 16, 64, -1])))))
            ops.append(op("fhash", a=b))
    return chunk(ops)


def wide_C08(g, k):
    hs = []
    for _ in range(45 * k):
        n = g.c([g.i(1, 8), g.i(4, 12)])
        hs.append(vec_history(g, 12, n=n, many=sizes(g, 65))[0])
    for _ in range(6 * k):
        hs.append(vec_history(g, 8, n=g.i(1, 6), many=sizes(g, 257))[0])
    for _ in range(25 * k):           # many bells
        hs.append(vec_history(g, 10, n=g.c([16, 17, g.i(9, 24), g.i(20, 40), 32, 33, 64, 65]), many=lambda: g.c([g.i(1, 6), 8, 16, 17]))[0])
    for _ in range(45 * k):           # long ranges, to the row
        n = g.c([g.i(2, 8), 12, 16, g.i(9, 24), 33])
        m = sizes(g, 129 if g.p(0.2) else 65)()
        h = [op("vnew", i=0, how="lit", n=n, rows=[g.row(n) for _ in range(m)]),
             op("vnew", i=1, how="lit", n=n, rows=[g.row(n) for _ in range(g.i(0, 3))])]
        q = g.c([g.rg(m), ["full", 0, 0], ["r", 0, m], ["r", m // 2, m], ["ri", 0, m - 1], ["xf", 0, 0]])
        h += [op("vextw", i=0, rg=q, a=g.row(n)), op("vobs", i=0), op("vexttr", i=1, j=0, a=g.row(n), how="range", rg=g.rg(m + rlen(q, m))),
              op("vobs", i=1), op("vpre", i=0, a=g.row(n), how=g.c(["pre", "permute"])), op("vobs", i=0),
              op("vsplit", i=0, j=1, x=cut(g, m + rlen(q, m))), op("vobs", i=0), op("vobs", i=1), op("vpremd", i=1, j=0, a=g.row(n)), op("vobs", i=1),
              op("veq", i=0, j=1)]
        hs.append(h)
    for _ in range(8 * k):            # much longer buffers, cut, looked up and taken from at their ends
        n = g.c([4, 8, g.i(2, 12), 16])
        m = g.c([126, 128, 129, 200, 255, 256, 257, 300])
        x = cut(g, m)
        hs.append([op("vnew", i=0, how="lit", n=n, rows=[g.row(n) for _ in range(m)]), op("vsplit", i=0, j=1, x=x), op("vobs", i=1),
                   op("vpop", i=0), op("vpop", i=1), op("vext", i=1, j=0, how=g.c(["vec", "buf"])), op("vobs", i=1), op("vpop", i=1)])
    return hs


def cut(g, m):
    """A place to cut a list of m items at"""
    return g.c([g.i(0, m), g.i(0, m), m, max(0, m - 1), m + 1, m // 2, 0, 1])


def wide_C09(g, k):
    hs = []
    for _ in range(40 * k):
        n = g.c([1, g.i(2, 6), g.i(5, 17)])
        m = g.c([31, 32, 33, 64, 65, 70, g.i(20, 80)])
        h = [op("vnew", i=0, how="lit", n=n, rows=[g.row(n) for _ in range(m)]),
             op("bnew", i=0, how="idx", n=n, rows=[g.row(n) for _ in range(m + 1)], an=[g.i(-9, 9) for _ in range(m)])]
        for _ in range(4):
            left, script = m, []
            for _ in range(g.i(2, 12)):
                x = g.i(0, 5)
                if x <= 1:
                    script += [g.i(0, 1)] * g.c([1, 1, 2, 7])
                elif x <= 3:
                    y = g.c([g.i(0, 40), g.i(0, 89), left, max(0, left - 1), left + 1, g.i(0, max(0, left))])
                    y = min(y, 89)
                    script.append(g.c([10, 100]) + y)
                    left = max(0, left - y - 1)
                else:
                    script.append(g.c([2, 3, 3]))
            h.append(op("iter", i=0, how=g.c(["vec", "vinto", "rows", "all_rows"]), script=script + [3, 2, 0, 1, 0, 3]))
        h.append(op("aiter", i=0))
        hs.append(h)
    return hs


def wide_C10(g, k):
    ops = []
    for _ in range(24 * k):
        n = g.i(1, 5)
        m = g.c([60, 99, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300])
        lines = [g.name_text(g.row(n)) for _ in range(m)]
        if g.p(0.8):
            y = g.c([m - 1, m - 2, g.i(0, m - 1)])
            lines[y] = g.c([[], g.name_text(g.row(n + 1)), [49] * n + [50], [ord(NAMES[n])] + lines[y][1:], lines[y][:-1]])
        out = []
        for y, line in enumerate(lines):
            out += ([10] if y else []) + line
        ops.append(op("mparse", s=out + ([10] if g.p(0.5) else []), how=g.c(["vec", "blk"])))
    return chunk(ops, 4)


def wide_C11(g, k):
    hs = []
    for _ in range(45 * k):
        hs.append(blk_history(g, 14, n=g.i(1, 10), many=sizes(g, 65))[0])
    for _ in range(6 * k):
        hs.append(blk_history(g, 8, n=g.i(1, 6), many=sizes(g, 257))[0])
    for _ in range(25 * k):           # many bells
        hs.append(blk_history(g, 10, n=g.c([16, 17, g.i(9, 24), g.i(20, 40), 32, 33, 64, 65]), many=lambda: g.c([g.i(1, 6), 8, 16, 17]))[0])
    for _ in range(40 * k):
        n = g.c([g.i(2, 8), 12, g.i(9, 24), 33])
        m, w = sizes(g, 65)(), sizes(g, 65)()
        h = [op("bnew", i=j, how="idx", n=n, rows=[g.row(n) for _ in range(x + 1)], an=[g.i(-50, 50) for _ in range(x)]) for j, x in enumerate((m, w))]
        q = g.rg(m)
        z = m + rlen(q, m)
        h += [op("bextw", i=0, rg=q), op("bobs", i=0), op("bext", i=1, j=0, how="range", rg=g.rg(z)), op("bobs", i=1), op("bext", i=0, j=1, how="all"),
              op("bsplit", i=0, j=1, x=cut(g, z)), op("bobs", i=0), op("bobs", i=1), op("bpre", i=1, a=g.row(n), how="pre"), op("bobs", i=1),
              op("bmap", i=1, v=3, how=g.c(["map", "mapi", "clone"])), op("bobs", i=1), op("beq", i=0, j=1)]
        hs.append(h)
    return hs


def wide_C12(g, k):
    hs = []
    for _ in range(40 * k):
        n = g.c([g.i(2, 8), g.i(6, 14)])
        m = sizes(g, 65)()
        rows = [g.row(n) for _ in range(m + 1)]
        if g.p(0.5):
            rows[0] = list(range(n))
        h = [op("bnew", i=0, how="idx", n=n, rows=rows, an=[g.i(0, 99) for _ in range(m)]), op("rnew", i=0, j=0, a=g.row(n))]
        for _ in range(8):
            h.append(op("rskip", i=0, x=g.c([m - 1, m, m + 1, 2 * m, max(0, m - 2), g.i(0, 2000), g.i(0, m), 63, 64, 256, 255])))
            h += [op("rnext", i=0), op("rinto", i=0, k=0), op("rnext", i=0)][:g.i(1, 3)]
        hs.append(h)
    for _ in range(20 * k):           # many bells
        n = g.c([16, 17, g.i(9, 24), 32, 33, g.i(20, 65)])
        m = g.c([1, 2, 3, 8, 16])
        rows = [g.row(n) for _ in range(m + 1)]
        h = [op("bnew", i=0, how="idx", n=n, rows=rows, an=[g.i(0, 99) for _ in range(m)]), op("rnew", i=0, j=0, a=g.row(n))]
        for _ in range(5):
            h.append(op("rskip", i=0, x=g.c([m - 1, m, m + 1, g.i(0, 200), g.i(0, m), 1])))
            h += [op("rnext", i=0), op("rinto", i=0, k=0), op("rnext", i=0)][:g.i(1, 3)]
        hs.append(h)
    return hs


def long_pnb(g, n, parts, length, faulty=0.0):
    return g.pnb_text(n, faulty, parts=parts, maxlen=length)


def wide_C13(g, k):
    ops = []
    for _ in range(60 * k):
        n = g.c(SIZES + [g.i(20, 40)])
        pl = g.places(n)
        if g.p(0.3):          # one long run of swaps, or of places
            x, y = sorted((g.i(0, n - 1), g.i(0, n - 1)))
            pl = [p for p in pl if p < x or p > y] if g.p(0.5) else sorted(set(pl) | set(range(x, y + 1)))
        ops.append(op("pn_slice", v=pl, n=n))
        n = g.i(20, 34)
        t = g.name_text(g.r.sample(range(33), g.i(1, 20)) if g.p(0.2) else g.places(n))
        g.r.shuffle(t)
        for _ in range(g.c([0, 0, 1, 5, 30])):          # the same places over and over
            if t:
                t.insert(g.i(0, len(t)), g.c(t))
        ops.append(op("pn_parse", s=t or [49], n=n))
    return chunk(ops)


def wide_C15(g, k):
    ops = []
    for _ in range(40 * k):
        n = g.c([g.i(2, 8), g.i(4, 12), g.i(10, 33)])
        ops.append(op("pnb_parse", s=long_pnb(g, n, g.c([1, 2]), g.c([20, 40, 70])), n=n))
        ops.append(op("pnb_parse", s=long_pnb(g, n, g.i(4, 12), g.c([1, 2, 5])), n=n))
        if n % 2 == 0:
            ops.append(op("pnb_parse", s=[g.c([120, 45]) for _ in range(g.c([63, 64, 65, 128, 130]))] + g.c([[], [44, 49]]), n=n))
    for _ in range(60 * k):           # many places, perhaps repeated, with characters to skip among them
        n = g.i(4, 12)
        t = []
        for _ in range(g.i(1, 3)):
            u = g.name_text(g.places(n))
            for _ in range(g.c([0, 0, 1])):
                u.insert(g.i(0, len(u)), g.c(u or [49]))
            t += ([46] if t else []) + sorted(u, key=lambda c: NAMES.index(chr(c)) if g.p(0.9) else 0)
        ops.append(op("pnb_parse", s=g.noisy(t, g.c([0.1, 0.3]), [33, 35, 40, 233, 128276]), n=n))
    for _ in range(10 * k):           # many empty parts and separators
        n = g.i(2, 8)
        ops.append(op("pnb_parse", s=[g.c([44, 44, 46, 43, 32, 120, 49]) for _ in range(g.i(5, 14))], n=n))
    return chunk(ops, 12)


def wide_C16(g, k):
    ops = []
    for _ in range(90 * k):
        n = g.c([g.i(2, 8), g.i(4, 12), g.i(10, 33)])
        t = g.c([lambda: long_pnb(g, n, g.c([1, 2]), g.c([20, 40, 70])), lambda: long_pnb(g, n, g.i(3, 10), g.c([1, 2, 5]))])()
        for _ in range(g.c([0, 2, 40])):      # something long to skip which isn't ASCII
            t.insert(g.i(0, len(t)), g.c([233, 8232, 128276]))
        for _ in range(g.c([1, 1, 1, 2])):
            pos = g.c([len(t), g.i(0, len(t)), max(0, len(t) - g.i(0, 5))])
            t[pos:pos] = g.c([[43], [ord(NAMES[min(32, n)])], [46, 49, 49, 46], [46, 49, 51 if n > 4 else 49, 46], [120], [46, ord(NAMES[min(32, n + 1)])]])
        ops.append(op("pnb_parse", s=t, n=n))
    return chunk(ops, 12)


def wide_C17(g, k):
    ops = []
    for _ in range(16 * k):
        n = g.c([g.i(2, 8), g.i(8, 20), 33])
        pns = [g.pn(n) for _ in range(g.c([31, 32, 33, 63, 64, 65, 100]))]
        ops.append(op("pnb_rows", pns=pns, a=g.row(n), how=g.c(["rows", "block", "rounds"])))
        ops.append(op("pnb_vec", pns=pns, how=g.c(["vec", "iter"])))
        pns = list(pns)
        pns[g.c([-1, 0, g.i(0, len(pns) - 1)])] = g.pn(n + 1)
        ops.append(op("pnb_vec", pns=pns, how=g.c(["vec", "iter"])))
    return chunk(ops, 12)


def wide_C18(g, k):
    hs = []
    for _ in range(28 * k):
        n = g.c([g.i(3, 8), g.i(6, 12), g.i(10, 18)])
        m = g.c([15, 16, 17, 24, 28, 31, 32, 33, 40, 64, 65])
        pns = lead(g, n, m)
        m = len(pns)
        h = [op("mnew", name=cps(g.title()), how="le", pns=pns), op("minfo")]
        o = order(rows_of(pns)[-1])
        if o * m <= 900:
            h.append(op("mcourse"))
        for _ in range(10):
            x = g.i(0, 5)
            if x <= 2:
                h.append(op("mrow", x=g.c([m - 1, m, m + 1, m * o - 1, m * o, m * o + 1, m * g.i(0, 9) + g.i(-1, 1), g.i(0, 20000)]) % 20001))
            elif x == 3:
                h.append(op("mset", how="label", x=g.c([m - 1, g.i(0, m - 1), m]), label=labels(g, 1)[0]))
            elif x == 4:
                h.append(op("mgetl", x=g.c([g.i(0, m - 1), m - 1, m])))
            else:
                h.append(op("mlrow", x=g.c([g.i(0, m), m, m + 1])))
        h += [op("mfind", label=cps("LE")), op("mfind", label=cps("y"))]
        if o * m <= 400:
            h.append(op("mcourse"))
        hs.append(h)
    for _ in range(20 * k):           # many bells, long leads given by their rows, long labels and names
        n = g.c([g.i(3, 8), g.i(8, 16), g.i(17, 33), 64])
        m = g.c([1, 2, 14, 16, 17, 31, 32, 33])
        rows = [list(range(n))] + [g.row(n) for _ in range(m)] if g.p(0.3) else rows_of(lead(g, n, m, False))
        long = [cps("LE"), cps("LE" * 20), cps("é" * g.c([15, 16, 17])), cps("a" * g.c([22, 23, 24, 25, 64])), [], cps("LEa")]
        ls = [{"t": "some", "v": g.c(long)} if g.p(0.4) else {"t": "none"} for _ in range(m)]
        h = [op("mnew", title=cps(g.title() * g.c([1, 5])), name=cps(g.title() * g.c([1, 5])), how="new", n=n, rows=rows, labels=ls,
                cls={"j": g.p(.5), "l": g.p(.5), "d": g.p(.5), "c": g.i(0, 8)}), op("minfo")]
        o = order(rows[-1])
        for _ in range(8):
            x = g.i(0, 4)
            if x <= 1:
                h.append(op("mrow", x=g.c([m - 1, m, m + 1, m * g.i(0, 9) + g.i(0, 1), g.i(0, 3000)])))
            elif x == 2:
                h.append(op("mset", how="label", x=g.c([m - 1, g.i(0, m - 1), m]), label={"t": "some", "v": g.c(long)}))
            elif x == 3:
                h.append(op("mgetl", x=g.c([g.i(0, m - 1), m - 1, m])))
            else:
                h.append(op("mlrow", x=g.c([g.i(0, m), m, m + 1])))
        h += [op("mfind", label=l) for l in g.r.sample(long, 3)]
        if o * m * n <= 3000:
            h.append(op("mcourse"))
        hs.append(h)
    return hs


def wide_C19(g, k):
    ops = []
    for _ in range(34 * k):
        n = g.c([g.i(8, 18), g.i(8, 18), g.i(16, 33)])
        pns = treble_lead(g, n) if g.p(0.7) else lead(g, n, g.c([12, 16, 20]))
        ops.append(op("classify", pns=pns))
    for _ in range(90 * k):           # leads which start anywhere along the treble's path
        pns = treble_lead(g, g.i(4, 9))
        x = g.i(0, len(pns) - 1)
        ops.append(op("classify", pns=pns[x:] + pns[:x]))
    done = 0
    while done < 200 * k:             # several hunt bells
        n = g.i(3, 8)
        pns = lead(g, n, g.c([2, 4, 6, 8, 10, 12, 16]), palin=g.p(0.6))
        a = rows_of(pns)[-1]
        if sum(x == b for x, b in enumerate(a)) >= 2:
            x = g.c([0, 0, g.i(0, len(pns) - 1)])
            ops.append(op("classify", pns=pns[x:] + pns[:x]))
            done += 1
    for _ in range(450 * k):          # several hunt bells on paths which decide the class
        pns = hunt_lead(g, g.c([g.i(3, 10), g.i(4, 8), 6, 8]), g.c([1, 2, 2, 3]))
        if pns:
            ops.append(op("classify", pns=pns))
    for _ in range(300 * k):
        pns = mirror_lead(g, g.i(3, 8), g.c([2, 2, 3]))
        if pns:
            ops.append(op("classify", pns=pns))
    return chunk(ops, 12)


def wide_C20(g, k):
    ops = []
    for _ in range(40 * k):
        nm = " ".join(g.c(WORDS) for _ in range(g.c([4, 8, 20]))) if g.p(0.6) else g.c(["é", "a", " ", "🔔"]) * g.c([31, 32, 33, 64, 255, 256, 257])
        ops.append(op("title", name=cps(nm), cls={"j": g.p(.3), "l": g.p(.5), "d": g.p(.5), "c": g.i(0, 8)}, n=g.c([g.stage(), g.i(1, 24), 999, 1000, 65536])))
    return chunk(ops, 40)


def wide_C21(g, k):
    ops = []
    for _ in range(260 * k):
        n = g.c([g.i(4, 9), g.i(8, 18), g.i(16, 40), 64, 65, 128, 130])
        r = g.row(n)
        m = [b if g.p(g.c([0.1, 0.3, 0.6])) else -1 for b in r]
        p = [b if g.p(g.c([0.1, 0.3, 0.6])) else -1 for b in r]
        bells = [x for x in range(n) if m[x] >= 0]
        free = [x for x in range(n) if m[x] < 0 and p[x] < 0]
        both = [x for x in range(n) if m[x] >= 0 and p[x] >= 0]
        z = g.i(0, 5)
        if z == 1 and bells and free:          # a bell in two places, and nothing else
            x = g.c(bells)
            p[x] = -1
            p[g.c(free)] = m[x]
        elif z == 2 and free:                  # two bells in one place
            a, b = g.r.sample(range(n), 2)
            x = g.c(free)
            for y in range(n):
                if m[y] in (a, b):
                    m[y] = -1
                if p[y] in (a, b):
                    p[y] = -1
            m[x], p[x] = a, b
        elif z == 3 and both:                  # two bells change places
            x = g.c(both)
            y = g.i(0, n - 1)
            p[x], p[y] = p[y], p[x]
        elif z == 4 and bells:                 # a smaller set of rows, but for one place
            p = [b if b >= 0 else c for b, c in zip(m, p)]
            p[g.c(bells)] = -1
        ops.append(op("mk_rel", m=m, p=p) if g.p(0.5) else op("mk_rel", m=p, p=m))
        a = complete(g, m)
        if g.p(0.6) and bells:
            x, y = g.c(bells), g.i(0, n - 1)
            a[x], a[y] = a[y], a[x]
        ops.append(op("mk_match", m=m, a=a))
    return chunk(ops, 24)


def wide_C22(g, k):
    hs, ops = [], []
    for _ in range(30 * k):
        n = g.c([g.i(8, 20), 33, 64, 65, 128])
        h = [op("mk_set", i=i, m=mask(g, n, True, g.c([0.3, 0.6, 0.9]))) for i in range(2)]
        for _ in range(12):
            i = g.i(0, 1)
            h.append(op("mk_edit", i=i, b=g.c([g.i(0, n - 1), g.i(0, n - 1), n, n + 1]) if g.p(0.5) else g.i(0, n - 1), p=g.i(0, n - 1), how="set"))
            if g.p(0.4):
                h.append(op("mk_edit", i=i, b=g.i(0, n - 1), p=0, how="fix"))
        hs.append(h)
        ops.append(op("mk_mul", m=h[0]["m"], a=g.row(n), how=g.c(["rm", "mr"])))
        ops.append(op("mk_new", how=g.c(["fix", "fixu"]), n=n, bs=[g.i(0, n - 1) for _ in range(g.i(4, n))]))
        ops.append(op("mk_info", m=h[1]["m"]))
    return hs + chunk(ops)


def wide_C23(g, k):
    ops = []
    for m in (5, 6):
        for t in itertools.product("1*x", repeat=m):
            ops.append(op("rx_parse", s=cps("".join(t))))
    for _ in range(260 * k):          # runs of wildcards about bells
        n = g.c([g.i(3, 8), g.i(6, 16), g.i(12, 33), g.i(30, 70)])
        r = g.row(n)
        e, x = [], 0
        while x < n and len(e) < 60:
            y = g.i(0, min(n - x, g.c([1, 3, 9, 40])))
            z = g.i(0, 3)
            if z == 0:
                e.append(r[x])
                x += 1
                continue
            if z == 1:
                w = [-1] * y
            elif z == 2:
                w = [-2] * g.i(1, 3) + [-1] * g.i(0, y)
            else:
                w = [-1] * g.i(0, y) + [-2] * g.i(1, 4)
            g.r.shuffle(w) if g.p(0.4) else None
            e += w
            x += y
        if g.p(0.3) and e:
            e[g.i(0, len(e) - 1)] = g.c([-1, -2, g.i(0, n - 1)])
        e = e[:60]
        ops.append(op("rx_norm", e=e, how=g.c(["elems", "vec", "twice"])))
        ops.append(op("rx_match", e=e, a=g.c([r, r, g.near(r), r[:-1] if max(r) == r[-1] and n > 1 else r])))
        ops.append(op("rx_parse", s=rx_text(g, e)))
    for n in (5, 8, 12, 33, 64):      # exactly the right number of bells, or one more or fewer
        for d in (-2, -1, 0, 1, 2):
            for e in ([-1] * (n + d), [-2] + [-1] * (n + d), [-1] * (n + d) + [-2], [0] + [-1] * (n + d - 1), [-1] * (n + d - 1) + [n - 1],
                      [-1, -2] + [-1] * (n + d - 1), [-2, 0] + [-1] * (n + d - 1)):
                ops.append(op("rx_match", e=e, a=list(range(n))))
    return chunk(ops, 40)


def wide_C24(g, k):
    ops = []
    for _ in range(60 * k):
        n = g.c([g.i(16, 34), g.i(10, 20), 33, 64])
        ln = g.c([4, 4, g.i(2, n), n, n - 1, n // 2])
        a = list(range(n))
        g.r.shuffle(a)
        if g.p(0.7):
            s = g.c([0, n - ln, g.i(0, n - ln)])
            run = list(range(s, s + ln))
            if g.p(0.3):
                run[g.c([0, -1])] = g.c([b for b in range(n) if b not in run] or [run[0]])
            if g.p(0.5):
                run.reverse()
            rest = [b for b in a if b not in run]
            x = g.c([0, len(rest), g.i(0, len(rest))])
            a = rest[:x] + run + rest[x:]
        if sorted(a) == list(range(n)):
            ops.append(op("runs_match", a=a, len=ln))
            ops.append(op("runlen", a=a))
    return chunk(ops)


def wide_C25(g, k):
    ops = []
    for _ in range(80 * k):
        n = g.c([g.i(6, 12), g.i(10, 20), g.i(18, 25), 33, 64])
        bells = g.r.sample(range(n), g.i(1, n))
        e = []
        for b in bells:
            e += [b] + g.c([[], [], [-1], [-2], [-1, -2], [-2, -1], [-1] * g.i(2, 5), [-2, -2]])
        if g.p(0.5):
            e = [-2] + e
        wild = n - len(e) + e.count(-2)
        if wild > 0 and g.p(0.5):
            pos = g.i(0, len(e))
            e[pos:pos] = [-1] * (wild + g.i(-1, 1))
        ops.append(op("rx_count", e=e, n=n))
    return chunk(ops, 60)


def big_library(g):
    """Many groups and methods, some titles long"""
    groups = []
    for _ in range(g.c([1, 5, 12])):
        n = g.i(3, 9)
        cls = {"j": g.p(0.1), "l": g.p(0.3), "d": g.p(0.2), "c": g.i(0, 8)}
        ms = []
        for x in range(g.c([1, 3, 17, 33])):
            name = " ".join(g.c(LIBWORDS) for _ in range(g.c([1, 2, 3, 12]))) + g.c(["", str(x), "a" * g.c([1, 40, 120])])
            ms.append({"t": name + " " + STAGES[n - 1] if g.p(0.3) else None, "n": name, "p": "x" if n % 2 == 0 else "".join(g.c(["1", "3", "1.3", "3.1.3,1"]))})
        groups.append(dict(cls, s=n, m=ms))
    return groups


def wide_C26(g, k):
    hs = []
    for _ in range(12 * k):
        gs = big_library(g)
        ts = titles_of(gs)
        h = [load_op(g, gs)]
        h += [op("lget", q=cps(g.c([t, upper(t), lower(t)]))) for t in g.r.sample(ts, min(len(ts), 10)) + ts[-2:]]
        h += [op("lget", q=cps(query(g, ts))) for _ in range(6)] + [op("lunw", q=cps(query(g, ts)))]
        hs.append(h)
    return hs


def wide_C27(g, k):
    hs = []
    for _ in range(8 * k):
        gs = big_library(g)
        ts = titles_of(gs)
        h = [load_op(g, gs)]
        h += [op("lsug", q=cps(query(g, ts)), k=g.c([1, 3, 10, 16, 17, 32, 33, 64, 65, len(ts) - 1, len(ts), 1000])) for _ in range(4)]
        hs.append(h)
    return hs


def wide_C28(g, k):
    hs = []
    for _ in range(14 * k):
        gs = big_library(g)
        ts = titles_of(gs)
        hs.append([load_op(g, gs), op("ljson"), op("lreload"), op("ljson")] + [op("lget", q=cps(t)) for t in g.r.sample(ts, min(len(ts), 6)) + ts[-1:]])
    return hs


def wide_C29(g, k):
    hs = []
    for _ in range(24 * k):
        gs = big_library(g)
        ts = titles_of(gs)
        o = {"groups": [group_json(g, x) for x in gs]}
        tgt = o["groups"][-1]
        x = g.i(0, 6)
        if x == 1:
            tgt["s"] = 0
        elif x == 2:
            tgt["c"] = 9
        elif x == 3:
            tgt["m"][-1]["p"] = None
        elif x == 4:
            del tgt["m"][-1]["n"]
        elif x == 5:
            tgt["zz"] = [[[[{"a": [1, {"b": []}]}]]]]
        t = dumps(g, o)
        if x == 6:
            t = t[:-1]
        hs.append([op("lload", json=cps(t))] + [op("lget", q=cps(q)) for q in g.r.sample(ts, min(len(ts), 4))])
    return hs


def wide_C32(g, k):
    ops = []
    for _ in range(30 * k):
        n = g.c([g.i(4, 12), 33, 64])
        pns = [g.pn(n) for _ in range(g.c([16, 17, 32, 33, 65]))]
        ops.append(op("call", how=g.c(["new", "empty", "bob", "single"]), cov=g.c([16, 255, 256, 65536]), loc=cps("LE" * g.c([1, 20])), n=n, pns=pns,
                      a=g.row(n), **{"not": g.c(ODD)}))
    for how in ("new", "bob", "single", "empty"):
        for ln in (g.i(9, 40), g.c([63, 64, 65]), g.c([127, 128, 129]), g.c([254, 255, 256, 257]), g.i(258, 700)):
            n = g.c([1, 2, g.i(3, 8), g.i(3, 8), g.i(9, 16)])
            ops.append(op("call", how=how, cov=g.c([ln, ln - 1, 255, 256, 65535, 65536, 2147480000]), loc=cps(g.c(["LE", "HL", "x" * 300])), n=n,
                          pns=[g.pn(n) for _ in range(ln)], a=g.row(n), **{"not": g.c(ODD + [45, 115, 98])}))
    return chunk(ops)


def wide_C33(g, k):
    hs = []
    for _ in range(14 * k):
        n = g.c([g.i(3, 12), 16, 17, 33, 64])
        h = [op("anew", i=0, how="rounds", n=n), op("anew", i=1, how="new", a=g.row(n))]
        for _ in range(g.c([40, 70, 140])):
            h.append(op("aacc", i=g.i(0, 1), a=g.row(n if g.p(0.95) else n + 1), how=g.c(["acc", "acc", "pre", "pre", "mulr", "mulb"])))
            if g.p(0.1):
                h.append(op("atot", i=g.i(0, 1)))
        hs.append(h + [op("atot", i=0), op("atot", i=1)])
    return hs


def wide_C34(g, k):
    hs = []
    for _ in range(10 * k):
        groups = []
        seen = set()
        for gr in big_library(g):
            ms = []
            for m in gr["m"]:
                m["t"] = m["t"] or title_text(m["n"], gr, gr["s"])
                if (gr["s"], m["t"].lower()) not in seen:
                    seen.add((gr["s"], m["t"].lower()))
                    ms.append(m)
            groups.append(dict(gr, m=ms))
        ts = [m["t"] for gr in groups for m in gr["m"]]
        hs.append([op("xload", xml=cps(collection(g, groups))), op("ljson")] + [op("lget", q=cps(t)) for t in g.r.sample(ts, min(len(ts), 6)) + ts[-1:]])
    return hs


def both(p):
    f, w = globals()["gen_" + p], globals().get("wide_" + p)
    return lambda g, k: f(g, k) + (w(g, k) if w else [])


GENERATORS = {n[4:]: both(n[4:]) for n in list(globals()) if n.startswith("gen_C")}
# How much the quick checks generate
EFFORT = {p: 2 if p in ("C04", "C34") else 4 if p in ("C11", "C21", "C27") else 6 for p in GENERATORS}
