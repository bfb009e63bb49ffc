"""Shared contracts of the split search (split_algo.cc)."""
from spec import *
from tmpl import *
import cols
from cols import *
TU = [("gbdt_algo/split_algo.cc", "gbdt"), ("gbdt_algo/split_algo.cc", "VectorSlice"), ("data_store/column.cc", "gbdt")]
R = z3.RealSort()
EN = z3.Function("energy", R, R, R, R)        # gradient, hessian, lambda
SC = z3.Function("node_score", R, R, R, R)
G = "gbdt::GradientData::"
# proved against the defining formulas in property C13
ENERGY = Contract(G + "Energy", value=lambda c: EN(c.t.f["g"], c.t.f["h"], c.v(0)))
SCORE = Contract(G + "Score", value=lambda c: SC(c.t.f["g"], c.t.f["h"], c.v(0)))

# ------------------------------------------------------------------ the scan over candidate cuts (C09)
LG = z3.Function("left_g", z3.ArraySort(z3.IntSort(), R), z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), R)


def left_axioms():
    """LG(a, nz, i) = a[nz[0]] + ... + a[nz[i-1]]"""
    a = z3.Const("a!LG", z3.ArraySort(z3.IntSort(), R))
    nz = z3.Const("nz!LG", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    i = z3.Int("i!LG")
    return [z3.ForAll([a, nz], LG(a, nz, 0) == 0, patterns=[LG(a, nz, 0)]),
            z3.ForAll([a, nz, i], z3.Implies(i >= 0, LG(a, nz, i + 1) == LG(a, nz, i) + a[nz[i]]),
                      patterns=[z3.MultiPattern(LG(a, nz, i), nz[i])])]


class Scan:
    """The candidates of one histogram: a cut after the first i listed buckets, missing values staying or on the right."""

    def __init__(self, hist, config, total, place):
        el = hist.f["histograms_"].el
        self.g, self.h = el.f["g"], el.f["h"]
        self.nz, self.n = hist.f["non_zero_values_"].el, hist.f["non_zero_values_"].len
        self.lam, self.minh, self.ming = config.f["l2_lambda"], config.f["min_hessian"], config.f["min_gain"]
        self.tg, self.th, self.place = total.f["g"], total.f["h"], place
        self.mg, self.mh = self.g[0], self.h[0]
        self.has_missing = z3.Or(self.mg != 0, self.mh != 0)

    def left(self, i, m):
        lg, lh = LG(self.g, self.nz, i), LG(self.h, self.nz, i)
        return (lg - self.mg, lh - self.mh) if m else (lg, lh)

    def right(self, i, m):
        lg, lh = LG(self.g, self.nz, i), LG(self.h, self.nz, i)
        return (self.tg - lg + self.mg, self.th - lh + self.mh) if m else (self.tg - lg, self.th - lh)

    def admissible(self, i, m):
        a, b = self.left(i, m)[1], self.right(i, m)[1]
        e = z3.And(i >= 1, i < self.n, a > self.minh, b > self.minh)
        return z3.And(e, self.place, self.has_missing) if m else e

    def gain(self, i, m):
        l, r = self.left(i, m), self.right(i, m)
        return EN(l[0], l[1], self.lam) + EN(r[0], r[1], self.lam) - EN(self.tg, self.th, self.lam)

    def thr(self):
        tol = z3.RealVal("1/1000000")
        return z3.If(self.ming > tol, self.ming, tol)

    def best(self, upto, lp, mis, gain):
        """(lp, mis, gain) is the best admissible candidate above the threshold among the cuts 1..upto-1."""
        found = z3.And(lp >= 0, lp < self.n - 1, lp + 1 < upto, gain > self.thr(),
                       z3.If(mis, z3.And(self.admissible(lp + 1, True), gain == self.gain(lp + 1, True)),
                             z3.And(self.admissible(lp + 1, False), gain == self.gain(lp + 1, False))))
        none = z3.And(lp == -1, gain == 0)
        opt = lambda m: qall(lambda i: (z3.Implies(z3.And(i >= 1, i < upto, self.admissible(i, m), self.gain(i, m) > self.thr()),
                                                   self.gain(i, m) <= gain), [LG(self.h, self.nz, i)]))
        return [("reported cut is admissible and its gain is reported", z3.Or(found, none)),
                ("no admissible cut is better", opt(False)), ("no admissible cut is better with missing values on the right", opt(True))]


def sp_pre(c):
    h, sp = c.v(2), c.d(5)
    nz, hs = h.f["non_zero_values_"], h.f["histograms_"]
    return [("fresh split point", z3.And(sp.f["left_point"] == -1, sp.f["gain"] == 0, z3.Not(sp.f["missing_on_right"]))),
            ("buckets", hs.len >= 1), ("listed buckets exist", forall_lt(nz.len, lambda i: z3.And(nz.el[i] >= 0, nz.el[i] < hs.len)))]


def sp_post(c):
    s = Scan(c.v(2), c.v(1), c.v(3), c.v(4))
    sp = c.D(5)
    lp, mis, gain = sp.f["left_point"], sp.f["missing_on_right"], sp.f["gain"]
    return [("found exactly if a cut qualifies", c.r == (lp >= 0))] + s.best(s.n, lp, mis, gain) + \
        [("missing values move only for numeric features", z3.Implies(mis, z3.And(c.v(4), s.has_missing))),
         ("positive gain", z3.Implies(c.r, gain > 0))]


FBSP = Contract("gbdt::FindBestSplitPoint", pre=sp_pre, post=sp_post, modifies=["*5"])

# ------------------------------------------------------------------ histograms (C10)
I2R = z3.ArraySort(z3.IntSort(), R)
I2I = z3.ArraySort(z3.IntSort(), z3.IntSort())
HS = z3.Function("bucket_sum", z3.IntSort(), I2R, I2R, I2I, z3.IntSort(), z3.IntSort(), z3.IntSort(), R)
# HS(reader, w, x, rows, b, k, v): sum of w(row)*x(row) over the rows b..k-1 of the slice whose value is v


def hs_axioms(rd, w, x, rows, b):
    k, v = z3.Ints("k!HS v!HS")
    t = lambda k: HS(rd, w, x, rows, b, k, v)
    r = rows[k]
    return [z3.ForAll([v], t(b) == 0, patterns=[t(b)]),
            z3.ForAll([k, v], z3.Implies(k >= b, t(k + 1) == t(k) + z3.If(COLV(rd, r) == v, w[r] * x[r], 0)),
                      patterns=[z3.MultiPattern(t(k), r)])]


class HistSpec:
    """Weighted sums per bucket of the rows of a slice."""

    def __init__(self, c, feat, w, gd, sl, st=None):
        self.rd = reader(c, feat, st)
        self.w = w.arr
        self.G, self.H = gd.el.f["g"], gd.el.f["h"]
        under = c._ld(st or c.st, sl.f["begin_"].cont)
        self.rows = under.el.a0 if isinstance(under.el, Tracked) else under.el
        self.under = under
        self.b, self.e = sl.f["begin_"].pos, sl.f["end_"].pos

    def sums(self, g, h, upto):
        return [("gradient sums", qall(lambda v: (g[v] == HS(self.rd, self.w, self.G, self.rows, self.b, upto, v), [g[v]]))),
                ("hessian sums", qall(lambda v: (h[v] == HS(self.rd, self.w, self.H, self.rows, self.b, upto, v), [h[v]])))]


def max_int(c, feat, st=None):
    """Number of categories or buckets of the column (a virtual function: max_int below)."""
    return MAXINT(feat)


MAXINT = z3.Function("column_max_int", z3.IntSort(), z3.IntSort())
# interface contract of max_int; its two implementations are verified against it in C05 and C07
MAXI = Contract("gbdt::IntegerizedColumn::max_int", post=lambda c: [("range", z3.And(c.r == MAXINT(cols._addr(c)), c.r >= 1, c.r <= MAXSZ))])


def listed(nz, g, h, n):
    """nz lists buckets below n, ascending, without gaps for the non-empty ones."""
    ix = z3.Int("i!nz")
    return [("listed buckets exist", qall(lambda i: (z3.Implies(z3.And(i >= 0, i < nz.len), z3.And(nz.el[i] >= 0, nz.el[i] < n)), [nz.el[i]]))),
            ("ascending", qall(lambda i: z3.Implies(z3.And(i >= 0, i + 1 < nz.len), nz.el[i] < nz.el[i + 1]))),
            ("every non-empty bucket is listed", qall(lambda v: (z3.Implies(
                z3.And(v >= 0, v < n, z3.Or(g[v] != 0, h[v] != 0)), z3.Exists([ix], z3.And(ix >= 0, ix < nz.len, nz.el[ix] == v))), [g[v]])))]


def hist_pre(c):
    feat, w, gd, sl = c.v(0), c.v(1), c.v(2), c.v(3)
    feat = feat.addr if isinstance(feat, RPtr) else cols.addr_of(c.args[0].path)
    s = HistSpec(c, feat, w, gd, sl)
    k = z3.Int("k!hp")
    return [("slice", z3.And(s.b >= 0, s.b <= s.e, s.e <= s.under.len)), ("reader", s.rd != 0),
            ("rows exist", z3.ForAll([k], z3.Implies(z3.And(k >= s.b, k < s.e), z3.And(
                s.rows[k] >= 0, s.rows[k] < COLN(s.rd), s.rows[k] < gd.len)), patterns=[s.rows[k]])),
            ("values are category or bucket numbers", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < COLN(s.rd)), z3.And(
                COLV(s.rd, k) >= 0, COLV(s.rd, k) < MAXINT(feat))), patterns=[COLV(s.rd, k)])),
            ("max_int", z3.And(MAXINT(feat) >= 1, MAXINT(feat) <= MAXSZ))]


def hist_post(c):
    feat = cols.addr_of(c.args[0].path)
    s = HistSpec(c, feat, c.v(1), c.v(2), c.v(3))
    T = c.T
    hs, nz = T.f["histograms_"], T.f["non_zero_values_"]
    n = MAXINT(feat)
    return [("one entry per bucket", hs.len == n)] + \
        [(l, qall_in(x, n)) for l, x in s.sums(hs.el.f["g"], hs.el.f["h"], s.e)] + listed(nz, hs.el.f["g"], hs.el.f["h"], n)


def qall_in(f, n):
    """Restrict a quantified fact over buckets to existing buckets."""
    k = z3.Const(f.var_name(0) + "r", f.var_sort(0))
    b = z3.substitute_vars(f.body(), k)
    p = z3.substitute_vars(f.pattern(0).arg(0), k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), b), patterns=[p])


HIST = Contract("gbdt::Histogram::Histogram", pre=hist_pre, post=hist_post, modifies=["this"],
                params=["IntegerizedColumn", "FloatVector", "vector", "VectorSlice"])


def sort_pre(c):
    t = c.t
    nz, hs = t.f["non_zero_values_"], t.f["histograms_"]
    i, j = z3.Ints("i!sp j!sp")
    return [("listed buckets exist", forall_lt(nz.len, lambda i: z3.And(nz.el[i] >= 0, nz.el[i] < hs.len))),
            ("no bucket twice", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < nz.len), nz.el[i] != nz.el[j]),
                                          patterns=[z3.MultiPattern(nz.el[i], nz.el[j])]))]


def sort_post(c):
    a, b, hs = c.t.f["non_zero_values_"], c.T.f["non_zero_values_"], c.t.f["histograms_"]
    lam = c.v(0)
    i, j = z3.Ints("i!so2 j!so2")
    sc = lambda v: SC(hs.el.f["g"][v], hs.el.f["h"][v], lam)
    return [("same number of buckets", a.len == b.len),
            ("only listed buckets", qall(lambda i: (z3.Implies(z3.And(i >= 0, i < b.len), z3.Exists([j], z3.And(j >= 0, j < a.len, b.el[i] == a.el[j]))), [b.el[i]]))),
            ("every listed bucket", qall(lambda i: (z3.Implies(z3.And(i >= 0, i < a.len), z3.Exists([j], z3.And(j >= 0, j < b.len, b.el[j] == a.el[i]))), [a.el[i]]))),
            ("no bucket twice", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < b.len), b.el[i] != b.el[j]),
                                          patterns=[z3.MultiPattern(b.el[i], b.el[j])])),
            ("ascending score", qall(lambda i: z3.Implies(z3.And(i >= 0, i + 1 < b.len), sc(b.el[i]) <= sc(b.el[i + 1]))))]


SORT = Contract("gbdt::Histogram::SortOnNodeScore", pre=sort_pre, post=sort_post, modifies=["this.non_zero_values_"])


# ------------------------------------------------------------------ structural parts of the same contracts, for callers in
# exact floating point (fewer postconditions than proved; ghost state records what was scanned)
def struct_listed(nz, n):
    i, j = z3.Ints("i!sl j!sl")
    return [("listed buckets exist", qall(lambda i: (z3.Implies(z3.And(i >= 0, i < nz.len), z3.And(nz.el[i] >= 0, nz.el[i] < n)), [nz.el[i]]))),
            ("ascending", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < nz.len), nz.el[i] < nz.el[j]),
                                    patterns=[z3.MultiPattern(nz.el[i], nz.el[j])]))]


def histb_post(c):
    feat = cols.addr_of(c.args[0].path)
    hs, nz = c.T.f["histograms_"], c.T.f["non_zero_values_"]
    c.post.ghost["hist_args"] = (feat, c.v(1).arr, c.v(2), c.v(3))
    c.post.ghost["hist"] = c.T
    return [("one entry per bucket", hs.len == MAXINT(feat))] + struct_listed(nz, MAXINT(feat))


HISTB = Contract("gbdt::Histogram::Histogram", pre=hist_pre, post=histb_post, modifies=["this"],
                 params=["IntegerizedColumn", "FloatVector", "vector", "VectorSlice"])


def sortb_post(c):
    c.post.ghost["sorted"] = (c.t, c.T, c.v(0))
    a, b = c.t.f["non_zero_values_"], c.T.f["non_zero_values_"]
    out = [x for x in sort_post(c) if x[0] != "ascending score"]
    return out + [("listed buckets exist", qall(lambda i: (z3.Implies(z3.And(i >= 0, i < b.len), z3.And(
        b.el[i] >= 0, b.el[i] < c.t.f["histograms_"].len)), [b.el[i]])))]


SORTB = Contract("gbdt::Histogram::SortOnNodeScore", pre=sort_pre, post=sortb_post, modifies=["this.non_zero_values_"])


def fbspb_post(c):
    sp = c.D(5)
    n = c.v(2).f["non_zero_values_"].len
    lp = sp.f["left_point"]
    c.post.ghost["scan"] = (c.v(2), sp, c.v(1), c.v(3), c.v(4))
    return [("found", c.r == (lp >= 0)), ("cut inside", z3.And(lp >= -1, z3.Implies(c.r, lp < n - 1))),
            ("missing", z3.Implies(sp.f["missing_on_right"], c.v(4)))]


FBSPB = Contract("gbdt::FindBestSplitPoint", pre=lambda c: sp_pre_b(c), post=fbspb_post, modifies=["*5"])


def sp_pre_b(c):
    h, sp = c.v(2), c.d(5)
    nz, hs = h.f["non_zero_values_"], h.f["histograms_"]
    return [("fresh split point", z3.And(sp.f["left_point"] == -1, c.I.fm.eq(sp.f["gain"], c.I.fm.const(0, Ty("float", "double"))),
                                         z3.Not(sp.f["missing_on_right"]))),
            ("buckets", hs.len >= 1), ("listed buckets exist", forall_lt(nz.len, lambda i: z3.And(nz.el[i] >= 0, nz.el[i] < hs.len)))]


def bucket_inv(I, c, feat, st=None):
    """Bounds of a bucketized column: maxs[a] < mins[b] <= maxs[b] for 1 <= a < b, no NaN but in bucket 0 (C05, C06)."""
    mx, mn = cfield(c, "bucket_maxs_", feat, st), cfield(c, "bucket_mins_", feat, st)
    a, b = z3.Ints("a!bi b!bi")
    lt, le = I.fm.lt, I.fm.le
    return [("bucket numbers", z3.And(mx.len == MAXINT(feat), mn.len == mx.len, mx.len >= 2)),
            ("ordered bounds", z3.ForAll([a, b], z3.Implies(z3.And(a >= 1, a < b, b < mx.len), lt(mx.el[a], mn.el[b])),
                                         patterns=[z3.MultiPattern(mx.el[a], mn.el[b])])),
            ("lower bound below upper bound", z3.ForAll([b], z3.Implies(z3.And(b >= 1, b < mx.len), le(mn.el[b], mx.el[b])),
                                                        patterns=[mn.el[b]])),
            ("lower bound below upper bound ", z3.ForAll([b], z3.Implies(z3.And(b >= 1, b < mx.len), le(mn.el[b], mx.el[b])),
                                                         patterns=[mx.el[b]])),
            ("bucket 0 is for missing values", I.fm.isnan(mx.el[0]))]


def same_obj(a, b):
    return z3.And([x == y for (_, x), (_, y) in zip(leaves(a), leaves(b))] + [TRUE])


def scanned(c, place):
    """What was scanned is the histogram of exactly the given feature, weights, gradients and rows, with the given settings."""
    gh = c.post.ghost
    if "scan" not in gh or "hist_args" not in gh:
        return None, [("the histogram is scanned", FALSE)]
    hist, sp, cfg, tot, pl = gh["scan"]
    f, w, gd, sl = gh["hist_args"]
    made = gh["hist"]
    out = [("histogram of the given feature", f == cols.addr_of(c.args[0].path)),
           ("histogram with the given weights", w == c.v(1).arr),
           ("histogram of the given gradients", same_obj(gd, c.d(2))),
           ("histogram of the given rows", same_obj(sl, c.v(3)) if same_path(sl.f["begin_"].cont, c.v(3).f["begin_"].cont) else FALSE),
           ("scan with the given configuration", same_obj(cfg, c.v(4))), ("scan with the given total", same_obj(tot, c.v(5))),
           ("missing values are placed", pl == z3.BoolVal(place)),
           ("scan of that histogram", same_obj(hist.f["histograms_"], made.f["histograms_"]))]
    if place:
        out.append(("scan of that histogram in bucket order", same_obj(hist, made)))
    else:
        s = gh.get("sorted")
        out.append(("scan in score order", FALSE if s is None else z3.And(same_obj(hist, s[1]), same_obj(made, s[0]), s[2] == cfg.f["l2_lambda"])))
    return (hist, sp), out


def fs_pre(kind):
    def f(c):
        feat = feat_addr(c)
        sl, gd = c.v(3), c.d(2)
        under = c._ld(c.st, sl.f["begin_"].cont)
        rows = under.el
        b, e = sl.f["begin_"].pos, sl.f["end_"].pos
        rd = reader(c, feat)
        k = z3.Int("k!hp")
        out = [("slice", z3.And(b >= 0, b <= e, e <= under.len)), ("reader", rd != 0),
               ("rows exist", z3.ForAll([k], z3.Implies(z3.And(k >= b, k < e), z3.And(
                   rows[k] >= 0, rows[k] < COLN(rd), rows[k] < gd.len)), patterns=[rows[k]])),
               ("values are category or bucket numbers", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < COLN(rd)), z3.And(
                   COLV(rd, k) >= 0, COLV(rd, k) < MAXINT(feat))), patterns=[COLV(rd, k)])),
               ("max_int", z3.And(MAXINT(feat) >= 1, MAXINT(feat) <= MAXSZ))]
        if kind == "float":
            out += bucket_inv(c.I, c, feat)
        return out
    return f


def float_post(c):
    I = c.I
    got, out = scanned(c, True)
    if got is None:
        return out
    hist, sp = got
    nz, lp = hist.f["non_zero_values_"], sp.f["left_point"]
    feat = cols.addr_of(c.args[0].path)
    mx, mn = cfield(c, "bucket_maxs_", feat), cfield(c, "bucket_mins_", feat)
    s = c.D(6)
    fs = s.f["float_split"]
    th = fs.f["threshold"]
    found = lambda e: z3.Implies(c.r, e)
    lt, le, isnan = I.fm.lt, I.fm.le, I.fm.isnan
    l, r = mx.el[nz.el[lp]], mn.el[nz.el[lp + 1]]
    return out + [
        ("split found exactly if a cut qualifies", c.r == (lp >= 0)),
        ("bounds of the cut", found(z3.And(z3.If(nz.el[lp] >= 1, lt(l, r), isnan(l)), le(mn.el[1], mx.el[1])))),
        ("the smallest value is not above the right bound", found(le(mn.el[1], r))),
        ("a threshold without left bound is not above the right bound", found(z3.Implies(z3.And(isnan(l), le(mn.el[1], r)), le(th, r)))),
        ("the threshold is above the left bound", found(z3.Implies(lt(l, r), lt(l, th)))),
        ("the threshold is not above the right bound", found(z3.Implies(lt(l, r), le(th, r)))),
        ("left buckets are below the threshold", found(qall(lambda k: (z3.Implies(
            z3.And(k >= 0, k <= lp, nz.el[k] >= 1), I.fm.lt(mx.el[nz.el[k]], th)), [nz.el[k]])))),
        ("right buckets are not below the threshold", found(qall(lambda k: (z3.Implies(
            z3.And(k > lp, k < nz.len, nz.el[k] >= 1), I.fm.le(th, mn.el[nz.el[k]])), [nz.el[k]])))),
        ("missing values are routed as scored", found(fs.f["missing_to_right_child"] == sp.f["missing_on_right"])),
        ("the scored gain is stored", found(s.f["gain"] == sp.f["gain"])),
        ("numeric split", found(s.f["has_float_split"])), ("not a categorical split", s.f["has_cat_split"] == c.d(6).f["has_cat_split"])]


def cat_post(c):
    got, out = scanned(c, False)
    if got is None:
        return out
    hist, sp = got
    nz, lp = hist.f["non_zero_values_"], sp.f["left_point"]
    s = c.D(6)
    ii = s.f["cat_split"].f["internal_categorical_index"]
    o = c.d(6).f["cat_split"].f["internal_categorical_index"]
    found = lambda e: z3.Implies(c.r, e)
    nl, nr = lp + 1, nz.len - lp - 1
    seg = lambda a, n: z3.And(ii.len == n, forall_lt(n, lambda k: ii.el[k] == nz.el[a + k]))
    return out + [
        ("split found exactly if a cut qualifies", c.r == (lp >= 0)),
        ("the category set is the smaller scored group", found(z3.Or(z3.And(nl <= nr, seg(0, nl)), z3.And(nr <= nl, seg(lp + 1, nr))))),
        ("the scored gain is stored", found(s.f["gain"] == sp.f["gain"])),
        ("categorical split", found(s.f["has_cat_split"])), ("not a numeric split", s.f["has_float_split"] == c.d(6).f["has_float_split"])]


FFLOAT = Contract("gbdt::FindBestFloatSplit", pre=fs_pre("float"), post=float_post, modifies=["*6"])
FCAT = Contract("gbdt::FindBestStringSplit", pre=lambda c: fs_pre("cat")(c) + [
    ("fresh split", c.d(6).f["cat_split"].f["internal_categorical_index"].len == 0)], post=cat_post, modifies=["*6"])


# ------------------------------------------------------------------ dispatch on the column type
def feat_addr(c):
    p = c.args[0].path
    return cols.addr_of(p) if p[0].startswith("heap:") else c.v(0).addr


def call_post(kind):
    """Records which search was called with what; the caller checks that it is its own arguments."""
    def f(c):
        feat = cols.addr_of(c.args[0].path)
        c.post.ghost["called"] = (kind, feat, c.v(1).arr, c.d(2), c.v(3), c.v(4), c.v(5), c.v(6), c.r)
        return []
    return f


def call_pre(kind):
    return lambda c: fs_pre(kind)(c) + ([("fresh split", c.d(6).f["cat_split"].f["internal_categorical_index"].len == 0)] if kind == "cat" else [])


CFLOAT = Contract("gbdt::FindBestFloatSplit", pre=call_pre("float"), post=call_post("float"), modifies=["*6"])
CCAT = Contract("gbdt::FindBestStringSplit", pre=call_pre("cat"), post=call_post("cat"), modifies=["*6"])


def dst_path(v):
    return getattr(v, "path", None)


def disp_pre(c):
    ty = cfield(c, "type_", c.v(0).addr)
    fl, ca = fs_pre("float")(c), fs_pre("cat")(c)
    n = len(ca)
    return ca + [(l, z3.Implies(ty == 1, e)) for l, e in fl[n:]] + [
        ("column", c.v(0).addr != 0), ("column type", z3.And(ty >= 0, ty <= 2)),
        ("fresh split", c.d(6).f["cat_split"].f["internal_categorical_index"].len == 0)]


def disp_post(c):
    ty = cfield(c, "type_", c.v(0).addr)
    g = c.post.ghost.get("called")
    if g is None:
        return [("columns that can be split are searched", z3.And(ty != 0, ty != 1)), ("no split without a search", z3.Not(c.r)),
                ("the split is untouched without a search", same_obj(c.d(6), c.D(6)))]
    kind, feat, w, gd, sl, cfg, tot, dst, r = g
    return [("search for the type of the column", ty == (1 if kind == "float" else 0)), ("the given column", feat == c.v(0).addr),
            ("the given weights", w == c.v(1).arr), ("the given gradients", same_obj(gd, c.d(2))),
            ("the given rows", same_obj(sl, c.v(3)) if same_path(sl.f["begin_"].cont, c.v(3).f["begin_"].cont) else FALSE),
            ("the given configuration", same_obj(cfg, c.v(4))), ("the given total", same_obj(tot, c.v(5))),
            ("the result goes to the given split", z3.BoolVal(dst_path(dst) is not None and same_path(dst_path(dst), dst_path(c.v(6))))), ("the result is passed on", c.r == r)]


DISP = Contract("gbdt::FindBestSplit", pre=disp_pre, post=disp_post, modifies=["*6"])
