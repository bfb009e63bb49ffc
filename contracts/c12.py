"""C12 Tree growth is best-first, bounded and scored by its rows."""
from spec import *
from tmpl import *
from lib import PS, ps_axioms
from core import TRUE
import c03, cols
from c15 import aliased
from c17 import threads, THREADS
TU = [("gbdt_algo/tree_algo.cc", "gbdt"), ("gbdt_algo/tree_algo.cc", "VectorSlice"), ("utils/subsampling.cc", "gbdt")]
INT, REAL = z3.IntSort(), z3.RealSort()
AR = z3.ArraySort(INT, REAL)
# sums of weight * gradient pair over the rows at the places before n, and over the k-th slice
SUM = {q: z3.Function("weighted_%s_before" % q, INT, REAL) for q in "gh"}
OF = {q: z3.Function("weighted_%s_of_slice" % q, INT, REAL) for q in "gh"}
W = {q: z3.Function("differs_at_" + q, AR, INT, INT) for q in "gh"}


def span(s):
    return s.f["begin_"].pos, s.f["end_"].pos


BEG, END, N = z3.Const("slice_begins", z3.ArraySort(INT, INT)), z3.Const("slice_ends", z3.ArraySort(INT, INT)), z3.Int("number_of_slices")


def div_result(c, post, rt):
    if getattr(c.I, "p_divided", False):
        raise OutOfReach("rows divided twice")
    c.I.p_divided = True
    s = c.v(0)
    it = lambda x: Iter(s.f["begin_"].cont, x)
    return Vec(N, Obj(s.cls, {"begin_": it(BEG), "end_": it(END)}))


def div_post(c):
    v, (b, e) = c.r, span(c.v(0))
    x, y = v.el.f["begin_"].pos, v.el.f["end_"].pos
    return [("as many slices", v.len == c.v(1)), ("inside", forall_lt(v.len, lambda k: z3.And(x[k] >= b, x[k] <= y[k], y[k] <= e), pats=lambda k: [x[k]])),
            ("to the last", y[v.len - 1] == e), ("from the first", x[0] == b),
            ("consecutive", forall_lt(v.len - 1, lambda k: x[k + 1] == y[k], pats=lambda k: [y[k]]))]


DIV = Contract("gbdt::Subsampling::DivideSamples", pre=lambda c: [("groups", c.v(1) >= 1)], post=div_post, params=["VectorSlice", "int"], result=div_result)


def ws_par(I, st, i, t, p):
    return slice_param(I, st, "samples") if i == 2 else None


def rows(c):
    s = c.v(2)
    return c._ld(c.st, s.f["begin_"].cont).el


def ws_pre(c):
    b, e = span(c.v(2))
    return [("rows with gradients", fa([K], z3.Implies(z3.And(K >= b, K < e), z3.And(rows(c)[K] >= 0, rows(c)[K] < c.v(1).len)), rows(c)[K]))]


K = z3.Int("k!ws")


def ws_post(c):
    b, e = span(c.v(2))
    return [("gradient sum of the rows", c.r.f["g"] == SUM["g"](e) - SUM["g"](b)), ("hessian sum of the rows", c.r.f["h"] == SUM["h"](e) - SUM["h"](b))]


def ws_setup(I, st, this, args):
    st.assume(z3.And(THREADS >= 1, THREADS <= 100000))
    c = CallCtx(I, None, None, st, None, args)
    I.p_c = c
    w, g, r = c.v(0), c.v(1), rows(c)
    b, e = span(c.v(2))
    S = lambda k: z3.If(k < N, BEG[k], e)
    A, k, n = z3.Const("A!ax", AR), z3.Int("k!ax"), z3.Int("n!ax")
    defs = [fa([K], SUM[q](K + 1) == SUM[q](K) + w.arr[r[K]] * g.el.f[q][r[K]], r[K]) for q in "gh"]
    defs += [fa([k], OF[q](k) == SUM[q](S(k + 1)) - SUM[q](S(k)), OF[q](k)) for q in "gh"]
    # lemma: sums over consecutive slices add up (by induction over the number of slices)
    ps = PS()
    lem = []
    for q in "gh":
        hyp = lambda A, n: forall_lt(n, lambda k: A[k] == OF[q](k), pats=lambda k: [A[k]])
        con = lambda A, n: ps(A, n) - ps(A, 0) == SUM[q](S(n)) - SUM[q](S(z3.IntVal(0)))
        t = st.fork()
        A1, n1 = z3.Const("A!l", AR), z3.Int("n!l")
        t.assume(z3.And(n1 >= 0, hyp(A1, n1 + 1), z3.Implies(hyp(A1, n1), con(A1, n1))))
        for x in ps_axioms() + defs:
            t.assume(x)
        I.oblige(t, "lemma", con(A1, z3.IntVal(0)), None, "no slice: nothing to add")
        I.oblige(t, "lemma", con(A1, n1 + 1), None, "one slice more adds its sum")
        wit = W[q](A, n)
        lem.append(fa([A, n], z3.Implies(n >= 0, z3.Or(z3.And(wit >= 0, wit < n, A[wit] != OF[q](wit)), con(A, n))), ps(A, n)))
    I.p_defs = defs + lem


def ws_templates(I, st, hv, info):
    """Totals are the sums of the slices done so far."""
    out = []
    cnt = ints(I, st, hv, info)
    for vn, v in vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and set(e.f) == {"g", "h"}):
        al = aliased(st, vn)
        for q in "gh":
            for dn, y in [(n, x) for n, x in cnt if not al] + [(n, lambda s, y=y: y) for n, y in al]:
                out.append(("%s.%s summed below slice %s" % (vn, q, dn), lift(v, y)(lambda v, y, q=q: forall_lt(y, lambda k: v.el.f[q][k] == OF[q](k), pats=lambda k: [v.el.f[q][k]]))))
                for r in (z3.IntVal(0), z3.IntVal(1)):
                    out.append(("%s.%s zero from slice %s+%s" % (vn, q, dn, r), lift(v, y)(lambda v, y, q=q, r=r: forall_lt(N, lambda k: z3.Implies(k >= y + r, v.el.f[q][k] == 0), pats=lambda k: [v.el.f[q][k]]))))
            for dn, y in al:
                for cn, x in terms(I, st, hv, info, INT):
                    for bn, base in (("", 0), ("begin+", BEG[y])):
                        out.append(("%s.%s of slice %s summed below %s%s" % (vn, q, dn, bn, cn), lift(v, x)(lambda v, x, y=y, q=q, base=base: z3.Implies(
                            z3.And(y >= 0, y < N), v.el.f[q][y] == SUM[q](x + base) - SUM[q](BEG[y])))))
    return out


WS = Contract("ComputeWeightedSum", pre=ws_pre, post=ws_post)
UNITS = [Unit("ComputeWeightedSum", WS, TU, uses=[DIV], setup=ws_setup, templates=ws_templates, param_fn=ws_par, axioms=lambda I: I.p_defs + ps_axioms(), global_override_fn=threads,
              solver_opts=dict(NOMBQI, **{"smt.arith.nl": False}), no_frames=True, merge=True)]


# ---- the best feature and its split
TU2 = TU + [("gbdt_algo/split_algo.cc", "gbdt"), ("data_store/column.cc", "gbdt")]
GAIN = z3.Function("gain_of_column", INT, REAL)
HASCAT = z3.Function("categorical_split_of_column", INT, z3.BoolSort())
IDS = z3.Function("left_categories_of_column", INT, INT)
ID = z3.Function("left_category_of_column", INT, INT, INT)
THR = z3.Function("threshold_of_column", INT, REAL)
MISS = z3.Function("missing_right_of_column", INT, z3.BoolSort())


def fields(c, s, a, at=lambda x: x):
    """s (or its entry, through at) is the split that the search finds for column a."""
    k = z3.Int("k!fs")
    cs = s.f["cat_split"]
    return [at(s.f["gain"]) == GAIN(a), at(s.f["has_cat_split"]) == HASCAT(a), at(s.f["float_split"].f["threshold"]) == THR(a), at(s.f["float_split"].f["missing_to_right_child"]) == MISS(a),
            at(cs.f["internal_categorical_index"].len) == IDS(a)]


def ids(s, a):
    ii = s.f["cat_split"].f["internal_categorical_index"]
    return forall_lt(IDS(a), lambda k: ii.el[k] == ID(a, k), pats=lambda k: [ii.el[k]])


def col_strings(c, a):
    return cols.cfield(c, "map_to_strings_", a)


def bs_post(c):
    a, s = c.v(0).addr, c.D(6)
    o = c.d(6)
    return [("named", z3.And(*fields(c, s, a))), ("ids", ids(s, a)),
            ("no names yet", z3.And(s.f["cat_split"].f["category"].len == o.f["cat_split"].f["category"].len))]


BS = Contract("gbdt::FindBestSplit", pre=lambda c: [("fresh split", z3.And(c.d(6).f["cat_split"].f["internal_categorical_index"].len == 0, c.d(6).f["cat_split"].f["category"].len == 0))],
              post=bs_post, modifies=["*6"], trusted=True)
RATE = z3.Int("number_of_sampled_features")
SF = z3.Function("sampled_feature", INT, INT)


def us_result(c, post, rt):
    v = Vec(RATE, fresh_sort(z3.ArraySort(INT, INT), "sampled"))
    return v


US = Contract("gbdt::Subsampling::UniformSubsample", post=lambda c: [("sampled", z3.And(RATE >= 0, RATE <= c.v(0), forall_lt(RATE, lambda k: z3.And(c.r.el[k] == SF(k), SF(k) >= 0, SF(k) < c.v(0)), pats=lambda k: [c.r.el[k]])))], result=us_result)


def fb_post(c):
    feats, s, f = c.v(0), c.r.f["first"], c.r.f["second"]
    A = lambda k: feats.el.addr[SF(k)]
    k, i = z3.Ints("k!fb i!fb")
    a = z3.IntVal(0) if isinstance(f, PPtr) and f.path is None else f.addr
    some = z3.Exists([k], z3.And(k >= 0, k < RATE, GAIN(A(k)) > 0))
    cat = s.f["cat_split"].f["category"]
    return [("a feature exactly when one has a positive gain", (a != 0) == some),
            ("a sampled feature of largest gain", z3.Implies(a != 0, z3.And(z3.Exists([k], z3.And(k >= 0, k < RATE, A(k) == a)), forall_lt(RATE, lambda k: GAIN(A(k)) <= GAIN(a))))),
            ("its split", z3.Implies(a != 0, z3.And(*(fields(c, s, a) + [ids(s, a)])))),
            ("without a feature, no gain", z3.Implies(a == 0, s.f["gain"] == 0)),
            ("labelled with its name", z3.Implies(a != 0, s.f["feature"] == cols.cfield(c, "name_", a))),
            ("and the names of its categories", z3.Implies(z3.And(a != 0, HASCAT(a)), z3.And(cat.len == IDS(a), forall_lt(IDS(a), lambda k: cat.el[k] == col_strings(c, a).el[ID(a, k)], pats=lambda k: [cat.el[k]])))) ]


def fb_par(I, st, i, t, p):
    return slice_param(I, st, "samples") if i == 3 else None


def fb_templates(I, st, hv, info):
    out = []
    c = CallCtx(I, None, None, st, None, I.p_args)
    feats = c.v(0)
    A = lambda k: feats.el.addr[SF(k)]
    cnt = ints(I, st, hv, info)
    for vn, v in vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and "gain" in e.f):
        for cn, x in cnt + [("the end", lambda s: RATE)]:
            e = lambda v: v.el.f["cat_split"].f
            k, j = z3.Ints("k!ft j!ft")
            for i in range(5):
                out.append(("%s field %d below %s" % (vn, i, cn), lift(v, x)(lambda v, x, i=i: forall_lt(x, lambda k: fields(c, v.el, A(k), lambda y: y[k])[i], pats=lambda k: [v.el.f["gain"][k]]))))
            out.append(("%s ids below %s" % (vn, cn), lift(v, x)(lambda v, x: fa([k, j], z3.Implies(z3.And(k >= 0, k < x, j >= 0, j < IDS(A(k))), v.el.f["cat_split"].f["internal_categorical_index"].el[k][j] == ID(A(k), j)), v.el.f["cat_split"].f["internal_categorical_index"].el[k][j]))))
            out.append(("%s fresh from %s" % (vn, cn), lift(v, x)(lambda v, x: forall_lt(v.len, lambda k: z3.Implies(k >= x, z3.And(v.el.f["cat_split"].f["internal_categorical_index"].len[k] == 0, v.el.f["cat_split"].f["category"].len[k] == 0)), pats=lambda k: [v.el.f["gain"][k]]))))
            out.append(("%s no names below %s" % (vn, cn), lift(v, x)(lambda v, x: forall_lt(v.len, lambda k: z3.Implies(k < x, v.el.f["cat_split"].f["category"].len[k] == 0), pats=lambda k: [v.el.f["gain"][k]]))))
    for vn, v in vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and "gain" in e.f):
        for cn, x in terms(I, st, hv, info, INT):
            for dn, y in ints(I, st, hv, info, modified=False):
                ct = lambda v: v.el.f["cat_split"].f["category"]
                out.append(("%s categories of %s named below %s" % (vn, dn, cn), lift(v, x, y)(lambda v, x, y: z3.Implies(HASCAT(A(y)), z3.And(x >= 0, x <= IDS(A(y)), ct(v).len[y] == x, forall_lt(
                    x, lambda k: ct(v).el[y][k] == col_strings(c, A(y)).el[ID(A(y), k)], pats=lambda k: [ct(v).el[y][k]]))))))
    for cn, x in cnt:
        out.append(("%s is 0 or a sampled feature" % cn, lift(x)(lambda x: z3.And(x >= 0, z3.Or(x < RATE, x == 0)))))
        for dn, y in cnt:
            if cn != dn:
                out.append(("%s is the best below %s" % (cn, dn), lift(x, y)(lambda x, y: z3.And(x >= 0, z3.Or(x < y, x == 0), forall_lt(y, lambda k: GAIN(A(k)) <= GAIN(A(x)), pats=lambda k: [SF(k)])))))
    return out


def fb_setup(I, st, this, args):
    st.assume(z3.And(THREADS >= 1, THREADS <= 100000))
    I.p_args = args
    I.heap_root(st, cols.CCLS)
    c = CallCtx(I, None, None, st, None, args)
    a, k = z3.Ints("a!fs k!fs")
    # what the search finds for a column are categories of that column (C11)
    I.p_defs = [fa([a], z3.Implies(HASCAT(a), IDS(a) >= 0), IDS(a)),
                fa([a, k], z3.Implies(z3.And(HASCAT(a), k >= 0, k < IDS(a)), z3.And(ID(a, k) >= 0, ID(a, k) < col_strings(c, a).len)), ID(a, k))]


FB = Contract("FindBestFeatureAndSplit", pre=lambda c: [("features", forall_lt(c.v(0).len, lambda k: c.v(0).el.addr[k] > 0, pats=lambda k: [c.v(0).el.addr[k]]))], post=fb_post)
UNITS.append(Unit("FindBestFeatureAndSplit", FB, TU2, uses=[US, BS], setup=fb_setup, templates=fb_templates, param_fn=fb_par, global_override_fn=threads, solver_opts=NOMBQI, no_frames=True, merge=True, ground_quick=300, inv_timeout=1500, axioms=lambda I: I.p_defs))
BOUNDED = ["FitTreeToGradients (a priority queue of pointers into the growing tree) is out of reach: node scores, best-first order, leaf limit and labels are checked on the real code "
           "by the replay harness c12.cc only, on at most 40 rows, 4 features and 12 leaves"]
TRUSTED = ["FindBestSplit writes a split that is a function of the column for the given rows (its contract is C09 to C11)", "std::accumulate is the sum of the entries"]
ASSUMPTIONS = ["real arithmetic: rounding is not modelled", "thread pool runs every task exactly once before its destructor returns; tasks run one after another in the proof",
               "weights are functions of the row", "number of threads between 1 and 100000"]
HARNESS = dict(src="c12.cc", timeout=200)
