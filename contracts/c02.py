"""C02 A prediction is the sum of one leaf score per tree, per row."""
from spec import *
from tmpl import *
from trees import part, split_of, is_none
from cols import CCLS
import c01, c22
TU = [("gbdt_algo/compute_tree_scores.cc", "gbdt"), ("gbdt_algo/compute_tree_scores.cc", "VectorSlice"), ("gbdt_algo/compute_tree_scores.cc", "DataStore"),
      ("gbdt_algo/split_algo.cc", "gbdt"), ("gbdt_algo/split_algo.cc", "VectorSlice"), ("utils/subsampling.cc", "gbdt")]
INT = z3.IntSort()
ROWS = z3.Const("num_rows", INT)
COLOF = z3.Function("column_named", Str, INT)


def GL(split, feat, row):
    """The split sends the row left: c01.gets_left_any for this split and column (columns do not change), by name only."""
    ls = [l for _, l in leaves(split)]
    f = z3.Function("gets_left", *([l.sort() for l in ls] + [INT, INT, z3.BoolSort()]))
    return f(*(ls + [feat, row]))


def LS(I, t, row):
    """Score of the leaf that the row is routed to."""
    return z3.Function("leaf_score", I.tree().sort, INT, z3.RealSort())(t, row)


def FIT(I, t):
    """The tree is complete and its splits are of the kind of their columns."""
    return z3.Function("fits_columns", I.tree().sort, z3.BoolSort())(t)


def ctype(c, feat):
    return lsel(c.hp(CCLS, "type_"), feat)


def unfold(I, c, t):
    k = z3.Int("k!ls")
    l, r, sp = part(I, t, "left_child"), part(I, t, "right_child"), split_of(I, t)
    feat = COLOF(sp.f["feature"])
    leaf = is_none(I, l)
    ty = ctype(c, feat)
    return [z3.ForAll([k], LS(I, t, k) == z3.If(leaf, part(I, t, "score"), z3.If(GL(sp, feat, k), LS(I, l, k), LS(I, r, k))), patterns=[LS(I, t, k)]),
            z3.Implies(z3.And(FIT(I, t), z3.Not(leaf)), z3.And(part(I, t, "has_split"), z3.Not(is_none(I, r)), FIT(I, l), FIT(I, r), z3.Implies(ty == 1, sp.f["has_float_split"]),
                                                               z3.Implies(ty == 0, sp.f["has_cat_split"])))]


def columns_ok(c):
    """Every column of the store has a row per row of the store and holds bucket or category numbers (C05, C07, C08)."""
    n = z3.Const("n!col", Str)
    f = COLOF(n)
    import cols
    j = z3.Int("j!col")
    rd = cols.reader(c, f)
    bm = cols.cfield(c, "bucket_maxs_", f)
    enc = z3.Or(ctype(c, f) == 0, ctype(c, f) == 1)
    return [("columns have a reader", fa([n], z3.Implies(z3.And(f != 0, enc), z3.And(rd != 0, cols.COLN(rd) == ROWS)), f)),
            ("bucket numbers", fa([n, j], z3.Implies(z3.And(f != 0, ctype(c, f) == 1, j >= 0, j < ROWS), z3.And(cols.COLV(rd, j) >= 0, cols.COLV(rd, j) < bm.len)),
                                  z3.MultiPattern(f, cols.COLV(rd, j))))]


def got(c, post, rt):
    a = fresh_sort(INT, "column")
    post.assume(a == COLOF(c.v(0)))
    return RPtr(CCLS, a)


GET = Contract("DataStore::GetColumn", result=got)


def span(s):
    return s.f["begin_"].pos, s.f["end_"].pos


def rearranged(old, new, b, e):
    """The places in [b,e) are permuted (what c01.permuted proves, with the rearrangement and its inverse named)."""
    P, Q = z3.Function(str(fresh_sort(INT, "perm")), INT, INT), z3.Function(str(fresh_sort(INT, "inv")), INT, INT)
    k = z3.Int("k!re")
    inside = z3.And(k >= b, k < e)
    return [("places", z3.And(fa([k], z3.Implies(inside, z3.And(new[k] == old[P(k)], P(k) >= b, P(k) < e, Q(P(k)) == k)), new[k]),
                              fa([k], z3.Implies(inside, z3.And(new[Q(k)] == old[k], Q(k) >= b, Q(k) < e, P(Q(k)) == k)), old[k]))),
            ("others", z3.And(fa([k], z3.Implies(z3.Not(inside), new[k] == old[k]), new[k]), fa([k], z3.Implies(z3.Not(inside), new[k] == old[k]), old[k])))]


def pa_post(c):
    split, feat, sl = c.v(1), c.v(0).addr, c.v(2)
    cont = sl.f["begin_"].cont
    b, e = span(sl)
    old, new = c._ld(c.st, cont), c._ld(c.post, cont)
    m = c.r.f["first"].f["end_"].pos
    k = z3.Int("k!pa")
    return [("groups", z3.And(span(c.r.f["first"])[0] == b, span(c.r.f["second"])[0] == m, span(c.r.f["second"])[1] == e, b <= m, m <= e, new.len == old.len)),
            ("left", fa([k], z3.Implies(z3.And(k >= b, k < m), GL(split, feat, new.el[k])), new.el[k])),
            ("right", fa([k], z3.Implies(z3.And(k >= m, k < e), z3.Not(GL(split, feat, new.el[k]))), new.el[k]))] + rearranged(old.el, new.el, b, e)


PA = Contract("gbdt::Partition", pre=c01.pre("any"), post=pa_post, params=["Column", "Split", "VectorSlice"], modifies=["~2"], result=c01.result)


def distinct(a, b, e):
    i, j = z3.Ints("i!di j!di")
    return fa([i, j], z3.Implies(z3.And(i >= b, i < j, j < e), a[i] != a[j]), z3.MultiPattern(a[i], a[j]))


def within(a, b, e):
    k = z3.Int("k!wi")
    return fa([k], z3.Implies(z3.And(k >= b, k < e), z3.And(a[k] >= 0, a[k] < ROWS)), a[k])


def as_pre(c):
    I, t, sl = c.I, c.d(1), c.v(3)
    I.global_facts += unfold(I, c, t)
    u = c._ld(c.st, sl.f["begin_"].cont)
    b, e = span(sl)
    return [("a data store", c.v(0).addr != 0), ("a tree", z3.And(z3.Not(is_none(I, t)), FIT(I, t))), ("a score per row", z3.And(ROWS >= 0, c.d(4).len == ROWS)),
            ("slice", z3.And(b >= 0, b <= e, e <= u.len)), ("rows exist", within(u.el, b, e)), ("no row twice", distinct(u.el, b, e))] + columns_ok(c)


def as_scores(c):
    I, t, sl = c.I, c.d(1), c.v(3)
    a = c._ld(c.st, sl.f["begin_"].cont).el
    b, e = span(sl)
    S, T, k, r = c.d(4), c.D(4), z3.Int("k!as"), z3.Int("r!as")
    return [("a score per row", T.len == S.len),
            ("every given row once", fa([k], z3.Implies(z3.And(k >= b, k < e), T.el[a[k]] == S.el[a[k]] + c.v(2) + LS(I, t, a[k])), a[k])),
            ("no other row", fa([r], z3.Or(T.el[r] == S.el[r], z3.Exists([k], z3.And(k >= b, k < e, a[k] == r))), T.el[r]))]


def as_post(c):
    sl = c.v(3)
    old, new = c._ld(c.st, sl.f["begin_"].cont), c._ld(c.post, sl.f["begin_"].cont)
    b, e = span(sl)
    i, k = z3.Ints("i!ap k!ap")
    ex = lambda x, y: fa([k], z3.Implies(z3.And(k >= b, k < e), z3.Exists([i], z3.And(i >= b, i < e, x[i] == y[k]))), y[k])
    return as_scores(c) + [("rows kept", ex(new.el, old.el)), ("no row added", ex(old.el, new.el)), ("still no row twice", distinct(new.el, b, e)),
                           ("rows outside the slice stay", fa([k], z3.Implies(z3.Or(k < b, k >= e), new.el[k] == old.el[k]), new.el[k])), ("as many", new.len == old.len)]


def as_used(c):
    sl = c.v(3)
    old, new = c._ld(c.st, sl.f["begin_"].cont), c._ld(c.post, sl.f["begin_"].cont)
    return as_scores(c) + rearranged(old.el, new.el, *span(sl)) + [("as many", new.len == old.len)]


ARGS = dict(pre=as_pre, modifies=["~3", "*4"], params=["DataStore", "TreeNode", "double", "VectorSlice", "vector"])
AS = Contract("gbdt::AddSampleTreeScores", post=as_post, **ARGS)
ASU = Contract("gbdt::AddSampleTreeScores", post=as_used, **ARGS)     # the same facts with the rearrangement named


def as_setup(I, st, this, args):
    I.heap_root(st, CCLS)
    I.p_args, I.p_entry = args, st.fork()
    I.p_scores, I.p_c = I.load_quiet(st, args[4].path).path, I.load_quiet(st, args[2].path)
    I.p_slice = I.load_quiet(st, args[3].path)
    I.p_tree = I.load_quiet(st, I.load_quiet(st, args[1].path).path)


def as_templates(I, st, hv, info):
    out = []
    S0 = I.load_quiet(I.p_entry, I.p_scores)
    b, e = span(I.p_slice)
    a = I.load_quiet(I.p_entry, I.p_slice.f["begin_"].cont).el
    g = getter(I, I.p_scores)
    val = part(I, I.p_tree, "score") + I.p_c
    k, r = z3.Ints("k!at r!at")
    for cn, x in ints(I, st, hv, info):
        for nm, y in ((cn, x), ("offset " + cn, lift(x)(lambda x: b + x))):
            out.append(("rows before %s are scored" % nm, lift(g, y)(lambda T, y: fa([k], z3.Implies(z3.And(k >= b, k < y), T.el[a[k]] == S0.el[a[k]] + val), a[k]))))
            out.append(("rows from %s are not" % nm, lift(g, y)(lambda T, y: fa([k], z3.Implies(z3.And(k >= y, k < e), T.el[a[k]] == S0.el[a[k]]), a[k]))))
    out.append(("other rows are not scored", lift(g)(lambda T: fa([r], z3.Or(T.el[r] == S0.el[r], z3.Exists([k], z3.And(k >= b, k < e, a[k] == r))), T.el[r]))))
    out.append(("a score per row", lift(g)(lambda T: T.len == S0.len)))
    return out


# ---- ComputeTreeScores
def at_pre(c):
    I, o, t = c.I, c.t, c.v(0)
    I.global_facts += unfold(I, c, t)
    return [("a data store", o.f["data_store_"].addr != 0), ("a tree", z3.And(z3.Not(is_none(I, t)), FIT(I, t))), ("a score per row", z3.And(ROWS >= 0, ROWS <= MAXSZ, c.d(-1 + len(c.args)).len == ROWS))] \
        + samples_ok(o) + slices_ok(o) + columns_ok(c)


def samples_ok(o):
    A, r, k = o.f["allsamples_"], z3.Int("r!so"), z3.Int("k!so")
    return [("a place per row", A.len == ROWS), ("rows", within(A.el, 0, ROWS)), ("no row twice", distinct(A.el, 0, ROWS))]


def slices_ok(o):
    v, k = o.f["slices_"], z3.Int("k!sl")
    a, b = v.el.f["begin_"].pos, v.el.f["end_"].pos
    return [("some slice", v.len >= 1), ("slices of rows", fa([k], z3.Implies(z3.And(k >= 0, k < v.len), z3.And(a[k] >= 0, a[k] <= b[k], b[k] <= ROWS)), a[k])),
            ("from the first to the last row", z3.And(a[0] == 0, b[v.len - 1] == ROWS)),
            ("consecutive", fa([k], z3.Implies(z3.And(k >= 0, k < v.len - 1), a[k + 1] == b[k]), b[k]))]


def at_post(c):
    I, t = c.I, c.v(0)
    n = len(c.args)
    S, T, r = c.d(n - 1), c.D(n - 1), z3.Int("r!ap")
    const = c.v(1) if n == 3 else z3.RealVal(0)
    return [("a score per row", T.len == ROWS), ("every row gets its leaf's score once",
                                                 fa([r], z3.Implies(z3.And(r >= 0, r < ROWS), T.el[r] == S.el[r] + const + LS(I, t, r)), T.el[r]))] + samples_ok(c.T)


def at_setup(I, st, this, args):
    I.heap_root(st, CCLS)
    I.p_this = this
    I.p_t, I.p_S = I.load_quiet(st, args[0].path), I.load_quiet(st, args[-1].path).path
    I.p_c = I.load_quiet(st, args[1].path) if len(args) == 3 else z3.RealVal(0)
    A = F(this, "allsamples_")
    n, arr = fresh_sort(INT, "slices"), lambda x: fresh_sort(z3.ArraySort(INT, INT), x)
    I.save(st, F(this, "slices_"), Vec(n, Obj("VectorSlice<unsigned int>", {"begin_": Iter(A, arr("first")), "end_": Iter(A, arr("last"))})))
    # the rows in samples_ are all rows (distinct and as many: pigeonhole, see DESIGN.md)
    S, a = I.load_quiet(st, I.p_S), I.load_quiet(st, A)
    W, r = z3.Function("place_of", INT, INT), z3.Int("r!pl")
    st.assume(fa([r], z3.Implies(z3.And(r >= 0, r < ROWS), z3.And(W(r) >= 0, W(r) < ROWS, a.el[W(r)] == r)), S.el[r]))
    I.p_entry = st.fork()


def at_templates(I, st, hv, info):
    out = []
    S0 = I.load_quiet(I.p_entry, I.p_S)
    sl = I.load_quiet(I.p_entry, F(I.p_this, "slices_"))
    a = sl.el.f["begin_"].pos
    start = lambda k: z3.If(k < sl.len, a[k], ROWS)
    r, k = z3.Ints("r!tt k!tt")
    g, A = getter(I, I.p_S), getter(I, F(I.p_this, "allsamples_"))
    for cn, x in ints(I, st, hv, info) + [("end", lambda s: sl.len)]:
        out.append(("slices before %s are scored" % cn, lift(g, A, x)(lambda T, A, x: fa([r], z3.Implies(z3.And(r >= 0, r < ROWS), z3.Exists([k], z3.And(
            k >= 0, k < ROWS, A.el[k] == r, T.el[r] == S0.el[r] + z3.If(k < start(x), I.p_c + LS(I, I.p_t, r), z3.RealVal(0))))), S0.el[r]))))
    for nm, f in (("rows", lambda A: within(A.el, 0, ROWS)), ("no row twice", lambda A: distinct(A.el, 0, ROWS)), ("places", lambda A: A.len == ROWS)):
        out.append((nm, lift(A)(f)))
    out.append(("a score per row", lift(g)(lambda T: T.len == ROWS)))
    return out


AT3 = Contract("gbdt::ComputeTreeScores::AddTreeScores", pre=at_pre, post=at_post, modifies=["this.allsamples_", "*2"], params=["TreeNode", "double", "vector"])
AT2 = Contract("gbdt::ComputeTreeScores::AddTreeScores", pre=at_pre, post=at_post, modifies=["this.allsamples_", "*1"], params=["TreeNode", "vector"])
EVS = [u for u in c22.UNITS if u.name == "EvaluateForest (scores)"]
UNITS = [Unit("AddSampleTreeScores", AS, TU, uses=[PA, ASU, GET], setup=as_setup, templates=as_templates, abort_ok=True, solver_opts=NOMBQI, no_frames=True, param_fn=lambda I, st, i, t, p: slice_param(I, st, "samples") if i == 3 else None),
         Unit("AddTreeScores(tree, constant, scores)", AT3, TU, uses=[ASU], setup=at_setup, templates=at_templates, solver_opts=NOMBQI, no_frames=True),
         Unit("AddTreeScores(tree, scores)", AT2, TU, uses=[AT3], setup=at_setup)] + EVS
ASSUMPTIONS = ["columns have as many rows as the store and hold valid bucket and category numbers (C05, C07, C08); splits are of the kind of their columns",
               "Partition permutes the slice (C01; the rearrangement and its inverse are named here, by the pigeonhole principle)",
               "scores are real numbers in the proof", "tasks run one after another here; that they are independent is property C27"]
HARNESS = dict(src="c02.cc")
