"""C22 Checkpoints of an evaluation."""
from spec import *
from tmpl import *
TU = [("gbdt_algo/utils.cc", "gbdt")]
TE = [("gbdt_algo/compute_tree_scores.cc", "gbdt"), ("gbdt_algo/evaluation.cc", "gbdt"), ("gbdt_algo/evaluation.cc", "DataStore")]
AR = z3.ArraySort(z3.IntSort(), z3.RealSort())
ROWS = z3.Const("num_rows", z3.IntSort())


def gtp_post(c):
    e, n, r = c.v(0).f["eval_interval"], c.v(1), c.r
    last = z3.Implies(r.len > 0, r.el[r.len - 1] == n)
    step = forall_lt(r.len - 1, lambda k: r.el[k + 1] - r.el[k] == e, pats=lambda k: [r.el[k]])
    return [("just the forest's size without an interval", z3.Implies(e <= 0, z3.And(r.len == 1, r.el[0] == n))),
            ("end at the forest's size", z3.Implies(z3.And(e > 0, n > 0), z3.And(r.len > 0, last))),
            ("steps of the interval", z3.Implies(e > 0, step)),
            ("down to the smallest positive value", z3.Implies(z3.And(e > 0, n > 0), z3.And(r.len > 0, r.el[0] > 0, r.el[0] <= e))),
            ("none for an empty forest", z3.Implies(z3.And(e > 0, n <= 0), r.len == 0))]


def gtp_templates(I, st, hv, info):
    out = []
    e, n = I.p_e, I.p_n
    for vn, v in vecs(I, st, hv, info, is_int_arr):
        out.append(("%s steps down" % vn, lift(v)(lambda v: forall_lt(v.len - 1, lambda k: v.el[k] - v.el[k + 1] == e, pats=lambda k: [v.el[k + 1]]))))
        out.append(("%s steps up" % vn, lift(v)(lambda v: forall_lt(v.len - 1, lambda k: v.el[k + 1] - v.el[k] == e, pats=lambda k: [v.el[k]]))))
        out.append(("%s all positive" % vn, lift(v)(lambda v: forall_lt(v.len, lambda k: v.el[k] > 0, pats=lambda k: [v.el[k]]))))
        out.append(("%s starts at the size" % vn, lift(v)(lambda v: z3.Implies(v.len > 0, v.el[0] == n))))
        for cn, c in ints(I, st, hv, info):
            out.append(("%s follows %s" % (cn, vn), lift(v, c)(lambda v, c: c == z3.If(v.len == 0, n, v.el[v.len - 1] - e))))
            out.append(("%s positive" % vn, lift(v, c)(lambda v, c: z3.Implies(v.len > 0, v.el[v.len - 1] > 0))))
            out.append(("|%s| and %s" % (vn, cn), lift(v, c)(lambda v, c: z3.And(c <= n, v.len + c <= n))))
            out.append(("%s above -interval" % cn, lift(v, c)(lambda v, c: z3.Or(c == n, c > -e))))
    return out


def gtp_setup(I, st, this, args):
    I.p_e, I.p_n = I.load_quiet(st, args[0].path).f["eval_interval"], I.load_quiet(st, args[1].path)


GTP = Contract("GetTestPoints", post=gtp_post, params=["Config", "int"])

# ---- EvaluateForest
ADD = lambda I: z3.Function("plus_tree", AR, I.tree().sort, AR)     # scores after adding a tree's score to every row (C02)
PRE = z3.Function("sum_of_first", z3.IntSort(), AR)
WR = "ghost:written"
SETS = z3.ArraySort(AR, z3.BoolSort())

LOADF = Contract("LoadFeatures", modifies=[])
COLLECT = Contract("CollectAllFeatures", params=["Forest"])
CTSC = Contract("ComputeTreeScores::ComputeTreeScores", modifies=["this"], params=["DataStore"])


def ats_post(c):
    old, new = c.d(1), c.D(1)
    return [("size", new.len == old.len), ("every row", new.el == ADD(c.I)(old.el, c.v(0)))]


ATS = Contract("ComputeTreeScores::AddTreeScores", pre=lambda c: [("one score per row", c.d(1).len == ROWS)], post=ats_post, modifies=["*1"],
               params=["TreeNode", "vector"])
WSF = Contract("WriteScoreFile", pre=lambda c: [("one score per row", c.v(1).len == ROWS)], modifies=[WR],
               post=lambda c: [("written", z3.Implies(c.r, c.post.store[WR] == z3.Store(c.st.store[WR], c.v(1).el, TRUE)))])
NR = Contract("DataStore::num_rows", value=lambda c: ROWS)


def ev_setup(I, st, this, args):
    k = z3.Int("k!pre")
    I.p_forest = I.load_quiet(st, args[1].path).f["tree"]
    I.p_points = I.load_quiet(st, args[2].path)
    f = I.p_forest
    n = I.tree()
    zero = z3.K(z3.IntSort(), z3.RealVal(0))
    st.assume(z3.And(ROWS >= 0, ROWS <= MAXSZ))
    st.assume(forall_lt(f.len, lambda k: z3.Not(n.is_none(f.el[k])), pats=lambda k: [f.el[k]]))
    I.global_facts += [PRE(0) == zero, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < f.len), PRE(k + 1) == ADD(I)(PRE(k), f.el[k])),
                                                 patterns=[f.el[k]])]
    if len(args) > 3:
        st.store[WR] = z3.K(AR, FALSE)


def ev_post(c):
    p, f = c.v(2), c.v(1).f["tree"]
    ok = c.r.f["code"] == 0
    W = c.post.store[WR]
    return [("scores of every requested checkpoint", z3.Implies(ok, forall_lt(p.len, lambda k: z3.Implies(
        z3.And(p.el[k] >= 1, p.el[k] <= f.len), W[PRE(p.el[k])]), pats=lambda k: [p.el[k]])))]


def ev_templates(I, st, hv, info):
    out = []
    p = I.p_points
    ls = st.ghost.get("lastsort")
    W = lambda s: s.store.get(WR)
    vs = vecs(I, st, hv, info, is_int_arr)
    cs = [x for m in (True, False) for x in ints(I, st, hv, info, modified=m) if not x[0].endswith(".code")] + [("0", lambda s: z3.IntVal(0))]
    r = st.ghost.get("sorted")
    for vn, v in vs:
        if ls is None or r is None:
            continue
        head = lambda v: r[p.len - v.len]
        out.append(("%s is a tail of the sorted points" % vn, lift(v)(lambda v: z3.And(v.len <= p.len, forall_lt(v.len, lambda k: v.el[k] == r[k + p.len - v.len],
                                                                                                                pats=lambda k: [v.el[k]])))))
        out.append(("points before %s are done" % vn, lift(v, W)(lambda v, W: qall(lambda k: (z3.Implies(
            z3.And(k >= 0, k < p.len - v.len), z3.Or(r[k] < 1, W[PRE(r[k])])), [r[k]])))))
        for cn, c in cs:
            out.append(("%s is empty or begins above %s" % (vn, cn), lift(v, c)(lambda v, c: z3.Or(v.len == 0, head(v) > c))))
            out.append(("%s is empty or begins above %s or its first point is done" % (vn, cn), lift(v, c, W)(lambda v, c, W: z3.Or(
                v.len == 0, head(v) > c + 1, z3.And(head(v) == c + 1, W[PRE(c + 1)])))))
    for vn, v in vecs(I, st, hv, info, is_real_arr):
        out.append(("|%s|" % vn, lift(v)(lambda v: v.len == ROWS)))
        for cn, c in ints(I, st, hv, info):
            out.append(("%s sums the first %s trees" % (vn, cn), lift(v, c)(lambda v, c: v.el == PRE(c))))
    return out


DSOK = lambda c: [("a data store", c.v(0).addr != 0)]
EVF = Contract("EvaluateForest", pre=DSOK, post=ev_post, modifies=[WR, "*0"], params=["DataStore", "Forest", "list", "string"])


def ev2_post(c):
    f = c.v(1).f["tree"]
    ok = c.r.f["code"] == 0
    k = z3.Int("k!e2")
    return [("scores of the whole forest", z3.Implies(ok, z3.And(c.D(2).len == ROWS, c.D(2).el == PRE(f.len))))]


EVS = Contract("EvaluateForest", pre=DSOK, post=ev2_post, modifies=["*2", "*0"], params=["DataStore", "Forest", "vector"])
USES = [LOADF, COLLECT, CTSC, ATS, WSF, NR]
UNITS = [Unit("GetTestPoints", GTP, TU, setup=gtp_setup, templates=gtp_templates),
         Unit("EvaluateForest (files)", EVF, TE, uses=USES, setup=ev_setup, templates=ev_templates),
         Unit("EvaluateForest (scores)", EVS, TE, uses=USES, setup=ev_setup, templates=ev_templates)]
ASSUMPTIONS = ["WriteScoreFile writes what it is given (file system; the replay harness reads the files back)",
               "AddTreeScores adds the tree's score of each row (property C02)"]
HARNESS = dict(src="c22.cc")
