"""C19 The boosted model is the constant plus base trees plus one tree per round."""
from spec import *
from tmpl import *
from trees import part, is_none
from c20 import trees_exist
TU = [("gbdt_algo/gbdt_algo.cc", "gbdt"), ("gbdt_algo/utils.cc", "gbdt"), ("gbdt_algo/compute_tree_scores.cc", "gbdt"), ("gbdt_algo/tree_algo.cc", "gbdt"), ("data_store/data_store.cc", "gbdt"), ("utils/stopwatch.cc", "gbdt")]
INT, REAL = z3.IntSort(), z3.RealSort()
ROW, ROWS = z3.Ints("some_row num_rows")          # an arbitrary row of the store
RD = "ghost:rounds"                                # gradient computations so far
CONST = z3.Function("constant_of_round", INT, REAL)
NB = z3.Function("inner_trees_among_first", INT, INT)
CB = z3.Function("constant_of_first", INT, REAL)
SC = z3.Function("sum_of_constants", INT, REAL)
BAD = z3.Function("not_finite", REAL, z3.BoolSort())


class Fn:
    """Functions over trees."""
    def __init__(self, I):
        T = I.tree().sort
        A = z3.ArraySort(INT, T)
        self.I = I
        self.LS = z3.Function("leaf_score_of_row", T, REAL)
        self.SHR = z3.Function("shrunk_by", T, REAL, T)
        self.CLR = z3.Function("cleaned", T, T)
        self.FIT = z3.Function("fitted_in_round", INT, T)
        self.TS = z3.Function("leaf_scores_of_trees", A, INT, REAL)     # trees 1..n-1
        self.A, self.T = A, T

    def single(self, t):
        return is_none(self.I, part(self.I, t, "left_child"))

    def axioms(self):
        I, a, t, n, j = self.I, z3.Const("a!ts", self.A), z3.Const("t!ts", self.T), z3.Int("n!ts"), z3.Int("j!ts")
        return [fa([a], self.TS(a, 1) == 0, self.TS(a, 1)),
                # the sum over one tree more, and what is stored beyond or before the summed trees does not matter
                fa([a, n, t], z3.Implies(n >= 1, self.TS(z3.Store(a, n, t), n + 1) == self.TS(a, n) + self.LS(t)), z3.MultiPattern(self.TS(a, n), z3.Store(a, n, t))),
                fa([a, n, j, t], z3.Implies(z3.And(n >= 1, z3.Or(j >= n, j < 1)), self.TS(z3.Store(a, j, t), n) == self.TS(a, n)), z3.MultiPattern(self.TS(a, n), z3.Store(a, j, t))),
                fa([a, n, j, t], z3.Implies(z3.And(n >= 1, z3.Or(j >= n, j < 1)), self.TS(z3.Store(a, j, t), n) == self.TS(a, n)), self.TS(z3.Store(a, j, t), n)),
                fa([t], z3.Implies(self.single(t), self.LS(t) == part(I, t, "score")), self.LS(t)),
                fa([t], z3.And(part(I, self.CLR(t), "score") == part(I, t, "score"), self.single(self.CLR(t)) == self.single(t), z3.Not(is_none(I, self.CLR(t))) == z3.Not(is_none(I, t))), self.CLR(t))]


def score(c, k, v):
    return part(c.I, v.el[k], "score")


# ---- callees
def at_post(n):
    def post(c):
        F_ = Fn(c.I)
        S, T = c.d(n - 1), c.D(n - 1)
        k = c.v(1) if n == 3 else z3.RealVal(0)
        return [("a score per row", T.len == S.len), ("score of the row", T.el[ROW] == S.el[ROW] + k + F_.LS(c.v(0)))]
    return post


AT2 = Contract("gbdt::ComputeTreeScores::AddTreeScores", post=at_post(2), modifies=["*1"], params=["TreeNode", "vector"])
AT3 = Contract("gbdt::ComputeTreeScores::AddTreeScores", post=at_post(3), modifies=["*2"], params=["TreeNode", "double", "vector"])
SHRINK = Contract("ApplyShrinkage", post=lambda c: [("shrunk", c.D(0) == Fn(c.I).SHR(c.d(0), c.v(1))), ("a tree", z3.Not(is_none(c.I, c.D(0))))], modifies=["*0"], params=["TreeNode", "float"])


def clean_post(c):
    a, b = c.d(0).f["tree"], c.D(0).f["tree"]
    return [("every tree", z3.And(a.len == b.len, forall_lt(a.len, lambda k: b.el[k] == Fn(c.I).CLR(a.el[k]), pats=lambda k: [b.el[k]])))]


CLEAN = Contract("ClearInternalFields", pre=lambda c: [("trees", trees_exist(c.I, c.d(0)))], post=clean_post, modifies=["*0.tree"], params=["Forest"])
CHECK = Contract("gbdt::CheckConfig", post=lambda c: [("some rounds", z3.Implies(c.r.f["code"] == 0, c.v(0).f["num_trees"] > 0))])
LOAD = Contract("gbdt::LoadFeatures", modifies=["*2"])
INITL = Contract("gbdt::LossFunc::Init")
GROUP = Contract("gbdt::GetGroupOrDie")
NROWS = Contract("gbdt::DataStore::num_rows", value=lambda c: ROWS)
CTS = Contract("gbdt::ComputeTreeScores::ComputeTreeScores")


def model_score(c, v):
    """Prediction of the model so far for the row."""
    return score(c, 0, v) + Fn(c.I).TS(v.el, v.len)


def grad_pre(c):
    v = c.I.load_quiet(c.st, c.I.p_forest).f["tree"]
    f = c.v(0)
    return [("gradients at the prediction of the model so far", f.el[ROW] == model_score(c, v)), ("a score per row", f.len == ROWS),
            ("one gradient computation per tree", v.len == c.I.p_before + c.st.store[RD])]


def grad_post(c):
    n = c.st.store[RD]
    return [("constant of the round", c.D(1) == CONST(n)), ("rounds", c.post.store[RD] == n + 1)]


GRAD = Contract("gbdt::LossFunc::ComputeFunctionalGradientsAndHessians", pre=grad_pre, post=grad_post, modifies=["*1", "*2", "*3", RD])
FITC = Contract("gbdt::FitTreeToGradients", pre=lambda c: [("gradients of this round", c.I.load_quiet(c.st, c.I.p_forest).f["tree"].len == c.I.p_before + c.st.store[RD])],
                value=lambda c: Fn(c.I).FIT(c.st.store[RD] - 1))
QUIET = [Contract("gbdt::StopWatch::" + f, modifies=["this"]) for f in ("Start", "End", "Reset")] + [Contract("gbdt::StopWatch::ElapsedTimeInMSecs"), Contract("gbdt::StopWatch::MSecsToFormattedString"),
                                                                                                     Contract("MetaInfo")]


# ---- InitializeWithBaseForest
def base_facts(I, base):
    F_ = Fn(I)
    v = base.f["tree"]
    n = z3.Int("n!b")
    return F_.axioms() + [NB(0) == 0, CB(0) == 0, fa([n], z3.Implies(z3.And(n >= 0, n < v.len), z3.And(
        NB(n + 1) == NB(n) + z3.If(F_.single(v.el[n]), 0, 1), NB(n) >= 0, NB(n) <= n, CB(n + 1) == CB(n) + z3.If(F_.single(v.el[n]), part(I, v.el[n], "score"), z3.RealVal(0)))), v.el[n]),
        forall_lt(v.len, lambda k: z3.Not(is_none(I, v.el[k])), pats=lambda k: [v.el[k]])]


def base_copied(I, v, base, upto):
    F_ = Fn(I)
    b = base.f["tree"]
    return forall_lt(upto, lambda k: z3.Implies(z3.Not(F_.single(b.el[k])), z3.And(NB(k) < v.len - 1, NB(k) >= 0, v.el[1 + NB(k)] == b.el[k])), pats=lambda k: [b.el[k]])


def in_pre(c):
    v = c.d(2).f["tree"]
    return [("only the constant tree", v.len == 1), ("it is a single node", z3.And(Fn(c.I).single(v.el[0]), z3.Not(is_none(c.I, v.el[0])))), ("a score per row", c.d(3).len == ROWS)]


def in_post(c):
    I, F_ = c.I, Fn(c.I)
    base, v, w = c.d(0), c.D(2).f["tree"], c.d(2).f["tree"]
    n = base.f["tree"].len
    return [("one tree per inner tree", v.len == 1 + NB(n)), ("base trees in order", base_copied(I, v, base, n)),
            ("first tree is a single node", z3.And(F_.single(v.el[0]), z3.Not(is_none(I, v.el[0])))),
            ("trees", trees_exist(I, c.D(2))),
            ("constants of the base forest", score(c, 0, v) == score(c, 0, w) + CB(n)),
            ("scores are those of the model", z3.And(c.D(3).len == ROWS, c.D(3).el[ROW] - c.d(3).el[ROW] == CB(n) + F_.TS(v.el, v.len)))]


def in_setup(I, st, this, args):
    st.assume(z3.And(ROW >= 0, ROW < ROWS, ROWS <= MAXSZ))
    L = lambda i: I.load_quiet(st, args[i].path).path
    I.p_base, I.p_forest, I.p_f = I.load_quiet(st, L(0)), L(2), L(3)
    I.p_entry = st.fork()


def in_templates(I, st, hv, info):
    out = []
    F_ = Fn(I)
    g, h = getter(I, I.p_forest), getter(I, I.p_f)
    w, f0 = I.load_quiet(I.p_entry, I.p_forest).f["tree"], I.load_quiet(I.p_entry, I.p_f)
    T = lambda o: o.f["tree"]
    out.append(("first tree is a single node", lift(g)(lambda o: z3.And(F_.single(T(o).el[0]), z3.Not(is_none(I, T(o).el[0]))))))
    out.append(("trees", lift(g)(lambda o: trees_exist(I, o))))
    out.append(("a score per row", lift(h)(lambda f: f.len == ROWS)))
    for cn, x in ints(I, st, hv, info):
        out.append(("one tree per inner tree below %s" % cn, lift(g, x)(lambda o, x: T(o).len == 1 + NB(x))))
        out.append(("base trees below %s" % cn, lift(g, x)(lambda o, x: base_copied(I, T(o), I.p_base, x))))
        out.append(("constants below %s" % cn, lift(g, x)(lambda o, x: part(I, T(o).el[0], "score") == part(I, w.el[0], "score") + CB(x))))
        out.append(("scores below %s" % cn, lift(g, h, x)(lambda o, f, x: f.el[ROW] - f0.el[ROW] == CB(x) + F_.TS(T(o).el, T(o).len))))
    return out


INITB = Contract("InitializeWithBaseForest", pre=in_pre, post=in_post, modifies=["*2.tree", "*3"])


# ---- TrainGBDT
def base_of(c):
    return c.d(6) if c.I.p_base is not None else None


def tr_pre(c):
    return [("a data store", c.v(0).addr != 0), ("a loss", c.v(4).addr != 0), ("an empty forest", c.d(7).f["tree"].len == 0)]


def tr_post(c):
    I, F_ = c.I, Fn(c.I)
    ok = c.r.f["code"] == 0
    v, cfg = c.D(7).f["tree"], c.v(5)
    n, m = I.p_before - 1, cfg.f["num_trees"]
    out = [("one tree per round", v.len == I.p_before + m), ("first tree is a single node", F_.single(v.el[0])),
           ("constant", score(c, 0, v) == (CB(I.p_base.f["tree"].len) if I.p_base is not None else 0) + SC(m)),
           ("constants are finite", forall_lt(m, lambda i: z3.Not(BAD(CONST(i))), pats=lambda i: [CONST(i)])),
           ("shrunken tree of each round", forall_lt(m, lambda i: v.el[I.p_before + i] == F_.CLR(F_.SHR(F_.FIT(i), cfg.f["shrinkage"])), pats=lambda i: [F_.FIT(i)]))]
    if I.p_base is not None:
        b = I.p_base.f["tree"]
        out.append(("base trees in order", forall_lt(b.len, lambda k: z3.Implies(z3.Not(F_.single(b.el[k])), v.el[1 + NB(k)] == F_.CLR(b.el[k])), pats=lambda k: [b.el[k]])))
    return [(l, z3.Implies(ok, e)) for l, e in out] + [("a constant that is not finite stops training", z3.Implies(BAD(CONST(c.post.store[RD] - 1)), z3.Implies(c.post.store[RD] > 0, z3.Not(ok))))]


def tr_setup(I, st, this, args):
    st.assume(z3.And(ROW >= 0, ROW < ROWS, ROWS <= MAXSZ))
    L = lambda i: I.load_quiet(st, args[i].path).path
    I.p_forest = L(7)
    I.p_base = I.load_quiet(st, L(6)) if L(6) is not None else None
    I.p_before = 1 + (NB(I.p_base.f["tree"].len) if I.p_base is not None else 0)
    I.p_cfg = I.load_quiet(st, args[5].path)
    st.store[RD] = z3.IntVal(0)
    if I.p_base is not None:
        st.assume(z3.And(NB(I.p_base.f["tree"].len) >= 0, NB(I.p_base.f["tree"].len) <= I.p_base.f["tree"].len))


def tr_axioms(I):
    n = z3.Int("n!sc")
    return (base_facts(I, I.p_base) if I.p_base is not None else Fn(I).axioms()) + [SC(0) == 0, fa([n], SC(n + 1) == SC(n) + CONST(n), CONST(n))]


def tr_templates(I, st, hv, info):
    out = []
    F_ = Fn(I)
    g = getter(I, I.p_forest)
    T = lambda o: o.f["tree"]
    R = lambda s: s.store.get(RD)
    cb = CB(I.p_base.f["tree"].len) if I.p_base is not None else 0
    B = I.p_before
    sh = I.p_cfg.f["shrinkage"]
    out.append(("one tree per round", lift(g, R)(lambda o, r: z3.And(T(o).len == B + r, r >= 0))))
    out.append(("first tree is a single node", lift(g)(lambda o: z3.And(F_.single(T(o).el[0]), z3.Not(is_none(I, T(o).el[0]))))))
    out.append(("trees", lift(g)(lambda o: trees_exist(I, o))))
    out.append(("constant", lift(g, R)(lambda o, r: part(I, T(o).el[0], "score") == cb + SC(r))))
    out.append(("constants are finite", lift(R)(lambda r: forall_lt(r, lambda i: z3.Not(BAD(CONST(i))), pats=lambda i: [CONST(i)]))))
    out.append(("tree of each round", lift(g, R)(lambda o, r: forall_lt(r, lambda i: T(o).el[B + i] == F_.SHR(F_.FIT(i), sh), pats=lambda i: [F_.FIT(i)]))))
    if I.p_base is not None:
        out.append(("base trees", lift(g)(lambda o: z3.And(T(o).len >= B, base_copied(I, T(o), I.p_base, I.p_base.f["tree"].len)))))
    for cn, x in ints(I, st, hv, info):
        out.append(("%s counts rounds" % cn, lift(x, R)(lambda x, r: x == r)))
    for vn, v in vecs(I, st, hv, info, is_real_arr):
        out.append(("%s is the prediction of the model" % vn, lift(v, g)(lambda v, o: z3.And(v.len == ROWS, v.el[ROW] == part(I, T(o).el[0], "score") + F_.TS(T(o).el, T(o).len)))))
    return out


TRAIN = Contract("gbdt::TrainGBDT", pre=tr_pre, post=tr_post, modifies=["*0", "*7", RD])
USES = [AT2, AT3, SHRINK, CLEAN, CHECK, LOAD, INITL, GROUP, NROWS, CTS, GRAD, FITC, INITB] + QUIET
KW = dict(solver_opts=NOMBQI, no_frames=True, nan_pred=BAD)
UNITS = [Unit("InitializeWithBaseForest", INITB, TU, uses=[AT2], setup=in_setup, templates=in_templates, axioms=lambda I: base_facts(I, I.p_base), **KW),
         Unit("TrainGBDT (base forest)", TRAIN, TU, uses=USES, setup=tr_setup, templates=tr_templates, axioms=tr_axioms, **KW),
         Unit("TrainGBDT (no base forest)", TRAIN, TU, uses=USES, setup=tr_setup, templates=tr_templates, axioms=tr_axioms,
              param_fn=lambda I, st, i, t, p: PPtr(None) if i == 6 else None, **KW)]

ASSUMPTIONS = ["scores are real numbers in the proof; \"not finite\" is a predicate of the constant", "AddTreeScores adds the constant and the leaf score of every row (C02)",
               "ApplyShrinkage and ClearInternalFields are functions of the tree (C20); cleaning keeps scores and children (C20)",
               "the loss and the tree fitting are arbitrary functions of the round (C09-C12, C15, C17); they do not write the scores or the forest",
               "logging, timing and the meta information text are not modelled"]
HARNESS = dict(src="c19.cc", timeout=240)
