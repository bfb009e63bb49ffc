"""C17 Pairwise gradients are balanced and stay inside groups."""
from spec import *
from tmpl import *
from cols import *
import c03
TP = [("loss_func/loss_func_pairwise.cc", "gbdt"), ("loss_func/group.cc", "gbdt"), ("utils/subsampling.cc", "gbdt"), ("data_store/column.cc", "gbdt")]
AR = z3.ArraySort(z3.IntSort(), z3.RealSort())
ROWS = z3.Const("num_rows", z3.IntSort())
THREADS = z3.Const("threads", z3.IntSort())
SUM = z3.Function("sum", AR, z3.IntSort(), z3.RealSort())      # sum of the first n elements
WIT = z3.Function("nonzero_at", AR, z3.IntSort(), z3.IntSort())


def sum_axioms():
    a = z3.Const("a!sum", AR)
    i, n = z3.Ints("i!sum n!sum")
    v = z3.Real("v!sum")
    return [z3.ForAll([a, i, n, v], z3.Implies(z3.And(i >= 0, i < n), SUM(z3.Store(a, i, v), n) == SUM(a, n) - a[i] + v),
                      patterns=[SUM(z3.Store(a, i, v), n)]),
            z3.ForAll([a, n], z3.Or(SUM(a, n) == 0, z3.And(WIT(a, n) >= 0, WIT(a, n) < n, a[WIT(a, n)] != 0)), patterns=[SUM(a, n)])]


def gvalid(g, n=ROWS):
    """What Group guarantees (property C16), for the elements the losses use."""
    return [("rows have a score", forall_lt(g.f["group_"].len, lambda k: z3.And(g.f["group_"].el[k] >= 0, g.f["group_"].el[k] < n))),
            ("one rank per row", g.f["ranks_"].len == g.f["group_"].len)]


GCTOR = Contract("gbdt::Group::Group", modifies=["this"], params=["vector", "FloatVector"],
                 pre=lambda c: [("rows", forall_lt(c.v(0).len, lambda k: z3.And(c.v(0).el[k] >= 0, c.v(0).el[k] < ROWS)))],
                 post=lambda c: [(l, e) for l, e in gvalid(c.T)] + [("targets", c.T.f["y_"].arr == c.v(1).arr), ("pairs", z3.And(c.T.f["num_pairs_"] >= 0, c.T.f["num_pairs_"] <= MAXSZ * MAXSZ))])


def sample_post(c):
    g = c.t.f["group_"]
    p, q = c.r.f["first"], c.r.f["second"]
    y = c.t.f["y_"].arr
    return [("positions in the group", z3.And(p >= 0, p < g.len, q >= 0, q < g.len)), ("the first target is larger", y[g.el[p]] > y[g.el[q]])]


SAMPLE = Contract("gbdt::Group::SamplePair", pre=lambda c: [("some pair exists", c.t.f["num_pairs_"] >= 1)], post=sample_post, modifies=["*0"])
RERANK = Contract("gbdt::Group::Rerank", pre=lambda c: gvalid(c.t, c.v(0).len), modifies=["this.ranks_"],
                  post=lambda c: [("one rank per row", c.T.f["ranks_"].len == c.t.f["ranks_"].len)])


def init_pre(c):
    out = [("rows", z3.And(c.v(0) == ROWS, ROWS >= 0, ROWS <= MAXSZ)),
           ("fresh", c.t.f["groups_"].len == 0)]
    a = c.v(3).addr
    rd = reader(c, a)
    m = cfield(c, "map_to_strings_", a)
    out.append(("group column", z3.Implies(a != 0, z3.And(rd != 0, COLN(rd) == ROWS, m.len >= 1, m.len <= MAXSZ, forall_lt(
        ROWS, lambda k: z3.And(COLV(rd, k) >= 0, COLV(rd, k) < m.len), pats=lambda k: [COLV(rd, k)])))))
    return out


def init_templates(I, st, hv, info):
    out = []
    k, j = z3.Ints("k!it j!it")
    for vn, v in vecs(I, st, hv, info, lambda e: isinstance(e, Vec) and is_z3(e.el)):
        ok = lambda v: fa([k, j], z3.Implies(z3.And(k >= 0, k < v.len, j >= 0, j < v.el.len[k]), z3.And(
            v.el.el[k][j] >= 0, v.el.el[k][j] < ROWS)), v.el.el[k][j])
        out.append(("%s holds rows" % vn, lift(v)(ok)))
        for cn, c in ints(I, st, hv, info):
            out.append(("%s holds rows from %s" % (vn, cn), lift(v, c)(lambda v, c: fa([k, j], z3.Implies(z3.And(
                k >= c, k < v.len, j >= 0, j < v.el.len[k]), z3.And(v.el.el[k][j] >= 0, v.el.el[k][j] < ROWS)), v.el.el[k][j]))))
            out.append(("%s of %s" % (cn, vn), lift(v, c)(lambda v, c: fa([k], z3.Implies(z3.And(
                k >= 0, k < v.len), v.el.len[k] <= c), v.el.len[k]))))
    o = getter(I, I.this_path)
    for i in range(4):
        out.append(("groups %d" % i, lift(o)(lambda o, i=i: groups_ok(o)[i][1])))
    return out


def init_post(c):
    ok = c.r.f["code"] == 0
    o = c.T
    return [("refused exactly if the rate is not positive", ok == (c.t.f["pair_sampling_rate_"] > 0))] + \
           [("groups: " + l, z3.Implies(ok, e)) for l, e in groups_ok(o) + slices_ok(o)] + [("without a group column there is one group", z3.Implies(z3.And(
               ok, c.v(3).addr == 0), o.f["groups_"].len == 1))]




def setup(I, st, this, args):
    I.this_path = this
    st.assume(z3.And(THREADS >= 1, THREADS <= 100000, ROWS >= 0, ROWS <= MAXSZ))


def threads(I, st, name):
    return THREADS if name == "FLAGS_num_threads" else None


def div_post(c):
    v, n = c.r, c.v(0)
    a, b = v.el.f["first"], v.el.f["second"]
    return [("as many slices", v.len == c.v(1)), ("inside", forall_lt(v.len, lambda k: z3.And(a[k] >= 0, a[k] <= b[k], b[k] <= n), pats=lambda k: [a[k]])),
            ("to the last", z3.Implies(v.len > 0, b[v.len - 1] == n)),
            ("consecutive", z3.And(a[0] == 0, forall_lt(v.len - 1, lambda k: a[k + 1] == b[k], pats=lambda k: [b[k]])))]


DIV = Contract("gbdt::Subsampling::DivideSamples", pre=c03.pre_int, post=div_post, params=["int", "int"])
# the rows of groups in which some pair of rows has different targets
PAIRED = z3.Function("row_of_a_group_with_pairs", z3.IntSort(), z3.BoolSort())


def csample_post(c):
    p, q = c.r.f["first"], c.r.f["second"]
    el = c.t.f["group_"].el
    return sample_post(c) + [("rows of a group with pairs", z3.And(PAIRED(el[p]), PAIRED(el[q])))]


CSAMPLE = Contract("gbdt::Group::SamplePair", pre=lambda c: [("some pair exists", c.t.f["num_pairs_"] >= 1)], post=csample_post, modifies=["*0"])
PWF = Contract("gbdt::Pairwise::PairWeightingFunc", result=lambda c, post, rt: FnSym(
    lambda p: c.I.p_weight(c.v(0).f["group_"].el, p.f["first"], p.f["second"]), "pair_weighting"))


def groups_ok(o, n=ROWS):
    v = o.f["groups_"]
    e = v.el.f
    k, j = z3.Ints("k!go j!go")
    return [("rows have a score", fa([k, j], z3.Implies(z3.And(k >= 0, k < v.len, j >= 0, j < e["group_"].len[k]), z3.And(
                e["group_"].el[k][j] >= 0, e["group_"].el[k][j] < n)), e["group_"].el[k][j])),
            ("one rank per row", fa([k], z3.Implies(z3.And(k >= 0, k < v.len), e["ranks_"].len[k] == e["group_"].len[k]), e["ranks_"].len[k])),
            ("same targets", fa([k], z3.Implies(z3.And(k >= 0, k < v.len), e["y_"].arr[k] == o.f["y_"].arr), e["y_"].arr[k])),
            ("pairs", fa([k], z3.Implies(z3.And(k >= 0, k < v.len), z3.And(e["num_pairs_"][k] >= 0, e["num_pairs_"][k] <= MAXSZ * MAXSZ)), e["num_pairs_"][k]))]


def slices_ok(o):
    v, n = o.f["slices_"], o.f["groups_"].len
    a, b = v.el.f["first"], v.el.f["second"]
    return [("slices of groups", forall_lt(v.len, lambda k: z3.And(a[k] >= 0, a[k] <= b[k], b[k] <= n), pats=lambda k: [a[k]]))]


INIT = Contract("gbdt::Pairwise::Init", pre=init_pre, post=init_post, modifies=["this"])


def cf_pre(c):
    o = c.t
    return [("rows", c.v(0).len == ROWS), ("sampling", z3.And(o.f["pair_sampling_probability_"] >= 0, o.f["pair_sampling_probability_"] <= 1000))] + groups_ok(o) + slices_ok(o)


def state_ok(v):
    g, h = v.el.f["g"], v.el.f["h"]
    return [("one entry per row", v.len == ROWS), ("balance", SUM(g, ROWS) == 0),
            ("rows without pairs stay zero", z3.And([forall_lt(ROWS, lambda k, a=a: z3.Or(PAIRED(k), a[k] == 0), pats=lambda k, a=a: [a[k]]) for a in (g, h)]))]


def cf_post(c):
    return [("the constant is 0", c.D(1) == 0)] + state_ok(c.D(2))


def cf_setup(I, st, this, args):
    setup(I, st, this, args)
    I.p_grad = args[2]
    I.p_weight = z3.Function("pair_weight", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.RealSort())


def cf_templates(I, st, hv, info):
    out = []
    for vn, v in vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and "g" in e.f):
        for i in range(3):
            out.append(("%s: %d" % (vn, i), lift(v)(lambda v, i=i: state_ok(v)[i][1])))
        for cn, c in ints(I, st, hv, info):
            out.append(("%s is zero below %s" % (vn, cn), lift(v, c)(lambda v, c: z3.And([forall_lt(
                c, lambda k, a=a: a[k] == 0, pats=lambda k, a=a: [a[k]]) for a in (v.el.f["g"], v.el.f["h"])]))))
    o = getter(I, I.this_path)
    for i in range(4):
        out.append(("groups %d" % i, lift(o)(lambda o, i=i: groups_ok(o)[i][1])))
    return out


def cf_task(I, s, fn):
    """Holds between the sampled pairs."""
    o = I.load_quiet(s, I.this_path)
    v = I.load_quiet(s, I.load_quiet(s, I.p_grad.path).path)
    return groups_ok(o) + slices_ok(o) + state_ok(v)


CF = Contract("gbdt::Pairwise::ComputeFunctionalGradientsAndHessians", pre=cf_pre, post=cf_post, modifies=["this", "*1", "*2", "*3"])
UNITS = [Unit("Pairwise::Init", INIT, TP, uses=[GCTOR, DIV, c03.ALL] + READERS, setup=setup, templates=init_templates, inv_timeout=4000, no_frames=True, global_override_fn=threads),
         Unit("Pairwise::ComputeFunctionalGradientsAndHessians", CF, TP, uses=[CSAMPLE, RERANK, PWF], task_inv=cf_task, setup=cf_setup, templates=cf_templates, axioms=lambda I: sum_axioms(),
              solver_opts=NOMBQI, inv_timeout=3000, no_frames=True, skip_kinds=("conversion",), global_override_fn=threads)]
ASSUMPTIONS = ["fewer than 2^64 pairs are sampled from one group (the conversion of the product to an integer is not checked)"]
HARNESS = dict(src="c17.cc")
