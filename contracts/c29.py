"""C29 LambdaMART pair weights are DCG differences."""
from spec import *
from tmpl import *
from lib import LOG
TU = [("loss_func/loss_func_lambdamart.cc", "gbdt"), ("loss_func/loss_func_pairwise.cc", "gbdt")]


def disc(base, rank):
    return LOG(base) / LOG(base + z3.ToReal(rank))


def call(c, fv, *args):
    """(state, value) of every path of a call of a function value in the final state."""
    I, s = c.I, c.post.fork()
    out = []
    for s2, v in I.apply(s, fv, [I.lv(s, a, "a") for a in args], {}):
        if s2.status is None or s2.status == "return":
            out.append((z3.And([TRUE] + s2.facts()[len(c.post.pc):]), I.val(s2, v)))
    if not out:
        raise OutOfReach("no path through the function value")
    return out


def ctor_post(c):
    o = c.T
    base = c.v(0).f["lambdamart_dcg_base"]
    r = fresh_sort(z3.IntSort(), "rank")
    rs = call(c, o.f["discount_"], r)
    ok = z3.And(r >= 0, r < MAXSZ)
    want = disc(z3.If(base > 0, base, z3.RealVal(2)), r)
    return [("discount of every rank", z3.Implies(ok, z3.And([z3.Implies(p, v == want) for p, v in rs]))),
            ("base", o.f["dcg_base_"] == z3.If(base > 0, base, z3.RealVal(2)))]


def templates(I, st, hv, info):
    out = []
    base = lambda s: I.load_quiet(s, I.this_path).f.get("dcg_base_") if getattr(I, "this_path", None) else None
    objs = [getter(I, (root, ())) for root, v in hv.store.items() if isinstance(v, Obj) and "dcg_base_" in v.f]
    for o in objs:
        for n, v in vecs(I, st, hv, info, is_real_arr):
            for cn, c in ints(I, st, hv, info):
                out.append(("%s holds the discounts below %s" % (n, cn), lift(o, v, c)(lambda o, v, c: forall_lt(c, lambda k: v.el[k] == disc(
                    o.f["dcg_base_"], k), pats=lambda k: [v.el[k]]))))
    return out


CTOR = Contract("gbdt::LambdaMART::LambdaMART", post=ctor_post, modifies=["this"], params=["Config"])


def pw_pre(c):
    o, g = c.t, c.v(0)
    b = o.f["dcg_base_"]
    d = o.f["discount_"].arr
    k = z3.Int("k!pw")
    return [("discounts as set up by the constructor", z3.ForAll([k], z3.Implies(k >= 0, d[k] == disc(b, k)), patterns=[d[k]])),
            ("one rank per row", g.f["ranks_"].len == g.f["group_"].len),
            ("ranks are positions", forall_lt(g.f["ranks_"].len, lambda k: z3.And(g.f["ranks_"].el[k] >= 0, g.f["ranks_"].el[k] < g.f["ranks_"].len))),
            ("row numbers fit an int", forall_lt(g.f["group_"].len, lambda k: z3.And(g.f["group_"].el[k] >= 0, g.f["group_"].el[k] <= MAXSZ)))]


def pw_post(c):
    o, g = c.t, c.v(0)
    p, q = fresh_sort(z3.IntSort(), "first"), fresh_sort(z3.IntSort(), "second")
    n = g.f["group_"].len
    c.post.assume(z3.And(p >= 0, p < n, q >= 0, q < n))
    rs = call(c, c.r, Obj("pair", {"first": p, "second": q}))
    y, el, rk, b = g.f["y_"].arr, g.f["group_"].el, g.f["ranks_"].el, o.f["dcg_base_"]
    x = disc(b, rk[p]) - disc(b, rk[q])
    t = y[el[p]] - y[el[q]]
    w = t * z3.If(x >= 0, x, -x)
    return [("weight of every pair", z3.And([z3.Implies(pp, v == w) for pp, v in rs])),
            ("never negative", z3.And([z3.Implies(z3.And(pp, t >= 0), v >= 0) for pp, v in rs]))]


def pw_over(I, st, ty, base, lifts):
    if base.endswith("discount_"):
        return FnArr(I.leaf(z3.ArraySort(z3.IntSort(), z3.RealSort()), base, lifts))
    return None


PW = Contract("gbdt::LambdaMART::PairWeightingFunc", pre=pw_pre, post=pw_post, params=["Group"])
UNITS = [Unit("LambdaMART constructor", CTOR, TU, templates=templates),
         Unit("PairWeightingFunc", PW, TU, type_override_fn=pw_over)]
HARNESS = dict(src="c29.cc", only=["loss_func/group", "loss_func/loss_func_lambdamart", "loss_func/loss_func_pairwise.cc", "loss_func/loss_func_math", "utils/subsampling", "utils/threadpool", "utils/utils"])
