"""C15 Pointwise gradients are those of every row."""
from spec import *
from tmpl import *
from lib import PS, ps_axioms
from core import TRUE
import c03
from c17 import DIV, threads, THREADS, ROWS
TU = [("loss_func/loss_func_pointwise.cc", "gbdt"), ("utils/subsampling.cc", "gbdt")]
AR = z3.ArraySort(z3.IntSort(), z3.RealSort())
# prefix sums over the rows of weight * (negative gradient, hessian) at constant c; the n-th constant of the Newton iteration
SG = z3.Function("sum_of_weighted_gradients", z3.RealSort(), z3.IntSort(), z3.RealSort())
SH = z3.Function("sum_of_weighted_hessians", z3.RealSort(), z3.IntSort(), z3.RealSort())
NEWTON = z3.Function("newton", z3.IntSort(), z3.RealSort())
WG = z3.Function("differs_at_g", AR, z3.RealSort(), z3.IntSort(), z3.IntSort())
WH = z3.Function("differs_at_h", AR, z3.RealSort(), z3.IntSort(), z3.IntSort())
STEPS = z3.Int("newton_steps")       # the least number of steps after which the last one is small, at most ten
TICK = z3.Function("tick", z3.IntSort(), z3.BoolSort())
EPS = z3.Q(1, 10000)


def start(o):
    """First row of slice k (the number of rows after the last slice)."""
    v = o.f["slices_"]
    return lambda k: z3.If(k < v.len, v.el.f["first"][k], ROWS)


def slices_ok(o):
    v, n = o.f["slices_"], ROWS
    a, b = v.el.f["first"], v.el.f["second"]
    return [("some slice", v.len >= 1), ("slices start at rows", forall_lt(v.len, lambda k: z3.And(a[k] >= 0, a[k] <= n), pats=lambda k: [a[k]])),
            ("slices of rows", forall_lt(v.len, lambda k: z3.And(a[k] <= b[k], b[k] <= n), pats=lambda k: [z3.MultiPattern(a[k], b[k])])),
            ("from the first row to the last", z3.And(a[0] == 0, b[v.len - 1] == n)),
            ("consecutive", forall_lt(v.len - 1, lambda k: a[k + 1] == b[k], pats=lambda k: [b[k]]))]


def at(o, f, k, c):
    return o.f["loss_func_"].fn(o.f["y_"].arr[k], f.el[k] + c)


STEP = z3.Function("newton_step", z3.RealSort(), z3.RealSort())
LARGE = z3.Function("large_step", z3.RealSort(), z3.BoolSort())
SLG = z3.Function("gradients_of_slice", z3.RealSort(), z3.IntSort(), z3.RealSort())
SLH = z3.Function("hessians_of_slice", z3.RealSort(), z3.IntSort(), z3.RealSort())


def step_def(c):
    return STEP(c) == z3.If(SH(c, ROWS) == 0, z3.RealVal(0), SG(c, ROWS) / SH(c, ROWS))


def rows_done(o, f, v, n, c):
    return z3.And([forall_lt(n, lambda k, p=p, q=q: v.el.f[p][k] == at(o, f, k, c).f[q], pats=lambda k, p=p: [v.el.f[p][k]])
                   for p, q in (("g", "1"), ("h", "2"))])


def init_pre(c):
    return [("rows", z3.And(c.v(0) == ROWS, ROWS >= 0, ROWS <= MAXSZ))]


def init_post(c):
    o = c.T
    return [("accepted", c.r.f["code"] == 0), ("targets and weights kept", z3.And(o.f["y_"].arr == c.v(2).arr, o.f["w_"].arr == c.v(1).arr))] + slices_ok(o)


INIT = Contract("gbdt::Pointwise::Init", pre=init_pre, post=init_post, modifies=["this"])


def cf_pre(c):
    return [("rows", c.v(0).len == ROWS)] + slices_ok(c.t)


def cf_post(c):
    I, o, f = c.I, c.t, c.v(0)
    v, k = c.D(2), c.D(1)
    return [("one entry per row", v.len == ROWS), ("constant after the last Newton step", k == NEWTON(STEPS)),
            ("every row at the constant before the last step", rows_done(o, f, v, ROWS, NEWTON(STEPS - 1)))]


def cf_setup(I, st, this, args):
    st.assume(z3.And(THREADS >= 1, THREADS <= 100000, ROWS >= 0, ROWS <= MAXSZ))
    I.p_this = I.load_quiet(st, this)
    I.p_f = I.load_quiet(st, args[0].path)
    I.p_grad, I.p_c = args[2], args[1]
    o, f = I.p_this, I.p_f
    c, n, k, m = z3.Real("c!ax"), z3.Int("n!ax"), z3.Int("k!ax"), z3.Int("m!ax")
    d = at(o, f, n, c)
    w = o.f["w_"].arr
    # definitions
    defs = [z3.ForAll([c], z3.And(SG(c, 0) == 0, SH(c, 0) == 0), patterns=[SG(c, 0)])]
    for S, q in ((SG, "1"), (SH, "2")):
        defs.append(z3.ForAll([c, n], z3.Implies(n >= 0, S(c, n + 1) == S(c, n) + w[n] * d.f[q]), patterns=[z3.MultiPattern(S(c, n), o.f["y_"].arr[n])]))
    defs.append(NEWTON(0) == 0)
    defs += [z3.ForAll([n], z3.And(TICK(n), NEWTON(n + 1) == NEWTON(n) + STEP(NEWTON(n))), patterns=[TICK(n)]),
             STEPS >= 1, STEPS <= 10, z3.Implies(STEPS < 10, z3.Not(LARGE(NEWTON(STEPS - 1)))),
             z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < STEPS - 1), LARGE(NEWTON(n))), patterns=[TICK(n)])]
    defs += [z3.ForAll([c], step_def(c), patterns=[STEP(c)]),
             z3.ForAll([c], LARGE(c) == z3.Or(STEP(c) > EPS, STEP(c) < -EPS), patterns=[LARGE(c)])]
    B = start(o)
    for L, S in ((SLG, SG), (SLH, SH)):
        defs.append(z3.ForAll([c, k], L(c, k) == S(c, B(k + 1)) - S(c, B(k)), patterns=[L(c, k)]))
    # lemma: sums over consecutive slices add up (by induction over the number of slices)
    A = z3.Const("A!ax", AR)
    ps = PS()
    lem = []
    for S, W, L in ((SG, WG, SLG), (SH, WH, SLH)):
        hyp = lambda A, c, n: forall_lt(n, lambda k: A[k] == L(c, k), pats=lambda k: [A[k]])
        con = lambda A, c, n: ps(A, n) - ps(A, 0) == S(c, B(n)) - S(c, B(0))
        t = st.fork()
        A1, c1, n1 = z3.Const("A!l", AR), z3.Real("c!l"), z3.Int("n!l")
        t.assume(z3.And(n1 >= 0, hyp(A1, c1, n1 + 1), z3.Implies(hyp(A1, c1, n1), con(A1, c1, n1))))
        for e in ps_axioms() + defs:
            t.assume(e)
        I.oblige(t, "lemma", con(A1, c1, z3.IntVal(0)), None, "no slice: nothing to add")
        I.oblige(t, "lemma", con(A1, c1, n1 + 1), None, "one slice more adds its sum")
        wit = W(A, c, n)
        lem.append(z3.ForAll([A, c, n, m], z3.Implies(n >= 0, z3.Or(z3.And(wit >= 0, wit < n, A[wit] != L(c, wit)), con(A, c, n))),
                             patterns=[z3.MultiPattern(ps(A, n), S(c, m))]))
    I.p_defs = defs + lem


def aliased(st, name):
    """The elements of a vector that a reference in scope names."""
    out = {}
    for p in st.env.values():
        if isinstance(p, tuple) and p[0].split("#")[0] == name and p[1] and p[1][0][0] != "f" and is_z3(p[1][0][1]):
            out[p[1][0][1].get_id()] = p[1][0][1]
    return [(str(e), e) for e in out.values()]


def cf_templates(I, st, hv, info):
    out = []
    o, f = I.p_this, I.p_f
    B = start(o)
    cp = getter(I, I.load_quiet(hv, I.p_c.path).path)
    cur = lambda s: (lambda x: x if is_z3(x) else None)(cp(s))
    sl = o.f["slices_"]
    first, second = sl.el.f["first"], sl.el.f["second"]
    cnt = ints(I, st, hv, info)
    c0, c1 = cur(st), cur(hv)
    if c0 is None or c1 is None:
        return out
    I.in_task = any(aliased(st, n) for n, _ in vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and "gradient_data" in e.f))
    grads = vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and "g" in e.f)
    for vn, v in grads:
        out.append(("%s has one entry per row" % vn, lift(v)(lambda v: v.len == ROWS)))
    if not c0.eq(c1):         # a loop that takes Newton steps
        for cn, x in cnt:
            out.append(("%s steps are not the last" % cn, lift(x)(lambda x: x < STEPS)))
            out.append(("after %s Newton steps" % cn, lift(x, cur)(lambda x, c: z3.And(c == NEWTON(x), TICK(x)))))
        return out
    for vn, v in grads:
        for cn, x in cnt:
            out.append(("%s done below %s" % (vn, cn), lift(v, x, cur)(lambda v, x, c: rows_done(o, f, v, x, c))))
            if not I.in_task:
                out.append(("%s done below slice %s" % (vn, cn), lift(v, x, cur)(lambda v, x, c: rows_done(o, f, v, B(x), c))))
    for vn, v in vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and "gradient_data" in e.f):
        A = lambda v, q: v.el.f["gradient_data"].f[q]
        for S, L, q in ((SG, SLG, "g"), (SH, SLH, "h")):
            al = aliased(st, vn)
            for dn, y in [(n, lift(v, x)(lambda v, x: x)) for n, x in cnt if not al] + [(n, lambda s, y=y: y) for n, y in al]:
                out.append(("%s.%s summed below slice %s" % (vn, q, dn), lift(v, y, cur)(lambda v, y, c, L=L, q=q: forall_lt(
                    y, lambda k: A(v, q)[k] == L(c, k), pats=lambda k: [A(v, q)[k]]))))
                if not al:
                    out.append(("%s.%s zero from slice %s" % (vn, q, dn), lift(v, y)(lambda v, y, q=q: forall_lt(
                        sl.len, lambda k: z3.Implies(k >= y, A(v, q)[k] == 0), pats=lambda k: [A(v, q)[k]]))))
                out.append(("%s.%s zero after slice %s" % (vn, q, dn), lift(v, y)(lambda v, y, q=q: forall_lt(
                    sl.len, lambda k: z3.Implies(k > y, A(v, q)[k] == 0), pats=lambda k: [A(v, q)[k]]))))
            for dn, y in aliased(st, vn):
                for cn, x in cnt:
                    out.append(("%s.%s of %s summed below %s" % (vn, q, dn, cn), lift(v, x, cur)(lambda v, x, c, y=y, S=S, q=q: z3.Implies(
                        z3.And(y >= 0, y < sl.len), A(v, q)[y] == S(c, x) - S(c, B(y))))))
    return out


MSG = Contract("gbdt::Pointwise::PrepareProgressMessage", modifies=["this.initial_loss_"])
CF = Contract("gbdt::Pointwise::ComputeFunctionalGradientsAndHessians", pre=cf_pre, post=cf_post, modifies=["this.initial_loss_", "*1", "*2", "*3"])
UNITS = [Unit("Pointwise::Init", INIT, TU + [("data_store/column.cc", "gbdt")], uses=[DIV], setup=lambda I, st, this, args: st.assume(z3.And(THREADS >= 1, THREADS <= 100000)),
              global_override_fn=threads, solver_opts=NOMBQI, no_frames=True),
         Unit("Pointwise::ComputeFunctionalGradientsAndHessians", CF, TU, uses=[MSG], setup=cf_setup, templates=cf_templates, axioms=lambda I: I.p_defs + ps_axioms(),
              solver_opts=dict(NOMBQI, **{"smt.arith.nl": False}), inv_timeout=1000, ground_quick=300, no_frames=True, merge=True, global_override_fn=threads)]
ASSUMPTIONS = ["real arithmetic: rounding is not modelled", "the pointwise loss is a function of target and score (C14)",
               "thread pool runs every task exactly once before its destructor returns (C28), tasks of disjoint footprints (C27)",
               "number of threads between 1 and 100000", "targets and weights are functions of the row"]
HARNESS = dict(src="c15.cc", timeout=200)
