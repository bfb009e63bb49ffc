"""C21 Feature importance and feature collection."""
from spec import *
from tmpl import *
from trees import part, split_of, is_none
TU = [("gbdt_algo/utils.cc", "gbdt")]
INT, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def fns(I):
    T = I.tree().sort
    TA = z3.ArraySort(INT, T)
    f = lambda n, *s: z3.Function(n, *s)
    return dict(inner=f("splits_on", T, Str, B), gain=f("gain_of", T, Str, R), named=f("names", T, Str, B),
                inner_=f("first_split_on", TA, INT, Str, B), gain_=f("gain_of_first", TA, INT, Str, R), named_=f("first_name", TA, INT, Str, B))


def defs(I, t):
    """Definitions at the tree t: total gain and use of a feature at internal nodes, features named by any node's split."""
    F_ = fns(I)
    n = z3.Const("n!fi", Str)
    l, r, sp = part(I, t, "left_child"), part(I, t, "right_child"), split_of(I, t)
    has, feat = part(I, t, "has_split"), sp.f["feature"]
    leaf = is_none(I, l)
    # protobuf: the accessors of an absent split give the defaults
    eff, g = z3.If(has, feat, strc("")), z3.If(has, sp.f["gain"], z3.RealVal(0))
    N = lambda x: z3.Not(is_none(I, x))
    return [fa([n], F_["inner"](t, n) == z3.And(z3.Not(leaf), z3.Or(eff == n, F_["inner"](l, n), F_["inner"](r, n))), F_["inner"](t, n)),
            fa([n], F_["gain"](t, n) == z3.If(leaf, z3.RealVal(0), z3.If(eff == n, g, z3.RealVal(0)) + F_["gain"](l, n) + F_["gain"](r, n)), F_["gain"](t, n)),
            fa([n], F_["named"](t, n) == z3.Or(z3.And(has, feat == n), z3.And(N(l), F_["named"](l, n)), z3.And(N(r), F_["named"](r, n))), F_["named"](t, n))]


def strc(s):
    import vals
    return vals.strlit(s)


def forest_defs(I):
    F_ = fns(I)
    n, k = z3.Const("n!ff", Str), z3.Int("k!ff")
    A = z3.Const("A!ff", z3.ArraySort(INT, I.tree().sort))
    return [fa([A, n], z3.And(F_["inner_"](A, 0, n) == FALSE), F_["inner_"](A, 0, n)), fa([A, n], F_["gain_"](A, 0, n) == 0, F_["gain_"](A, 0, n)),
            fa([A, n], F_["named_"](A, 0, n) == FALSE, F_["named_"](A, 0, n)),
            fa([A, n, k], z3.Implies(k >= 0, F_["inner_"](A, k + 1, n) == z3.Or(F_["inner_"](A, k, n), F_["inner"](A[k], n))), z3.MultiPattern(F_["inner_"](A, k, n), A[k])),
            fa([A, n, k], z3.Implies(k >= 0, F_["gain_"](A, k + 1, n) == F_["gain_"](A, k, n) + F_["gain"](A[k], n)), z3.MultiPattern(F_["gain_"](A, k, n), A[k])),
            fa([A, n, k], z3.Implies(k >= 0, F_["named_"](A, k + 1, n) == z3.Or(F_["named_"](A, k, n), F_["named"](A[k], n))), z3.MultiPattern(F_["named_"](A, k, n), A[k]))]


def complete(I, t):
    """Nodes have two children or none."""
    return z3.Function("complete", I.tree().sort, B)(t)


def tree_pre(c):
    I, t = c.I, c.v(0)
    I.global_facts += defs(I, t)
    l, r = part(I, t, "left_child"), part(I, t, "right_child")
    I.global_facts.append(z3.Implies(z3.And(complete(I, t), z3.Not(is_none(I, l))), z3.And(z3.Not(is_none(I, r)), complete(I, l), complete(I, r))))
    return [("a tree", z3.Not(is_none(I, t)))]


def imp_post(c):
    F_, t = fns(c.I), c.v(0)
    a, b = c.d(1), c.D(1)
    n = z3.Const("n!ip", Str)
    cur = lambda m: z3.If(m.dom[n], m.val[n], z3.RealVal(0))
    return [("exactly the features of internal nodes are added", fa([n], b.dom[n] == z3.Or(a.dom[n], F_["inner"](t, n)), b.dom[n])),
            ("gains are added", fa([n], cur(b) == cur(a) + F_["gain"](t, n), b.val[n], b.dom[n])),
            ("no gain without use", fa([n], z3.Implies(z3.Not(F_["inner"](t, n)), F_["gain"](t, n) == 0), F_["gain"](t, n)))]


def col_post(c):
    F_, t = fns(c.I), c.v(0)
    a, b = c.d(1), c.D(1)
    n = z3.Const("n!cp", Str)
    return [("exactly the named features are added", fa([n], b.dom[n] == z3.Or(a.dom[n], F_["named"](t, n)), b.dom[n]))]


IMP = Contract("gbdt::ComputeFeatureImportance", pre=lambda c: tree_pre(c) + [("complete", complete(c.I, c.v(0)))], post=imp_post, modifies=["*1"], params=["TreeNode", "unordered_map"])
COL = Contract("gbdt::CollectAllFeatures", pre=tree_pre, post=col_post, modifies=["*1"], params=["TreeNode", "unordered_set"])


def trees_ok(c, full):
    I, v = c.I, c.v(0).f["tree"]
    k = z3.Int("k!to")
    return [("trees", fa([k], z3.Implies(z3.And(k >= 0, k < v.len), z3.And([z3.Not(is_none(I, v.el[k]))] + ([complete(I, v.el[k])] if full else []))), v.el[k]))]


def colf_post(c):
    F_, v, r = fns(c.I), c.v(0).f["tree"], c.r
    n = z3.Const("n!cf", Str)
    return [("exactly the features named by any node", fa([n], r.dom[n] == F_["named_"](v.el, v.len, n), r.dom[n]))]


def impf_post(c):
    F_, v, r = fns(c.I), c.v(0).f["tree"], c.r
    n, i, j = z3.Const("n!if", Str), z3.Int("i!if"), z3.Int("j!if")
    names, val = r.el.f["first"], r.el.f["second"]
    G = lambda n: F_["gain_"](v.el, v.len, n)
    top = G(names[0])
    div = z3.And(r.len > 0, top > 0)
    inr = z3.And(i >= 0, i < r.len)
    return [("only features of internal nodes", fa([i], z3.Implies(inr, F_["inner_"](v.el, v.len, names[i])), names[i])),
            ("every feature of an internal node", fa([n], z3.Implies(F_["inner_"](v.el, v.len, n), z3.Exists([i], z3.And(inr, names[i] == n))), F_["inner_"](v.el, v.len, n))),
            ("each once", fa([i, j], z3.Implies(z3.And(i >= 0, i < j, j < r.len), names[i] != names[j]), z3.MultiPattern(names[i], names[j]))),
            ("in descending order of total gain", fa([i, j], z3.Implies(z3.And(i >= 0, i < j, j < r.len), G(names[i]) >= G(names[j])), z3.MultiPattern(names[i], names[j]))),
            ("share of the largest total gain", z3.Implies(div, fa([i], z3.Implies(inr, val[i] == G(names[i]) / top), val[i]))),
            ("total gain where none is positive", z3.Implies(z3.Not(div), fa([i], z3.Implies(inr, val[i] == G(names[i])), val[i])))]


def f_setup(I, st, this, args):
    I.p_trees = I.load_quiet(st, args[0].path).f["tree"]
    if I.p_trees.el.sort().range() != I.tree().sort:
        raise OutOfReach("forest representation")


def f_templates(I, st, hv, info):
    out = []
    F_, v = fns(I), I.p_trees
    n, i = z3.Const("n!t", Str), z3.Int("i!t")
    cs = ints(I, st, hv, info)
    for root in info.modified:
        if root in hv.store and isinstance(hv.store[root], MapV) and hv.store[root].dom.sort().domain() == Str:
            g = getter(I, (root, ()))
            for cn, x in cs:
                if hv.store[root].val is None:
                    out.append(("names of the first %s trees" % cn, lift(g, x)(lambda m, x: fa([n], m.dom[n] == F_["named_"](v.el, x, n), m.dom[n]))))
                else:
                    out.append(("features of the first %s trees" % cn, lift(g, x)(lambda m, x: z3.ForAll([n], m.dom[n] == F_["inner_"](v.el, x, n), patterns=[m.dom[n], F_["inner_"](v.el, x, n)]))))
                    out.append(("gains of the first %s trees" % cn, lift(g, x)(lambda m, x: fa([n], z3.If(m.dom[n], m.val[n], z3.RealVal(0)) == F_["gain_"](v.el, x, n), m.dom[n], m.val[n]))))
    so = st.ghost.get("sorted")
    for vn, w in vecs(I, st, hv, info, lambda e: isinstance(e, Obj) and set(e.f) == {"first", "second"}):
        if so is None:
            continue
        old = so.f["second"]
        top = old[0]
        for cn, x in cs:
            out.append(("%s normalised below %s" % (vn, cn), lift(w, x)(lambda w, x: fa([i], z3.Implies(z3.And(i >= 0, i < x), w.el.f["second"][i] == old[i] / top), w.el.f["second"][i]))))
            out.append(("%s as sorted from %s" % (vn, cn), lift(w, x)(lambda w, x: fa([i], z3.Implies(i >= x, w.el.f["second"][i] == old[i]), w.el.f["second"][i]))))
        out.append(("%s keeps its names" % vn, lift(w)(lambda w: fa([i], w.el.f["first"][i] == so.f["first"][i], w.el.f["first"][i]))))
    return out


IMPF = Contract("gbdt::ComputeFeatureImportance", pre=lambda c: trees_ok(c, True), post=impf_post, params=["Forest"])
COLF = Contract("gbdt::CollectAllFeatures", pre=lambda c: trees_ok(c, False), post=colf_post, params=["Forest"])
UNITS = [Unit("ComputeFeatureImportance(tree)", IMP, TU, uses=[IMP], chain=True),
         Unit("ComputeFeatureImportance(forest)", IMPF, TU, uses=[IMP], setup=f_setup, templates=f_templates, axioms=forest_defs, solver_opts=NOMBQI, no_frames=True),
         Unit("CollectAllFeatures(tree)", COL, TU, uses=[COL]),
         Unit("CollectAllFeatures(forest)", COLF, TU, uses=[COL], setup=f_setup, templates=f_templates, axioms=forest_defs, solver_opts=NOMBQI, no_frames=True)]
ASSUMPTIONS = ["gains are real numbers in the proof (finite gains)", "inner nodes of the trees have two children (C12)"]
HARNESS = dict(src="c21.cc")
