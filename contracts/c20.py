"""C20 Shrinkage and clean-up rewrite a tree without changing its meaning."""
from spec import *
from tmpl import *
from trees import *
TU = [("gbdt_algo/gbdt_algo.cc", "gbdt")]


def SHR(I):
    return rel(I, "shrunk", [z3.RealSort()])


def CLR(I):
    return rel(I, "cleaned")


def shr_body(I, t, u, s):
    return z3.And(part(I, u, "score") == part(I, t, "score") * s, same_split(I, t, u))


def clr_body(I, t, u):
    leaf = is_none(I, part(I, t, "left_child"))
    b = split_of(I, u)
    none_internal = z3.Implies(z3.And(part(I, u, "has_split"), b.f["has_cat_split"]),
                               b.f["cat_split"].f["internal_categorical_index"].len == 0)
    return z3.And(part(I, u, "score") == part(I, t, "score"), z3.If(leaf, z3.Not(part(I, u, "has_split")), z3.And(
        none_internal, same_split(I, t, u, ("feature", "float", "gain", "cat names")))))


def shr_post(c):
    I = c.I
    t, u, s = c.d(0), c.D(0), c.v(1)
    R = SHR(I)
    I.global_facts += unfold(I, R, shr_body(I, t, u, s), t, u, s) + [none_rel(I, R, s)]
    return [("node", shr_body(I, t, u, s)), ("children", R(t, u, s))]


def clr_post(c):
    I = c.I
    t, u = c.d(0), c.D(0)
    R = CLR(I)
    I.global_facts += unfold(I, R, clr_body(I, t, u), t, u) + [none_rel(I, R)]
    return [("node", clr_body(I, t, u)), ("children", R(t, u))]


def node(c):
    return [("a tree", z3.Not(is_none(c.I, c.d(0))))]


SHRINK = Contract("ApplyShrinkage", pre=node, post=shr_post, modifies=["*0"], params=["TreeNode", "float"])
CLEAN = Contract("ClearInternalFields", pre=node, post=clr_post, modifies=["*0"], params=["TreeNode"])


def clf_post(c):
    I = c.I
    a, b = c.d(0).f["tree"], c.D(0).f["tree"]
    return [("every tree", z3.And(a.len == b.len, forall_lt(a.len, lambda k: CLR(I)(a.el[k], b.el[k]))))]


def trees_exist(I, f):
    v = f.f["tree"]
    return forall_lt(v.len, lambda k: z3.Not(is_none(I, v.el[k])), pats=lambda k: [v.el[k]])


CLEANF = Contract("ClearInternalFields", pre=lambda c: [("trees", trees_exist(c.I, c.d(0)))], post=clf_post, modifies=["*0.tree"], params=["Forest"])


def templates(I, st, hv, info):
    out = []
    R = CLR(I)
    for root, v in hv.store.items():
        if isinstance(v, Obj) and v.cls == "Forest" and root in st.store:
            g = getter(I, (root, ()))
            t0 = st.store[root].f["tree"]
            for cn, c in ints(I, st, hv, info):
                out.append(("cleaned below %s" % cn, lift(g, c)(lambda f, c: forall_lt(c, lambda k: R(t0.el[k], f.f["tree"].el[k])))))
                out.append(("unchanged from %s" % cn, lift(g, c)(lambda f, c: qall(lambda k: z3.Implies(z3.And(k >= c, k < t0.len), f.f["tree"].el[k] == t0.el[k])))))
            out.append(("as many trees", lift(g)(lambda f: f.f["tree"].len == t0.len)))
    return out


UNITS = [Unit("ApplyShrinkage", SHRINK, TU, uses=[SHRINK]),
         Unit("ClearInternalFields (tree)", CLEAN, TU, uses=[CLEAN]),
         Unit("ClearInternalFields (forest)", CLEANF, TU, uses=[CLEAN], templates=templates)]
ASSUMPTIONS = ["scores and shrinkage are real numbers in the proof; the replay harness compares the rounded float products exactly"]
HARNESS = dict(src="c20.cc", exclude=["gbdt_algo/gbdt_algo.cc"])
