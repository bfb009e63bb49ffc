"""C04 Row and feature subsampling."""
from spec import *
from tmpl import *
TU = [("utils/subsampling.cc", "gbdt"), ("utils/subsampling.cc", "VectorSlice")]
D = z3.Function("draw", z3.IntSort(), z3.RealSort())           # the random source, draw by draw
C = z3.Function("chosen_below", z3.IntSort(), z3.IntSort())    # number of items below k whose draw is below the rate
GH = "ghost:draws"


def setup(I, st, this, args):
    I.p_n, I.p_rate = I.load_quiet(st, args[0].path), I.load_quiet(st, args[1].path)
    st.store[GH] = z3.IntVal(0)
    k = z3.Int("k!C")
    I.global_facts += [C(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, C(k + 1) == C(k) + z3.If(D(k) < I.p_rate, 1, 0)),
                                            patterns=[C(k + 1)]),
                       z3.ForAll([k], z3.Implies(k >= 0, C(k + 1) == C(k) + z3.If(D(k) < I.p_rate, 1, 0)), patterns=[D(k)]),
                       z3.ForAll([k], z3.And(D(k) >= 0, D(k) < 1), patterns=[D(k)])]


def rng(I, s, n, a0, av):
    c = s.store[GH]
    I.save(s, (GH, ()), c + 1)
    s.assume(z3.And(D(c) >= 0, D(c) < 1))
    return D(c)


def facts(I, v, upto):
    """v lists exactly the chosen items below upto, in ascending order."""
    r = I.p_rate
    return [("ascending", qall(lambda j: z3.Implies(z3.And(j >= 0, j + 1 < v.len), v.el[j] < v.el[j + 1]))),
            ("only items below", forall_lt(v.len, lambda j: z3.And(v.el[j] >= 0, v.el[j] < upto))),
            ("only chosen items", forall_lt(v.len, lambda j: D(v.el[j]) < r)),
            ("every chosen item", qall(lambda k: (z3.Implies(z3.And(k >= 0, k < upto, D(k) < r),
                                                             z3.And(C(k) >= 0, C(k) < v.len, v.el[C(k)] == k)), [C(k)]))),
            ("every chosen item", qall(lambda k: (z3.Implies(z3.And(k >= 0, k < upto, D(k) < r),
                                                             z3.And(C(k) >= 0, C(k) < v.len, v.el[C(k)] == k)), [D(k)]))),
            ("all items at rate 1", z3.Implies(r >= 1, z3.And(v.len == upto, forall_lt(upto, lambda j: v.el[j] == j)))),
            ("no item at rate 0", z3.Implies(r <= 0, v.len == 0))]


def templates(I, st, hv, info):
    out = []
    gh = lambda s: s.store.get(GH)
    for n, v in vecs(I, st, hv, info, is_int_arr):
        out.append(("|%s| chosen so far" % n, lift(v, gh)(lambda v, g: v.len == C(g))))
        out.append(("|%s| at most the draws" % n, lift(v, gh)(lambda v, g: v.len <= g)))
        for i in range(7):
            out.append(("%s fact %d" % (n, i), lift(v, gh)(lambda v, g, i=i: facts(I, v, g)[i][1])))
    for cn, c in ints(I, st, hv, info):
        out.append(("%s counts the draws" % cn, lift(c, gh)(lambda c, g: c == g)))
    return out


def post(c):
    f = facts(c.I, c.r, c.v(0))
    return [f[i] for i in (0, 1, 2, 4, 5, 6)] + [("one draw per item", c.post.store[GH] == c.v(0))]


SUB = Contract("gbdt::Subsampling::UniformSubsample", post=post, modifies=[GH],
               pre=lambda c: [("items", c.v(0) <= MAXSZ), ("expected size fits an int", c.v(1) * z3.ToReal(c.v(0)) <= MAXSZ),
                              ("expected size fits an int (negative rate)", c.v(1) * z3.ToReal(c.v(0)) >= -MAXSZ)])
UNITS = [Unit("UniformSubsample", SUB, TU, setup=setup, templates=templates, rng_hook=rng)]
HARNESS = dict(src="c04.cc", only=["utils/subsampling", "utils/utils"])
