"""C16 Pair sampling in a group hits exactly the ordered pairs."""
from spec import *
from tmpl import *
TU = [("loss_func/group.cc", "gbdt")]
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
Y = z3.Const("targets", z3.ArraySort(z3.IntSort(), z3.RealSort()))
S = z3.Function("run_start", AI, z3.IntSort(), z3.IntSort())      # first position of the run of equal targets around i
T = z3.Function("pairs_below", AI, z3.IntSort(), z3.IntSort())    # sum of run_start(j) for j < i: ordered pairs among the first i


W = z3.Function("pairs_at", AI, z3.IntSort(), z3.IntSort(), z3.IntSort())   # pairs whose first row lies before a run boundary
MUL = z3.Function("product", z3.IntSort(), z3.IntSort(), z3.IntSort())    # multiplication, as a function symbol


def bnd(a, n, i):
    """A run of equal targets ends before position i."""
    return z3.And(i >= 1, i < n, Y[a[i - 1]] != Y[a[i]])


def run_axioms():
    a = z3.Const("a!run", AI)
    i, j, n = z3.Ints("i!run j!run n!run")
    return [z3.ForAll([i, j], MUL(i, j) == i * j, patterns=[MUL(i, j)]), z3.ForAll([a], S(a, 0) == 0, patterns=[S(a, 0)]), z3.ForAll([a], T(a, 0) == 0, patterns=[T(a, 0)]),
            z3.ForAll([a], z3.And(T(a, 1) == 0, T(a, 0) == 0), patterns=[T(a, 1)]),
            z3.ForAll([a, i], z3.Implies(i >= 0, z3.And(S(a, i) >= 0, S(a, i) <= i)), patterns=[S(a, i)]),
            z3.ForAll([a, i, j], z3.Implies(z3.And(i >= 0, j == i + 1), S(a, j) == z3.If(Y[a[i]] != Y[a[j]], j, S(a, i))),
                      patterns=[z3.MultiPattern(S(a, i), S(a, j))]),
            z3.ForAll([a, i, j], z3.Implies(z3.And(i >= 0, j == i + 1), T(a, j) == T(a, i) + S(a, i)),
                      patterns=[z3.MultiPattern(T(a, i), T(a, j))]),
            z3.ForAll([a, i, j], z3.Implies(z3.And(i >= 0, j == i + 1), T(a, j) == T(a, i) + S(a, i)),
                      patterns=[z3.MultiPattern(S(a, i), S(a, j))]),
            z3.ForAll([a, n], W(a, n, 0) == 0, patterns=[W(a, n, 0)]),
            z3.ForAll([a, n, i, j], z3.Implies(z3.And(bnd(a, n, i), j == i - 1), W(a, n, i) == W(a, n, S(a, j)) + MUL(i - S(a, j), n - i)),
                      patterns=[z3.MultiPattern(W(a, n, i), S(a, j))])]


def run_lemmas(I, st, g):
    """No boundary lies strictly inside a run, and a run starts at a boundary or at 0: by induction over the position."""
    a, n = g.el, g.len
    i, j = fresh_sort(z3.IntSort(), "ind.i"), fresh_sort(z3.IntSort(), "ind.j")
    L = lambda i, j: z3.And(z3.Implies(z3.And(bnd(a, n, j), j <= i), j <= S(a, i)), z3.Or(S(a, i) == 0, bnd(a, n, S(a, i))))
    I.oblige(st, "lemma", z3.Implies(n > 0, L(z3.IntVal(0), j)), None, "runs: base")
    step = st.fork()
    step.assume(z3.And(i >= 0, i + 1 < n, L(i, j), S(a, i + 1) >= 0))
    I.oblige(step, "lemma", L(i + 1, j), None, "runs: step")
    x, y = z3.Ints("x!rl y!rl")
    return [z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < n), L(x, y)), patterns=[z3.MultiPattern(S(a, x), a[y])]),
            z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < n), z3.Or(S(a, x) == 0, bnd(a, n, S(a, x)))), patterns=[S(a, x)])]


def setup(I, st, this, args):
    if args and len(args) > 1:
        st.assume(I.load_quiet(st, args[1].path).arr == Y)
    I.global_facts += run_axioms()


def sorted_desc(g):
    i, j = z3.Ints("i!sd j!sd")
    return fa([i, j], z3.Implies(z3.And(i >= 0, i < j, j < g.len), Y[g.el[i]] >= Y[g.el[j]]), g.el[i], g.el[j])


def map_inv(g, m, num, upto=None):
    """The pair map: one entry per run boundary, keyed by the pairs before it. g: the rows in descending target order."""
    K, b = z3.Ints("K!pm b!pm")
    d, blk, start = m.dom, m.val.f["first"], m.val.f["second"]
    n, a = g.len, g.el
    ea = lambda e: fa(K, z3.Implies(d[K], e), d[K])
    upto = n if upto is None else upto
    return [("keys", ea(z3.And(K >= 1, K <= num))),
            ("entries are run boundaries", ea(z3.And(bnd(a, n, start[K]), start[K] <= upto))),
            ("entries hold the block size", ea(blk[K] == start[K] - S(a, start[K] - 1))),
            ("keys count the pairs up to the block", ea(K == W(a, n, start[K]))),
            ("every boundary has an entry", fa(b, z3.Implies(z3.And(bnd(a, n, b), b <= upto), z3.And(d[W(a, n, b)], start[W(a, n, b)] == b)), W(a, n, b))),
            ("number of pairs", num == W(a, n, S(a, z3.If(upto >= n, n - 1, upto))) if upto is not n else
             z3.If(n == 0, num == 0, num == W(a, n, S(a, n - 1))))]


def templates(I, st, hv, info):
    out = []
    this = getattr(I, "this_path", None)
    objs = []
    for root, v in hv.store.items():
        if isinstance(v, Obj) and "pair_map_" in v.f:
            objs.append(getter(I, (root, ())))
    cs = ints(I, st, hv, info)
    for o in objs:
        for cn, c in cs:
            out.append(("identity ranks below %s" % cn, lift(o, c)(lambda o, c: forall_lt(c, lambda k: o.f["ranks_"].el[k] == k))))
    for n, v in vecs(I, st, hv, info, is_int_arr):
        for cn, c in cs:
            out.append(("%s[k] = k below %s" % (n, cn), lift(v, c)(lambda v, c: forall_lt(c, lambda k: v.el[k] == k))))
            ls = st.ghost.get("lastsort")
            if ls is not None:
                P, Q = ls[0], ls[1]
                out.append(("%s holds the places of the first %s" % (n, cn), lift(v, c)(lambda v, c: forall_lt(c, lambda k: v.el[P[k]] == k, pats=lambda k: [P[k]]))))
                out.append(("%s holds the places below %s" % (n, cn), lift(v, c)(lambda v, c: qall(lambda k: (z3.Implies(
                    z3.And(k >= 0, k < v.len, Q[k] < c), v.el[k] == Q[k]), [v.el[k]])))))
    return out


def ctor_post(c):
    o = c.T
    g = o.f["group_"]
    ls = c.post.ghost.get("lastsort")
    inp = c.v(0)
    P = ls[0] if ls is not None else None
    return [("targets in descending order", sorted_desc(g)),
            ("the rows given", FALSE if P is None else z3.And(g.len == inp.len, forall_lt(g.len, lambda k: z3.And(
                P[k] >= 0, P[k] < g.len, g.el[k] == inp.el[P[k]])))),
            ("no row lost", FALSE if P is None else forall_lt(g.len, lambda k: P[ls[1][k]] == k, pats=lambda k: [ls[1][k]])),
            ("ranks start in order", z3.And(o.f["ranks_"].len == g.len, forall_lt(g.len, lambda k: o.f["ranks_"].el[k] == k))),
            ("targets are kept", o.f["y_"].arr == Y)]


CTOR = Contract("gbdt::Group::Group", pre=lambda c: [("row numbers", forall_lt(c.v(0).len, lambda k: z3.And(
    c.v(0).el[k] >= 0, c.v(0).el[k] <= MAXSZ), pats=lambda k: [c.v(0).el[k]]))], post=ctor_post, modifies=["this"], params=["vector", "FloatVector"])


def derived(g, m, num):
    K, L = z3.Ints("K!dv L!dv")
    d, blk, start = m.dom, m.val.f["first"], m.val.f["second"]
    n = g.len
    ea = lambda e: fa(K, z3.Implies(d[K], e), d[K])
    return [("blocks lie inside the group", ea(z3.And(blk[K] >= 1, start[K] < n, start[K] - blk[K] >= 0))),
            ("targets drop at the end of a block", ea(Y[g.el[start[K] - 1]] > Y[g.el[start[K]]])),
            ("keys follow one another", ea(z3.And(K - MUL(blk[K], n - start[K]) >= 0, z3.Or(
                K - MUL(blk[K], n - start[K]) == 0, d[K - MUL(blk[K], n - start[K])])))),
            ("the last key is the number of pairs", z3.Or(num == 0, d[num])),
            ("blocks do not overlap", fa([K, L], z3.Implies(z3.And(d[K], d[L], K != L), z3.Or(
                start[K] <= start[L] - blk[L], start[L] <= start[K] - blk[K])), d[K], d[L]))]


def sample_pre(c):
    o = c.t
    g, m, num = o.f["group_"], o.f["pair_map_"], o.f["num_pairs_"]
    base = [("some pair exists", num >= 1), ("sorted", sorted_desc(g)), ("number of pairs fits", num <= MAXSZ * MAXSZ)] + map_inv(g, m, num)
    if c.I.unit.contract is not SAMPLE:
        return base
    # what the pair map's invariant implies, proved once
    st = c.st.fork()
    for _, e in base:
        st.assume(e)
    der = derived(g, m, num)
    for l, e in der:
        c.I.oblige(st, "lemma", e, None, l)
        st.assume(e)
    c.I.drop_map = True
    return [x for x in base if x[0] not in ("entries hold the block size", "keys count the pairs up to the block", "every boundary has an entry",
                                            "entries are run boundaries", "number of pairs")] + der


def sample_post(c):
    o = c.t
    g, m = o.f["group_"], o.f["pair_map_"]
    d, blk, start = m.dom, m.val.f["first"], m.val.f["second"]
    n = g.len
    p, q = c.r.f["first"], c.r.f["second"]
    idx = c.post.ghost["draw"]
    K, L = z3.Ints("K!sp L!sp")
    inb = z3.And(start[K] - blk[K] <= p, p < start[K])
    return [("positions in the group", z3.And(p >= 0, p < n, q >= 0, q < n)),
            ("the first target is larger", Y[g.el[p]] > Y[g.el[q]]),
            ("the index is recovered from the pair and its block", z3.Exists([K], z3.And(d[K], inb, idx == K - 1 - (q - start[K]) * blk[K] - (
                start[K] - 1 - p)))),
            ("only one block has the position", fa([K, L], z3.Implies(z3.And(d[K], d[L], inb, z3.substitute(inb, (K, L))), K == L), d[K], d[L]))]


def rng(I, s, n, a0, av):
    r = fresh_sort(z3.IntSort(), "draw")
    s.ghost["draw"] = r
    d = I.load_quiet(s, a0.path)
    # every index below the number of pairs must be drawn with equal probability
    I.oblige_q(s, "range", z3.And(d.f["a"] == 0, d.f["b"] == I.p_num - 1), n, "the index is drawn among all pairs")
    return r


def setup_s(I, st, this, args):
    setup(I, st, this, [])
    o = I.load_quiet(st, this)
    I.p_num = o.f["num_pairs_"]
    I.global_facts += run_lemmas(I, st.fork(), o.f["group_"])


SAMPLE = Contract("gbdt::Group::SamplePair", pre=sample_pre, post=sample_post, modifies=["*0"])


def rerank_pre(c):
    g = c.t.f["group_"]
    return [("rows have a score", forall_lt(g.len, lambda k: z3.And(g.el[k] >= 0, g.el[k] < c.v(0).len))),
            ("one rank per row", c.t.f["ranks_"].len == g.len)]


def rerank_post(c):
    g, r, f = c.t.f["group_"], c.T.f["ranks_"], c.v(0)
    a, b = z3.Ints("a!rr b!rr")
    n = g.len
    inn = lambda x: z3.And(x >= 0, x < n)
    two = lambda e: z3.ForAll([a, b], z3.Implies(z3.And(inn(a), inn(b), a != b), e), patterns=[z3.MultiPattern(r.el[a], r.el[b])])
    return [("ranks are positions", z3.And(r.len == n, forall_lt(n, lambda k: inn(r.el[k])))),
            ("no rank twice", two(r.el[a] != r.el[b])),
            ("better scores rank first", two(z3.Implies(r.el[a] < r.el[b], f.el[g.el[a]] >= f.el[g.el[b]])))]


RERANK = Contract("gbdt::Group::Rerank", pre=rerank_pre, post=rerank_post, modifies=["this.ranks_"])
UNITS = [Unit("Group", CTOR, TU, setup=setup, templates=templates),
         Unit("SamplePair", SAMPLE, TU, setup=setup_s, rng_hook=rng, timeout=60000),
         Unit("Rerank", RERANK, TU, setup=setup, templates=templates)]
ASSUMPTIONS = ["targets and scores are not NaN (sorting them would be undefined)"]
HARNESS = dict(src="c16.cc", only=["loss_func/group"])
BOUNDED = ["Group::Group: the content of the pair map and the number of pairs (SamplePair's precondition) are compared with a direct count over all ordered pairs "
           "on random groups of at most 400 rows (harness c16.cc); uniformity of SamplePair follows from the contracts given that precondition"]
