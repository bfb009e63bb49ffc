"""C01 Routing rows through a split."""
from spec import *
from tmpl import *
from cols import *
TU = [("gbdt_algo/split_algo.cc", "gbdt"), ("gbdt_algo/split_algo.cc", "VectorSlice"), ("data_store/column.cc", "gbdt")]


def setup(I, st, this, args):
    I.p_args = args
    sl = I.load_quiet(st, args[2].path)
    I.p_under = sl.f["begin_"].cont
    I.p_b, I.p_e = sl.f["begin_"].pos, sl.f["end_"].pos
    I.p_split = I.load_quiet(st, args[1].path)
    I.p_feat = I.load_quiet(st, args[0].path)


def par(I, st, i, t, p):
    return slice_param(I, st, "samples", tracked=True) if i == 2 else None


def gets_left_float(I, c, st, split, feat, row):
    fs = split.f["float_split"]
    cv = COLV(reader(c, feat, st), row)
    bm = cfield(c, "bucket_maxs_", feat, st)
    return z3.If(cv == 0, z3.Not(fs.f["missing_to_right_child"]), I.fm.lt(bm.el[cv], fs.f["threshold"]))


def in_set(I, c, st, split, feat, cat):
    cs = split.f["cat_split"]
    ii, cc = cs.f["internal_categorical_index"], cs.f["category"]
    m = cfield(c, "map_to_indices_", feat, st)
    j = z3.Int("j!cat")
    byidx = z3.Exists([j], z3.And(j >= 0, j < ii.len, ii.el[j] == cat))
    byname = z3.Exists([j], z3.And(j >= 0, j < cc.len, m.dom[cc.el[j]], m.val[cc.el[j]] == cat))
    return z3.If(ii.len > 0, byidx, byname)


def gets_left_cat(I, c, st, split, feat, row):
    return in_set(I, c, st, split, feat, COLV(reader(c, feat, st), row))


def gets_left_any(I, c, st, split, feat, row):
    ty = cfield(c, "type_", feat, st)
    return z3.If(ty == 0, gets_left_cat(I, c, st, split, feat, row),
                 z3.If(ty == 1, gets_left_float(I, c, st, split, feat, row), FALSE))


def column_inv(c, feat, under, b, e, kind):
    """The rows exist in the column and its integers are category / bucket numbers."""
    rd = reader(c, feat)
    k = z3.Int("k!ci")
    row = sel_leaf(under.el, k) if not isinstance(under.el, Tracked) else under.el.a0[k]
    out = [("column", feat != 0), ("reader", rd != 0),
           ("rows exist", z3.ForAll([k], z3.Implies(z3.And(k >= b, k < e), z3.And(row >= 0, row < COLN(rd))), patterns=[row]))]
    if kind == "float":
        bm = cfield(c, "bucket_maxs_", feat)
        j = z3.Int("j!ci")
        out.append(("bucket numbers", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < COLN(rd)), z3.And(
            COLV(rd, j) >= 0, COLV(rd, j) < bm.len)), patterns=[COLV(rd, j)])))
    return out


def pre(kind):
    def f(c):
        split, sl = c.v(1), c.v(2)
        feat = c.v(0).addr
        under = c._ld(c.st, sl.f["begin_"].cont)
        b, e = sl.f["begin_"].pos, sl.f["end_"].pos
        out = [("slice", z3.And(b >= 0, b <= e, e <= under.len))]
        ty = cfield(c, "type_", feat)
        if kind == "any":
            out.append(("column", feat != 0))
            out.append(("split fits a numeric feature", z3.Implies(ty == 1, split.f["has_float_split"])))
            out.append(("split fits a categorical feature", z3.Implies(ty == 0, split.f["has_cat_split"])))
            for k in ("cat", "float"):
                for l, x in column_inv(c, feat, under, b, e, k):
                    out.append((l, z3.Implies(ty == (0 if k == "cat" else 1), x)))
        else:
            out += column_inv(c, feat, under, b, e, kind)
            out.append(("split fits the feature", split.f["has_float_split" if kind == "float" else "has_cat_split"]))
        return out
    return f


def permuted(I, old, new, b, e):
    """new is old with the places in [b,e) permuted: places stay inside, are distinct, and nothing else moves.

    (Distinct places inside a finite range are a permutation of it: pigeonhole, stated in DESIGN.md.)"""
    i, j = z3.Ints("i!pm j!pm")
    # relative to old: new.p must be old.p composed with a rearrangement
    P, P0 = new.el.p, old.el.p
    return [("rows stay in the slice", forall_lt(e, lambda k: z3.And(P[k] >= b, P[k] < e), lo=b, pats=None)),
            ("no row twice", z3.ForAll([i, j], z3.Implies(z3.And(i >= b, i < j, j < e), P[i] != P[j]),
                                       patterns=[z3.MultiPattern(P[i], P[j])])),
            ("rows outside untouched", qall(lambda k: (z3.Implies(z3.Or(k < b, k >= e), P[k] == P0[k]), [P[k]])))]


def post(pred):
    def f(c):
        I = c.I
        split, sl = c.v(1), c.v(2)
        feat = c.v(0).addr
        cont = sl.f["begin_"].cont
        b, e = sl.f["begin_"].pos, sl.f["end_"].pos
        l, r = c.r.f["first"], c.r.f["second"]
        for x in (l.f["begin_"], l.f["end_"], r.f["begin_"], r.f["end_"]):
            if not same_path(x.cont, cont):
                return [("groups are slices of the given rows", FALSE)]
        m = l.f["end_"].pos
        old, new = c._ld(c.st, cont), c._ld(c.post, cont)
        row = lambda k: sel_leaf(new.el, k)
        out = [("groups cover the slice", z3.And(l.f["begin_"].pos == b, r.f["begin_"].pos == m, r.f["end_"].pos == e, b <= m, m <= e)),
               ("same vector length", new.len == old.len)]
        if isinstance(new.el, Tracked):
            out += permuted(I, old, new, b, e)
        P = (lambda k: [new.el.p[k]]) if isinstance(new.el, Tracked) else (lambda k: [new.el[k]])
        out.append(("left group goes left", qall(lambda k: (z3.Implies(z3.And(k >= b, k < m), pred(I, c, c.st, split, feat, row(k))), P(k)))))
        out.append(("right group goes right", qall(lambda k: (z3.Implies(z3.And(k >= m, k < e), z3.Not(pred(I, c, c.st, split, feat, row(k)))), P(k)))))
        return out
    return f


def result(ctx, post, rt):
    sl = ctx.v(2)
    cont = sl.f["begin_"].cont
    it = lambda: Iter(cont, fresh_sort(z3.IntSort(), "part"))
    m = it()
    mk = lambda a, b: Obj("VectorSlice<unsigned int>", {"begin_": a, "end_": b})
    return Obj("pair", {"first": mk(it(), m), "second": mk(m, it())})


def templates(pred):
    def f(I, st, hv, info):
        out = []
        c = CallCtx(I, None, None, I.p_entry, None, I.p_args)
        u = I.p_under
        b, e = I.p_b, I.p_e
        un = getter(I, u)
        row = lambda v, k: sel_leaf(v.el, k)
        feat = I.p_feat.addr
        pr = lambda v, k: pred(I, c, I.p_entry, I.p_split, feat, row(v, k))
        if isinstance(un(hv), Vec) and isinstance(un(hv).el, Tracked) and u[0] in info.modified:
            old = un(st)
            for i in range(3):
                out.append(("permutation %d" % i, lift(un)(lambda v, i=i: permuted(I, old, v, b, e)[i][1])))
            cs = ints(I, st, hv, info)
            for n, x in cs:
                out.append(("rows before %s go left" % n, lift(un, x)(lambda v, x: qall(lambda k: (z3.Implies(
                    z3.And(k >= b, k < b + x), pr(v, k)), [v.el.p[k]])))))
                out.append(("rows before %s go left (absolute)" % n, lift(un, x)(lambda v, x: qall(lambda k: (z3.Implies(
                    z3.And(k >= b, k < x), pr(v, k)), [v.el.p[k]])))))
                out.append(("rows from %s untouched" % n, lift(un, x)(lambda v, x: qall(lambda k: (z3.Implies(
                    z3.And(k >= b + x), v.el.p[k] == k), [v.el.p[k]])))))
                for n2, y in cs:
                    if n2 != n:
                        out.append(("rows in %s..%s go right" % (n, n2), lift(un, x, y)(lambda v, x, y: qall(lambda k: (z3.Implies(
                            z3.And(k >= b + x, k < b + y), z3.Not(pr(v, k))), [v.el.p[k]])))))
        # building the category set
        cs_ = I.p_split.f["cat_split"]
        ii, cc = cs_.f["internal_categorical_index"], cs_.f["category"]
        m = cfield(c, "map_to_indices_", feat, I.p_entry)
        for root in info.modified:
            if root in hv.store and isinstance(hv.store[root], MapV) and hv.store[root].val is None:
                g = getter(I, (root, ()))
                j, x_ = z3.Ints("j!t x!t")
                for n, x in ints(I, st, hv, info):
                    out.append(("%s holds the categories named so far (%s)" % (root, n), lift(g, x)(lambda s, x: z3.ForAll([x_], s.dom[x_] == z3.Exists(
                        [j], z3.And(j >= 0, j < x, m.dom[cc.el[j]], m.val[cc.el[j]] == x_)), patterns=[s.dom[x_]]))))
                    out.append(("%s holds the categories numbered so far (%s)" % (root, n), lift(g, x)(lambda s, x: z3.ForAll([x_], s.dom[x_] == z3.Exists(
                        [j], z3.And(j >= 0, j < x, ii.el[j] == x_)), patterns=[s.dom[x_]]))))
        return out
    return f


def setup2(I, st, this, args):
    setup(I, st, this, args)
    I.p_entry = st.fork()
    I.heap_root(I.p_entry, CCLS)
    I.heap_root(st, CCLS)


PF = Contract("gbdt::Partition", pre=pre("float"), post=post(gets_left_float), params=["BucketizedFloatColumn", "Split", "VectorSlice"],
              modifies=["~2"], result=result)
PC = Contract("gbdt::Partition", pre=pre("cat"), post=post(gets_left_cat), params=["StringColumn", "Split", "VectorSlice"],
              modifies=["~2"], result=result)
PA = Contract("gbdt::Partition", pre=pre("any"), post=post(gets_left_any), params=["Column", "Split", "VectorSlice"],
              modifies=["~2"], result=result)
UNITS = [Unit("Partition(numeric)", PF, TU, uses=READERS, setup=setup2, param_fn=par, templates=templates(gets_left_float), floats="ord"),
         Unit("Partition(categorical)", PC, TU, uses=READERS, setup=setup2, param_fn=par, templates=templates(gets_left_cat), floats="ord"),
         Unit("Partition(any)", PA, TU, uses=READERS + [PF, PC], setup=setup2, param_fn=par, floats="ord")]
HARNESS = dict(src="c01.cc")
