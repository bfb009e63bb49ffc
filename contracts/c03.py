"""C03 Work division covers every row exactly once."""
from spec import *
from tmpl import *
TU = [("utils/subsampling.cc", "gbdt"), ("utils/subsampling.cc", "VectorSlice")]


def S(I, k):
    """Start of group k when n rows go into g groups: the first n mod g groups are one larger."""
    q, r = I.p_n / I.p_g, I.p_n % I.p_g
    return k * q + z3.If(k < r, k, r)


def size_of(I, k):
    return I.p_n / I.p_g + z3.If(k < I.p_n % I.p_g, z3.IntVal(1), z3.IntVal(0))


def templates(I, st, hv, info):
    out = []
    q, r = I.p_n / I.p_g, I.p_n % I.p_g
    cs = ints(I, st, hv, info)
    for n, v in vecs(I, st, hv, info, is_int_arr):
        for cn, c in cs:
            for nm, body in (("q", lambda k: q), ("q+1", lambda k: q + 1), ("size", lambda k: size_of(I, k))):
                out.append(("%s[k] = %s below %s" % (n, nm, cn), lift(v, c)(
                    lambda v, c, body=body: forall_lt(c, lambda k: v.el[k] == body(k)))))
                out.append(("%s[k] = %s from %s" % (n, nm, cn), lift(v, c)(
                    lambda v, c, body=body: qall(lambda k: z3.Implies(z3.And(k >= c, k < v.len), v.el[k] == body(k))))))
                if nm == "q":
                    out.append(("%s[k] = identity below %s" % (n, cn), lift(v, c)(lambda v, c: forall_lt(c, lambda k: v.el[k] == k))))
    pr = lambda el: isinstance(el, Obj) and set(el.f) in ({"first", "second"}, {"begin_", "end_"})
    base = getattr(I, "p_b", z3.IntVal(0))
    for n, v in vecs(I, st, hv, info, pr):
        def ends(el):
            return (el.f["first"], el.f["second"]) if "first" in el.f else (el.f["begin_"].pos, el.f["end_"].pos)
        out.append(("%s[k] is group k" % n, lift(v)(lambda v: forall_lt(v.len, lambda k: z3.And(
            ends(v.el)[0][k] == base + S(I, k), ends(v.el)[1][k] == base + S(I, k + 1))))))
        for cn, c in cs:
            out.append(("%s = start of group |%s|" % (cn, n), lift(v, c)(lambda v, c: c == base + S(I, v.len))))
    for cn, c in cs:
        for dn, d in cs:
            if cn != dn:
                out.append(("%s = start of group %s" % (cn, dn), lift(c, d)(lambda c, d: c == base + S(I, d))))
    return out


def post_groups(c, first, second, n, base):
    g = c.I.p_g
    q = n / g
    L = c.r.len
    return [("as many groups as asked for", L == g),
            ("starts at the first row", first[0] == base),
            ("ends at the last row", second[g - 1] == base + n),
            ("groups follow one another", forall_lt(g - 1, lambda k: second[k] == first[k + 1])),
            ("sizes differ by at most one", forall_lt(g, lambda k: z3.And(second[k] - first[k] >= q, second[k] - first[k] <= q + 1,
                                                                          second[k] >= first[k])))]


def setup_int(I, st, this, args):
    I.p_n, I.p_g = I.load_quiet(st, args[0].path), I.load_quiet(st, args[1].path)


def pre_int(c):
    return [("rows", c.v(0) >= 0), ("groups", c.v(1) >= 1)]


def post_int(c):
    el = c.r.el
    return post_groups(c, el.f["first"], el.f["second"], c.v(0), z3.IntVal(0))


def setup_sl(I, st, this, args):
    v = I.load_quiet(st, args[0].path)
    I.p_b = v.f["begin_"].pos
    I.p_n, I.p_g = v.f["end_"].pos - v.f["begin_"].pos, I.load_quiet(st, args[1].path)


def par_sl(I, st, i, t, p):
    return slice_param(I, st, "samples") if i == 0 else None


def post_sl(c):
    el = c.r.el
    s = c.v(0)
    if not same_path(el.f["begin_"].cont, s.f["begin_"].cont) or not same_path(el.f["end_"].cont, s.f["begin_"].cont):
        return [("slices of the given rows", FALSE)]
    return post_groups(c, el.f["begin_"].pos, el.f["end_"].pos, s.f["end_"].pos - s.f["begin_"].pos, s.f["begin_"].pos)


def post_all(c):
    return [("n rows", c.r.len == c.v(0)), ("row k at place k", forall_lt(c.v(0), lambda k: c.r.el[k] == k))]


def t_all(I, st, hv, info):
    out = []
    for n, v in vecs(I, st, hv, info, is_int_arr):
        for cn, c in ints(I, st, hv, info):
            out.append(("%s[k]=k below %s" % (n, cn), lift(v, c)(lambda v, c: forall_lt(c, lambda k: v.el[k] == k))))
        out.append(("%s[k]=k" % n, lift(v)(lambda v: forall_lt(v.len, lambda k: v.el[k] == k))))
        for cn, c in ints(I, st, hv, info):
            out.append(("%s is |%s|" % (cn, n), lift(v, c)(lambda v, c: v.len == c)))
    return out


DIV_INT = Contract("gbdt::Subsampling::DivideSamples", pre=pre_int, post=post_int, params=["int", "int"])
DIV_SL = Contract("gbdt::Subsampling::DivideSamples", pre=lambda c: [("groups", c.v(1) >= 1)], post=post_sl, params=["VectorSlice", "int"])
ALL = Contract("gbdt::Subsampling::CreateAllSamples", pre=lambda c: [("fits", c.v(0) <= MAXSZ)], post=post_all)
def setup_copy(I, st, this, args):
    v = I.load_quiet(st, args[0].path)
    I.p_s = v
    I.p_under = I.load_quiet(st, v.f["begin_"].cont).el


def t_copy(I, st, hv, info):
    out = []
    b = I.p_s.f["begin_"].pos
    for n, v in vecs(I, st, hv, info, is_int_arr):
        out.append(("%s is a prefix" % n, lift(v)(lambda v: forall_lt(v.len, lambda k: v.el[k] == I.p_under[b + k]))))
        for cn, c in ints(I, st, hv, info):
            out.append(("%s = |%s|" % (cn, n), lift(v, c)(lambda v, c: c == b + v.len)))
            out.append(("%s = |%s| (offset)" % (cn, n), lift(v, c)(lambda v, c: c == v.len)))
            out.append(("%s copied below %s" % (n, cn), lift(v, c)(lambda v, c: forall_lt(c, lambda k: v.el[k] == I.p_under[b + k]))))
    return out


def post_copy(c):
    s = c.v(0)
    b, e = s.f["begin_"].pos, s.f["end_"].pos
    u = c._ld(c.st, s.f["begin_"].cont).el
    return [("as many rows", c.r.len == e - b), ("every row in order", forall_lt(e - b, lambda k: c.r.el[k] == u[b + k]))]


COPY = Contract("VectorSliceToVector", post=post_copy)
TU_U = [("utils/utils.cc", "gbdt"), ("utils/utils.cc", "VectorSlice")]
UNITS = [Unit("VectorSliceToVector", COPY, TU_U, setup=setup_copy, templates=t_copy, param_fn=par_sl),
         Unit("DivideSamples(int,int)", DIV_INT, TU, setup=setup_int, templates=templates),
         Unit("DivideSamples(slice,int)", DIV_SL, TU, setup=setup_sl, templates=templates, param_fn=par_sl),
         Unit("CreateAllSamples", ALL, TU, templates=t_all)]
HARNESS = dict(src="c03.cc", only=["utils/subsampling", "utils/utils"])
