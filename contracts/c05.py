"""C05 Bucketized numeric columns encode every value faithfully."""
from spec import *
from tmpl import *
from vals import OrdMode
from core import TRUE
from c07 import seen
TU = [("data_store/column.cc", "gbdt")]
NANV, FMAX = OrdMode.nan_, z3.IntVal(0x7f7fffff)
INT = z3.IntSort()
GIVEN, COUNT = z3.Const("values_given", z3.ArraySort(INT, INT)), z3.Int("number_of_values_given")      # the values added before this call
CL = "gbdt::BucketizedFloatColumn::"


def rng(v, lo, hi):
    return forall_lt(hi, lambda k: z3.Or(v.el[k] == NANV, z3.And(v.el[k] >= -0x7f800000, v.el[k] <= 0x7f800000)), pats=lambda k: [v.el[k]])


def bounds_ok(v):
    i, j = z3.Ints("i!bo j!bo")
    return [("some bucket", v.len >= 2), ("bucket 0 is for missing values", v.el[0] == NANV), ("bounds are numbers", fa([i], z3.Implies(z3.And(i >= 1, i < v.len), v.el[i] != NANV), v.el[i])),
            ("bounds ascend", fa([i, j], z3.Implies(z3.And(i >= 1, i < j, j < v.len), v.el[i] < v.el[j]), z3.MultiPattern(v.el[i], v.el[j]))),
            ("last bound holds every finite value", v.el[v.len - 1] >= FMAX)]


def map_ok(o):
    m, v = o.f["bucket_map_"], o.f["bucket_maxs_"]
    x = z3.Int("x!mo")
    return [("every bound is in the map", forall_lt(v.len, lambda i: z3.Implies(i >= 1, z3.And(m.dom[v.el[i]], m.val[v.el[i]] == i)), pats=lambda i: [v.el[i]])),
            ("the map holds bounds", fa([x], z3.Implies(m.dom[x], z3.And(m.val[x] >= 1, m.val[x] < v.len, v.el[m.val[x]] == x)), m.dom[x])), ("map size", m.size >= 1)]


def mins_ok(o):
    v, w = o.f["bucket_maxs_"], o.f["bucket_mins_"]
    return [("a lower bound per bucket", w.len == v.len), ("lower bounds are numbers", forall_lt(v.len, lambda i: z3.Implies(i >= 1, w.el[i] != NANV), pats=lambda i: [w.el[i]]))]


def buckets_ok(o):
    return bounds_ok(o.f["bucket_maxs_"]) + map_ok(o) + mins_ok(o)


def holds(o, b, x):
    """Bucket b is the one of value x."""
    v, w = o.f["bucket_maxs_"], o.f["bucket_mins_"]
    return z3.If(x == NANV, b == 0, z3.And(b >= 1, b < v.len, w.el[b] <= x, z3.Or(x <= v.el[b], z3.And(b == v.len - 1, x > v.el[b])), z3.Or(b == 1, v.el[b - 1] < x)))


def widths(o):
    return [o.f["col_%d_" % w] for w in (8, 16, 32)]


def place(o):
    """(condition, vector) of the storage in use."""
    n = o.f["bucket_maxs_"].len
    a, b, c = widths(o)
    return [(n <= 256, a), (z3.And(n > 256, n <= 65536), b), (n > 65536, c)]


def only(o):
    return z3.And([z3.Implies(c, z3.And([w.len == 0 for w in widths(o) if w is not v])) for c, v in place(o)])


def ok(o):
    return o.f["status_"].f["code"] == 0


def av_post(c):
    o, p, raw = c.T, c.t, c.v(0)
    out = [("accepted", c.r.f["code"] == 0)] + mins_ok(o)
    out.append(("lower bounds only go down", forall_lt(p.f["bucket_mins_"].len, lambda j: z3.Implies(j >= 1, o.f["bucket_mins_"].el[j] <= p.f["bucket_mins_"].el[j]), pats=lambda j: [o.f["bucket_mins_"].el[j]])))
    for (cond, v), (_, v0), w in zip(place(o), place(p), (8, 16, 32)):
        out.append(("rows of the %d-bit column" % w, v.len == v0.len + z3.If(cond, raw.len, 0)))
        out.append(("earlier rows of the %d-bit column stay" % w, forall_lt(v0.len, lambda k, v=v, v0=v0: v.el[k] == v0.el[k], pats=lambda k, v=v: [v.el[k]])))
        out.append(("buckets of the new %d-bit rows" % w, z3.Implies(cond, forall_lt(raw.len, lambda k, v=v, v0=v0: holds(o, v.el[v0.len + k], raw.el[k]), pats=lambda k: [raw.el[k]]))))
    return out


def av_setup(I, st, this, args):
    I.p_this, I.p_old, I.p_raw = this, I.load_quiet(st, this), I.load_quiet(st, args[0].path)


def av_templates(I, st, hv, info):
    out = []
    g = getter(I, I.p_this)
    p, raw = I.p_old, I.p_raw
    m0 = p.f["bucket_mins_"]
    out.append(("a lower bound per bucket", lift(g)(lambda o: o.f["bucket_mins_"].len == m0.len)))
    out.append(("lower bounds are numbers", lift(g)(lambda o: mins_ok(o)[1][1])))
    out.append(("lower bounds only go down", lift(g)(lambda o: forall_lt(m0.len, lambda j: z3.Implies(j >= 1, o.f["bucket_mins_"].el[j] <= m0.el[j]), pats=lambda j: [o.f["bucket_mins_"].el[j]]))))
    for k3, w in enumerate((8, 16, 32)):
        v0 = widths(p)[k3]
        for cn, x in ints(I, st, hv, info):
            out.append(("%d-bit rows below %s" % (w, cn), lift(g, x)(lambda o, x, k3=k3, v0=v0: widths(o)[k3].len == v0.len + x)))
            out.append(("earlier %d-bit rows below %s" % (w, cn), lift(g, x)(lambda o, x, k3=k3, v0=v0: forall_lt(v0.len, lambda k: widths(o)[k3].el[k] == v0.el[k], pats=lambda k: [widths(o)[k3].el[k]]))))
            out.append(("%d-bit buckets below %s" % (w, cn), lift(g, x)(lambda o, x, k3=k3, v0=v0: forall_lt(
                x, lambda k: holds(o, widths(o)[k3].el[v0.len + k], raw.el[k]), pats=lambda k: [raw.el[k]]))))
    return out


AV = Contract(CL + "AddBucketizedVec", pre=lambda c: buckets_ok(c.t), post=av_post, modifies=["this.col_8_", "this.col_16_", "this.col_32_", "this.bucket_mins_"])
UNITS = [Unit("AddBucketizedVec", AV, TU, setup=av_setup, templates=av_templates, floats="ord", solver_opts=NOMBQI, no_frames=True)]


def represents(o, val, n):
    """The column stands for n values."""
    mx, buf = o.f["bucket_maxs_"], o.f["buffer_"]
    raw = mx.len == 0
    out = [("values wait in the buffer", z3.Implies(raw, z3.And(buf.len == n, forall_lt(n, lambda k: buf.el[k] == val(k), pats=lambda k: [buf.el[k]])))),
           ("nothing stored yet", z3.Implies(raw, z3.And([w.len == 0 for w in widths(o)]))),
           ("one width in use", z3.Implies(z3.Not(raw), only(o)))]
    out += [(l, z3.Implies(z3.Not(raw), e)) for l, e in buckets_ok(o)]
    for (cond, v), w in zip(place(o), (8, 16, 32)):
        out.append(("%d-bit rows" % w, z3.Implies(z3.And(z3.Not(raw), cond), z3.And(v.len == n, forall_lt(n, lambda k, v=v: holds(o, v.el[k], val(k)), pats=lambda k, v=v: [v.el[k]])))))
    return out


def usable(o):
    return [("in order", ok(o)), ("not finalized", z3.Not(o.f["finalized_"])), ("some buckets", o.f["num_buckets_"] >= 1), ("values", z3.And(COUNT >= 0, COUNT <= MAXSZ))]


def bb_pre(c):
    return usable(c.t)[:3] + [("buckets are not built", c.t.f["bucket_maxs_"].len == 0), ("nothing stored", z3.And([w.len == 0 for w in widths(c.t)])), ("no map yet", c.t.f["bucket_map_"].size == 0)]


def bb_post(c):
    b = c.t.f["buffer_"]
    return [("in order", ok(c.T)), ("buckets are built", c.T.f["bucket_maxs_"].len >= 2)] + represents(c.T, lambda k: b.el[k], b.len)


FIELDS = ["this.col_8_", "this.col_16_", "this.col_32_", "this.bucket_mins_", "this.bucket_maxs_", "this.bucket_map_", "this.buffer_", "this.status_"]
BB = Contract(CL + "BuildBuckets", pre=bb_pre, post=bb_post, modifies=FIELDS)


def empty_map(o):
    return [("map of bounds only", z3.Implies(o.f["bucket_maxs_"].len == 0, o.f["bucket_map_"].size == 0))]


def ad_pre(c):
    return usable(c.t) + represents(c.t, lambda k: GIVEN[k], COUNT) + empty_map(c.t)


def ad_post(c):
    raw = c.d(0)
    return [("in order", ok(c.T))] + represents(c.T, lambda k: z3.If(k < COUNT, GIVEN[k], raw.el[k - COUNT]), COUNT + raw.len) + empty_map(c.T)


def ad_setup(I, st, this, args):
    I.p_this, I.p_old, I.p_raw = this, I.load_quiet(st, this), I.load_quiet(st, I.load_quiet(st, args[0].path).path)


def ad_templates(I, st, hv, info):
    g = getter(I, I.p_this)
    b0, raw = I.p_old.f["buffer_"], I.p_raw
    out = [("buffered values stay", lift(g)(lambda o: forall_lt(b0.len, lambda k: o.f["buffer_"].el[k] == b0.el[k], pats=lambda k: [o.f["buffer_"].el[k]])))]
    for cn, x in ints(I, st, hv, info):
        out.append(("buffered below %s" % cn, lift(g, x)(lambda o, x: z3.And(o.f["buffer_"].len == b0.len + x, forall_lt(
            o.f["buffer_"].len, lambda k: z3.Implies(k >= b0.len, o.f["buffer_"].el[k] == raw.el[k - b0.len]), pats=lambda k: [o.f["buffer_"].el[k]])))))
    return out


def fi_post(c):
    rd = seen(c)
    return [("in order", ok(c.T)), ("finalized", c.T.f["finalized_"]), ("as many rows", rd.len == COUNT),
            ("every row's bucket holds its value", forall_lt(COUNT, lambda k: holds(c.T, rd.el[k], GIVEN[k]), pats=lambda k: [rd.el[k]]))] + bounds_ok(c.T.f["bucket_maxs_"]) + mins_ok(c.T)


KW = dict(floats="ord", solver_opts=NOMBQI, no_frames=True)
ADD = Contract(CL + "Add", pre=ad_pre, post=ad_post, modifies=FIELDS)
FIN = Contract(CL + "Finalize", pre=lambda c: ad_pre(c) + [("no reader yet", TRUE)], post=fi_post, modifies=FIELDS + ["this.col_", "this.finalized_"])
UNITS += [Unit("BucketizedFloatColumn::Add", ADD, TU, uses=[AV, BB], setup=ad_setup, templates=ad_templates, **KW),
          Unit("BucketizedFloatColumn::Finalize", FIN, TU, uses=[BB], **KW)]
TRUSTED = ["IntegerCol::operator[] and size through the base class: dynamic dispatch to the three readers, each verified under C07",
           "BuildBuckets is used through an assumed contract; the replay harness checks its result on the real code only (bounded)"]
ASSUMPTIONS = ["32-bit floats are modelled exactly by their order (only copies and comparisons occur); -0 and 0 are one value", "containers hold fewer than 2^31 elements", "num_buckets is at least 1"]
HARNESS = dict(src="c05.cc", only=["data_store/column.cc"])
