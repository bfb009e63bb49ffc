"""C10 Histograms are exact weighted sums."""
from split import *


def par(I, st, i, t, p):
    if i == 0:
        return column_ref(I, st, "feature")
    if i == 3:
        return slice_param(I, st, "samples")
    return None


def setup(I, st, this, args):
    I.p_args = args


def tmpl(I, st, hv, info):
    out = []
    c = CallCtx(I, None, None, I.p_entry, None, I.p_args)
    feat = cols.addr_of(I.p_args[0].path)
    s = HistSpec(c, feat, c.v(1), c.v(2), c.v(3))
    its = terms(I, st, hv, info, z3.IntSort())
    cs = ints(I, st, hv, info)
    for n, v in vecs(I, st, hv, info, lambda el: isinstance(el, Obj)):
        for cn, x in its:
            for i in range(2):
                out.append(("%s sums below %s (%d)" % (n, cn, i), lift(v, x)(lambda v, x, i=i: s.sums(v.el.f["g"], v.el.f["h"], x)[i][1])))
                out.append(("%s sums below begin+%s (%d)" % (n, cn, i), lift(v, x)(lambda v, x, i=i: s.sums(v.el.f["g"], v.el.f["h"], s.b + x)[i][1])))
    hist = [(n, v) for n, v in vecs(I, st, hv, info, lambda el: isinstance(el, Obj), every=True) if "this" in n]
    for n, nz in vecs(I, st, hv, info, is_int_arr):
        for hn, hs in hist:
            for cn, x in cs:
                for i in range(3):
                    out.append(("%s lists %s below %s (%d)" % (n, hn, cn, i), lift(nz, hs, x)(
                        lambda nz, hs, x, i=i: listed(nz, hs.el.f["g"], hs.el.f["h"], x)[i][1])))
    return out


def setup2(I, st, this, args):
    I.p_args = args
    I.heap_root(st, CCLS)
    I.p_entry = st.fork()
    c = CallCtx(I, None, None, st, None, args)
    s = HistSpec(c, cols.addr_of(args[0].path), c.v(1), c.v(2), c.v(3))
    for x in (s.G, s.H):
        I.global_facts += hs_axioms(s.rd, s.w, x, s.rows, s.b)


UNITS = [Unit("Histogram", HIST, TU, uses=READERS + [MAXI], setup=setup2, templates=tmpl, param_fn=par),
         Unit("SortOnNodeScore", SORT, TU, uses=[SCORE])]
HARNESS = dict(src="c10.cc")
