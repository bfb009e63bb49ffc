"""C11 The returned split routes rows the way it was scored."""
from split import *


def par(I, st, i, t, p):
    if i == 0:
        return column_ref(I, st, "feature")
    if i == 3:
        return slice_param(I, st, "samples")
    return None


def par2(I, st, i, t, p):
    return slice_param(I, st, "samples") if i == 3 else None


def templates(I, st, hv, info):
    """Copying a run of listed buckets."""
    out = []
    gh = st.ghost.get("scan")
    if gh is None:
        return out
    nz, lp = gh[0].f["non_zero_values_"], gh[1].f["left_point"]
    for n, v in vecs(I, st, hv, info, is_int_arr):
        for cn, x in ints(I, st, hv, info):
            for a in (z3.IntVal(0), lp + 1):
                out.append(("%s holds the buckets from %s up to %s" % (n, a, cn), lift(v, x)(lambda v, x, a=a: z3.And(
                    x >= a, v.len == x - a, forall_lt(x - a, lambda k: v.el[k] == nz.el[a + k])))))
    return out


USES = READERS + [MAXI, HISTB, SORTB, FBSPB]
UNITS = [Unit("FindBestFloatSplit", FFLOAT, TU, uses=USES, param_fn=par, floats="fp", timeout=60000, chain=True),
         Unit("FindBestStringSplit", FCAT, TU, uses=USES, param_fn=par, templates=templates),
         Unit("FindBestSplit", DISP, TU, uses=READERS + [MAXI, CFLOAT, CCAT], param_fn=par2, floats="ord")]
HARNESS = dict(src="c09.cc")
