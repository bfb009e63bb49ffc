"""C09 The chosen split point is an admissible optimum of the scanned candidates."""
from split import *


def setup(I, st, this, args):
    ld = lambda i: I.load_quiet(st, args[i].path)
    I.p_scan = Scan(ld(2), ld(1), ld(3), ld(4))
    I.p_sp = ld(5).path
    I.global_facts += left_axioms()


def templates(I, st, hv, info):
    out = []
    s = I.p_scan
    rs, cs = reals(I, st, hv, info), ints(I, st, hv, info)
    sp = getter(I, I.p_sp)
    for cn, c in cs:
        for rn, r in rs:
            out.append(("%s is the left gradient below %s" % (rn, cn), lift(r, c)(lambda r, c: r == LG(s.g, s.nz, c))))
            out.append(("%s is the left hessian below %s" % (rn, cn), lift(r, c)(lambda r, c: r == LG(s.h, s.nz, c))))
        for i in range(3):
            out.append(("best below %s (%d)" % (cn, i), lift(sp, c)(lambda p, c, i=i: s.best(
                c, p.f["left_point"], p.f["missing_on_right"], p.f["gain"])[i][1])))
    out.append(("missing only if placed", lift(sp)(lambda p: z3.Implies(p.f["missing_on_right"], z3.And(s.place, s.has_missing)))))
    return out


UNITS = [Unit("FindBestSplitPoint", FBSP, TU, ground_full=False, uses=[ENERGY], setup=setup, templates=templates,
              param_fn=lambda I, st, i, t, p: own_param(I, st, t, "split_point") if i == 5 else None)]
HARNESS = dict(src="c09.cc")
