"""C18 Unusable configurations and targets are rejected."""
from spec import *
from tmpl import *
from cols import *
import c17
TC = [("gbdt_algo/utils.cc", "gbdt")]
TL = [("loss_func/loss_func_logloss.cc", "gbdt")]
TH = [("loss_func/loss_func_huberized_hinge.cc", "gbdt")]
TP = [("loss_func/loss_func_pairwise.cc", "gbdt")]


def in01(I, x):
    """A number in (0, 1] (not NaN)."""
    so = x.sort()
    return z3.And(z3.fpGT(x, z3.FPVal(0.0, so)), z3.fpLEQ(x, z3.FPVal(1.0, so)))


def cc_post(c):
    f = c.v(0).f
    ok = z3.And(f["num_trees"] > 0, f["num_leaves"] > 0, in01(c.I, f["example_sampling_rate"]), in01(c.I, f["feature_sampling_rate"]))
    return [("refused exactly if unusable", (c.r.f["code"] == 0) == ok)]


CC = Contract("CheckConfig", post=cc_post, params=["Config"])


def good(I, y):
    so = y.sort()
    return z3.Or(z3.fpEQ(y, z3.FPVal(1.0, so)), z3.fpEQ(y, z3.FPVal(-1.0, so)))


def init_pre(c):
    return [("rows", z3.And(c.v(0) >= 0, c.v(0) <= MAXSZ))]


def init_post(c):
    n, y = c.v(0), c.v(2).arr
    return [("refused exactly if a target is neither 1 nor -1", (c.r.f["code"] == 0) == forall_lt(n, lambda k: good(c.I, y[k]), pats=lambda k: [y[k]]))]


def init_templates(I, st, hv, info):
    out = []
    y = I.p_y
    for cn, c in ints(I, st, hv, info):
        out.append(("targets below %s are fine" % cn, lift(c)(lambda c: forall_lt(c, lambda k: good(I, y[k]), pats=lambda k: [y[k]]))))
    return out


def init_setup(I, st, this, args):
    I.p_y = I.load_quiet(st, args[2].path).arr


POINT = Contract("Pointwise::Init", modifies=["this"], post=lambda c: [("accepted", c.r.f["code"] == 0)])
LI = Contract("LogLoss::Init", pre=init_pre, post=init_post, modifies=["this"])
HI = Contract("HuberizedHinge::Init", pre=init_pre, post=init_post, modifies=["this"])
UNITS = [Unit("CheckConfig", CC, TC, floats="fp"),
         Unit("LogLoss::Init", LI, TL, uses=[POINT], floats="fp", templates=init_templates, setup=init_setup),
         Unit("HuberizedHinge::Init", HI, TH, uses=[POINT], floats="fp", templates=init_templates, setup=init_setup)]
UNITS += [u for u in c17.UNITS if u.name == "Pairwise::Init"]
BOUNDED = ["LossFuncFactory::CreateLossFunc (its map of lambdas): known and unknown names, by the replay harness only"]
ASSUMPTIONS = ["Pointwise::Init accepts (checked by the replay harness)"]
HARNESS = dict(src="c18.cc")
