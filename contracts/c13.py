"""C13 Newton arithmetic on gradient pairs."""
from spec import *
TU = [("gbdt_algo/split_algo.cc", "gbdt")]
G = "gbdt::GradientData::"


def comp(op):
    def post(c):
        a, b, r = c.t, c.v(0), c.r
        return [("g componentwise", r.f["g"] == op(a.f["g"], b.f["g"])), ("h componentwise", r.f["h"] == op(a.f["h"], b.f["h"]))]
    return post


def acc(c):
    a, b, T = c.t, c.v(0), c.T
    return [("g accumulated", T.f["g"] == a.f["g"] + b.f["g"]), ("h accumulated", T.f["h"] == a.f["h"] + b.f["h"])]


def scale(c):
    return [("g scaled", c.r.f["g"] == c.v(0) * c.t.f["g"]), ("h scaled", c.r.f["h"] == c.v(0) * c.t.f["h"])]


def scale_l(c):
    return [("g scaled", c.r.f["g"] == c.v(0) * c.v(1).f["g"]), ("h scaled", c.r.f["h"] == c.v(0) * c.v(1).f["h"])]


def quot(num):
    def post(c):
        d = c.t.f["h"] + c.v(0)
        n = num(c.t.f["g"])
        return [("quotient", z3.Implies(d != 0, c.r * d == n)), ("zero divisor", z3.Implies(d == 0, c.r == 0))]
    return post


SUB = Contract(G + "operator-", post=comp(lambda a, b: a - b))
ADD = Contract(G + "operator+", post=comp(lambda a, b: a + b))
ACC = Contract(G + "operator+=", post=acc, modifies=["this"])
MUL = Contract(G + "operator*", post=scale)
MULL = Contract("gbdt::operator*", post=scale_l, params=["float", "GradientData"])
ENERGY = Contract(G + "Energy", post=quot(lambda g: g * g))
SCORE = Contract(G + "Score", post=quot(lambda g: g))


def ladd(c):
    a, b, r = c.t, c.v(0), c.r
    f = lambda o, *n: o.f[n[0]] if len(n) == 1 else o.f[n[0]].f[n[1]]
    return [("loss", f(r, "loss") == f(a, "loss") + f(b, "loss"))] + \
        [(n, f(r, "gradient_data", n) == f(a, "gradient_data", n) + f(b, "gradient_data", n)) for n in "gh"]


def mk(c):
    return [("g", c.T.f["g"] == c.v(0)), ("h", c.T.f["h"] == c.v(1))]


def mk0(c):
    return [("g", c.T.f["g"] == 0), ("h", c.T.f["h"] == 0)]


def mkl(c):
    return [("loss", c.T.f["loss"] == c.v(0)), ("g", c.T.f["gradient_data"].f["g"] == c.v(1)),
            ("h", c.T.f["gradient_data"].f["h"] == c.v(2))]


LADD = Contract("gbdt::LossFuncData::operator+", post=ladd)
UNITS = [Unit("GradientData - GradientData", SUB, TU), Unit("GradientData + GradientData", ADD, TU),
         Unit("GradientData +=", ACC, TU), Unit("GradientData * float", MUL, TU), Unit("float * GradientData", MULL, TU),
         Unit("Energy", ENERGY, TU), Unit("Score", SCORE, TU), Unit("LossFuncData +", LADD, TU),
         Unit("GradientData(g,h)", Contract(G + "GradientData", post=mk, params=["double", "double"], modifies=["this"]), TU),
         Unit("GradientData()", Contract(G + "GradientData", post=mk0, params=[], modifies=["this"]), TU),
         Unit("LossFuncData(loss,g,h)", Contract("gbdt::LossFuncData::LossFuncData", post=mkl,
                                                  params=["double", "double", "double"], modifies=["this"]), TU)]
HARNESS = dict(src="c13.cc", only=[])
