"""C14 Loss formulas."""
from spec import *
from lib import EXP, LOG, exp_axioms
TU = [("loss_func/loss_func_math.cc", "gbdt")]


def parts(c):
    return [c.r.f[str(i)] for i in range(3)]


def mse(c):
    y, f = c.v(0), c.v(1)
    l, g, h = parts(c)
    d = y - f
    return [("loss", l == d * d), ("gradient", g == d), ("hessian", h == 1), ("loss not negative", l >= 0), ("hessian not negative", h >= 0)]


def pm1(y):
    return z3.Or(y == 1, y == -1)


def logl(c):
    y, f = c.v(0), c.v(1)
    l, g, h = parts(c)
    E = EXP(-(y * f))
    return [("loss", l == LOG(1 + E)), ("gradient", g * (1 + E) == y * E), ("hessian", h * ((1 + E) * (1 + E)) == E),
            ("loss not negative", l >= 0), ("hessian not negative", h >= 0),
            ("gradient between 0 and the target", z3.And(z3.Implies(y >= 0, z3.And(g >= 0, g <= y)),
                                                         z3.Implies(y <= 0, z3.And(g <= 0, g >= y))))]


def log_ax(I):
    x = z3.Real("x!lx")
    return exp_axioms() + [
        # log(1 + 1/e^x) = log(1 + e^x) - x
        z3.ForAll([x], LOG(1 + EXP(-x)) == LOG(1 + EXP(x)) - x, patterns=[LOG(1 + EXP(x))]),
        z3.ForAll([x], LOG(1 + EXP(-x)) == LOG(1 + EXP(x)) - x, patterns=[EXP(-x)])]


def hub(c):
    y, f = c.v(0), c.v(1)
    l, g, h = parts(c)
    e = y * f
    half = z3.RealVal("1/2")
    return [("loss", l == z3.If(e >= 1, z3.RealVal(0), z3.If(e >= 0, half * (1 - e) * (1 - e), half - e))),
            ("gradient", g == z3.If(e >= 1, z3.RealVal(0), z3.If(e >= 0, (1 - e) * y, y))),
            ("hessian", h == z3.If(z3.And(e >= 0, e < 1), z3.RealVal(1), z3.RealVal(0))),
            ("loss not negative", l >= 0), ("hessian not negative", h >= 0)]


def sqh(c):
    y, f = c.v(0), c.v(1)
    l, g, h = parts(c)
    e = y - f
    a = e * y > 0
    return [("loss", l == z3.If(a, e * e, z3.RealVal(0))), ("gradient", g == z3.If(a, e, z3.RealVal(0))),
            ("hessian", h == z3.If(a, z3.RealVal(1), z3.RealVal(0))), ("loss not negative", l >= 0), ("hessian not negative", h >= 0)]


MSE = Contract("gbdt::ComputeMSE", post=mse)
LOGL = Contract("gbdt::ComputeLogLoss", post=logl)
HUB = Contract("gbdt::ComputeHuberizedHinge", post=hub)
SQH = Contract("gbdt::ComputeSquaredHinge", post=sqh)
UNITS = [Unit("ComputeMSE", MSE, TU), Unit("ComputeLogLoss", LOGL, TU, axioms=log_ax, exp_range=True),
         Unit("ComputeHuberizedHinge", HUB, TU), Unit("ComputeSquaredHinge", SQH, TU)]
HARNESS = dict(src="c14.cc", only=["loss_func/loss_func_math"])
