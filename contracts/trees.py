"""Specification relations over trees and forests (TreeNode values), unfolded one level where needed."""
from spec import *


def rel(I, name, extra=()):
    """A relation over (tree before, tree after, extra...)."""
    T = I.tree().sort
    return z3.Function(name, *([T, T] + list(extra) + [z3.BoolSort()]))


def part(I, t, c):
    return I.tree().get(t, c)


def split_of(I, t):
    return I.tree().unpack(t).f["split"]


def same_seq(a, b):
    return z3.And(a.len == b.len, forall_lt(a.len, lambda k: a.el[k] == b.el[k], pats=lambda k: [b.el[k]]))


def same_split(I, t, u, what=("feature", "float", "cat", "gain")):
    """Observable equality of the splits (contents count only where present)."""
    a, b = split_of(I, t), split_of(I, u)
    out = [part(I, t, "has_split") == part(I, u, "has_split")]
    body = []
    if "feature" in what:
        body.append(a.f["feature"] == b.f["feature"])
    if "gain" in what:
        body.append(a.f["gain"] == b.f["gain"])
    if "float" in what:
        body += [a.f["has_float_split"] == b.f["has_float_split"], z3.Implies(a.f["has_float_split"], z3.And(
            a.f["float_split"].f["threshold"] == b.f["float_split"].f["threshold"],
            a.f["float_split"].f["missing_to_right_child"] == b.f["float_split"].f["missing_to_right_child"]))]
    if "cat" in what:
        body += [a.f["has_cat_split"] == b.f["has_cat_split"], z3.Implies(a.f["has_cat_split"], z3.And(
            same_seq(a.f["cat_split"].f["category"], b.f["cat_split"].f["category"]),
            same_seq(a.f["cat_split"].f["internal_categorical_index"], b.f["cat_split"].f["internal_categorical_index"])))]
    if "cat names" in what:
        body += [a.f["has_cat_split"] == b.f["has_cat_split"], z3.Implies(a.f["has_cat_split"], 
            same_seq(a.f["cat_split"].f["category"], b.f["cat_split"].f["category"]))]
    return z3.And(out + [z3.Implies(part(I, t, "has_split"), z3.And(body))])


def is_none(I, t):
    return I.tree().is_none(t)


def unfold(I, R, body, t, u, *extra):
    """Definition of R at (t, u): both absent, or both present and body with R on the children."""
    N = lambda x: is_none(I, x)
    kids = [R(part(I, t, c), part(I, u, c), *extra) for c in ("left_child", "right_child")]
    d = z3.Or(z3.And(N(t), N(u)), z3.And(z3.Not(N(t)), z3.Not(N(u)), body, *kids))
    return [R(t, u, *extra) == d]


def none_rel(I, R, *extra):
    n = I.tree().none
    return R(n, n, *extra) == TRUE


from core import TRUE
