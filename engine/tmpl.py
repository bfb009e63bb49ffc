"""Building blocks for loop-invariant templates: they look at what a loop modifies, never at variable names."""
import z3
import vals
from vals import *
from core import F, IX, pkey
from spec import qall


def _vecs_in(v, path):
    if isinstance(v, Vec):
        yield path
    elif isinstance(v, Obj):
        for k, x in v.f.items():
            yield from _vecs_in(x, F(path, k))


def getter(I, path):
    def g(s):
        if path[0] not in s.store:
            return None
        try:
            return I.load_quiet(s, path)
        except OutOfReach:
            return None
    return g


def vecs(I, st, hv, info, elem=None, every=False):
    """(name, getter) of the vectors the loop modifies (or all visible ones)."""
    out = []
    for root in (list(hv.store) if every else list(info.modified)):
        if root not in hv.store or root.startswith("heap:"):
            continue
        for p in _vecs_in(hv.store[root], (root, ())):
            v = I.load_quiet(hv, p)
            if not every:
                o = I.load_quiet(st, p) if root in st.store else None
                if o is not None and all(a.eq(b) for (_, a), (_, b) in zip(leaves(o), leaves(v)) if is_z3(a) and is_z3(b)) and \
                        not any(isinstance(a, Tracked) for _, a in leaves(v)):
                    continue
            if elem is None or elem(v.el):
                out.append((root.split("#")[0] + "".join("." + str(x[1]) for x in p[1]), getter(I, p)))
    return out


def is_int_arr(el):
    return is_z3(el) and is_arr_sort(el.sort()) and el.sort().range() == z3.IntSort() and el.sort().domain() == z3.IntSort()


def is_real_arr(el):
    return is_z3(el) and is_arr_sort(el.sort()) and el.sort().range() == z3.RealSort()


def terms(I, st, hv, info, sort=None, modified=True):
    """(name, getter) of scalar program terms the loop modifies (or leaves alone)."""
    out, seen = [], set()
    for t, v0 in info.terms:
        if sort is not None and v0.sort() != sort:
            continue
        v1 = t(I, hv)
        if v1 is None or (not v1.eq(v0)) != modified:
            continue
        if not modified:
            if v0.get_id() in seen:
                continue
            seen.add(v0.get_id())
        out.append((t.name, (lambda s, t=t: t(I, s))))
    return out


def ints(I, st, hv, info, modified=True):
    return terms(I, st, hv, info, z3.IntSort(), modified)


def reals(I, st, hv, info, modified=True):
    return terms(I, st, hv, info, z3.RealSort(), modified)


def counters(I, st, hv, info):
    """Modified integer terms together with lengths of modified vectors (as getters)."""
    return ints(I, st, hv, info)


def lift(*gs):
    """Combine getters; None if one is missing."""
    def deco(f):
        def r(s):
            xs = [g(s) for g in gs]
            if any(x is None for x in xs):
                return None
            return f(*xs)
        return r
    return deco


def slice_param(I, st, name, tracked=False):
    """A VectorSlice parameter over an arbitrary vector of row numbers, with the slice inside the vector."""
    vec = I.fresh(st, Ty("class", "vector", [Ty("int", "unsigned int")]), name + ".under")
    if tracked:
        idp = fresh_sort(z3.ArraySort(z3.IntSort(), z3.IntSort()), name + ".place")
        j = z3.Int("k!id")
        st.assume(z3.ForAll([j], idp[j] == j, patterns=[idp[j]]))
        a0 = vec.el
        vec = Vec(vec.len, Tracked(a0, idp))
    p = I.alloc(st, vec, name + ".under")
    b, e = fresh_sort(z3.IntSort(), name + ".b"), fresh_sort(z3.IntSort(), name + ".e")
    st.assume(z3.And(b >= 0, b <= e, e <= vec.len))
    k = z3.Int("k!el")
    raw = vec.el.a0 if tracked else vec.el
    st.assume(z3.ForAll([k], z3.And(raw[k] >= 0, raw[k] < 2 ** 32), patterns=[raw[k]]))
    return Obj("VectorSlice<unsigned int>", {"begin_": Iter(p, b), "end_": Iter(p, e)})


def own_param(I, st, t, name):
    """A pointer parameter to an object of its own."""
    return PPtr(I.alloc(st, I.fresh(st, t.args[0].strip(), name + "^"), name + "^"))
