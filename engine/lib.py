"""Models of the standard library, protobuf accessors, Status, fmt, glog used by the code under contract.

These are the trusted external contracts (listed in DESIGN.md)."""
import re
import z3
import vals
from vals import *
from core import State, LV, F, IX, Infeasible, ERR, TRUE, FALSE, MAXSZ, has_quant

# ---------------------------------------------------------------- helpers


def elem_type(n):
    t = node_type(n).strip()
    if t.k == "ptr":
        t = t.args[0].strip()
    return t


def obj_type(me):
    return elem_type(me["inner"][0])


def make_default(I, st, ty):
    ty = ty.strip()
    v = I.default(st, ty)
    if v is None:
        rec = I.db.record(ty.name)
        ctors = [f for f in I.db.funcs.values() if f.kind == "CXXConstructorDecl" and f.cls == rec.qname and not f.params]
        if ctors:
            p = I.alloc(st, None, "obj")
            res = I.call_func(st, ctors[0], LV(p), [], {})
            if len(res) != 1:
                raise OutOfReach("default constructor forks")
            return I.load_quiet(st, p)
        od = I.cur_doc
        I.cur_doc = rec.doc
        try:
            v = I.default_record(st, rec)
        finally:
            I.cur_doc = od
    return v


def construct_vals(I, st, ty, vs, n):
    """Object of type ty from argument values."""
    ty = ty.strip()
    if ty.k != "class":
        return [(st, I.val(st, vs[0]))] if vs else [(st, I.default(st, ty))]
    if ty.name == "pair":
        return [(st, Obj("pair", {"first": I.val(st, vs[0]), "second": I.val(st, vs[1])}))]
    if ty.name == "tuple":
        return [(st, Obj("tuple", {str(i): I.val(st, v) for i, v in enumerate(vs)}))]
    if not vs:
        return [(st, make_default(I, st, ty))]
    b = ty.name.split("::")[-1]
    if b.startswith("VectorSlice"):
        rec = I.db.record("VectorSlice<unsigned int>")
    else:
        rec = I.db.record(ty.name)
    if len(vs) == 1:
        v = I.val(st, vs[0])
        if isinstance(v, Obj) and (rec is None or v.cls == rec.qname):
            return [(st, v)]
        if rec is None or b in I.proto.msgs:
            return [(st, v)]
    if rec is not None:
        ctors = [f for f in I.db.funcs.values() if f.kind == "CXXConstructorDecl" and f.cls == rec.qname and
                 len(f.params) == len(vs) and not I.is_copy_ctor(f.type, ty)]
        if len(ctors) > 1:
            def fits(f):
                for p, v in zip(f.params, vs):
                    t = node_type(p).strip()
                    x = I.val(st, v)
                    if isinstance(x, Iter) and not (t.k == "class" and "iterator" in t.name or t.k == "ptr"):
                        return False
                    if isinstance(x, Vec) and not (t.k == "class" and t.name == "vector"):
                        return False
                return True
            ctors = [f for f in ctors if fits(f)]
        if len(ctors) == 1:
            p = I.alloc(st, None, "obj")
            return [(s, I.load_quiet(s, p)) for s, _ in I.call_func(st, ctors[0], LV(p), vs, n)]
    raise OutOfReach("construct %r from %d values" % (ty, len(vs)))


def vec_default_el(I, st, ty, base="v"):
    return I.fresh(None, ty, base + "[]", (z3.IntSort(),))


def template_el(I, st, ety, vec):
    """Give the (possibly unstructured) element tree the shape of its type."""
    return vec.el


def mem_fresh_arr(a, name):
    return z3.Const(fresh_name(name), a.sort())


def vec_write_range(I, st, vec, lo, hi, fn, newlen, name="v"):
    """New vector with elements in [lo, hi) given by fn(k) leafwise (list of leaf exprs), others unchanged."""
    q = z3.Int("k!w")

    def f(a, g):
        if isinstance(a, Tracked):
            raise OutOfReach("bulk write to a tracked array")
        b = mem_fresh_arr(a, name)
        st.assume(z3.ForAll([q], b[q] == z3.If(z3.And(q >= lo, q < hi), g, a[q]), patterns=[b[q]]))
        return b
    return Vec(newlen, tmap(f, vec.el, fn(q)))


def is_zero(I, st, e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long() == 0
    return I.quick(st, e == 0)


def vec_resize(I, st, vec, n, d):
    """Elements from the old length on get value d."""
    if is_zero(I, st, vec.len):
        return Vec(n, klift(d) if vec.el is not None else d)
    return vec_write_range(I, st, vec, vec.len, n, lambda q: d, n, "resized")


def vec_from_list(I, st, ty, xs):
    ety = ty.args[0] if ty.args else None
    if ty.name in ("map", "unordered_map"):
        m = I.default(st, ty)
        for x in xs:
            m = map_store(I, st, m, x.f["first"], x.f["second"])
        return m
    if ty.name in ("set", "unordered_set"):
        m = I.default(st, ty)
        for x in xs:
            m = set_insert(I, st, m, x)
        return m
    v = Vec(z3.IntVal(0), vec_default_el(I, st, ety))
    for x in xs:
        v = vec_push(I, st, v, x, ety)
    return v


def vec_push(I, st, vec, val, ety=None):
    ln = z3.simplify(vec.len + 1) if z3.is_int_value(z3.simplify(vec.len)) else vec.len + 1
    st.assume(ln <= MAXSZ)          # container size assumption
    return Vec(ln, lsto(vec.el, vec.len, val))


# sums -----------------------------------------------------------
_ps = {}


def PS(arr_sort=None):
    """Prefix sum PS(a, n) = a[0] + ... + a[n-1]."""
    s = z3.ArraySort(z3.IntSort(), z3.RealSort())
    if "f" not in _ps:
        _ps["f"] = z3.Function("PS", s, z3.IntSort(), z3.RealSort())
    return _ps["f"]


def ps_axioms():
    f = PS()
    a = z3.Const("a!ps", z3.ArraySort(z3.IntSort(), z3.RealSort()))
    k = z3.Int("k!ps")
    return [z3.ForAll([a], f(a, 0) == 0, patterns=[f(a, 0)]),
            z3.ForAll([a, k], z3.Implies(k >= 0, f(a, k + 1) == f(a, k) + a[k]), patterns=[f(a, k + 1)])]


# maps -----------------------------------------------------------
def map_store(I, st, m, k, v):
    sz = m.size + z3.If(m.dom[k], z3.IntVal(0), z3.IntVal(1))
    st.assume(sz <= MAXSZ)
    return MapV(m.ordered, z3.Store(m.dom, k, TRUE), lsto(m.val, k, v) if m.val is not None else None, z3.simplify(sz))


def set_insert(I, st, m, k):
    return map_store(I, st, m, k, None)


def key_lt(I, a, b):
    if a.sort() == Str:
        raise OutOfReach("ordered strings")
    if a.sort() == z3.IntSort():
        return a < b
    return I.fm.lt(a, b)


def map_enum(I, st, path, m):
    """Ghost enumeration of a map's keys: en : [0, size) -> keys, a bijection (increasing if ordered)."""
    ks = m.dom.sort().domain()
    key = ("enum", m.dom.get_id())
    if key in st.ghost:
        return st.ghost[key][0]
    nm = fresh_name("enum")
    en = z3.Const(nm, z3.ArraySort(z3.IntSort(), ks))
    ix = z3.Const(nm + ".ix", z3.ArraySort(ks, z3.IntSort()))
    i, j = z3.Int("i!en"), z3.Int("j!en")
    k = z3.Const("k!en", ks)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m.size), z3.And(m.dom[en[i]], ix[en[i]] == i)), patterns=[en[i]]))
    st.assume(z3.ForAll([k], z3.Implies(m.dom[k], z3.And(0 <= ix[k], ix[k] < m.size, en[ix[k]] == k)), patterns=[m.dom[k], ix[k]]))
    if m.ordered and ks == z3.IntSort():
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m.size), en[i] < en[j]),
                            patterns=[z3.MultiPattern(en[i], en[j])]))
    st.assume(m.size >= 0)
    e = (en, m.size, ix)
    st.ghost[key] = (e, m.dom)
    return e


def map_range_loop(I, st, path, m, var, body, node):
    en, n, ix = map_enum(I, st, path, m)
    pos = I.alloc(st, z3.IntVal(0), "mapiter")
    vid = var["inner"][0]["id"]
    hid = ("mapiter", node.get("id"))
    st.env[hid] = pos

    def cond(x):
        return [(x, I.load_quiet(x, pos) < n)]

    def bdy(x):
        p = I.load_quiet(x, pos)
        lv = LV((path[0], path[1] + (("m", z3.Select(en, p)),)))
        q = var["inner"][0].get("type", {}).get("qualType", "")
        r = []
        if q.rstrip().endswith("&"):
            x.env[vid] = lv.path
        else:
            x.env[vid] = I.alloc(x, I.load(x, lv.path), "mv")
        for y in I.exec(body, x):
            r.append(y)
        return r

    def inc(x):
        I.save(x, pos, I.load_quiet(x, pos) + 1)
        return [x]
    res = I.loop(st, cond, bdy, inc, node)
    for r in res:
        r.env.pop(vid, None)
        r.env.pop(hid, None)
    return res


def mapiter_end(I, st, it):
    if it.enum is not None:
        return it.pos >= it.enum[1]
    return it.end


# ---------------------------------------------------------------- methods
def method(I, s, n, me, name, obj, v, args):
    bt = obj_type(me)
    b = bt.name.split("::")[-1] if bt.k == "class" else ""
    if isinstance(v, Opaque):
        return opaque_method(I, s, n, me, name, obj, v, args)
    if isinstance(v, (PPtr, RPtr)) and b in ("unique_ptr", "shared_ptr") or isinstance(v, (PPtr, RPtr)) and name in ("get", "reset", "release", "operator bool"):
        return ptr_method(I, s, n, name, obj, v, args)
    if isinstance(v, Obj) and v.cls == "Status":
        if name == "ok":
            return [(s, v.f["code"] == 0)]
        if name in ("error_code", "code"):
            return [(s, v.f["code"])]
        if name in ("error_message", "message", "ToString"):
            return [(s, fresh_sort(Str, "msg"))]
    if isinstance(v, Obj) and v.cls in I.proto.msgs or (is_z3(v) and I._tree is not None and v.sort() == I._tree.sort):
        return proto_method(I, s, n, name, obj, v, args)
    if isinstance(v, Vec):
        return vec_method(I, s, n, me, name, obj, v, args, bt)
    if isinstance(v, MapV):
        return map_method(I, s, n, me, name, obj, v, args, bt)
    if is_z3(v) and v.sort() == Str:
        return str_method(I, s, n, me, name, obj, v, args)
    if isinstance(v, Obj) and v.cls == "pair" and name == "swap":
        pass
    if isinstance(v, (Closure, FnArr, FnSym, BoundFn)) and name == "operator bool":
        return [(s, TRUE)]
    h = getattr(I.unit, "method_hook", None)
    if h:
        r = h(I, s, n, me, name, obj, v, args)
        if r is not None:
            return r
    raise OutOfReach("method %s on %s" % (name, v.cls if isinstance(v, Obj) else type(v).__name__))


def opaque_method(I, s, n, me, name, obj, v, args):
    if v.tag.startswith("ThreadPool") and name == "Enqueue":
        out = []
        for s2, av in I.evs(args, s):
            out += I.unit.enqueue(I, s2, I.val(s2, av[0]), n)
        return out
    h = getattr(I.unit, "opaque_hook", None)
    if h:
        r = h(I, s, n, me, name, obj, v, args)
        if r is not None:
            return r
    out = []
    if v.tag in ("StopWatch", "mutex", "log", "mt19937", "mersenne_twister_engine"):
        for s2, av in I.evs(args, s):
            t = node_type(n)
            out.append((s2, None if t.k == "void" else I.fresh(s2, t, name)))
        return out
    raise OutOfReach("method %s of %s" % (name, v.tag))


def ptr_method(I, s, n, name, obj, v, args):
    if name == "get":
        return [(s, v)]
    if name == "operator bool":
        return [(s, I.to_bool(s, v))]
    if name == "release":
        I.save(s, obj.path, PPtr(None) if isinstance(v, PPtr) else RPtr(v.heap, z3.IntVal(0)))
        return [(s, v)]
    if name == "reset":
        out = []
        for s2, av in I.evs([a for a in args if a.get("kind") != "CXXDefaultArgExpr"], s):
            nv = I.val(s2, av[0]) if av else PPtr(None)
            if isinstance(nv, Opaque):
                nv = PPtr(None)
            I.save(s2, obj.path, nv)
            out.append((s2, None))
        return out
    raise OutOfReach("pointer method " + name)


def idx_check(I, s, i, ln, n, what="index out of range"):
    I.oblige_q(s, "bounds", z3.And(i >= 0, i < ln), n, what)


def vec_method(I, s, n, me, name, obj, v, args, bt):
    ety = bt.args[0] if bt.args else None
    p = obj.path
    if name in ("size", "length"):
        return [(s, v.len)]
    if name == "empty":
        return [(s, v.len == 0)]
    if name in ("begin", "cbegin"):
        return [(s, Iter(p, z3.IntVal(0)))]
    if name in ("end", "cend"):
        return [(s, Iter(p, v.len))]
    if name in ("rbegin", "crbegin"):
        return [(s, Iter(p, z3.IntVal(0), True))]
    if name in ("rend", "crend"):
        return [(s, Iter(p, v.len, True))]
    if name in ("reserve", "shrink_to_fit"):
        return [(x, None) for x, _ in I.evs(args, s)]
    if name == "clear":
        I.save(s, p, Vec(z3.IntVal(0), v.el))
        return [(s, None)]
    if name == "capacity":
        c = fresh_sort(z3.IntSort(), "cap")
        s.assume(c >= v.len)
        return [(s, c)]
    if name in ("at", "Get", "Mutable", "operator[]"):
        out = []
        for s2, av in I.evs(args, s):
            i = I.val(s2, av[0])
            w = I.load_quiet(s2, p)
            idx_check(I, s2, i, w.len, n)
            out.append((s2, LV(IX(p, i))))
        return out
    if name in ("front", "back"):
        idx_check(I, s, z3.IntVal(0), v.len, n, name + "() of an empty container")
        return [(s, LV(IX(p, z3.IntVal(0) if name == "front" else z3.simplify(v.len - 1))))]
    if name in ("pop_back",):
        idx_check(I, s, z3.IntVal(0), v.len, n, "pop_back of an empty container")
        I.save(s, p, Vec(v.len - 1, v.el))
        return [(s, None)]
    if name in ("pop_front", "pop") and bt.name in ("list", "deque", "queue"):
        idx_check(I, s, z3.IntVal(0), v.len, n, "pop of an empty container")
        q = z3.Int("k!sh")

        def sh(a):
            b = mem_fresh_arr(a, "popped")
            s.assume(z3.ForAll([q], b[q] == a[q + 1], patterns=[b[q]]))
            return b
        I.save(s, p, Vec(v.len - 1, tmap(sh, v.el)))
        return [(s, None)]
    if name == "sort" and bt.name == "list":
        out = []
        for s2, av in I.evs(args, s):
            w = I.load_quiet(s2, p)
            ends = [I.lv(s2, Iter(p, z3.IntVal(0))), I.lv(s2, Iter(p, w.len))]
            out += f_sort(I, s2, ends + av, n)
        return out
    if name == "reverse" and bt.name == "list":
        return f_reverse(I, s, [I.lv(s, Iter(p, z3.IntVal(0))), I.lv(s, Iter(p, v.len))], n)
    if name in ("push_back", "emplace_back", "push", "Add", "AddAlreadyReserved"):
        out = []
        for s2, av in I.evs(args, s):
            if name == "emplace_back":
                cs = construct_vals(I, s2, ety, av, n)
            elif not av:
                cs = [(s2, make_default(I, s2, ety))]
            else:
                x = I.val(s2, av[0])
                if isinstance(x, list):
                    x = vec_from_list(I, s2, ety, x)
                cs = [(s2, x)]
            for s3, x in cs:
                w = I.load_quiet(s3, p)
                if ety is not None and ety.strip().k == "float" and is_z3(x) and x.sort() == z3.IntSort() and I.fm.name == "real":
                    x = z3.ToReal(x)
                if w.len is not None:
                    I.save(s3, F(p) if False else p, vec_push(I, s3, w, x, ety))
                out.append((s3, None))
        return out
    if name == "resize":
        out = []
        for s2, av in I.evs([a for a in args if a.get("kind") != "CXXDefaultArgExpr"], s):
            k = I.val(s2, av[0])
            d = I.val(s2, av[1]) if len(av) > 1 else make_default(I, s2, ety)
            w = I.load_quiet(s2, p)
            s2.assume(k <= MAXSZ)
            I.save(s2, p, vec_resize(I, s2, w, k, d))
            out.append((s2, None))
        return out
    if name == "assign" and len(args) == 2:
        out = []
        for s2, av in I.evs(args, s):
            a, d = I.val(s2, av[0]), I.val(s2, av[1])
            if isinstance(a, Iter):
                w = Vec(z3.IntVal(0), v.el)
                nv = vec_append_range(I, s2, w, a, d)
            else:
                nv = Vec(a, klift(d))
            I.save(s2, p, nv)
            out.append((s2, None))
        return out
    if name == "swap":
        out = []
        for s2, av in I.evs(args, s):
            o = I.lv(s2, av[0])
            a, b = I.load(s2, p), I.load(s2, o.path)
            I.save(s2, p, b)
            I.save(s2, o.path, a)
            out.append((s2, None))
        return out
    if name == "insert" and len(args) == 3:
        out = []
        for s2, av in I.evs(args, s):
            at, a, b = [I.val(s2, x) for x in av]
            w = I.load_quiet(s2, p)
            if not (isinstance(at, Iter) and isinstance(a, Iter) and isinstance(b, Iter)):
                raise OutOfReach("vector insert form")
            I.oblige_q(s2, "bounds", at.pos == w.len, n, "insert position is the end")
            I.save(s2, p, vec_append_range(I, s2, w, a, b))
            out.append((s2, Iter(p, w.len)))
        return out
    if name == "data":
        return [(s, Iter(p, z3.IntVal(0)))]
    if name == "erase":
        raise OutOfReach("vector erase")
    raise OutOfReach("vector method " + name)


def vec_append_range(I, s, w, a, b):
    src = I.load_quiet(s, a.cont)
    if not isinstance(src, Vec):
        raise OutOfReach("append from %r" % (src,))
    cnt = b.pos - a.pos
    I.oblige_q(s, "bounds", z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= src.len), None, "valid iterator range")
    ln = w.len + cnt
    s.assume(ln <= MAXSZ)
    if is_zero(I, s, w.len) and is_zero(I, s, a.pos):
        return Vec(z3.simplify(cnt), src.el)
    q = z3.Int("k!ap")

    def f(x, y):
        c = mem_fresh_arr(x, "appended")
        s.assume(z3.ForAll([q], c[q] == z3.If(q < w.len, x[q], y[q - w.len + a.pos]), patterns=[c[q]]))
        return c
    return Vec(ln, tmap(f, w.el, src.el))


def map_method(I, s, n, me, name, obj, v, args, bt):
    p = obj.path
    if name == "size":
        return [(s, v.size)]
    if name == "empty":
        return [(s, v.size == 0)]
    if name == "clear":
        I.save(s, p, MapV(v.ordered, z3.K(v.dom.sort().domain(), FALSE), v.val, z3.IntVal(0)))
        return [(s, None)]
    if name in ("reserve",):
        return [(x, None) for x, _ in I.evs(args, s)]
    if name in ("end", "cend"):
        return [(s, MapIter(p, TRUE, None))]
    if name in ("begin", "cbegin"):
        e = map_enum(I, s, p, v)
        return [(s, MapIter(p, None, None, z3.IntVal(0), e))]
    if name in ("rbegin",):
        e = map_enum(I, s, p, v)
        return [(s, MapIter(p, v.size == 0, z3.Select(e[0], v.size - 1)))]
    if name in ("find", "count", "lower_bound", "upper_bound"):
        out = []
        for s2, av in I.evs(args, s):
            k = I.val(s2, av[0])
            w = I.load(s2, p)
            if name == "find":
                out.append((s2, MapIter(p, z3.Not(w.dom[k]), k)))
            elif name == "count":
                out.append((s2, z3.If(w.dom[k], z3.IntVal(1), z3.IntVal(0))))
            else:
                ks = w.dom.sort().domain()
                e = z3.Bool(fresh_name("lb.end"))
                key = fresh_sort(ks, "lb.key")
                x = z3.Const("x!lb", ks)
                ge = (lambda a: z3.Not(key_lt(I, a, k))) if name == "lower_bound" else (lambda a: key_lt(I, k, a))
                s2.assume(z3.Implies(e, z3.ForAll([x], z3.Implies(w.dom[x], z3.Not(ge(x))), patterns=[w.dom[x]])))
                s2.assume(z3.Implies(z3.Not(e), z3.And(w.dom[key], ge(key))))
                s2.assume(z3.Implies(z3.Not(e), z3.ForAll([x], z3.Implies(z3.And(w.dom[x], ge(x)), z3.Not(key_lt(I, x, key))),
                                                          patterns=[w.dom[x]])))
                out.append((s2, MapIter(p, e, key)))
        return out
    if name == "at":
        out = []
        for s2, av in I.evs(args, s):
            k = I.val(s2, av[0])
            I.oblige_q(s2, "bounds", I.load_quiet(s2, p).dom[k], n, "map::at of an absent key")
            out.append((s2, LV(IX(p, k))))
        return out
    if name in ("insert", "emplace"):
        out = []
        for s2, av in I.evs(args, s):
            vs = [I.val(s2, x) for x in av]
            w = I.load_quiet(s2, p)
            if name == "insert" and len(vs) == 2 and isinstance(vs[0], Iter):
                a, b = vs
                src = I.load_quiet(s2, a.cont)
                I.oblige_q(s2, "bounds", z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= src.len), n, "valid iterator range")
                if w.val is not None:
                    raise OutOfReach("range insert into a map")
                ks = w.dom.sort().domain()
                d = mem_fresh_arr(w.dom, "inserted")
                src_ix = z3.Function(fresh_name("srcix"), ks, z3.IntSort())
                k, i = z3.Const("k!ri", ks), z3.Int("i!ri")
                s2.assume(z3.ForAll([k], z3.Implies(d[k], z3.Or(w.dom[k], z3.And(src_ix(k) >= a.pos, src_ix(k) < b.pos,
                                                                               src.el[src_ix(k)] == k))), patterns=[d[k]]))
                s2.assume(z3.ForAll([k], z3.Implies(w.dom[k], d[k]), patterns=[w.dom[k]]))
                s2.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < b.pos), d[src.el[i]]), patterns=[src.el[i]]))
                sz = fresh_sort(z3.IntSort(), "size")
                s2.assume(z3.And(sz >= w.size, sz <= w.size + (b.pos - a.pos), sz <= MAXSZ))
                I.save(s2, p, MapV(w.ordered, d, None, sz))
                out.append((s2, None))
                continue
            if w.val is None:
                k = vs[0]
                was = w.dom[k]
                I.save(s2, p, map_store(I, s2, w, k, None))
                out.append((s2, Obj("pair", {"first": MapIter(p, FALSE, k), "second": z3.Not(was)})))
                continue
            if name == "emplace":
                k, x = vs
            else:
                k, x = vs[0].f["first"], vs[0].f["second"]
            was = w.dom[k]
            ns = map_store(I, s2, w, k, x)
            # insert keeps the old value of a present key
            kept = ns.val if I.holds(s2, z3.Not(was), 2000) else ite(was, w.val, ns.val)
            I.save(s2, p, MapV(w.ordered, ns.dom, kept, ns.size))
            out.append((s2, Obj("pair", {"first": MapIter(p, FALSE, k), "second": z3.Not(was)})))
        return out
    if name == "erase":
        out = []
        for s2, av in I.evs(args, s):
            x = I.val(s2, av[0])
            w = I.load_quiet(s2, p)
            if isinstance(x, MapIter):
                if x.enum is not None:
                    I.oblige_q(s2, "bounds", z3.And(x.pos >= 0, x.pos < x.enum[1]), n, "erase of end()")
                    k = z3.Select(x.enum[0], x.pos)
                    r = MapIter(p, None, None, x.pos + 1, x.enum)
                else:
                    I.oblige_q(s2, "bounds", z3.Not(x.end), n, "erase of end()")
                    k, r = x.key, None
                I.oblige_q(s2, "bounds", w.dom[k], n, "erase of an absent element")
            else:
                k, r = x, z3.If(w.dom[x], z3.IntVal(1), z3.IntVal(0))
            I.save(s2, p, MapV(w.ordered, z3.Store(w.dom, k, FALSE), w.val,
                               z3.simplify(w.size - z3.If(w.dom[k], z3.IntVal(1), z3.IntVal(0)))))
            out.append((s2, r))
        return out
    if name == "swap":
        out = []
        for s2, av in I.evs(args, s):
            o = I.lv(s2, av[0])
            a, b = I.load(s2, p), I.load(s2, o.path)
            I.save(s2, p, b)
            I.save(s2, o.path, a)
            out.append((s2, None))
        return out
    raise OutOfReach("map method " + name)


strlen = z3.Function("strlen", Str, z3.IntSort())


def str_method(I, s, n, me, name, obj, v, args):
    if name == "empty":
        return [(s, v == strlit(""))]
    if name in ("size", "length"):
        r = strlen(v)
        s.assume(z3.And(r >= 0, r <= MAXSZ, (r == 0) == (v == strlit(""))))
        return [(s, r)]
    if name in ("c_str", "data"):
        return [(s, v)]
    raise OutOfReach("string method " + name)


# ---------------------------------------------------------------- protobuf
def proto_fields(I, v):
    if isinstance(v, Obj):
        return {f: (t, rep) for f, t, rep in I.proto.msgs[v.cls]}
    return {f: (t, rep) for f, t, rep in I.proto.msgs["TreeNode"]}


def proto_method(I, s, n, name, obj, v, args):
    fs = proto_fields(I, v)
    p = obj.path
    tree = is_z3(v)

    def cls_of(t):
        return I.default(s, PT.get(t) or Ty("class", "gbdt::" + t))
    if name in fs:
        t, rep = fs[name]
        if rep:
            if not args:
                return [(s, LV(F(p, name)))]
            out = []
            for s2, av in I.evs(args, s):
                i = I.val(s2, av[0])
                w = I.load_quiet(s2, F(p, name))
                idx_check(I, s2, i, w.len, n, "repeated field index out of range")
                out.append((s2, LV(IX(F(p, name), i))))
            return out
        if t in PT:
            return [(s, I.load(s, F(p, name)) if t != "string" else LV(F(p, name)))]
        # message getter: the default instance when absent
        if tree and t == "TreeNode":
            T = I.tree()
            cur = I.load_quiet(s, F(p, name))
            r = I.alloc(s, z3.If(T.is_none(cur), T.default(), cur), "child")
            g = z3.simplify(T.is_none(cur))
            if I.quick(s, z3.Not(T.is_none(cur))):
                return [(s, LV(F(p, name)))]
            return [(s, LV(r))]
        has = I.load_quiet(s, F(p, "has_" + name))
        if I.quick(s, has):
            return [(s, LV(F(p, name)))]
        cur = I.load_quiet(s, F(p, name))
        return [(s, LV(I.alloc(s, ite(has, cur, cls_of(t)), "msg")))]
    m = re.match(r"^(set|has|mutable|clear|add|release)_(\w+)$", name)
    if m and m.group(2) in fs:
        op, fn = m.groups()
        t, rep = fs[fn]
        if op == "has":
            if tree and t == "TreeNode":
                return [(s, z3.Not(I.tree().is_none(I.load_quiet(s, F(p, fn)))))]
            return [(s, I.load(s, F(p, "has_" + fn)))]
        if op == "set":
            out = []
            for s2, av in I.evs(args, s):
                if rep:
                    i, x = I.val(s2, av[0]), I.val(s2, av[1])
                    w = I.load_quiet(s2, F(p, fn))
                    idx_check(I, s2, i, w.len, n)
                    I.save(s2, IX(F(p, fn), i), x)
                else:
                    I.save(s2, F(p, fn), I.val(s2, av[0]))
                out.append((s2, None))
            return out
        if op == "mutable":
            if rep:
                if not args:
                    return [(s, PPtr(F(p, fn)))]
                out = []
                for s2, av in I.evs(args, s):
                    i = I.val(s2, av[0])
                    w = I.load_quiet(s2, F(p, fn))
                    idx_check(I, s2, i, w.len, n, "repeated field index out of range")
                    out.append((s2, PPtr(IX(F(p, fn), i))))
                return out
            if tree and t == "TreeNode":
                T = I.tree()
                cur = I.load_quiet(s, F(p, fn))
                I.save(s, F(p, fn), z3.simplify(z3.If(T.is_none(cur), T.default(), cur)))
                return [(s, PPtr(F(p, fn)))]
            if t in PT:
                return [(s, PPtr(F(p, fn)))]
            has = I.load_quiet(s, F(p, "has_" + fn))
            cur = I.load_quiet(s, F(p, fn))
            I.save(s, F(p, fn), ite(has, cur, cls_of(t)))
            I.save(s, F(p, "has_" + fn), TRUE)
            return [(s, PPtr(F(p, fn)))]
        if op == "clear":
            if rep:
                w = I.load_quiet(s, F(p, fn))
                I.save(s, F(p, fn), Vec(z3.IntVal(0), w.el))
            elif tree and t == "TreeNode":
                I.save(s, F(p, fn), I.tree().none)
            else:
                I.save(s, F(p, fn), cls_of(t))
                if t not in PT:
                    I.save(s, F(p, "has_" + fn), FALSE)
            return [(s, None)]
        if op == "add":
            out = []
            for s2, av in I.evs(args, s):
                w = I.load_quiet(s2, F(p, fn))
                x = I.val(s2, av[0]) if av else cls_of(t)
                I.save(s2, F(p, fn), vec_push(I, s2, w, x))
                out.append((s2, None if av else PPtr(IX(F(p, fn), w.len))))
            return out
    m = re.match(r"^(\w+)_size$", name)
    if m and m.group(1) in fs and fs[m.group(1)][1]:
        return [(s, I.load(s, F(p, m.group(1))).len)]
    if name in ("CopyFrom", "operator="):
        out = []
        for s2, av in I.evs(args, s):
            I.save(s2, p, I.val(s2, av[0]))
            out.append((s2, None))
        return out
    if name in ("DebugString", "ShortDebugString", "SerializeAsString"):
        return [(s, fresh_sort(Str, "dbg"))]
    if name == "Clear":
        I.save(s, p, I.default(s, Ty("class", "gbdt::" + (v.cls if isinstance(v, Obj) else "TreeNode"))))
        return [(s, None)]
    raise OutOfReach("protobuf method " + name)


# ---------------------------------------------------------------- operators
def opcall(I, s, n, name, a0, v0, args):
    out = []
    if name == "operator=":
        for s2, av in I.evs(args, s):
            x = I.val(s2, av[0])
            t = node_type(n["inner"][1]).strip()
            if isinstance(x, list):
                x = vec_from_list(I, s2, t, x)
            if isinstance(v0, (PPtr, RPtr)) and isinstance(x, Opaque):
                x = PPtr(None)
            if isinstance(v0, Tracked):
                raise OutOfReach("assign to tracked")
            I.save(s2, a0.path, x)
            # move assignment empties the source of owning pointers: not observable here
            out.append((s2, a0))
        return out
    if isinstance(v0, Iter):
        return iter_op(I, s, n, name, a0, v0, args)
    if isinstance(v0, MapIter):
        return mapiter_op(I, s, n, name, a0, v0, args)
    if isinstance(v0, Vec):
        if name == "operator[]":
            for s2, av in I.evs(args, s):
                i = I.val(s2, av[0])
                p = I.lv(s2, a0).path
                w = I.load_quiet(s2, p)
                idx_check(I, s2, i, w.len, n)
                out.append((s2, LV(IX(p, i))))
            return out
    if isinstance(v0, MapV):
        if name == "operator[]":
            for s2, av in I.evs(args, s):
                k = I.val(s2, av[0])
                w = I.load_quiet(s2, a0.path)
                t = node_type(n["inner"][1]).strip()
                if z3.is_true(z3.simplify(w.dom[k])) or I.quick(s2, w.dom[k]):
                    out.append((s2, LV(IX(a0.path, k))))
                    continue
                d = make_default(I, s2, t.args[1])
                cur = lsel(w.val, k)
                ns = map_store(I, s2, w, k, ite(w.dom[k], cur, d))
                I.save(s2, a0.path, ns)
                out.append((s2, LV(IX(a0.path, k))))
            return out
    if isinstance(v0, (PPtr, RPtr)):
        if name in ("operator->", "operator*"):
            if name == "operator->":
                return [(s, v0)]
            return [(s, I.deref(s, v0, n))]
        if name in ("operator==", "operator!="):
            for s2, av in I.evs(args, s):
                e = ptr_eq(I, s2, v0, I.val(s2, av[0]))
                out.append((s2, e if name == "operator==" else z3.Not(e)))
            return out
        if name == "operator bool":
            return [(s, I.to_bool(s, v0))]
    if is_z3(v0) and v0.sort() == Str:
        for s2, av in I.evs(args, s):
            x = I.val(s2, av[0])
            if name in ("operator==", "operator!="):
                out.append((s2, v0 == x if name == "operator==" else v0 != x))
            elif name in ("operator+", "operator+="):
                r = fresh_sort(Str, "cat")
                if name == "operator+=":
                    I.save(s2, a0.path, r)
                    out.append((s2, a0))
                else:
                    out.append((s2, r))
            else:
                raise OutOfReach("string " + name)
        return out
    if isinstance(v0, Obj) and v0.cls == "uniform_int_distribution" and name == "operator()":
        for s2, av in I.evs(args, s):
            h = getattr(I.unit, "rng_hook", None)
            r = h(I, s2, n, a0, av) if h else None
            if r is None:
                r = fresh_sort(z3.IntSort(), "rnd")
            s2.assume(z3.And(r >= v0.f["a"], r <= v0.f["b"]))
            out.append((s2, r))
        return out
    if isinstance(v0, Opaque) and v0.tag in ("mt19937", "mersenne_twister_engine", "uniform_real_distribution"):
        h = getattr(I.unit, "rng_hook", None)
        for s2, av in I.evs(args, s):
            r = h(I, s2, n, a0, av) if h else None
            if r is None:
                t = node_type(n)
                r = I.fresh(s2, t, "rnd")
                if t.k == "float" and I.fm.name == "real":
                    s2.assume(z3.And(r >= 0, r < 1))
            out.append((s2, r))
        return out
    h = getattr(I.unit, "op_hook", None)
    if h:
        r = h(I, s, n, name, a0, v0, args)
        if r is not None:
            return r
    raise OutOfReach("%s on %s" % (name, v0.cls if isinstance(v0, Obj) else type(v0).__name__))


def ptr_eq(I, s, a, b):
    if isinstance(a, PPtr) and isinstance(b, PPtr):
        if a.path is None or b.path is None:
            return z3.BoolVal(a.path is None and b.path is None)
        return z3.BoolVal(same_path(a.path, b.path))
    if isinstance(a, RPtr) and isinstance(b, RPtr):
        return a.addr == b.addr
    if isinstance(a, PPtr):
        a, b = b, a
    if isinstance(a, RPtr) and isinstance(b, PPtr) and b.path is None:
        return a.addr == 0
    raise OutOfReach("pointer comparison")


def iter_op(I, s, n, name, a0, v0, args):
    out = []
    if name == "operator*":
        return [(s, LV(I.iter_path(s, v0, n)))]
    if name == "operator->":
        return [(s, v0)]
    if name in ("operator++", "operator--"):
        d = 1 if name == "operator++" else -1
        old = v0
        I.save(s, a0.path, Iter(v0.cont, v0.pos + d, v0.rev))
        return [(s, old if args else a0)]
    for s2, av in I.evs(args, s):
        b = I.val(s2, av[0])
        if isinstance(b, Iter):
            if v0.cont is not None and b.cont is not None and not same_path(v0.cont, b.cont):
                raise OutOfReach("iterators of different containers compared")
            if name == "operator-":
                r = v0.pos - b.pos
            elif name in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
                r = {"==": v0.pos == b.pos, "!=": v0.pos != b.pos, "<": v0.pos < b.pos, "<=": v0.pos <= b.pos,
                     ">": v0.pos > b.pos, ">=": v0.pos >= b.pos}[name[8:]]
            else:
                raise OutOfReach("iterator " + name)
            out.append((s2, r))
            continue
        if name in ("operator+", "operator-"):
            out.append((s2, Iter(v0.cont, v0.pos + b if name == "operator+" else v0.pos - b, v0.rev)))
        elif name in ("operator+=", "operator-="):
            I.save(s2, a0.path, Iter(v0.cont, v0.pos + b if name == "operator+=" else v0.pos - b, v0.rev))
            out.append((s2, a0))
        elif name == "operator[]":
            out.append((s2, LV(I.iter_path(s2, Iter(v0.cont, v0.pos + b, v0.rev), n))))
        else:
            raise OutOfReach("iterator " + name)
    return out


def mapiter_op(I, s, n, name, a0, v0, args):
    out = []
    if name in ("operator*", "operator->"):
        if v0.enum is not None:
            en, sz, ix = v0.enum
            I.oblige_q(s, "bounds", z3.And(v0.pos >= 0, v0.pos < sz), n, "dereference of end()")
            k = z3.Select(en, v0.pos)
            lv = LV((v0.cont[0], v0.cont[1] + (("m", k),)))
        else:
            lv = LV(I.mapiter_path(s, v0, n))
        if name == "operator->":
            return [(s, PPtr(lv.path))]
        return [(s, lv)]
    if name == "operator++":
        if v0.enum is None:
            raise OutOfReach("++ on a found map iterator")
        I.save(s, a0.path, MapIter(v0.cont, None, None, v0.pos + 1, v0.enum))
        return [(s, v0 if args else a0)]
    for s2, av in I.evs(args, s):
        b = I.val(s2, av[0])
        if name in ("operator==", "operator!="):
            a_end, b_end = v0, b
            if isinstance(b, MapIter) and b.enum is None and b.end is not None and z3.is_true(b.end):
                e = mapiter_end(I, s2, v0)
            elif v0.enum is None and v0.end is not None and z3.is_true(v0.end):
                e = mapiter_end(I, s2, b)
            elif v0.enum is not None and b.enum is not None:
                e = v0.pos == b.pos
            elif v0.enum is None and b.enum is None:
                e = z3.Or(z3.And(v0.end, b.end), z3.And(z3.Not(v0.end), z3.Not(b.end), v0.key == b.key))
            else:
                raise OutOfReach("map iterator comparison")
            out.append((s2, e if name == "operator==" else z3.Not(e)))
        else:
            raise OutOfReach("map iterator " + name)
    return out


def binop_val(I, s, op, va, vb, n):
    if op in ("==", "!=") and isinstance(va, (PPtr, RPtr)) and isinstance(vb, (PPtr, RPtr)):
        e = ptr_eq(I, s, va, vb)
        return e if op == "==" else z3.Not(e)
    if isinstance(va, Iter):
        if isinstance(vb, Iter):
            if op == "-":
                return va.pos - vb.pos
            return {"==": va.pos == vb.pos, "!=": va.pos != vb.pos, "<": va.pos < vb.pos, "<=": va.pos <= vb.pos,
                    ">": va.pos > vb.pos, ">=": va.pos >= vb.pos}[op]
        if op in ("+", "-"):
            return Iter(va.cont, va.pos + vb if op == "+" else va.pos - vb, va.rev)
    if isinstance(va, Opaque) and isinstance(vb, Opaque):
        raise OutOfReach("operator on opaque values")
    raise OutOfReach("operator %s on %s and %s" % (op, type(va).__name__, type(vb).__name__))


def ostream_insert(I, st, n, args):
    h = getattr(I.unit, "ostream_hook", None)
    if h:
        r = h(I, st, n, args)
        if r is not None:
            return r
    raise OutOfReach("stream output")


# ---------------------------------------------------------------- free functions
FUNCS, VFUNCS, CTORS = {}, {}, {}


def func(*names):
    def d(f):
        for x in names:
            FUNCS[x] = f
        return f
    return d


def vfunc(*names):
    """Function of evaluated arguments."""
    def d(f):
        for x in names:
            VFUNCS[x] = f

            def h(I, st, n, args, f=f):
                out = []
                for s, av in I.evs(args, st):
                    out += f(I, s, av, n)
                return out
            FUNCS[x] = h
        return f
    return d


@vfunc("move", "forward", "as_const")
def f_move(I, s, av, n):
    return [(s, av[0])]


@vfunc("make_pair")
def f_pair(I, s, av, n):
    return [(s, Obj("pair", {"first": I.val(s, av[0]), "second": I.val(s, av[1])}))]


@vfunc("make_tuple")
def f_tuple(I, s, av, n):
    t = node_type(n).strip()
    vs = []
    for i, a in enumerate(av):
        v = I.val(s, a)
        vs.append(v)
    return [(s, Obj("tuple", {str(i): v for i, v in enumerate(vs)}))]


@func("get")
def f_get(I, st, n, args):
    # std::get<i>(tuple): the index is only in the function's type; recover it from the referenced declaration
    c = n["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    out = []
    idx = get_index(I, n, c)
    for s, av in I.evs(args, st):
        a = av[0]
        v = I.val(s, a)
        key = str(idx)
        if isinstance(v, Obj) and v.cls == "pair":
            key = ["first", "second"][idx]
        if isinstance(a, LV):
            out.append((s, LV(F(a.path, key))))
        else:
            out.append((s, v.f[key]))
    return out


def get_index(I, n, c):
    """std::get<N>: N from the source text of the call."""
    b = c.get("range", {}).get("begin", {})
    e = c.get("range", {}).get("end", {})
    if "expansionLoc" in b:
        b, e = b["expansionLoc"], e["expansionLoc"]
    off = b.get("offset")
    if off is not None and I.cur_file:
        t = I.src_text(I.cur_file)
        m = re.match(rb"(?:::)?(?:std\s*::\s*)?get\s*<\s*(\d+)\s*>", t[off:off + 60])
        if m:
            return int(m.group(1))
    raise OutOfReach("std::get index")


@vfunc("swap", "iter_swap")
def f_swap(I, s, av, n):
    a, b = I.lv(s, av[0]), I.lv(s, av[1])
    x, y = I.load(s, a.path), I.load(s, b.path)
    I.save(s, a.path, y)
    I.save(s, b.path, x)
    return [(s, None)]


def _minmax(I, s, av, n, ismax):
    if len(av) >= 2:
        x, y = I.val(s, av[0]), I.val(s, av[1])
        if isinstance(x, list):
            raise OutOfReach("min/max of a list")
        t = node_type(n).strip()
        if len(av) == 3:
            raise OutOfReach("min/max with comparator")
        lt = (lambda a, b: I.fm.lt(a, b)) if t.k == "float" else (lambda a, b: a < b)
        r = z3.If(lt(x, y), y, x) if ismax else z3.If(lt(y, x), y, x)
        return [(s, r)]
    x = I.val(s, av[0])
    if isinstance(x, list):
        t = node_type(n).strip()
        lt = (lambda a, b: I.fm.lt(a, b)) if t.k == "float" else (lambda a, b: a < b)
        r = x[0]
        for y in x[1:]:
            r = z3.If(lt(r, y), y, r) if ismax else z3.If(lt(y, r), y, r)
        return [(s, r)]
    raise OutOfReach("min/max form")


@vfunc("max")
def f_max(I, s, av, n):
    if not av:
        t = node_type(n).strip()
        if t.k == "float":
            return [(s, I.fm.fmax(t))]
        return [(s, z3.IntVal(INT_RANGE[t.name][1]))]
    return _minmax(I, s, av, n, True)


@vfunc("min")
def f_min(I, s, av, n):
    if not av:
        t = node_type(n).strip()
        if t.k == "int":
            return [(s, z3.IntVal(INT_RANGE[t.name][0]))]
        raise OutOfReach("numeric_limits::min")
    return _minmax(I, s, av, n, False)


@vfunc("isnan", "__builtin_isnan")
def f_isnan(I, s, av, n):
    p = getattr(I.unit, "nan_pred", None)      # real arithmetic with a predicate for what is not finite
    if p is not None:
        return [(s, p(I.val(s, av[0])))]
    return [(s, I.fm.isnan(I.val(s, av[0])))]


@vfunc("isinf", "__builtin_isinf", "__builtin_isinf_sign")
def f_isinf(I, s, av, n):
    p = getattr(I.unit, "nan_pred", None)
    if p is not None:
        return [(s, p(I.val(s, av[0])))]
    return [(s, I.fm.isinf(I.val(s, av[0])))]


@vfunc("isfinite", "__builtin_isfinite")
def f_isfinite(I, s, av, n):
    x = I.val(s, av[0])
    return [(s, z3.And(z3.Not(I.fm.isnan(x)), z3.Not(I.fm.isinf(x))))]


@vfunc("__builtin_nanf", "__builtin_nan", "nanf", "nan", "quiet_NaN")
def f_nan(I, s, av, n):
    return [(s, I.fm.nan(node_type(n)))]


@vfunc("infinity", "__builtin_huge_val", "__builtin_inff")
def f_inf(I, s, av, n):
    if I.fm.name == "ord":
        return [(s, I.fm.inf())]
    raise OutOfReach("infinity in this float mode")


@vfunc("fabs", "abs", "fabsf")
def f_fabs(I, s, av, n):
    x = I.val(s, av[0])
    t = node_type(n)
    if t.k == "float":
        return [(s, I.fm.fabs(x))]
    return [(s, z3.If(x >= 0, x, -x))]


EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


def exp_axioms():
    """Facts about exp and log over the reals (trusted)."""
    x, y = z3.Reals("x!e y!e")
    return [z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]), EXP(z3.RealVal(0)) == 1,
            z3.ForAll([x], z3.And(z3.Implies(x <= 0, EXP(x) <= 1), z3.Implies(x > 0, EXP(x) > 1),
                                  z3.Implies(x < 0, EXP(x) < 1)), patterns=[EXP(x)]),
            z3.ForAll([x], LOG(EXP(x)) == x, patterns=[EXP(x)]),
            z3.ForAll([x], z3.Implies(x > 0, EXP(LOG(x)) == x), patterns=[LOG(x)]),
            z3.ForAll([x, y], z3.Implies(z3.And(x > 0, y > 0, x < y), LOG(x) < LOG(y)),
                      patterns=[z3.MultiPattern(LOG(x), LOG(y))]),
            LOG(z3.RealVal(1)) == 0,
            z3.ForAll([x], EXP(x) * EXP(-x) == 1, patterns=[EXP(-x)]),
            z3.ForAll([x], EXP(-x) * EXP(x) == 1, patterns=[EXP(x)])][:8]


@vfunc("exp", "expf")
def f_exp(I, s, av, n):
    if I.fm.name != "real":
        raise OutOfReach("exp in this float mode")
    if getattr(I.unit, "exp_range", False):
        I.oblige(s, "float overflow", I.val(s, av[0]) <= 709, n, "exp does not overflow")
    return [(s, EXP(I.val(s, av[0])))]


@vfunc("log", "logf")
def f_log(I, s, av, n):
    if I.fm.name != "real":
        raise OutOfReach("log in this float mode")
    return [(s, LOG(I.val(s, av[0])))]


@vfunc("log1p")
def f_log1p(I, s, av, n):
    if I.fm.name != "real":
        raise OutOfReach("log1p in this float mode")
    return [(s, LOG(1 + I.val(s, av[0])))]


@func("format")
def f_format(I, st, n, args):
    return [(s, fresh_sort(Str, "fmt")) for s, _ in I.evs(args[1:], st)]


@vfunc("__builtin_expect")
def f_expect(I, s, av, n):
    return [(s, I.val(s, av[0]))]


@func("bind")
def f_bind(I, st, n, args):
    out = []
    for s, av in I.evs(args, st):
        # bound arguments are copies
        out.append((s, BoundFn(I.val(s, av[0]), [I.val(s, a) for a in av[1:]])))
    return out


@vfunc("mkdir")
def f_mkdir(I, s, av, n):
    return [(s, fresh_sort(z3.IntSort(), "mkdir"))]


@vfunc("CurrentTimeInString", "MSecsToFormattedString")
def f_str(I, s, av, n):
    return [(s, fresh_sort(Str, "text"))]


@vfunc("distance")
def f_distance(I, s, av, n):
    a, b = I.val(s, av[0]), I.val(s, av[1])
    return [(s, b.pos - a.pos)]


@vfunc("next")
def f_next(I, s, av, n):
    a = I.val(s, av[0])
    d = I.val(s, av[1]) if len(av) > 1 and not isinstance(av[1], Opaque) else z3.IntVal(1)
    return [(s, Iter(a.cont, a.pos + d, a.rev))]


@vfunc("begin")
def f_begin(I, s, av, n):
    v = I.val(s, av[0])
    if isinstance(v, Vec):
        return [(s, Iter(I.lv(s, av[0]).path, z3.IntVal(0)))]
    if isinstance(v, Obj) and v.cls.startswith("VectorSlice"):
        return [(s, v.f["begin_"])]
    raise OutOfReach("begin of %r" % v)


@vfunc("end")
def f_end(I, s, av, n):
    v = I.val(s, av[0])
    if isinstance(v, Vec):
        return [(s, Iter(I.lv(s, av[0]).path, v.len))]
    if isinstance(v, Obj) and v.cls.startswith("VectorSlice"):
        return [(s, v.f["end_"])]
    raise OutOfReach("end of %r" % v)


def rng_check(I, s, a, b, n):
    v = I.load_quiet(s, a.cont)
    I.oblige_q(s, "bounds", z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.len), n, "valid iterator range")
    return v


@vfunc("fill")
def f_fill(I, s, av, n):
    a, b, d = I.val(s, av[0]), I.val(s, av[1]), I.val(s, av[2])
    v = rng_check(I, s, a, b, n)
    if is_zero(I, s, a.pos) and I.quick(s, b.pos == v.len):
        I.save(s, a.cont, Vec(v.len, klift(d)))
    else:
        I.save(s, a.cont, vec_write_range(I, s, v, a.pos, b.pos, lambda q: d, v.len, "filled"))
    return [(s, None)]


@vfunc("iota")
def f_iota(I, s, av, n):
    a, b, d = I.val(s, av[0]), I.val(s, av[1]), I.val(s, av[2])
    v = rng_check(I, s, a, b, n)
    q = z3.Int("k!io")
    arr = mem_fresh_arr(v.el, "iota")
    s.assume(z3.ForAll([q], arr[q] == z3.If(z3.And(q >= a.pos, q < b.pos), d + (q - a.pos), v.el[q]), patterns=[arr[q]]))
    I.save(s, a.cont, Vec(v.len, arr))
    return [(s, None)]


@vfunc("reverse")
def f_reverse(I, s, av, n):
    a, b = I.val(s, av[0]), I.val(s, av[1])
    v = rng_check(I, s, a, b, n)
    q = z3.Int("k!rv")

    def f(x):
        y = mem_fresh_arr(x, "rev")
        s.assume(z3.ForAll([q], y[q] == z3.If(z3.And(q >= a.pos, q < b.pos), x[b.pos - 1 - (q - a.pos)], x[q]), patterns=[y[q]]))
        return y
    I.save(s, a.cont, Vec(v.len, tmap(f, v.el)))
    return [(s, None)]


@vfunc("for_each")
def f_for_each(I, s, av, n):
    a, b, fn = [I.val(s, x) for x in av]
    rng_check(I, s, a, b, n)
    pos = I.alloc(s, a.pos, "foreach")
    key = ("foreach", n.get("id"))
    s.env[key] = pos

    def cond(x):
        return [(x, I.load_quiet(x, pos) < b.pos)]

    def body(x):
        p = I.load_quiet(x, pos)
        return [y for y, _ in I.apply(x, fn, [LV(IX(a.cont, p))], n)]

    def inc(x):
        I.save(x, pos, I.load_quiet(x, pos) + 1)
        return [x]
    res = I.loop(s, cond, body, inc, n)
    for r in res:
        r.env.pop(key, None)
    return [(r, fn) for r in res]


def cmp_expr(I, s, fn, x, y, n):
    """Comparator applied to two values, as one Boolean expression."""
    t = s.fork()
    nb = len(t.pc)
    before = len(I.obls)
    wl, I.wlog = I.wlog, None
    try:
        if fn is None:
            if is_z3(x):
                e = I.fm.lt(x, y) if x.sort() == I.fm.sort(Ty("float", "float")) and I.fm.name != "ord" else x < y
                if I.fm.name == "ord" and x.sort() == z3.IntSort():
                    e = I.fm.lt(x, y)
                return e
            if isinstance(x, Obj) and x.cls == "pair":
                a, b = x.f["first"], y.f["first"]
                return z3.Or(a < b, z3.And(a == b, x.f["second"] < y.f["second"]))
            raise OutOfReach("default comparison of %r" % x)
        res = I.apply(t, fn, [LV(I.alloc(t, x, "x")), LV(I.alloc(t, y, "y"))], n)
    finally:
        I.wlog = wl
    if len(res) == 1:
        return I.to_bool(res[0][0], res[0][1])
    e = None
    for r, v in res:
        br = [c for c, isb in r.pc[nb:] if isb]
        b = I.to_bool(r, v)
        e = b if e is None else z3.If(z3.And(*br) if br else TRUE, b, e)
    return e


@vfunc("sort", "stable_sort")
def f_sort(I, s, av, n):
    a, b = I.val(s, av[0]), I.val(s, av[1])
    fn = I.val(s, av[2]) if len(av) > 2 else None
    v = rng_check(I, s, a, b, n)
    P = z3.Const(fresh_name("perm"), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    Q = z3.Const(fresh_name("perminv"), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    i, j = z3.Int("i!so"), z3.Int("j!so")
    inr = lambda x: z3.And(a.pos <= x, x < b.pos)
    s.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(P[i]), Q[P[i]] == i)), patterns=[P[i]]))
    s.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(Q[i]), P[Q[i]] == i)), patterns=[Q[i]]))
    s.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), z3.And(P[i] == i, Q[i] == i)), patterns=[P[i]]))
    old = v.el
    # strict weak ordering of the comparator on the elements (undefined behaviour otherwise)
    x, y, w = [z3.Int(fresh_name("sk")) for _ in range(3)]
    t = s.fork()
    for u in (x, y, w):
        t.assume(inr(u))
    ex, ey, ew = lsel(old, x), lsel(old, y), lsel(old, w)
    m0 = len(I.obls)
    c = lambda p, q: cmp_expr(I, t, fn, p, q, n)
    swo = z3.And(z3.Not(c(ex, ex)), z3.Implies(z3.And(c(ex, ey), c(ey, ew)), c(ex, ew)),
                 z3.Implies(z3.And(z3.Not(c(ex, ey)), z3.Not(c(ey, ew))), z3.Not(c(ex, ew))))
    if I.unit.check_swo:
        I.oblige_q(t, "order", swo, n, "sort comparator is a strict weak ordering")

    def f(arr):
        if isinstance(arr, Tracked):
            np = mem_fresh_arr(arr.p, "sorted.P")
            s.assume(z3.ForAll([i], np[i] == arr.p[P[i]], patterns=[np[i]]))
            return Tracked(arr.a0, np)
        r = mem_fresh_arr(arr, "sorted")
        if not (z3.is_const(arr) and arr.decl().kind() == z3.Z3_OP_UNINTERPRETED):     # patterns need a name for the old array
            a0 = mem_fresh_arr(arr, "unsorted")
            s.assume(a0 == arr)
            arr = a0
        s.assume(z3.ForAll([i], r[i] == arr[P[i]], patterns=[r[i]]))
        # every old element is found in the new array
        s.assume(z3.ForAll([i], arr[i] == r[Q[i]], patterns=[arr[i]]))
        s.assume(z3.ForAll([i], arr[i] == r[Q[i]], patterns=[Q[i]]))
        return r
    new = tmap(f, old)
    I.save(s, a.cont, Vec(v.len, new))
    t = s.fork()
    # (the comparator's own obligations were generated above, for arbitrary elements of the range)
    mark, m1, m2 = vals._fresh[0], len(I.obls), len(I.inv_log)
    t.assume(z3.And(inr(i), inr(j)))
    e1 = cmp_expr(I, t, fn, lsel(new, j), lsel(new, i), n)
    del I.obls[m1:]
    del I.inv_log[m2:]
    from loops import const_no
    if const_no(e1, mark, None):
        raise OutOfReach("comparator whose value is not an expression over its arguments")
    pats = []
    la = [l for _, l in leaves(new)]
    from solve import symbols
    used = symbols(e1)
    la = [l for l in la if isinstance(l, Tracked) or l.decl().name() in used] or la      # the leaves that are compared
    la0 = la[0] if not isinstance(la[0], Tracked) else la[0].p
    s.assume(z3.ForAll([i, j], z3.Implies(z3.And(a.pos <= i, i < j, j < b.pos), z3.Not(e1)),
                       patterns=[z3.MultiPattern(la0[i], la0[j])]))
    s.ghost["lastsort"] = (P, Q, a.pos, b.pos)
    s.ghost["sorted"] = new
    return [(s, None)]


@vfunc("accumulate")
def f_accumulate(I, s, av, n):
    if len(av) > 3:
        raise OutOfReach("accumulate with an operation")
    a, b, init = [I.val(s, x) for x in av]
    v = rng_check(I, s, a, b, n)
    if isinstance(init, Obj):
        # the code's own operator+ must be the fieldwise sum
        t = s.fork()
        cls = init.cls
        x = I.fresh(t, Ty("class", cls), "x")
        y = I.fresh(t, Ty("class", cls), "y")
        fs = [f for f in I.db.byname.get("operator+", []) if f.cls == cls and len(f.params) == 1]
        if len(fs) != 1:
            raise OutOfReach("operator+ of %s" % cls)
        res = I.call_func(t, fs[0], LV(I.alloc(t, x, "x")), [LV(I.alloc(t, y, "y"))], n)
        for r, val in res:
            val = I.val(r, val)
            d = [l for _, l in leaves(tmap(lambda p, q, w: p == q + w, val, x, y))]
            if not I.quick(r, z3.And(*d)):
                I.oblige(s, "sum", FALSE, n, "operator+ of %s adds fieldwise" % cls)
    ps = PS()
    I.need_ps = True

    def f(i0, arr):
        if arr.sort() != z3.ArraySort(z3.IntSort(), z3.RealSort()):
            raise OutOfReach("accumulate of %s" % arr.sort())
        return i0 + (ps(arr, b.pos) - ps(arr, a.pos))
    if is_z3(init) and init.sort() == z3.IntSort():
        raise OutOfReach("integer accumulate")
    return [(s, tmap(f, init, v.el))]


# ---------------------------------------------------------------- constructors
def ctor(*names):
    def d(f):
        for x in names:
            CTORS[x] = f
        return f
    return d


def _args(args):
    return [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]


@ctor("uniform_int_distribution")
def c_unifint(I, st, n, t, args):
    out = []
    for s, av in I.evs(_args(args), st):
        vs = [I.val(s, a) for a in av]
        if len(vs) != 2:
            raise OutOfReach("uniform_int_distribution constructor")
        I.oblige_q(s, "range", vs[0] <= vs[1], n, "uniform_int_distribution: lower bound above upper bound")
        out.append((s, Obj("uniform_int_distribution", {"a": vs[0], "b": vs[1]})))
    return out


@ctor("vector", "list", "deque", "queue")
def c_vector(I, st, n, t, args):
    args = _args(args)
    ety = t.args[0]
    if not args:
        return [(st, I.default(st, t))]
    out = []
    for s, av in I.evs(args, st):
        vs = [I.val(s, a) for a in av]
        if isinstance(vs[0], list):
            out.append((s, vec_from_list(I, s, t, vs[0])))
        elif isinstance(vs[0], Vec):
            out.append((s, vs[0]))
        elif isinstance(vs[0], Iter):
            out.append((s, vec_append_range(I, s, Vec(z3.IntVal(0), vec_default_el(I, s, ety)), vs[0], vs[1])))
        elif isinstance(vs[0], MapIter):
            out.append((s, vec_from_map(I, s, t, vs[0], vs[1])))
        elif is_z3(vs[0]) and vs[0].sort() == z3.IntSort():
            k = vs[0]
            I.oblige_q(s, "size", z3.And(k >= 0, k <= 2 ** 62), n, "vector size")
            s.assume(k <= MAXSZ)
            if len(vs) > 1 and not isinstance(vs[1], Opaque):
                d = vs[1]
                if ety.strip().k == "float" and is_z3(d) and d.sort() == z3.IntSort() and I.fm.name == "real":
                    d = z3.ToReal(d)
            else:
                d = make_default(I, s, ety)
            if isinstance(d, Closure):
                raise OutOfReach("vector of opaque values")
            out.append((s, Vec(k, klift(d))))
        else:
            raise OutOfReach("vector constructor")
    return out


def vec_from_map(I, s, t, a, b):
    """Vector of a map's entries (enumeration order)."""
    if a.enum is None:
        raise OutOfReach("vector from map iterators")
    en, sz, ix = a.enum
    m = I.load_quiet(s, a.cont)
    I.oblige_q(s, "bounds", z3.And(a.pos == 0, mapiter_end(I, s, b) if b.enum is None else b.pos == sz), None, "whole map copied")
    if m.val is None:
        q = z3.Int("k!vm")
        arr = z3.Const(fresh_name("keys"), z3.ArraySort(z3.IntSort(), en.sort().range()))
        s.assume(z3.ForAll([q], arr[q] == en[q], patterns=[arr[q]]))
        return Vec(m.size, arr)
    q = z3.Int("k!vm")

    def f(x):
        r = z3.Const(fresh_name("vals"), z3.ArraySort(z3.IntSort(), x.sort().range()))
        s.assume(z3.ForAll([q], r[q] == x[en[q]], patterns=[r[q]]))
        return r
    return Vec(m.size, Obj("pair", {"first": en, "second": tmap(f, m.val)}))


@ctor("map", "unordered_map", "set", "unordered_set")
def c_map(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, I.default(st, t))]
    out = []
    for s, av in I.evs(args, st):
        vs = [I.val(s, a) for a in av]
        if isinstance(vs[0], list):
            out.append((s, vec_from_list(I, s, t, vs[0])))
        elif isinstance(vs[0], MapV):
            out.append((s, vs[0]))
        elif isinstance(vs[0], Iter) and t.name.endswith("set"):
            p = I.alloc(s, I.default(s, t), "set")
            a, b = vs[0], vs[1]
            src = I.load_quiet(s, a.cont)
            w = I.load_quiet(s, p)
            ks = w.dom.sort().domain()
            I.oblige_q(s, "bounds", z3.And(a.pos >= 0, a.pos <= b.pos, b.pos <= src.len), n, "valid iterator range")
            d = mem_fresh_arr(w.dom, "inserted")
            src_ix = z3.Function(fresh_name("srcix"), ks, z3.IntSort())
            k, i = z3.Const("k!ri", ks), z3.Int("i!ri")
            s.assume(z3.ForAll([k], z3.Implies(d[k], z3.And(src_ix(k) >= a.pos, src_ix(k) < b.pos, src.el[src_ix(k)] == k)),
                               patterns=[d[k]]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < b.pos), d[src.el[i]]), patterns=[src.el[i]]))
            sz = fresh_sort(z3.IntSort(), "size")
            s.assume(z3.And(sz >= 0, sz <= b.pos - a.pos, z3.Implies(b.pos > a.pos, sz > 0)))
            out.append((s, MapV(w.ordered, d, None, sz)))
        else:
            raise OutOfReach("map constructor")
    return out


@ctor("pair")
def c_pair(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, I.default(st, t))]
    out = []
    for s, av in I.evs(args, st):
        vs = [I.val(s, a) for a in av]
        if len(vs) == 1 and isinstance(vs[0], Obj):
            o = vs[0]
            f = {}
            for k, ty in zip(("first", "second"), t.args):
                x = o.f[k]
                if isinstance(x, Opaque) or x is None:
                    x = PPtr(None)
                f[k] = x
            out.append((s, Obj("pair", f)))
        else:
            out.append((s, Obj("pair", {"first": vs[0], "second": vs[1]})))
    return out


@ctor("tuple")
def c_tuple(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, I.default(st, t))]
    out = []
    for s, av in I.evs(args, st):
        vs = [I.val(s, a) for a in av]
        if len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].cls == "tuple":
            vs = [vs[0].f[str(i)] for i in range(len(t.args))]
        r = {}
        for i, (v, ty) in enumerate(zip(vs, t.args)):
            if ty.strip().k == "float" and is_z3(v) and v.sort() == z3.IntSort():
                v = I.fm.const(str(v.as_long()), ty) if z3.is_int_value(v) else I.fm.from_int(v, ty)
            r[str(i)] = v
        out.append((s, Obj("tuple", r)))
    return out


@ctor("string", "StringPiece", "StringRef", "basic_string_view")
def c_string(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, strlit(""))]
    out = []
    for s, av in I.evs(args[:1], st):
        v = I.val(s, av[0])
        if len(args) > 1:
            v = fresh_sort(Str, "str")
        out.append((s, v))
    return out


@ctor("Status")
def c_status(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, Obj("Status", {"code": z3.IntVal(0)}))]
    if len(args) == 1:
        return I.ev1(args[0], st)
    out = []
    for s, av in I.evs(args, st):
        c = I.val(s, av[0])
        out.append((s, Obj("Status", {"code": c})))
    return out


@ctor("unique_ptr", "shared_ptr")
def c_uptr(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, PPtr(None))]
    out = []
    for s, av in I.evs(args[:1], st):
        v = I.val(s, av[0])
        if isinstance(v, Opaque):
            v = PPtr(None)
        out.append((s, v))
    return out


@ctor("function", "FloatVector", "PointwiseLossFunc")
def c_function(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, Opaque("function"))]
    return I.ev1(args[0], st)


@ctor("StopWatch")
def c_sw(I, st, n, t, args):
    return [(st, Opaque("StopWatch"))]


@ctor("basic_format_string", "format_string", "allocator", "less", "hash", "equal_to", "_Bind", "error_category")
def c_opaque(I, st, n, t, args):
    if t.name == "_Bind":
        return I.ev1(args[0], st)
    return [(st, Opaque(t.name))]


@ctor("__normal_iterator", "_List_iterator", "_List_const_iterator", "_Node_iterator", "_Node_const_iterator",
      "_Rb_tree_iterator", "_Rb_tree_const_iterator", "reverse_iterator", "RepeatedPtrIterator", "RepeatedIterator",
      "const_iterator", "iterator")
def c_iter(I, st, n, t, args):
    args = _args(args)
    if not args:
        return [(st, Iter(None, z3.IntVal(0)))]
    return I.ev1(args[0], st)
