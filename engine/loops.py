"""Loops: havoc of what the body modifies, invariants found by Houdini over candidate templates.

A candidate is (name, closure(state) -> z3 Bool or None).  All surviving candidates hold on entry and are
preserved by the body, for any number of iterations; nothing is unrolled."""
import os, sys, time
import z3
import vals
from vals import *
from core import State, LV, F, IX, pkey, has_quant, Infeasible, Thrown, TRUE, FALSE, MAXSZ
from solve import quick, prove, fork_map, relevant

DEBUG = os.environ.get("VERIF_DEBUG")


class Term:
    """A scalar program term, re-evaluated in any state."""
    __slots__ = ("path", "sel", "name", "sort")

    def __init__(self, path, sel, name):
        self.path, self.sel, self.name = path, sel, name

    def __call__(self, I, st):
        if self.path[0] not in st.store:
            return None
        try:
            v = I.load_quiet(st, self.path)
        except OutOfReach:
            return None
        for s in self.sel:
            if s == "#len":
                if not isinstance(v, (Vec, MapV)):
                    return None
                v = v.len if isinstance(v, Vec) else v.size
            elif s == "#pos":
                if not isinstance(v, Iter):
                    return None
                v = v.pos
            elif s == "#addr":
                if not isinstance(v, RPtr):
                    return None
                v = v.addr
        return v if is_z3(v) else None


def walk_terms(I, st, path, v, name, out, depth, seen):
    if (path[0], pkey(path), tuple(s[1] if s[0] == "f" else str(s[1]) for s in path[1])) in seen:
        return
    seen.add((path[0], pkey(path), tuple(s[1] if s[0] == "f" else str(s[1]) for s in path[1])))
    if is_z3(v):
        if I._tree is not None and v.sort() == I._tree.sort:
            return
        out.append((Term(path, (), name), v))
    elif isinstance(v, Vec):
        out.append((Term(path, ("#len",), name + ".size()"), v.len))
    elif isinstance(v, MapV):
        if is_z3(v.size):
            out.append((Term(path, ("#len",), name + ".size()"), v.size))
    elif isinstance(v, Iter):
        out.append((Term(path, ("#pos",), name), v.pos))
        if v.cont is not None and v.cont[0] in st.store and depth > 0:
            try:
                c = I.load_quiet(st, v.cont)
            except OutOfReach:
                c = None
            if isinstance(c, Vec):
                out.append((Term(v.cont, ("#len",), name + "^.size()"), c.len))
    elif isinstance(v, Obj) and depth > 0:
        if v.cls.split("::")[-1] == "Config":
            return
        for k, x in v.f.items():
            walk_terms(I, st, F(path, k), x, name + "." + k, out, depth - 1, seen)
    elif isinstance(v, PPtr) and v.path is not None and v.path[0] in st.store and depth > 0:
        try:
            walk_terms(I, st, v.path, I.load_quiet(st, v.path), "*" + name, out, depth - 1, seen)
        except OutOfReach:
            pass


def scope_terms(I, st):
    """Scalar terms of the variables in scope (locals, parameters, captured, *this, one level deep)."""
    out, seen = [], set()
    for i, p in list(st.env.items()):
        if isinstance(p, tuple) and p[0] in st.store:
            try:
                v = I.load_quiet(st, p)
            except OutOfReach:
                continue
            nm = p[0].split("#")[0] + "".join("." + s[1] if s[0] == "f" else "[]" for s in p[1])
            walk_terms(I, st, p, v, nm, out, 2, seen)
    if isinstance(st.this, tuple) and st.this[0] in st.store:
        try:
            walk_terms(I, st, st.this, I.load_quiet(st, st.this), "this", out, 2, seen)
        except OutOfReach:
            pass
    return out


def const_no(e, mark, cache):
    """Does e mention a constant created after mark?"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if "!" in n:
                t = n.rsplit("!", 1)[1]
                if t.isdigit() and int(t) > mark:
                    return True
        st.extend(x.children())
    return False


def affected(key, wkeys):
    """Is leaf `key` covered by one of the written keys (prefix relation)?"""
    for w in wkeys:
        n = min(len(w), len(key))
        if w[:n] == key[:n]:
            return True
    return False


class LoopInfo:
    def __init__(self):
        self.entry = None
        self.modified = {}     # root -> set of keys
        self.terms = []
        self.mod_leaves = {}


def havoc(I, st0, modified, shapes, base):
    """Fresh values for the modified leaves of the roots."""
    st = st0.fork()
    for root, keys in modified.items():
        if root not in st.store:
            continue
        v = shapes.get(root, st.store[root])
        if keys is True:
            keys = {()}

        def f(k, leaf, root=root, keys=keys):
            if not affected(k, keys):
                return leaf
            nm = base + root.split("#")[0].split(":")[-1] + "".join("." + x for x in k)
            if isinstance(leaf, Tracked):
                return Tracked(leaf.a0, fresh_sort(leaf.p.sort(), nm + ".P"))
            n = fresh_sort(leaf.sort(), nm)
            if k and k[-1] == "#len" and n.sort() == z3.IntSort():
                st.assume(z3.And(n >= 0, n <= MAXSZ))
            elif k and k[-1] == "#len" and is_arr_sort(n.sort()) and n.sort().range() == z3.IntSort():
                q = z3.Const("k!len", n.sort().domain())
                st.assume(z3.ForAll([q], z3.And(n[q] >= 0, n[q] <= MAXSZ), patterns=[n[q]]))
            return n
        st.store[root] = tmapk(f, v)
    return st


def tmp_union(a, b):
    for k, v in b.items():
        a.setdefault(k, set()).update(v)
    return a


def norm_keys(ks):
    """Drop keys covered by shorter ones."""
    out = set()
    for k in sorted(ks, key=len):
        if not any(k[:len(o)] == o for o in out):
            out.add(k)
    return out


class NullLog(set):
    pass


def run_loop(I, st, cond, body, inc, node, dowhile=False):
    I.loop_marks.append(len(st.pc))
    try:
        return run_loop_(I, st, cond, body, inc, node, dowhile)
    finally:
        I.loop_marks.pop()


def run_loop_(I, st, cond, body, inc, node, dowhile=False):
    I.loops += 1
    fn = st.fns[-1] if st.fns else "?"
    outer_w = I.wlog
    mark_obl = len(I.obls)
    mark_inv = len(I.inv_log)

    def iteration(s):
        """Body states: (continuing, leaving)."""
        cont, leave = [], []
        if not dowhile:
            heads = []
            for x, c in cond(s):
                c = z3.simplify(I.to_bool(x, c))
                if z3.is_false(c):
                    continue
                x.assume(c, True)
                heads.append(x)
        else:
            heads = [s]
        ends = []
        for x in heads:
            if not I.feasible(x):
                continue
            ends += body(x)
        for x in ends:
            if x.status in ("brk", "ret", "throw"):
                leave.append(x)
                continue
            x.status = None
            nx = inc(x)
            if dowhile:
                for y in nx:
                    for z, c in cond(y):
                        c = z3.simplify(I.to_bool(z, c))
                        t = z.fork()
                        if not z3.is_false(c):
                            t.assume(c, True)
                            if I.feasible(t):
                                cont.append(t)
                        if not z3.is_true(c):
                            z.assume(z3.Not(c), True)
                            if I.feasible(z):
                                z.status = "exit"
                                leave.append(z)
            else:
                cont += nx
        return cont, leave

    # ---- discovery of what is modified
    fmark = vals._fresh[0]
    tmark = I.ntmp
    modified, shapes = {}, {}
    saved_alog = I.alog
    I.alog = None
    rounds = 0
    entry_roots = set(st.store)
    ends = []
    while True:
        rounds += 1
        if rounds > 12:
            raise OutOfReach("loop modification analysis does not converge")
        I.wlog = set()
        I.discover += 1      # loops inside need no invariants to find out what is modified
        try:
            h = havoc(I, st, modified, shapes, "d.") if modified else st.fork()
            vmark = vals._fresh[0]
            cont, leave = iteration(h)
        finally:
            I.discover -= 1
            log, I.wlog = I.wlog, outer_w
        del I.obls[mark_obl:]
        del I.inv_log[mark_inv:]
        new = {}
        for root, key in sorted(log, key=str):
            if root in entry_roots:
                new.setdefault(root, set()).add(key)
        # roots created lazily (globals, heaps) inside the body
        for x in cont:
            for r in x.store:
                if (r.startswith("heap:") or r.startswith("g:") or r.startswith("static:")) and r not in st.store:
                    I_lazy = I.unit_heaps.get(r[5:]) if r.startswith("heap:") else None
                    if I_lazy is not None:
                        st.store[r] = I_lazy
                        entry_roots.add(r)
                    elif r.startswith("g:"):
                        pass
        changed = False
        for r, ks in new.items():
            ks = norm_keys(ks | modified.get(r, set()))
            if ks != modified.get(r):
                modified[r] = ks
                changed = True
        # value shapes (null pointer / unknown iterator at entry)
        b = z3.Bool("shape!")
        for r in modified:
            v = shapes.get(r, st.store[r])
            for x in cont:
                if r in x.store:
                    try:
                        v2 = ite(b, v, x.store[r])
                    except OutOfReach as e:
                        raise OutOfReach("loop-carried value of %s: %s" % (r, e))
                    ks0 = [k for k, _ in leaves(v)]
                    ks1 = [k for k, _ in leaves(v2)]
                    if ks0 != ks1:
                        changed = True
                    v = v2
            shapes[r] = v
        if not changed:
            ends = cont
            break
    if not ends and not leave:
        # the body cannot be entered
        pass
    vals._fresh[0] = fmark
    I.ntmp = tmark

    # ---- candidates
    terms = scope_terms(I, st)
    info = LoopInfo()
    info.entry, info.modified, info.terms = st, modified, terms
    info.fn = fn
    cmark = vals._fresh[0]
    hv = havoc(I, st, modified, shapes, "c.")
    info.head_probe = hv
    info.bounds = [] if dowhile else cond_bounds(I, hv, cond, cmark)
    cands = generic_candidates(I, st, hv, info)
    try:
        tm = I.unit.templates(I, st, hv, info)
    except OutOfReach:
        tm = []
    cands += [(n, f, True) for n, f in tm]
    fmark = vals._fresh[0]     # constants made by the templates stay distinct
    tmark = I.ntmp

    if I.discover:
        cands = []
    # invariants of this loop that did not survive under stronger outer candidates do not survive now
    key = (node.get("id"), fn, I.cur_doc if isinstance(I.cur_doc, (str, int)) else id(I.cur_doc))
    if cands:
        for prev, _ in reversed(I.memo):
            if key in prev:
                cands = [c for c in cands if c[0] in prev[key]]
                break
    # entry filter
    cands = filter_cands(I, st, cands, "entry", fn)
    live = cands
    hround = 0
    prev = {}
    while True:
        hround += 1
        if hround > 25:
            raise OutOfReach("invariant search does not converge")
        vals._fresh[0] = fmark
        I.ntmp = tmark
        del I.obls[mark_obl:]
        del I.inv_log[mark_inv:]
        h = havoc(I, st, modified, shapes, "h.")
        for n, f, q in live:
            e = f(h)
            if e is not None:
                h.assume(e)
        h0 = h.fork()
        wl, I.wlog = I.wlog, (None if outer_w is None else set())
        I.memo.append((prev, {}))
        try:
            cont, leave = iteration(h)
        finally:
            inner, I.wlog = I.wlog, wl
            prev = I.memo.pop()[1]
        keep = live
        for x in cont:
            keep = filter_cands(I, x, keep, "step", fn)
        if len(keep) == len(live):
            break
        if DEBUG and DEBUG > "1":
            print("   houdini %s round %d: dropped %s" % (fn, hround, [n for n, _, _ in live if n not in [m for m, _, _ in keep]]), file=sys.stderr)
        live = keep
    if not I.discover:
        for _, cur in I.memo:
            cur.setdefault(key, set()).update(n for n, _, _ in live)
    if DEBUG and not I.discover:
        print("  loop in %s: modified %s; kept %d invariants: %s" %
              (fn, {k: list(v) for k, v in modified.items()}, len(live), [n for n, _, q in live if q or DEBUG > "1"]), file=sys.stderr)
    for n, f, q in live:
        I.inv_log.append(("invariant entry: " + n, fn, "z3"))
        I.inv_log.append(("invariant preserved: " + n, fn, "z3"))
    if outer_w is not None:
        for root, keys in modified.items():
            for k in keys:
                outer_w.add((root, k))
    I.alog = saved_alog
    if saved_alog is not None:
        # replay one arbitrary iteration with the access log on (accesses of all iterations)
        m1, m2 = len(I.obls), len(I.inv_log)
        t = h0.fork()
        iteration(t)
        del I.obls[m1:]
        del I.inv_log[m2:]
    # ---- exits
    out = []
    if not dowhile:
        ex = h0.fork()
        m1 = len(I.obls)
        for x, c in cond(ex):
            c = z3.simplify(I.to_bool(x, c))
            if z3.is_true(c):
                continue
            x.assume(z3.Not(c), True)
            if I.feasible(x):
                out.append(x)
        del I.obls[m1:]
    for x in leave:
        if x.status in ("brk", "exit"):
            x.status = None
        out.append(x)
    return out


def safe_forall(q, body, pat):
    if not has_ite(pat):
        return z3.ForAll([q], body, patterns=[pat])
    return z3.ForAll([q], body)


def has_ite(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            return True
        todo += x.children() if z3.is_app(x) else []
    return False


def cond_bounds(I, hv, cond, mark):
    """Integer expressions the loop condition compares with and the loop does not change."""
    m1, m2, wl = len(I.obls), len(I.inv_log), I.wlog
    out, seen = [], set()
    try:
        I.wlog = set()
        for x, c in cond(hv.fork()):
            todo = [z3.simplify(I.to_bool(x, c))]
            while todo:
                e = todo.pop()
                if e.get_id() in seen or not z3.is_expr(e) or z3.is_quantifier(e):
                    continue
                seen.add(e.get_id())
                if z3.is_app(e) and e.num_args() == 2 and e.decl().kind() in (
                        z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and e.arg(0).sort() == z3.IntSort():
                    # lhs - rhs as a sum; the unmodified summands bound the modified ones
                    d = z3.simplify(e.arg(0) - e.arg(1), som=True)
                    ts = list(d.children()) if z3.is_add(d) else [d]
                    fixed = [t for t in ts if not const_no(t, mark, None)]
                    mod = [t for t in ts if const_no(t, mark, None)]
                    if len(mod) == 1 and fixed:
                        f = z3.Sum(fixed)
                        neg = z3.is_app(mod[0]) and mod[0].decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(mod[0].arg(0)) and \
                            mod[0].arg(0).as_long() == -1
                        b = z3.simplify(f if neg else -f)
                        for b in (b, z3.simplify(b + 1)):
                            if not any(b.eq(o) for _, o in out):
                                out.append(("bound %d" % len(out), b))
                else:
                    todo.extend(e.children())
    except OutOfReach:
        pass
    finally:
        del I.obls[m1:]
        del I.inv_log[m2:]
        I.wlog = wl
    return out[:8]


# ---------------------------------------------------------------- candidate filtering
def filter_cands(I, st, cands, phase, fn):
    qf = relevant([e for e in st.facts() if not has_quant(e)])
    allf = st.facts() + I.global_facts
    ground, quant = [], []
    res = []
    for c in cands:
        try:
            e = c[1](st)
        except OutOfReach:
            e = None
        if e is None:
            continue
        e2 = z3.simplify(e) if not has_quant(e) else e
        if z3.is_true(e2):
            res.append(c)
            continue
        (quant if has_quant(e) else ground).append((c, e))
    # ground candidates in bulk: drop by models of the quantifier-free facts
    pend = list(ground)
    s = z3.Solver()
    s.set("timeout", 10000)
    s.set("rlimit", 10000000)
    for f in qf:
        s.add(f)
    unsure = []
    while pend:
        s.push()
        s.add(z3.Or([z3.Not(e) for _, e in pend]))
        r = s.check()
        if r == z3.unsat:
            s.pop()
            res += [c for c, _ in pend]
            pend = []
            break
        if r == z3.unknown:
            s.pop()
            unsure += pend
            pend = []
            break
        m = s.model()
        nxt = []
        bad = 0
        for c, e in pend:
            v = m.eval(e, model_completion=True)
            if z3.is_true(v):
                nxt.append((c, e))
            else:
                bad += 1
                unsure.append((c, e))
        s.pop()
        if bad == 0:
            unsure += nxt
            nxt = []
        pend = nxt
    has_q = len(qf) < len(relevant(allf))
    todo = []
    for c, e in unsure:
        if has_q and c[2]:
            todo.append((c, e))
        elif has_q and getattr(I.unit, "ground_full", True) and len(unsure) <= 40:
            todo.append((c, e))
    todo += quant

    def job(ce):
        if not ce[0][2] and getattr(I.unit, "ground_quick", False):     # generic candidates of units where every query is slow to fail
            return quick(relevant(allf), ce[1], I.unit.ground_quick * I.unit.scale)
        ok, r = prove(allf, ce[1], I.unit.inv_timeout if ce[0][2] else 1500 * I.unit.scale)
        if not ok and os.environ.get("VERIF_INV") == ce[0][0]:
            if os.environ.get("VERIF_SMT"):
                sv = z3.Solver()
                for f in relevant(allf):
                    sv.add(f)
                sv.add(z3.Not(ce[1]))
                open("%s.%d.smt2" % (os.environ["VERIF_SMT"], os.getpid()), "w").write(sv.to_smt2())
            print("INV", phase, r, ce[0][0], *["\n   %s" % f for f in relevant(allf)], "\n  GOAL", ce[1], file=sys.stderr)
        return ok
    if todo:
        t0 = time.time()
        oks = fork_map(job, todo, workers=8 if len(todo) > 3 else 1)
        I.nqueries += len(todo)
        I.solver_time += time.time() - t0
        for (c, e), ok in zip(todo, oks):
            if ok is True:
                res.append(c)
    order = {id(c): i for i, c in enumerate(cands)}
    res.sort(key=lambda c: order[id(c)])
    return res


# ---------------------------------------------------------------- generic candidates
def generic_candidates(I, st, hv, info):
    out = []

    def add(name, f):
        out.append((name, f, False))

    # scalar terms
    mods, stable = [], []
    for t, v0 in info.terms:
        v1 = t(I, hv)
        if v1 is None:
            continue
        if v0.sort() == z3.IntSort() and (I.fm.name != "ord" or True):
            (stable if v1.eq(v0) else mods).append((t, v0))
        elif not v1.eq(v0):
            add("%s unchanged" % t.name, lambda s, t=t, v0=v0: None if t(I, s) is None or t(I, s).sort() != v0.sort() else t(I, s) == v0)
    seen = set()
    st_terms = [("0", z3.IntVal(0))]
    for n, b in info.bounds:
        if b.get_id() not in seen and not z3.is_int_value(b):
            seen.add(b.get_id())
            st_terms.append((n, b))
    for t, v0 in stable:
        if v0.get_id() in seen:
            continue
        seen.add(v0.get_id())
        st_terms.append((t.name, v0))
    # terms in loop conditions often involve sub-expressions such as a.size() - 1: add x <= t and x < t forms
    for t, v0 in mods:
        def g(op, t=t, v0=v0):
            return lambda s: (lambda x: None if x is None else op(x))(t(I, s))
        add("%s >= entry" % t.name, g(lambda x, v0=v0: x >= v0))
        add("%s <= entry" % t.name, g(lambda x, v0=v0: x <= v0))
        for n, c in st_terms[:24]:
            add("%s <= %s" % (t.name, n), g(lambda x, c=c: x <= c))
            add("%s >= %s" % (t.name, n), g(lambda x, c=c: x >= c))
            add("%s < %s" % (t.name, n), g(lambda x, c=c: x < c))
            if not c.eq(z3.IntVal(0)):
                add("%s > %s" % (t.name, n), g(lambda x, c=c: x > c))
        add("%s >= 1" % t.name, g(lambda x: x >= 1))
        add("%s >= -1" % t.name, g(lambda x: x >= -1))
    for i, (a, a0) in enumerate(mods[:14]):
        for b, b0 in mods[i + 1:14]:
            def h(op, a=a, b=b):
                def r(s):
                    x, y = a(I, s), b(I, s)
                    return None if x is None or y is None else op(x, y)
                return r
            add("%s <= %s" % (a.name, b.name), h(lambda x, y: x <= y))
            add("%s >= %s" % (a.name, b.name), h(lambda x, y: x >= y))
            add("%s, %s move together" % (a.name, b.name), h(lambda x, y, a0=a0, b0=b0: x - a0 == y - b0))
            add("%s, %s move apart" % (a.name, b.name), h(lambda x, y, a0=a0, b0=b0: x + y == a0 + b0))
            add("%s moves at most as far as %s" % (a.name, b.name), h(lambda x, y, a0=a0, b0=b0: x - a0 <= y - b0))
            add("%s moves at least as far as %s" % (a.name, b.name), h(lambda x, y, a0=a0, b0=b0: x - a0 >= y - b0))
    # leaves
    for root in info.modified:
        if root not in st.store or root not in hv.store:
            continue
        l0 = dict(leaves(st.store[root]))
        for k, leaf in leaves(hv.store[root]):
            if k not in l0:
                continue
            o = l0[k]
            if isinstance(o, Tracked):
                o, leaf = o.p, leaf.p
            if o.eq(leaf):
                continue
            nm = root.split("#")[0] + "".join("." + x for x in k)

            def get(s, root=root, k=k):
                if root not in s.store:
                    return None
                for kk, v in leaves(s.store[root]):
                    if kk == k:
                        return v.p if isinstance(v, Tracked) else v
                return None
            if not is_arr_sort(o.sort()):
                if o.sort() != z3.IntSort():
                    add(nm + " unchanged", lambda s, get=get, o=o: None if get(s) is None or get(s).sort() != o.sort() else get(s) == o)
                continue
            if getattr(I.unit, "no_frames", False):
                continue
            add(nm + " unchanged", lambda s, get=get, o=o: None if get(s) is None else get(s) == o)
            if o.sort().domain() != z3.IntSort():
                continue
            q = z3.Int("k!fr")

            def fr(cond_, get=get, o=o, q=q):
                def r(s):
                    a = get(s)
                    if a is None:
                        return None
                    c = cond_(s)
                    if c is None:
                        return None
                    return safe_forall(q, z3.Implies(c, a[q] == o[q]), a[q])
                return r
            for t, v0 in mods[:8]:
                add("%s same below %s" % (nm, t.name), fr(lambda s, t=t: None if t(I, s) is None else q < t(I, s)))
                add("%s same from %s" % (nm, t.name), fr(lambda s, t=t: None if t(I, s) is None else q >= t(I, s)))
            ent = []
            for n, c in st_terms[:16]:
                ent.append((n, c))
            for t, v0 in mods[:8]:
                ent.append((t.name + " at entry", v0))
            seen2 = set()
            for n, c in ent:
                if c.get_id() in seen2:
                    continue
                seen2.add(c.get_id())
                add("%s same below %s" % (nm, n), fr(lambda s, c=c: q < c))
                add("%s same from %s" % (nm, n), fr(lambda s, c=c: q >= c))
    return out
