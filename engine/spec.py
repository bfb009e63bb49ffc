"""Contracts, verification units and their discharge."""
import os, pickle, re, sys, time, traceback, resource
import z3
import vals
from vals import *
from core import Interp, State, LV, F, IX, pkey, TRUE, FALSE, MAXSZ, has_quant
from astdb import ExtractError
from solve import prove, fork_map, cvc5_check, relevant
from loops import affected, has_ite, havoc, norm_keys


class CallCtx:
    """What a contract may talk about: arguments, receiver, result; before (lower case) and after (upper case)."""

    def __init__(self, I, f, c, st, this, args):
        self.I, self.f, self.c, self.st, self.args = I, f, c, st, args
        self.this = this.path if isinstance(this, LV) else this
        self.post, self.ret = None, None

    def _ld(self, st, p):
        return self.I.load_quiet(st, p)

    def v(self, i):
        return self._ld(self.st, self.args[i].path)

    def V(self, i):
        return self._ld(self.post, self.args[i].path)

    def d(self, i):
        return self._ld(self.st, self.v(i).path)

    def D(self, i):
        return self._ld(self.post, self.v(i).path)

    @property
    def t(self):
        return self._ld(self.st, self.this)

    @property
    def T(self):
        return self._ld(self.post, self.this)

    @property
    def r(self):
        return self.I.val(self.post, self.ret)

    def hp(self, cls, field, st=None):
        """Array (by address) of a heap field, pre state."""
        st = st or self.st
        root = self.I.heap_root(st, cls)
        v = st.store[root].el
        for f in field.split("."):
            v = v.f[f] if f != "#len" else v.len
        return v

    def HP(self, cls, field):
        return self.hp(cls, field, self.post)

    def slice_cont(self, i):
        v = self.v(i)
        p = v.f["begin_"].cont
        if p is None or not same_path(p, v.f["end_"].cont):
            raise OutOfReach("slice over an unknown vector")
        return p

    def resolve(self, spec):
        """Path of a modifies specification."""
        if spec.startswith("ghost:"):
            return (spec, ())
        if spec.startswith("this"):
            p = self.this
            rest = spec[4:]
        elif spec.startswith("*"):
            i = int(spec[1:].split(".")[0])
            v = self.v(i)
            if not isinstance(v, PPtr):
                return v
            p = v.path
            rest = spec[1 + len(str(i)):]
        elif spec.startswith(("heap:", "g:")):
            h, _, rest = spec.partition(".")
            if h.startswith("heap:"):
                self.I.heap_root(self.st, h[5:])
                if self.post is not None:
                    self.I.heap_root(self.post, h[5:])
            p = (h, ())
            return (p[0], (("h", tuple(rest.split("."))),) if rest else ())
        else:
            i = int(spec.split(".")[0])
            p = self.args[i].path
            rest = spec[len(str(i)):]
        for f in rest.split("."):
            if f:
                p = F(p, f)
        return p


class Contract:
    """Function contract. pre/post return [(label, z3 Bool)] (None entries are skipped)."""
    qname, params = None, None
    modifies = ()
    trusted = False

    def __init__(self, qname, pre=None, post=None, modifies=(), params=None, result=None, trusted=False, where=None,
                 footprint=None, inline_in=(), value=None):
        self._value = value
        self.qname, self._pre, self._post, self.modifies, self.params = qname, pre, post, tuple(modifies), params
        self._result, self.trusted, self.where, self._fp = result, trusted, where, footprint

    def matches(self, f):
        if f.name != self.qname.split("::")[-1]:
            return False
        if not (f.qname == self.qname or f.qname.endswith("::" + self.qname)):
            return False
        if self.params is not None:
            ps = [p.get("type", {}).get("qualType", "") for p in f.params]
            return len(ps) == len(self.params) and all(re.search(r'(?<![A-Za-z_])' + re.escape(a) + r'(?![A-Za-z_])', b) for a, b in zip(self.params, ps))
        return True

    @staticmethod
    def _list(x):
        return [(l, e) for l, e in (x or []) if e is not None]

    def pre(self, c):
        return self._list(self._pre(c)) if self._pre else []

    def post(self, c):
        out = self._list(self._post(c)) if self._post else []
        if self._value is not None and c.ret is not None:
            v = self._value(c)
            if not (is_z3(c.r) and c.r.eq(v)):
                out = [("value", c.r == v)] + out
        return out

    def havoc(self, ctx, post):
        I = ctx.I
        for sp in self.modifies:
            if sp[0] == "~":      # the elements of the vector under a slice argument
                p = ctx.slice_cont(int(sp[1:]))
                v = I.load_quiet(post, p)
                I.save(post, p, Vec(v.len, tmapk(lambda k, a: Tracked(a.a0, fresh_sort(a.p.sort(), "hv.P"))
                                                 if isinstance(a, Tracked) else fresh_sort(a.sort(), "hv.el"), v.el)))
                continue
            p = ctx.resolve(sp)
            if isinstance(p, RPtr):
                raise OutOfReach("havoc of a heap object")
            if p[1] and p[1][0][0] == "h":
                h = post.store[p[0]]
                key = p[1][0][1]

                def g(k, leaf, key=key):
                    return fresh_sort(leaf.sort(), "h." + ".".join(k)) if affected(k, {("#el",) + key}) else leaf
                post.store[p[0]] = tmapk(g, h)
                if I.wlog is not None:
                    I.wlog.add((p[0], ("#el",) + key))
                continue
            v = I.load_quiet(post, p)
            if v is None and sp == "this" and ctx.f.kind == "CXXConstructorDecl":
                post.store[p[0]] = I.fresh(post, Ty("class", I.db.record(ctx.f.cls).qname), "obj")
                if I.wlog is not None:
                    I.wlog.add((p[0], ()))
                continue
            facts = []

            def fr(k, leaf):
                if isinstance(leaf, Tracked):
                    return Tracked(leaf.a0, fresh_sort(leaf.p.sort(), "hv.P"))
                n = fresh_sort(leaf.sort(), "hv" + "".join("." + str(x) for x in k))
                if k and k[-1] == "#len" and n.sort() == z3.IntSort():
                    facts.append(z3.And(n >= 0, n <= MAXSZ))
                return n
            I.save(post, p, tmapk(fr, v))
            for e in facts:
                post.assume(e)

    def result(self, ctx, post, rt):
        if self._value is not None:
            return self._value(ctx)
        if self._result:
            return self._result(ctx, post, rt)
        if rt.k == "void":
            return None
        return ctx.I.fresh(post, rt, "ret")

    def footprint(self, ctx, alog):
        if self._fp:
            for path, mode in self._fp(ctx):
                alog.append((path, mode, list(ctx.st.pc), ctx.st.task))
            return
        for i, a in enumerate(ctx.args):
            alog.append((a.path, "r", list(ctx.st.pc), ctx.st.task))
            v = ctx.v(i)
            if isinstance(v, PPtr) and v.path is not None:
                alog.append((v.path, "r", list(ctx.st.pc), ctx.st.task))
        for sp in self.modifies:
            if sp[0] == "~":
                sl = ctx.v(int(sp[1:]))
                alog.append((IX(ctx.slice_cont(int(sp[1:])), ("range", sl.f["begin_"].pos, sl.f["end_"].pos)), "w",
                             list(ctx.st.pc), ctx.st.task))
                continue
            p = ctx.resolve(sp)
            if not isinstance(p, RPtr):
                alog.append((p, "w", list(ctx.st.pc), ctx.st.task))


# only instantiate quantifiers through their patterns: fast answers, also for what does not hold
NOMBQI = {"smt.mbqi": False}


class Unit:
    """One function verified against its contract."""
    floats = "real"
    inv_timeout = 2000
    timeout = 20000
    abort_ok = False
    check_swo = True
    ground_full = True
    budget = 400
    scale = 1
    chain = False

    def __init__(self, name, contract, tus, uses=(), templates=None, floats=None, setup=None, inline=(), **kw):
        self.name, self.contract, self.tus, self.uses = name, contract, list(tus), list(uses)
        self._templates, self._setup = templates, setup
        self.inline = set(inline)
        self.target = None
        if floats:
            self.floats = floats
        for k, v in kw.items():
            setattr(self, k, v)

    # -- hooks used by the engine (override with keyword arguments)
    type_override_fn = None
    global_override_fn = None
    heap_new = None
    enqueue_fn = None

    def type_override(self, I, st, ty, base, lifts):
        return self.type_override_fn(I, st, ty, base, lifts) if self.type_override_fn else None

    def global_override(self, I, st, name):
        return self.global_override_fn(I, st, name) if self.global_override_fn else None

    def contract_for(self, f):
        for c in self.uses:
            if c.matches(f):
                return c
        return None

    def must_inline(self, f):
        return f.qname in self.inline

    def new_in_heap(self, I, ty):
        return self.heap_new(I, ty) if self.heap_new else None

    def templates(self, I, st, hv, info):
        return self._templates(I, st, hv, info) if self._templates else []

    # thread pools: sequential model by default (race freedom is property C27)
    def pool_decl(self, I, d, st):
        """ThreadPool pool(n): n is evaluated; tasks run when they are enqueued (see DESIGN.md)."""
        states = [st]
        for c in d.get("inner", []):
            if c.get("kind") == "CXXConstructExpr":
                for a in c.get("inner", []):
                    states = [s for s0 in states for s, _ in I.ev(a, s0)]
        for s in states:
            p = I.alloc(s, Opaque("ThreadPool"), d["name"])
            s.env[d["id"]] = p
            s.ghost[("own", d["id"])] = p[0]
        return states

    def pool_join(self, I, s, v):
        return None

    def enqueue(self, I, s, fn, n):
        if self.enqueue_fn:
            return self.enqueue_fn(I, s, fn, n)
        inv = getattr(self, "task_inv", None)
        if inv is None or not isinstance(fn, Closure):
            return [(s2, None) for s2, _ in I.apply(s, fn, [], n)]
        return self.task(I, s, fn, n, inv)

    def task(self, I, s, fn, n, inv):
        """A task with an invariant: inv must hold where the task is enqueued, the task keeps it from any state in which it holds
        (its body is checked once, knowing only inv and what was known before the enqueuing loop), and afterwards inv is all that is
        known about what the task may modify."""
        def run(x):
            return [y for y, _ in I.apply(x, fn, [], n)]
        key = (fn.node.get("id"), fn.doc if isinstance(fn.doc, (str, int)) else id(fn.doc))
        cache = I.__dict__.setdefault("task_cache", {})
        if key not in cache:
            # what may a task modify?
            mods, shapes = {}, {}
            roots = set(s.store)
            ow, oa = I.wlog, I.alog
            I.alog = None
            m1, m2, nt = len(I.obls), len(I.inv_log), I.ntmp
            I.discover += 1
            try:
                for _ in range(8):
                    I.wlog = set()
                    run(havoc(I, s, mods, shapes, "d.") if mods else s.fork())
                    new = {r: set() for r in mods}
                    for r, k in I.wlog:
                        if r in roots:
                            new.setdefault(r, set()).add(k)
                    new = {r: norm_keys(k | mods.get(r, set())) for r, k in new.items()}
                    if new == mods:
                        break
                    mods = new
            finally:
                I.discover -= 1
                I.wlog, I.alog = ow, oa
                del I.obls[m1:]
                del I.inv_log[m2:]
            cache[key] = dict(mods=mods, auto=None, obls=None)
        e = cache[key]
        mods = e["mods"]

        def auto(x):
            out = []
            vs = []
            for nm, (v, byref, c) in fn.caps.items():
                if isinstance(v, LV) and byref:
                    for i, st in enumerate(v.path[1]):
                        if st[0] == "i":
                            base = I.load_quiet(x, (v.path[0], v.path[1][:i]))
                            if isinstance(base, Vec):
                                out.append(("captured element exists", z3.And(st[1] >= 0, st[1] < base.len)))
                else:
                    w = I.load_quiet(x, v.path) if isinstance(v, LV) else v
                    if is_z3(w) and w.sort() == z3.IntSort():
                        vs.append(w)
            if vs:
                for r, v in list(x.store.items()):
                    for path in tmpl_vecs(v, (r, ())):
                        vec = I.load_quiet(x, path)
                        if is_z3(vec.len) and vec.len.sort() == z3.IntSort():
                            for w in vs:
                                out.append(("captured number below a length", z3.And(w >= 0, w < vec.len)))
            return out
        if not I.discover:
            a = auto(s)
            if e["auto"] is None:
                e["auto"] = [i for i, (l, g) in enumerate(a) if l == "captured element exists" or I.quick(s, g)]
            for l, g in [a[i] for i in e["auto"] if i < len(a)] + list(inv(I, s, fn)):
                I.oblige(s, "task", g, n, "task is enqueued: " + l)
            if e["obls"] is None:
                m1, m2 = len(I.obls), len(I.inv_log)
                k = I.loop_marks[0] if I.loop_marks else len(s.pc)
                b = s.fork()
                b.pc = list(b.pc[:k])
                b = havoc(I, b, mods, {}, "task.")
                al = auto(b)
                for l, g in [al[i] for i in e["auto"] if i < len(al)] + list(inv(I, b, fn)):
                    b.assume(g)
                ow, oa, om, ol = I.wlog, I.alog, I.memo, I.loop_marks
                I.wlog, I.alog, I.memo, I.loop_marks = None, None, [], []
                try:
                    for y in run(b):
                        if y.status == "throw":
                            I.oblige(y, "exception", FALSE, n, "no exception leaves the task")
                            continue
                        for l, g in inv(I, y, fn):
                            I.oblige(y, "task", g, n, "task keeps: " + l)
                finally:
                    I.wlog, I.alog, I.memo, I.loop_marks = ow, oa, om, ol
                e["obls"], e["log"] = I.obls[m1:], I.inv_log[m2:]
                del I.obls[m1:]
                del I.inv_log[m2:]
        if I.wlog is not None:
            for r, ks in mods.items():
                for k in ks:
                    I.wlog.add((r, k))
        s2 = havoc(I, s, mods, {}, "task.")
        for l, g in inv(I, s2, fn):
            s2.assume(g)
        return [(s2, None)]

    # -- verification
    def find_target(self, db):
        c = self.contract
        fs = [f for f in db.byname.get(c.qname.split("::")[-1], []) if c.matches(f)]
        if len(fs) != 1:
            raise ExtractError("function %s: %d definitions found" % (c.qname, len(fs)))
        return fs[0]

    def generate(self, db):
        """Symbolic execution: (Interp, n end states)."""
        I = Interp(db, self)
        I.cur_doc, I.cur_file = None, None
        I.deadline = time.time() + self.budget
        f = self.target = self.find_target(db)
        I.cur_file = I.file_of(f)
        if f.implicit and f.body is None:
            raise ExtractError("function %s has no body" % f.qname)
        I.cur_doc = f.doc
        st = State()
        this = None
        if f.cls and not f.static:
            rec = db.record(f.cls)
            if f.kind == "CXXConstructorDecl":
                this = I.alloc(st, None, "this")
            elif getattr(self, "this_heap", False):
                a = fresh_sort(z3.IntSort(), "this.addr")
                st.assume(a > 0)
                this = RPtr(I.heap_of(f.cls), a)
            else:
                this = I.alloc(st, I.fresh(st, Ty("class", rec.qname), "this"), "this")
        args = []
        for i, p in enumerate(f.params):
            t = parse_type(p.get("type", {}).get("desugaredQualType") or p.get("type", {}).get("qualType") or "int")
            v = None
            if getattr(self, "param_fn", None):
                v = self.param_fn(I, st, i, t, p)
            if v is None:
                v = I.fresh(st, t, p.get("name") or "p%d" % i)
            args.append(I.lv(st, v, p.get("name") or "p%d" % i))
        if self._setup:
            self._setup(I, st, this, args)
        c = self.contract
        ctx = CallCtx(I, f, c, st, this, args)
        for label, e in c.pre(ctx):
            st.assume(e)
        import solve
        solve.OPTS = getattr(self, "solver_opts", {})
        I.global_facts += list(getattr(self, "axioms", lambda I: [])(I))
        # the precondition must be satisfiable
        r, _ = I.check([e for e in st.facts() if not has_quant(e)], 5000)
        if r == z3.unsat:
            raise ExtractError("contradictory precondition of %s" % f.qname)
        entry = st.fork()
        ctx.st = entry
        if f.kind == "CXXConstructorDecl":
            res = I.run_ctor(st, f, this, args, {})
        else:
            res = I.run_body(st, f.params, args, f.body, {}, this, f.doc, f.qname, f.type)
        for e in getattr(I, "task_cache", {}).values():
            if e["obls"] is not None:
                I.obls += e["obls"]
                I.inv_log += e["log"]
        nend = 0
        for s, v in res:
            if not I.feasible(s):
                continue
            if s.status == "throw":
                if not getattr(self, "throws_ok", False):
                    I.oblige(s, "exception", FALSE, None, "no exception leaves the function")
                continue
            nend += 1
            s.fns = (f.qname,)
            ctx.post, ctx.ret = s, v
            s2 = s.fork()
            for label, e in c.post(ctx):
                I.oblige(s2, "postcondition", e, None, label)
                if self.chain:
                    s2.assume(e)       # later ones may use earlier ones, which are obligations themselves
            self.frame(I, ctx, entry, s)
        return I, nend

    def frame(self, I, ctx, entry, s):
        """Everything visible at entry and not in the modifies clause is unchanged."""
        mod = {}
        for sp in ctx.c.modifies:
            if sp[0] == "~":
                p = ctx.slice_cont(int(sp[1:]))
                mod.setdefault(p[0], []).append((pkey(p) + ("#el",), None))
                continue
            p = ctx.resolve(sp)
            if isinstance(p, RPtr):
                mod.setdefault("heap:" + p.heap, []).append(((), p.addr))
                continue
            if p[1] and p[1][0][0] == "h":
                mod.setdefault(p[0], []).append((("#el",) + p[1][0][1], None))
                continue
            mod.setdefault(p[0], []).append((pkey(p), None))
        for root, v0 in entry.store.items():
            if root not in s.store or v0 is None:
                continue
            ks = {k for k, _ in mod.get(root, [])}
            # by-value parameters may be modified freely
            if root.startswith(tuple("%s#" % (p.get("name") or "p%d" % i) for i, p in enumerate(self.target.params)
                                     if not (p.get("type", {}).get("qualType") or "").rstrip().endswith("&"))) and \
                    any(a.path == (root, ()) for a in ctx.args):
                continue
            v1 = s.store[root]
            if v1 is v0:
                continue
            l1 = dict(leaves(v1))
            for k, a in leaves(v0):
                if affected(k, ks) or k not in l1:
                    continue
                b = l1[k]
                if isinstance(a, Tracked) or isinstance(b, Tracked):
                    a = a.p if isinstance(a, Tracked) else a
                    b = b.p if isinstance(b, Tracked) else b
                if a.eq(b):
                    continue
                I.oblige(s, "frame", a == b, None, "%s%s is unchanged" % (root.split("#")[0], "".join("." + x for x in k)))

    def verify(self, db, tier="quick", cross=False):
        """Result dictionary; a failure is confirmed with larger solver limits before it is reported."""
        r = self.verify1(db, tier, cross)
        return self.again(db, r, tier, cross) if not os.environ.get("VERIF_NORETRY") else r

    def again(self, db, r, tier="quick", cross=False):
        """The same unit with larger solver limits, if it failed."""
        if r["status"] != "failed" or r["wall"] >= 200 or self.scale != 1:
            return r
        self.scale, it, to = 3, self.inv_timeout, self.timeout
        self.inv_timeout, self.timeout = it * 4, to * 2
        try:
            r2 = self.verify1(db, tier, cross)
        finally:
            self.scale, self.inv_timeout, self.timeout = 1, it, to
        r2["wall"] += r["wall"]
        return r2 if r2["status"] != "out-of-reach" else r

    def verify1(self, db, tier="quick", cross=False):
        """Result dictionary (picklable)."""
        t0 = time.time()
        sys.setrecursionlimit(20000)
        res = dict(unit=self.name, status="ok", failed=[], obligations=0, discharged=0, kinds={}, functions=[], inlined=[],
                   contracted=[], solver_time=0.0, queries=0, error=None, cvc5=0, loops=0)
        try:
            I, nend = self.generate(db)
            if nend == 0 and not getattr(self, "no_return_ok", False):
                raise ExtractError("no path of %s returns" % self.target.qname)
            obls = I.obls
            gf = I.global_facts

            def job(o):
                t = time.time()
                if t - t0 > self.budget + 100:
                    return False, "time budget of the unit exhausted", 0.0, None
                ok, r = prove(o.pc + gf, o.goal, self.timeout, None, hard=True)
                c5 = None
                if ok and cross:
                    c5 = cvc5_check(o.pc + gf, o.goal, 20000)
                return ok, r, time.time() - t, c5
            rs = fork_map(job, obls, workers=8)
            for o, r in zip(obls, rs):
                if r is None or r[0] == "error":
                    r = (False, "unknown", 0.0, None)
                ok, why, dt, c5 = r
                res["solver_time"] += dt
                res["queries"] += 1
                res["kinds"][o.kind] = res["kinds"].get(o.kind, 0) + 1
                if c5 == "unsat":
                    res["cvc5"] += 1
                if c5 == "sat":
                    ok, why = False, "cvc5 disagrees"
                if ok:
                    res["discharged"] += 1
                else:
                    if os.environ.get("VERIF_DUMP", "-") in o.label:
                        sv = z3.Solver()
                        sv.add(*relevant(o.pc + gf))
                        sv.add(z3.Not(o.goal))
                        open("/tmp/w/dump-%s.smt2" % o.label.replace(" ", "_")[:40], "w").write(sv.to_smt2())
                    if os.environ.get("VERIF_FACTS", "-") in o.label:
                        print("FACTS", o.label, *["\n   %s" % f for f in relevant(o.pc + gf)], "\n  GOAL", o.goal, file=sys.stderr)
                    res["failed"].append(dict(unit=self.name, label=o.label, kind=o.kind, fn=o.fn, where=str(o.where), why=why,
                                              goal=str(o.goal)[:600]))
            res["obligations"] = len(obls) + len(I.inv_log)
            res["discharged"] += len(I.inv_log)
            for k, fn, how in I.inv_log:
                kk = "loop invariant" if k.startswith("invariant") else k
                res["kinds"][kk] = res["kinds"].get(kk, 0) + 1
            res["functions"] = [self.target.qname]
            res["inlined"] = sorted(I.inlined - {self.target.qname})
            res["contracted"] = sorted(I.contracted)
            res["solver_time"] += I.solver_time
            res["queries"] += I.nqueries
            res["loops"] = I.loops
            res["assumed"] = sorted(I.assumed)
            if res["failed"]:
                res["status"] = "failed"
        except ExtractError as e:
            res["status"], res["error"] = "out-of-reach", str(e)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        except z3.Z3Exception as e:
            res["status"], res["error"] = "out-of-reach", "z3: %s" % e
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        except RecursionError as e:
            res["status"], res["error"] = "out-of-reach", "recursion"
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
            res["status"], res["error"] = "out-of-reach", "internal: %s: %s" % (type(e).__name__, e)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
        res["wall"] = time.time() - t0
        return res


# ---------------------------------------------------------------- helpers for contracts
def qall(body, name="k", sort=None, pats=None):
    """Universal quantification with a fresh bound variable: body(var) -> expr or (expr, patterns)."""
    k = z3.Const("%s!q%d" % (name, _nq()), sort or z3.IntSort())
    b = body(k)
    if isinstance(b, tuple):
        if any(has_ite(p) for p in b[1]):
            return z3.ForAll([k], b[0])
        return z3.ForAll([k], b[0], patterns=b[1])
    if pats and not any(has_ite(p) for p in pats(k)):
        try:
            return z3.ForAll([k], b, patterns=pats(k))
        except z3.Z3Exception:
            pass
    return z3.ForAll([k], b)


def tmpl_vecs(v, path):
    if isinstance(v, Vec):
        yield path
    elif isinstance(v, Obj):
        for k, x in v.f.items():
            yield from tmpl_vecs(x, F(path, k))


def fa(vs, body, *pats):
    """Universal quantification; patterns z3 does not accept (constant arrays and the like) are dropped."""
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    if not any(has_ite(p) for p in pats):
        try:
            return z3.ForAll(list(vs), body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(vs), body)


_qc = [0]


def _nq():
    _qc[0] += 1
    return _qc[0]


def forall_lt(n, body, lo=0, pats=None):
    return qall(lambda k: z3.Implies(z3.And(k >= lo, k < n), body(k)), pats=pats)
