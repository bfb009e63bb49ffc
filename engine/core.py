"""Symbolic executor over the clang AST of the real sources."""
import z3, time, re
from astdb import ExtractError
from vals import *
import vals

ERR = dict(OK=0, CANCELLED=1, UNKNOWN=2, INVALID_ARGUMENT=3, DEADLINE_EXCEEDED=4, NOT_FOUND=5, ALREADY_EXISTS=6,
           PERMISSION_DENIED=7, RESOURCE_EXHAUSTED=8, FAILED_PRECONDITION=9, ABORTED=10, OUT_OF_RANGE=11,
           UNIMPLEMENTED=12, INTERNAL=13, UNAVAILABLE=14, DATA_LOSS=15, UNAUTHENTICATED=16)
KERR = {"k" + "".join(p.capitalize() for p in k.split("_")): v for k, v in ERR.items()}
KERR["kOk"] = 0

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MAXSZ = 2 ** 31 - 1      # containers hold at most this many elements (assumption, reported)


class LV:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "LV%r" % (self.path,)


def F(path, *names):
    return (path[0], path[1] + tuple(("f", n) for n in names))


def IX(path, i):
    return (path[0], path[1] + (("i", i),))


def pkey(path):
    k = []
    for s in path[1]:
        if s[0] == "f":
            k.append(s[1])
        elif s[0] == "m":
            k.append("#el")
        else:
            k.append("#el")
    return tuple(k)


_qcache = {}


def has_quant(e):
    i = e.get_id()
    if i in _qcache:
        return _qcache[i][0]
    stack, seen, r = [e], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _qcache[i] = (r, e)
    return r


class State:
    __slots__ = ("store", "env", "pc", "status", "ret", "this", "task", "fns", "ghost")

    def __init__(self):
        self.store, self.env, self.pc = {}, {}, []
        self.status, self.ret, self.this, self.task = None, None, None, None
        self.fns = ()
        self.ghost = {}

    def fork(self):
        s = State.__new__(State)
        s.store, s.env, s.pc = dict(self.store), dict(self.env), list(self.pc)
        s.status, s.ret, s.this, s.task, s.fns = self.status, self.ret, self.this, self.task, self.fns
        s.ghost = dict(self.ghost)
        return s

    def assume(self, e, branch=False):
        if e is None or z3.is_true(e):
            return self
        self.pc.append((e, branch))
        return self

    def facts(self):
        return [e for e, _ in self.pc]


class Obligation:
    __slots__ = ("label", "kind", "pc", "goal", "fn", "where", "status", "solver", "time", "model", "prop")

    def __init__(self, label, kind, pc, goal, fn, where):
        self.label, self.kind, self.pc, self.goal, self.fn, self.where = label, kind, pc, goal, fn, where
        self.status, self.solver, self.time, self.model = None, None, 0.0, None


class Interp:
    def __init__(self, db, unit):
        self.discover, self.memo = 0, []
        self.db, self.unit = db, unit
        self.fm = {"real": RealMode, "ord": OrdMode, "fp": FPMode}[unit.floats]()
        self.proto = Proto()
        self.obls = []
        self.inv_log = []          # discharged invariant obligations (label, fn)
        self.wlog = None
        self.alog = None
        self.ntmp = 0
        self.depth = 0
        self.qcache = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.inlined = set()
        self.contracted = set()
        self.assumed = set()
        self.rec_depth = {}
        self.timeouts = 0
        self._tree = None
        self.global_facts = []
        self.unit_globals = {}
        self.loop_marks = []
        self.unit_heaps = {}
        self.loops = 0
        self.deadline = None
        import lib
        self.lib = lib

    # ------------------------------------------------------------ solving
    def check(self, assertions, timeout, rlimit=0):
        s = z3.Solver()
        s.set("timeout", int(timeout * 5))
        s.set("rlimit", int(timeout * 2500))
        for a in assertions:
            s.add(a)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r, s

    def feasible(self, st):
        qf = [e for e, _ in st.pc if not has_quant(e)]
        key = ("f", tuple(e.get_id() for e in qf))
        if key in self.qcache:
            return self.qcache[key][0]
        r, _ = self.check(qf, 300)
        v = r != z3.unsat
        self.qcache[key] = (v, qf)
        return v

    def quick(self, st, e, timeout=300):
        """Is e implied by the path condition? (two tiers; False = not shown)"""
        if z3.is_true(e):
            return True
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        qf = [x for x, _ in st.pc if not has_quant(x)]
        key = ("q", e.get_id(), tuple(x.get_id() for x, _ in st.pc))
        if key in self.qcache:
            return self.qcache[key][0]
        r, _ = self.check(qf + [z3.Not(e)], timeout)
        v = r == z3.unsat
        if not v and len(qf) < len(st.pc):
            r, _ = self.check(st.facts() + self.global_facts + [z3.Not(e)], timeout)
            v = r == z3.unsat
        self.qcache[key] = (v, e, qf)
        return v

    def holds(self, st, e, timeout=4000):
        """Full proof attempt used for loop invariants."""
        if z3.is_true(e):
            return True
        key = ("h", e.get_id(), tuple(x.get_id() for x, _ in st.pc))
        if key in self.qcache:
            return self.qcache[key][0]
        from solve import prove
        ok, r = prove(st.facts() + self.global_facts, e, timeout, self)
        self.qcache[key] = (ok, e, list(st.pc))
        return ok

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, goal, node=None, label=None):
        fn = st.fns[-1] if st.fns else "?"
        if z3.is_true(goal):
            self.inv_log.append((kind, fn, "trivial"))
            return
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.inv_log.append((kind, fn, "simplifier"))
            return
        where = None
        if node is not None:
            b = node.get("range", {}).get("begin", {})
            where = b.get("line") or b.get("offset") or b.get("expansionLoc", {}).get("offset")
        self.obls.append(Obligation(label or kind, kind, st.facts(), goal, fn, where))
        st.assume(goal)

    # ------------------------------------------------------------ memory
    def new_root(self, base):
        self.ntmp += 1
        return "%s#%d" % (base, self.ntmp)

    def alloc(self, st, val, base="tmp"):
        r = self.new_root(base)
        st.store[r] = val
        return (r, ())

    def step_get(self, st, v, s):
        if s[0] == "f":
            if isinstance(v, Obj):
                if s[1] not in v.f:
                    raise OutOfReach("no field %s in %s" % (s[1], v.cls))
                return v.f[s[1]]
            if is_z3(v) and self._tree is not None and v.sort() == self._tree.sort:
                return self._tree.unpack(v).f[s[1]]
            raise OutOfReach("field %s of %r" % (s[1], type(v).__name__))
        if s[0] == "m":
            if not isinstance(v, MapV):
                raise OutOfReach("map step on %r" % v)
            k = s[1]
            if v.val is None:
                return k
            return Obj("pair", {"first": k, "second": lsel(v.val, k)})
        if isinstance(v, (Vec, HeapV)):
            return lsel(v.el, s[1])
        if isinstance(v, MapV):
            return lsel(v.val, s[1])
        raise OutOfReach("index into %r" % (type(v).__name__,))

    def load(self, st, path):
        if path[0] not in st.store:
            self.oblige(st, "lifetime", FALSE, None, "access to an object after its lifetime")
            raise OutOfReach("dead root %s" % path[0])
        v = st.store[path[0]]
        for s in path[1]:
            v = self.step_get(st, v, s)
        if self.alog is not None:
            self.alog.append((path, "r", list(st.pc), st.task))
        return v

    def step_set(self, st, v, steps, val):
        if not steps:
            return val
        s = steps[0]
        if s[0] == "f":
            if isinstance(v, Obj):
                return v.set(s[1], self.step_set(st, v.f[s[1]], steps[1:], val))
            if is_z3(v) and self._tree is not None and v.sort() == self._tree.sort:
                o = self._tree.unpack(v)
                return self._tree.pack(o.set(s[1], self.step_set(st, o.f[s[1]], steps[1:], val)))
            raise OutOfReach("set field of %r" % (type(v).__name__,))
        if s[0] == "m":
            if len(steps) == 1:
                raise OutOfReach("assignment to a map entry pair")
            if steps[1][1] == "first":
                raise OutOfReach("assignment to a map key")
            old = lsel(v.val, s[1])
            new = self.step_set(st, old, steps[2:], val)
            return MapV(v.ordered, v.dom, lsto(v.val, s[1], new), v.size)
        if isinstance(v, Vec):
            if len(steps) == 1:
                return Vec(v.len, lsto(v.el, s[1], val))
            return Vec(v.len, lsto(v.el, s[1], self.step_set(st, lsel(v.el, s[1]), steps[1:], val)))
        if isinstance(v, HeapV):
            return HeapV(self.sto_sub(st, v.el, s[1], steps[1:], val))
        if isinstance(v, MapV):
            old = lsel(v.val, s[1])
            return MapV(v.ordered, v.dom, lsto(v.val, s[1], self.step_set(st, old, steps[1:], val)), v.size)
        raise OutOfReach("index-set into %r" % (type(v).__name__,))

    def sto_sub(self, st, el, i, steps, val):
        """Store into a lifted object, touching only the written field's leaves."""
        if steps and steps[0][0] == "f" and isinstance(el, Obj):
            return el.set(steps[0][1], self.sto_sub(st, el.f[steps[0][1]], i, steps[1:], val))
        if not steps:
            return lsto(el, i, val)
        return lsto(el, i, self.step_set(st, lsel(el, i), steps, val))

    def save(self, st, path, val):
        if path[0] not in st.store:
            self.oblige(st, "lifetime", FALSE, None, "write to an object after its lifetime")
            raise OutOfReach("dead root %s" % path[0])
        cur = st.store[path[0]]
        st.store[path[0]] = self.step_set(st, cur, path[1], val)
        if self.wlog is not None:
            self.wlog.add((path[0], pkey(path)))
        if self.alog is not None:
            self.alog.append((path, "w", list(st.pc), st.task))

    def val(self, st, v):
        return self.load(st, v.path) if isinstance(v, LV) else v

    def lv(self, st, v, base="tmp"):
        return v if isinstance(v, LV) else LV(self.alloc(st, v, base))

    # ------------------------------------------------------------ symbolic values by type
    def leaf(self, sort, base, lifts):
        for l in reversed(lifts):
            sort = z3.ArraySort(l, sort)
        return fresh_sort(sort, base)

    def key_sort(self, ty):
        ty = ty.strip()
        if ty.k == "int":
            return z3.IntSort()
        if ty.k == "float":
            return self.fm.sort(ty)
        if ty.name == "string":
            return Str
        if ty.k == "bool":
            return z3.BoolSort()
        raise OutOfReach("map key type %r" % ty)

    def range_fact(self, e, ty):
        lo, hi = INT_RANGE[ty.name]
        return z3.And(e >= lo, e <= hi)

    def fresh(self, st, ty, base, lifts=()):
        """Arbitrary value of a C++ type (with its type invariant assumed)."""
        ty = ty.strip()
        lifts = tuple(lifts)
        ov = self.unit.type_override(self, st, ty, base, lifts)
        if ov is not None:
            return ov
        if ty.k == "int":
            e = self.leaf(z3.IntSort(), base, lifts)
            if st is not None and not lifts:
                st.assume(self.range_fact(e, ty))
            return e
        if ty.k == "bool":
            return self.leaf(z3.BoolSort(), base, lifts)
        if ty.k == "float":
            e = self.leaf(self.fm.sort(ty), base, lifts)
            if st is not None and not lifts and self.fm.name == "ord":
                st.assume(self.fm.rng(e))
            return e
        if ty.k == "ptr":
            return self.fresh_ptr(st, ty.args[0], base, lifts)
        if ty.k == "void":
            return None
        if ty.k != "class":
            raise OutOfReach("fresh value of %r" % ty)
        n = ty.name
        if n == "string":
            return self.leaf(Str, base, lifts)
        if n in ("vector", "list", "deque", "queue"):
            ln = self.leaf(z3.IntSort(), base + ".len", lifts)
            if st is not None:
                if not lifts:
                    st.assume(z3.And(ln >= 0, ln <= MAXSZ))
                elif len(lifts) == 1:
                    k = fresh_sort(lifts[0], "k")
                    st.assume(z3.ForAll([k], z3.And(ln[k] >= 0, ln[k] <= MAXSZ), patterns=[ln[k]]))
            return Vec(ln, self.fresh(st, ty.args[0], base + "[]", lifts + (z3.IntSort(),)))
        if n == "pair":
            return Obj("pair", {"first": self.fresh(st, ty.args[0], base + ".first", lifts),
                                "second": self.fresh(st, ty.args[1], base + ".second", lifts)})
        if n == "tuple":
            return Obj("tuple", {str(i): self.fresh(st, a, "%s.%d" % (base, i), lifts) for i, a in enumerate(ty.args)})
        if n in ("map", "unordered_map", "set", "unordered_set"):
            ks = self.key_sort(ty.args[0])
            dom = self.leaf(z3.BoolSort(), base + ".dom", lifts + (ks,))
            val = self.fresh(st, ty.args[1], base + ".val", lifts + (ks,)) if n.endswith("map") else None
            sz = self.leaf(z3.IntSort(), base + ".size", lifts)
            if st is not None and not lifts:
                st.assume(z3.And(sz >= 0, sz <= MAXSZ))
                k = fresh_sort(ks, "k")
                # a map is empty exactly if it has no key
                st.assume(z3.ForAll([k], z3.Implies(dom[k], sz > 0), patterns=[dom[k]]))
                w = fresh_sort(ks, "anykey")
                st.assume(z3.Implies(sz > 0, dom[w]))
            return MapV(n == "map", dom, val, sz)
        if n == "function":
            sig = ty.args[0]
            if sig.k == "func" and len(sig.args) == 2 and sig.args[0].k == "float" and sig.args[1].k == "int":
                return FnArr(self.leaf(z3.ArraySort(z3.IntSort(), self.fm.sort(sig.args[0])), base, lifts))
            if sig.k == "func" and sig.args[0].k == "class" and sig.args[0].name == "tuple":
                nm = fresh_name(base)
                ss = [self.fm.sort(a) for a in sig.args[1:]]
                fs = [z3.Function("%s.%d" % (nm, i), *(ss + [self.fm.sort(a)])) for i, a in enumerate(sig.args[0].args)]
                return FnSym(lambda *a: Obj("tuple", {str(i): f(*a) for i, f in enumerate(fs)}), nm)
            return Opaque("function")
        if n == "unique_ptr" or n == "shared_ptr":
            return self.fresh_ptr(st, ty.args[0], base, lifts)
        if n == "Status" or n.endswith("::Status"):
            c = self.leaf(z3.IntSort(), base + ".code", lifts)
            if st is not None and not lifts:
                st.assume(z3.And(c >= 0, c <= 16))
            return Obj("Status", {"code": c})
        base_n = n.split("::")[-1]
        if base_n in self.proto.msgs:
            if base_n == "TreeNode":
                return self.leaf(self.tree().sort, base, lifts)
            d = {}
            for fn, ft, rep in self.proto.msgs[base_n]:
                t = PT.get(ft) or Ty("class", "gbdt::" + ft)
                if rep:
                    d[fn] = self.fresh(st, Ty("class", "vector", [t]), base + "." + fn, lifts)
                else:
                    d[fn] = self.fresh(st, t, base + "." + fn, lifts)
                    if ft not in PT:
                        d["has_" + fn] = self.leaf(z3.BoolSort(), base + ".has_" + fn, lifts)
            return Obj(base_n, d)
        if n == "VectorSlice":
            it = lambda nm: Iter(None, self.leaf(z3.IntSort(), base + nm, lifts))
            return Obj("VectorSlice<unsigned int>", {"begin_": it(".b"), "end_": it(".e")})
        if base_n in ("mutex", "condition_variable", "thread", "mt19937", "StopWatch", "ThreadPool", "ifstream",
                      "ofstream", "basic_ifstream", "basic_ofstream", "mersenne_twister_engine",
                      "uniform_real_distribution", "promise", "future"):
            return Opaque(base_n)
        if self.is_enum(n):
            return self.leaf(z3.IntSort(), base, lifts)
        r = self.db.record(n)
        if r is not None:
            return Obj(r.qname, {fd["name"]: self.fresh(st, node_type(fd), base + "." + fd["name"], lifts)
                                 for fd in self.all_fields(r) if fd.get("name")})
        raise OutOfReach("fresh value of class %s" % n)

    def is_enum(self, n):
        n = n.lstrip(":")
        return n.split("::")[-1] in ("ColumnType", "StatusCode")

    def all_fields(self, r):
        out = []
        for b in r.bases:
            br = self.db.record(b)
            if br is not None:
                out += self.all_fields(br)
        return out + r.fields

    def subclass_of(self, cls, base):
        if cls == base:
            return True
        r = self.db.record(cls)
        return r is not None and any(self.subclass_of(self.db.record(b).qname if self.db.record(b) else b, base)
                                     for b in r.bases)

    def heap_of(self, cls):
        """Name of the heap holding objects of a class (the root of its hierarchy)."""
        r = self.db.record(cls.lstrip(":"))
        while r is not None and r.bases:
            b = self.db.record(r.bases[0])
            if b is None:
                break
            r = b
        return r.qname if r is not None else cls

    def heap_root(self, st, heap):
        root = "heap:" + heap
        if root not in st.store:
            d = {}
            for q, r in self.db.records.items():
                if r.qname == heap or self.subclass_of(q, heap):
                    for fd in r.fields:
                        if fd.get("name") and fd["name"] not in d:
                            d[fd["name"]] = self.fresh(None, node_type(fd), "%s.%s" % (heap.split("::")[-1], fd["name"]),
                                                       (z3.IntSort(),))
            # the initial heap is one fixed unknown heap: created on first use, shared by all forks
            v = self.unit_heaps.setdefault(heap, HeapV(Obj(heap, d)))
            st.store[root] = v
        return root

    def fresh_ptr(self, st, ty, base, lifts):
        ty = ty.strip()
        if ty.k == "class" and self.db.record(ty.name) is not None and ty.name.split("::")[-1] not in self.proto.msgs:
            return RPtr(self.heap_of(ty.name), self.leaf(z3.IntSort(), base + ".addr", lifts))
        if lifts:
            return Opaque("array of pointers")
        if st is None:
            raise OutOfReach("pointer without state")
        p = self.alloc(st, self.fresh(st, ty, base), base)
        return PPtr(p)

    def tree(self):
        if self._tree is None:
            from treeadt import TreeADT
            self._tree = TreeADT(self)
        return self._tree

    def default(self, st, ty, base="d"):
        """Value-initialised object (scalars zero)."""
        ty = ty.strip()
        if ty.k == "int":
            return z3.IntVal(0)
        if ty.k == "bool":
            return FALSE
        if ty.k == "float":
            return self.fm.const("0", ty)
        if ty.k == "ptr":
            return PPtr(None)
        if ty.k == "class":
            n = ty.name
            b = n.split("::")[-1]
            if n == "string":
                return strlit("")
            if n in ("vector", "list", "deque", "queue"):
                return Vec(z3.IntVal(0), self.fresh(None, ty.args[0], base + "[]", (z3.IntSort(),)))
            if n in ("pair",):
                return Obj("pair", {"first": self.default(st, ty.args[0]), "second": self.default(st, ty.args[1])})
            if n == "tuple":
                return Obj("tuple", {str(i): self.default(st, a) for i, a in enumerate(ty.args)})
            if n in ("map", "unordered_map", "set", "unordered_set"):
                ks = self.key_sort(ty.args[0])
                return MapV(n == "map", z3.K(ks, FALSE),
                            self.fresh(None, ty.args[1], base + ".val", (ks,)) if n.endswith("map") else None, z3.IntVal(0))
            if n in ("unique_ptr", "shared_ptr"):
                return PPtr(None)
            if b == "Status":
                return Obj("Status", {"code": z3.IntVal(0)})
            if b in self.proto.msgs:
                if b == "TreeNode":
                    return self.tree().default()
                d = {}
                for fn, ft, rep in self.proto.msgs[b]:
                    t = PT.get(ft) or Ty("class", "gbdt::" + ft)
                    d[fn] = self.default(st, Ty("class", "vector", [t]) if rep else t)
                    if not rep and ft not in PT:
                        d["has_" + fn] = FALSE
                return Obj(b, d)
            if self.is_enum(n):
                return z3.IntVal(0)
            if n == "function":
                return Opaque("function")
            r = self.db.record(n)
            if r is not None:
                return None    # needs constructor execution
            return Opaque(b)
        raise OutOfReach("default of %r" % ty)

    # ------------------------------------------------------------ arithmetic
    def int_result(self, st, e, ty, node, what="arithmetic"):
        lo, hi = INT_RANGE[ty.name]
        e = z3.simplify(e) if z3.is_int_value(z3.simplify(e)) else e
        if z3.is_int_value(e) and lo <= e.as_long() <= hi:
            return e
        rf = z3.And(e >= lo, e <= hi)
        if lo < 0:
            if self.quick(st, rf):
                self.inv_log.append(("overflow", st.fns[-1] if st.fns else "?", "quick"))
            else:
                self.oblige(st, "overflow", rf, node, "signed %s overflow" % what)
            return e
        if self.quick(st, rf):
            return e
        return self.wrap(e, ty)

    def wrap(self, e, ty):
        lo, hi = INT_RANGE[ty.name]
        m = hi - lo + 1
        if lo == 0:
            return z3.If(z3.And(e >= lo, e <= hi), e, e % m)
        return z3.If(z3.And(e >= lo, e <= hi), e, (e - lo) % m + lo)

    def cast_int(self, st, e, frm, to, node):
        lo, hi = INT_RANGE[to.name]
        if frm is not None and frm.k == "int":
            l0, h0 = INT_RANGE[frm.name]
            if l0 >= lo and h0 <= hi:
                return e
        if z3.is_int_value(e):
            v = e.as_long()
            if lo <= v <= hi:
                return e
        if self.quick(st, z3.And(e >= lo, e <= hi)):
            return e
        return self.wrap(e, to)

    def to_bool(self, st, v, ty=None):
        if isinstance(v, PPtr):
            return z3.BoolVal(v.path is not None)
        if isinstance(v, RPtr):
            return v.addr != 0
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if v.sort() == z3.IntSort() and self.fm.name != "ord":
                return v != 0
            if v.sort() == z3.IntSort():
                return v != 0
            return self.fm.to_bool(v)
        raise OutOfReach("bool of %r" % (v,))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        """[(state, value-or-LV)]"""
        k = n.get("kind")
        m = getattr(self, "e_" + k, None) if k else None
        if m is None:
            raise OutOfReach("expression %s" % k)
        if self.deadline and time.time() > self.deadline:
            raise OutOfReach("time budget of the unit exhausted")
        return m(n, st)

    def ev1(self, n, st):
        """Values (lvalues loaded)."""
        return [(s, self.val(s, v)) for s, v in self.ev(n, st)]

    def evs(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            new = []
            for s, vs in res:
                for s2, v in self.ev(n, s):
                    new.append((s2, vs + [v]))
            res = new
        return res

    # literals
    def e_IntegerLiteral(self, n, st):
        return [(st, z3.IntVal(int(n["value"])))]

    def e_CharacterLiteral(self, n, st):
        return [(st, z3.IntVal(int(n["value"])))]

    def e_CXXBoolLiteralExpr(self, n, st):
        return [(st, z3.BoolVal(bool(n["value"])))]

    def e_FloatingLiteral(self, n, st):
        return [(st, self.fm.const(n["value"], node_type(n)))]

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return [(st, PPtr(None))]

    def e_GNUNullExpr(self, n, st):
        return [(st, PPtr(None))]

    def e_StringLiteral(self, n, st):
        import ast
        s = n["value"]
        try:
            s = ast.literal_eval(s)
        except Exception:
            pass
        return [(st, strlit(s))]

    def e_ImplicitValueInitExpr(self, n, st):
        return [(st, self.default(st, node_type(n)))]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def pass1(self, n, st):
        return self.ev(n["inner"][0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = pass1
    e_SubstNonTypeTemplateParmExpr = pass1

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get("inner"):
            return self.ev(n["inner"][0], st)
        t = node_type(n)
        if t.k == "class":
            return [(st, Opaque("defaultarg"))]
        return [(st, Opaque("defaultarg"))]

    def e_CXXDefaultInitExpr(self, n, st):
        if n.get("inner"):
            return self.ev(n["inner"][0], st)
        return [(st, Opaque("defaultinit"))]

    def e_MaterializeTemporaryExpr(self, n, st):
        return [(s, self.lv(s, v)) for s, v in self.ev(n["inner"][0], st)]

    def e_CXXThisExpr(self, n, st):
        return [(st, PPtr(st.this) if not isinstance(st.this, RPtr) else st.this)]

    def e_DeclRefExpr(self, n, st):
        r = n["referencedDecl"]
        rid = r.get("id")
        if rid in st.env:
            p = st.env[rid]
            if isinstance(p, Val) or is_z3(p):
                return [(st, p)]
            return [(st, LV(p))]
        k = r.get("kind")
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return [(st, FuncRef((r, self.cur_doc)))]
        if k == "EnumConstantDecl":
            o = self.db.ids.get((self.cur_doc, rid))
            if o and o[0] == "enumc":
                return [(st, z3.IntVal(o[1]))]
            if r["name"] in KERR:
                return [(st, z3.IntVal(KERR[r["name"]]))]
            for q, v in self.db.enums.items():
                if q.split("::")[-1] == r["name"]:
                    return [(st, z3.IntVal(v))]
            raise OutOfReach("enum constant " + r["name"])
        if k == "VarDecl":
            return self.global_var(n, r, st)
        raise OutOfReach("reference to %s %s" % (k, r.get("name")))

    def global_var(self, n, r, st):
        name = r["name"]
        if name == "OK" and n.get("type", {}).get("qualType", "").replace("const ", "").strip().split("::")[-1] == "Status":
            return [(st, Obj("Status", {"code": z3.IntVal(0)}))]
        if name in ERR:
            return [(st, z3.IntVal(ERR[name]))]
        if re.match(r"^_\d+$", name):
            return [(st, Opaque("ph:" + name[1:]))]
        root = "g:" + name
        if root not in st.store:
            ov = self.unit.global_override(self, st, name)
            if ov is not None:
                st.store[root] = ov
            else:
                o = self.db.ids.get((self.cur_doc, r.get("id")))
                vn = None
                if o and o[0] == "gvar":
                    q = o[2]
                    cands = [self.db.globals[g] for g in self.db.globals if g == q or g.split("::")[-1] == name]
                    for cn, cd in cands:
                        if "init" in cn:
                            vn = (cn, cd)
                else:
                    for g, (cn, cd) in self.db.globals.items():
                        if g.split("::")[-1] == name and "init" in cn:
                            vn = (cn, cd)
                q = n.get("type", {}).get("qualType", "")
                if q.startswith("const ") and vn is not None and node_type(n).k in ("int", "float", "bool"):
                    old = self.cur_doc
                    self.cur_doc = vn[1]
                    try:
                        res = self.ev1(vn[0]["inner"][-1], st)
                    finally:
                        self.cur_doc = old
                    st.store[root] = res[0][1]
                else:
                    key = root
                    if key not in self.unit_globals:
                        s0 = State()
                        self.unit_globals[key] = (self.fresh(s0, node_type(n), "g." + name), s0.pc)
                    v, facts = self.unit_globals[key]
                    st.store[root] = v
                    st.pc.extend(facts)
        return [(st, LV((root, ())))]

    def e_MemberExpr(self, n, st):
        name = n.get("name")
        out = []
        base = n["inner"][0]
        for s, b in self.ev(base, st):
            if n.get("type", {}).get("qualType") == "<bound member function type>":
                out.append((s, ("bound", b, n)))
                continue
            if n.get("isArrow"):
                p = self.deref(s, self.val(s, b), n)
            else:
                p = self.lv(s, b)
            rd = n.get("referencedMemberDecl")
            o = self.db.ids.get((self.cur_doc, rd))
            if o is None or o[0] != "field":
                v = s.store.get(p.path[0])
                if o is not None and o[0] == "gvar":   # static data member
                    out += self.global_var(n, {"name": name, "id": rd, "kind": "VarDecl"}, s)
                    continue
                if o is not None and o[0] == "func":
                    out.append((s, FuncRef(({"name": name, "id": rd, "type": n.get("type", {})}, self.cur_doc))))
                    continue
            q = self.load_quiet(s, p.path)
            if isinstance(q, RPtr) and not n.get("isArrow"):
                q2 = q
            out.append((s, LV(F(p.path, name))))
        return out

    def load_quiet(self, st, path):
        a, self.alog = self.alog, None
        try:
            return self.load(st, path)
        finally:
            self.alog = a

    def deref(self, st, v, node=None):
        """Pointer value -> LV of the object it points to (null dereference is an obligation)."""
        if isinstance(v, LV):
            v = self.val(st, v)
        if isinstance(v, PPtr):
            if v.path is None:
                self.oblige(st, "null", FALSE, node, "null pointer dereference")
                raise Infeasible()
            return LV(v.path)
        if isinstance(v, RPtr):
            self.oblige_q(st, "null", v.addr != 0, node, "null pointer dereference")
            return LV((self.heap_root(st, v.heap), (("i", v.addr),)))
        if isinstance(v, Iter):
            return LV(self.iter_path(st, v, node))
        if isinstance(v, MapIter):
            return LV(self.mapiter_path(st, v, node))
        raise OutOfReach("dereference of %r" % (v,))

    def oblige_q(self, st, kind, goal, node, label):
        """Safety obligation: try the fast path first to keep the obligation list short."""
        if kind in getattr(self.unit, "skip_kinds", ()):
            return        # listed among the unit's assumptions
        if z3.is_true(z3.simplify(goal)):
            return
        if self.quick(st, goal):
            self.inv_log.append((kind, st.fns[-1] if st.fns else "?", "quick"))
            return
        self.oblige(st, kind, goal, node, label)

    def iter_path(self, st, it, node=None):
        if it.cont is None:
            raise OutOfReach("iterator into an unknown container")
        v = self.load_quiet(st, it.cont)
        if not isinstance(v, Vec):
            raise OutOfReach("iterator into %r" % (v,))
        pos = it.pos
        self.oblige_q(st, "bounds", z3.And(pos >= 0, pos < v.len), node, "iterator dereference out of range")
        if it.rev:
            pos = v.len - 1 - pos
        return IX(it.cont, pos)

    def mapiter_path(self, st, it, node=None):
        self.oblige_q(st, "bounds", z3.Not(it.end), node, "dereference of end()")
        return (it.cont[0], it.cont[1] + (("m", it.key),))

    # casts
    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        c = n["inner"][0]
        if ck in ("NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "BuiltinFnToFnPtr",
                  "ConstructorConversion", "UserDefinedConversion", "UncheckedDerivedToBase", "DerivedToBase",
                  "BaseToDerived", "LValueBitCast"):
            return self.ev(c, st)
        if ck == "LValueToRValue":
            out = []
            for s, v in self.ev(c, st):
                v = self.val(s, v)
                t = node_type(n)
                if t.k == "int" and is_z3(v) and v.sort() == z3.IntSort() and not z3.is_int_value(v):
                    self.typed(s, v, t)
                elif t.k == "float" and self.fm.name == "ord" and is_z3(v) and not z3.is_int_value(v):
                    k = ("t", v.get_id())
                    if not any(e.get_id() == self._tf.get(k, (None,))[0] for e, _ in s.pc if k in self._tf):
                        f = self.fm.rng(v)
                        self._tf[k] = (f.get_id(), f, v)
                        s.assume(f)
                out.append((s, v))
            return out
        if ck == "ToVoid":
            return [(s, None) for s, v in self.ev(c, st)]
        if ck == "NullToPointer":
            return [(st, PPtr(None))]
        if ck == "BitCast":
            raise OutOfReach("bit cast")
        out = []
        for s, v in self.ev(c, st):
            v = self.val(s, v)
            f, t = node_type(c), node_type(n)
            out.append((s, self.cast(s, v, f, t, ck, n)))
        return out

    _tf = {}

    def typed(self, st, v, t):
        """Type invariant of a loaded integer."""
        k = ("t", v.get_id(), t.name)
        if k not in self._tf:
            f = self.range_fact(v, t)
            self._tf[k] = (f.get_id(), f, v)
        f = self._tf[k][1]
        fid = f.get_id()
        for e, _ in reversed(st.pc):
            if e.get_id() == fid:
                return
        st.assume(f)

    def cast(self, s, v, f, t, ck, n):
        if ck == "IntegralCast":
            if f.k == "bool" or (is_z3(v) and z3.is_bool(v)):
                if t.k == "bool":
                    return v
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if t.k == "bool":
                return self.to_bool(s, v)
            if t.k != "int":
                return v
            if f.k != "int":
                self.assumed.add("enumeration objects hold values that fit in int")
                return v
            return self.cast_int(s, v, f, t, n)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.to_bool(s, v)
        if ck == "IntegralToFloating":
            if z3.is_bool(v):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if z3.is_int_value(v):
                return self.fm.const(str(v.as_long()), t)
            return self.fm.from_int(v, t)
        if ck == "FloatingCast":
            return self.fm.cast(v, f, t)
        if ck == "FloatingToIntegral":
            r = self.fm.to_int(v)
            lo, hi = INT_RANGE[t.name]
            self.oblige_q(s, "conversion", z3.And(r >= lo, r <= hi), n, "float to integer conversion out of range")
            return r
        raise OutOfReach("cast " + str(ck))

    def e_CXXStaticCastExpr(self, n, st):
        return self.e_ImplicitCastExpr(n, st)

    e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXStaticCastExpr

    # operators
    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        c = n["inner"][0]
        out = []
        for s, v in self.ev(c, st):
            t = node_type(n)
            if op == "&":
                if not isinstance(v, LV):
                    if isinstance(v, FuncRef):
                        out.append((s, v))
                        continue
                    raise OutOfReach("address of rvalue")
                out.append((s, self.addr_of(s, v)))
            elif op == "*":
                out.append((s, self.deref(s, self.val(s, v), n)))
            elif op == "!":
                out.append((s, z3.Not(self.to_bool(s, self.val(s, v)))))
            elif op == "-":
                x = self.val(s, v)
                if t.k == "float":
                    out.append((s, self.fm.neg(x)))
                else:
                    out.append((s, self.int_result(s, -x, t, n, "negation")))
            elif op == "+":
                out.append((s, self.val(s, v)))
            elif op in ("++", "--"):
                x = self.val(s, v)
                d = 1 if op == "++" else -1
                tt = node_type(c)
                if isinstance(x, Iter):
                    nv = Iter(x.cont, x.pos + d, x.rev)
                elif tt.k == "float":
                    nv = self.fm.add(x, self.fm.const(str(d), tt))
                elif tt.k == "int":
                    wide = tt if tt.name in ("int", "unsigned int", "long", "unsigned long") else None
                    nv = self.int_result(s, x + d, tt, n, "increment") if wide else self.cast_int(s, x + d, None, tt, n)
                else:
                    raise OutOfReach("++ on %r" % tt)
                self.save(s, v.path, nv)
                out.append((s, x if n.get("isPostfix") else v))
            elif op == "~":
                raise OutOfReach("bitwise not")
            else:
                raise OutOfReach("unary " + op)
        return out

    def addr_of(self, st, v):
        p = v.path
        if p[0].startswith("heap:") and len(p[1]) == 1:
            return RPtr(p[0][5:], p[1][0][1])
        return PPtr(p)

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op == ",":
            out = []
            for s, _ in self.ev(a, st):
                out += self.ev(b, s)
            return out
        if op in ("&&", "||"):
            return self.shortcut(op, a, b, st)
        if op == "=":
            out = []
            # C++17 order is unspecified before; evaluate right then left
            for s, rv in self.ev(b, st):
                rv = self.val(s, rv)
                for s2, l in self.ev(a, s):
                    self.save(s2, l.path, rv)
                    out.append((s2, l))
            return out
        out = []
        for s, va in self.ev1(a, st):
            for s2, vb in self.ev1(b, s):
                out.append((s2, self.binop(s2, op, va, vb, node_type(a), node_type(n), n)))
        return out

    def binop(self, s, op, va, vb, ta, tr, n):
        if not (is_z3(va) and is_z3(vb)):
            return self.lib.binop_val(self, s, op, va, vb, n)
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if z3.is_bool(va) or z3.is_bool(vb):
                if z3.is_bool(va) and z3.is_bool(vb):
                    if op == "==":
                        return va == vb
                    if op == "!=":
                        return va != vb
                raise OutOfReach("bool comparison " + op)
            if ta.k == "float":
                fm = self.fm
                return {"==": lambda: fm.eq(va, vb), "!=": lambda: z3.Not(fm.eq(va, vb)), "<": lambda: fm.lt(va, vb),
                        "<=": lambda: fm.le(va, vb), ">": lambda: fm.lt(vb, va), ">=": lambda: fm.le(vb, va)}[op]()
            return {"==": lambda: va == vb, "!=": lambda: va != vb, "<": lambda: va < vb, "<=": lambda: va <= vb,
                    ">": lambda: va > vb, ">=": lambda: va >= vb}[op]()
        if tr.k == "float":
            fm = self.fm
            if op == "+": return fm.add(va, vb)
            if op == "-": return fm.sub(va, vb)
            if op == "*": return fm.mul(va, vb)
            if op == "/": return fm.div(va, vb)
        if tr.k == "int":
            if op in ("+", "-", "*"):
                e = va + vb if op == "+" else va - vb if op == "-" else va * vb
                if op == "*" and not z3.is_int_value(va) and not z3.is_int_value(vb):
                    # true of all integers; helps the solver with products
                    M = 2 ** 31
                    s.assume(z3.Implies(z3.And(va >= 0, vb >= 0, va <= M, vb <= M), z3.And(e >= 0, e <= M * M)))
                    s.assume(z3.Implies(z3.And(va >= 1, vb >= 1), z3.And(e >= va, e >= vb)))
                return self.int_result(s, e, tr, n, {"+": "addition", "-": "subtraction", "*": "multiplication"}[op])
            if op in ("/", "%"):
                self.oblige_q(s, "div0", vb != 0, n, "integer division by zero")
                lo, hi = INT_RANGE[tr.name]
                pos = self.quick(s, z3.And(va >= 0, vb > 0))
                if op == "/":
                    if pos or lo == 0:
                        return va / vb
                    q = z3.If(vb > 0, z3.If(va >= 0, va / vb, -((-va) / vb)), z3.If(va >= 0, -(va / (-vb)), (-va) / (-vb)))
                    return self.int_result(s, q, tr, n, "division")
                if pos or lo == 0:
                    return va % vb
                return z3.If(va >= 0, va % vb, -((-va) % vb))
            if op in ("<<", ">>") and z3.is_int_value(vb):
                m = 2 ** vb.as_long()
                if op == "<<":
                    return self.int_result(s, va * m, tr, n, "shift")
                return va / m
            if op == "&" and z3.is_int_value(vb) and vb.as_long() >= 0 and (vb.as_long() & (vb.as_long() + 1)) == 0:
                return va % (vb.as_long() + 1)
        if tr.k == "bool" and op in ("&", "|", "^"):
            return z3.And(va, vb) if op == "&" else z3.Or(va, vb) if op == "|" else z3.Xor(va, vb)
        raise OutOfReach("binary %s on %r" % (op, tr))

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        out = []
        for s, rv in self.ev1(b, st):
            for s2, l in self.ev(a, s):
                cur = self.val(s2, l)
                tl = node_type(a)
                tc = parse_type(n.get("computeResultType", {}).get("desugaredQualType") or
                                n.get("computeResultType", {}).get("qualType") or "int")
                if not is_z3(cur):
                    nv = self.lib.binop_val(self, s2, op, cur, rv, n)
                else:
                    x = cur
                    if tl.k == "bool" and tc.k == "int":
                        x = z3.If(cur, z3.IntVal(1), z3.IntVal(0))
                    elif tl.k == "int" and tc.k == "float":
                        x = self.fm.from_int(cur, tc)
                    elif tl.k == "int" and tc.k == "int" and tl.name != tc.name:
                        x = self.cast_int(s2, cur, tl, tc, n)
                    elif tl.k == "float":
                        x = self.fm.cast(cur, tl, tc)
                    r = self.binop(s2, op, x, rv, tc, tc, n)
                    if tl.k == "bool" and not z3.is_bool(r):
                        r = r != 0
                    elif tl.k == "int" and tc.k == "float":
                        r = self.cast(s2, r, tc, tl, "FloatingToIntegral", n)
                    elif tl.k == "int" and tl.name != tc.name:
                        r = self.cast_int(s2, r, tc, tl, n)
                    elif tl.k == "float":
                        r = self.fm.cast(r, tc, tl)
                    nv = r
                self.save(s2, l.path, nv)
                out.append((s2, l))
        return out

    def shortcut(self, op, a, b, st):
        out = []
        for s, va in self.ev1(a, st):
            c = z3.simplify(self.to_bool(s, va))
            if op == "||":
                c = z3.simplify(z3.Not(c))
            # c: condition under which b is evaluated
            if z3.is_true(c):
                out += [(s2, self.to_bool(s2, v)) for s2, v in self.ev1(b, s)]
                continue
            if z3.is_false(c):
                out.append((s, z3.BoolVal(op == "||")))
                continue
            s1, s2 = s.fork(), s.fork()
            s1.assume(c, True)
            s2.assume(z3.Not(c), True)
            group = []
            if self.feasible(s1):
                try:
                    group += [(x, self.to_bool(x, v)) for x, v in self.ev1(b, s1)]
                except Infeasible:
                    pass
            if self.feasible(s2):
                group.append((s2, z3.BoolVal(op == "||")))
            out += self.merge(s, group)
        return out

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        if self.is_fatal(b) or self.is_fatal(a):
            return self.check_macro(n, st)
        out = []
        for s, vc in self.ev1(c, st):
            cond = z3.simplify(self.to_bool(s, vc))
            group = []
            if not z3.is_false(cond):
                s1 = s.fork().assume(cond, True)
                if z3.is_true(cond) or self.feasible(s1):
                    group += self.ev(a, s1)
            if not z3.is_true(cond):
                s2 = s.fork().assume(z3.Not(cond), True)
                if z3.is_false(cond) or self.feasible(s2):
                    group += self.ev(b, s2)
            if n.get("valueCategory") == "lvalue":
                vals_ = [v.path if isinstance(v, LV) else None for _, v in group]
                if len(group) > 1 and not all(p and same_path(p, vals_[0]) for p in vals_):
                    out += group
                    continue
            out += self.merge(s, [(x, self.val(x, v) if n.get("valueCategory") == "prvalue" else v) for x, v in group])
        return out

    def merge(self, base, group):
        """Join forks that did not change memory into one state with an ite value."""
        if len(group) <= 1:
            return group
        for s, v in group:
            if s.status is not None or not (is_z3(v) or isinstance(v, (Obj, Vec, RPtr, Iter)) or v is None):
                return group
            for r in base.store:
                if s.store.get(r) is not base.store[r]:
                    return group
        nb = len(base.pc)
        st = base.fork()
        conds = []
        for s, v in group:
            if len(s.pc) < nb:
                return group
            br = [e for e, isb in s.pc[nb:] if isb]
            fa = [e for e, isb in s.pc[nb:] if not isb]
            c = z3.And(*br) if len(br) > 1 else (br[0] if br else TRUE)
            conds.append(c)
            for f in fa:
                st.assume(z3.Implies(c, f) if br else f)
            for r in s.store:
                if r not in st.store:
                    st.store[r] = s.store[r]
            st.env = s.env if len(s.env) > len(st.env) else st.env
        anyc = z3.simplify(z3.Or(*conds))
        if not z3.is_true(anyc):
            st.assume(anyc)
        v = group[-1][1]
        try:
            for (s, x), c in list(zip(group, conds))[-2::-1]:
                if v is None and x is None:
                    continue
                if is_z3(x) and is_z3(v) and x.sort() != v.sort():
                    return group
                v = ite(c, x, v)
        except OutOfReach:
            return group
        if len(group) == 2 and is_z3(v) and z3.is_bool(v):
            v = z3.simplify(v)
        return [(st, v)]

    # CHECK(...) / LOG(FATAL)
    def is_fatal(self, n):
        return self._contains(n, "LogMessageFatal")

    def is_log(self, n):
        return self._contains(n, "LogMessage")

    def _contains(self, n, what, depth=12):
        if not isinstance(n, dict) or depth < 0:
            return False
        if n.get("kind") in ("CXXTemporaryObjectExpr", "CXXConstructExpr") and \
                what in n.get("type", {}).get("qualType", "") and \
                not n.get("type", {}).get("qualType", "").endswith("Voidify"):
            return True
        if n.get("kind") == "LambdaExpr":
            return False
        return any(self._contains(c, what, depth - 1) for c in n.get("inner", []))

    def check_macro(self, n, st):
        c, a, b = n["inner"]
        out = []
        for s, vc in self.ev1(c, st):
            cond = self.to_bool(s, vc)
            bad_when = z3.simplify(z3.Not(cond)) if self.is_fatal(b) else z3.simplify(cond)
            self.abort(s, bad_when, n)
            if z3.is_true(bad_when):
                continue
            s.assume(z3.simplify(z3.Not(bad_when)))
            out.append((s, None))
        return out

    def abort(self, s, when, n):
        if self.unit.abort_ok:
            return
        self.oblige_q(s, "abort", z3.Not(when), n, "CHECK/LOG(FATAL) must not fire")

    # ------------------------------------------------------------ lambdas / calls
    def e_LambdaExpr(self, n, st):
        inner = n["inner"]
        rec = inner[0]
        op = [c for c in rec["inner"] if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
        if not op:
            # generic lambda
            raise OutOfReach("generic lambda")
        op = op[0]
        body = [c for c in op["inner"] if c.get("kind") == "CompoundStmt"]
        fields = [c for c in rec["inner"] if c.get("kind") == "FieldDecl"]
        caps = [c for c in inner[1:] if c.get("kind") not in ("CompoundStmt",)]
        # capture initialisers, one per field, in order
        res = self.evs(caps, st) if caps else [(st, [])]
        out = []
        for s, vs in res:
            env = {}
            used = {}
            self._declrefs(body[0], used)
            this = None
            for c, v in zip(caps, vs):
                cc = c
                while cc.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr", "ParenExpr",
                                         "CXXBindTemporaryExpr", "ExprWithCleanups") and cc.get("inner"):
                    cc = cc["inner"][0]
                if cc.get("kind") == "CXXThisExpr":
                    this = s.this
                    continue
            fi = 0
            for c, v, fd in zip(caps, vs, fields):
                cc = c
                while cc.get("kind") in ("ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr", "ParenExpr",
                                         "CXXBindTemporaryExpr", "ExprWithCleanups") and cc.get("inner"):
                    cc = cc["inner"][0]
                if cc.get("kind") == "CXXThisExpr":
                    continue
                byref = fd.get("type", {}).get("qualType", "").rstrip().endswith("&") or \
                    (fd.get("type", {}).get("desugaredQualType") or "").rstrip().endswith("&")
                tgt = None
                if cc.get("kind") == "DeclRefExpr" and cc["referencedDecl"]["id"] in used and not fd.get("name"):
                    tgt = cc["referencedDecl"]["id"]
                env_key = tgt
                if env_key is None:
                    # init-capture: the body's DeclRefs name a VarDecl whose name is that of the capture
                    env_key = ("cap", len(env))
                env[env_key] = (v if isinstance(v, LV) and byref else self.val(s, v), byref, c)
            # init captures: match remaining DeclRefs in the body by order of appearance is unsafe;
            # clang gives the captured VarDecl via name + type, so match by name.
            un = [k for k in env if isinstance(k, tuple)]
            if un:
                names = n.get("_capnames") or self._init_capture_names(n, body[0], used, s)
                for k, (nm, ids) in zip(un, names):
                    for i in ids:
                        env[i] = env[k]
                for k in un:
                    pass
            cl = Closure(op, env, self.cur_doc, this if this is not None else s.this)
            cl_frame = None
            out.append((s, cl))
        return out

    def _declrefs(self, n, acc):
        if not isinstance(n, dict):
            return
        if n.get("kind") == "DeclRefExpr":
            r = n["referencedDecl"]
            acc.setdefault(r["id"], r)
        for c in n.get("inner", []):
            self._declrefs(c, acc)

    def _declared(self, n, acc):
        if not isinstance(n, dict):
            return
        if n.get("kind") in ("VarDecl", "ParmVarDecl"):
            acc.add(n.get("id"))
        for c in n.get("inner", []):
            self._declared(c, acc)

    def _init_capture_names(self, n, body, used, st):
        """Variables used in the body that are neither declared there, nor parameters, nor in scope outside:
        they are the init-captures, in order; names come from the source text of the capture list."""
        decl = set()
        for c in n["inner"][0]["inner"]:
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                self._declared(c, decl)
        un = {}
        for i, r in used.items():
            if r.get("kind") == "VarDecl" and i not in decl and i not in st.env and (self.cur_doc, i) not in self.db.ids:
                un.setdefault(r["name"], []).append(i)
        # order: from the source text
        names = self._capture_list_names(n)
        return [(nm, un.get(nm, [])) for nm in names]

    def _capture_list_names(self, n):
        b = n.get("range", {}).get("begin", {})
        if "expansionLoc" in b:
            b = b["expansionLoc"]
        off = b.get("offset")
        txt = None
        for f in self.src_files():
            t = self.src_text(f)
            if off is not None and off < len(t) and t[off:off + 1] == b"[":
                # verify by length of first token
                end = t.find(b"]", off)
                # nested [..] inside the capture list
                d, j = 0, off
                while j < len(t):
                    if t[j:j + 1] == b"[":
                        d += 1
                    elif t[j:j + 1] == b"]":
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                cap = t[off + 1:j].decode()
                if "=" in cap and self._cap_ok(cap):
                    txt = cap
                    if f == self.cur_file:
                        break
        if txt is None:
            raise OutOfReach("capture list not found")
        out = []
        for part in vals._tok_split(txt):
            m = re.match(r"^&?\s*(\w+)\s*=[^=]", part)
            if m:
                out.append(m.group(1))
        return out

    def _cap_ok(self, cap):
        return all(re.match(r"^(&|=|this|\*this|&?\w+|&?\s*\w+\s*=.*)$", p.strip(), re.S) for p in vals._tok_split(cap))

    _src = {}

    def src_text(self, f):
        if f not in self._src:
            self._src[f] = open(f, "rb").read()
        return self._src[f]

    def src_files(self):
        fs = []
        if self.cur_file:
            fs.append(self.cur_file)
        return fs

    cur_file = None
    cur_doc = None

    def e_CallExpr(self, n, st):
        callee, args = n["inner"][0], n["inner"][1:]
        name, r = self.callee_name(callee)
        h = self.lib.FUNCS.get(name)
        if name is not None:
            f = self.resolve(r, name)
            if f is not None:
                return self.call_user(n, st, f, None, args)
            if h is not None:
                return h(self, st, n, args)
        out = []
        for s, fv in self.ev(callee, st):
            fv = self.val(s, fv)
            for s2, av in self.evs(args, s):
                out += self.apply(s2, fv, av, n)
        return out

    def callee_name(self, c):
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        if c.get("kind") == "DeclRefExpr" and c["referencedDecl"].get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return c["referencedDecl"]["name"], c["referencedDecl"]
        if c.get("kind") == "MemberExpr":
            # static member called through an object
            o = self.db.ids.get((self.cur_doc, c.get("referencedMemberDecl")))
            if o and o[0] == "func":
                return c.get("name"), {"name": c.get("name"), "id": c.get("referencedMemberDecl"),
                                       "type": {"qualType": ""}}
        return None, None

    def resolve(self, r, name, cls=None):
        """Reference -> Func with body or contract, or None."""
        o = self.db.ids.get((self.cur_doc, r.get("id")))
        if o and o[0] == "func":
            m = o[1]
            if m in self.db.funcs:
                return self.db.funcs[m]
            d = self.db.decls.get(m)
            if d is not None and self.unit.contract_for(d):
                return d
            if d is not None and d.cls and "VectorSlice" not in d.cls:
                pass
            cands = [f for f in self.db.byname.get(name, []) if d is not None and f.qname == d.qname and f.type == d.type]
            if cands:
                return cands[0]
            return None
        t = r.get("type", {}).get("qualType", "")
        cands = [f for f in self.db.byname.get(name, []) if f.type == t and (cls is None or f.cls == cls)]
        cands = [f for f in cands if f.cls is None or f.static or cls is not None]
        if len(cands) == 1:
            return cands[0]
        return None

    def apply(self, st, fv, args, n):
        """Call a function value."""
        if isinstance(fv, Closure):
            return self.call_closure(st, fv, args, n)
        if isinstance(fv, FnArr):
            a = self.val(st, args[0])
            return [(st, z3.Select(fv.arr, a))]
        if isinstance(fv, FnSym):
            return [(st, fv.fn(*[self.val(st, a) for a in args]))]
        if isinstance(fv, BoundFn):
            full = []
            for a in fv.args:
                if isinstance(a, Opaque) and a.tag.startswith("ph:"):
                    full.append(args[int(a.tag[3:]) - 1])
                else:
                    full.append(a)
            return self.apply(st, fv.fn, full, n)
        if isinstance(fv, FuncRef):
            r, doc = fv.ref
            old = self.cur_doc
            self.cur_doc = doc
            try:
                f = self.resolve(r, r["name"])
            finally:
                self.cur_doc = old
            if f is not None:
                if f.cls and not f.static and args:
                    return self.call_func(st, f, args[0], args[1:], n)
                return self.call_func(st, f, None, args, n)
            h = self.lib.VFUNCS.get(r["name"])
            if h:
                return h(self, st, args, n)
        raise OutOfReach("call of %r" % (fv,))

    def call_closure(self, st, cl, args, n):
        env = {}
        for k, (v, byref, c) in cl.caps.items():
            if isinstance(v, LV):
                env[k] = v.path
            else:
                env[k] = self.alloc(st, v, "cap")
        params = [c for c in cl.node["inner"] if c.get("kind") == "ParmVarDecl"]
        body = [c for c in cl.node["inner"] if c.get("kind") == "CompoundStmt"][0]
        return self.run_body(st, params, args, body, env, cl.this, cl.doc, st.fns[-1] + "/lambda" if st.fns else "lambda",
                             cl.node.get("type", {}).get("qualType", ""))

    def run_body(self, st, params, args, body, env, this, doc, fname, ftype, inits=None, ctor=None):
        if self.depth > 40:
            raise OutOfReach("inlining depth")
        saved_env, saved_this, saved_fns = st.env, st.this, st.fns
        roots0 = set(st.store)
        st.env = dict(env)
        st.this = this
        st.fns = st.fns + (fname,)
        for p, a in zip(params, args):
            t = p.get("type", {})
            q = (t.get("desugaredQualType") or t.get("qualType") or "").strip()
            if q.endswith("&"):
                st.env[p["id"]] = self.lv(st, a, p.get("name", "arg")).path
            else:
                st.env[p["id"]] = self.alloc(st, self.val(st, a), p.get("name", "arg"))
        if len(params) > len(args):
            for p in params[len(args):]:
                d = [c for c in p.get("inner", [])]
                if not d:
                    raise OutOfReach("missing argument %s" % p.get("name"))
                r = self.ev1(d[0], st)
                st.env[p["id"]] = self.alloc(r[0][0], r[0][1], p.get("name", "arg"))
        old_doc, old_file = self.cur_doc, self.cur_file
        self.cur_doc = doc
        self.depth += 1
        base = st.fork()
        try:
            states = [st]
            if inits is not None:
                states = inits(st)
            res = []
            for s in states:
                res += self.exec(body, s) if body is not None else [s]
        finally:
            self.cur_doc, self.cur_file = old_doc, old_file
            self.depth -= 1
        out = []
        for s in res:
            if s.status == "throw":
                s.env, s.this, s.fns = saved_env, saved_this, saved_fns
                out.append((s, None))
                continue
            v = s.ret
            s.ret, s.status = None, None
            s.env, s.this, s.fns = saved_env, saved_this, saved_fns
            out.append((s, v))
        if len(out) > 1 and all(s.status is None for s, _ in out) and \
                not any(isinstance(v, LV) for _, v in out):
            b = base
            b.env, b.this, b.fns = saved_env, saved_this, saved_fns
            out = self.merge(b, out)
        return out

    def call_user(self, n, st, f, this, args):
        out = []
        for s, av in self.evs(args, st):
            out += self.call_func(s, f, this, av, n)
        return out

    def call_func(self, st, f, this, args, n):
        c = self.unit.contract_for(f)
        if c is not None and not self.unit.must_inline(f):
            return self.call_contract(st, f, c, this, args, n)
        if f.body is None:
            raise OutOfReach("no body for %s" % f.qname)
        if self.unit.target is not None and f.mangled == self.unit.target.mangled:
            raise OutOfReach("recursive call without contract: " + f.qname)
        self.inlined.add(f.qname)
        tp = None
        if this is not None:
            tp = this.path if isinstance(this, LV) else this
        if self.rec_depth.get(f.mangled, 0) > 3:
            raise OutOfReach("recursion in " + f.qname)
        self.rec_depth[f.mangled] = self.rec_depth.get(f.mangled, 0) + 1
        of = self.cur_file
        self.cur_file = self.file_of(f)
        try:
            if f.kind == "CXXConstructorDecl":
                return self.run_ctor(st, f, tp, args, n)
            return self.run_body(st, f.params, args, f.body, {}, tp, f.doc, f.qname, f.type)
        finally:
            self.rec_depth[f.mangled] -= 1
            self.cur_file = of

    def file_of(self, f):
        import os
        from astdb import REPO
        loc = f.node.get("loc", {})
        fn = loc.get("file") or loc.get("expansionLoc", {}).get("file")
        if fn:
            return fn if fn.startswith("/") else os.path.join(REPO, fn)
        return os.path.join(REPO, "src", f.file)

    def call_contract(self, st, f, c, this, args, n):
        self.contracted.add(f.qname)
        from spec import CallCtx
        if f.kind == "CXXConstructorDecl":
            pass
        args = [self.lv(st, a, "arg") for a in args]
        ctx = CallCtx(self, f, c, st, this, args)
        for label, e in c.pre(ctx) or []:
            self.oblige_q(st, "precondition", e, n, "precondition of %s: %s" % (f.qname, label))
        post = st.fork()
        c.havoc(ctx, post)
        rt = self.ret_type(f)
        ctx.post = post
        ctx.ret = c.result(ctx, post, rt)
        outs = []
        alts = c.cases(ctx, post) if hasattr(c, "cases") else None
        for label, e in c.post(ctx) or []:
            post.assume(e)
        if self.alog is not None:
            c.footprint(ctx, self.alog)
        return [(post, ctx.ret)]

    def ret_type(self, f):
        t = f.type
        i = 0
        d = 0
        # return type is everything before the parameter list
        args = t
        j = len(t) - 1
        while j >= 0 and t[j] != ")":
            j -= 1
        d = 0
        while j >= 0:
            if t[j] == ")":
                d += 1
            elif t[j] == "(":
                d -= 1
                if d == 0:
                    break
            j -= 1
        r = t[:j].strip()
        ov = f.node.get("type", {}).get("desugaredQualType")
        return parse_type(r) if r else Ty("void", "void")

    # constructors
    def e_CXXConstructExpr(self, n, st):
        t = node_type(n)
        args = n.get("inner", [])
        return self.construct(n, st, t, args)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, st, t, args, into=None):
        """Returns values of the constructed object."""
        if t.k != "class":
            if not args:
                return [(st, self.default(st, t))]
            return self.ev1(args[0], st)
        if t.name == "carray":
            raise OutOfReach("array object")
        b = t.name.split("::")[-1]
        # copy / move
        ct = n.get("ctorType", {}).get("qualType", "")
        h = self.lib.CTORS.get(t.name) or self.lib.CTORS.get(b)
        rec = self.db.record(t.name) if t.name not in ("lambda",) else None
        if t.name == "VectorSlice" or t.name.startswith("VectorSlice"):
            rec = self.db.record("VectorSlice<unsigned int>")
        if len(args) == 1 and node_type(args[0]).strip() == t and (rec is None or self.is_copy_ctor(ct, t)):
            return self.ev1(args[0], st)
        if t.name == "lambda":
            return self.ev1(args[0], st)
        if h is not None:
            return h(self, st, n, t, args)
        if b in self.proto.msgs:
            if not args:
                return [(st, self.default(st, t))]
            return self.ev1(args[0], st)
        if rec is not None:
            ctors = [f for f in self.db.funcs.values() if f.kind == "CXXConstructorDecl" and f.cls == rec.qname]
            m = [f for f in ctors if self.norm(f.type) == self.norm(ct)]
            if not m:
                m = [f for f in ctors if len(f.params) == len(args) and not self.is_copy_ctor(f.type, t)]
                if len(m) > 1:
                    m = []
            if m:
                out = []
                for s, av in self.evs(args, st):
                    p = self.alloc(s, None, "obj")
                    for s2, _ in self.call_func(s, m[0], LV(p), av, n):
                        out.append((s2, self.load_quiet(s2, p)))
                return out
            if not args:
                return [(st, self.default_record(st, rec))]
            if self.is_copy_ctor(ct, t):
                return self.ev1(args[0], st)
        if len(args) == 1:
            at = node_type(args[0]).strip()
            if at.k == "class" and at.name.split("<")[0] == t.name:
                return self.ev1(args[0], st)
        raise OutOfReach("constructor of %r from %s" % (t, ct))

    def is_copy_ctor(self, ct, t):
        a = split_args(ct)
        if len(a) != 1:
            return False
        p = parse_type(a[0])
        if p.k != "ref":
            return False
        p = p.strip()
        return p.k == "class" and (p.name.split("::")[-1] == t.name.split("::")[-1])

    def norm(self, s):
        return re.sub(r"\s*noexcept\s*$", "", s).strip()

    def default_record(self, st, rec):
        d = {}
        for fd in self.all_fields(rec):
            if not fd.get("name"):
                continue
            d[fd["name"]] = self.field_default(st, fd)
        return Obj(rec.qname, d)

    def field_default(self, st, fd):
        init = [c for c in fd.get("inner", []) if isinstance(c, dict) and c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        t = node_type(fd)
        if init:
            return self.ev1(init[0], st)[0][1]
        if t.k in ("int", "float", "bool"):
            return self.fresh(st, t, fd["name"])     # uninitialised
        v = self.default(st, t, fd["name"])
        if v is None:
            return self.default_record(st, self.db.record(t.name))
        return v

    def run_ctor(self, st, f, path, args, n):
        rec = self.db.record(f.cls)
        cur = st.store.get(path[0]) if not path[1] else self.load_quiet(st, path)
        if cur is None or not path[1]:
            od = self.cur_doc
            self.cur_doc = rec.doc
            try:
                obj = self.default_record(st, rec)
            finally:
                self.cur_doc = od
            st.store[path[0]] = obj
            if self.wlog is not None:
                self.wlog.add((path[0], ()))
        else:
            od = self.cur_doc
            self.cur_doc = rec.doc
            try:
                for fd in self.all_fields(rec):
                    if fd.get("name"):
                        self.save(st, F(path, fd["name"]), self.field_default(st, fd))
            finally:
                self.cur_doc = od

        def inits(s):
            states = [s]
            for i in f.inits:
                new = []
                for x in states:
                    if "anyInit" in i:
                        fn = i["anyInit"]["name"]
                        e = i["inner"][0] if i.get("inner") else None
                        if e is None or e.get("kind") == "CXXDefaultInitExpr":
                            new.append(x)
                            continue
                        ft = parse_type(i["anyInit"].get("type", {}).get("desugaredQualType") or
                                        i["anyInit"].get("type", {}).get("qualType") or "int")
                        for y, v in self.ev1(e, x):
                            if v is None or (isinstance(v, Opaque) and v.tag == "defaultinit"):
                                new.append(y)
                                continue
                            self.save(y, F(path, fn), v)
                            new.append(y)
                    elif "baseInit" in i:
                        e = i["inner"][0]
                        while e.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
                            e = e["inner"][0]
                        bt = parse_type(i["baseInit"].get("desugaredQualType") or i["baseInit"].get("qualType"))
                        br = self.db.record(bt.name)
                        ct = e.get("ctorType", {}).get("qualType", "")
                        ctors = [g for g in self.db.funcs.values() if g.kind == "CXXConstructorDecl" and br and g.cls == br.qname]
                        m = [g for g in ctors if self.norm(g.type) == self.norm(ct)]
                        if not m:
                            m = [g for g in ctors if len(g.params) == len(e.get("inner", [])) and g.params]
                            m = m if len(m) == 1 else []
                        if not m:
                            if e.get("inner"):
                                raise OutOfReach("base constructor %s %s" % (bt, ct))
                            new.append(x)
                            continue
                        for y, av in self.evs(e.get("inner", []), x):
                            for z, _ in self.call_base_ctor(y, m[0], path, av, n):
                                new.append(z)
                    else:
                        raise OutOfReach("constructor initializer")
                states = new
            return states
        return self.run_body(st, f.params, args, f.body, {}, path, f.doc, f.qname, f.type, inits=inits)

    def call_base_ctor(self, st, f, path, args, n):
        """Run a base constructor on an existing object: its own member initialisers and body."""
        def inits(s):
            states = [s]
            for i in f.inits:
                new = []
                for x in states:
                    if "anyInit" in i:
                        e = i["inner"][0] if i.get("inner") else None
                        if e is None or e.get("kind") == "CXXDefaultInitExpr":
                            new.append(x)
                            continue
                        for y, v in self.ev1(e, x):
                            if v is not None and not (isinstance(v, Opaque) and v.tag == "defaultinit"):
                                self.save(y, F(path, i["anyInit"]["name"]), v)
                            new.append(y)
                    else:
                        e = i["inner"][0]
                        while e.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
                            e = e["inner"][0]
                        bt = parse_type(i["baseInit"].get("desugaredQualType") or i["baseInit"].get("qualType"))
                        br = self.db.record(bt.name)
                        ct = e.get("ctorType", {}).get("qualType", "")
                        m = [g for g in self.db.funcs.values() if g.kind == "CXXConstructorDecl" and br and
                             g.cls == br.qname and self.norm(g.type) == self.norm(ct)]
                        if not m:
                            new.append(x)
                            continue
                        for y, av in self.evs(e.get("inner", []), x):
                            new += [z for z, _ in self.call_base_ctor(y, m[0], path, av, n)]
                states = new
            return states
        return self.run_body(st, f.params, args, f.body, {}, path, f.doc, f.qname, f.type, inits=inits)

    def e_InitListExpr(self, n, st):
        t = node_type(n)
        inner = n.get("inner", [])
        if t.k == "class":
            r = self.db.record(t.name)
            if r is not None:
                out = []
                for s, vs in self.evs(inner, st):
                    fs = [fd["name"] for fd in self.all_fields(r)]
                    out.append((s, Obj(r.qname, {a: self.val(s, v) for a, v in zip(fs, vs)})))
                return out
            if t.name in ("initializer_list", "carray"):
                out = []
                for s, vs in self.evs(inner, st):
                    out.append((s, [self.val(s, v) for v in vs]))
                return out
            if t.name == "pair":
                out = []
                for s, vs in self.evs(inner, st):
                    out.append((s, Obj("pair", {"first": self.val(s, vs[0]), "second": self.val(s, vs[1])})))
                return out
        if len(inner) == 1:
            return self.ev(inner[0], st)
        if not inner:
            return [(st, self.default(st, t))]
        raise OutOfReach("initializer list of %r" % t)

    def e_CXXStdInitializerListExpr(self, n, st):
        c = n["inner"][0]
        while c.get("kind") in ("MaterializeTemporaryExpr", "ExprWithCleanups"):
            c = c["inner"][0]
        out = []
        for s, vs in self.evs(c.get("inner", []), st):
            out.append((s, [self.val(s, v) for v in vs]))
        return out

    def e_CXXNewExpr(self, n, st):
        ty = node_type(n).args[0]
        c = [x for x in n.get("inner", []) if x.get("kind") in ("CXXConstructExpr",)]
        out = []
        heap = self.unit.new_in_heap(self, ty)
        if not c:
            p = self.alloc(st, self.default(st, ty), "new")
            return [(st, PPtr(p))]
        for s, v in self.ev1(c[0], st):
            if heap:
                ptr = self.heap_alloc(s, heap)
                root = self.heap_root(s, heap)
                for name, fv in v.f.items():
                    self.save(s, (root, (("i", ptr.addr), ("f", name))), fv)
                out.append((s, ptr))
            else:
                out.append((s, PPtr(self.alloc(s, v, "new"))))
        return out

    def heap_alloc(self, st, heap):
        a = fresh_sort(z3.IntSort(), "addr")
        key = "alloc:" + heap
        cur = st.ghost.get(key)
        if cur is None:
            cur = z3.Int("alloc!" + heap)
            st.assume(cur >= 0)
        st.assume(a == cur + 1)
        st.ghost[key] = a
        return RPtr(heap, a)

    def e_CXXDeleteExpr(self, n, st):
        return [(s, None) for s, _ in self.ev(n["inner"][0], st)]

    def e_CXXThrowExpr(self, n, st):
        st.status = "throw"
        st.ret = None
        t = "?"
        if n.get("inner"):
            t = node_type(n["inner"][0]).name
        st.ghost["throw"] = t
        raise Thrown(st)

    def e_ArraySubscriptExpr(self, n, st):
        raise OutOfReach("raw array subscript")

    # method calls
    def e_CXXMemberCallExpr(self, n, st):
        me = n["inner"][0]
        while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = me["inner"][0]
        args = n["inner"][1:]
        if me.get("kind") != "MemberExpr":
            raise OutOfReach("member call through pointer to member")
        name = me.get("name")
        if name == "stream" or self.is_log_base(me["inner"][0]):
            return [(st, Opaque("log"))]
        out = []
        for s, b in self.ev(me["inner"][0], st):
            bt = node_type(me["inner"][0])
            if me.get("isArrow"):
                obj = self.deref_obj(s, b, n)
            else:
                obj = self.lv(s, b)
            out += self.method(s, n, me, name, obj, args, bt)
        return out

    def deref_obj(self, s, b, n):
        v = self.val(s, b)
        return self.deref(s, v, n)

    def is_log_base(self, n):
        return "LogMessage" in n.get("type", {}).get("qualType", "")

    def method(self, s, n, me, name, obj, args, bt):
        """Method call on an object (LV)."""
        r = {"name": name, "id": me.get("referencedMemberDecl")}
        o = self.db.ids.get((self.cur_doc, me.get("referencedMemberDecl")))
        v = self.load_quiet(s, obj.path)
        # user classes
        cls = None
        if isinstance(v, Obj) and (self.db.record(v.cls) is not None) and v.cls.split("::")[-1] not in self.proto.msgs:
            cls = v.cls
        if o and o[0] == "func" or cls is not None:
            f = self.find_method(r, name, cls, o, len(args), s, obj, v, n)
            if f is not None:
                return self.call_user(n, s, f, obj, args)
        return self.lib.method(self, s, n, me, name, obj, v, args)

    def find_method(self, r, name, cls, o, nargs, s, obj, v, n):
        d = None
        if o and o[0] == "func":
            d = self.db.decls.get(o[1])
            if d is not None and d.cls and d.cls.split("::")[-1] in self.proto.msgs:
                return None
            if d is not None and d.cls and d.cls.startswith("VectorSlice<") and isinstance(v, Obj) and v.cls.startswith("VectorSlice"):
                if d.mangled in self.db.funcs:
                    return self.db.funcs[d.mangled]
        if cls is None:
            if d is not None and self.unit.contract_for(d):
                return d
            return self.db.funcs.get(d.mangled) if d is not None and d.cls in self.db.records and isinstance(v, Obj) else None
        dyn = cls
        if d is not None and d.virtual and not self.qualified(n):
            # dynamic dispatch on the object's class (exact when the object is a known local/new object)
            c = dyn
            while c:
                m = [f for f in self.db.funcs.values() if f.cls == c and f.name == name and self.same_sig(f, d)]
                if m:
                    return m[0]
                rec = self.db.record(c)
                nb = [self.db.record(b) for b in rec.bases] if rec else []
                nb = [x for x in nb if x is not None]
                c = nb[0].qname if nb else None
            if self.unit.contract_for(d):
                return d
            return None
        if d is not None:
            if d.mangled in self.db.funcs:
                return self.db.funcs[d.mangled]
            if self.unit.contract_for(d):
                return d
            m = [f for f in self.db.byname.get(name, []) if f.qname == d.qname and self.same_sig(f, d)]
            return m[0] if len(m) == 1 else None
        m = [f for f in self.db.byname.get(name, []) if f.cls and self.subclass_of(cls, f.cls) and len(f.params) == nargs]
        if len(m) == 1:
            return m[0]
        if len(m) > 1:
            t = (n["inner"][0].get("type") or {}).get("qualType", "")
            return m[0] if name in ("begin", "end", "operator[]", "size") else None
        return None

    def qualified(self, n):
        """Base::f(...) on the own object: no dynamic dispatch."""
        me = (n.get("inner") or [{}])[0]
        b = (me.get("inner") or [{}])[0]
        while b.get("kind") == "ImplicitCastExpr":
            b = b["inner"][0]
        if me.get("kind") != "MemberExpr" or b.get("kind") != "CXXThisExpr" or not b.get("implicit"):
            return False
        r = me.get("range", {})
        x, y = r.get("begin", {}).get("offset"), r.get("end", {}).get("offset")
        return x is not None and y is not None and x != y

    def same_sig(self, f, d):
        return split_args(f.type) == split_args(d.type) and f.is_const == d.is_const

    # operator calls
    def e_CXXOperatorCallExpr(self, n, st):
        callee = n["inner"][0]
        args = n["inner"][1:]
        name, r = self.callee_name(callee)
        if name == "operator<<" and ("ostream" in n.get("type", {}).get("qualType", "") or
                                     "ostream" in (n.get("type", {}).get("desugaredQualType") or "")):
            if self._contains(n, "LogMessage", 60) or self._stream_is_log(n):
                if self.is_fatal(n):
                    self.abort(st, TRUE, n)
                    raise Infeasible()
                return [(st, Opaque("log"))]
            return self.lib.ostream_insert(self, st, n, args)
        if name == "operator&" and "void" in n.get("type", {}).get("qualType", ""):
            return [(st, None)]
        out = []
        for s, a0 in self.ev(args[0], st):
            v0 = self.load_quiet(s, a0.path) if isinstance(a0, LV) else a0
            f = None
            if isinstance(v0, Closure) and name == "operator()":
                for s2, av in self.evs(args[1:], s):
                    out += self.apply(s2, v0, av, n)
                continue
            if isinstance(v0, (FnArr, FnSym, BoundFn)) and name == "operator()":
                for s2, av in self.evs(args[1:], s):
                    out += self.apply(s2, v0, av, n)
                continue
            if isinstance(v0, Obj) and self.db.record(v0.cls) is not None and name != "operator=":
                o = self.db.ids.get((self.cur_doc, r.get("id")))
                f = self.find_method(r, name, v0.cls, o, len(args) - 1, s, a0, v0, n)
                if f is not None and f.cls is None:
                    f = None
            if f is not None and f.cls:
                a0 = self.lv(s, a0)
                for s2, av in self.evs(args[1:], s):
                    out += self.call_func(s2, f, a0, av, n)
                continue
            f = self.resolve(r, name)
            if f is not None and f.cls is None:
                for s2, av in self.evs(args[1:], s):
                    out += self.call_func(s2, f, None, [a0] + av, n)
                continue
            out += self.lib.opcall(self, s, n, name, a0, v0, args[1:])
        return out

    def _stream_is_log(self, n):
        while n.get("kind") == "CXXOperatorCallExpr":
            n = n["inner"][1]
        while n.get("kind") in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr",
                                "ExprWithCleanups") and n.get("inner"):
            n = n["inner"][0]
        if n.get("kind") == "CXXMemberCallExpr":
            me = n["inner"][0]
            return me.get("name") == "stream"
        return False

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        if st.status is not None:
            return [st]
        k = n.get("kind")
        if k is None:
            return [st]
        m = getattr(self, "s_" + k, None)
        try:
            if m is not None:
                return m(n, st)
            return [s for s, _ in self.ev(n, st)]
        except Infeasible:
            return []
        except Thrown as t:
            return [t.st]

    def exec_all(self, nodes, states):
        for n in nodes:
            new = []
            for s in states:
                new += self.exec(n, s)
            states = new
        return states

    def s_CompoundStmt(self, n, st):
        before = set(st.store)
        declared = []
        states = [st]
        for c in n.get("inner", []):
            new = []
            for s in states:
                new += self.exec(c, s)
            states = new
        ids = []
        for c in n.get("inner", []):
            if c.get("kind") == "DeclStmt":
                for d in c.get("inner", []):
                    if d.get("kind") == "VarDecl":
                        ids.append(d["id"])
        for s in states:
            self.leave_scope(s, ids)
        return states

    def leave_scope(self, s, ids):
        for i in reversed(ids):
            p = s.env.get(i)
            if p is None or not isinstance(p, tuple):
                continue
            owned = s.ghost.get(("own", i))
            del s.env[i]
            if owned == p[0]:
                v = s.store.get(p[0])
                if isinstance(v, Opaque) and v.tag.startswith("ThreadPool"):
                    self.unit.pool_join(self, s, v)
                if s.ret is None or not self.mentions(s.ret, p[0]):
                    s.store.pop(p[0], None)

    def mentions(self, v, root):
        if isinstance(v, LV):
            return v.path[0] == root
        if isinstance(v, PPtr):
            return v.path is not None and v.path[0] == root
        if isinstance(v, Obj):
            return any(self.mentions(x, root) for x in v.f.values())
        if isinstance(v, Vec):
            return self.mentions(v.el, root)
        if isinstance(v, Iter):
            return v.cont is not None and v.cont[0] == root
        if isinstance(v, Closure):
            return any(isinstance(x, LV) and x.path[0] == root for x, _, _ in v.caps.values())
        return False

    def s_NullStmt(self, n, st):
        return [st]

    def s_DeclStmt(self, n, st):
        states = [st]
        for d in n.get("inner", []):
            if d.get("kind") in ("TypedefDecl", "UsingDecl", "UsingDirectiveDecl", "CXXRecordDecl", "TypeAliasDecl",
                                 "StaticAssertDecl", "EmptyDecl"):
                continue
            if d.get("kind") != "VarDecl":
                raise OutOfReach("declaration " + str(d.get("kind")))
            new = []
            for s in states:
                new += self.decl_var(d, s)
            states = new
        return states

    def decl_var(self, d, st):
        q = (d.get("type", {}).get("desugaredQualType") or d.get("type", {}).get("qualType") or "").strip()
        t = parse_type(q)
        if t.k == "class" and t.name.split("::")[-1] == "ThreadPool":
            return self.unit.pool_decl(self, d, st)
        init = [c for c in d.get("inner", []) if c.get("kind") and not c["kind"].endswith("Attr")]
        if d.get("storageClass") == "static":
            # a function-local static: one object; treat as arbitrary constant state
            root = "static:" + d["name"]
            if root not in st.store:
                if q.startswith("const") and init:
                    st.store[root] = self.ev1(init[-1], st)[0][1]
                else:
                    st.store[root] = self.fresh(st, t, d["name"])
            st.env[d["id"]] = (root, ())
            return [st]
        out = []
        if not init:
            s = st
            v = self.fresh(s, t, d["name"]) if t.k in ("int", "float", "bool") else self.default(s, t, d["name"])
            if t.k == "ptr":
                v = PPtr(None)
            if v is None:
                v = self.default_record(s, self.db.record(t.name))
            p = self.alloc(s, v, d["name"])
            s.env[d["id"]] = p
            s.ghost[("own", d["id"])] = p[0]
            return [s]
        for s, v in self.ev(init[-1], st):
            if t.k == "ref":
                v = self.lv(s, v, d.get("name", "ref"))
                s.env[d["id"]] = v.path
            else:
                x = self.val(s, v)
                if isinstance(x, list):
                    x = self.lib.vec_from_list(self, s, t, x)
                p = self.alloc(s, x, d.get("name", "v"))
                s.env[d["id"]] = p
                s.ghost[("own", d["id"])] = p[0]
            out.append(s)
        return out

    def s_IfStmt(self, n, st):
        inner = list(n["inner"])
        states = [st]
        if n.get("hasInit") or n.get("hasVar"):
            i0 = inner.pop(0)
            states = self.exec(i0, st)
            if n.get("hasVar") and n.get("hasInit"):
                i1 = inner.pop(0)
                states = self.exec_all([i1], states)
        c, th = inner[0], inner[1]
        el = inner[2] if len(inner) > 2 else None
        out = []
        for s0 in states:
            if s0.status is not None:
                out.append(s0)
                continue
            for s, v in self.ev1(c, s0):
                cond = z3.simplify(self.to_bool(s, v))
                o1, o2 = [], []
                if not z3.is_false(cond):
                    s1 = s.fork() if not z3.is_true(cond) else s
                    s1.assume(cond, True)
                    if z3.is_true(cond) or self.feasible(s1):
                        o1 = self.exec(th, s1)
                    if z3.is_true(cond):
                        out += o1
                        continue
                s2 = s.fork()
                s2.assume(z3.simplify(z3.Not(cond)), True)
                if z3.is_false(cond) or self.feasible(s2):
                    o2 = self.exec(el, s2) if el is not None else [s2]
                m = self.merge_if(s, cond, o1, o2) if getattr(self.unit, "merge", False) else None
                out += [m] if m is not None else o1 + o2
        return out

    def merge_if(self, s, cond, o1, o2):
        """One state for both branches of an if, where both end normally (values that differ become case distinctions)."""
        if len(o1) != 1 or len(o2) != 1 or o1[0].status is not None or o2[0].status is not None:
            return None
        a, b = o1[0], o2[0]
        if a.task != b.task or a.ghost != b.ghost or a.this != b.this:
            return None
        m = s.fork()
        m.task, m.ghost = a.task, dict(a.ghost)
        facts = []

        def pick(x, y):
            if isinstance(x, Tracked):
                if isinstance(y, Tracked) and x.a0.eq(y.a0) and x.p.eq(y.p):
                    return x
                raise OutOfReach("merge of permutations")
            if x.eq(y):
                return x
            if x.sort() != y.sort():
                raise OutOfReach("merge of sorts")
            if not is_arr_sort(x.sort()):
                return z3.If(cond, x, y)
            v = fresh_sort(x.sort(), "merged")
            facts.append(z3.Implies(cond, v == x))
            facts.append(z3.Implies(z3.Not(cond), v == y))
            return v
        try:
            for r in set(a.store) | set(b.store):
                if r not in a.store or r not in b.store:
                    if r in s.store or r.startswith(("heap:", "g:", "static:", "ghost:")):
                        return None
                    continue
                x, y = a.store[r], b.store[r]
                m.store[r] = x if x is y else tmap(pick, x, y)
        except (OutOfReach, AttributeError, KeyError, TypeError):
            return None
        n = len(s.pc)
        for o, c in ((a, cond), (b, z3.Not(cond))):
            for e, _ in o.pc[n:]:
                if not e.eq(c):
                    m.assume(z3.Implies(c, e))
        for e in facts:
            m.assume(e)
        return m

    def s_ReturnStmt(self, n, st):
        if not n.get("inner"):
            st.status = "ret"
            return [st]
        out = []
        lvalue = n["inner"][0].get("valueCategory") == "lvalue"
        for s, v in self.ev(n["inner"][0], st):
            s.ret = v if (isinstance(v, LV) and lvalue) else self.val(s, v)
            s.status = "ret"
            out.append(s)
        return out

    def s_BreakStmt(self, n, st):
        st.status = "brk"
        return [st]

    def s_ContinueStmt(self, n, st):
        st.status = "cont"
        return [st]

    def s_SwitchStmt(self, n, st):
        inner = n["inner"]
        c, body = inner[0], inner[-1]
        out = []
        for s, v in self.ev1(c, st):
            cases = []     # (value or None, [stmts from here])
            stmts = body.get("inner", [])
            flat = []

            def flatten(x, labels):
                if x.get("kind") == "CaseStmt":
                    labels.append(x["inner"][0])
                    flatten(x["inner"][-1], labels)
                elif x.get("kind") == "DefaultStmt":
                    labels.append(None)
                    flatten(x["inner"][-1], labels)
                else:
                    flat.append((list(labels), x))
            for x in stmts:
                flatten(x, [])
            notany = []
            dflt = None
            for i, (labels, x) in enumerate(flat):
                for l in labels:
                    if l is None:
                        dflt = i
                        continue
                    lv = self.ev1(l, s)[0][1]
                    cond = v == lv
                    s1 = s.fork().assume(cond, True)
                    notany.append(z3.Not(cond))
                    if self.feasible(s1):
                        out += self.run_switch(s1, flat[i:])
            s2 = s.fork()
            for e in notany:
                s2.assume(e, True)
            if self.feasible(s2):
                if dflt is not None:
                    out += self.run_switch(s2, flat[dflt:])
                else:
                    out.append(s2)
        return out

    def run_switch(self, st, items):
        res = self.exec_all([x for _, x in items], [st])
        for s in res:
            if s.status == "brk":
                s.status = None
        return res

    # loops
    def s_ForStmt(self, n, st):
        init, cv, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        states = self.exec(init, st) if init.get("kind") else [st]
        out = []
        for s in states:
            if s.status is not None:
                out.append(s)
                continue
            res = self.loop(s, (lambda x: self.ev1(cond, x)) if cond.get("kind") else (lambda x: [(x, TRUE)]),
                            lambda x: self.exec(body, x),
                            (lambda x: [y for y, _ in self.ev(inc, x)]) if inc.get("kind") else (lambda x: [x]), n)
            ids = [d["id"] for d in init.get("inner", []) if d.get("kind") == "VarDecl"] if init.get("kind") == "DeclStmt" else []
            for r in res:
                self.leave_scope(r, ids)
            out += res
        return out

    def s_WhileStmt(self, n, st):
        inner = n["inner"]
        cond, body = inner[-2], inner[-1]
        return self.loop(st, lambda x: self.ev1(cond, x), lambda x: self.exec(body, x), lambda x: [x], n)

    def s_DoStmt(self, n, st):
        body, cond = n["inner"][0], n["inner"][1]
        return self.loop(st, lambda x: self.ev1(cond, x), lambda x: self.exec(body, x), lambda x: [x], n, dowhile=True)

    def s_CXXForRangeStmt(self, n, st):
        parts = [c for c in n["inner"]]
        decls = [c for c in parts if c.get("kind") == "DeclStmt"]
        body = parts[-1]
        cond = [c for c in parts if c.get("kind") in ("BinaryOperator", "CXXOperatorCallExpr", "ExprWithCleanups",
                                                      "ImplicitCastExpr", "UnaryOperator")]
        # decls: range, begin, end, loop variable
        rng, beg, end, var = decls[-4:]
        states = self.exec(rng, st)
        out = []
        for s in states:
            rid = rng["inner"][0]["id"]
            rv = self.load_quiet(s, s.env[rid])
            if isinstance(rv, list):
                # initializer list: unroll
                vs = [s]
                for item in rv:
                    new = []
                    for x in vs:
                        if x.status is not None:
                            new.append(x)
                            continue
                        p = self.alloc(x, item, "il")
                        x.env[var["inner"][0]["id"]] = p
                        for y in self.exec(body, x):
                            if y.status == "cont":
                                y.status = None
                            new.append(y)
                    vs = new
                for x in vs:
                    if x.status == "brk":
                        x.status = None
                out += vs
                continue
            if isinstance(rv, MapV):
                out += self.lib.map_range_loop(self, s, s.env[rid], rv, var, body, n)
                continue
            for s1 in self.exec_all([beg, end], [s]):
                bid, eid = beg["inner"][0]["id"], end["inner"][0]["id"]

                def cnd(x, bid=bid, eid=eid):
                    b, e = self.load_quiet(x, x.env[bid]), self.load_quiet(x, x.env[eid])
                    if not (isinstance(b, Iter) and isinstance(e, Iter)):
                        raise OutOfReach("range-for over %r" % (b,))
                    return [(x, b.pos != e.pos)]

                def bdy(x):
                    r = []
                    for y in self.exec(var, x):
                        for z in self.exec(body, y):
                            self.leave_scope(z, [var["inner"][0]["id"]])
                            r.append(z)
                    return r

                def incr(x, bid=bid):
                    b = self.load_quiet(x, x.env[bid])
                    self.save(x, x.env[bid], Iter(b.cont, b.pos + 1, b.rev))
                    return [x]
                res = self.loop(s1, cnd, bdy, incr, n)
                for r in res:
                    self.leave_scope(r, [rid, bid, eid])
                out += res
        return out

    def loop(self, st, cond, body, inc, node, dowhile=False):
        from loops import run_loop
        return run_loop(self, st, cond, body, inc, node, dowhile)


class Infeasible(Exception):
    pass


class Thrown(Exception):
    def __init__(self, st):
        self.st = st


def split_args(t):
    from astdb import split_type_args
    return split_type_args(t)
