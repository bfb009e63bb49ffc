"""Discharging obligations: z3 in forked workers, cvc5 as a second back end."""
import os, pickle, subprocess, sys, tempfile, time
import z3
from vals import strlit_facts

CVC5 = os.environ.get("VERIF_CVC5", "cvc5")


def relevant(facts):
    """Deduplicated facts."""
    seen, out = set(), []
    for f in facts:
        if f.get_id() in seen or z3.is_true(f):
            continue
        seen.add(f.get_id())
        out.append(f)
    return out


OPTS = {}          # solver options of the unit being verified


def _try(facts, goal, timeout, seed=0, opts=None):
    if OPTS and not seed and (_isq(goal) or any(_isq(f) for f in facts)):
        # patterns only: without the preprocessing tactics this is often immediate
        for o in ({}, {"smt.relevancy": 0}):
            r, s = _run(z3.SimpleSolver(), facts, goal, timeout * 0.2, seed, dict(opts or {}, **o))
            if r == z3.unsat:
                return r, s
    return _run(z3.Solver(), facts, goal, timeout, seed, opts)


def _run(s, facts, goal, timeout, seed, opts):
    # deterministic resource limit first; the wall clock is only a (generous) second limit, for loaded or slower machines
    s.set("timeout", int(timeout * 2.5))
    s.set("rlimit", int(timeout * 2500))
    if seed:
        s.set("random_seed", seed)
    for k, v in list(OPTS.items()) + list((opts or {}).items()):
        s.set(k, v)
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.sat and OPTS:
        r = z3.unknown
    return r, s


def quick(facts, goal, timeout):
    """One attempt by patterns only."""
    ex, g = skolemize(goal)
    return _run(z3.SimpleSolver(), facts + ex + strlit_facts(), g, timeout, 0, {})[0] == z3.unsat


_syms = {}


def symbols(e):
    """Uninterpreted symbols of a formula."""
    k = e.get_id()
    if k in _syms:
        return _syms[k][1]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    _syms[k] = (e, out)      # keeps e alive, so that the id stays its own
    return out


def near(facts, goal, hops):
    """The facts connected to the goal through shared symbols in so many steps."""
    cur = set(symbols(goal))
    for _ in range(hops):
        sel = [f for f in facts if symbols(f) & cur]
        nxt = set(cur)
        for f in sel:
            nxt |= symbols(f)
        if nxt == cur:
            break
        last, cur = cur, nxt
    return sel


def _solve(facts, goal, timeout):
    """Try with the closest facts first: fewer facts prove the same claim, often much faster."""
    if any(_isq(f) for f in facts):
        a = near(facts, goal, 1)
        if len(a) < 0.8 * len(facts):
            r, s = _try(a, goal, timeout * 0.4)
            if r == z3.unsat:
                return r, s
        b = [f for f in facts if not (_isq(f) and nonlinear(f))]
        if len(b) < len(facts) and not nonlinear(goal):
            r, s = _try(b, goal, timeout * 0.5)
            if r == z3.unsat:
                return r, s
    return _try(facts, goal, timeout)


_nl = {}


def nonlinear(e):
    """Does a formula multiply two terms neither of which is a number?"""
    k = e.get_id()
    if k in _nl:
        return _nl[k][1]
    todo, seen, res = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            kd = x.decl().kind()
            if kd == z3.Z3_OP_MUL and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in x.children()) >= 2 or \
                    kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1))):
                res = True
                break
            todo += x.children()
    _nl[k] = (e, res)
    return res


def external(facts, goal, timeout):
    """The same obligation from its SMT-LIB text, by z3 and cvc5 as separate programs."""
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    for cmd in (["z3", "-smt2", "-T:%d" % max(2, timeout // 1000 * 2), "rlimit=%d" % int(timeout * 2500)],
                [CVC5, "--tlimit=%d" % (timeout * 2)]):
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(("(set-logic ALL)\n" if cmd[0] == CVC5 else "") + txt)
        try:
            o = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=timeout / 500 + 20).stdout
            if o.strip().split("\n")[0] == "unsat":
                return z3.unsat
        except (subprocess.TimeoutExpired, OSError):
            pass
        finally:
            os.unlink(f.name)
    return z3.unknown


def _isq(f):
    from core import has_quant
    return has_quant(f)


def split_goal(goal):
    """Conjuncts of a goal (also under universal quantifiers / implications)."""
    g = goal
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split_goal(c)
        return out
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), c) for c in split_goal(g.arg(1))]
    return [g]


_sk = [0]


def skolemize(goal):
    """forall x. body  ->  body[sk/x] (goal position), so that premises become ground facts."""
    extra = []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            n = goal.num_vars()
            cs = []
            for i in range(n):
                _sk[0] += 1
                cs.append(z3.Const("sk!%s!%d" % (goal.var_name(i), _sk[0]), goal.var_sort(i)))
            goal = z3.substitute_vars(goal.body(), *reversed(cs))
            continue
        if z3.is_implies(goal):
            extra.append(goal.arg(0))
            goal = goal.arg(1)
            continue
        return extra, goal


FP_SORTS = (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT)
FP_REL = (z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_GT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_EQ, z3.Z3_OP_FPA_IS_NAN,
          z3.Z3_OP_FPA_IS_INF, z3.Z3_OP_FPA_IS_ZERO)


def _is_fp(e):
    return z3.is_fp(e)


def has_fp(e, cache):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_fp(x):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            todo += x.children()
    return False


def _closed(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x) or z3.is_quantifier(x):
            return False
        todo += x.children()
    return True


def abstract_fp_arith(es):
    """Replace closed floating-point arithmetic by constants (keeps comparisons and uninterpreted terms): a stronger claim."""
    sub, seen = {}, set()
    todo = list(es)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_fp(x) and z3.is_app(x) and x.num_args() > 0 and x.decl().kind() not in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) \
                and _closed(x):
            sub[x.get_id()] = (x, z3.Const("fp!a%d" % len(sub), x.sort()))
            continue
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    if not sub:
        return es
    return [z3.substitute(e, *sub.values()) for e in es]


def abstract_non_fp(es):
    """Keep only the floating-point structure of quantifier-free formulas; everything else becomes constants."""
    memo = {}

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_fprm(x) or z3.is_fp_value(x):
            r = x
        elif z3.is_fp(x):
            if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() not in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) \
                    and all(z3.is_fp(c) or z3.is_fprm(c) or z3.is_bool(c) for c in x.children()):
                r = x.decl()(*[go(c) for c in x.children()])
            else:
                r = z3.Const("fp!c%d" % len(memo), x.sort())
        elif z3.is_bool(x):
            if z3.is_true(x) or z3.is_false(x):
                r = x
            elif z3.is_app(x) and x.num_args() > 0 and (all(z3.is_bool(c) for c in x.children()) or all(z3.is_fp(c) for c in x.children())):
                r = x.decl()(*[go(c) for c in x.children()])
            else:
                r = z3.Const("fp!b%d" % len(memo), z3.BoolSort())
        else:
            r = x
        memo[k] = (x, r)
        return r
    return [go(e) for e in es]


def fp_tactics(facts, goal, timeout):
    """Floating-point goals: quantified reasoning with arithmetic abstracted, or arithmetic with everything else abstracted."""
    a = abstract_fp_arith(list(facts) + [goal])
    r, s = _try(a[:-1], a[-1], timeout)
    if r == z3.unsat:
        return r, s
    from core import has_quant
    qf = [f for f in facts if not has_quant(f) and has_fp(f, None)]
    if has_quant(goal):
        return z3.unknown, s
    b = abstract_non_fp(qf + [goal])
    s = z3.SolverFor("QF_FP")
    s.set("timeout", int(timeout))
    for f in b[:-1]:
        s.add(f)
    s.add(z3.Not(b[-1]))
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic QF_FP)\n" + s.to_smt2())
    try:
        o = subprocess.run([CVC5, "--tlimit=%d" % int(timeout), f.name], capture_output=True, text=True, timeout=timeout / 1000 + 10)
        if o.stdout.strip().startswith("unsat"):
            return z3.unsat, s
    except subprocess.TimeoutExpired:
        pass
    finally:
        os.unlink(f.name)
    r = s.check()
    return (r if r == z3.unsat else z3.unknown), s


def prove(facts, goal, timeout, interp=None, hard=False):
    """(proved?, 'unsat'|'sat'|'unknown')"""
    t0 = time.time()
    facts = relevant(list(facts)) + strlit_facts()
    res = "unsat"
    for g in split_goal(goal):
        ex, g2 = skolemize(g)
        ok = False
        for g3 in split_goal(g2):
            if hard and has_fp(g3, None):
                r, s = fp_tactics(facts + ex, g3, timeout)
                if r == z3.unknown:
                    r, s = _try(facts + ex, g3, timeout)
                if r != z3.unsat:
                    res = str(r)
                    break
                continue
            t1 = time.time()
            r, s = _solve(facts + ex, g3, timeout)
            if os.environ.get("VERIF_SLOW") and time.time() - t1 > float(os.environ["VERIF_SLOW"]):
                print("SLOW %.1f %s %d facts %s" % (time.time() - t1, r, len(facts), str(g3)[:300].replace("\n", " ")), flush=True)
            if r == z3.unknown and hard:
                r2, s2 = _try(near(facts + ex, z3.Implies(z3.And(ex), g3) if ex else g3, 2), g3, timeout)
                if r2 == z3.unsat:
                    continue
                for opts in ({"smt.arith.solver": 2}, {"smt.mbqi": False, "auto_config": False}):
                    try:
                        r, s = _try(facts + ex, g3, timeout, seed=7, opts=opts)
                    except z3.Z3Exception:
                        continue
                    if r != z3.unknown:
                        if r == z3.sat and "smt.mbqi" in opts:
                            r = z3.unknown
                        break
                if r != z3.unsat and not z3.is_false(g3):
                    if external(facts, g, timeout) == z3.unsat:
                        r = z3.unsat
            if r != z3.unsat:
                res = str(r)
                break
        if res != "unsat":
            break
    if interp is not None:
        interp.solver_time += time.time() - t0
        interp.nqueries += 1
    return res == "unsat", res


def fork_map(fn, items, workers=8, timeout=None):
    """Run fn(item) in forked children (z3 terms are inherited); results must be picklable."""
    items = list(items)
    if not items:
        return []
    if len(items) == 1 or workers == 1:
        return [fn(x) for x in items]
    workers = min(workers, len(items))
    chunks = [list(range(i, len(items), workers)) for i in range(workers)]
    procs = []
    for ch in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = []
                for i in ch:
                    try:
                        res.append((i, fn(items[i]), None))
                    except BaseException as e:
                        res.append((i, None, "%s: %s" % (type(e).__name__, e)))
                data = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    out = [None] * len(items)
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            continue
        for i, v, err in pickle.loads(data):
            out[i] = v if err is None else ("error", err)
    return out


def cvc5_check(facts, goal, timeout):
    """Second opinion: 'unsat' | 'sat' | 'unknown' | 'unsupported'."""
    s = z3.Solver()
    for f in relevant(list(facts)) + strlit_facts():
        s.add(f)
    s.add(z3.Not(goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([CVC5, "--tlimit=%d" % timeout, f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 10)
        o = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unsupported"
        return o if o in ("sat", "unsat", "unknown") else "unsupported"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(f.name)
