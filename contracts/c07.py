"""C07 String columns decode to exactly the strings that were added."""
from spec import *
from tmpl import *
from core import TRUE
from cols import COLV, COLN, READERS
TU = [("data_store/column.cc", "gbdt")]
IDX = z3.Function("category", z3.IntSort(), z3.BoolSort())        # arbitrary: names the category a claim is about
SCLS = "gbdt::StringColumn"


def dict_ok(o):
    """Numbers and strings of the dictionary are inverse to each other; number 0 is the missing marker."""
    s, m = o.f["map_to_strings_"], o.f["map_to_indices_"]
    n = z3.Const("n!d", Str)
    return [("missing marker is category 0", z3.And(s.len >= 1, s.el[0] == strlit("__missing__"))),
            ("every string has its number", forall_lt(s.len, lambda k: z3.And(m.dom[s.el[k]], m.val[s.el[k]] == k), pats=lambda k: [s.el[k]])),
            ("every number is of its string", z3.ForAll([n], z3.Implies(m.dom[n], z3.And(m.val[n] >= 0, m.val[n] < s.len, s.el[m.val[n]] == n)), patterns=[m.dom[n]]))]


def rows_ok(o, el=None, ln=None):
    s, v = o.f["map_to_strings_"], o.f["col_32_"]
    el, ln = (v.el, v.len) if el is None else (el, ln)
    k, r, q = z3.Int("k!f"), z3.Int("r!f"), z3.Int("q!f")
    return [("rows are categories", forall_lt(ln, lambda r: z3.And(el[r] >= 0, el[r] < s.len), pats=lambda r: [el[r]])),
            ("categories are dense", z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < s.len, IDX(k)), z3.Exists([q], z3.And(q >= 0, q < ln, el[q] == k))), patterns=[IDX(k)])),
            ("numbered by first appearance", z3.ForAll([r, k], z3.Implies(z3.And(r >= 0, r < ln, k >= 1, k < el[r], IDX(k)),
                                                                          z3.Exists([q], z3.And(q >= 0, q < r, el[q] == k))), patterns=[z3.MultiPattern(el[r], IDX(k))]))]


def ok(o):
    return o.f["status_"].f["code"] == 0


def add_pre(c):
    return [("column in order", ok(c.t)), ("not finalized", z3.Not(c.t.f["finalized_"]))] + dict_ok(c.t) + rows_ok(c.t)


def add_post(c):
    o, p, raw = c.T, c.t, c.d(0)
    s, v, s0, v0 = o.f["map_to_strings_"], o.f["col_32_"], p.f["map_to_strings_"], p.f["col_32_"]
    return [("in order", ok(o)), ("one row per string", v.len == v0.len + raw.len),
            ("earlier rows stay", forall_lt(v0.len, lambda k: v.el[k] == v0.el[k], pats=lambda k: [v.el[k]])),
            ("categories stay", z3.And(s.len >= s0.len, forall_lt(s0.len, lambda k: s.el[k] == s0.el[k], pats=lambda k: [s.el[k]]))),
            ("new rows read back", forall_lt(raw.len, lambda k: s.el[v.el[v0.len + k]] == raw.el[k], pats=lambda k: [raw.el[k]]))] + dict_ok(o) + rows_ok(o)


def add_setup(I, st, this, args):
    I.p_this, I.p_old, I.p_raw = this, I.load_quiet(st, this), I.load_quiet(st, I.load_quiet(st, args[0].path).path)


def add_templates(I, st, hv, info):
    g = getter(I, I.p_this)
    p, raw = I.p_old, I.p_raw
    v0, s0 = p.f["col_32_"], p.f["map_to_strings_"]
    out = []
    for i, (n, _) in enumerate(dict_ok(p) + rows_ok(p)):
        out.append((n, lift(g)(lambda o, i=i: (dict_ok(o) + rows_ok(o))[i][1])))
    out.append(("earlier rows stay", lift(g)(lambda o: z3.And(o.f["col_32_"].len >= v0.len, forall_lt(v0.len, lambda k: o.f["col_32_"].el[k] == v0.el[k], pats=lambda k: [o.f["col_32_"].el[k]])))))
    out.append(("categories stay", lift(g)(lambda o: z3.And(o.f["map_to_strings_"].len >= s0.len, forall_lt(
        s0.len, lambda k: o.f["map_to_strings_"].el[k] == s0.el[k], pats=lambda k: [o.f["map_to_strings_"].el[k]])))))
    out.append(("column in order", lift(g)(ok)))
    for cn, x in ints(I, st, hv, info):
        out.append(("one row per string below %s" % cn, lift(g, x)(lambda o, x: o.f["col_32_"].len == v0.len + x)))
        out.append(("rows below %s read back" % cn, lift(g, x)(lambda o, x: forall_lt(
            x, lambda k: o.f["map_to_strings_"].el[o.f["col_32_"].el[v0.len + k]] == raw.el[k], pats=lambda k: [raw.el[k]]))))
    return out


def seen(c):
    """The vector that the installed reader reads."""
    r = c.T.f["col_"]
    if not isinstance(r, PPtr):
        raise OutOfReach("reader of the column")
    o = c.I.load_quiet(c.post, r.path)
    if not isinstance(o, Obj) or not isinstance(o.f.get("col_"), PPtr):
        raise OutOfReach("reader of the column")
    return c.I.load_quiet(c.post, o.f["col_"].path)


def fin_pre(c):
    o = c.t
    return [("column in order", ok(o)), ("not finalized", z3.Not(o.f["finalized_"])), ("nothing stored yet", z3.And(o.f["col_8_"].len == 0, o.f["col_16_"].len == 0))] + rows_ok(o)[:1]


def fin_post(c):
    o, p = c.T, c.t
    rd = seen(c)
    n, el = rd.len, (lambda k: rd.el[k])
    v0 = p.f["col_32_"]
    k = z3.Int("k!fin")
    return [("in order", ok(o)), ("finalized", o.f["finalized_"]), ("as many rows", n == v0.len),
            ("rows keep their categories", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < v0.len), el(k) == v0.el[k]), patterns=[v0.el[k]]))]


ADD = Contract("gbdt::StringColumn::Add", pre=add_pre, post=add_post, modifies=["this.map_to_strings_", "this.map_to_indices_", "this.col_32_"])
FIN = Contract("gbdt::StringColumn::Finalize", pre=fin_pre, post=fin_post, modifies=["this.col_8_", "this.col_16_", "this.col_32_", "this.col_", "this.finalized_"])


def rd_post(c):
    v = c.I.load_quiet(c.st, c.t.f["col_"].path)
    return [("element of its vector", c.r == v.el[c.v(0)])]


def rdn_post(c):
    return [("size of its vector", c.r == c.I.load_quiet(c.st, c.t.f["col_"].path).len)]


def in_vec(c):
    return [("row in range", z3.And(c.v(0) >= 0, c.v(0) < c.I.load_quiet(c.st, c.t.f["col_"].path).len))]


RD = [Unit("IntegerCol%d::%s" % (w, f), Contract("gbdt::IntegerCol%d::%s" % (w, f), pre=in_vec if f != "size" else None, post=rd_post if f != "size" else rdn_post), TU)
      for w in (8, 16, 32) for f in ("operator[]", "size")]
UNITS = RD + [Unit("StringColumn::Add", ADD, TU, setup=add_setup, templates=add_templates, solver_opts=NOMBQI, no_frames=True),
         Unit("StringColumn::Finalize", FIN, TU, templates=lambda I, st, hv, info: conv_templates(I, st, hv, info))]


def conv_templates(I, st, hv, info):
    """A copied vector agrees with the original below the counter."""
    out = []
    vs = vecs(I, st, hv, info, is_int_arr)
    for vn, v in vs:
        for wn, w in vecs(I, st, hv, info, is_int_arr, every=True):
            if wn == vn:
                continue
            out.append(("%s as long as %s" % (vn, wn), lift(v, w)(lambda v, w: v.len == w.len)))
            for cn, x in ints(I, st, hv, info):
                out.append(("%s copies %s below %s" % (vn, wn, cn), lift(v, w, x)(lambda v, w, x: forall_lt(x, lambda k: v.el[k] == w.el[k], pats=lambda k: [v.el[k]]))))
    return out


def lookup_post(c):
    m = c.t.f["map_to_indices_"]
    return [("found exactly if in the dictionary", c.r == m.dom[c.v(0)]), ("its number", z3.Implies(c.r, c.D(1) == m.val[c.v(0)]))]


def _reader(c):
    return c.t.f["col_"].addr


def row_pre(c):
    i, s = c.v(0), c.t.f["map_to_strings_"]
    return [("finalized", _reader(c) != 0), ("row in range", z3.And(i >= 0, i < COLN(_reader(c)))), ("stored category", z3.And(COLV(_reader(c), i) >= 0, COLV(_reader(c), i) < s.len))]


LOOKUP = Contract("gbdt::StringColumn::get_cat_index", post=lookup_post, modifies=["*1"])
ROWSTR = Contract("gbdt::StringColumn::get_row_string", pre=row_pre, post=lambda c: [("string of the row's category", c.I.val(c.post, c.r) == c.t.f["map_to_strings_"].el[COLV(_reader(c), c.v(0))])])
CATSTR = Contract("gbdt::StringColumn::get_cat_string", pre=lambda c: [("category", z3.And(c.v(0) >= 0, c.v(0) < c.t.f["map_to_strings_"].len))],
                  post=lambda c: [("string of the category", c.I.val(c.post, c.r) == c.t.f["map_to_strings_"].el[c.v(0)])])
MAXI = Contract("gbdt::StringColumn::max_int", post=lambda c: [("number of categories", c.r == c.t.f["map_to_strings_"].len)])
UNITS += [Unit("StringColumn::get_cat_index", LOOKUP, TU), Unit("StringColumn::get_row_string", ROWSTR, TU, uses=READERS), Unit("StringColumn::get_cat_string", CATSTR, TU),
          Unit("StringColumn::max_int", MAXI, TU)]
TRUSTED = ["IntegerCol::operator[] and size through the base class: dynamic dispatch to the three readers, each verified here"]
ASSUMPTIONS = ["strings are opaque values compared for equality", "containers hold fewer than 2^31 elements", "no Add after Finalize (the documentation's order of use)"]
HARNESS = dict(src="c07.cc", only=["data_store/column.cc"])
