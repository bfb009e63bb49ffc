"""C08 A data store is a consistent table."""
from spec import *
from tmpl import *
TU = [("data_store/data_store.cc", "gbdt")]
SIZE = z3.Function("rows_of", z3.IntSort(), z3.IntSort())        # column address -> its rows, name, type
NAME = z3.Function("name_of", z3.IntSort(), Str)
TYPE = z3.Function("type_of", z3.IntSort(), z3.IntSort())


def addr(c):
    p = c.this
    if isinstance(p, RPtr):
        return p.addr
    if isinstance(p, LV):
        p = p.path
    if p[0].startswith("heap:") and len(p[1]) == 1 and p[1][0][0] == "i":
        return p[1][0][1]
    raise OutOfReach("column that is not on the heap")


CSIZE = Contract("gbdt::Column::size", post=lambda c: [("rows", z3.And(c.r == SIZE(addr(c)), c.r >= 0, c.r < 2 ** 32))])
CNAME = Contract("gbdt::Column::name", post=lambda c: [("name", c.I.val(c.post, c.r) == NAME(addr(c)))])
CTYPE = Contract("gbdt::Column::type", post=lambda c: [("type", c.r == TYPE(addr(c)))])
COLS = [CSIZE, CNAME, CTYPE]


def table(o):
    """Every stored column is one, under its own name, and all have the same number of rows."""
    m = o.f["column_map_"]
    n, k = z3.Const("n!t", Str), z3.Const("k!t", Str)
    at = lambda n: ptr(m)[n]
    return [("columns under their names", z3.ForAll([n], z3.Implies(m.dom[n], z3.And(at(n) != 0, NAME(at(n)) == n)), patterns=[m.dom[n]])),
            ("same number of rows", z3.ForAll([n, k], z3.Implies(z3.And(m.dom[n], m.dom[k]), SIZE(at(n)) == SIZE(at(k))), patterns=[z3.MultiPattern(m.dom[n], m.dom[k])]))]


def ptr(m):
    return m.val.addr


def same(o, p):
    m, q = o.f["column_map_"], p.f["column_map_"]
    n = z3.Const("n!s", Str)
    return z3.And(m.size == q.size, z3.ForAll([n], z3.And(m.dom[n] == q.dom[n], ptr(m)[n] == ptr(q)[n]), patterns=[m.dom[n]]))


def rows_post(c):
    m = c.t.f["column_map_"]
    n = z3.Const("n!r", Str)
    return [("no column, no row", z3.Implies(m.size == 0, c.r == 0)),
            ("the rows of every column", z3.ForAll([n], z3.Implies(m.dom[n], c.r == SIZE(ptr(m)[n])), patterns=[m.dom[n]]))]


def add_post(c):
    o, p, a = c.T, c.t, c.v(0).addr
    m, q = o.f["column_map_"], p.f["column_map_"]
    n, k = z3.Const("n!a", Str), z3.Const("k!a", Str)
    clash = z3.Or(q.dom[NAME(a)], z3.Exists([n], z3.And(q.dom[n], SIZE(ptr(q)[n]) != SIZE(a))))
    ok = c.r.f["code"] == 0
    return [("refused if the name exists", z3.Implies(q.dom[NAME(a)], z3.Not(ok))),
            ("refused if the rows differ", z3.ForAll([k], z3.Implies(z3.And(q.dom[k], SIZE(ptr(q)[k]) != SIZE(a)), z3.Not(ok)), patterns=[q.dom[k]])),
            ("accepted otherwise", z3.Implies(z3.Not(ok), clash)),
            ("unchanged when refused", z3.Implies(z3.Not(ok), same(o, p))),
            ("one column more", z3.Implies(ok, m.size == q.size + 1)),
            ("the added column", z3.Implies(ok, z3.And(m.dom[NAME(a)], ptr(m)[NAME(a)] == a))),
            ("other columns stay", z3.Implies(ok, z3.ForAll([k], z3.Implies(k != NAME(a), z3.And(m.dom[k] == q.dom[k], ptr(m)[k] == ptr(q)[k])), patterns=[m.dom[k]])))]


def where(c):
    r = c.r
    if isinstance(r, RPtr):
        return r.addr
    if isinstance(r, PPtr) and (r.path is None or isinstance(r.path, LV) and r.path.path is None):
        return z3.IntVal(0)
    raise OutOfReach("returned column")


def get_post(c):
    m, n = c.t.f["column_map_"], c.v(0)
    return [("the column of that name, or nothing", where(c) == z3.If(m.dom[n], ptr(m)[n], 0))]


def typed(code):
    def post(c):
        m, n = c.t.f["column_map_"], c.v(0)
        hit = z3.And(m.dom[n], TYPE(ptr(m)[n]) == code)
        return [("the column of that name and type, or nothing", where(c) == z3.If(hit, ptr(m)[n], 0))]
    return post


def rm_post(c):
    m, q, n = c.T.f["column_map_"], c.t.f["column_map_"], c.v(0)
    k = z3.Const("k!rm", Str)
    return [("gone", z3.Not(m.dom[n])), ("others stay", z3.ForAll([k], z3.Implies(k != n, z3.And(m.dom[k] == q.dom[k], z3.Implies(q.dom[k], ptr(m)[k] == ptr(q)[k]))), patterns=[m.dom[k]])),
            ("columns left", m.size == q.size - z3.If(q.dom[n], 1, 0))]


def heap(I, ty):
    return "gbdt::Column"


pre = lambda c: table(c.t)
GET = Contract("gbdt::DataStore::GetColumn", pre=pre, post=get_post)
ROWS = Contract("gbdt::DataStore::num_rows", pre=pre, post=rows_post)
UNITS = [Unit("DataStore::num_rows", ROWS, TU, uses=COLS),
         Unit("DataStore::num_cols", Contract("gbdt::DataStore::num_cols", post=lambda c: [("number of columns", c.r == c.t.f["column_map_"].size)]), TU),
         Unit("DataStore::GetColumn", GET, TU, uses=COLS),
         Unit("DataStore::Add", Contract("gbdt::DataStore::Add", pre=lambda c: table(c.t) + [("a column", c.v(0).addr != 0)], post=lambda c: add_post(c) + table(c.T), modifies=["this.column_map_", "*0"]), TU, uses=COLS + [ROWS]),
         Unit("DataStore::RemoveColumnIfExists", Contract("gbdt::DataStore::RemoveColumnIfExists", pre=pre, post=lambda c: rm_post(c) + table(c.T), modifies=["this.column_map_"]), TU)]
UNITS += [Unit("DataStore::" + f, Contract("gbdt::DataStore::" + f, pre=pre, post=typed(code)), TU, uses=COLS + [GET])
          for f, code in (("GetStringColumn", 0), ("GetBucketizedFloatColumn", 1), ("GetRawFloatColumn", 2))]

ASSUMPTIONS = ["rows, name and type of a column do not change while it is in a store", "dynamic types follow the stored type tag (static_cast)"]
HARNESS = dict(src="c08.cc", only=["data_store/column.cc", "data_store/data_store.cc"])
