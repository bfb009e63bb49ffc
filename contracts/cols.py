"""Shared view of columns: the integers behind an encoded column, as seen through its virtual reader."""
from spec import *
CCLS = "gbdt::Column"
COLV = z3.Function("column_value", z3.IntSort(), z3.IntSort(), z3.IntSort())     # reader address, row -> stored integer
COLN = z3.Function("column_rows", z3.IntSort(), z3.IntSort())


def _addr(c):
    p = c.this
    if isinstance(p, RPtr):
        return p.addr
    if p[0].startswith("heap:") and len(p[1]) == 1 and p[1][0][0] == "i":
        return p[1][0][1]
    raise OutOfReach("integer column that is not on the heap")


# interface contract of IntegerCol; its three implementations are verified against it in property C05
READ = Contract("gbdt::IntegerizedColumn::IntegerCol::operator[]",
                pre=lambda c: [("row in range", z3.And(c.v(0) >= 0, c.v(0) < COLN(_addr(c))))],
                post=lambda c: [("stored integer", c.r == COLV(_addr(c), c.v(0)))])
ROWS = Contract("gbdt::IntegerizedColumn::IntegerCol::size",
                post=lambda c: [("rows", c.r == COLN(_addr(c)))])
READERS = [READ, ROWS]


def reader(c, addr, st=None):
    """Address of the reader of the column at addr."""
    return z3.Select(c.hp(CCLS, "col_", st).addr, addr)


def cfield(c, name, addr, st=None):
    v = c.hp(CCLS, name, st)
    return lsel(v, addr)


def addr_of(p):
    """Address of a heap object given its path."""
    if p[0].startswith("heap:") and len(p[1]) == 1 and p[1][0][0] == "i":
        return p[1][0][1]
    raise OutOfReach("column that is not on the heap")


def column_ref(I, st, name):
    """A reference parameter to some column on the heap."""
    a = fresh_sort(z3.IntSort(), name + ".addr")
    st.assume(a > 0)
    return LV((I.heap_root(st, CCLS), (("i", a),)))
