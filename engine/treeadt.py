"""TreeNode (recursive protobuf message) as an SMT datatype: none | node(score, split fields, left, right)."""
import z3
from vals import *


class TreeADT:
    def __init__(self, I):
        self.I = I
        fl = I.fm.sort(Ty("float", "double"))
        self.fl = fl
        Sq = lambda s: z3.ArraySort(z3.IntSort(), s)
        self.fields = []
        T = z3.Datatype("Tree")
        cols = [("score", fl), ("has_split", z3.BoolSort())]
        # leaves of Split
        tmpl = I.fresh(None, Ty("class", "gbdt::Split"), "tmpl")
        self.split_tmpl = tmpl
        self.split_leaves = list(leaves(tmpl))
        for k, l in self.split_leaves:
            cols.append(("split." + ".".join(k), l.sort()))
        T.declare("none")
        T.declare("node", *(cols + [("left_child", T), ("right_child", T)]))
        T = T.create()
        self.T = T
        self.sort = T
        self.none = T.none
        self.node = T.node
        self.cols = [c for c, _ in cols] + ["left_child", "right_child"]
        self.acc = {c: T.accessor(1, i) for i, c in enumerate(self.cols)}

    def is_none(self, t):
        return self.T.is_none(t)

    def get(self, t, c):
        if z3.is_app(t) and t.decl().eq(self.node):
            return t.arg(self.cols.index(c))
        return self.acc[c](t)

    def unpack(self, t):
        sp = tmapk(lambda k, l: self.get(t, "split." + ".".join(k)), self.split_tmpl)
        return Obj("TreeNode", {"score": self.get(t, "score"), "has_split": self.get(t, "has_split"), "split": sp,
                                "left_child": self.get(t, "left_child"), "right_child": self.get(t, "right_child")})

    def pack(self, o):
        d = dict(("split." + ".".join(k), l) for k, l in leaves(o.f["split"]))
        args = []
        for c in self.cols:
            args.append(d[c] if c in d else o.f[c])
        return self.node(*args)

    def default(self):
        I = self.I
        from core import State, FALSE
        o = Obj("TreeNode", {"score": I.fm.const("0", Ty("float", "double")), "has_split": FALSE,
                             "split": I.default(None, Ty("class", "gbdt::Split")),
                             "left_child": self.none, "right_child": self.none})
        # empty sequences have arbitrary contents: fix them
        return self.pack(Obj("TreeNode", dict(o.f, split=tmapk(self._norm, o.f["split"]))))

    def _norm(self, k, l):
        if is_arr_sort(l.sort()):
            return z3.Const("empty!" + ".".join(k), l.sort())
        return l
