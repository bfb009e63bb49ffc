"""C++ types and symbolic values (trees with z3 leaves)."""
import os, re
import z3
from astdb import ExtractError, REPO

z3.set_param("smt.random_seed", 1)


class OutOfReach(ExtractError):
    """A construct the engine does not model."""


# ---------------------------------------------------------------- types
ALIAS = {
    "uint": "unsigned int", "uint8": "unsigned char", "uint16": "unsigned short", "uint32": "unsigned int",
    "uint64": "unsigned long", "int8": "signed char", "int16": "short", "int32": "int", "int64": "long",
    "uint8_t": "unsigned char", "uint16_t": "unsigned short", "uint32_t": "unsigned int",
    "uint64_t": "unsigned long", "int8_t": "signed char", "int16_t": "short", "int32_t": "int", "int64_t": "long",
    "size_t": "unsigned long", "size_type": "unsigned long", "difference_type": "long", "ptrdiff_t": "long",
    "ulong": "unsigned long", "unsigned": "unsigned int", "long int": "long", "unsigned long int": "unsigned long",
    "google::protobuf::int32": "int", "_Bit_type": "unsigned long", "streamoff": "long",
}
INT_RANGE = {
    "signed char": (-2**7, 2**7 - 1), "unsigned char": (0, 2**8 - 1), "char": (-2**7, 2**7 - 1),
    "short": (-2**15, 2**15 - 1), "unsigned short": (0, 2**16 - 1),
    "int": (-2**31, 2**31 - 1), "unsigned int": (0, 2**32 - 1),
    "long": (-2**63, 2**63 - 1), "unsigned long": (0, 2**64 - 1),
    "long long": (-2**63, 2**63 - 1), "unsigned long long": (0, 2**64 - 1), "__int128": (-2**127, 2**127 - 1),
    "wchar_t": (-2**31, 2**31 - 1),
}
FLOATS = ("float", "double", "long double")


class Ty:
    __slots__ = ("k", "name", "args")
    # k: int, bool, float, void, ptr, ref, class, func, other

    def __init__(self, k, name, args=()):
        self.k, self.name, self.args = k, name, tuple(args)

    def __repr__(self):
        if self.k in ("ptr", "ref"):
            return "%r%s" % (self.args[0], "*" if self.k == "ptr" else "&")
        return self.name + ("<%s>" % ",".join(map(repr, self.args)) if self.args else "")

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    def strip(self):
        return self.args[0].strip() if self.k == "ref" else self


def _tok_split(s):
    out, cur, d = [], "", 0
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_ty_cache = {}


def parse_type(s):
    if s in _ty_cache:
        return _ty_cache[s]
    r = _parse_type(s.strip())
    _ty_cache[s] = r
    return r


def _parse_type(s):
    s = s.strip()
    while True:
        o = s
        for w in ("const ", "volatile ", "struct ", "class ", "enum ", "typename ", "constexpr "):
            if s.startswith(w):
                s = s[len(w):].strip()
        for w in (" const", " volatile", " noexcept", "*const"):
            if s.endswith(w):
                s = (s[:-len(w)] + ("*" if w == "*const" else "")).strip()
        if s == o:
            break
    if s.endswith("&&"):
        return Ty("ref", "&", [parse_type(s[:-2])])
    if s.endswith("&"):
        return Ty("ref", "&", [parse_type(s[:-1])])
    if s.endswith("*") and not s.endswith("(*"):
        return Ty("ptr", "*", [parse_type(s[:-1])])
    if s.startswith("(lambda at"):
        return Ty("class", "lambda")
    if s.endswith(")"):
        m = s.find("(")
        d = 0
        # function type R (args)
        j = len(s) - 1
        while j >= 0:
            if s[j] == ")":
                d += 1
            elif s[j] == "(":
                d -= 1
                if d == 0:
                    break
            j -= 1
        ret = s[:j].strip()
        if ret.endswith("(*)"):
            return Ty("ptr", "*", [Ty("func", s)])
        return Ty("func", "func", [parse_type(ret)] + [parse_type(a) for a in _tok_split(s[j + 1:-1])]) if ret else Ty("other", s)
    s = s.lstrip(":")
    if s in ALIAS:
        s = ALIAS[s]
    if s in INT_RANGE:
        return Ty("int", s)
    if s == "bool" or s == "_Bool":
        return Ty("bool", "bool")
    if s in FLOATS:
        return Ty("float", s)
    if s == "void":
        return Ty("void", "void")
    if s.endswith("]"):
        i = s.rfind("[")
        return Ty("class", "carray", [parse_type(s[:i])])
    m = re.match(r"^([\w:~ ]+?)<(.*)>((?:::\w+)*)$", s)
    if m and m.group(3) == "":
        name = m.group(1).strip()
        args = [parse_type(a) for a in _tok_split(m.group(2))]
        base = name.split("::")[-1]
        if base == "basic_string":
            return Ty("class", "string")
        if base in ("vector", "list", "deque", "queue"):
            args = args[:1]
        if base in ("map", "unordered_map", "multimap"):
            args = args[:2]
        if base in ("set", "unordered_set"):
            args = args[:1]
        if base in ("RepeatedPtrField", "RepeatedField"):
            base, args = "vector", args[:1]
        if base == "unique_ptr":
            args = args[:1]
        return Ty("class", base if name.startswith(("std", "google")) or "::" not in name else name, args)
    base = s.split("::")[-1]
    if base in ("string", "basic_string"):
        return Ty("class", "string")
    if base in ALIAS:
        return Ty("int", ALIAS[base])
    if s in ("FloatVector",):
        return parse_type("std::function<float (int)>")
    if s.endswith("PointwiseLossFunc"):
        return parse_type("std::function<std::tuple<double, double, double> (double, double)>")
    return Ty("class", s)


def node_type(n):
    t = n.get("type", {})
    q = t.get("desugaredQualType") or t.get("qualType") or ""
    r = parse_type(q)
    return r


# ---------------------------------------------------------------- proto schemas
class Proto:
    def __init__(self):
        self.msgs = {}
        d = os.path.join(REPO, "src/proto")
        for f in sorted(os.listdir(d)):
            if f.endswith(".proto"):
                self._parse(open(os.path.join(d, f)).read())

    def _parse(self, s):
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        s = re.sub(r"//[^\n]*", "", s)
        for m in re.finditer(r"message\s+(\w+)\s*\{(.*?)\n\}", s, re.S):
            fields = []
            for fm in re.finditer(r"(repeated\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+\s*(?:\[[^\]]*\])?;", m.group(2)):
                fields.append((fm.group(3), fm.group(2), bool(fm.group(1))))
            self.msgs[m.group(1)] = fields


PT = {"int32": Ty("int", "int"), "int64": Ty("int", "long"), "uint32": Ty("int", "unsigned int"),
      "uint64": Ty("int", "unsigned long"), "float": Ty("float", "float"), "double": Ty("float", "double"),
      "bool": Ty("bool", "bool"), "string": Ty("class", "string")}

# ---------------------------------------------------------------- floats
class RealMode:
    """float/double as mathematical reals; rounding is not modelled."""
    name = "real"
    isnan_f = z3.Function("isnan", z3.RealSort(), z3.BoolSort())
    isinf_f = z3.Function("isinf", z3.RealSort(), z3.BoolSort())

    def sort(self, ty):
        return z3.RealSort()

    def const(self, x, ty):
        if isinstance(x, str):
            s = x.lower().rstrip("f")
            try:
                from fractions import Fraction
                return z3.RealVal(str(Fraction(repr(float(s)))))
            except ValueError:
                raise OutOfReach("float literal " + x)
        return z3.RealVal(x)

    def nan(self, ty):
        c = z3.Real("NaN!")
        return c

    def fmax(self, ty):
        return z3.RealVal(2 ** 128 - 2 ** 104) if ty.name == "float" else z3.Real("DBL_MAX!")

    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def div(self, a, b): return a / b
    def neg(self, a): return -a
    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b
    def eq(self, a, b): return a == b
    def isnan(self, a): return self.isnan_f(a)
    def isinf(self, a): return self.isinf_f(a)
    def cast(self, a, f, t): return a
    def from_int(self, i, t): return z3.ToReal(i)

    def to_int(self, a):
        return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))

    def to_bool(self, a): return a != 0
    def fabs(self, a): return z3.If(a >= 0, a, -a)


class OrdMode(RealMode):
    """Exact for code that only copies and compares floats: a non-NaN float is its rank in the total
    order of floats (+0 and -0 share a rank), NaN is a separate code."""
    name = "ord"
    NAN = -2 ** 40
    INF = 2 ** 31 - 2 ** 23      # rank of +inf (any large number will do)
    nan_ = z3.IntVal(NAN)

    def sort(self, ty):
        return z3.IntSort()

    def const(self, x, ty):
        f = float(str(x).rstrip("fF"))
        import struct
        if f == 0:
            return z3.IntVal(0)
        r = struct.unpack("<i", struct.pack("<f", abs(f)))[0]
        return z3.IntVal(r if f > 0 else -r)

    def nan(self, ty): return self.nan_
    def fmax(self, ty): return z3.IntVal(0x7f7fffff)
    def inf(self): return z3.IntVal(0x7f800000)

    def rng(self, a):
        return z3.Or(a == self.nan_, z3.And(a >= -0x7f800000, a <= 0x7f800000))

    def _no(self, *a): raise OutOfReach("float arithmetic in order mode")
    add = sub = mul = div = from_int = to_int = fabs = _no
    def neg(self, a): return z3.If(a == self.nan_, self.nan_, -a)
    def lt(self, a, b): return z3.And(a != self.nan_, b != self.nan_, a < b)
    def le(self, a, b): return z3.And(a != self.nan_, b != self.nan_, a <= b)
    def eq(self, a, b): return z3.And(a != self.nan_, b != self.nan_, a == b)
    def isnan(self, a): return a == self.nan_
    def isinf(self, a): return z3.Or(a == 0x7f800000, a == -0x7f800000)
    def cast(self, a, f, t): return a
    def to_bool(self, a): return a != 0


class FPMode:
    """IEEE-754, exact (z3 floating-point theory)."""
    name = "fp"
    RM = z3.RNE()

    def sort(self, ty):
        return z3.Float32() if ty.name == "float" else z3.Float64()

    def const(self, x, ty):
        return z3.FPVal(float(str(x).rstrip("fF")), self.sort(ty))

    def nan(self, ty): return z3.fpNaN(self.sort(ty))

    def fmax(self, ty):
        return z3.FPVal(3.4028234663852886e38 if ty.name == "float" else 1.7976931348623157e308, self.sort(ty))
    def add(self, a, b): return z3.fpAdd(self.RM, a, b)
    def sub(self, a, b): return z3.fpSub(self.RM, a, b)
    def mul(self, a, b): return z3.fpMul(self.RM, a, b)
    def div(self, a, b): return z3.fpDiv(self.RM, a, b)
    def neg(self, a): return z3.fpNeg(a)
    def lt(self, a, b): return z3.fpLT(a, b)
    def le(self, a, b): return z3.fpLEQ(a, b)
    def eq(self, a, b): return z3.fpEQ(a, b)
    def isnan(self, a): return z3.fpIsNaN(a)
    def isinf(self, a): return z3.fpIsInf(a)
    def cast(self, a, f, t):
        so = self.sort(t)
        if a.sort() == so:
            return a
        if so.sbits() < a.sort().sbits():
            # narrowing commutes with a case split and undoes a widening
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
                return z3.If(a.arg(0), self.cast(a.arg(1), f, t), self.cast(a.arg(2), f, t))
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_FPA_TO_FP and a.num_args() == 2 and a.arg(1).sort() == so:
                return a.arg(1)
        return z3.fpFPToFP(self.RM, a, so)
    def from_int(self, i, t): return z3.fpToFP(self.RM, z3.ToReal(i), self.sort(t))
    def to_int(self, a): raise OutOfReach("float to int in fp mode")
    def to_bool(self, a): return z3.Not(z3.fpIsZero(a))
    def fabs(self, a): return z3.fpAbs(a)


# ---------------------------------------------------------------- values
Str = z3.DeclareSort("Str")
_strlits = {}


def strlit(s):
    if s not in _strlits:
        _strlits[s] = z3.Const("str!%d!%s" % (len(_strlits), re.sub(r"[^\w]", "_", s)[:20]), Str)
    return _strlits[s]


def strlit_facts():
    l = list(_strlits.values())
    return [z3.Distinct(*l)] if len(l) > 1 else []


class Val:
    pass


class Obj(Val):
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, name, v):
        d = dict(self.f)
        d[name] = v
        return Obj(self.cls, d)

    def __repr__(self):
        return "%s{%s}" % (self.cls, ", ".join("%s=%r" % kv for kv in self.f.items()))


class Vec(Val):
    """vector/list/queue/repeated field."""
    __slots__ = ("len", "el")

    def __init__(self, len, el):
        self.len, self.el = len, el

    def __repr__(self):
        return "Vec(%r, %r)" % (self.len, self.el)


class HeapV(Val):
    """All objects of one class, indexed by address."""
    __slots__ = ("el",)

    def __init__(self, el):
        self.el = el


class MapV(Val):
    """map/set; ordered: std::map.  val is lifted over the key sort (None for a set)."""
    __slots__ = ("ordered", "dom", "val", "size")

    def __init__(self, ordered, dom, val, size):
        self.ordered, self.dom, self.val, self.size = ordered, dom, val, size


class Iter(Val):
    """Iterator: container path (static), position.  Also used for pointers into vectors."""
    __slots__ = ("cont", "pos", "rev")

    def __init__(self, cont, pos, rev=False):
        self.cont, self.pos, self.rev = cont, pos, rev

    def __repr__(self):
        return "Iter(%r, %r)" % (self.cont, self.pos)


class MapIter(Val):
    """Iterator into a map: present flag + key (find/lower_bound results), or enumeration position."""
    __slots__ = ("cont", "end", "key", "pos", "enum")

    def __init__(self, cont, end, key, pos=None, enum=None):
        self.cont, self.end, self.key, self.pos, self.enum = cont, end, key, pos, enum


class PPtr(Val):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "&%r" % (self.path,)


class RPtr(Val):
    """Pointer into a heap; address 0 is null."""
    __slots__ = ("heap", "addr")

    def __init__(self, heap, addr):
        self.heap, self.addr = heap, addr

    def __repr__(self):
        return "RPtr(%s,%r)" % (self.heap, self.addr)


class Closure(Val):
    __slots__ = ("node", "caps", "doc", "this", "frame")

    def __init__(self, node, caps, doc, this):
        self.node, self.caps, self.doc, self.this = node, caps, doc, this


class BoundFn(Val):
    __slots__ = ("fn", "args")

    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class FuncRef(Val):
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class FnArr(Val):
    """A one-argument function of an int as a z3 array (FloatVector)."""
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr


class FnSym(Val):
    """Uninterpreted pure function; fn(list of z3 args) -> value."""
    __slots__ = ("fn", "name")

    def __init__(self, fn, name="fn"):
        self.fn, self.name = fn, name


class Opaque(Val):
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "Opaque(%s)" % self.tag


class Tracked(Val):
    """Array leaf whose elements are A0[P[i]]: every stored value must be an element of A0."""
    __slots__ = ("a0", "p")

    def __init__(self, a0, p):
        self.a0, self.p = a0, p


def is_arr_sort(s):
    return isinstance(s, z3.ArraySortRef)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def tmap(f, *ts):
    """Map over corresponding z3 leaves."""
    t = ts[0]
    if is_z3(t):
        return f(*ts)
    if t is None:
        return None
    if isinstance(t, Tracked):
        return f(*ts)
    if isinstance(t, Obj):
        for o in ts[1:]:
            if not isinstance(o, Obj) or set(o.f) != set(t.f):
                raise OutOfReach("shape mismatch %s/%s" % (t.cls, getattr(o, "cls", type(o).__name__)))
        return Obj(t.cls, {k: tmap(f, *[o.f[k] for o in ts]) for k in t.f})
    if isinstance(t, Vec):
        return Vec(tmap(f, *[o.len for o in ts]), tmap(f, *[o.el for o in ts]))
    if isinstance(t, HeapV):
        return HeapV(tmap(f, *[o.el for o in ts]))
    if isinstance(t, MapV):
        return MapV(t.ordered, tmap(f, *[o.dom for o in ts]), tmap(f, *[o.val for o in ts]),
                    tmap(f, *[o.size for o in ts]))
    if isinstance(t, Iter):
        cs = [o.cont for o in ts if o.cont is not None]
        for c in cs[1:]:
            if not same_path(c, cs[0]):
                raise OutOfReach("iterators into different containers merged")
        return Iter(cs[0] if cs else None, tmap(f, *[o.pos for o in ts]), t.rev)
    if isinstance(t, RPtr):
        for o in ts[1:]:
            if isinstance(o, PPtr) and o.path is None:
                continue
            if not isinstance(o, RPtr):
                raise OutOfReach("pointer kinds mixed")
        a = [(z3.IntVal(0) if isinstance(o, PPtr) else o.addr) for o in ts]
        return RPtr(t.heap, f(*a))
    if isinstance(t, PPtr):
        if any(isinstance(o, RPtr) for o in ts):
            if t.path is not None:
                raise OutOfReach("pointer kinds mixed")
            h = [o for o in ts if isinstance(o, RPtr)][0].heap
            return tmap(f, *[(RPtr(h, z3.IntVal(0)) if isinstance(o, PPtr) else o) for o in ts])
        for o in ts[1:]:
            if not (isinstance(o, PPtr) and (o.path == t.path or (o.path and t.path and same_path(o.path, t.path)))):
                raise OutOfReach("distinct static pointers merged")
        return t
    if isinstance(t, FnArr):
        return FnArr(tmap(f, *[o.arr for o in ts]))
    if isinstance(t, (Opaque, FuncRef, Closure, FnSym, BoundFn)):
        for o in ts[1:]:
            if type(o) is not type(t):
                raise OutOfReach("opaque values of different kind merged")
            if isinstance(t, (Closure, FnSym, BoundFn)) and o is not t:
                raise OutOfReach("different closures merged")
        return t
    if isinstance(t, MapIter):
        for o in ts[1:]:
            if not isinstance(o, MapIter) or not same_path(o.cont, t.cont) or (o.enum is None) != (t.enum is None):
                raise OutOfReach("map iterators of different kind merged")
            if t.enum is not None and o.enum is not t.enum and not o.enum[0].eq(t.enum[0]):
                raise OutOfReach("map iterators of different enumerations merged")
        if t.enum is not None:
            return MapIter(t.cont, None, None, f(*[o.pos for o in ts]), t.enum)
        ks = [o.key for o in ts if o.key is not None]
        if not ks:
            return MapIter(t.cont, f(*[o.end for o in ts]), None)
        return MapIter(t.cont, f(*[o.end for o in ts]), f(*[(ks[0] if o.key is None else o.key) for o in ts]))
    raise OutOfReach("value %r" % (t,))


def leaves(t, key=()):
    """(key, leaf) pairs of z3 leaves (and Tracked)."""
    if is_z3(t) or isinstance(t, Tracked):
        yield key, t
    elif isinstance(t, Obj):
        for k in t.f:
            yield from leaves(t.f[k], key + (k,))
    elif isinstance(t, Vec):
        yield from leaves(t.len, key + ("#len",))
        yield from leaves(t.el, key + ("#el",))
    elif isinstance(t, HeapV):
        yield from leaves(t.el, key + ("#el",))
    elif isinstance(t, MapV):
        yield from leaves(t.dom, key + ("#dom",))
        if t.val is not None:
            yield from leaves(t.val, key + ("#el",))
        yield from leaves(t.size, key + ("#len",))
    elif isinstance(t, Iter):
        yield from leaves(t.pos, key + ("#pos",))
    elif isinstance(t, MapIter):
        if t.enum is not None:
            yield key + ("#pos",), t.pos
        else:
            yield key + ("#end",), t.end
            if t.key is not None:
                yield key + ("#key",), t.key
    elif isinstance(t, RPtr):
        yield key + ("#addr",), t.addr
    elif isinstance(t, FnArr):
        yield key + ("#fn",), t.arr


def tmapk(f, t, key=()):
    """Map over leaves with their key."""
    if is_z3(t) or isinstance(t, Tracked):
        return f(key, t)
    if isinstance(t, Obj):
        return Obj(t.cls, {k: tmapk(f, t.f[k], key + (k,)) for k in t.f})
    if isinstance(t, Vec):
        return Vec(tmapk(f, t.len, key + ("#len",)), tmapk(f, t.el, key + ("#el",)))
    if isinstance(t, HeapV):
        return HeapV(tmapk(f, t.el, key + ("#el",)))
    if isinstance(t, MapV):
        return MapV(t.ordered, tmapk(f, t.dom, key + ("#dom",)), None if t.val is None else tmapk(f, t.val, key + ("#el",)),
                    tmapk(f, t.size, key + ("#len",)))
    if isinstance(t, Iter):
        return Iter(t.cont, tmapk(f, t.pos, key + ("#pos",)), t.rev)
    if isinstance(t, MapIter):
        if t.enum is not None:
            return MapIter(t.cont, None, None, f(key + ("#pos",), t.pos), t.enum)
        return MapIter(t.cont, f(key + ("#end",), t.end), None if t.key is None else f(key + ("#key",), t.key))
    if isinstance(t, RPtr):
        return RPtr(t.heap, f(key + ("#addr",), t.addr))
    if isinstance(t, FnArr):
        return FnArr(f(key + ("#fn",), t.arr))
    return t


def same_path(a, b):
    if a is b:
        return True
    if a is None or b is None or a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    for x, y in zip(a[1], b[1]):
        if x[0] != y[0]:
            return False
        if x[0] == "f":
            if x[1] != y[1]:
                return False
        elif not (x[1] is y[1] or (is_z3(x[1]) and is_z3(y[1]) and x[1].eq(y[1]))):
            return False
    return True


def sel_leaf(a, i):
    if isinstance(a, Tracked):
        return z3.Select(a.a0, z3.Select(a.p, i))
    return z3.Select(a, i)


def lsel(tree, i):
    return tmap(lambda a: sel_leaf(a, i), tree)


def _tracked_src(v, a0):
    if z3.is_select(v) and v.arg(0).eq(a0):
        return v.arg(1)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        x, y = _tracked_src(v.arg(1), a0), _tracked_src(v.arg(2), a0)
        if x is not None and y is not None:
            return z3.If(v.arg(0), x, y)
    return None


def sto_leaf(a, i, v):
    if isinstance(a, Tracked):
        s = _tracked_src(v, a.a0)
        if s is None:
            # not syntactically one of the elements: an unknown source (the permutation is lost)
            return Tracked(a.a0, z3.Store(a.p, i, z3.IntVal(-1)))
        return Tracked(a.a0, z3.Store(a.p, i, s))
    if v.sort() != a.range():
        v = coerce(v, a.range())
    return z3.Store(a, i, v)


def coerce(v, sort):
    if v.sort() == sort:
        return v
    if sort == z3.RealSort() and v.sort() == z3.IntSort():
        return z3.ToReal(v)
    raise OutOfReach("sort mismatch %s vs %s" % (v.sort(), sort))


def lsto(tree, i, val):
    return tmap(lambda a, v: sto_leaf(a, i, v), tree, val)


def ite(c, a, b):
    def f(x, y):
        if isinstance(x, Tracked):
            return Tracked(x.a0, z3.If(c, x.p, y.p)) if not x.p.eq(y.p) else x
        if x.eq(y):
            return x
        if x.sort() != y.sort():
            y = coerce(y, x.sort())
        return z3.If(c, x, y)
    return tmap(f, a, b)


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])


def fresh_sort(sort, base):
    return z3.Const(fresh_name(base), sort)


def fresh_like(t, base):
    def f(a):
        if isinstance(a, Tracked):
            return Tracked(a.a0, fresh_sort(a.p.sort(), base + ".P"))
        return fresh_sort(a.sort(), base)
    return tmap(f, t)


def klift(t, idx=None):
    """Constant function lifting of a value."""
    s = idx or z3.IntSort()
    return tmap(lambda a: z3.K(s, a), t)
