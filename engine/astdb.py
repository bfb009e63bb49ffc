"""Loads the clang AST of /repo's current sources and indexes it.

Every run calls clang on the working tree; nothing is cached between runs.
"""
import json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")


class ExtractError(Exception):
    """The source could not be read or lies outside the supported subset."""


def prepare_includes(scratch):
    """compat/ (status.h shim) and gen/ (protoc output), as /opt/vp/cmake does it."""
    b = os.path.join(scratch, "inc")
    if os.path.isdir(os.path.join(b, "gen", "src", "proto")):
        return b
    os.makedirs(os.path.join(b, "gen"), exist_ok=True)
    d = os.path.join(b, "compat", "google", "protobuf", "stubs")
    os.makedirs(d, exist_ok=True)
    s = open("/usr/include/google/protobuf/stubs/status.h").read()
    s = s.replace("  StatusCode code() const { return error_code_; }\n",
                  "  StatusCode code() const { return error_code_; }\n"
                  "  StatusCode error_code() const { return error_code_; }\n  static const Status OK;\n")
    codes = "namespace error {\n"
    for c in ("OK=kOk CANCELLED=kCancelled UNKNOWN=kUnknown INVALID_ARGUMENT=kInvalidArgument "
              "DEADLINE_EXCEEDED=kDeadlineExceeded NOT_FOUND=kNotFound ALREADY_EXISTS=kAlreadyExists "
              "PERMISSION_DENIED=kPermissionDenied UNAUTHENTICATED=kUnauthenticated "
              "RESOURCE_EXHAUSTED=kResourceExhausted FAILED_PRECONDITION=kFailedPrecondition "
              "ABORTED=kAborted OUT_OF_RANGE=kOutOfRange UNIMPLEMENTED=kUnimplemented "
              "INTERNAL=kInternal UNAVAILABLE=kUnavailable DATA_LOSS=kDataLoss").split():
        codes += "constexpr StatusCode %s;\n" % c.replace("=", " = StatusCode::")
    codes += "}  // namespace error\n\n}  // namespace util\n"
    s = s.replace("}  // namespace util\n", codes)
    open(os.path.join(d, "status.h"), "w").write(s)
    protos = [os.path.join("src/proto", f) for f in sorted(os.listdir(REPO + "/src/proto")) if f.endswith(".proto")]
    r = subprocess.run(["protoc", "-I" + REPO, "--cpp_out=" + os.path.join(b, "gen")] + protos, cwd=REPO,
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("protoc failed: " + r.stderr)
    return b


PYINC = None


def clang_flags(inc):
    global PYINC
    if PYINC is None:
        PYINC = []
        for c in ("/usr/include/python3.12", "/usr/include/pybind11"):
            pass
        r = subprocess.run(["/usr/bin/python3-config", "--includes"], capture_output=True, text=True)
        PYINC = r.stdout.split() if r.returncode == 0 else ["-I/usr/include/python3.12"]
    return ["-std=gnu++14", "-I" + inc + "/compat", "-I/opt/vp/cmake/include", "-I" + REPO, "-I" + inc + "/gen"] + PYINC


def parse_docs(s):
    d = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while True:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            return out
        if s[i] != "{":
            i = s.find("\n", i)
            if i < 0:
                return out
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)


class Func:
    __slots__ = ("name", "qname", "cls", "kind", "mangled", "params", "body", "inits", "type", "doc", "node",
                 "static", "file", "line", "virtual", "sig", "is_const", "implicit", "order")

    def __repr__(self):
        return "<Func %s %s>" % (self.qname, self.type)


class Record:
    __slots__ = ("name", "qname", "fields", "bases", "node", "doc", "methods", "tag")


def split_type_args(s):
    """'R (A, B<C, D>) const' -> ['A', 'B<C, D>']"""
    depth = 0
    # parameter list is the last balanced (...) group before optional const/noexcept
    i = s.rfind(")")
    if i < 0:
        return []
    j = i
    d = 0
    while j >= 0:
        if s[j] == ")":
            d += 1
        elif s[j] == "(":
            d -= 1
            if d == 0:
                break
        j -= 1
    inner = s[j + 1:i]
    out, cur, depth = [], "", 0
    for ch in inner:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class DB:
    def __init__(self, scratch):
        self.scratch = scratch
        self.inc = prepare_includes(scratch)
        self.funcs = {}       # mangled -> Func with body (first seen)
        self.decls = {}       # mangled -> Func (any)
        self.byname = {}      # bare name -> [Func with body]
        self.records = {}     # qname -> Record (with fields)
        self.ids = {}         # (doc, id) -> ('func', mangled)|('var', node)|('field', node, rec)|('enumc', value)
        self.globals = {}     # qname -> VarDecl node with init (doc)
        self.enums = {}       # qualified-ish name -> int
        self.loaded = []
        self.ndoc = 0
        self._demangle_cache = {}

    # -- loading
    def load(self, jobs):
        """jobs: list of (tu relative to src/, filter)."""
        jobs = [j for j in dict.fromkeys(jobs) if j not in self.loaded]

        def run(job):
            tu, flt = job
            path = os.path.join(REPO, "src", tu) if not tu.startswith("/") else tu
            if not os.path.exists(path):
                raise ExtractError("missing source file " + path)
            r = subprocess.run(["clang++-18"] + clang_flags(self.inc) +
                               ["-Wno-everything", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang",
                                "-ast-dump-filter=" + flt, path], cwd=REPO, capture_output=True, text=True)
            if r.returncode:
                raise ExtractError("clang failed on %s: %s" % (tu, r.stderr[:2000]))
            return job, r.stdout
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, jobs))
        for job, out in res:
            self.ndoc += 1
            doc = self.ndoc
            self.loaded.append(job)
            for d in parse_docs(out):
                self._walk(d, [], doc, None, job[0])

    def _walk(self, n, scope, doc, rec, tu, tmpl=False):
        if not isinstance(n, dict) or "kind" not in n:
            return
        k = n["kind"]
        inner = n.get("inner", [])
        if k == "NamespaceDecl" or k == "LinkageSpecDecl":
            sc = scope + [n["name"]] if n.get("name") else scope
            if n.get("name") in ("std", "internal", "__gnu_cxx"):
                return
            for c in inner:
                self._walk(c, sc, doc, None, tu)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            self._record(n, scope, doc, tu)
            return
        if k == "ClassTemplateDecl":
            for c in inner:
                if c.get("kind") == "ClassTemplateSpecializationDecl":
                    self._walk(c, scope, doc, rec, tu)
            return
        if k == "FunctionTemplateDecl":
            first = True
            for c in inner:
                if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    # the first is the pattern; the others are instantiations
                    if any(a.get("kind") == "TemplateArgument" for a in c.get("inner", [])):
                        self._func(c, scope, doc, rec, tu)
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self._func(n, scope, doc, rec, tu)
            return
        if k == "VarDecl":
            self.ids[(doc, n.get("id"))] = ("gvar", n, "::".join(scope + [n.get("name", "")]))
            q = "::".join(scope + [n.get("name", "")])
            if rec is None and n.get("parentDeclContextId"):
                o = self.ids.get((doc, n["parentDeclContextId"]))
                if o and o[0] == "rec":
                    q = o[1] + "::" + n.get("name", "")
            if "init" in n or q not in self.globals:
                self.globals[q] = (n, doc)
            return
        if k == "EnumDecl":
            val = -1
            for c in inner:
                if c.get("kind") == "EnumConstantDecl":
                    val += 1
                    for e in c.get("inner", []):
                        v = _const_value(e)
                        if v is not None:
                            val = v
                    self.ids[(doc, c.get("id"))] = ("enumc", val)
                    q = "::".join(scope + [c["name"]])
                    self.enums[q] = val
            return
        if k in ("UsingDecl", "TypedefDecl", "TypeAliasDecl"):
            return

    def _record(self, n, scope, doc, tu):
        name = n.get("name")
        targs = [a for a in n.get("inner", []) if a.get("kind") == "TemplateArgument"]
        if n["kind"] == "ClassTemplateSpecializationDecl" and name:
            ts = ", ".join(a.get("type", {}).get("qualType", "?") for a in targs)
            name = "%s<%s>" % (name, ts)
        q = "::".join(scope + [name]) if name else None
        if q:
            self.ids[(doc, n.get("id"))] = ("rec", q)
        if not n.get("completeDefinition") and not n.get("inner"):
            return
        r = Record()
        r.name, r.qname, r.node, r.doc = name, q, n, doc
        r.fields, r.bases, r.methods = [], [], []
        for b in n.get("bases", []):
            r.bases.append(b.get("type", {}).get("desugaredQualType") or b.get("type", {}).get("qualType"))
        sc = scope + [name] if name else scope
        for c in n.get("inner", []):
            ck = c.get("kind")
            if ck == "FieldDecl":
                r.fields.append(c)
                self.ids[(doc, c.get("id"))] = ("field", c.get("name"), q)
            elif ck in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl",
                        "FunctionTemplateDecl"):
                self._walk(c, sc, doc, r, tu)
            elif ck in ("CXXRecordDecl", "EnumDecl", "ClassTemplateDecl"):
                self._walk(c, sc, doc, r, tu)
            elif ck == "VarDecl":
                self._walk(c, sc, doc, r, tu)
        if q and n.get("completeDefinition") and q not in self.records:
            self.records[q] = r

    def _func(self, n, scope, doc, rec, tu):
        f = Func()
        f.name = n.get("name")
        f.mangled = n.get("mangledName") or ("?%s?%s?%d" % ("::".join(scope), f.name, id(n)))
        f.kind = n["kind"]
        f.node, f.doc = n, doc
        f.type = n.get("type", {}).get("qualType", "")
        f.params = [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        f.body = None
        for c in n.get("inner", []):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                f.body = c
        f.inits = [c for c in n.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
        f.static = n.get("storageClass") == "static"
        f.virtual = n.get("virtual", False)
        f.implicit = n.get("isImplicit", False)
        f.is_const = f.type.rstrip().endswith("const")
        cls = None
        if f.kind != "FunctionDecl":
            if rec is not None:
                cls = rec.qname
            elif n.get("parentDeclContextId"):
                o = self.ids.get((doc, n["parentDeclContextId"]))
                if o and o[0] == "rec":
                    cls = o[1]
            if cls is None:
                prev = n.get("previousDecl")
                o = self.ids.get((doc, prev)) if prev else None
                if o and o[0] == "func":
                    cls = self.decls[o[1]].cls if o[1] in self.decls else None
        f.cls = cls
        f.qname = (cls + "::" + f.name) if cls else "::".join(scope + [f.name or ""])
        loc = n.get("loc", {})
        f.file, f.line = tu, loc.get("line")
        self.ids[(doc, n.get("id"))] = ("func", f.mangled)
        if f.mangled not in self.decls or (f.cls and not self.decls[f.mangled].cls):
            self.decls[f.mangled] = f
        elif f.static is False and self.decls[f.mangled].static:
            f.static = True
        if f.body is not None or (f.inits and f.kind == "CXXConstructorDecl"):
            if self.decls.get(f.mangled) is not None and self.decls[f.mangled].static:
                f.static = True
            if f.mangled not in self.funcs:
                self.funcs[f.mangled] = f
                self.byname.setdefault(f.name, []).append(f)
        # default arguments, nested lambdas need no indexing (executed in place)

    # -- queries
    def find(self, qname, params=None):
        """Functions with a body by qualified name, optionally matching parameter-type substrings."""
        out = []
        for f in self.byname.get(qname.split("::")[-1], []):
            if f.qname == qname or f.qname.endswith("::" + qname):
                if params is not None:
                    ps = [p.get("type", {}).get("qualType", "") for p in f.params]
                    if len(ps) != len(params) or not all(a in b for a, b in zip(params, ps)):
                        continue
                out.append(f)
        return out

    def one(self, qname, params=None):
        fs = self.find(qname, params)
        if len(fs) != 1:
            raise ExtractError("function %s%s: %d definitions found" % (qname, params or "", len(fs)))
        return fs[0]

    def record(self, name):
        """Record by (possibly unqualified) name."""
        if name in self.records:
            return self.records[name]
        name = name.lstrip(":").replace("(anonymous namespace)::", "")
        if name in self.records:
            return self.records[name]
        c = [r for q, r in self.records.items() if q.endswith("::" + name)]
        if len(c) == 1:
            return c[0]
        return None


def _const_value(e):
    if e.get("kind") in ("ConstantExpr", "IntegerLiteral") and "value" in e:
        try:
            return int(e["value"])
        except ValueError:
            return None
    for c in e.get("inner", []):
        v = _const_value(c)
        if v is not None:
            return v
    return None
