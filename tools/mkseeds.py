#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the definitions in tools/seeds_*.py: (id, property, file, [(old, new)...], demo C++ body, needs, breaks)."""
import difflib, glob, json, os, runpy, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = """#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$(pwd)
g++ -std=gnu++14 -O1 -w -pthread %s -I"$R/_build/compat" -I/opt/vp/cmake/include -I"$R" -I"$R/_build/gen" "$D/demo.cc" \\
  "$R/_build/libgbdt_lib.a" -lprotobuf -lgflags -lglog -lfmt -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 200 ./demo
"""
HEAD = """#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
%s
using namespace std;
using namespace gbdt;
#define EXPECT(c) do { if (!(c)) { printf("broken: %%s (line %%d)\\n", #c, __LINE__); return 1; } } while (0)
"""
only = sys.argv[1:]
ids = set()
for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds_*.py"))):
    for s in runpy.run_path(f)["SEEDS"]:
        assert s["id"] not in ids, s["id"]
        ids.add(s["id"])
        if only and s["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        diff = ""
        files = {}
        for e in s["edits"]:
            files.setdefault(e[0], []).append(e[1:])
        for fn, reps in files.items():
            a = open(os.path.join(REPO, fn)).read()
            b = a
            for o, n in reps:
                assert b.count(o) == 1, (s["id"], fn, b.count(o), o)
                b = b.replace(o, n)
            diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + fn, "b/" + fn))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "sh" in s:
            open(os.path.join(d, "demo.sh"), "w").write(s["sh"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % s.get("flags", ""))
            open(os.path.join(d, "demo.cc"), "w").write(HEAD % "\n".join('#include "%s"' % i for i in s["inc"]) + s["demo"])
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
