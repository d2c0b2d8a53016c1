#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<json {"old","new","needs","breaks"}; makes patch.diff + meta.json"""
import json, os, subprocess, sys, tempfile
def mk(i, prop, edits, needs, breaks, demo, extra={}):
    d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    patch = b""
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (i, f, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    patch = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "wb").write(patch)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(demo)
    for n, t in extra.items():
        open(d + "/" + n, "w").write(t)

import shutil
CPP = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -DBOOST_BIND_GLOBAL_PLACEHOLDERS -Iinclude -isystem /usr/include/eigen3 %s "$d/demo.cc" %s -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
"""
PY = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 timeout 60 /usr/bin/python3 "$d/demo.py"
"""
def stubmk(i, prop, edits, needs, breaks, sources, main, flags="", libs="", extra={}):
    """A bug whose demonstration needs the stand-ins: they are copied beside it."""
    ex = {"demo.cc": main}
    ex.update(extra)
    mk(i, prop, edits, needs, breaks, CPP.replace("-Iinclude", '-DNDEBUG -I"$d/include" -Iinclude -Isrc') % (flags, sources + " " + libs), ex)
    d = "/verif/seeded/" + i + "/include"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/verif/stub/include", d)
