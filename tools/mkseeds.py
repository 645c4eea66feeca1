#!/usr/bin/env python3
"""Writes the planted bugs of /verif/seeded: every one is an edit of /repo's HEAD, an application and what is expected of it."""
import json, os, shutil, subprocess, sys, textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "seeded")
REPO = "/repo"
SEEDS = []

DEMO = r'''#!/bin/bash
# Builds the application in app/ against the current directory, runs it in a scratch directory and judges what it wrote.
here=$(cd "$(dirname "$0")"; pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d /tmp/demo-XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
mkdir "$W/app"; cp -r "$here/app/." "$W/app"
sed 's#^module .*#module example.com/demo#' "$repo/go.mod" > "$W/app/go.mod"
printf 'require github.com/ls6-events/astra v0.0.0\nreplace github.com/ls6-events/astra => %%s\n' "$repo" >> "$W/app/go.mod"
cp "$repo/go.sum" "$W/app/go.sum"
cd "$W/app" && go build %(flags)s -o demo . || { echo "the application does not build"; exit 8; }
%(run)s
python3 "$here/judge.py" "$W/app"
'''
RUN = 'timeout 200 ./demo >"$W/log" 2>&1 || { echo "the application failed"; tail -5 "$W/log"; exit 7; }'
JUDGE = r'''import json, os, sys
os.chdir(sys.argv[1])
def load(name="openapi.json"):
    return json.load(open(name))
def check(ok, what):
    if not ok:
        print("FAILED:", what); sys.exit(1)
def op(doc, path, method="get"):
    return doc["paths"][path][method]
def params(doc, path, method="get"):
    return sorted((p["in"], p["name"]) for p in op(doc, path, method).get("parameters", []))
'''
HEAD = '''package main

import (
	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
%s)

var config = &astra.Config{Title: "demo", Version: "1", Host: "localhost", Port: 8080, BasePath: "/"}

func generate(r *gin.Engine, options ...astra.Option) {
	all := append([]astra.Option{inputs.WithGinInput(r), outputs.WithOpenAPIOutput("openapi.json"), astra.WithConfig(config)}, options...)
	if err := astra.New(all...).Parse(); err != nil {
		panic(err)
	}
}
'''


def seed(id, prop, needs, breaks, edits, main, judge, imports=(), files=None, flags="", run=None, env=None, head=True):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, judge=judge, imports=imports, files=files or {}, flags=flags, run=run or RUN, head=head))


for lot in ("seeds_src.py", "seeds_more.py"):
    exec(open(os.path.join(ROOT, "tools", lot)).read())


def write(s):
    d = os.path.join(OUT, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "app"))
    # the patch
    diffs = []
    byfile = {}
    for f, old, new in s["edits"]:
        text = byfile.get(f) or open(os.path.join(REPO, f)).read()
        assert text.count(old) == 1, (s["id"], f, text.count(old), old)
        byfile[f] = text.replace(old, new)
    tmp = "/tmp/mkseeds-tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    for f, text in byfile.items():
        for side, body in (("a", open(os.path.join(REPO, f)).read()), ("b", text)):
            p = os.path.join(tmp, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(body)
        if f.endswith(".go"):
            r = subprocess.run(["gofmt", "-l", os.path.join(tmp, "b", f)], capture_output=True, text=True)
            if r.stdout or r.stderr:
                print(s["id"], "gofmt:", r.stdout, r.stderr)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, capture_output=True, text=True)
        lines = r.stdout.splitlines(True)
        lines[0] = "--- a/%s\n" % f
        lines[1] = "+++ b/%s\n" % f
        diffs.append("".join(lines))
    shutil.rmtree(tmp, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write("".join(diffs))
    # the application
    imports = "".join("\t%s\n" % (i if '"' in i else '"%s"' % i) for i in s["imports"])
    main = (HEAD % imports if s["head"] else "") + textwrap.dedent(s["main"]).lstrip("\n").join(["\n", ""]) if s["head"] else textwrap.dedent(s["main"]).lstrip("\n")
    for name, body in {"main.go": main, **{k: textwrap.dedent(v).lstrip("\n") for k, v in s["files"].items()}}.items():
        p = os.path.join(d, "app", name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(body)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(flags=s["flags"], run=s["run"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "judge.py"), "w").write(JUDGE + textwrap.dedent(s["judge"]))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


only = sys.argv[1:]
for s in SEEDS:
    if not only or s["id"] in only:
        write(s)
        print(s["id"], s["prop"])
