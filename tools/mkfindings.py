"""Writes known_findings.jsonl: the findings that are recorded, and the fix commits of /repo by property."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """97a958f C09
d70a049 C09
438b97e C09
c2b6edf C03
1bc98a1 C04
8e7c244 C09
982074b C09
61eede6 C09
2d06d5c C04
b81e018 C03
edea910 C15
ae83183 C03
703dfc2 C01
9c3d780 C14
07f8b6b C03
2429235 C04
69ae86b C03
6e2913d C04
74f400b C01
86912de C06
487b870 C05
9af400b C07
f41993f C05
10d6914 C05
aeecace C04
d9dff78 C05
c34793b C10
f51d34a C10
4c4d8cb C10
bebfd1c C11
4f0ec02 C17
4cd1099 C09
d1698ca C05
ae02a92 C05
8cfc6d1 C01
c74f5fb C05
f9659f3 C07
b79c5a4 C01
5ea60c8 C16
7895403 C11
f6bfa4d C09
e3f685b C06
beb3b18 C05
23d7e18 C06
44ec8c5 C01
198addd C01
f4c206c C03
ae628d6 C01
ed473c3 C13
b62d95d C15
02628ad C15
5aefcc7 C18
61a48c5 C18"""
EXTRA = os.path.join(V, "tools", "fixed_extra.txt")
if os.path.exists(EXTRA):
    FIXED += "\n" + open(EXTRA).read().strip()
KNOWN = [
    ("C03", "helper-methods", "handler that answers in a method of a value of its own (service.reply(c)): the answer is not documented, only helper functions are followed"),
    ("C03", "status-parameter", "helper answer(c, 202) that gets its status code as a parameter: the answer is not documented"),
    ("C03", "anonymous-struct", "payload of an anonymous struct type written out in the call: described as an object without its fields"),
    ("C03", "one-line", "two handlers that are function literals on one line: both are documented with the answers of both, the runtime tells the line of a function only"),
    ("C04", "form-and-post-form", "struct bound with a form binding next to PostForm in one handler: the field of PostForm is missing from the body"),
    ("C04", "should-bind-headers", "ShouldBind of a struct with header tags: header parameters are documented that gin's ShouldBind does not read"),
    ("C05", "nested-elements", "[][]int and map[string][]string: the elements of the inner slice are described as {}"),
    ("C05", "bytes", "[]byte is described as an array of strings (encoding/json writes one base64 string), byte as a string (it is a number)"),
    ("C05", "yaml-names", "untagged fields in a YAML component have their Go names, yaml.v3 writes them in lower case"),
    ("C06", "operation-ids", "two routes that share one handler function have the same operationId"),
    ("C07", "local-types", "types of one name declared inside different functions of a package share one component"),
    ("C07", "generic-instances", "different instances of a generic type share one component"),
    ("C07", "pseudo-types", "types of the application named file or float are taken for the predefined pseudo types of these names"),
]
MORE = os.path.join(V, "tools", "known_extra.json")
if os.path.exists(MORE):
    KNOWN += [tuple(x) for x in json.load(open(MORE))]
log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines())


def failed(m):
    for neg in ("do not ", "don't "):
        if m.startswith(neg):
            return "it did " + m[len(neg):]
    return "it did not " + m


done = set()
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for p, i, w in sorted(KNOWN):
        f.write(json.dumps(dict(property=p, id=i, status="known", what=w)) + "\n")
    for l in FIXED.split("\n"):
        h, p = l.split()
        assert h in log, h
        done.add(h)
        f.write("fixed: property=%s %s %s\n" % (p, h, failed(log[h][5:])))
left = [h + " " + m for h, m in log.items() if m.startswith("fix:") and h not in done]
if left:
    print("not assigned to a property:", left)
