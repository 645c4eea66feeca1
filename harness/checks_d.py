"""C18: the package manager under concurrent use."""
from check import prop
from apps import *
import re

PM = os.path.join(VERIF, "harness", "pm")


def tier(q, t):
    return t if THOROUGH else q


def two_modules(pkgs):
    """Two modules of one path whose packages differ, to load."""
    dirs = []
    for d in range(2):
        root = os.path.join(scratch(), "two%d" % d)
        write(os.path.join(root, "go.mod"), "module example.com/two\n\ngo 1.21\n")
        for k in range(pkgs):
            imp = 'import "example.com/two/p%d"\n\nvar _ n%d.T%d\n' % (k + 1, k + 1, k + 1) if k % 3 == 0 and k + 1 < pkgs else ""
            write(os.path.join(root, "p%d" % k, "a.go"), "package n%d\n\n%s\n// T%d in %d.\ntype T%d struct {\n\t// F in %d.\n\tF int\n}\n" % (k, imp, k, d, k, d))
            write(os.path.join(root, "p%d" % k, "b.go"), "package n%d\n\n// U in %d.\ntype U struct{ G string }\n" % (k, d))
        dirs.append(root)
    return dirs


@prop("C18", "Random concurrent histories of add, find, find-or-add and import calls on fresh package managers, with the race detector on and with the code of the manager giving way "
             "between any two of its statements; porcupine looks for a sequential history that explains each one, and identities, paths and the tree are compared. Packages of two modules of "
             "one path are loaded by many goroutines. Distinct: different orders of calls seen.")
def c18(check):
    pkgs = 15
    dirs = two_modules(pkgs)
    src = os.path.join(scratch(), "pm")
    version = "v1.3.1"
    write(os.path.join(src, "go.mod"), gomod(module="example.com/pm") + "\nrequire github.com/anishathalye/porcupine %s\n" % version)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
    for f in ("main", "specs"):
        shutil.copy(os.path.join(PM, f + ".go.txt"), os.path.join(src, f + ".go"))
    per = os.path.join(scratch(), "perturb")
    write(os.path.join(per, "go.mod"), "module example.com/perturb\n\ngo 1.21\n")
    shutil.copy(os.path.join(PM, "perturb.go.txt"), os.path.join(per, "main.go"))
    ovl = os.path.join(scratch(), "overlay")
    os.makedirs(ovl)
    rc, out = run(["go", "run", ".", os.path.join(REPO, "astTraversal"), ovl], per)
    if rc != 0:
        raise Inconclusive(out[-2000:])
    env = goenv(GOSUMDB="off")
    bins = []
    for name, hook, flags in (("race", "hooked", ["-race", "-overlay", os.path.join(ovl, "overlay.json")]),
                              ("hooked", "hooked", ["-overlay", os.path.join(ovl, "overlay.json")]), ("plain", "plain", ["-race"])):
        d = os.path.join(scratch(), "pm-" + name)
        shutil.copytree(src, d)
        shutil.copy(os.path.join(PM, hook + ".go.txt"), os.path.join(d, "hook.go"))
        b = os.path.join(scratch(), "pm-%s.bin" % name)
        rc, out = run(["go", "build"] + flags + ["-o", b, "."], d, env=env, timeout=600)
        if rc != 0 and hook == "hooked":
            # Code that can't be rewritten is watched as it is
            check.count("builds_without_perturbation")
            shutil.copy(os.path.join(PM, "plain.go.txt"), os.path.join(d, "hook.go"))
            rc, out = run(["go", "build"] + [f for f in flags if f == "-race"] + ["-o", b, "."], d, env=env, timeout=600)
        if rc != 0:
            raise Inconclusive(out[-3000:])
        bins.append((name, b))
    count = tier(6000, 60000)

    def one(k):
        name, b = bins[k % len(bins)]
        outf = os.path.join(scratch(), "pm-%d.json" % k)
        e = goenv(VRT_SEED=str(SEED * 1000 + k), VRT_COUNT=str(count), VRT_DIRS=":".join(dirs), VRT_PKGS=str(pkgs), VRT_OUT=outf, GORACE="exitcode=66 halt_on_error=0", GOGC="100")
        try:
            p = subprocess.run([b], cwd=dirs[0], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tier(600, 3000))
            rc, text = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            rc, text = "timeout", (x.stdout or b"").decode(errors="replace")
        return name, rc, text, json.load(open(outf)) if os.path.exists(outf) else None

    for name, rc, text, res in parallel([lambda k=k: one(k) for k in range(tier(3, 6))]):
        races = text.split("WARNING: DATA RACE")[1:]
        for r in races[:5]:
            r = r.split("==================")[0]
            if "astTraversal" in r:
                check.violation("data race (%s):\n%s" % (name, r[:2500]))
        if rc == "timeout":
            raise Inconclusive("%s: %s" % (name, text[-1500:]))
        if res is None:
            check.violation("%s: the calls did not come to an end, the process ended with %s: %s" % (name, rc, text[-3000:]))
            continue
        for v in res["violations"] or []:
            check.violation("%s: %s" % (name, v[:1500]))
        for k, n in res["stats"].items():
            check.count(k, n)
            if k == "distinct_orders_of_calls":
                for i in range(n):
                    check.saw("%s/%d" % (name, i))
        check.count("race_reports", len(races))
    check.sample("go run of pm-race: porcupine over %s histories, %s calls overlapped others" % (check.counts.get("histories"), check.counts.get("overlapping_calls")))
