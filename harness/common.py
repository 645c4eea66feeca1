"""Shared plumbing of the checks: scratch directories, the Go tool chain, verdicts and evidence."""
import json, os, random, shutil, signal, subprocess, threading, sys, tempfile, time, atexit, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VRT_REPO", "/repo")
MODULE = "example.com/genapp"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
START = time.time()
_scratch = None
_lock = threading.RLock()


def goenv(**extra):
    env = dict(os.environ)
    home = env.get("HOME") or "/root"
    env.update(HOME=home, GOWORK="off", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
               PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               TMPDIR=os.path.join(scratch(), "tmp"), GIN_MODE="release", GOGC="400")
    env.pop("GOROOT", None)
    env.update(extra)
    os.makedirs(env["TMPDIR"], exist_ok=True)
    return env


def scratch():
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix="vrt-", dir=os.environ.get("VRT_TMP", "/tmp"))
            if not os.environ.get("VRT_KEEP"):
                atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        return _scratch


class Inconclusive(Exception):
    """The harness could not observe anything; neither held nor violated."""


def run(cmd, cwd, timeout=400, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def gomod(module=MODULE, extra=()):
    """The go.mod of a generated application: that of the repository, with the repository itself replaced."""
    out, keep = ["module %s" % module, "", "go 1.21", ""], False
    with open(os.path.join(REPO, "go.mod")) as f:
        for line in f:
            if line.startswith("require"):
                keep = True
            if keep:
                out.append(line.rstrip("\n"))
    out += ["require github.com/ls6-events/astra v0.0.0", "replace github.com/ls6-events/astra => " + REPO]
    out += list(extra)
    return "\n".join(out) + "\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def build_app(files, name, race=False):
    """Writes and builds an application, returns (directory, binary)."""
    d = os.path.join(scratch(), name)
    write(os.path.join(d, "go.mod"), gomod())
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(d, "go.sum"))
    for p, text in files.items():
        write(os.path.join(d, p), text)
    for pkg in ("rt", "fill"):
        os.makedirs(os.path.join(d, pkg), exist_ok=True)
        shutil.copy(os.path.join(VERIF, "harness", pkg, pkg + ".go"), os.path.join(d, pkg, pkg + ".go"))
    binary = os.path.join(scratch(), name + ".bin")
    rc, out = run(["go", "build"] + (["-race"] if race else []) + (["-cover", "-coverpkg=github.com/ls6-events/astra/..."] if os.environ.get("GOCOVERDIR") else []) + ["-o", binary, "."], d, timeout=600)
    if rc != 0:
        raise Inconclusive("the generated application %s does not build:\n%s" % (name, out[-4000:]))
    return d, binary


_contained = None


def contained(dirs=None):
    """The command prefix that keeps what a generator deletes or overwrites inside the scratch directory, if the kernel has it."""
    global _contained
    if dirs:
        return [sys.executable, os.path.join(VERIF, "harness", "contain.py")] + dirs + [os.path.join(scratch(), "tmp"), "/root/.cache/go-build", "--"] if contained() else []
    with _lock:
        if _contained is not None:
            return _contained
        cmd = [sys.executable, os.path.join(VERIF, "harness", "contain.py"), scratch(), "/root/.cache/go-build"] + ([os.environ["GOCOVERDIR"]] if os.environ.get("GOCOVERDIR") else []) + ["--"]
        _contained = cmd if subprocess.run(cmd + ["true"]).returncode == 0 else []
        return _contained


def run_app(d, binary, plan, tag, timeout=500, cwd=None, env=None, dirs=None, kill=None):
    """Runs a plan in an application, returns its events and what it printed. dirs are all it can write to, kill() says when it is to be killed."""
    planf, logf = os.path.join(scratch(), tag + ".plan.json"), os.path.join(scratch(), "log", tag + ".log")
    os.makedirs(os.path.join(scratch(), "log"), exist_ok=True)
    write(planf, json.dumps(plan))
    if os.path.exists(logf):
        os.remove(logf)
    e = goenv(VRT_PLAN=planf, VRT_LOG=logf, **(env or {}))
    out, rc = "", 0
    cmd = contained(dirs + [os.path.join(scratch(), "log")] if dirs else None) + [binary]
    try:
        if kill:
            p = subprocess.Popen(cmd, cwd=cwd or d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            end = time.time() + timeout
            while p.poll() is None and time.time() < end:
                if kill():
                    break
                time.sleep(0.0005)
            killed = p.poll() is None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc, out = "killed" if killed else p.returncode, ""
        else:
            p = subprocess.run(cmd, cwd=cwd or d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, out = "timeout", (x.stdout or b"").decode(errors="replace")
    events = []
    if os.path.exists(logf):
        with open(logf) as f:
            for line in f:
                try:
                    events.append(json.loads(line))
                except ValueError:
                    pass
    return Events(events, rc, out)


class Events:
    def __init__(self, events, rc, out):
        self.events, self.rc, self.out = events, rc, out
        self.gen = {e["id"]: e for e in events if e.get("ev") == "gen"}
        self.http = {e["id"]: e for e in events if e.get("ev") == "http"}
        self.builder = {e["id"]: e for e in events if e.get("ev") == "builder"}
        self.snaps = {e["id"]: e["tree"] for e in events if e.get("ev") == "snap"}
        self.values = {e["id"]: e for e in events if e.get("ev") == "value"}
        self.complete = bool(events) and events[-1].get("ev") == "end" and rc == 0
        self.last = next((e["id"] for e in reversed(events) if e.get("ev") == "begin"), None)

    def doc(self, gid, path):
        """The OpenAPI document a step wrote, or (None, reason)."""
        e = self.gen.get(gid)
        if e is None:
            return None, "the process ended (%s) before step %s finished (last begun: %s):\n%s" % (self.rc, gid, self.last, self.out[-1500:])
        if e.get("panic"):
            return None, "step %s panicked: %s\n%s" % (gid, e["panic"], e.get("stack", "")[:3000])
        if e.get("err"):
            return None, "step %s failed: %s" % (gid, e["err"])
        f = (e.get("files") or {}).get(path)
        if not f:
            return None, "step %s reported success but did not write %s" % (gid, path)
        if "conv" in f:
            return f["conv"], None
        if f.get("convErr"):
            return None, "step %s wrote unreadable YAML: %s" % (gid, f["convErr"])
        try:
            return json.loads(f["text"]), None
        except ValueError as x:
            return None, "step %s wrote unreadable JSON to %s: %s" % (gid, path, x)


class Check:
    """Collects what a check observed and ends it with a verdict."""

    def __init__(self, prop, rule, level="exploration"):
        self.prop, self.rule, self.level = prop, rule, level
        self.violations, self.known, self.evaluations = [], [], 0
        self.distinct, self.samples, self.counts, self.assumptions = set(), [], {}, []
        self.findings = load_findings(prop)

    def saw(self, key, n=1, nontrivial=True):
        self.evaluations += n
        if nontrivial:
            self.distinct.add(key if isinstance(key, str) else json.dumps(key, sort_keys=True, default=str))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, detail=None):
        self.violations.append({"what": what, "detail": detail})

    def known_finding(self, finding_id, what):
        self.known.append((finding_id, what))

    def finish(self, min_distinct=1):
        for fid, what in self.known:
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, fid, what))
        replay = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d.json" % (self.prop, TIER, SEED))
        if self.violations:
            write(replay, json.dumps({"property": self.prop, "seed": SEED, "tier": TIER, "violations": self.violations[:50],
                                      "rerun": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 harness/check.py %s" % (SEED, TIER, self.prop)},
                                     indent=1, default=str))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or sorted(self.distinct)[:5])
        cov.update({"observed_" + k: v for k, v in sorted(self.counts.items())})
        cov["known_findings_reproduced"] = len(self.known)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - START, 2), violations=len(self.violations))
        write(os.path.join(VERIF, "evidence", self.prop + ".json"), json.dumps(ev, indent=1, default=str) + "\n")
        for v in self.violations[:8]:
            print("  - %s" % str(v["what"])[:1500])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            sys.exit(1)
        if len(self.distinct) < min_distinct:
            print("INCONCLUSIVE property=%s observed too little: %d < %d" % (self.prop, len(self.distinct), min_distinct))
            sys.exit(3)
        print("OK property=%s evaluations=%d distinct=%d %s wall=%.1fs" % (
            self.prop, self.evaluations, len(self.distinct), self.counts, time.time() - START))
        sys.exit(0)


def load_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    r = json.loads(line)
                    if r.get("property") == prop and r.get("status") == "known":
                        out.append(r)
    return out


def rng(*parts):
    return random.Random(int.from_bytes(hashlib.sha256(repr((SEED,) + parts).encode()).digest()[:8], "big"))
