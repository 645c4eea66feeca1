"""Builds and runs generated applications in parallel and keeps what was observed of them."""
import concurrent.futures, threading
from common import *
from gen import *
from oracle import *
from truth import *

DENSE = dict(handlers=90, per_pkg=9)
SMALL = dict(handlers=40, per_pkg=4)


class Run:
    """One application: its program (ground truth), where it was built, and the events of its runs."""

    def __init__(self, i, program, files, dir, binary):
        self.i, self.p, self.files, self.dir, self.bin = i, program, files, dir, binary
        self.ev = None


def route_step(id, keys, outputs=None, **kw):
    s = dict(op="gen", id=id, routers=[dict(routes=list(keys), group=kw.pop("group", 0))], outputs=outputs or [["openapi", "o.json"]])
    s["read"] = kw.pop("read", None) or [o[1] for o in s["outputs"]]
    s.update(kw)
    return s


def corpus(prop, n, opts, plan, par=3, mutate=None, more=None):
    """Generates, builds and runs n applications. plan(run) gives the steps; mutate(program, files) may add files."""

    def one(i):
        r = rng(prop, i)
        o = opts(r, i) if callable(opts) else opts
        p = Program(r, o)
        p.index = i
        if mutate:
            mutate(p)
        files = p.emit()
        if more:
            files.update(more(p) or {})
        d, b = build_app(files, "%s-%d" % (prop.lower(), i))
        run = Run(i, p, files, d, b)
        run.plan = plan(run)
        run.ev = run_app(d, b, run.plan, "%s-%d" % (prop.lower(), i))
        os.remove(b)
        return run

    if n == 1:
        return [one(0)]
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        return list(ex.map(one, range(n)))


def parallel(fs, par=3):
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        return [f.result() for f in [ex.submit(f) for f in fs]]


def doc_of(check, run, gid, path="o.json"):
    """The document of a step; a violation when a healthy application has none."""
    doc, why = run.ev.doc(gid, path)
    if doc is None:
        check.violation("program %d: %s" % (run.i, why), dict(step=gid))
    return doc


def ops_of(doc):
    return {(p, m): op for p, m, op in operations(doc)}


def canon(doc, op):
    """An operation without the names of the components it refers to."""
    return json.dumps(resolve(op, doc), sort_keys=True)


def diff(a, b, where=""):
    """The first differences of two JSON values."""
    out = []

    def go(x, y, w):
        if len(out) > 6 or x == y:
            return
        if isinstance(x, dict) and isinstance(y, dict):
            for k in sorted(set(x) | set(y), key=str):
                if k not in x:
                    out.append("%s/%s: only in the second: %s" % (w, k, short(y[k])))
                elif k not in y:
                    out.append("%s/%s: only in the first: %s" % (w, k, short(x[k])))
                else:
                    go(x[k], y[k], "%s/%s" % (w, k))
        elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            for i, (p, q) in enumerate(zip(x, y)):
                go(p, q, "%s[%d]" % (w, i))
        else:
            out.append("%s: %s became %s" % (w, short(x), short(y)))

    go(a, b, where)
    return out
