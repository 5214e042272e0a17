"""Case runner: seeded cases in worker processes, verdicts, replays, evidence."""
import argparse
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import boot

VERIF = boot.VERIF


class Violation(Exception):
    """The monitor saw the property broken. ``mech`` names the mechanism."""

    def __init__(self, mech, msg):
        super().__init__(f"[{mech}] {msg}")
        self.mech = mech
        self.msg = msg


class Skip(Exception):
    """The generated case is not usable (not counted as an evaluation)."""


class Inconclusive(Exception):
    """The oracle could not decide this case."""


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx:
    def __init__(self, prop, kind, seed, index, tier):
        self.prop, self.kind, self.seed, self.index, self.tier = prop, kind, seed, index, tier
        h = hashlib.sha256(f"{prop}|{kind}|{seed}|{index}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.counters = collections.Counter()
        self.sig = None
        self.nontrivial = True
        self.sample = None
        self.trace = []
        self.known = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def note(self, text):
        """Record a line of the history of this case (shown when it fails)."""
        self.trace.append(str(text))

    def count(self, key, n=1):
        self.counters[key] += n

    def fail(self, mech, msg):
        raise Violation(mech, msg)

    def check(self, cond, mech, msg=""):
        self.counters["monitor_checks"] += 1
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg)


def _in_repo(tb):
    root = os.path.realpath(boot.REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return True
    return False


def execute(prop, kinds, kind, seed, index, tier, timeout=None):
    """Run one case; returns a plain dict."""
    spec = kinds[kind]
    ctx = Ctx(prop, kind, seed, index, tier)
    t0 = time.time()
    res = {"kind": kind, "index": index, "status": "ok"}
    signal.signal(signal.SIGALRM, _alarm)
    limit = timeout or spec.get("timeout", 60)
    signal.setitimer(signal.ITIMER_REAL, limit)
    random.seed(ctx.rng.random())
    try:
        spec["fn"](ctx)
    except CaseTimeout:
        res.update(status="timeout", mech="hang." + kind,
                   msg=f"case did not finish within {limit} s", tb="")
    except Skip as e:
        res.update(status="skip", msg=str(e))
    except Inconclusive as e:
        res.update(status="inconclusive", msg=str(e))
    except Violation as e:
        res.update(status="violation", mech=e.mech, msg=e.msg, tb=traceback.format_exc())
    except (Exception, RecursionError) as e:  # noqa: BLE001
        inside = _in_repo(e.__traceback__)
        res.update(status="violation" if inside else "harness_error",
                   mech=f"exception.{kind}.{type(e).__name__}",
                   msg=f"unexpected {type(e).__name__}: {e}", tb=traceback.format_exc())
    except BaseException as e:  # noqa: BLE001
        if type(e).__name__ in ("KeyboardInterrupt", "SystemExit"):
            raise
        res.update(status="harness_error", mech=type(e).__name__, msg=str(e), tb=traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res.update(sig=ctx.sig, nontrivial=bool(ctx.nontrivial), sample=ctx.sample,
               counters=dict(ctx.counters), wall=time.time() - t0, trace=ctx.trace[-60:],
               known=ctx.known)
    return res


_G = {}


def _worker(conn):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    os.dup2(devnull.fileno(), 1)
    while True:
        try:
            t = conn.recv()
        except EOFError:
            break
        if t is None:
            break
        kind, index = t
        conn.send(execute(_G["prop"], _G["kinds"], kind, _G["seed"], index, _G["tier"]))
    conn.close()
    os._exit(0)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def run_check(prop, kinds, *, rule, level="exploration", assumptions=(), prepare=None,
              argv=None, min_eval=None, deadline=(420, 3000), extra_coverage=None):
    """Main of a check.

    kinds: {name: {"fn": case(ctx), "quick": n, "thorough": n, "timeout": s,
                   "hang": bool (a confirmed hang is a violation)}}
    """
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--index", type=int)
    ap.add_argument("--n", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    t0 = time.time()
    if prepare:
        prepare(a.tier)
    if a.replay or a.index is not None:
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            kind, seed, index, tier = d["kind"], d["seed"], d["index"], d["tier"]
        else:
            kind, seed, index, tier = a.kind, a.seed, a.index, a.tier
        r = execute(prop, kinds, kind, seed, index, tier, timeout=600)
        print(json.dumps({k: v for k, v in r.items() if k not in ("tb", "trace")}, default=str))
        print("\n".join(r.get("trace", [])))
        print(r.get("tb", ""))
        if r["status"] == "violation":
            print(f"VIOLATION property={prop} replay={a.replay or '-'}")
            return 1
        return 0 if r["status"] in ("ok", "skip") else 2
    _G.update(prop=prop, kinds=kinds, seed=a.seed, tier=a.tier)
    tasks = []
    for k, s in kinds.items():
        if a.kind and not k.startswith(a.kind):
            continue
        n = a.n or s[a.tier]
        tasks += [((i + 0.5) / n, k, i) for i in range(n)]
    tasks.sort(key=lambda t: (t[0], t[1], t[2]))
    tasks = [(k, i) for _, k, i in tasks]
    planned = len(tasks)
    tasks.reverse()
    results = []
    ctx = mp.get_context("fork")
    limit = deadline[0] if a.tier == "quick" else deadline[1]
    from multiprocessing.connection import wait as mpwait
    stop = [False]
    viol = {}
    kmech = {k["mech"] for k in load_known() if k["property"] == prop and k.get("status") == "open"}

    class W:
        def __init__(self):
            self.conn, child = ctx.Pipe()
            self.proc = ctx.Process(target=_worker, args=(child,), daemon=True)
            self.proc.start()
            child.close()
            self.task, self.since = None, time.time()

        def feed(self):
            self.task = None
            if tasks and time.time() - t0 < limit and not stop[0]:
                self.task, self.since = tasks.pop(), time.time()
                self.conn.send(self.task)

    def lost(w, status, msg):
        kind, idx = w.task
        rep = kinds[kind]["report"](w.proc.pid) if kinds[kind].get("report") and status == "crash" else ""
        results.append({"kind": kind, "index": idx, "status": status,
                        "mech": ("hang." if status == "timeout" else "crash.") + kind,
                        "msg": msg + ("\n" + rep[:3000] if rep else ""), "tb": "", "trace": [], "counters": {},
                        "sig": None, "nontrivial": False, "sample": None, "wall": 0, "known": []})
        if status == "crash":
            crashes[0] += 1
            if crashes[0] >= 12:
                stop[0] = True

    crashes = [0]
    workers = [W() for _ in range(max(1, min(a.jobs, planned)))]
    for w in workers:
        w.feed()
    while any(w.task is not None for w in workers):
        busy = [w for w in workers if w.task is not None]
        ready = set(mpwait([w.conn for w in busy], timeout=5))
        for w in busy:
            if w.conn in ready:
                try:
                    r = w.conn.recv()
                except (EOFError, OSError):
                    w.proc.join(timeout=5)
                    lost(w, "crash", f"worker process died (exit code {w.proc.exitcode})")
                    workers[workers.index(w)] = n = W()
                    n.feed()
                    continue
                results.append(r)
                if r["status"] == "violation" and r["mech"] not in kmech:
                    viol.setdefault(r["mech"], []).append(r["index"])
                    if len(viol[r["mech"]]) >= 40 or sum(map(len, viol.values())) > 120:
                        stop[0] = True
                w.feed()
            elif time.time() - w.since > 2 * kinds[w.task[0]].get("timeout", 60) + 60:
                w.proc.kill()
                lost(w, "timeout", "case stuck in native code")
                workers[workers.index(w)] = n = W()
                n.feed()
    for w in workers:
        try:
            w.conn.send(None)
        except OSError:
            pass
    for w in workers:
        w.proc.join(timeout=2)
        if w.proc.is_alive():
            w.proc.kill()
    return finish(prop, kinds, a, results, planned, t0, rule, level, assumptions, min_eval, extra_coverage)


def finish(prop, kinds, a, results, planned, t0, rule, level, assumptions, min_eval, extra_coverage):
    stat = collections.Counter(r["status"] for r in results)
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "open"]
    known_seen = {}
    violations = []
    # a hang is a violation only if it is confirmed by a second, longer run alone
    confirmed = 0
    for r in results:
        if r["status"] == "timeout":
            if kinds[r["kind"]].get("hang", False) and confirmed < 2:
                confirmed += 1
                r2 = execute(prop, kinds, r["kind"], a.seed, r["index"], a.tier,
                             timeout=2 * kinds[r["kind"]].get("timeout", 60))
                if r2["status"] == "timeout":
                    r["status"] = "violation"
                    r["msg"] = "does not terminate: " + r["msg"]
                elif r2["status"] == "violation":
                    r.update(r2)
        elif r["status"] == "crash":
            if kinds[r["kind"]].get("crash", True):
                r["status"] = "violation"
    for r in results:
        for m, msg in r.get("known", ()):
            known_seen.setdefault(m, msg)
        if r["status"] == "violation":
            hit = [k for k in known if r["mech"] == k["mech"]]
            if hit:
                known_seen.setdefault(r["mech"], r["msg"])
            else:
                violations.append(r)
    evals = [r for r in results if r["status"] in ("ok", "violation")]
    distinct = {(r["kind"], r["sig"]) for r in evals if r["nontrivial"] and r["sig"] is not None}
    counters = collections.Counter()
    for r in results:
        for k, v in (r.get("counters") or {}).items():
            counters[k] += v
    samples, per_kind = [], collections.Counter()
    for r in evals:
        if r.get("sample") is not None and per_kind[r["kind"]] < 2:
            per_kind[r["kind"]] += 1
            samples.append({"kind": r["kind"], "index": r["index"], "case": r["sample"]})
    kstat = {}
    for k in kinds:
        c = collections.Counter(r["status"] for r in results if r["kind"] == k)
        if c:
            kstat[k] = dict(c)
    out_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(out_dir, "replay"), exist_ok=True)
    by_mech = {}
    for r in violations:
        by_mech.setdefault(r["mech"], []).append(r)
    lines = []
    for n, (mech, rs) in enumerate(sorted(by_mech.items(), key=lambda kv: -len(kv[1]))):
        if n >= 8:
            break
        r = min(rs, key=lambda r: (len(str(r.get("sample"))), r["index"]))
        path = os.path.join("evidence", "replay", f"{prop}-{n}.json")
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump({"property": prop, "kind": r["kind"], "seed": a.seed, "index": r["index"], "tier": a.tier,
                       "mech": mech, "msg": r["msg"], "traceback": r.get("tb"), "history": r.get("trace"),
                       "sample": r.get("sample"), "occurrences": len(rs),
                       "replay_cmd": f"checks/run {prop} --replay {path}"}, f, indent=1, default=str)
        print(f"# {mech} ({len(rs)} cases): {str(r['msg'])[:600]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    for k in known:
        if k["mech"] in known_seen:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    cov = {
        "evaluations": len(evals),
        "distinct_nontrivial": len(distinct),
        "rule": rule,
        "samples": samples[:24],
        "planned": planned,
        "statuses": dict(stat),
        "per_kind": kstat,
        "observed": dict(counters),
        "known_findings_reproduced": sorted(known_seen),
    }
    if extra_coverage:
        cov.update(extra_coverage(results))
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    tmp = os.path.join(out_dir, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if not a.kind:
        os.replace(tmp, os.path.join(out_dir, f"{prop}.json"))
    print(f"{prop} {a.tier} seed={a.seed}: {len(evals)} evaluations, {len(distinct)} distinct non-trivial, "
          f"{counters.get('monitor_checks', 0)} monitor checks, statuses {dict(stat)}, {ev['wall_s']} s")
    for line in lines:
        print(line)
    sys.stdout.flush()
    if violations:
        return 1
    herr = [r for r in results if r["status"] == "harness_error"]
    if herr:
        print("HARNESS ERROR", herr[0]["kind"], herr[0]["index"], herr[0]["msg"])
        print(herr[0]["tb"])
        return 2
    if a.kind:
        return 0
    for k, c in kstat.items():
        if c.get("ok", 0) + c.get("violation", 0) == 0 and not kinds[k].get("optional"):
            print(f"INCONCLUSIVE: kind {k} observed nothing: {c} "
                  + str([r.get("msg") for r in results if r["kind"] == k][:3]))
            return 2
    bad = stat["timeout"] + stat["inconclusive"]
    if bad > 0.25 * max(1, len(results)) or len(evals) < (min_eval or 0) or counters["monitor_checks"] == 0:
        print(f"INCONCLUSIVE: {dict(stat)}")
        return 2
    return 0
