"""The driver: workers, one forked process per run, aggregation, minimisation, replay files, evidence."""

from __future__ import annotations

import argparse
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

from . import ctx as C

_mono = _time.monotonic  # the real clock; only for wall-clock caps and reporting
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL = 20.0  # real seconds in which nothing in a run wants the processor
CPU = 20  # processor seconds one run may take (an ordinary one takes 0.02)


# --------------------------------------------------------------------------- one run in a child
def run_one(prop, scn, wd, wall=WALL, cpu=CPU):
    """Execute a scenario in a forked child. Returns its result dict."""
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu * 4))
            os.chdir(wd)
            f = os.fdopen(w, "wb")

            def out(res):
                f.write(json.dumps(res, default=repr).encode())
                f.flush()

            try:
                res = C.run_body(prop, scn, wd, out)
            except BaseException as e:  # noqa: BLE001
                if C.from_repo(e):
                    # where no failure was provoked the code under test has to succeed
                    res = {"violations": [{"oracle": "unexpected", "detail": f"raised {type(e).__name__}: {str(e)[:200]}"}], **EMPTY}
                else:
                    res = {"harness_error": traceback.format_exc()}
            out(res)
        except BaseException:  # noqa: BLE001
            code = 98
        finally:
            os._exit(code)
    os.close(w)
    buf, why = C.watch(pid, r, wall, wall * 10)
    if why:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if why == "idle":
        return {"violations": [{"oracle": "hang:wall", "detail": f"everything waited for {wall:.0f} s of real time"}], "wall": True, **EMPTY}
    if why:
        return {"harness_error": "no result in time: the machine has too much to do"}
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st)
        if sg == signal.SIGXCPU:
            return {"violations": [{"oracle": "hang:wall", "detail": f"the run did not end within {cpu} s of processor time"}], "wall": True, **EMPTY}
        if sg == signal.SIGKILL:
            return {"harness_error": "child killed (out of memory?)"}
        return {"violations": [{"oracle": f"crash:{signal.Signals(sg).name}", "detail": "the process crashed"}], **EMPTY}
    try:
        return json.loads(buf)
    except ValueError:
        return {"harness_error": f"no result (status {st}): {buf[:200]!r}"}


EMPTY = {"counts": {}, "flags": {}, "steps": 0, "switches": 0, "preemptions": 0, "ihash": 0, "digest": 0, "devs": [], "now": 0.0, "log": [], "lines": 0, "tasks": 0}


def run_sure(prop, scn, wd):
    """Confirm results that depend on the machine (real-time limit) with a second, longer run."""
    res = run_one(prop, scn, wd)
    if res.get("wall") and not scn["sched"].get("lines"):
        # a loop that never reaches a seam: with every line as a step the step limit ends it, exactly repeatable
        x = json.loads(json.dumps(scn))
        x["sched"]["lines"] = ["/rxls/"]
        r = run_one(prop, x, wd)
        if not r.get("wall") and any(v["oracle"].startswith("hang") for v in r.get("violations", ())):
            scn["sched"]["lines"] = ["/rxls/"]
            return r
    if res.get("wall") or "harness_error" in res:
        res = run_one(prop, scn, wd, WALL * 3, CPU * 3)
    return res


def scenario(prop, seed, i):
    rng = random.Random(f"{seed}/{prop.id}/{i}")
    scn = prop.gen(rng)
    scn["prop"] = prop.id
    scn["origin"] = f"{seed}/{prop.id}/{i}"
    return scn


# --------------------------------------------------------------------------- known findings
def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def match_known(known, scn, v):
    import re

    for k in known:
        if re.fullmatch(k["oracle"], v["oracle"]) and re.search(k["detail"], v["detail"], re.S):
            w = k.get("where", {})
            if all(re.search(x, json.dumps(scn.get(y), sort_keys=True)) for y, x in w.items()):
                return k
    return None


# --------------------------------------------------------------------------- worker
def worker(prop, seed, n, w, nw, cap, outfile, stopfile, tmp, known):
    agg = {"runs": 0, "counts": {}, "flags": {}, "steps": 0, "switches": 0, "preemptions": 0, "now": 0.0, "nontrivial": 0, "violations": [], "known": {}, "harness": [], "fault_runs": 0, "lines": 0, "rechecks": 0, "recheck_diff": 0, "kinds": {}}
    digests = set()
    ihashes = set()
    samples = []
    wd = os.path.join(tmp, f"w{w}")
    t0 = _mono()
    last = -1
    for i in range(w, n, nw):
        if _mono() - t0 > cap or os.path.exists(stopfile):
            break
        scn = scenario(prop, seed, i)
        res = run_sure(prop, scn, wd)
        agg["runs"] += 1
        last = i
        if "harness_error" in res:
            agg["harness"].append([i, res["harness_error"]])
            if len(agg["harness"]) > 3:
                break
            continue
        for k in ("counts", "flags"):
            for a, b in res[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        for k in ("steps", "switches", "preemptions", "now", "lines"):
            agg[k] += res[k]
        agg["fault_runs"] += any(a.startswith("fault:") for a in res["counts"])
        pk = scn["sched"]["policy"]
        agg["kinds"][pk] = agg["kinds"].get(pk, 0) + 1
        if prop.nontrivial(scn, res):
            agg["nontrivial"] += 1
            digests.add((res["digest"], res["steps"]))
        if res["switches"]:
            ihashes.add((res["ihash"], res["switches"]))
        if len(samples) < 2 and i >= w + 3 * nw and prop.nontrivial(scn, res):
            samples.append({"seed": scn["origin"], "scenario": summary(scn), "steps": res["steps"], "switches": res["switches"], "faults": {a: b for a, b in res["counts"].items() if a.startswith("fault:")}, "flags": res["flags"]})
        if i % 97 == w % 97 and not res["violations"]:
            again = run_one(prop, scn, wd)
            agg["rechecks"] += 1
            agg["recheck_diff"] += any(again.get(k) != res[k] for k in ("digest", "ihash", "steps", "now"))
        if res["violations"]:
            new = []
            for v in res["violations"]:
                k = match_known(known, scn, v)
                if k is None:
                    new.append(v)
                else:
                    agg["known"][k["id"]] = agg["known"].get(k["id"], 0) + 1
            if new:
                agg["violations"].append({"i": i, "violations": new, "scn": scn, "devs": res["devs"], "digest": res["digest"]})
                with open(stopfile, "w"):
                    pass
                break
    agg["digests"] = [list(d) for d in digests]
    agg["ihashes"] = [list(d) for d in ihashes]
    agg["samples"] = samples
    agg["last"] = last
    with open(outfile, "w") as f:
        json.dump(agg, f, default=repr)


def summary(scn):
    s = {k: v for k, v in scn.items() if k not in ("books", "prop")}
    s["books"] = {b: f"{x['fmt']} stored={x['stored']} sheets={[(h['nrows'], [c['k'] for c in h['cols']]) for h in x['sheets']]}" for b, x in scn.get("books", {}).items()}
    return s


# --------------------------------------------------------------------------- minimisation
class Shrinker:
    def __init__(self, prop, scn, oracle, wd, cap, known=()):
        self.prop, self.scn, self.oracle, self.wd = prop, scn, oracle, wd
        self.end = _mono() + cap
        self.tries = 0
        self.known = known

    def fails(self, scn):
        if _mono() > self.end:
            return None
        self.tries += 1
        try:
            res = run_one(self.prop, scn, self.wd, 20.0)
        except Exception:  # noqa: BLE001
            return None
        for v in res.get("violations", ()):
            if v["oracle"] == self.oracle and match_known(self.known, scn, v) is None:
                return res
        return None

    def attempt(self, scn):
        if self.fails(scn):
            self.scn = scn
            return True
        return False

    def attempt_sched(self, scn):
        """Any simple schedule will do."""
        for sc in (scn["sched"], dict(scn["sched"], policy="none"), dict(scn["sched"], policy="last"), dict(scn["sched"], policy="rr", quantum=3)):
            if _mono() > self.end:
                return False
            if self.attempt(dict(scn, sched=sc)):
                return True
        return False

    def run(self):
        import copy

        s = self.scn
        for pol in ("none", "first", "last"):
            if self.attempt(dict(s, sched=dict(s["sched"], policy=pol))):
                break
        for lines in ([], ["/rxls/"]):
            if len(lines) < len(self.scn["sched"].get("lines", [])) and self.attempt(dict(self.scn, sched=dict(self.scn["sched"], lines=lines))):
                break
        if self.scn.get("io"):
            self.attempt_sched(dict(self.scn, io={}))
        changed = True
        rounds = 0
        while changed and _mono() < self.end and rounds < 4:
            changed = False
            rounds += 1
            for key in ("faults", "ops", "actors", "pause", "recs"):
                if isinstance(self.scn.get(key), list):
                    changed |= self.drop_items(key)
            for key in ("opts", "wbopts"):
                for k in list(self.scn.get(key, {})):
                    t = copy.deepcopy(self.scn)
                    del t[key][k]
                    changed |= self.attempt_sched(t)
            for key in ("ops", "actors"):
                for i in range(len(self.scn.get(key) or ())):
                    o = self.scn[key][i]
                    if isinstance(o, dict):
                        for k in list(o.get("opts", {})):
                            t = copy.deepcopy(self.scn)
                            del t[key][i]["opts"][k]
                            changed |= self.attempt_sched(t)
                        if o.get("faults"):
                            t = copy.deepcopy(self.scn)
                            t[key][i]["faults"] = []
                            changed |= self.attempt_sched(t)
            for bk in list(self.scn.get("books", {})):
                changed |= self.shrink_book(bk)
            if self.scn.get("how") not in (None, "path"):
                self.attempt_sched(dict(self.scn, how="path"))
        return self.freeze()

    def drop_items(self, key):
        import copy

        any_ = False
        n = max(1, len(self.scn[key]) // 2)
        while n >= 1:
            i = 0
            while i < len(self.scn[key]) and _mono() < self.end:
                t = copy.deepcopy(self.scn)
                del t[key][i : i + n]
                if key == "ops" and self.scn["prop"] == "C12":
                    for f in t["faults"]:
                        if f["at"] >= i + n:
                            f["at"] -= n
                if (t[key] or key in ("faults", "pause")) and self.attempt_sched(t):
                    any_ = True
                else:
                    i += n
            n //= 2
        return any_

    def shrink_book(self, bk):
        import copy

        any_ = False

        def put(fn):
            nonlocal any_
            t = copy.deepcopy(self.scn)
            same = [b for b in t["books"] if t["books"][b]["sheets"] and _shape(t["books"][b]) == _shape(t["books"][bk])]
            for b in same:
                try:
                    if fn(t["books"][b]) is False:
                        return False
                except (IndexError, KeyError):
                    return False
            if t["books"] == self.scn["books"]:
                return False
            if self.attempt_sched(t):
                any_ = True
                return True
            return False

        spec = self.scn["books"][bk]
        for k in ("tail", "extra", "junk", "order", "level", "nl", "rot", "perm", "nosst"):
            if spec.get(k):
                put(lambda s, k=k: s.pop(k, None) and None)
        while len(self.scn["books"][bk]["sheets"]) > 1 and put(lambda s: s["sheets"].pop() and None):
            pass
        for si in range(len(self.scn["books"][bk]["sheets"])):
            while True:
                n = self.scn["books"][bk]["sheets"][si]["nrows"]
                if n > 1 and put(lambda s, si=si, n=n: s["sheets"][si].update(nrows=max(1, n // 2))):
                    continue
                if n > 1 and put(lambda s, si=si, n=n: s["sheets"][si].update(nrows=n - 1)):
                    continue
                break
            for k in ("pre", "hdr"):
                if self.scn["books"][bk]["sheets"][si].get(k):
                    put(lambda s, si=si, k=k: s["sheets"][si].update({k: 0}))
            while len(self.scn["books"][bk]["sheets"][si]["cols"]) > 1 and put(lambda s, si=si: s["sheets"][si]["cols"].pop() and None):
                pass
            for ci in range(len(self.scn["books"][bk]["sheets"][si]["cols"])):
                for k in ("nm", "er", "nv", "dup", "fr", "len", "at", "one", "hn"):
                    if k in self.scn["books"][bk]["sheets"][si]["cols"][ci]:
                        put(lambda s, si=si, ci=ci, k=k: s["sheets"][si]["cols"][ci].pop(k, None) and None)
        return any_

    def freeze(self):
        """Turn the schedule into an explicit list of preemptions, then minimise that list."""
        res = self.fails(self.scn) or run_one(self.prop, self.scn, self.wd)
        if res.get("devs") is None or not any(v["oracle"] == self.oracle for v in res.get("violations", ())):
            return self.scn
        s = dict(self.scn, sched={"policy": "replay", "devs": res["devs"], "lines": self.scn["sched"].get("lines", []), "seed": 0})
        if not self.fails(s):
            return self.scn  # replayed by its seed
        self.scn = s
        devs = list(s["sched"]["devs"])
        n = max(1, len(devs) // 2)
        while n >= 1 and devs and _mono() < self.end:
            i = 0
            while i < len(devs) and _mono() < self.end:
                t = devs[:i] + devs[i + n :]
                c = dict(self.scn, sched=dict(self.scn["sched"], devs=t))
                if self.attempt(c):
                    devs = t
                else:
                    i += n
            n //= 2
        return self.scn


def _shape(spec):
    return json.dumps([(s["nrows"], s["pre"], s["hdr"], s["cols"]) for s in spec["sheets"]], sort_keys=True)


# --------------------------------------------------------------------------- the check
def check(prop, tier, seed, args):
    t0 = _mono()
    nw = args.workers or min(8, os.cpu_count() or 1)
    n = args.runs or (prop.quick if tier == "quick" else prop.thorough)
    cap = args.cap or (240.0 if tier == "quick" else 760.0)
    known = known_findings(prop.id)
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        pids = []
        stop = os.path.join(tmp, "stop")
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    worker(prop, seed, n, w, nw, cap, os.path.join(tmp, f"out{w}.json"), stop, tmp, known)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 1
                finally:
                    os._exit(code)
            pids.append(pid)
        bad = 0
        for p in pids:
            _, st = os.waitpid(p, 0)
            bad += st != 0
        aggs = []
        for w in range(nw):
            try:
                with open(os.path.join(tmp, f"out{w}.json")) as f:
                    aggs.append(json.load(f))
            except OSError:
                bad += 1
        explored = _mono() - t0
        vs = sorted((v for a in aggs for v in a["violations"]), key=lambda v: v["i"])
        replay = None
        if vs:
            replay = report(prop, vs[0], tmp, args, known)
        ev = evidence(prop, tier, seed, aggs, n, explored, _mono() - t0, vs, nw, known)
        if not args.no_evidence:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
                json.dump(ev, f, indent=1, default=repr)
        harness = [h for a in aggs for h in a["harness"]]
        c = ev["coverage"]
        print(f"{prop.id}: {c['evaluations']} runs in {explored:.1f} s, {c['distinct_nontrivial']} distinct non-trivial, {c['distinct_interleavings']} interleavings, {c['simulated_seconds']:.0f} simulated s")
        print("  faults fired: " + (", ".join(f"{k} {v}" for k, v in sorted(c["faults_fired"].items())) or "none"))
        print("  outcomes: " + ", ".join(f"{k} {v}" for k, v in sorted(c["outcomes"].items())))
        for k in known:
            hits = sum(a["known"].get(k["id"], 0) for a in aggs)
            print(f"KNOWN-FINDING: property={prop.id} {k['what']} ({hits} run(s))")
        if replay:
            print(f"VIOLATION property={prop.id} replay={replay}")
            return 1
        if harness and not bad and len(harness) <= max(2, c["evaluations"] // 500):
            print(f"{prop.id}: {len(harness)} run(s) without a verdict (see the evidence file); every other run counts", file=sys.stderr)
        elif harness or bad:
            for h in harness[:2]:
                print(f"harness error in run {h[0]}:\n{h[1]}", file=sys.stderr)
            print(f"{prop.id}: error of the check itself ({len(harness)} harness errors, {bad} lost workers)", file=sys.stderr)
            return 3
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, v, tmp, args, known):
    oracle = v["violations"][0]["oracle"]
    wd = os.path.join(tmp, "shrink")
    scn = v["scn"]
    sh = Shrinker(prop, scn, oracle, wd, args.shrink, known)
    small = scn
    if not oracle.startswith("hang:wall"):
        small = sh.run()
    res = run_sure(prop, small, wd)
    if not any(x["oracle"] == oracle for x in res.get("violations", ())):
        small, res = scn, run_sure(prop, scn, wd)
    doc = {
        "property": prop.id,
        "oracle": oracle,
        "violations": res.get("violations", v["violations"]),
        "seed": scn["origin"],
        "expect": {k: res.get(k) for k in ("digest", "ihash", "steps")},
        "schedule": small["sched"],
        "faults": small.get("faults", []),
        "event_log_tail": res.get("log", []),
        "shrink_attempts": sh.tries,
        "scenario": small,
        "original_scenario": scn,
    }
    body = json.dumps(doc, indent=1, default=repr)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-{hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(body)
    for x in doc["violations"][:3]:
        print(f"  {x['oracle']}: {x['detail']}")
    print(f"  seed {scn['origin']}, {sh.tries} shrink attempts, {len(small.get('sched', {}).get('devs', []))} forced switches, faults {small.get('faults', [])}")
    return os.path.relpath(path, VERIF)


STUBS = {
    "real": ["all of rxls", "zipfile", "zlib", "pyexpat", "pyarrow", "numpy", "threading.Thread/Event/Condition logic above the lock"],
    "simulated": ["storage behind open() and caller streams", "thread scheduler, locks, queue.SimpleQueue, thread start/join", "clocks and sleeps", "row callback, null predicate, consumer", "allocation failures at numpy/pyarrow constructors, queue puts, lines of rxls/chunk"],
}


def evidence(prop, tier, seed, aggs, n, explored, wall, vs, nw, known):
    tot = lambda k: sum(a[k] for a in aggs)  # noqa: E731
    mer = {}
    for k in ("counts", "flags", "kinds", "known"):
        mer[k] = {}
        for a in aggs:
            for x, y in a[k].items():
                mer[k][x] = mer[k].get(x, 0) + y
    runs = tot("runs")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len({tuple(d) for a in aggs for d in a["digests"]}),
        "rule": prop.rule,
        "samples": [s for a in aggs for s in a["samples"]][:6] or [{"note": "no non-trivial run yet"}],
        "planned_runs": n,
        "nontrivial_runs": tot("nontrivial"),
        "distinct_interleavings": len({tuple(d) for a in aggs for d in a["ihashes"]}),
        "interleaving_measure": "hash of the sequence of task switches and the point at which each happened",
        "runs_per_hour": round(runs / max(explored, 1e-9) * 3600),
        "seeds": f"{seed}/{prop.id}/0 .. {n - 1}",
        "simulated_seconds": round(tot("now"), 3),
        "scheduling_points": tot("steps"),
        "task_switches": tot("switches"),
        "forced_preemptions": tot("preemptions"),
        "lines_as_preemption_points": tot("lines"),
        "faults_fired": {k[6:]: v for k, v in mer["counts"].items() if k.startswith("fault:")},
        "runs_with_a_fault": tot("fault_runs"),
        "other_events": {k: v for k, v in mer["counts"].items() if not k.startswith("fault:")},
        "outcomes": mer["flags"],
        "schedule_policies": mer["kinds"],
        "runs_without_verdict": [h[0] for a in aggs for h in a["harness"]],
        "determinism_rechecks": tot("rechecks"),
        "determinism_mismatches": tot("recheck_diff"),
        "known_findings_hit": mer["known"],
        "components": STUBS,
        "workers": nw,
    }
    return {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "preemption happens between lines of rxls and zipfile and at every lock, queue, thread and I/O operation; not inside one line, nor inside C code",
            "the reference model and the workbook writers in dst/book.py are right about the generated domain",
            "numba and polars are not installed here, so the branches of the code that need them do not run",
        ],
        "wall_s": round(wall, 2),
        "violations": len(vs),
    }


# --------------------------------------------------------------------------- replay and selftest
def replay(path):
    with open(path) as f:
        doc = json.load(f)
    from .props import PROPS

    prop = PROPS[doc["property"]]
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        res = run_sure(prop, doc["scenario"], os.path.join(tmp, "w"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if "harness_error" in res:
        print(res["harness_error"], file=sys.stderr)
        return 3
    hit = [v for v in res["violations"] if v["oracle"] == doc["oracle"]]
    for v in res["violations"]:
        print(f"  {v['oracle']}: {v['detail']}")
    same = all(doc["expect"].get(k) == res.get(k) for k in ("digest", "ihash", "steps"))
    print(f"  steps {res['steps']}, event digest {res['digest']}: {'identical to' if same else 'different from'} the recorded execution")
    if hit:
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print("not reproduced on this tree")
    return 0


def selftest(args):
    """Digests of many runs, for comparison across interpreters, hash seeds and worker counts."""
    from .props import PROPS

    ids = args.only.split(",") if args.only else list(PROPS)
    nw = args.workers or 8
    tmp = tempfile.mkdtemp(prefix="dst-")
    pids = []
    try:
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                with open(os.path.join(tmp, f"d{w}"), "w") as f:
                    for p in ids:
                        for i in range(w, args.runs or 200, nw):
                            res = run_one(PROPS[p], scenario(PROPS[p], args.seed, i), os.path.join(tmp, f"w{w}"))
                            f.write(f"{p} {i:06d} {res.get('digest')} {res.get('ihash')} {res.get('steps')} {res.get('now')} {len(res.get('violations', []))} {str(res.get('harness_error', ''))[-80:]!r}\n")
                os._exit(0)
            pids.append(pid)
        for p in pids:
            os.waitpid(p, 0)
        lines = []
        for w in range(nw):
            with open(os.path.join(tmp, f"d{w}")) as f:
                lines += f.readlines()
        print("".join(sorted(lines)), end="")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--cap", type=float, default=0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--shrink", type=float, default=60.0)
    ap.add_argument("--only", default="")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--one", type=int, default=-1, help="run one scenario and print its result")
    args = ap.parse_args()
    C.load()
    if args.what == "setup":
        print("rxls imported from", sys.modules["rxls"].__file__)
        return 0
    if args.what == "replay":
        return replay(args.file)
    if args.what == "selftest":
        return selftest(args)
    from .props import PROPS

    prop = PROPS[args.what]
    if args.one >= 0:
        tmp = tempfile.mkdtemp(prefix="dst-")
        scn = scenario(prop, args.seed, args.one)
        print(json.dumps(scn, indent=1))
        res = run_one(prop, scn, os.path.join(tmp, "w"))
        res.pop("devs", None)
        print(json.dumps(res, indent=1))
        shutil.rmtree(tmp, ignore_errors=True)
        return 0
    return check(prop, args.tier, args.seed, args)


if __name__ == "__main__":
    sys.exit(main())
