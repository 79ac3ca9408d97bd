"""Driver: explores every harness of one check to exhaustion (or to its time
budget), in parallel, replays counterexamples on the real code, validates the
encoding against the real code, writes the evidence file."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
VENV = "/opt/venv/lib/python3.12/site-packages"
CONCRETE_PY = "/opt/venv/bin/python"
PATH_LIMIT_S = 30


class PathTimeout(BaseException):
    pass


def setup(checkid):
    sys.dont_write_bytecode = True
    sys.path.insert(0, ROOT)
    sys.path.append(VENV)
    import warnings
    warnings.simplefilter("ignore")
    from sx import instrument
    with open(os.path.join(ROOT, "checks", checkid + ".py")) as f:
        symbolic_dates = "SYMBOLIC_DATES = True" in f.read()
    instrument.install({"normalize": REPO, "checks": ROOT},
                       instrument.pure_datetime() if symbolic_dates else ())
    # an optional dependency, which the installation at hand does not have
    sys.modules["dateutil"] = sys.modules["dateutil.parser"] = None
    sys.setrecursionlimit(4000)
    return importlib.import_module("checks." + checkid)


def monitor_functions(stats):
    """names of the functions of normalize executed symbolically"""
    mon = sys.monitoring
    tid = mon.COVERAGE_ID
    mon.use_tool_id(tid, "sx")
    prefix = os.path.join(REPO, "normalize") + os.sep

    def start(code, off):
        if code.co_filename.startswith(prefix):
            stats.functions.add(
                code.co_filename[len(REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


class Concrete(object):
    """the real code in its own interpreter"""

    def __init__(self, checkid):
        self.checkid = checkid
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONPYCACHEPREFIX="/nonexistent-sx",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PYTHONPATH=ROOT, TZ="UTC", SX_REPO=REPO)
        self.p = subprocess.Popen(
            [CONCRETE_PY, "-B", "-W", "ignore", "-m", "sx.concrete",
             self.checkid],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE if not os.environ.get("SX_DEBUG")
            else None, env=env, cwd=ROOT,
            text=True)

    def run(self, hname, values, tier):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(
                {"harness": hname, "values": values, "tier": tier}) + "\n")
            self.p.stdin.flush()
            import select
            r, _, _ = select.select([self.p.stdout], [], [], 300)
            if not r:
                self.p.kill()
                self.p.wait()
                # (the interpreter limits the processor time itself)
                return {"status": "error", "msg": "no answer",
                        "notes": [], "observed": []}
            line = self.p.stdout.readline()
            if not line:
                rc = self.p.wait()
                return {"status": "error",
                        "msg": "interpreter died rc=%s %s" % (
                            rc, (self.p.stderr.read() or "")[-800:]
                            if self.p.stderr else "")}
            return json.loads(line)
        except BrokenPipeError:
            self.p.wait()
            err = self.p.stderr.read()[-800:] if self.p.stderr else ""
            self.p = None
            return {"status": "error", "msg": "broken pipe " + err}

    def stop(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.kill()
            self.p.wait()


def _alarm(*a):
    raise PathTimeout()


def run_path(core, api, fn, params, tier, prefix):
    """one path; returns (state, S, status, message)"""
    from . import models
    models.forget_symbolic_keys()
    st = core.PathState(prefix)
    core.set_path(st)
    S = api.SymS(tier, params, st)
    core.STATS.paths += 1
    status, msg = "ok", ""
    signal.setitimer(signal.ITIMER_PROF, PATH_LIMIT_S)
    try:
        fn(S)
    except core.Violation as e:
        status, msg = "violation", e.msg
    except core.PathEnd as e:
        status, msg = "end", str(e)
    except core.Unsupported as e:
        status, msg = "unsupported", str(e)
        if os.environ.get("SX_DEBUG"):
            traceback.print_exc()
    except core.Inconclusive as e:
        status, msg = "inconclusive", str(e)
    except PathTimeout:
        status, msg = "violation", "does not terminate"
    except api.Skip as e:
        status, msg = "end", str(e)
    except Exception as e:
        try:
            S._vet(e)
            es = ""
            st.msg_mode = 1
            es = str(e)
            status = "violation"
            msg = "unexpected %s: %s" % (type(e).__name__, es[:300])
        except core.Unsupported as u:
            status, msg = "unsupported", str(u)
        if os.environ.get("SX_DEBUG"):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return st, S, status, msg


def worker(conn, checkid, tier, seed, validate_every):
    from sx import core, api
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    monitor_functions(core.STATS)
    conc = Concrete(checkid)
    hs = dict((fn.__name__, (fn, p)) for fn, p in api.HARNESSES)
    counts = {}
    while True:
        job = conn.recv()
        if job is None:
            break
        hname, prefixes, slice_s = job
        fn, params = hs[hname]
        core.STATS.__init__()
        core.STATS.functions = set()
        sys.monitoring.restart_events()
        stack = list(prefixes)
        res = {"h": hname, "violations": [], "problems": [], "mismatch": [],
               "samples": [],
               "nodes": 0, "edges": 0, "degraded": 0}
        t0 = time.perf_counter()
        while stack and time.perf_counter() - t0 < slice_s and \
                len(res["violations"]) < 3:
            prefix = stack.pop()
            try:
                st, S, status, msg = run_path(
                    core, api, fn, params, tier, prefix)
            except BaseException as e:
                res["problems"].append(
                    "engine: %s" % traceback.format_exc()[-1500:])
                continue
            stack.extend(st.pending)
            new = len(st.trace) - len(prefix)
            res["nodes"] += new + 1
            res["edges"] += new + len(st.pending)
            n = counts[hname] = counts.get(hname, 0) + 1
            need = status in ("violation", "unsupported")
            if status == "inconclusive":
                res["problems"].append("inconclusive: " + msg)
                continue
            if status == "end":
                continue
            if need or n % validate_every == 1 or validate_every == 1:
                try:
                    vals = st.values()
                    model = st.get_model()
                except core.PathEnd:
                    continue
                except core.Inconclusive as e:
                    res["problems"].append("inconclusive: " + str(e))
                    continue
                r = conc.run(hname, vals, tier)
                if status == "ok":
                    if r["status"] == "violation":
                        res["violations"].append(
                            [hname, vals, r["msg"], r.get("where"),
                             "found while validating"])
                        continue
                    if r["status"] != "ok":
                        res["problems"].append(
                            "validation run: %r on %s %r" % (r, hname, vals))
                        continue
                    st.msg_mode = 1
                    obs = [[l, S.under_model(v, model)]
                           for l, v in S.observed]
                    obs = json.loads(json.dumps(obs))
                    if obs != r["observed"] or S.notes != r["notes"]:
                        res["mismatch"].append(
                            "encoding differs from the real code on %s %r: "
                            "%r / %r" % (hname, vals, (obs, S.notes),
                                         (r["observed"], r["notes"])))
                        continue
                    core.STATS.validated += 1
                    if len(res["samples"]) < 2:
                        res["samples"].append(
                            {"harness": hname, "inputs": vals,
                             "decisions": len(st.trace),
                             "notes": S.notes[:8]})
                elif status == "violation":
                    if r["status"] == "violation":
                        core.STATS.violations += 1
                        res["violations"].append(
                            [hname, vals, r["msg"], r.get("where"), msg])
                    else:
                        res["mismatch"].append(
                            "counterexample does not reproduce: %s %r: %s "
                            "/ %r" % (hname, vals, msg, r))
                else:       # unsupported: decided for one witness only
                    if r["status"] == "violation":
                        res["violations"].append(
                            [hname, vals, r["msg"], r.get("where"), msg])
                    else:
                        res["degraded"] += 1
                        res.setdefault("degraded_why", {})
                        res["degraded_why"][msg[:100]] = \
                            res["degraded_why"].get(msg[:100], 0) + 1
        res["left"] = stack
        res["stats"] = core.STATS.as_dict()
        conn.send(res)
    conc.stop()
    conn.close()


def load_known(checkid):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) harness=(\S+) "
                         r"match=/(.*?)/ (.*)$", line)
            if m and m.group(1) == checkid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ns = ap.parse_args()
    checkid, tier = ns.check, ns.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        mod = setup(checkid)
    except Exception:
        traceback.print_exc()
        # the code does not import under the engine: let the real code speak
        print("ERROR: cannot load the code under test")
        return 2
    from sx import api
    harnesses = [(fn, p) for fn, p in api.HARNESSES
                 if not ns.only or re.search(ns.only, fn.__name__)]
    budget = ns.budget or (600 if tier == "quick" else 3000)
    jobs = ns.jobs or min(8, os.cpu_count() or 4)
    validate_every = getattr(mod, "VALIDATE_EVERY", 7)
    known = load_known(checkid)

    ctx = mp.get_context("fork")
    workers = []
    for _ in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, daemon=False,
                        args=(b, checkid, tier, seed, validate_every))
        p.start()
        b.close()
        workers.append([p, a, None])

    queue = [(fn.__name__, [[]]) for fn, _ in reversed(harnesses)]
    tot = {}
    per_h = dict((fn.__name__, {"paths": 0, "queries": 0}) for fn, _ in
                 harnesses)
    violations, problems, samples = [], [], []
    mismatch = []
    known_hit = {}
    nodes = edges = degraded = 0
    degraded_why = {}
    timed_out = False
    functions = set()
    witness = {}
    realised_at = {}
    from multiprocessing.connection import wait
    stop = False
    vcount = {}
    while True:
        for w in workers:
            if w[2] is None and queue and not stop:
                h, prefs = queue.pop()
                w[2] = h
                # short slices while other workers idle
                idle = sum(1 for x in workers if x[2] is None)
                w[1].send((h, prefs, 0.25 if idle > len(queue) else 2.0))
        busy = [w for w in workers if w[2] is not None]
        if not busy:
            break
        ready = wait([w[1] for w in busy], timeout=5)
        for w in busy:
            if w[1] not in ready:
                continue
            try:
                r = w[1].recv()
            except EOFError:
                problems.append("a worker died in %s" % w[2])
                w[2] = None
                workers.remove(w)
                continue
            w[2] = None
            h = r["h"]
            s = r["stats"]
            functions.update(s.pop("functions"))
            for k, v in s.pop("witness").items():
                kk = h + ":" + k
                witness[kk] = witness.get(kk, 0) + v
            for k, v in s.pop("realised_at").items():
                realised_at[k] = realised_at.get(k, 0) + v
            for k, v in s.items():
                tot[k] = tot.get(k, 0) + v
            per_h[h]["paths"] += s["paths"]
            per_h[h]["queries"] += s["feas_queries"] + s["prove_queries"]
            per_h[h]["solver_s"] = round(
                per_h[h].get("solver_s", 0) + s["solver_s"], 3)
            nodes += r["nodes"]
            edges += r["edges"]
            degraded += r["degraded"]
            for k, v in r.get("degraded_why", {}).items():
                degraded_why[k] = degraded_why.get(k, 0) + v
            if r["degraded"]:
                per_h[h]["degraded"] = per_h[h].get("degraded", 0) + \
                    r["degraded"]
            problems.extend(r["problems"])
            mismatch.extend(r["mismatch"])
            if len(samples) < 24:
                samples.extend(r["samples"])
            for v in r["violations"]:
                hit = None
                blob = v[2] + " " + json.dumps(v[1], sort_keys=True)
                for kh, rx, text in known:
                    if kh == v[0] and rx.search(blob):
                        hit = text
                if hit is not None:
                    known_hit[hit] = known_hit.get(hit, 0) + 1
                else:
                    violations.append(v)
                    vcount[h] = vcount.get(h, 0) + 1
                    if not ns.keep_going:
                        stop = True
            left = r["left"]
            if left and vcount.get(h, 0) < 5 and not stop:
                # split the remaining work
                free = max(1, sum(1 for x in workers if x[2] is None))
                n = min(len(left), max(1, min(
                    free, 8 if len(queue) < 16 else 1)))
                for i in range(n):
                    queue.append((h, left[i::n]))
        if time.time() - t0 > budget:
            if queue:
                timed_out = True
            stop = True
            if timed_out:
                queue = []
    for w in workers:
        try:
            w[1].send(None)
        except (BrokenPipeError, OSError):
            pass
    for w in workers:
        w[0].join(5)
        if w[0].is_alive():
            w[0].kill()

    # vacuity: every declared witness must have been reached
    vacuous = []
    for fn, p in harnesses:
        if not stop and per_h[fn.__name__]["paths"] and not violations \
                and not per_h[fn.__name__].get("degraded"):
            for tag in p.get("witness", ("end",)):
                if not witness.get(fn.__name__ + ":" + tag):
                    vacuous.append(fn.__name__ + ":" + tag)
    wall = time.time() - t0
    tot_q = tot.get("feas_queries", 0) + tot.get("prove_queries", 0)
    ev = {
        "property": checkid, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": nodes, "transitions": edges,
            "traces_validated_against_impl": tot.get("validated", 0),
            "samples": samples[:12],
            "exhaustive": bool(not stop and not timed_out and not degraded
                               and not mismatch
                               and not problems),
            "paths": tot.get("paths", 0),
            "solver_queries": tot_q,
            "assertion_queries": tot.get("prove_queries", 0),
            "assertions_decided_by_path_condition":
                tot.get("proved_by_path", 0),
            "infeasible_or_assumed_away": tot.get("cut", 0),
            "solver_time_s": round(tot.get("solver_s", 0.0), 2),
            "functions_encoded": sorted(functions),
            "harnesses": per_h,
            "bounds": dict(
                (fn.__name__, api.Base(tier, p).p) for fn, p in harnesses),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
            "paths_decided_for_one_witness_only": degraded + len(mismatch),
            "why_one_witness_only": degraded_why,
            "realised_arguments": realised_at,
            "abstracted_messages": tot.get("abstracted_formats", 0),
            "reachability_witnesses": witness,
            "time_budget_exhausted": timed_out,
            "known_findings_hit": known_hit,
        },
        "assumptions": [
            "CPython 3.12 built-ins not modelled behave the same on proxies "
            "(validated on %d replayed paths)" % tot.get("validated", 0),
            "text of exception messages is abstracted",
        ] + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not ns.no_evidence and not ns.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", checkid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    print("%s %s: %d paths, %d queries (%.1fs solver), %d validated on the "
          "real code, %d one-witness, %.1fs" % (
              checkid, tier, tot.get("paths", 0), tot_q,
              tot.get("solver_s", 0), tot.get("validated", 0), degraded,
              wall))
    if ns.v:
        for h, d in per_h.items():
            print("   ", h, d)
        if degraded_why:
            print("   degraded:", degraded_why)
        if realised_at:
            print("   realised:", realised_at)
    for text in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (checkid, text))
    if timed_out:
        print("time budget exhausted; explored part only")
    rc = 0
    seen = set()
    if violations:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        n = 0
        for hname, vals, msg, where, smsg in violations:
            if (hname, msg) in seen:
                continue
            seen.add((hname, msg))
            n += 1
            path = os.path.join(rdir, "%s-%d.json" % (checkid, n))
            with open(path, "w") as f:
                json.dump({"property": checkid, "harness": hname,
                           "values": vals, "tier": tier, "message": msg,
                           "where": where, "symbolic": smsg,
                           "replay_cmd": "bin/replay " + path}, f, indent=1)
            print("  %s: %s" % (hname, msg))
            print("     inputs: %s" % json.dumps(vals, sort_keys=True))
            if where:
                print("     at: %s" % "; ".join(where))
            print("VIOLATION property=%s replay=%s" % (checkid, path))
        rc = 1
    # the real code decides: where it does not do what its encoding does, the
    # path is only decided for the inputs that were replayed.  On the code
    # the encoding was written for there are none of these; when they are more
    # than the odd one, nothing was decided.
    if os.environ.get("SX_STRICT") or \
            len(mismatch) * 10 > tot.get("paths", 0):
        problems.extend(mismatch)
    else:
        for p in mismatch[:5]:
            print("one witness only:", p[:500])
    for p in problems[:10]:
        print("PROBLEM:", p[:1500])
    if vacuous:
        print("VACUOUS:", ", ".join(vacuous))
    if rc == 0 and (problems or vacuous):
        rc = 2
    return rc


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
